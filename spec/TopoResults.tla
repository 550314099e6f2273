---------------------------- MODULE TopoResults ----------------------------
(***************************************************************************)
(* C04: the results of a topology are a function of the images and of the  *)
(* parameters, whatever the executor.                                      *)
(*                                                                         *)
(* Result of a topology: a function from the elements (see Names) to       *)
(* contents; an execution writes one file for each element and reports its *)
(* name once.  cases.json: executions of one topology on the same images   *)
(*   id, kind, cfg (see Names), oracle (contents obtained by computing     *)
(*   each element alone), runs: [executor, stop, nexp, files, reported,    *)
(*   failures, outside], files: sequence of <<name, members, digest>>      *)
(***************************************************************************)
EXTENDS Names, Sets, Json

Cases == JsonDeserialize("cases.json")

VARIABLE tr

(* members said by the file of a result, without the reference image *)
FileElement(c, f) ==
  IF c.kind = "bos" THEN << f[2][Len(f[2])] >> ELSE f[2]

(* elements which can not be computed (the computation alone raises) *)
Failing(c) == {FileElement(c, f) : f \in {g \in RangeOf(c.oracle) : g[3] = "failed"}}
ExpectedElements(c) == RangeOf(Elements(c.cfg)) \ Failing(c)

(* surface tracking: the phase of an image is corrected with the one of the
   preceding image, so that only the first failure is raised *)
NbFailures(c) ==
  IF c.kind = "surf" THEN Len(c.unreadable) ELSE Cardinality(Failing(c))

(* the preprocessing saves the images of the subset *)
ExpectedFiles(c) ==
  IF c.kind = "pre" \/ c.kind = "im2im" \/ c.kind = "surf"
  THEN UNION {{<<e[j]>> : j \in 1..Len(e)} : e \in ExpectedElements(c)}
  ELSE IF c.kind = "mean" THEN {} ELSE ExpectedElements(c)

Reference(c, f) == c.kind = "bos" => f[2] = <<c.cfg.reference, f[2][Len(f[2])]>>

Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})

ReportsOf(c, r) ==
  IF c.kind = "mean" THEN {}
  ELSE {<<"reported-once", \A x \in RangeOf(r.reported) : Count(r.reported, x) = 1>>,
        <<"reported-number", Len(r.reported) = Len(Elements(c.cfg)) - Cardinality(Failing(c))>>,
        <<"reported-are-files",
          LET names == {f[1] : f \in RangeOf(r.files)}
          IN IF c.window > 1 THEN RangeOf(r.reported) \subseteq names
             ELSE RangeOf(r.reported) = names>>}

RunGuards(c, r) ==
  {<<"ends-normally", r.stop = "normal">>} \union
  (IF r.stop # "normal" THEN {} ELSE
  {<<"failures", Len(r.failures) = NbFailures(c)>>,
   <<"expected-number", r.nexp = Len(Elements(c.cfg))>>,
   <<"files-are-elements", {FileElement(c, f) : f \in RangeOf(r.files)} = ExpectedFiles(c)>>,
   <<"one-file-per-element", Len(r.files) = Cardinality(ExpectedFiles(c))>>,
   <<"reference", \A f \in RangeOf(r.files) : Reference(c, f)>>,
   <<"lock-released", r.locks = 0>>} \union ReportsOf(c, r))

SameContent(files1, files2) ==
  \A f \in RangeOf(files1), g \in RangeOf(files2) : f[2] = g[2] => f[3] = g[3]

SameNames(files1, files2) ==
  \A f \in RangeOf(files1), g \in RangeOf(files2) : f[2] = g[2] => f[1] = g[1]

Normal(c) == {i \in 1..Len(c.runs) : c.runs[i].stop = "normal"}

(* the first execution (sequential) against the others *)
PairGuards(c, i) ==
  LET r == c.runs[i] s == c.runs[1] IN
  {<<"same-content-as-each-alone",
     IF c.overlap \* an image is given by many subsets
     THEN \A f \in RangeOf(r.files) : \E g \in RangeOf(c.oracle) : f[2] = g[2] /\ f[3] = g[3]
     ELSE SameContent(r.files, c.oracle)>>,
   <<"same-content-as-sequential", SameContent(r.files, s.files)>>,
   <<"same-names-as-sequential", SameNames(r.files, s.files)>>,
   <<"name-of-result", c.kind = "im2im" => SameNames(r.files, c.oracle)>>,
   <<"same-mean", r.outside = s.outside>>}

CaseGuards(c) ==
  {<<"images-untouched", c.images_untouched>>,
   <<"oracle-complete", {FileElement(c, f) : f \in RangeOf(c.oracle)} =
       ExpectedFiles(c) \union Failing(c)>>}

Verdicts(c) ==
  {<<0, n>> : n \in FailingNames(CaseGuards(c))}
  \union UNION {{<<i, n>> : n \in FailingNames(RunGuards(c, c.runs[i]))} : i \in 1..Len(c.runs)}
  \union (IF 1 \notin Normal(c) THEN {} ELSE
          UNION {{<<i, n>> : n \in FailingNames(PairGuards(c, i))} : i \in Normal(c)})

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in Verdicts(Cases[tr]) :
       PrintT(<<"VERDICT", Cases[tr].id, v[2], ToString(v[1])>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
