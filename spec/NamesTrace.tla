----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* C10: a result file identifies its element.  Successive executions on    *)
(* the same images with other strides, ranges and selections, in the same  *)
(* directory.  cases.json: id, kind, steps: [op ("run" | "delete"), cfg    *)
(*  (see Names), how, stop, nexp, files (after: <<name, members, digest>>),*)
(*  rewritten, reported, deleted], loaded: <<name, names of the images of  *)
(*  the object loaded from the file>>                                      *)
(***************************************************************************)
EXTENDS Names, Sets, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

Elem(c, f) == IF c.kind = "bos" THEN << f[2][Len(f[2])] >> ELSE f[2]
ElemsOf(c, files) == {Elem(c, f) : f \in RangeOf(files)}
NamesFor(c, files, S) == {f[1] : f \in {g \in RangeOf(files) : Elem(c, g) \in S}}
FileNames(files) == {f[1] : f \in RangeOf(files)}
Before(c, i) == IF i = 1 THEN <<>> ELSE c.steps[i - 1].files
Asked(c, i) == RangeOf(Elements(c.steps[i].cfg))
Todo(c, i) ==
  IF c.steps[i].how = "complete" THEN Asked(c, i) \ ElemsOf(c, Before(c, i)) ELSE Asked(c, i)

RunGuards(c, i) ==
  LET s == c.steps[i] b == Before(c, i) IN
  {<<"ends-normally", s.stop = "normal">>} \union
  (IF s.stop # "normal" THEN {} ELSE
  {<<"one-file-per-element", Cardinality(ElemsOf(c, s.files)) = Len(s.files)>>,
   <<"all-elements", ElemsOf(c, s.files) = ElemsOf(c, b) \union Asked(c, i)>>,
   <<"same-file", \A f \in RangeOf(b), g \in RangeOf(s.files) :
        (f[1] = g[1]) <=> (Elem(c, f) = Elem(c, g))>>,
   <<"existing-recognised", RangeOf(s.rewritten) = NamesFor(c, s.files, Todo(c, i))>>,
   <<"expected-number", s.nexp = Cardinality(Todo(c, i))>>,
   <<"reported", RangeOf(s.reported) = NamesFor(c, s.files, Todo(c, i))>>})

Loaded(c) ==
  \A l \in RangeOf(c.loaded) :
    \E f \in RangeOf(c.steps[Len(c.steps)].files) : f[1] = l[1] /\ f[2] = l[2]

Verdicts(c) ==
  UNION {{<<i, n>> : n \in FailingNames(
            IF c.steps[i].op = "run" THEN RunGuards(c, i) ELSE {})} : i \in 1..Len(c.steps)}
  \union {<<0, n>> : n \in FailingNames(
     {<<"loaded-names", Loaded(c)>>,
      <<"all-loaded", c.kind \in {"piv", "bos"} =>
          Len(c.loaded) = Len(c.steps[Len(c.steps)].files)>>})}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in Verdicts(Cases[tr]) :
       PrintT(<<"VERDICT", Cases[tr].id, v[2], ToString(v[1])>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
