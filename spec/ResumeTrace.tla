---------------------------- MODULE ResumeTrace ----------------------------
(***************************************************************************)
(* Validation of histories of executions against Resume.  cases.json:      *)
(*  id, kind, cfg, oracle, steps: [op ("run", "kill", "killio", "signal",  *)
(*  "delete", "rename"), how, stop, nexp, files (after), rewritten, reported, locks] *)
(*  files: sequence of <<name, members, digest>>                           *)
(***************************************************************************)
EXTENDS Names, Sets, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

Elem(c, f) == IF c.kind = "bos" THEN << f[2][Len(f[2])] >> ELSE f[2]
ElemsOf(c, files) == {Elem(c, f) : f \in RangeOf(files)}
NamesOf(files) == {f[1] : f \in RangeOf(files)}
(* names of the files of a set of elements *)
NamesFor(c, files, S) == {f[1] : f \in {g \in RangeOf(files) : Elem(c, g) \in S}}

All(c) == RangeOf(Elements(c.cfg))
Failing(c) == {Elem(c, f) : f \in {g \in RangeOf(c.oracle) : g[3] = "failed"}}
Good(c) == All(c) \ Failing(c)

Before(c, i) == IF i = 1 THEN <<>> ELSE c.steps[i - 1].files
Todo(c, i) ==
  IF c.steps[i].how = "complete" THEN All(c) \ ElemsOf(c, Before(c, i)) ELSE All(c)

Content(c, files) ==
  \A f \in RangeOf(files), o \in RangeOf(c.oracle) :
    Elem(c, f) = Elem(c, o) => f[3] = o[3]

Always(c, i) ==
  LET s == c.steps[i] IN
  {<<"complete-files-only", Content(c, s.files)>>,
   <<"only-elements", ElemsOf(c, s.files) \subseteq Good(c)>>,
   <<"foreign-untouched", s.foreign_ok>>,
   <<"one-file-per-element", Cardinality(ElemsOf(c, s.files)) = Len(s.files)>>}

Runs == {"run", "kill", "killio", "signal"}

(* any execution *)
RunGuards(c, i) ==
  LET s == c.steps[i] b == Before(c, i) IN
  {<<"nothing-lost", ElemsOf(c, b) \subseteq ElemsOf(c, s.files)>>,
   <<"same-names", NamesOf(b) \subseteq NamesOf(s.files)>>,
   <<"complete-touches-nothing",
     s.how = "complete" => RangeOf(s.rewritten) \intersect NamesOf(b) = {}>>,
   <<"does-not-hang", s.stop # "hang">>}

(* not interrupted *)
EndGuards(c, i) ==
  LET s == c.steps[i]
      todo == Todo(c, i) \ Failing(c)
  IN
  {<<"ends-normally", s.stop = "normal">>} \union
  (IF s.stop # "normal" THEN {} ELSE
  {<<"everything-computed", ElemsOf(c, s.files) = Good(c)>>,
   <<"computed-what-had-to-be", RangeOf(s.rewritten) = NamesFor(c, s.files, todo)>>,
   <<"reported", RangeOf(s.reported) = NamesFor(c, s.files, todo)>>,
   <<"reported-once", Len(s.reported) = Cardinality(RangeOf(s.reported))>>,
   <<"expected-number", s.nexp = Cardinality(Todo(c, i))>>,
   <<"no-lock", s.locks <= s.locks_before>>})

(* stopped by the signal: what is reported is what has been saved *)
SignalGuards(c, i) ==
  LET s == c.steps[i] IN
  {<<"signal-ends-normally", s.stop = "normal">>} \union
  (IF s.stop # "normal" THEN {} ELSE
  {<<"signal-reported", RangeOf(s.reported) = RangeOf(s.rewritten)>>,
   <<"signal-reported-once", Len(s.reported) = Cardinality(RangeOf(s.reported))>>,
   <<"signal-no-lock", s.locks <= s.locks_before>>})

(* killed before the end, or ended normally if the point was not reached *)
KillGuards(c, i) ==
  IF c.steps[i].stop = "died" THEN {} ELSE EndGuards(c, i)

DeleteGuards(c, i) ==
  {<<"delete", NamesOf(c.steps[i].files) = NamesOf(Before(c, i)) \ RangeOf(c.steps[i].deleted)>>}

StepGuards(c, i) ==
  LET op == c.steps[i].op IN
  Always(c, i) \union
  (IF op \in Runs THEN RunGuards(c, i) ELSE {}) \union
  (CASE op = "run" -> EndGuards(c, i)
     [] op = "signal" -> SignalGuards(c, i)
     [] op \in {"kill", "killio"} -> KillGuards(c, i)
     [] op \in {"delete", "rename"} -> DeleteGuards(c, i))

Verdicts(c) ==
  UNION {{<<i, n>> : n \in FailingNames(StepGuards(c, i))} : i \in 1..Len(c.steps)}
  \union {<<0, n>> : n \in FailingNames({<<"images-untouched", c.images_untouched>>})}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in Verdicts(Cases[tr]) :
       PrintT(<<"VERDICT", Cases[tr].id, v[2], ToString(v[1])>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
