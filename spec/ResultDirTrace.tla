--------------------------- MODULE ResultDirTrace ---------------------------
(***************************************************************************)
(* Validation of histories of computations (real topologies) against       *)
(* ResultDir.  cases.json: id, kind, cfg, steps: [op ("compute", "killed", *)
(* "mkdir", "rmdir", "delete"), base, how, answers, stop, raised, dir,     *)
(* dirs (after)]; dirs: sequence of [name, files (<<name, members,         *)
(* digest>>), rewritten, others (<<name, digest>>)]                        *)
(***************************************************************************)
EXTENDS Names, Sets, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

D == INSTANCE ResultDir WITH Bases <- {}, N <- 0, MaxIndex <- 0, MaxLen <- 0,
       Record <- FALSE, disk <- <<>>, now <- 0, hist <- <<>>, last <- <<>>

Elem(c, f) == IF c.kind = "bos" THEN << f[2][Len(f[2])] >> ELSE f[2]
ElemsOf(c, files) == {Elem(c, f) : f \in RangeOf(files)}
FileNames(files) == {f[1] : f \in RangeOf(files)}

Before(c, i) == IF i = 1 THEN <<>> ELSE c.steps[i - 1].dirs
DirNames(dirs) == {d.name : d \in RangeOf(dirs)}
Entry(dirs, name) ==
  IF name \in DirNames(dirs) THEN CHOOSE d \in RangeOf(dirs) : d.name = name
  ELSE [name |-> name, files |-> <<>>, rewritten |-> <<>>, others |-> <<>>]

Lower(a) == CASE a = "N" -> "n" [] a = "C" -> "c" [] a = "R" -> "r" [] a = "S" -> "s"
              [] OTHER -> a
Valid == {"n", "c", "r", "s"}
RECURSIVE FirstValid(_)
FirstValid(answers) ==
  IF answers = <<>> THEN ""
  ELSE IF Lower(answers[1]) \in Valid THEN Lower(answers[1]) ELSE FirstValid(Tail(answers))

Failing(c) == {Elem(c, f) : f \in {g \in RangeOf(c.oracle) : g[3] = "failed"}}
All(c) == RangeOf(Elements(c.cfg)) \ Failing(c)
NamesFor(c, files, S) == {f[1] : f \in {g \in RangeOf(files) : Elem(c, g) \in S}}

Same(dirs1, dirs2, name) ==
  LET a == Entry(dirs1, name) b == Entry(dirs2, name) IN
  /\ RangeOf(a.files) = RangeOf(b.files)
  /\ b.rewritten = <<>>
  /\ RangeOf(a.others) = RangeOf(b.others)

ComputeGuards(c, i) ==
  LET s == c.steps[i]
      b == Before(c, i)
      exists(d) == d \in DirNames(b)
      eff == D!Effective(exists, s.base, s.how, FirstValid(s.answers))
      dir == D!Chosen(exists, s.base, eff)
      old == Entry(b, s.dir)
      new == Entry(s.dirs, s.dir)
      missing == All(c) \ ElemsOf(c, old.files)
  IN
  IF eff = "stop" THEN
    {<<"stopped-by-the-user", s.stop = "raised" /\ s.raised = "SystemExit">>,
     <<"stop-no-directory", DirNames(s.dirs) = DirNames(b)>>,
     <<"stop-touches-nothing", \A d \in DirNames(b) : Same(b, s.dirs, d)>>}
  ELSE
    {<<"ends", s.stop = (IF s.op = "killed" THEN "died" ELSE "normal")
                 \/ (s.op = "killed" /\ s.stop = "normal")>>} \union
    (IF s.op = "compute" /\ s.stop # "normal" THEN {} ELSE
    {<<"directory", s.op = "killed" \/ s.dir = dir>>,
     <<"new-dir-is-new", eff = "new_dir" /\ s.op = "compute" => ~exists(s.dir)>>,
     <<"one-directory", DirNames(s.dirs) = DirNames(b) \union {dir}>>,
     <<"others-untouched", \A d \in DirNames(b) \ {dir} : Same(b, s.dirs, d)>>,
     <<"foreign-files", RangeOf(old.others) \subseteq RangeOf(new.others)>>,
     <<"nothing-removed", FileNames(old.files) \subseteq FileNames(new.files)>>,
     <<"complete-touches-nothing",
       eff \in {"complete", "new_dir"} =>
         /\ RangeOf(old.files) \subseteq RangeOf(new.files)
         /\ RangeOf(new.rewritten) \intersect FileNames(old.files) = {}>>,
     <<"computed", s.op = "compute" => All(c) \subseteq ElemsOf(c, new.files)>>,
     <<"recomputed",
       s.op = "compute" /\ eff = "recompute" =>
         RangeOf(new.rewritten) = NamesFor(c, new.files, All(c))>>,
     <<"completed",
       s.op = "compute" /\ eff = "complete" =>
         RangeOf(new.rewritten) = NamesFor(c, new.files, missing)>>})

Verdicts(c) ==
  UNION {{<<i, n>> : n \in FailingNames(
            IF c.steps[i].op \in {"compute", "killed"} THEN ComputeGuards(c, i) ELSE {})} :
         i \in 1..Len(c.steps)}
  \union {<<0, n>> : n \in FailingNames({<<"images-untouched", c.images_untouched>>})}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in Verdicts(Cases[tr]) :
       PrintT(<<"VERDICT", Cases[tr].id, v[2], ToString(v[1])>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
