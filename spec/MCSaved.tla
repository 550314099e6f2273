------------------------------ MODULE MCSaved -------------------------------
(***************************************************************************)
(* Histories of saving, loading and reducing results: whatever the         *)
(* history, every object and every file comes from the result which was    *)
(* computed, without mixing results, passes or fields.                     *)
(***************************************************************************)
EXTENDS SavedResults, TLC
CONSTANTS NbPasses, NbResults, MaxObjects, Paths
VARIABLES objs, files, from, ffrom
vars == <<objs, files, from, ffrom>>

Names == <<"deltaxs", "ixvecs_approx", "iyvecs_approx", "deltaxs_approx", "deltays_approx",
           "ixvecs_final", "iyvecs_final", "deltaxs_final", "deltays_final">>
Content(r, p, name) == <<r, p, name>>
PassOf(r, p) ==
  LET names == IF p = NbPasses THEN Names ELSE SubSeq(Names, 1, 5) IN
  [f |-> [i \in 1..Len(names) |-> <<names[i], Content(r, p, names[i])>>],
   d |-> <<<<r, p, "errors">>>>, tps |-> <<<<r, p, "tps">>>>, codes |-> <<>>, u |-> <<>>, g |-> <<>>,
   pts |-> IF p = NbPasses THEN <<<<r, p, 0, 0>>>> ELSE <<>>, apts |-> <<<<r, p, 1, 1>>>>]
Computed(r) ==
  [kind |-> "multi", passes |-> [p \in 1..NbPasses |-> PassOf(r, p)], params |-> <<r, "params">>,
   names |-> <<r, "names">>, paths |-> <<r, "paths">>, shape |-> <<r>>, fname |-> ""]

Init == objs = <<>> /\ files = <<>> /\ from = <<>> /\ ffrom = <<>>
NewObject(o, r) == objs' = Append(objs, o) /\ from' = Append(from, r)
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Compute == \E r \in 1..NbResults :
  NewObject(Computed(r), <<r, NbPasses>>) /\ UNCHANGED <<files, ffrom>>
Save == \E i \in DOMAIN objs, path \in Paths :
  /\ files' = Put(files, path, File(objs[i]))
  /\ ffrom' = Put(ffrom, path, from[i])
  /\ UNCHANGED <<objs, from>>
Load == \E path \in DOMAIN files, cls \in {"multi", "heavy", "light"} :
  /\ CanLoad(files[path], cls)
  /\ NewObject(Loaded(files[path], cls, path), ffrom[path])
  /\ UNCHANGED <<files, ffrom>>
Reduce == \E i \in DOMAIN objs : \E p \in (-Len(objs[i].passes))..(Len(objs[i].passes) - 1) :
  /\ objs[i].kind = "multi"
  /\ NewObject(Light(objs[i], p), <<from[i][1], IndexPass(objs[i], p)>>)
  /\ UNCHANGED <<files, ffrom>>
Next ==
  \/ Len(objs) < MaxObjects /\ (Compute \/ Save \/ Load \/ Reduce)
  \/ Len(objs) = MaxObjects /\ Save
Spec == Init /\ [][Next]_vars

Descends(o, fr) ==
  LET r == fr[1] c == Computed(r) IN
  /\ o.params = c.params /\ o.names = c.names /\ o.paths = c.paths
  /\ CASE o.kind = "multi" -> o.passes = c.passes
       [] o.kind = "heavy" -> o.passes = <<c.passes[1]>>
       [] o.kind = "light" ->
            \E p \in 1..NbPasses : \* a light version of one pass (fr[2] when reduced in memory)
              /\ o.passes = <<LightPass(c, p - 1)>>
              /\ p = fr[2]
DescendsInv ==
  /\ \A i \in DOMAIN objs : Descends(objs[i], from[i])
  /\ \A path \in DOMAIN files : Descends(files[path], ffrom[path])
LastInv == \A i \in DOMAIN objs : objs[i].kind = "multi" =>
  Light(objs[i], -1) = Light(objs[i], Len(objs[i].passes) - 1)
RoundTripInv == \A path \in DOMAIN files : \A cls \in {"multi", "heavy", "light"} :
  (cls = files[path].kind /\ CanLoad(files[path], cls)) =>
     File(Loaded(files[path], cls, path)) = files[path]
=============================================================================
