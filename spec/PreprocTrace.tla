---------------------------- MODULE PreprocTrace ----------------------------
(***************************************************************************)
(* Validation of preprocessings done by the code (Preproc), one step for   *)
(* each enabled tool.  cases.json:                                         *)
(*  id, failure: text, stack (see Preproc), sequence, available: names of  *)
(*  tools, ops: steps (the enabled tools), out: the stack obtained         *)
(*  variants: digests of the results obtained in other ways (list, tuple,  *)
(*    images one by one, keyword...), same: the inputs are not modified    *)
(*  sel: <<>> or <<ni, nj, ind, nb>>: names: names of the images of the    *)
(*    subset, given: names of the results (out: their images)              *)
(*  saved: <<>> or the images read back <<name, image>> (not scaled)       *)
(***************************************************************************)
EXTENDS Preproc, Json

Cases == JsonDeserialize("cases.json")
VARIABLES tr, k, stack, verdicts

FailingNames(guards) == {g[1] : g \in {h \in guards : ~h[2]}}
StepsOf(c) == Steps(c.sequence, c.available, c.ops)
NbExact(steps) ==
  LET bad == {i \in 1..Len(steps) : steps[i].tool \notin ExactTools} IN
  IF bad = {} THEN Len(steps) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1

(* Images which have to be given *)
Kept(c) ==
  IF c.sel = <<>> THEN [i \in 1..Len(c.names) |-> i - 1]
  ELSE Selected(c.sel[1], c.sel[2], c.sel[3], c.sel[4])
Choose(st, ranks) == [i \in 1..Len(ranks) |-> st[ranks[i] + 1]]

Guards(c, st) ==
  LET steps == StepsOf(c) kept == Kept(c)
      expected == IF c.names = <<>> THEN st ELSE Choose(st, kept) IN
  {<<"result",
     IF k = Len(steps) THEN c.out = expected
     ELSE k + 1 # Len(steps) \/ Fits(steps[k + 1], expected, c.out)>>,
   <<"variants", \A i, j \in 1..Len(c.variants) : c.variants[i] = c.variants[j]>>,
   <<"inputs not modified", c.same>>,
   <<"names", c.given = [i \in 1..Len(kept) |-> c.names[kept[i] + 1]]>>,
   <<"saved",
     c.saved # <<>> =>
       /\ Len(c.saved) = Len(c.out)
       /\ \A i \in 1..Len(c.saved) :
            /\ c.saved[i][1] = c.given[i]
            /\ \A y \in 1..NY(c.out) : \A x \in 1..NX(c.out) :
                 LET o == c.out[i][y][x] sav == c.saved[i][2][y][x] IN
                 \/ sav = Saved(o)
                 \* rounded values
                 \/ k # Len(steps) /\ (o % S) \in {0, S - 1} /\ sav \in {Saved(o - 1), Saved(o + 1)}>>}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases) /\ k = 0 /\ stack = Cases[tr].stack /\ verdicts = {}
Step ==
  /\ tr > 0
  /\ Cases[tr].failure = ""
  /\ k < NbExact(StepsOf(Cases[tr]))
  /\ stack' = Apply(StepsOf(Cases[tr])[k + 1], stack)
  /\ k' = k + 1
  /\ UNCHANGED <<tr, verdicts>>
Finish ==
  /\ tr > 0
  /\ Cases[tr].failure = "" => k = NbExact(StepsOf(Cases[tr]))
  /\ tr' = -tr
  /\ verdicts' = IF Cases[tr].failure # "" THEN {"computed"} ELSE FailingNames(Guards(Cases[tr], stack))
  /\ \A v \in verdicts' : PrintT(<<"VERDICT", Cases[tr].id, v, "">>)
  /\ TLCSet(1, TLCGet(1) + 1)
  /\ UNCHANGED <<k, stack>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, k, stack, verdicts>>
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
