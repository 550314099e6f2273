---------------------------- MODULE CouplesTrace ----------------------------
(***************************************************************************)
(* Recorded executions are behaviours of Couples.  cases.json:             *)
(*  id, cfg (see Names), im2im, names (all images, by rank), bad (images   *)
(*  the reading or transformation of which fails), stop, events:           *)
(*   ["read", name, ...]       an image is read                            *)
(*   ["make", before, after]   names of the images in the input queues     *)
(*                             before and after a call of a global work    *)
(*   ["calc", names, markers, names of its series]  a computation          *)
(* (the steps Arrive of Couples are the images which appear in a queue     *)
(* between two calls).  Each event updates the state even if a guard does  *)
(* not hold.                                                               *)
(***************************************************************************)
EXTENDS Couples, Names, Sets, Json

Cases == JsonDeserialize("cases.json")

VARIABLES tr, pc, reads, reported

tvars == <<vars, tr, pc, reads, reported>>
C == Cases[tr]

Rank(c, name) == CHOOSE i \in 1..Len(c.names) : c.names[i] = name
Marker(c, name) ==
  LET v == Rank(c, name) IN
  CASE c.im2im = "func" -> 255 - v
    [] c.im2im = "cls" -> (v \div 2) + 3
    [] OTHER -> v

Init ==
  /\ tr \in 1..Len(Cases)
  /\ pc = 1
  /\ Start(Elements(Cases[tr].cfg))
  /\ bad = RangeOf(Cases[tr].bad)
  /\ reads = {} /\ reported = {}

Report(guards) ==
  LET failing == FailingNames(guards) IN
  /\ reported' = reported \union failing
  /\ \A g \in failing \ reported : PrintT(<<"VERDICT", C.id, g, ToString(pc)>>)

Read(ev) ==
  /\ Report({<<"read-needed", ev[2] \in Images>>, <<"read-once", ev[2] \notin reads>>})
  /\ reads' = reads \union {ev[2]}
  /\ UNCHANGED vars

(* the arrivals of the new images, then a step Make *)
MakeStep(ev) ==
  LET before == RangeOf(ev[2])  after == RangeOf(ev[3])
      new == before \ held
      avail == {k \in Todo : Members(k) \subseteq before}
      left(M) == before \intersect Needed(Todo \ M)
      good == {M \in {avail, {}} \union {{k} : k \in avail} : left(M) = after}
      M == IF good = {} THEN avail ELSE IF avail \in good THEN avail ELSE CHOOSE X \in good : TRUE
  IN
  /\ Report({<<"held-until-needed", held \subseteq before>>,
             <<"arrive-needed", new \subseteq Images>>,
             <<"arrive-once", \A n \in new \intersect Images : nread[n] = 0>>,
             <<"dropped-when-unneeded", good # {} \/ after \subseteq left(avail)>>,
             <<"kept-when-needed", good # {} \/ left(avail) \subseteq after>>})
  /\ held' = after
  /\ made' = made \union M
  /\ nread' = [n \in Images |-> IF n \in new THEN nread[n] + 1 ELSE nread[n]]
  /\ UNCHANGED <<elems, bad, done, reads>>

Calc(ev) ==
  LET ks == {k \in Ids : elems[k] = ev[2]}
      k == IF ks = {} THEN 0 ELSE CHOOSE x \in ks : TRUE
  IN
  /\ Report({<<"members-in-order", k # 0>>,
             <<"images", k # 0 => ev[3] = [j \in 1..Len(ev[2]) |-> Marker(C, ev[2][j])]>>,
             <<"serie", ev[4] = ev[2]>>,
             <<"element-made", k # 0 => k \in made>>,
             <<"element-once", k \notin done>>,
             <<"no-failing-member", k # 0 => ~Failing(k)>>})
  /\ done' = done \union {k}
  /\ UNCHANGED <<elems, bad, nread, held, made, reads>>

End ==
  /\ Report({<<"ends-normally", C.stop = "normal">>} \union
            (IF C.stop # "normal" THEN {} ELSE
              {<<"all-images-read", reads = Images>>,
               <<"all-made", made = Ids>>,
               <<"all-computed", {k \in Ids : ~Failing(k)} \subseteq done>>,
               <<"nothing-held", held = {}>>,
               <<"failures-logged-once", Len(C.exceptions) = Cardinality(bad \intersect Images)>>}))
  /\ UNCHANGED <<vars, reads>>

TNext ==
  /\ pc <= Len(C.events) + 1
  /\ pc' = pc + 1
  /\ UNCHANGED tr
  /\ IF pc <= Len(C.events)
     THEN LET ev == C.events[pc] IN
          CASE ev[1] = "read" -> Read(ev)
            [] ev[1] = "make" -> MakeStep(ev)
            [] ev[1] = "calc" -> Calc(ev)
     ELSE End /\ TLCSet(1, TLCGet(1) + 1)

ASSUME TLCSet(1, 0)
TSpec == Init /\ [][TNext]_tvars
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
