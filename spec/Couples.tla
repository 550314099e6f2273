------------------------------ MODULE Couples ------------------------------
(***************************************************************************)
(* Combination of the images of a series in couples or subsets (C12).      *)
(*                                                                         *)
(* Each image needed by an element is read once (the reading may fail) and *)
(* held; the step Make forms any elements all images of which are held and *)
(* drops the images needed by no remaining element.                        *)
(* elems: sequence of sequences of names.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES elems, bad, nread, held, made, done

vars == <<elems, bad, nread, held, made, done>>

Members(k) == {elems[k][j] : j \in 1..Len(elems[k])}
Ids == 1..Len(elems)
Images == UNION {Members(k) : k \in Ids}
Todo == Ids \ made
Needed(S) == UNION {Members(k) : k \in S}
Available == {k \in Todo : Members(k) \subseteq held}
Failing(k) == Members(k) \intersect bad # {}

Start(e) ==
  /\ elems = e
  /\ nread = [n \in Images |-> 0]
  /\ held = {} /\ made = {} /\ done = {}

(* an image arrives in the queue of arrays *)
Arrive(n) ==
  /\ nread[n] = 0
  /\ nread' = [nread EXCEPT ![n] = 1]
  /\ held' = held \union {n}
  /\ UNCHANGED <<elems, bad, made, done>>

(* the elements of M are formed *)
Make(M) ==
  /\ M \subseteq Available
  /\ made' = made \union M
  /\ held' = held \intersect Needed(Todo \ M)
  /\ UNCHANGED <<elems, bad, nread, done>>

(* the computation of an element *)
Compute(k) ==
  /\ k \in made \ done
  /\ ~Failing(k)
  /\ done' = done \union {k}
  /\ UNCHANGED <<elems, bad, nread, held, made>>

Next ==
  \/ \E n \in Images : Arrive(n)
  \/ \E M \in SUBSET Available : M # {} /\ Make(M)
  \/ \E k \in Ids : Compute(k)

Spec == Start(elems) /\ [][Next]_vars

Finished == held = {} /\ made = Ids /\ done = {k \in Ids : ~Failing(k)}
----------------------------------------------------------------------------
ReadOnce == \A n \in Images : nread[n] <= 1
DroppedWhenUnneeded == held \subseteq Needed(Todo)
(* no image needed is lost *)
NothingLost == \A n \in Needed(Todo) : nread[n] = 0 \/ n \in held
OnlyGood == \A k \in done : ~Failing(k) /\ \A n \in Members(k) : nread[n] = 1
(* a blocked execution is finished *)
BlockedIsFinished == (~ENABLED Next) => Finished
=============================================================================
