------------------------------- MODULE Resume -------------------------------
(***************************************************************************)
(* Result directory of a topology through executions, interruptions and    *)
(* deletions (C06).                                                        *)
(*                                                                         *)
(* disk: function from the elements already computed to the date of their  *)
(* file; now: date of the current operation.  The mode "complete" computes *)
(* what is missing, "recompute" computes everything; an interruption       *)
(* leaves any part of what had to be computed, each file being either      *)
(* absent (or as before) or complete.                                      *)
(*                                                                         *)
(* foreign: elements for which other files with similar names (backups,    *)
(* light results, results of other couples) are in the directory; they do  *)
(* not count as results and are never touched.                             *)
(*                                                                         *)
(* With Record = TRUE, hist is the history; its values at the length       *)
(* MaxLen are the histories replayed in the code.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, MaxLen, Record
VARIABLES disk, foreign, now, hist, last

vars == <<disk, foreign, now, hist, last>>
Elems == 1..N
Hows == {"complete", "recompute"}

Todo(how) == IF how = "complete" THEN Elems \ DOMAIN disk ELSE Elems
Written(S) == [e \in DOMAIN disk \union S |-> IF e \in S THEN now ELSE disk[e]]

Log(op) == /\ hist' = IF Record THEN Append(hist, op) ELSE hist
           /\ now' = now + 1

Init == disk = <<>> /\ foreign = {} /\ now = 1 /\ hist = <<>> /\ last = "none"

Run(how) ==
  /\ disk' = Written(Todo(how))
  /\ Log(<<"run", how, "0">>)
  /\ UNCHANGED foreign
  /\ last' = how

(* interrupted after the k-th result *)
Interrupted(how, kind) ==
  \E S \in SUBSET Todo(how) :
    /\ Todo(how) # {}
    /\ disk' = Written(S)
    /\ Log(<<kind, how, ToString(Cardinality(S))>>)
    /\ UNCHANGED foreign
    /\ last' = "interrupted " \o how

(* kind "rename": other files remain near the deleted ones *)
Delete(kind) ==
  \E S \in SUBSET DOMAIN disk :
    /\ S # {}
    /\ disk' = [e \in DOMAIN disk \ S |-> disk[e]]
    /\ foreign' = IF kind = "rename" THEN foreign \union S ELSE foreign
    /\ Log(<<kind, "", ToString(Cardinality(S))>>)
    /\ last' = "delete"

Next ==
  /\ now <= MaxLen
  /\ \/ \E how \in Hows : Run(how)
     \/ \E how \in Hows, kind \in {"kill", "killio", "signal"} : Interrupted(how, kind)
     \/ \E kind \in {"delete", "rename"} : Delete(kind)

Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Existing == DOMAIN disk
(* the mode "complete" (interrupted or not) never touches a file *)
CompleteTouchesNothing ==
  [][last' \in {"complete", "interrupted complete"} =>
       \A e \in Existing : e \in DOMAIN disk' /\ disk'[e] = disk[e]]_vars
CompleteComputesMissing ==
  [][last' = "complete" =>
       /\ DOMAIN disk' = Elems
       /\ \A e \in Elems \ Existing : disk'[e] = now]_vars
NothingMissingNothingDone ==
  [][last' = "complete" /\ Existing = Elems => disk' = disk]_vars
RecomputeAll == [][last' = "recompute" => \A e \in Elems : disk'[e] = now]_vars
ForeignUntouched == [][foreign \subseteq foreign']_vars
TypeOK == Existing \subseteq Elems /\ foreign \subseteq Elems /\ \A e \in Existing : disk[e] \in 1..MaxLen

(* view without the history *)
View == <<disk, foreign, now, last>>
PrintHist ==
  (Record /\ now = MaxLen + 1) => PrintT(<<"HIST", hist>>)
=============================================================================
