----------------------------- MODULE JobRecords -----------------------------
(***************************************************************************)
(* The record of an execution (a directory job_* in the directory of the   *)
(* results), as read by another process at any time:                       *)
(*   lock, end: whether the files is_running.lock and time_end.txt exist,  *)
(*   nums: the content of the files len_results*.txt (one per process),    *)
(*         Torn while a file is being written,                             *)
(*   names: the lines of the files results*.txt                            *)
(* These predicates are invariants of the protocol (Jobs) and decide what  *)
(* is observed from the real executions (JobsTrace).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Torn == -1

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
(* two sequences with the same elements, the same number of times *)
Occurs(a, s) == Cardinality({i \in DOMAIN s : s[i] = a})
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A a \in Range(s) : Occurs(a, s) = Occurs(a, t)

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

(* while the execution runs *)
Running(r) == r.lock /\ ~r.end
(* never both *)
Consistent(r) == ~(r.lock /\ r.end)
(* each number and the names never exceed what has been obtained *)
Bounded(r, nobtained) ==
  /\ SumOf([i \in DOMAIN r.nums |-> IF r.nums[i] = Torn THEN 0 ELSE r.nums[i]]) <= nobtained
  /\ Len(Flat(r.names)) <= nobtained
(* after the execution, for the results which have been obtained *)
Released(r) == ~r.lock /\ r.end
Complete(r, obtained) ==
  /\ \A i \in DOMAIN r.nums : r.nums[i] # Torn
  /\ SumOf(r.nums) = Len(obtained)
  /\ SameBag(Flat(r.names), obtained)
(* r2 is read after r1; the files are aligned, a missing file being Torn or <<>> *)
Grows(r1, r2) ==
  /\ r1.end => r2.end
  /\ (~r1.lock /\ r1.end) => ~r2.lock
  /\ \A i \in DOMAIN r1.nums : r1.nums[i] = Torn \/ r2.nums[i] = Torn \/ r1.nums[i] <= r2.nums[i]
  /\ \A i \in DOMAIN r1.names : IsPrefixOf(r1.names[i], r2.names[i])
=============================================================================
