---------------------------- MODULE LogAnalysis ----------------------------
(***************************************************************************)
(* What a log says about an execution.  A log is a set of files (one per   *)
(* process); a file is a sequence of lines, other lines being ignored:     *)
(*   [l |-> "launch", w, k, t]  a call of the work w on the key k starts   *)
(*   [l |-> "done", w, k, d]    a call ended without error after d         *)
(* In a process, the calls of a work on the same key follow each other     *)
(* (global works are called many times with the same key); the same key    *)
(* can be used by different processes (first and last images of the parts  *)
(* of a series).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoDuration == -1

Launches(f) == {i \in DOMAIN f : f[i].l = "launch"}
SameCall(a, b) == a.w = b.w /\ a.k = b.k
(* the next launch of the same work on the same key *)
NextSame(f, i) ==
  LET later == {j \in Launches(f) : j > i /\ SameCall(f[i], f[j])} IN
  IF later = {} THEN Len(f) + 1 ELSE CHOOSE j \in later : \A m \in later : j <= m
DurationOf(f, i) ==
  LET ends == {j \in DOMAIN f :
                 f[j].l = "done" /\ SameCall(f[i], f[j]) /\ i < j /\ j < NextSame(f, i)} IN
  IF ends = {} THEN NoDuration ELSE f[CHOOSE j \in ends : TRUE].d
CallOf(f, i) == [w |-> f[i].w, k |-> f[i].k, t |-> f[i].t, d |-> DurationOf(f, i)]

(* the calls of a file, in the order of the launches *)
RECURSIVE Analyse(_, _)
Analyse(f, i) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i].l = "launch" THEN <<CallOf(f, i)>> \o Analyse(f, i + 1)
  ELSE Analyse(f, i + 1)
AnalyseFile(f) == Analyse(f, 1)

IsPrefixSeq(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
(* what is known from a part of the log: the first calls, some without duration *)
PartOf(a, b) ==
  /\ Len(a) <= Len(b)
  /\ \A i \in DOMAIN a :
       /\ SameCall(a[i], b[i]) /\ a[i].t = b[i].t
       /\ a[i].d \in {NoDuration, b[i].d}
=============================================================================
