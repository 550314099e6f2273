------------------------------ MODULE LogModel ------------------------------
(***************************************************************************)
(* Executions writing their logs: in each process, calls of the works on   *)
(* the keys run concurrently, a call of a work on a key which is already   *)
(* running being impossible; they end or fail at any time.  The lines are  *)
(* written at the start and at the end of the calls.  The process can be   *)
(* killed: the file is then any prefix of what was written.                *)
(***************************************************************************)
EXTENDS LogAnalysis, TLC

CONSTANTS NProcs, Works, Keys, MaxCalls, MaxTime

Procs == 1..NProcs
VARIABLES now, files, calls, running
vars == <<now, files, calls, running>>

Init ==
  /\ now = 0
  /\ files = [p \in Procs |-> <<>>]
  /\ calls = [p \in Procs |-> <<>>]      \* what really happened
  /\ running = [p \in Procs |-> {}]      \* indices of the calls

Start(p, w, k) ==
  /\ Len(calls[p]) < MaxCalls
  /\ \A i \in running[p] : ~(calls[p][i].w = w /\ calls[p][i].k = k)
  /\ calls' = [calls EXCEPT ![p] = Append(@, [w |-> w, k |-> k, t |-> now, d |-> NoDuration])]
  /\ running' = [running EXCEPT ![p] = @ \union {Len(calls[p]) + 1}]
  /\ files' = [files EXCEPT ![p] = Append(@, [l |-> "launch", w |-> w, k |-> k, t |-> now])]
  /\ UNCHANGED now

Finish(p, i) ==
  LET c == calls[p][i] IN
  /\ calls' = [calls EXCEPT ![p][i].d = now - c.t]
  /\ running' = [running EXCEPT ![p] = @ \ {i}]
  /\ files' = [files EXCEPT ![p] =
                 Append(@, [l |-> "done", w |-> c.w, k |-> c.k, d |-> now - c.t])]
  /\ UNCHANGED now

Fail(p, i) ==
  /\ running' = [running EXCEPT ![p] = @ \ {i}]
  /\ UNCHANGED <<now, calls, files>>

Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<files, calls, running>>

Next ==
  \/ Tick
  \/ \E p \in Procs :
       \/ \E w \in Works, k \in Keys : Start(p, w, k)
       \/ \E i \in running[p] : Finish(p, i) \/ Fail(p, i)
Spec == Init /\ [][Next]_vars

(* the analysis gives exactly what happened *)
Exact == \A p \in Procs : AnalyseFile(files[p]) = calls[p]
(* whatever the part of the log which has been written *)
Prefixes ==
  \A p \in Procs : \A n \in 0..Len(files[p]) :
    PartOf(AnalyseFile(SubSeq(files[p], 1, n)), calls[p])
=============================================================================
