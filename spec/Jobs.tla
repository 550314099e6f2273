------------------------------- MODULE Jobs -------------------------------
(***************************************************************************)
(* Protocol of the executions sharing one directory of results.            *)
(*                                                                         *)
(* A session (an operating-system process) performs executions one after   *)
(* the other; several sessions run at the same time.  An execution chooses *)
(* a name which is used neither by a job nor by a log, creates its log     *)
(* and, if there is something to be computed, its job record, takes the    *)
(* lock and runs.  Its processes obtain results concurrently with the      *)
(* saving of their number and of their names (not atomic: the slice is     *)
(* taken, the file of the number is truncated then written, the names are  *)
(* appended).  It ends normally, raises, or is killed at any point.        *)
(* At most one clock tick per execution is needed to have all the cases    *)
(* of equal or different dates.                                            *)
(***************************************************************************)
EXTENDS JobRecords, TLC

CONSTANTS
  NSessions,   \* number of sessions
  NRuns,       \* number of executions of each session
  NProc,       \* maximum number of processes of an execution
  NRes,        \* maximum number of results of a process
  Kills        \* BOOLEAN: executions can be killed

Sessions == 1..NSessions
Execs == Sessions \X (1..NRuns)
Procs == 1..NProc
NoName == <<0, 0, 0>>

VARIABLES
  clock,
  pc,        \* of each execution
  name,      \* chosen by each execution: <<date, session, index>>
  nproc,     \* number of processes (0: nothing to compute)
  logs,      \* set of names
  jobs,      \* name -> record (function with the domain of the existing jobs)
  owner,     \* name -> execution (who created the job)
  logowner,  \* name -> execution
  got,       \* results obtained by each process of each execution
  saved,     \* number already taken for saving
  slice,     \* what is being saved
  spc        \* state of the saving: "idle", "sliced", "torn", "num"

vars == <<clock, pc, name, nproc, logs, jobs, owner, logowner, got, saved, slice, spc>>

NewRecord(n) ==
  [lock |-> FALSE, end |-> FALSE, params |-> FALSE,
   nums |-> [i \in 1..n |-> Torn], names |-> [i \in 1..n |-> <<>>]]

Add(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

Init ==
  /\ clock = 1
  /\ pc = [x \in Execs |-> "idle"]
  /\ name = [x \in Execs |-> NoName]
  /\ nproc \in [Execs -> 0..NProc]
  /\ logs = {}
  /\ jobs = [n \in {} |-> NewRecord(0)]
  /\ owner = [n \in {} |-> <<1, 1>>]
  /\ logowner = [n \in {} |-> <<1, 1>>]
  /\ got = [x \in Execs |-> [p \in Procs |-> <<>>]]
  /\ saved = [x \in Execs |-> [p \in Procs |-> 0]]
  /\ slice = [x \in Execs |-> [p \in Procs |-> <<>>]]
  /\ spc = [x \in Execs |-> [p \in Procs |-> "idle"]]

Over == {"ended", "raised", "killed"}
(* the previous execution of the session returned *)
Ready(x) ==
  IF x[2] = 1 THEN TRUE ELSE pc[<<x[1], x[2] - 1>>] \in {"ended", "raised"}
Used(n) == n \in logs \/ n \in DOMAIN jobs

Choose(x) ==
  /\ pc[x] = "idle" /\ Ready(x)
  /\ LET free == {i \in 0..NRuns : ~Used(<<clock, x[1], i>>)}
         i == CHOOSE i \in free : \A j \in free : i <= j
     IN name' = [name EXCEPT ![x] = <<clock, x[1], i>>]
  /\ pc' = [pc EXCEPT ![x] = "named"]
  /\ UNCHANGED <<clock, nproc, logs, jobs, owner, logowner, got, saved, slice, spc>>

OpenLog(x) ==
  /\ pc[x] = "named"
  /\ logs' = logs \union {name[x]}
  /\ logowner' = Add(logowner, name[x], x)
  /\ pc' = [pc EXCEPT ![x] = IF nproc[x] = 0 THEN "nothing" ELSE "logged"]
  /\ UNCHANGED <<clock, name, nproc, jobs, owner, got, saved, slice, spc>>

Nothing(x) ==
  /\ pc[x] = "nothing"
  /\ pc' = [pc EXCEPT ![x] = "ended"]
  /\ UNCHANGED <<clock, name, nproc, logs, jobs, owner, logowner, got, saved, slice, spc>>

MkJob(x) ==
  /\ pc[x] = "logged"
  /\ jobs' = Add(jobs, name[x], NewRecord(nproc[x]))
  /\ owner' = Add(owner, name[x], x)
  /\ pc' = [pc EXCEPT ![x] = "mkdir"]
  /\ UNCHANGED <<clock, name, nproc, logs, logowner, got, saved, slice, spc>>

Lock(x) ==
  /\ pc[x] = "mkdir"
  /\ jobs' = [jobs EXCEPT ![name[x]].lock = TRUE]
  /\ pc' = [pc EXCEPT ![x] = "locked"]
  /\ UNCHANGED <<clock, name, nproc, logs, owner, logowner, got, saved, slice, spc>>

SaveParams(x) ==
  /\ pc[x] = "locked"
  /\ jobs' = [jobs EXCEPT ![name[x]].params = TRUE]
  /\ pc' = [pc EXCEPT ![x] = "running"]
  /\ UNCHANGED <<clock, name, nproc, logs, owner, logowner, got, saved, slice, spc>>

(* a result is obtained (a thread of the process p) *)
Get(x, p) ==
  /\ pc[x] = "running" /\ p <= nproc[x]
  /\ Len(got[x][p]) < NRes
  /\ got' = [got EXCEPT ![x][p] = Append(@, <<p, Len(@) + 1>>)]
  /\ UNCHANGED <<clock, pc, name, nproc, logs, jobs, owner, logowner, saved, slice, spc>>

SavedAll(x, p) ==
  saved[x][p] = Len(got[x][p]) /\ jobs[name[x]].nums[p] # Torn
Slice(x, p) ==
  /\ p <= nproc[x]
  /\ pc[x] = "running" \/ (pc[x] = "finishing" /\ ~SavedAll(x, p))
  /\ spc[x][p] = "idle"
  /\ LET s == SubSeq(got[x][p], saved[x][p] + 1, Len(got[x][p])) IN
     /\ slice' = [slice EXCEPT ![x][p] = s]
     \* the length of the slice, not of the list: it can grow meanwhile
     /\ saved' = [saved EXCEPT ![x][p] = @ + Len(s)]
  /\ spc' = [spc EXCEPT ![x][p] = "sliced"]
  /\ UNCHANGED <<clock, pc, name, nproc, logs, jobs, owner, logowner, got>>

TruncNum(x, p) ==
  /\ pc[x] \in {"running", "finishing"} /\ spc[x][p] = "sliced"
  /\ jobs' = [jobs EXCEPT ![name[x]].nums[p] = Torn]
  /\ spc' = [spc EXCEPT ![x][p] = "torn"]
  /\ UNCHANGED <<clock, pc, name, nproc, logs, owner, logowner, got, saved, slice>>

WriteNum(x, p) ==
  /\ pc[x] \in {"running", "finishing"} /\ spc[x][p] = "torn"
  /\ jobs' = [jobs EXCEPT ![name[x]].nums[p] = saved[x][p]]
  /\ spc' = [spc EXCEPT ![x][p] = "num"]
  /\ UNCHANGED <<clock, pc, name, nproc, logs, owner, logowner, got, saved, slice>>

WriteNames(x, p) ==
  /\ pc[x] \in {"running", "finishing"} /\ spc[x][p] = "num"
  /\ jobs' = [jobs EXCEPT ![name[x]].names[p] = @ \o slice[x][p]]
  /\ slice' = [slice EXCEPT ![x][p] = <<>>]
  /\ spc' = [spc EXCEPT ![x][p] = "idle"]
  /\ UNCHANGED <<clock, pc, name, nproc, logs, owner, logowner, got, saved>>

(* no more work (the end, an error which has to stop it, or the signal) *)
Finish(x) ==
  /\ pc[x] = "running"
  /\ pc' = [pc EXCEPT ![x] = "finishing"]
  /\ UNCHANGED <<clock, name, nproc, logs, jobs, owner, logowner, got, saved, slice, spc>>

(* the lock is removed only when each process saved its results *)
AllSaved(x) ==
  \A p \in 1..nproc[x] : spc[x][p] = "idle" /\ SavedAll(x, p)
Unlock(x) ==
  /\ pc[x] = "finishing" /\ AllSaved(x)
  /\ jobs' = [jobs EXCEPT ![name[x]].lock = FALSE]
  /\ pc' = [pc EXCEPT ![x] = "unlocked"]
  /\ UNCHANGED <<clock, name, nproc, logs, owner, logowner, got, saved, slice, spc>>

TimeEnd(x) ==
  /\ pc[x] = "unlocked"
  /\ jobs' = [jobs EXCEPT ![name[x]].end = TRUE]
  /\ \E how \in {"ended", "raised"} : pc' = [pc EXCEPT ![x] = how]
  /\ UNCHANGED <<clock, name, nproc, logs, owner, logowner, got, saved, slice, spc>>

(* the process disappears, and its next executions with it *)
Kill(x) ==
  /\ Kills
  /\ pc[x] \notin Over \union {"idle"}
  /\ pc' = [pc EXCEPT ![x] = "killed"]
  /\ UNCHANGED <<clock, name, nproc, logs, jobs, owner, logowner, got, saved, slice, spc>>

Tick ==
  /\ clock < 2
  /\ clock' = clock + 1
  /\ UNCHANGED <<pc, name, nproc, logs, jobs, owner, logowner, got, saved, slice, spc>>

Done ==
  /\ \A x \in Execs : IF pc[x] \in Over THEN TRUE ELSE pc[x] = "idle" /\ ~Ready(x)
  /\ UNCHANGED vars

Step(x) ==
  Choose(x) \/ OpenLog(x) \/ Nothing(x) \/ MkJob(x) \/ Lock(x) \/ SaveParams(x)
  \/ (\E p \in Procs : Slice(x, p) \/ TruncNum(x, p) \/ WriteNum(x, p) \/ WriteNames(x, p))
  \/ Unlock(x) \/ TimeEnd(x)
Next ==
  Tick \/ Done
  \/ \E x \in Execs :
       Step(x) \/ Finish(x) \/ Kill(x) \/ (\E p \in Procs : Get(x, p))

Spec ==
  Init /\ [][Next]_vars
  /\ \A x \in Execs : WF_vars(Step(x)) /\ WF_vars(Finish(x))

----------------------------------------------------------------------------
AllGot(x) == Flat([p \in 1..nproc[x] |-> got[x][p]])

TypeOK == \A x \in Execs : pc[x] = "idle" <=> name[x] = NoName
(* each execution has its own log and its own job *)
OwnLog ==
  \A x, y \in Execs :
    (x # y /\ name[x] # NoName /\ name[y] # NoName) => name[x] # name[y]
OwnerOK ==
  /\ \A n \in DOMAIN jobs : name[owner[n]] = n
  /\ \A n \in DOMAIN logowner : name[logowner[n]] = n
(* the lock while and only while the execution is running *)
LockOK ==
  \A x \in Execs :
    name[x] \in DOMAIN jobs =>
      LET r == jobs[name[x]] IN
      /\ Consistent(r)
      /\ pc[x] \in {"locked", "running", "finishing"} => Running(r)
      /\ pc[x] \in {"ended", "raised"} => Released(r)
      /\ pc[x] \in {"running", "finishing"} => r.params
BoundedOK ==
  \A x \in Execs :
    name[x] \in DOMAIN jobs => Bounded(jobs[name[x]], Len(AllGot(x)))
CompleteOK ==
  \A x \in Execs :
    (pc[x] \in {"ended", "raised"} /\ nproc[x] > 0) => Complete(jobs[name[x]], AllGot(x))
(* a lock which is never removed is the one of an execution which was killed *)
NoJobWhenNothing ==
  \A x \in Execs : nproc[x] = 0 => name[x] \notin DOMAIN jobs

GrowOK ==
  [][\A n \in DOMAIN jobs : n \in DOMAIN jobs' /\ Grows(jobs[n], jobs'[n])]_vars
LogsGrow == [][logs \subseteq logs']_vars

Ends == \A x \in Execs : (pc[x] # "idle") ~> (pc[x] \in Over)
=============================================================================
