----------------------------- MODULE ExecAsync -----------------------------
(***************************************************************************)
(* The asynchronous executor (fluidimage.executors.exec_async): one loop   *)
(* per work which looks at the queues and at the number of busy workers    *)
(* and launches tasks, one loop per global work, one loop deciding whether *)
(* the computation is finished. Between its launch and its first step a    *)
(* task has not taken any item and is not counted as working.              *)
(*                                                                         *)
(* It refines ExecAbs (property Refines), for every topology of Topos.     *)
(***************************************************************************)
EXTENDS ExecAbs, TLC

CONSTANTS
  Topos,        \* the topologies explored
  RecheckCap,   \* TRUE: a task checks again the number of busy workers
  Bypass,       \* TRUE: a full queue feeding a starved global work does not block
  CountWorking, \* TRUE: the stop loop looks at the busy workers
  TestFlag,     \* TRUE: the loops test the flag before each launch
  WithSignal    \* TRUE: the signal asking to stop can be received

VARIABLES
  spawned,   \* stages having a task launched but not yet started
  loops      \* loops[s]: "on", "launch" (decided to launch a task) or "off"

vars == <<absvars, spawned, loops>>

Init ==
  /\ \E t \in Topos : /\ topo = t
                      /\ q = [s \in 1..NS(t) |->
                               IF s = 1 THEN [i \in 1..Len(t.keys) |-> <<t.keys[i], Ok>>]
                               ELSE <<>>]
                      /\ subsets = SubKeys(t)
                      /\ loops = [s \in 1..NS(t) |-> "on"]
  /\ held = {} /\ running = {} /\ ended = {} /\ done = {}
  /\ spawned = {}
  /\ status = "run" /\ late = {}

\* the tasks between their first and last step
Working(kind) ==
  Cardinality({x \in held \union running \union ended : topo.stages[x[1]].kind = kind})

Starved(s) ==  \* queue s feeds a global work which has produced nothing to do
  /\ s <= NS(topo) /\ IsJoin(topo, s)
  /\ s + 1 <= NS(topo) => q[s + 1] = <<>>

Full(s) == /\ s < NS(topo)
           /\ Len(q[s + 1]) >= topo.qmax
           /\ ~(Bypass /\ Starved(s + 1))

Ordinary == {s \in 1..NS(topo) : ~IsJoin(topo, s)}

Stopped == status \in {"stopped", "stopping"}

\* a loop looks at the flag before each launch and when it has nothing to launch
LoopTest(s) ==
  /\ TestFlag => ~Stopped
  /\ s \in Ordinary /\ loops[s] = "on" /\ s \notin spawned
  /\ q[s] # <<>>
  /\ Working(topo.stages[s].kind) < topo.cap
  /\ ~Full(s)
  /\ loops' = [loops EXCEPT ![s] = "launch"]
  /\ UNCHANGED <<absvars, spawned>>

LoopSpawn(s) ==  \* (the signal can be received between the test and the launch)
  /\ loops[s] = "launch"
  /\ loops' = [loops EXCEPT ![s] = "on"]
  /\ spawned' = spawned \union {s}
  /\ UNCHANGED absvars

LoopExit(s) ==
  /\ Stopped /\ loops[s] = "on"
  /\ \/ TestFlag \/ IsJoin(topo, s)
     \/ ~(q[s] # <<>> /\ Working(topo.stages[s].kind) < topo.cap /\ ~Full(s))
  /\ loops' = [loops EXCEPT ![s] = "off"]
  /\ UNCHANGED <<absvars, spawned>>

TaskBegin(s) ==
  /\ s \in spawned
  /\ spawned' = spawned \ {s}
  /\ UNCHANGED loops
  /\ IF q[s] = <<>> \/ (RecheckCap /\ Working(topo.stages[s].kind) >= topo.cap)
     THEN UNCHANGED absvars
     ELSE Pop(s, q[s][1][1], q[s][1][2])

TaskPass(s, k) ==   \* the item is an exception: pass it to the next queue
  /\ <<s, k, Exc>> \in held
  /\ s < NS(topo)
  /\ Put(s + 1, k, Exc)
  /\ UNCHANGED <<spawned, loops>>

TaskCall(s, k) ==
  /\ <<s, k, Ok>> \in held
  /\ Start(s, k, Ok)
  /\ UNCHANGED <<spawned, loops>>

Out(s, k) == IF <<s, k>> \in Fails(topo) THEN Exc ELSE Ok

TaskReturn(s, k) ==
  /\ \E r \in running : r[1] = s /\ r[2] = k
  /\ End(s, k, Out(s, k))
  /\ UNCHANGED <<spawned, loops>>

TaskPut(s, k) ==
  /\ s < NS(topo)
  /\ \E v \in Vals : <<s, k, v>> \in ended /\ Put(s + 1, k, v)
  /\ UNCHANGED <<spawned, loops>>

RunJoin ==
  /\ JoinStage(topo) # 0 /\ loops[JoinStage(topo)] = "on"
  /\ \E sk \in subsets :
       /\ Holds(JoinGuards(sk))
       /\ Join(sk, IF \E m \in Members(topo, sk) : IsExc(ValQ(JoinStage(topo), m))
                   THEN Exc ELSE Ok)
  /\ UNCHANGED <<spawned, loops>>

CheckStop ==
  /\ status = "run"
  /\ \A s \in 1..NS(topo) : q[s] = <<>>
  /\ subsets = {}
  /\ CountWorking => Working("cpu") = 0 /\ Working("io") = 0
  /\ Stop
  /\ UNCHANGED <<spawned, loops>>

ReceiveSignal ==
  /\ WithSignal
  /\ status = "run" /\ Signal
  /\ UNCHANGED <<spawned, loops>>

Finished == Stopped /\ (\A s \in 1..NS(topo) : loops[s] = "off")
            /\ held = {} /\ running = {} /\ ended = {} /\ spawned = {}

Next ==
  \/ \E s \in 1..NS(topo) :
       \/ LoopTest(s) \/ LoopSpawn(s) \/ LoopExit(s) \/ TaskBegin(s)
       \/ \E k \in KeysAt(topo, s) :
            TaskPass(s, k) \/ TaskCall(s, k) \/ TaskReturn(s, k) \/ TaskPut(s, k)
  \/ RunJoin
  \/ CheckStop
  \/ ReceiveSignal
  \/ (Finished /\ UNCHANGED vars)

Fairness ==
  /\ \A s \in 1..4 : WF_vars(s <= NS(topo) /\ LoopTest(s))
  /\ \A s \in 1..4 : WF_vars(s <= NS(topo) /\ LoopSpawn(s))
  /\ \A s \in 1..4 : WF_vars(s <= NS(topo) /\ LoopExit(s))
  /\ \A s \in 1..4 : WF_vars(s <= NS(topo) /\ TaskBegin(s))
  /\ \A s \in 1..4 : WF_vars(s <= NS(topo) /\ \E k \in KeysAt(topo, s) :
       TaskPass(s, k) \/ TaskCall(s, k) \/ TaskReturn(s, k) \/ TaskPut(s, k))
  /\ WF_vars(RunJoin)
  /\ WF_vars(CheckStop)

Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
\* properties
Refines == [][AbsNext]_absvars

CapOK == /\ Cardinality(RunningKind({"cpu"})) <= topo.cap
         /\ Cardinality(RunningKind({"io"})) <= topo.cap
QueueBound == \A s \in 2..NS(topo) :
   (~IsJoin(topo, s) /\ ~IsJoin(topo, s - 1)) =>
      Len(q[s]) <= topo.qmax - 1 + topo.cap
NothingTakenLost == Finished => held = {} /\ ended = {} /\ running = {}
StopOnlyWhenDone == status = "stopped" => Quiet /\ done = Calls(topo)
OnlyExpectedCalls == done \subseteq Calls(topo)
Terminates == <>Finished
=============================================================================
