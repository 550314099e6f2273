------------------------------ MODULE ExecAbs ------------------------------
(***************************************************************************)
(* What an executor of fluidimage has to do with a topology, whatever its  *)
(* strategy: every item put in the first queue goes through the works of   *)
(* the chain, each work is called once per item, failures travel with      *)
(* their item, a bounded number of works run at the same time, and the     *)
(* computation stops when, and only when, nothing is left.                 *)
(*                                                                         *)
(* A topology is a chain of stages: stage s takes its items from queue s.  *)
(* A stage is an ordinary work ("cpu", "io": called on one item) or a      *)
(* "join" (a "global" work which forms subsets of consecutive items, as    *)
(* the couples of images of the PIV).                                      *)
(*                                                                         *)
(* Guards are sets of <<name, boolean>>: an action is enabled iff they all *)
(* hold; the trace specification reports the names of those which do not.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  topo,     \* the topology and the options of the run (never changes)
  q,        \* q[s]: items in the input queue of stage s, sequence of <<key, value>>
  subsets,  \* subsets still to be formed by the join
  held,     \* <<s, k, v>> taken from queue s by the executor, work not yet called
  running,  \* <<s, k, v>> the work is being executed
  ended,    \* <<s, k, v>> result v of stage s for k, not yet put in the next queue
  done,     \* <<s, k>> calls of works which happened (history)
  status,   \* "run", "stopping" (signal received), "stopped", "raised"
  late      \* stages which took an item after the signal (history)

absvars == <<topo, q, subsets, held, running, ended, done, status, late>>

NS(t) == Len(t.stages)
IsJoin(t, s) == t.stages[s].kind = "join"
JoinStage(t) == LET J == {s \in 1..NS(t) : IsJoin(t, s)}
                IN IF J = {} THEN 0 ELSE CHOOSE s \in J : TRUE
AfterJoin(t, s) == JoinStage(t) # 0 /\ s > JoinStage(t)
BeforeJoin(t, s) == JoinStage(t) # 0 /\ s < JoinStage(t)

\* members of a subset: subsets are pairs <<key, members>>
Members(t, sk) == LET i == CHOOSE i \in 1..Len(t.subs) : t.subs[i][1] = sk
                  IN {t.subs[i][2][j] : j \in 1..Len(t.subs[i][2])}
SubKeys(t) == {t.subs[i][1] : i \in 1..Len(t.subs)}
SrcKeys(t) == {t.keys[i] : i \in 1..Len(t.keys)}
Fails(t) == {<<t.fails[i][1], t.fails[i][2]>> : i \in 1..Len(t.fails)}
KeysAt(t, s) == IF AfterJoin(t, s) THEN SubKeys(t) ELSE SrcKeys(t)

(***************************************************************************)
(* The meaning of a topology: which calls have to happen.                  *)
(***************************************************************************)
RECURSIVE Broken(_, _, _)
\* the item k arrives at stage s as an exception
Broken(t, s, k) ==
  IF s = 1 THEN FALSE
  ELSE IF IsJoin(t, s - 1)
       THEN \E m \in Members(t, k) : Broken(t, s - 1, m)
       ELSE Broken(t, s - 1, k) \/ <<s - 1, k>> \in Fails(t)

Calls(t) == {<<s, k>> \in (1..NS(t)) \X (SrcKeys(t) \union SubKeys(t)) :
               /\ ~IsJoin(t, s)
               /\ k \in KeysAt(t, s)
               /\ ~Broken(t, s, k)}
FailedCalls(t) == {c \in Calls(t) : c \in Fails(t)}
\* the keys for which the last work succeeds
GoodResults(t) == {k \in KeysAt(t, NS(t)) :
                     <<NS(t), k>> \in Calls(t) /\ <<NS(t), k>> \notin Fails(t)}

-----------------------------------------------------------------------------
InQ(s, k) == \E i \in 1..Len(q[s]) : q[s][i][1] = k
ValQ(s, k) == q[s][CHOOSE i \in 1..Len(q[s]) : q[s][i][1] = k][2]
Remove(seq, k) == SelectSeq(seq, LAMBDA e : e[1] # k)
Append1(seq, k, v) == Append(seq, <<k, v>>)
RunningKind(kinds) == {r \in running : topo.stages[r[1]].kind \in kinds}
IsExc(v) == v[1] = "!"

\* each value is a pair <<"!" or "", text>>

Fill(k, v) ==
  /\ q' = [q EXCEPT ![1] = IF InQ(1, k) THEN @ ELSE Append1(@, k, v)]
  /\ UNCHANGED <<topo, subsets, held, running, ended, done, status, late>>

PopGuards(s, k, v) == {
  <<"pop-item-present", InQ(s, k)>>,
  <<"pop-same-value", InQ(s, k) => ValQ(s, k) = v>>,
  <<"not-after-stop", status \in {"run", "stopping"}>>,
  <<"signal-at-most-one-more-item", status = "stopping" => s \notin late>> }
Pop(s, k, v) ==
  /\ q' = [q EXCEPT ![s] = Remove(@, k)]
  /\ late' = IF status = "stopping" THEN late \union {s} ELSE late
  /\ held' = IF IsExc(v) /\ s = NS(topo) THEN held  \* the end of a broken item
             ELSE held \union {<<s, k, v>>}
  /\ UNCHANGED <<topo, subsets, running, ended, done, status>>

StartGuards(s, k, v) == {
  <<"start-item-taken", <<s, k, v>> \in held>>,
  <<"start-not-on-exception", ~IsExc(v)>>,
  <<"start-once", <<s, k>> \notin done>>,
  <<"start-expected", <<s, k>> \in Calls(topo)>>,
  <<"cap-cpu", topo.stages[s].kind = "cpu" =>
       Cardinality(RunningKind({"cpu"})) < topo.cap>>,
  <<"cap-io", topo.stages[s].kind = "io" =>
       Cardinality(RunningKind({"io"})) < topo.cap>>,
  <<"not-after-stop", status \in {"run", "stopping"}>> }
Start(s, k, v) ==
  /\ held' = held \ {<<s, k, v>>}
  /\ running' = running \union {<<s, k, v>>}
  /\ done' = done \union {<<s, k>>}
  /\ UNCHANGED <<topo, q, subsets, ended, status, late>>

EndGuards(s, k, out) == {
  <<"end-running", \E r \in running : r[1] = s /\ r[2] = k>>,
  <<"end-fails-as-told", IsExc(out) <=> <<s, k>> \in Fails(topo)>> }
End(s, k, out) ==
  /\ running' = {r \in running : ~(r[1] = s /\ r[2] = k)}
  /\ ended' = IF s = NS(topo) THEN ended ELSE ended \union {<<s, k, out>>}
  /\ UNCHANGED <<topo, q, subsets, held, done, status, late>>

\* the queue s is filled by the ordinary work s - 1
PutGuards(s, k, v) == {
  <<"put-result-of-work", <<s - 1, k, v>> \in ended
                          \/ (IsExc(v) /\ <<s - 1, k, v>> \in held)>>,
  <<"put-not-already", ~InQ(s, k)>>,
  <<"queue-bound", ~IsJoin(topo, s) =>
        Len(q[s]) + 1 <= topo.qmax - 1 + topo.cap>>,
  <<"not-after-stop", status # "stopped">> }
Put(s, k, v) ==
  /\ q' = [q EXCEPT ![s] = Append1(@, k, v)]
  /\ ended' = ended \ {<<s - 1, k, v>>}
  /\ held' = held \ {<<s - 1, k, v>>}
  /\ UNCHANGED <<topo, subsets, running, done, status, late>>

\* the join (code of the topology, not of the executor)
JoinGuards(sk) == LET s == JoinStage(topo) IN {
  <<"join-subset-pending", sk \in subsets>>,
  <<"join-members-present", \A m \in Members(topo, sk) : InQ(s, m)>> }
\* members of other subsets still to be formed stay in the queue
Join(sk, v) ==
  LET s == JoinStage(topo)
      rest == subsets \ {sk}
      needed == UNION {Members(topo, o) : o \in rest}
      gone == Members(topo, sk) \ needed
  IN /\ subsets' = rest
     /\ q' = [q EXCEPT ![s] = SelectSeq(@, LAMBDA e : e[1] \notin gone),
                       ![s + 1] = Append1(@, sk, v)]
     /\ UNCHANGED <<topo, held, running, ended, done, status, late>>

Quiet == /\ \A s \in 1..NS(topo) : q[s] = <<>>
         /\ subsets = {} /\ held = {} /\ running = {} /\ ended = {}

\* after the signal, what has been taken is finished, the rest is left
StopGuards == {
  <<"stop-queues-empty", status = "run" =>
        (\A s \in 1..NS(topo) : q[s] = <<>>) /\ subsets = {}>>,
  <<"stop-nothing-taken-lost", held = {} /\ ended = {}>>,
  <<"stop-nothing-running", running = {}>>,
  <<"stop-all-calls-done", status = "run" => done = Calls(topo)>> }

\* the signal asking to stop as soon as possible
Signal ==
  /\ status' = IF status = "run" THEN "stopping" ELSE status
  /\ UNCHANGED <<topo, q, subsets, held, running, ended, done, late>>
Stop ==
  /\ status' = "stopped"
  /\ UNCHANGED <<topo, q, subsets, held, running, ended, done, late>>

\* stop_if_error
RaiseGuards == {
  <<"raise-only-if-asked", topo.stop_if_error>>,
  <<"raise-only-on-failure", \E c \in done : c \in Fails(topo)>> }
Raise ==
  /\ status' = "raised"
  /\ UNCHANGED <<topo, q, subsets, held, running, ended, done, late>>

Failing(guards) == {g[1] : g \in {h \in guards : ~h[2]}}
Holds(guards) == \A g \in guards : g[2]

AbsInit(t) ==
  /\ topo = t
  /\ q = [s \in 1..NS(t) |-> <<>>]
  /\ subsets = SubKeys(t)
  /\ held = {} /\ running = {} /\ ended = {} /\ done = {}
  /\ status = "run" /\ late = {}

-----------------------------------------------------------------------------
(* Next-state relation of the abstract specification (used for refinement  *)
(* by ExecAsync); values are <<"", "v">> or <<"!", "e">>.                   *)
Ok == <<"", "v">>
Exc == <<"!", "e">>
Vals == {Ok, Exc}

AbsNext ==
  \/ \E s \in 1..NS(topo) : \E k \in KeysAt(topo, s), v \in Vals :
       \/ ~IsJoin(topo, s) /\ Holds(PopGuards(s, k, v)) /\ Pop(s, k, v)
       \/ ~IsJoin(topo, s) /\ Holds(StartGuards(s, k, v)) /\ Start(s, k, v)
       \/ ~IsJoin(topo, s) /\ Holds(EndGuards(s, k, v)) /\ End(s, k, v)
       \/ s > 1 /\ ~IsJoin(topo, s - 1) /\ Holds(PutGuards(s, k, v)) /\ Put(s, k, v)
  \/ \E sk \in subsets : /\ Holds(JoinGuards(sk))
                         /\ Join(sk, IF \E m \in Members(topo, sk) :
                                          IsExc(ValQ(JoinStage(topo), m))
                                     THEN Exc ELSE Ok)
  \/ status \in {"run", "stopping"} /\ Holds(StopGuards) /\ Stop
  \/ status = "run" /\ Signal
  \/ status = "run" /\ Holds(RaiseGuards) /\ Raise
=============================================================================
