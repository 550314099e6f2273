------------------------------- MODULE Buffers ------------------------------
(***************************************************************************)
(* A transform operator used by several threads: its input and output      *)
(* arrays are attributes of the operator.  Each thread computes Count      *)
(* transforms: writes its data, executes the plan, copies the result.  The *)
(* result has to depend only on the data given (CorrelTrace checks this    *)
(* for the real operators).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Threads, Count, Locked
VARIABLES pc, done, input, output, lock, results
vars == <<pc, done, input, output, lock, results>>
Free == 0

Data(t, k) == <<t, k>>
F(x) == <<"F", x>>
Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ done = [t \in Threads |-> 0]
  /\ input = <<>> /\ output = <<>> /\ lock = Free
  /\ results = [t \in Threads |-> <<>>]
Enter(t) ==
  /\ pc[t] = "idle" /\ done[t] < Count
  /\ Locked => lock = Free
  /\ lock' = IF Locked THEN t ELSE lock
  /\ input' = Data(t, done[t])
  /\ pc' = [pc EXCEPT ![t] = "written"]
  /\ UNCHANGED <<done, output, results>>
Execute(t) ==
  /\ pc[t] = "written" /\ output' = F(input)
  /\ pc' = [pc EXCEPT ![t] = "executed"]
  /\ UNCHANGED <<done, input, lock, results>>
Copy(t) ==
  /\ pc[t] = "executed"
  /\ results' = [results EXCEPT ![t] = Append(@, output)]
  /\ done' = [done EXCEPT ![t] = @ + 1]
  /\ lock' = IF Locked THEN Free ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<input, output>>
Next == \E t \in Threads : Enter(t) \/ Execute(t) \/ Copy(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ResultsOK == \A t \in Threads : \A k \in DOMAIN results[t] : results[t][k] = F(Data(t, k - 1))
AllDone == <>(\A t \in Threads : done[t] = Count)
=============================================================================
