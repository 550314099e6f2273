------------------------------ MODULE MCSplit ------------------------------
(* Exhaustive check of the algorithm of the splitters *)
EXTENDS Split
CONSTANTS MaxStart, MaxStop, MaxStep, MaxParts
VARIABLES start, stop, step, np, parts, lists
vars == <<start, stop, step, np, parts, lists>>

Init ==
  /\ start \in 0..MaxStart /\ stop \in 0..MaxStop /\ step \in 1..MaxStep
  /\ np \in 1..MaxParts
  /\ parts = <<>> /\ lists = <<>>

Indices == PyRange(start, stop, step)
DoSplit ==
  /\ parts = <<>>
  /\ parts' = SplitRange(start, stop, step, np)
  /\ lists' = SplitSeq(Indices, np)
  /\ UNCHANGED <<start, stop, step, np>>

Spec == Init /\ [][DoSplit]_vars

AsSeqs == [i \in 1..Len(parts) |-> PyRange(parts[i][1], parts[i][2], parts[i][3])]
RangeOK == parts # <<>> =>
  /\ FailingNames(SplitGuards(Indices, AsSeqs, np, 1)) = {}
  /\ Len(parts) = np
ListOK == parts # <<>> =>
  /\ FailingNames(SplitGuards(Indices, lists, np, 1)) = {}
  /\ Len(NonEmpty(lists)) = MinInt(np, Len(Indices))
=============================================================================
