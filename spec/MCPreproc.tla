----------------------------- MODULE MCPreproc -----------------------------
(***************************************************************************)
(* Sequences of tools applied to all the small stacks.                     *)
(***************************************************************************)
EXTENDS Preproc

CONSTANTS N, H, W, Vmax, Depth

Modes == {"reflect", "mirror", "nearest", "wrap", "constant"}
Sizes == {<<1>>, <<2>>, <<3>>, <<3, 1>>, <<2, 3>>}
Base == [cv |-> FALSE, weight |-> 4, percentile |-> 0, win |-> <<3>>, mode |-> "reflect", lo |-> 0, hi |-> None]
With(op, tool, win, mode, weight) ==
  [tool |-> tool, cv |-> FALSE, weight |-> weight, percentile |-> 50, win |-> win, mode |-> mode,
   lo |-> 0, hi |-> None]
Sliding == {With(Base, tool, win, mode, 4) : tool \in SlidingTools, win \in Sizes, mode \in Modes}
Temporal ==
  {With(Base, tool, win, "reflect", weight) :
     tool \in TemporalTools, win \in {<<>>, <<2>>, <<2, 1>>, <<3, 1, 2>>}, weight \in {2, 4}}
Thresholds ==
  {[tool |-> "global_threshold", cv |-> FALSE, weight |-> 4, percentile |-> 0, win |-> <<>>, mode |-> "reflect",
    lo |-> lo, hi |-> hi] : lo \in {0, S}, hi \in {None, S, 2 * S}}
Ops == Sliding \cup Thresholds \cup (IF N > 1 THEN Temporal ELSE {})

VARIABLES first, stack, last, depth
vars == <<first, stack, last, depth>>

Values == {S * v : v \in 0..Vmax}
Init ==
  /\ first \in [1..N -> [1..H -> [1..W -> Values]]]
  /\ stack = first
  /\ last = <<>>
  /\ depth = 0
Next ==
  /\ depth < Depth
  /\ \E op \in Ops :
       /\ stack' = Apply(op, stack)
       /\ last' = <<op, stack>>
  /\ depth' = depth + 1
  /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

All(st, P(_)) == \A t \in 1..N : \A y \in 1..H : \A x \in 1..W : P(st[t][y][x])
Constant(st) == \A t \in 1..N : \A y \in 1..H : \A x \in 1..W : st[t][y][x] = st[1][1][1]
FlipX(st) == [t \in 1..N |-> [y \in 1..H |-> [x \in 1..W |-> st[t][y][(W + 1) - x]]]]
FlipT(st) == [t \in 1..N |-> st[(N + 1) - t]]
As(op, tool, p) == [op EXCEPT !.tool = tool, !.percentile = p]

NonNegativeInv ==
  (last # <<>> /\ Clips(last[1])) => All(stack, LAMBDA v : v >= 0)
NotAboveInv ==
  (last # <<>> /\ Clips(last[1])) =>
    \A t \in 1..N : \A y \in 1..H : \A x \in 1..W :
      stack[t][y][x] <= Max(0, last[2][t][y][x] + (IF last[1].mode = "constant" THEN S * Vmax ELSE S * Vmax * Depth))
ConstantInv ==
  (last # <<>> /\ Constant(last[2]) /\ last[1].mode # "constant") => Constant(stack)
BackgroundInv ==  \* nothing remains of a constant stack
  (last # <<>> /\ Constant(last[2]) /\ last[1].mode # "constant" /\ last[1].weight = 4
   /\ last[1].tool # "global_threshold")
    => All(stack, LAMBDA v : v = 0)
PercentileInv ==
  (last # <<>> /\ last[1].tool \in {"sliding_percentile", "temporal_percentile"}) =>
    LET op == last[1] slid == op.tool = "sliding_percentile" IN
    /\ Apply(As(op, IF slid THEN "sliding_median" ELSE "temporal_median", 0), last[2]) = stack
    /\ Apply(As(op, op.tool, 0), last[2])
         = Apply(As(op, IF slid THEN "sliding_minima" ELSE "temporal_minima", 0), last[2])
IndependentInv == \* the spatial tools treat each image alone
  (last # <<>> /\ last[1].tool \notin TemporalTools) =>
    \A t \in 1..N : Apply(last[1], <<last[2][t]>>) = <<stack[t]>>
OddWin(op) == \A i \in 1..Len(op.win) : op.win[i] % 2 = 1
FlipInv ==
  (last # <<>> /\ OddWin(last[1]) /\ (last[1].win # <<>> \/ N % 2 = 1)) =>
    /\ Apply(last[1], FlipX(last[2])) = FlipX(stack)
    /\ (last[1].tool \in TemporalTools /\ Len(last[1].win) # 2) => Apply(last[1], FlipT(last[2])) = FlipT(stack)
ClipInv ==
  (last # <<>> /\ last[1].tool = "global_threshold" /\ (last[1].hi = None \/ last[1].hi >= last[1].lo)) =>
    /\ All(stack, LAMBDA v : v >= last[1].lo /\ (last[1].hi # None => v <= last[1].hi))
    /\ Apply(last[1], stack) = stack
(* Each image of successive overlapping subsets is given exactly once *)
Covers(ni, nb) ==
  LET given == [i \in 1..nb |-> LET q == Selected(ni, 1, i - 1, nb) IN [k \in 1..Len(q) |-> (i - 1) + q[k]]] IN
  \A im \in 0..(nb + ni - 2) :
    Cardinality({<<i, k>> \in (1..nb) \X (1..(ni + nb)) : k <= Len(given[i]) /\ given[i][k] = im}) = 1
ASSUME \A ni \in 1..6 : \A nb \in 1..5 : Covers(ni, nb)
=============================================================================
