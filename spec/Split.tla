------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* Partition of what has to be computed between processes (C05).           *)
(*                                                                         *)
(* The clauses say what a split is, without saying how it is done.  The    *)
(* algorithm of the splitters is specified by SplitRange, SplitSeq, and    *)
(* MCSplit checks exhaustively (small constants) that it is a split.       *)
(***************************************************************************)
EXTENDS Names, Sets

RECURSIVE Concat(_)
Concat(seqs) == IF Len(seqs) = 0 THEN <<>> ELSE Head(seqs) \o Concat(Tail(seqs))

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MinInt(a, b) == IF a < b THEN a ELSE b

Sizes(parts) == [i \in 1..Len(parts) |-> Len(parts[i])]

(* sizes of the parts, the processes without any part included *)
Balanced(parts, np, tol) ==
  LET sizes == RangeOf(Sizes(parts)) \union (IF Len(parts) < np THEN {0} ELSE {})
  IN sizes = {} \/ MaxOf(sizes) - MinOf(sizes) <= tol

NonEmpty(parts) == SelectSeq(parts, LAMBDA p : Len(p) > 0)

(* the parts are a split of the sequence *)
SplitGuards(seq, parts, np, tol) ==
  {<<"union-in-order", Concat(parts) = seq>>,
   <<"not-more-parts-than-processes", Len(parts) <= np>>,
   <<"balanced", Balanced(parts, np, tol)>>}

(* the same for parts whose order is not observed *)
SetOfPart(p) == RangeOf(p)
SplitSetGuards(seq, parts, np, tol) ==
  {<<"union", UNION {SetOfPart(parts[i]) : i \in 1..Len(parts)} = RangeOf(seq)>>,
   <<"disjoint", Len(Concat(parts)) = Len(seq)>>,
   <<"not-more-parts-than-processes", Len(parts) <= np>>,
   <<"balanced", Balanced(parts, np, tol)>>}
----------------------------------------------------------------------------
(* the algorithm *)
RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(start, step, n, np, i) ==
  IF i > np THEN <<>>
  ELSE LET k == (n \div np) + (IF i <= (n % np) THEN 1 ELSE 0)
       IN << <<start, start + k * step, step>> >>
          \o SplitFrom(start + k * step, step, n, np, i + 1)

SplitRange(start, stop, step, np) ==
  SplitFrom(start, step, LenRange(start, stop, step), np, 1)

SplitSeq(seq, np0) ==
  LET np == MinInt(np0, Len(seq))
      k == Len(seq) \div np
      m == Len(seq) % np
  IN IF Len(seq) = 0 THEN [i \in 1..np0 |-> <<>>]
     ELSE [i \in 1..np |->
             SubSeq(seq, (i - 1) * k + MinInt(i - 1, m) + 1, i * k + MinInt(i, m))]
=============================================================================
