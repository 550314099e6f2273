-------------------------------- MODULE Fix ---------------------------------
(***************************************************************************)
(* Detection of the false vectors of a field and replacement with          *)
(* secondary peaks of the correlation (WorkFIX).                           *)
(*                                                                         *)
(* A field is a record with integers:                                      *)
(*  ny, nx: the vector k (from 0) is at the row k \div nx                  *)
(*  dx, dy, correl: sequences (index k + 1)                                *)
(*  failed: set of the vectors already with an error                       *)
(*  peaks: peaks[k + 1] = sequence of records dx, dy, correl, subpix (the  *)
(*    refinement of this peak is possible)                                 *)
(* and the parameters: correlmin, max (displacement, None), threshold      *)
(* (difference with the neighbours, None)                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Sq(x) == x * x
Vecs(f) == 0..(f.ny * f.nx - 1)
DX(f, k) == f.dx[k + 1]
DY(f, k) == f.dy[k + 1]
Correl(f, k) == f.correl[k + 1]
AbsI(x) == IF x >= 0 THEN x ELSE 0 - x
Neighbours(f, k) ==
  {l \in Vecs(f) : /\ l # k
                   /\ AbsI((l \div f.nx) - (k \div f.nx)) <= 1
                   /\ AbsI((l % f.nx) - (k % f.nx)) <= 1}
RECURSIVE SumOver(_, _)
SumOver(G(_), S) ==
  IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN G(x) + SumOver(G, S \ {x})

LowCorrel(f) == {k \in Vecs(f) : Correl(f, k) < f.correlmin}
(* the steps are applied one after the other, to what remains *)
After1(f) == Vecs(f) \ (f.failed \union LowCorrel(f))
TooLarge(f) ==
  IF f.max = None THEN {}
  ELSE {k \in After1(f) : Sq(DX(f, k)) + Sq(DY(f, k)) > Sq(f.max)}
After2(f) == After1(f) \ TooLarge(f)

(* f with the vectors which remain after the two first steps (used below) *)
Prepared(f) ==
  [ny |-> f.ny, nx |-> f.nx, dx |-> f.dx, dy |-> f.dy, correl |-> f.correl,
   failed |-> f.failed, peaks |-> f.peaks, correlmin |-> f.correlmin, max |-> f.max,
   threshold |-> f.threshold, ok |-> After2(f)]

(* n^2 times the square of the difference between (x, y) and the mean of the
   neighbours, and n *)
NbN(f, k) == Cardinality(Neighbours(f, k) \cap f.ok)
Diff2(f, k, x, y) ==
  LET S == Neighbours(f, k) \cap f.ok
      X(l) == DX(f, l) Y(l) == DY(f, l) n == Cardinality(S) IN
  Sq(SumOver(X, S) - n * x) + Sq(SumOver(Y, S) - n * y)
(* vectors which are and vectors which can be flagged (equality: rounding) *)
Far(f) ==
  IF f.threshold = None THEN {}
  ELSE {k \in f.ok : /\ NbN(f, k) > 0
                          /\ Diff2(f, k, DX(f, k), DY(f, k)) > Sq(f.threshold * NbN(f, k))}
AtThreshold(f) ==
  IF f.threshold = None THEN {}
  ELSE {k \in f.ok : /\ NbN(f, k) > 0
                          /\ Diff2(f, k, DX(f, k), DY(f, k)) = Sq(f.threshold * NbN(f, k))}
Flagged(f) == (Vecs(f) \ f.ok) \union Far(f)
NbReasons(f, k) ==
  Cardinality({i \in 1..4 : CASE i = 1 -> k \in f.failed [] i = 2 -> k \in LowCorrel(f)
                              [] i = 3 -> k \in TooLarge(f) [] OTHER -> k \in Far(f)})

(* Replacement: among the secondary peaks which are high enough, the one
   nearest to the mean of the neighbours, if it is nearer than the vector. *)
GoodPeaks(f, k) ==
  {i \in DOMAIN f.peaks[k + 1] :
     LET p == f.peaks[k + 1][i] IN
     5 * p.correl > 3 * Correl(f, k) /\ p.correl > f.correlmin}
PeakDiff(f, k, i) == LET p == f.peaks[k + 1][i] IN Diff2(f, k, p.dx, p.dy)
Nearest(f, k) ==
  {i \in GoodPeaks(f, k) :
     /\ \A j \in GoodPeaks(f, k) : PeakDiff(f, k, i) <= PeakDiff(f, k, j)
     /\ PeakDiff(f, k, i) <= Diff2(f, k, DX(f, k), DY(f, k))}
Suitable(f, k, i) ==
  LET p == f.peaks[k + 1][i] IN
  /\ f.threshold = None \/ PeakDiff(f, k, i) <= Sq(f.threshold * NbN(f, k))
  /\ f.max = None \/ Sq(p.dx) + Sq(p.dy) <= Sq(f.max)
  /\ p.subpix
(* the indices of the peaks which can replace the vector (0: not replaced) *)
Candidates(f, k) ==
  IF k \notin f.ok \/ NbN(f, k) = 0 THEN {0}
  ELSE LET near == Nearest(f, k)
           strict == {i \in near : PeakDiff(f, k, i) < Diff2(f, k, DX(f, k), DY(f, k))} IN
       {i \in near : Suitable(f, k, i)}
       \union (IF strict = {} \/ \E i \in near : ~Suitable(f, k, i) THEN {0} ELSE {})
(* at the threshold, the floating point result can be on both sides *)
Uncertain(f, k) ==
  /\ f.threshold # None /\ k \in f.ok /\ NbN(f, k) > 0
  /\ \E i \in GoodPeaks(f, k) : PeakDiff(f, k, i) = Sq(f.threshold * NbN(f, k))
=============================================================================
