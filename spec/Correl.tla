------------------------------- MODULE Correl -------------------------------
(***************************************************************************)
(* Correlation of two windows and search of its peaks.                     *)
(*                                                                         *)
(* A window is a sequence of rows of integers.  A displacement is a pair   *)
(* <<dy, dx>>: the pixel p of the first window is found at p + d in the    *)
(* second one, with d = 0 when the central pixels (n \div 2) of the two    *)
(* windows are the same point.  CC gives an integer proportional to the    *)
(* correlation for a displacement, for the different kinds of methods:     *)
(*  "periodic": (fft) windows of same shape repeated periodically, without *)
(*     their mean                                                          *)
(*  "fill": all the second window is used, the first one being extended    *)
(*     with the minimum of the second one                                  *)
(*  "valid": the same, only for the displacements such that the second     *)
(*     window is inside the first one                                      *)
(*  "mean": mean over the part which is common to the two windows          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ny(w) == Len(w)
Nx(w) == Len(w[1])
At(w, i, j) == w[i + 1][j + 1]
Idx(w) == (0..(Ny(w) - 1)) \X (0..(Nx(w) - 1))
Inside(w, i, j) == 0 <= i /\ i < Ny(w) /\ 0 <= j /\ j < Nx(w)
Mid(n) == n \div 2
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Values(w) == UNION {{w[i][j] : j \in DOMAIN w[i]} : i \in DOMAIN w}

(* sum of f[i, j] over the indices of a window *)
RECURSIVE SumRow(_, _, _, _)
SumRow(F(_, _), i, j, n) == IF j = n THEN 0 ELSE F(i, j) + SumRow(F, i, j + 1, n)
RECURSIVE SumRows(_, _, _, _)
SumRows(F(_, _), i, n, m) ==
  IF i = n THEN 0 ELSE SumRow(F, i, 0, m) + SumRows(F, i + 1, n, m)
Sum(F(_, _), w) == SumRows(F, 0, Ny(w), Nx(w))
Total(w) == LET F(i, j) == At(w, i, j) IN Sum(F, w)
Total2(w) == LET F(i, j) == At(w, i, j) * At(w, i, j) IN Sum(F, w)
Size(w) == Ny(w) * Nx(w)

Periodic(a, b, d) ==
  LET F(i, j) == At(a, i, j) * At(b, (i + d[1] + Ny(b)) % Ny(b), (j + d[2] + Nx(b)) % Nx(b))
  IN Size(a) * Sum(F, a) - Total(a) * Total(b)

(* index in the first window of the pixel (i, j) of the second one *)
Back(a, b, i, d, N(_)) == i - Mid(N(b)) + Mid(N(a)) - d
Fill(a, b, d) ==
  LET fill == MinOf(Values(b))
      F(i, j) ==
        LET p == Back(a, b, i, d[1], Ny) q == Back(a, b, j, d[2], Nx) IN
        At(b, i, j) * (IF Inside(a, p, q) THEN At(a, p, q) ELSE fill)
  IN Sum(F, b)
Common(a, b, d) ==
  Cardinality({ij \in Idx(b) :
    Inside(a, Back(a, b, ij[1], d[1], Ny), Back(a, b, ij[2], d[2], Nx))})
CommonSum(a, b, d) ==
  LET F(i, j) ==
        LET p == Back(a, b, i, d[1], Ny) q == Back(a, b, j, d[2], Nx) IN
        IF Inside(a, p, q) THEN At(b, i, j) * At(a, p, q) ELSE 0
  IN Sum(F, b)

(* integers used to compare the values of a correlation map *)
MeanFactor == 100
CC(kind, a, b, d) ==
  IF kind = "periodic" THEN Periodic(a, b, d)
  ELSE IF kind = "mean" THEN (MeanFactor * Size(b) * CommonSum(a, b, d)) \div Common(a, b, d)
  ELSE Fill(a, b, d)
(* values which cannot be distinguished *)
Tie(kind, top) == IF kind = "mean" THEN 2 + (top \div 100000) ELSE 0

(* square of the norm (of the correlation multiplied as above) *)
Var(w) == Size(w) * Total2(w) - Total(w) * Total(w)
Norm2(kind, a, b) ==
  IF kind = "periodic" THEN Var(a) * Var(b)
  ELSE Total2(a) * Total2(b)

-----------------------------------------------------------------------------
(* Search of the peaks.  map: function from displacements to integers;     *)
(* dom: rectangle of the displacements of the map; allowed: subset in      *)
(* which a peak can be found (others: "nan").                              *)
Border(dom, d) ==
  LET ys == {e[1] : e \in dom} xs == {e[2] : e \in dom} IN
  d[1] = MinOf(ys) \/ d[1] = MaxOf(ys) \/ d[2] = MinOf(xs) \/ d[2] = MaxOf(xs)
Around(d, r) == {<<d[1] + i, d[2] + j>> : i \in (0 - r)..r, j \in (0 - r)..r}
Good(dom, allowed, d) == ~Border(dom, d) /\ Around(d, 1) \subseteq allowed
ArgMax(map, S, tie) ==
  IF S = {} THEN {}
  ELSE LET top == MaxOf({map[d] : d \in S}) IN {d \in S : map[d] >= top - tie}
Erase(allowed, d, r) == allowed \ Around(d, r)

(* A displacement found without error and what remains of the map after
   the first try. *)
Found(map, dom, allowed, r, tie) ==
  LET M == ArgMax(map, allowed, tie)
      bad == {q \in M : ~Good(dom, allowed, q)} IN
  {[p |-> p, rest |-> allowed] : p \in M \ bad}
  \union UNION {LET rest == Erase(allowed, q, r) IN
                {[p |-> p, rest |-> rest] :
                   p \in {x \in ArgMax(map, rest, tie) : Good(dom, rest, x)}} : q \in bad}
(* A displacement reported with an error *)
Failed(map, dom, allowed, r, tie) ==
  {q \in ArgMax(map, allowed, tie) :
     /\ ~Good(dom, allowed, q)
     /\ LET rest == Erase(allowed, q, r) IN
        rest = {} \/ \E p \in ArgMax(map, rest, tie) : ~Good(dom, rest, p)}

(* Other peaks, found one after the other around which the map is erased *)
RECURSIVE Others(_, _, _, _, _, _, _, _)
Others(map, dom, rest, r, tie, last, peaks, nb) ==
  LET left == Erase(rest, last, r)
      M == ArgMax(map, left, tie) IN
  IF peaks = <<>> THEN nb = 0 \/ M = {} \/ \E q \in M : ~Good(dom, left, q)
  ELSE /\ nb > 0
       /\ Head(peaks) \in M /\ Good(dom, left, Head(peaks))
       /\ Others(map, dom, left, r, tie, Head(peaks), Tail(peaks), nb - 1)
=============================================================================
