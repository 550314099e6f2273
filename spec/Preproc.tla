------------------------------ MODULE Preproc ------------------------------
(***************************************************************************)
(* Preprocessing of stacks of images: what each tool computes.             *)
(*                                                                         *)
(* A stack is a sequence of images, an image a sequence of lines of        *)
(* integers, S times the values of the pixels.  A step is a record         *)
(*  tool: name (see Temporal, Spatial, Other), cv: backend opencv          *)
(*  weight, percentile: 4 weight (integer), integer                        *)
(*  win: <<>> (not given), <<w>>, <<wy, wx>> or <<wt, wy, wx>>             *)
(*  mode: extension of the image out of its borders                        *)
(*  lo, hi: limits or range, multiplied by S (hi = None: no limit)         *)
(* The exact tools are functions (Apply); the others are relations (Fits). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 64
None == -9999999

SlidingTools == {"sliding_median", "sliding_percentile", "sliding_minima"}
TemporalTools == {"temporal_median", "temporal_percentile", "temporal_minima"}
ExactTools == SlidingTools \cup TemporalTools \cup {"global_threshold"}

(* index (from 0) of the pixel used for the index i of a line of n pixels; *)
(* -1: out of the image                                                    *)
At(i, n, mode) ==
  IF i >= 0 /\ i < n THEN i
  ELSE CASE mode = "reflect" -> LET m == i % (2 * n) IN IF m < n THEN m ELSE (2 * n - 1) - m
         [] mode = "mirror" ->
              IF n = 1 THEN 0
              ELSE LET p == 2 * (n - 1) m == i % p IN IF m < n THEN m ELSE p - m
         [] mode = "nearest" -> IF i < 0 THEN 0 ELSE n - 1
         [] mode = "wrap" -> i % n
         [] OTHER -> -1

NT(st) == Len(st)
NY(st) == Len(st[1])
NX(st) == Len(st[1][1])

(* Sizes of the window along t, y and x *)
Window(op, st) ==
  IF op.tool \in SlidingTools
  THEN IF Len(op.win) = 1 THEN <<1, op.win[1], op.win[1]>> ELSE <<1>> \o op.win
  ELSE CASE op.win = <<>> -> <<NT(st), 1, 1>>
         [] Len(op.win) = 1 -> <<op.win[1], 1, 1>>
         [] Len(op.win) = 2 -> <<NT(st)>> \o op.win
         [] OTHER -> op.win

(* what is read out of the image for the modes giving no pixel: the pixels *)
(* are zeros, except for the minima of opencv (they are ignored)           *)
Outside(op) == IF op.cv THEN None ELSE 0

(* Sorted values in the window centred on a pixel (from 0) *)
Sorted(op, st, t, y, x) ==
  LET w == Window(op, st)
      n == w[1] * w[2] * w[3]
      Val(p) ==
        LET a == At(t - (w[1] \div 2) + (p \div (w[2] * w[3])), NT(st), op.mode)
            b == At(y - (w[2] \div 2) + ((p \div w[3]) % w[2]), NY(st), op.mode)
            c == At(x - (w[3] \div 2) + (p % w[3]), NX(st), op.mode)
        IN IF a = -1 \/ b = -1 \/ c = -1 THEN Outside(op) ELSE st[a + 1][b + 1][c + 1]
      vals == [p \in 1..n |-> Val(p - 1)]
  IN SortSeq(SelectSeq(vals, LAMBDA v : v # None), LAMBDA u, v : u < v)

(* Rank (from 0) of the value subtracted among n sorted values *)
Rank(op, n) ==
  CASE op.tool \in {"sliding_median", "temporal_median"} -> n \div 2
    [] op.tool \in {"sliding_minima", "temporal_minima"} -> 0
    [] OTHER -> IF op.percentile = 100 THEN n - 1 ELSE (n * op.percentile) \div 100

Background(op, st, t, y, x) ==
  LET vals == Sorted(op, st, t, y, x) IN vals[Rank(op, Len(vals)) + 1]

(* Only the sliding tools of the backend python remove negative values *)
Clips(op) == op.tool \in SlidingTools /\ ~op.cv

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Pixel(op, st, t, y, x) ==
  LET v == st[t + 1][y + 1][x + 1] IN
  IF op.tool = "global_threshold"
  THEN LET top == IF op.hi = None THEN v ELSE Min(v, op.hi) IN
       IF op.cv THEN (IF top > op.lo THEN top ELSE 0) ELSE IF v < op.lo THEN op.lo ELSE top
  ELSE LET d == v - (op.weight * Background(op, st, t, y, x)) \div 4 IN
       IF Clips(op) THEN Max(d, 0) ELSE d

Apply(op, st) ==
  [t \in 1..NT(st) |-> [y \in 1..NY(st) |-> [x \in 1..NX(st) |->
     Pixel(op, st, t - 1, y - 1, x - 1)]]]

(* Tools to be applied, in order: the enabled ones *)
Steps(sequence, available, ops) ==
  LET order == IF sequence = <<>> THEN available ELSE sequence
      Op(name) == CHOOSE i \in 1..Len(ops) : ops[i].tool = name
      enabled == SelectSeq(order, LAMBDA name : \E i \in 1..Len(ops) : ops[i].tool = name)
  IN [k \in 1..Len(enabled) |-> ops[Op(enabled[k])]]

---------------------------------------------------------------------------
(* Other tools, image by image: relation between an image and the result   *)

Pix(im) == {<<y, x>> : y \in 1..Len(im), x \in 1..Len(im[1])}
V(im, p) == im[p[1]][p[2]]
MaxIm(im) == LET vals == {V(im, p) : p \in Pix(im)} IN CHOOSE v \in vals : \A u \in vals : u <= v
MinIm(im) == LET vals == {V(im, p) : p \in Pix(im)} IN CHOOSE v \in vals : \A u \in vals : u >= v
Abs(v) == IF v < 0 THEN -v ELSE v
Monotone(im, out) ==
  \A p, q \in Pix(im) : V(im, p) <= V(im, q) => V(out, p) <= V(out, q)
Square(im, p, r) ==
  {V(im, q) : q \in {q \in Pix(im) : Abs(q[1] - p[1]) <= r /\ Abs(q[2] - p[2]) <= r}}

Rescaled(op, im, out) ==
  LET a == MinIm(im) b == MaxIm(im) IN
  \A p \in Pix(im) :
    IF a = b THEN V(out, p) = Max(op.lo, Min(op.hi, a))
    ELSE Abs((V(out, p) - op.lo) * (b - a) - (V(im, p) - a) * (op.hi - op.lo)) <= 2 * (b - a)

(* floor(max tanh(v / T) / tanh(max / T)); T * S = op.lo, None: deduced from the image *)
Tanh(op, im, out) ==
  LET m == MaxIm(im) IN
  IF m <= 0 THEN \A p \in Pix(im) : V(im, p) = 0 => V(out, p) = 0
  ELSE /\ Monotone(im, out)
       /\ \A p \in Pix(im) :
            LET v == V(im, p) o == V(out, p) IN
            /\ v = m => o \in {m - (m % S), (m - (m % S)) - S}
            /\ v >= 0 => (o > v - S - 1 /\ o <= m)
            /\ v = 0 => o = 0
            /\ (v >= 0 /\ op.lo # None) => o <= v + (v * m) \div op.lo + 1

Equalized(op, im, out) ==
  LET n == Cardinality(Pix(im)) IN
  /\ Monotone(im, out)
  /\ \A p \in Pix(im) :
       op.ints => Abs(V(out, p) * n - S * Cardinality({q \in Pix(im) : V(im, q) <= V(im, p)})) <= n
  /\ \A p \in Pix(im) : V(out, p) >= 0 /\ V(out, p) <= S

(* gain * v^gamma (gamma = percentile: 1 or 2) and, for integers of 8 bits, the same with v / 255 *)
Gamma(op, im, out) ==
  \A p \in Pix(im) :
    LET v == V(im, p) o == V(out, p) IN
    IF op.ints
    THEN LET u == v \div S
             ideal == IF op.percentile = 1 THEN op.weight * u * 255 ELSE op.weight * u * u
         IN \/ Abs((o \div S) * 255 * 4 - ideal) <= 255 * 3
            \/ o = 255 * S /\ ideal >= 254 * 255 * 4
    ELSE Abs(o * 4 - op.weight * (IF op.percentile = 1 THEN v ELSE (v * v) \div S)) <= 8

(* v > (mean in the neighbourhood) - offset, the result being 0 or the maximum *)
Binary(op, im, out) ==
  \A p \in Pix(im) :
    LET around == Square(im, p, op.win[1])
        hi == CHOOSE v \in around : \A u \in around : u <= v
        lo == CHOOSE v \in around : \A u \in around : u >= v
        v == V(im, p)
    IN /\ V(out, p) \in {0, MaxIm(im)}
       /\ v >= (hi - op.lo) + S => V(out, p) = MaxIm(im)
       /\ v <= (lo - op.lo) - S => V(out, p) = 0

InRange(im, out) ==
  \A p \in Pix(im) : V(out, p) >= MinIm(im) - 1 /\ V(out, p) <= MaxIm(im) + 1

Sharpened(im, out) ==
  MaxIm(im) = MinIm(im) => \A p \in Pix(im) : Abs(V(out, p) - MaxIm(im)) <= 1

FitsImage(op, im, out) ==
  CASE op.tool = "rescale_intensity" -> Rescaled(op, im, out)
    [] op.tool = "rescale_intensity_tanh" -> Tanh(op, im, out)
    [] op.tool = "equalize_hist_global" -> Equalized(op, im, out)
    [] op.tool = "gamma_correction" -> Gamma(op, im, out)
    [] op.tool = "adaptive_threshold" -> Binary(op, im, out)
    [] op.tool = "sharpen" -> Sharpened(im, out)
    [] OTHER -> InRange(im, out)

SameShape(st, out) ==
  /\ Len(out) = NT(st)
  /\ \A t \in 1..NT(st) : Len(out[t]) = NY(st) /\ \A y \in 1..NY(st) : Len(out[t][y]) = NX(st)

Fits(op, st, out) == SameShape(st, out) /\ \A t \in 1..NT(st) : FitsImage(op, st[t], out[t])

---------------------------------------------------------------------------
(* Subsets: the images given by the computation of the subset ind (from 0) *)
(* of nb subsets, of ni * nj images: the middle ones, and the ones before  *)
(* (after) for the first (last) subset.  Sequence of ranks (from 0).       *)
Selected(ni, nj, ind, nb) ==
  LET mid == (ni - 1) \div 2
      first == IF ind = 0 THEN 0 ELSE mid
      last == IF ind = nb - 1 THEN ni - 1 ELSE mid
  IN [k \in 1..(((last - first) + 1) * nj) |-> (first * nj + k) - 1]

(* Saved images: integers, without negative values *)
Saved(v) == Max(v, 0) \div S
=============================================================================
