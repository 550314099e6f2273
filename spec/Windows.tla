------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* Positions of the vectors and of the interrogation windows of a PIV pass *)
(* along one direction.  A window of size s centred on the pixel c is made *)
(* of the pixels c - s \div 2 .. c - s \div 2 + s - 1.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Half(s) == s \div 2
First(c, s) == c - Half(s)
Last(c, s) == c - Half(s) + s - 1
Inside(c, s, n) == First(c, s) >= 0 /\ Last(c, s) <= n - 1

(* p / q rounded to the nearest integer, halves to the even one *)
Round(p, q) ==
  LET r == (2 * p + q) \div (2 * q) IN
  IF (2 * p + q) % (2 * q) = 0 /\ r % 2 = 1 THEN r - 1 ELSE r
Step(s, num, den) == s - Round(num * s, den)

(* Regular positions, the last one being closer if the windows would not
   cover the end of the image (more than 2/5 of a step). *)
Stop(s, n) == n - (s - Half(s))            \* last possible position
NRegular(s, step, n) == (Stop(s, n) - Half(s) - 1) \div step + 1
Grid(s, step, n) ==
  LET first == Half(s) stop == Stop(s, n) IN
  IF stop < first THEN <<>>
  ELSE IF stop = first THEN <<first>>
  ELSE LET m == NRegular(s, step, n)
           regular == [i \in 1..m |-> first + (i - 1) * step] IN
       IF stop - regular[m] > (2 * step) \div 5 THEN Append(regular, stop) ELSE regular

(* what a grid has to be *)
GridInside(g, s, n) == \A i \in DOMAIN g : Inside(g[i], s, n)
GridRegular(g, step) ==
  \A i \in 1..(Len(g) - 1) :
    IF i < Len(g) - 1 THEN g[i + 1] - g[i] = step
    ELSE g[i + 1] - g[i] <= step /\ g[i + 1] > g[i]
(* pixels covered by no window *)
GridCovers(g, s, step, n) ==
  /\ n >= s => Len(g) >= 1
  /\ Len(g) >= 1 =>
       /\ First(g[1], s) = 0
       /\ 5 * (n - 1 - Last(g[Len(g)], s)) <= 2 * step

(* The two centres used for a vector at (x, y) for a displacement (dx, dy):
   symmetric, except close to the borders. *)
In(c, n) == 0 <= c /\ c <= n
Sym0(x, d) == x - (d \div 2)
Centres(x, y, dx, dy, nx, ny) ==
  LET x0 == Sym0(x, dx) y0 == Sym0(y, dy) x1 == x0 + dx y1 == y0 + dy IN
  IF ~(In(x1, nx) /\ In(y1, ny)) THEN <<x - dx, y - dy, x, y>>
  ELSE IF ~(In(x0, nx) /\ In(y0, ny)) THEN <<x, y, x + dx, y + dy>>
  ELSE <<x0, y0, x1, y1>>

(* what the centres have to be *)
CentresShift(c, dx, dy) == c[3] - c[1] = dx /\ c[4] - c[2] = dy
IsSymmetric(c, x, y) == Abs(c[1] + c[3] - 2 * x) <= 1 /\ Abs(c[2] + c[4] - 2 * y) <= 1
CentresIn(c, nx, ny) == In(c[1], nx) /\ In(c[2], ny) /\ In(c[3], nx) /\ In(c[4], ny)
OneCentreIsVector(c, x, y) == (c[1] = x /\ c[2] = y) \/ (c[3] = x /\ c[4] = y)
CentresOK(c, x, y, dx, dy, nx, ny) ==
  LET sym == <<Sym0(x, dx), Sym0(y, dy), Sym0(x, dx) + dx, Sym0(y, dy) + dy>> IN
  /\ CentresShift(c, dx, dy)
  /\ IF CentresIn(sym, nx, ny) THEN IsSymmetric(c, x, y)
     ELSE OneCentreIsVector(c, x, y) \/ IsSymmetric(c, x, y)
=============================================================================
