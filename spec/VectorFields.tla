---------------------------- MODULE VectorFields ----------------------------
(***************************************************************************)
(* Vector fields on grids and arrays of such fields: what each operation   *)
(* has to give, and that an operation modifies nothing else.               *)
(*                                                                         *)
(* Values are dyadic numbers <<n, k>> (n / 2^k, n odd or k = 0), or Nan.   *)
(* A field has coordinates x and y, a z and a vz which are absent, numbers *)
(* or matrices, and the matrices vx and vy (sequences of lines, the lines  *)
(* being along x).  The objects are in a heap: an operation gives a result *)
(* [new |-> new objects, chg |-> changed objects, out |-> ...].            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nan == <<0, -1>>
IsNan(a) == a[2] = -1
RECURSIVE Norm(_, _)
Norm(n, k) ==
  IF n = 0 THEN <<0, 0>>
  ELSE IF k > 0 /\ n % 2 = 0 THEN Norm(n \div 2, k - 1) ELSE <<n, k>>
Int2(n) == <<n, 0>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Add(a, b) ==
  IF IsNan(a) \/ IsNan(b) THEN Nan
  ELSE LET k == Max2(a[2], b[2]) IN
       Norm(a[1] * 2^(k - a[2]) + b[1] * 2^(k - b[2]), k)
Neg(a) == IF IsNan(a) THEN Nan ELSE <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) ==
  IF IsNan(a) \/ IsNan(b) THEN Nan ELSE Norm(a[1] * b[1], a[2] + b[2])
\* division by plus or minus a power of two
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Div(a, b) ==
  IF IsNan(a) \/ IsNan(b) THEN Nan
  ELSE LET s == IF b[1] < 0 THEN -1 ELSE 1 IN
       Norm(a[1] * s * 2^b[2], a[2] + Log2(Abs(b[1])))
Less(a, b) == Sub(a, b)[1] < 0
Half(a) == Div(a, Int2(2))

Op(op, a, b) ==
  CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b)
    [] op = "mul" -> Mul(a, b) [] op = "div" -> Div(a, b)

----------------------------------------------------------------------------
(* Matrices *)
Rows(M) == Len(M)
Cols(M) == Len(M[1])
Mat(ny, nx, F(_, _)) == [i \in 1..ny |-> [j \in 1..nx |-> F(i, j)]]
MatNum(op, M, num) ==
  LET F(i, j) == Op(op, M[i][j], num) IN Mat(Rows(M), Cols(M), F)
NumMat(op, num, M) ==
  LET F(i, j) == Op(op, num, M[i][j]) IN Mat(Rows(M), Cols(M), F)
MatMat(op, M, P) ==
  LET F(i, j) == Op(op, M[i][j], P[i][j]) IN Mat(Rows(M), Cols(M), F)
Cut(M, i0, i1, j0, j1) ==
  LET F(i, j) == M[i + i0][j + j0] IN Mat(i1 - i0, j1 - j0, F)
FlipX(M) == LET F(i, j) == M[i][Cols(M) + 1 - j] IN Mat(Rows(M), Cols(M), F)
FlipY(M) == [i \in 1..Len(M) |-> M[Len(M) + 1 - i]]
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Transpose(M) == LET F(i, j) == M[j][i] IN Mat(Cols(M), Rows(M), F)

(* z and vz: [k |-> "none"], a number [k |-> "num"] or a matrix *)
Num(v) == [k |-> "num", v |-> v, m |-> <<>>]
Arr(M) == [k |-> "arr", v |-> Nan, m |-> M]
None == [k |-> "none", v |-> Nan, m |-> <<>>]
OnArr(q, F(_)) == IF q.k = "arr" THEN Arr(F(q.m)) ELSE q
CompNum(op, a, num) ==
  IF a.k = "arr" THEN Arr(MatNum(op, a.m, num)) ELSE Num(Op(op, a.v, num))
CompComp(op, a, b) ==
  IF a.k = "arr" THEN
    IF b.k = "arr" THEN Arr(MatMat(op, a.m, b.m)) ELSE Arr(MatNum(op, a.m, b.v))
  ELSE IF b.k = "arr" THEN Arr(NumMat(op, a.v, b.m)) ELSE Num(Op(op, a.v, b.v))

----------------------------------------------------------------------------
(* Fields *)
NY(f) == Len(f.y)
NX(f) == Len(f.x)
Regular1(x) == \A i \in 1..(Len(x) - 1) : Sub(x[i + 1], x[i]) = Sub(x[2], x[1])
Regular(f) == Regular1(f.x) /\ Regular1(f.y)
DX(f) == Sub(f.x[2], f.x[1])
DY(f) == Sub(f.y[2], f.y[1])

\* the coordinates of a new field increase
OrientX(f) ==
  IF Less(f.x[2], f.x[1])
  THEN [f EXCEPT !.x = Reverse(f.x), !.vx = FlipX(f.vx), !.vy = FlipX(f.vy),
                 !.vz = OnArr(f.vz, FlipX), !.z = OnArr(f.z, FlipX)]
  ELSE f
OrientY(f) ==
  IF Less(f.y[2], f.y[1])
  THEN [f EXCEPT !.y = Reverse(f.y), !.vx = FlipY(f.vx), !.vy = FlipY(f.vy),
                 !.vz = OnArr(f.vz, FlipY), !.z = OnArr(f.z, FlipY)]
  ELSE f
Created(f) == OrientY(OrientX(f))

FieldNum(op, f, num) ==
  [f EXCEPT !.vx = MatNum(op, f.vx, num), !.vy = MatNum(op, f.vy, num),
            !.vz = CompNum(op, f.vz, num)]
FieldField(op, f, g) ==
  [f EXCEPT !.vx = MatMat(op, f.vx, g.vx), !.vy = MatMat(op, f.vy, g.vy),
            !.vz = CompComp(op, f.vz, g.vz)]

Extract(f, i0, i1, j0, j1) ==
  LET C(M) == Cut(M, i0, i1, j0, j1) IN
  [f EXCEPT !.x = SubSeq(f.x, j0 + 1, j1), !.y = SubSeq(f.y, i0 + 1, i1),
            !.vx = C(f.vx), !.vy = C(f.vy), !.vz = OnArr(f.vz, C), !.z = OnArr(f.z, C)]
\* the first and the last indices of coordinates between two values
Inside(x, a, b) == {i \in 1..Len(x) : ~Less(x[i], a) /\ ~Less(b, x[i])}
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
ExtractPhys(f, y0, y1, x0, x1) ==
  LET I == Inside(f.y, y0, y1) J == Inside(f.x, x0, x1) IN
  Extract(f, MinOf(I) - 1, MaxOf(I), MinOf(J) - 1, MaxOf(J))
Truncate(f, cut) == Extract(f, cut, NY(f) - cut, cut, NX(f) - cut)
\* a square in the middle of the longest direction
Square(f, cut, even) ==
  LET n0 == Min2(NY(f), NX(f)) - 2 * cut
      n == IF even THEN n0 - (n0 % 2) ELSE n0
      si == IF NX(f) > NY(f) THEN cut ELSE (NY(f) - n) \div 2
      sj == IF NX(f) > NY(f) THEN (NX(f) - n) \div 2 ELSE cut IN
  Extract(f, si, si + n, sj, sj + n)

\* index i of a line of n values, reflected at the borders
Reflect(i, n) ==
  LET m == (i - 1) % (2 * n) IN IF m < n THEN m + 1 ELSE (2 * n) - m
\* bags of values as sorted sequences
RECURSIVE InsertSorted(_, _)
InsertSorted(q, v) ==
  IF q = <<>> THEN <<v>>
  ELSE IF Less(v, Head(q)) THEN <<v>> \o q ELSE <<Head(q)>> \o InsertSorted(Tail(q), v)
RECURSIVE SortSeq(_)
SortSeq(q) == IF q = <<>> THEN <<>> ELSE InsertSorted(SortSeq(Tail(q)), Head(q))
MedianMat(M, sy, sx) ==
  LET n == sy * sx
      F(i, j) ==
        SortSeq([l \in 1..n |->
          M[Reflect(i - (sy \div 2) + ((l - 1) \div sx), Rows(M))]
           [Reflect(j - (sx \div 2) + ((l - 1) % sx), Cols(M))]])[(n \div 2) + 1] IN
  Mat(Rows(M), Cols(M), F)
RECURSIVE Medians(_, _, _, _)
Medians(M, sy, sx, n) == IF n = 0 THEN M ELSE Medians(MedianMat(M, sy, sx), sy, sx, n - 1)
Median(f, sy, sx, n, valid) ==
  LET F(M) == Medians(M, sy, sx, n)
      g == [f EXCEPT !.vx = F(f.vx), !.vy = F(f.vy), !.vz = OnArr(f.vz, F)] IN
  IF valid THEN Truncate(g, Max2(sy, sx) \div 2) ELSE g

\* derivative of the sequence q with the space step d (a power of two)
Derivative(q, d, order) ==
  LET n == Len(q) two == Mul(d, Int2(2)) IN
  [i \in 1..n |->
    IF i > 1 /\ i < n THEN Div(Sub(q[i + 1], q[i - 1]), two)
    ELSE IF order = 1
    THEN IF i = 1 THEN Div(Sub(q[2], q[1]), d) ELSE Div(Sub(q[n], q[n - 1]), d)
    ELSE IF i = 1
    THEN Div(Sub(Sub(Mul(Int2(4), q[2]), Mul(Int2(3), q[1])), q[3]), two)
    ELSE Div(Add(Sub(Mul(Int2(3), q[n]), Mul(Int2(4), q[n - 1])), q[n - 2]), two)]
DerX(M, d, order) == [i \in 1..Rows(M) |-> Derivative(M[i], d, order)]
DerY(M, d, order) == Transpose(DerX(Transpose(M), d, order))
Rotz(f, order) == MatMat("sub", DerX(f.vy, DX(f), order), DerY(f.vx, DY(f), order))
Divh(f, order) == MatMat("add", DerX(f.vx, DX(f), order), DerY(f.vy, DY(f), order))
Norm2(f) == MatMat("add", MatMat("mul", f.vx, f.vx), MatMat("mul", f.vy, f.vy))

\* the last line or column is removed when the others are on a regular grid
RegularizedX(f) ==
  IF ~Regular1(f.x) /\ Regular1(SubSeq(f.x, 1, NX(f) - 1))
  THEN Extract(f, 0, NY(f), 0, NX(f) - 1) ELSE f
RegularizedY(f) ==
  IF ~Regular1(f.y) /\ Regular1(SubSeq(f.y, 1, NY(f) - 1))
  THEN Extract(f, 0, NY(f) - 1, 0, NX(f)) ELSE f
Regularized(f) == RegularizedY(RegularizedX(f))

RECURSIVE SumFields(_)
SumFields(q) ==
  IF Len(q) = 1 THEN q[1]
  ELSE FieldField("add", SumFields(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
Average(q) == FieldNum("div", SumFields(q), Int2(Len(q)))

----------------------------------------------------------------------------
(* A gaussian filter g of a field f with three equal components, up to the *)
(* rounding of the values (1/256): the components remain equal, between    *)
(* the bounds of f; the whole filtered field has the same sum.             *)
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN Int2(0) ELSE Add(Head(q), SumOf(Tail(q)))
SumMatrix(M) == SumOf([i \in 1..Rows(M) |-> SumOf(M[i])])
Eps == <<1, 7>>
EqualFiltered(f, g, r, valid) ==
  LET e == IF valid THEN Truncate(f, r) ELSE f
      d == Sub(SumMatrix(g.vx), SumMatrix(f.vx)) tol == Mul(Int2(NX(f) * NY(f)), Eps) IN
  /\ g.x = e.x /\ g.y = e.y /\ g.z = e.z
  /\ Rows(g.vx) = Rows(e.vx) /\ Cols(g.vx) = Cols(e.vx)
  /\ g.vy = g.vx /\ g.vz = Arr(g.vx)
  /\ \A i \in 1..Rows(g.vx), j \in 1..Cols(g.vx) :
       /\ \E k \in 1..Rows(f.vx), m \in 1..Cols(f.vx) : ~Less(Add(g.vx[i][j], Eps), f.vx[k][m])
       /\ \E k \in 1..Rows(f.vx), m \in 1..Cols(f.vx) : ~Less(Add(f.vx[k][m], Eps), g.vx[i][j])
  /\ valid \/ (~Less(tol, d) /\ ~Less(d, Neg(tol)))

----------------------------------------------------------------------------
(* Discrete Fourier transforms of sequences of 1, 2 or 4 values: complex   *)
(* numbers <<re, im>>                                                      *)
CAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
\* a times (-i)^p
Turn(a, p) ==
  LET q == p % 4 IN
  IF q = 0 THEN a ELSE IF q = 1 THEN <<a[2], Neg(a[1])>>
  ELSE IF q = 2 THEN <<Neg(a[1]), Neg(a[2])>> ELSE <<Neg(a[2]), a[1]>>
RECURSIVE CSum(_)
CSum(q) == IF q = <<>> THEN <<Int2(0), Int2(0)>> ELSE CAdd(Head(q), CSum(Tail(q)))
Freq(m, n) == (m - 1) - (n \div 2)
Freqs(n) == [m \in 1..n |-> Freq(m, n)]
\* the zero frequency in the middle; divided by the number of values
DFT(q) ==
  LET n == Len(q) IN
  [m \in 1..n |->
    LET c == CSum([j \in 1..n |-> Turn(q[j], (4 \div n) * (j - 1) * Freq(m, n))]) IN
    <<Div(c[1], Int2(n)), Div(c[2], Int2(n))>>]
Complex(M) == [i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> <<M[i][j], Int2(0)>>]]
DFTX(M) == [i \in 1..Rows(M) |-> DFT(M[i])]
DFTY(M) == Transpose(DFTX(Transpose(M)))
Energy(c) == Half(Add(Mul(c[1], c[1]), Mul(c[2], c[2])))
Spectrum(M, axes) ==
  LET C == Complex(M)
      S == IF axes = "x" THEN DFTX(C) ELSE IF axes = "y" THEN DFTY(C) ELSE DFTX(DFTY(C))
  IN [fft |-> S, psd |-> [i \in 1..Rows(S) |-> [j \in 1..Cols(S) |-> Energy(S[i][j])]]]

\* in time: the values of each point at the successive times
Flat(M) == [l \in 1..(Rows(M) * Cols(M)) |->
              M[((l - 1) \div Cols(M)) + 1][((l - 1) % Cols(M)) + 1]]
InTime(q) == Spectrum([t \in 1..Len(q) |-> Flat(q[t])], "y")

----------------------------------------------------------------------------
(* The objects: h, heap of fields; a, arrays (sequences of positions in h) *)
Res(new, chg, out) == [new |-> new, chg |-> chg, out |-> out]
NewField(h, f) == Res(<<f>>, <<>>, <<Len(h) + 1>>)
NewFields(h, q) == Res(q, <<>>, [i \in 1..Len(q) |-> Len(h) + i])

Function(name, q) == \* q: matrices at successive times
  IF name = "double" THEN [t \in 1..Len(q) |-> MatNum("mul", q[t], Int2(2))]
  ELSE IF name = "reverse" THEN Reverse(q)
  ELSE \* differences with the first time
    [t \in 1..Len(q) |-> MatMat("sub", q[t], q[1])]

\* result of an operation s of a field
OfField(f, h, s) ==
  CASE s.op = "num" -> FieldNum(s.which, f, s.num)
    [] s.op = "field" -> FieldField(s.which, f, h[s.j])
    [] s.op = "extract" -> Extract(f, s.ints[1], s.ints[2], s.ints[3], s.ints[4])
    [] s.op = "phys" -> ExtractPhys(f, s.nums[1], s.nums[2], s.nums[3], s.nums[4])
    [] s.op = "truncate" -> Truncate(f, s.ints[1])
    [] s.op = "square" -> Square(f, s.ints[1], s.ints[2] = 1)
    [] s.op = "median" -> Median(f, s.ints[1], s.ints[2], s.ints[3], s.ints[4] = 1)
    [] s.op = "saved" -> f
       \* (constant components, or a filter without neighbours)
    [] s.op = "gaussian" -> IF s.ints[2] = 1 THEN Truncate(f, s.ints[1]) ELSE f

FieldOps == {"num", "field", "extract", "phys", "truncate", "square", "median", "saved",
             "gaussian"}

Result(h, a, s) ==
  CASE s.op = "create" -> NewField(h, Created(s.raw))
    [] s.op \in FieldOps /\ s.i > 0 -> NewField(h, OfField(h[s.i], h, s))
    [] s.op \in FieldOps ->
         NewFields(h, [i \in 1..Len(a[s.a]) |-> OfField(h[a[s.a][i]], h, s)])
    [] s.op = "same" -> Res(<<>>, <<>>, <<s.i>>)
    [] s.op = "samearray" -> Res(<<>>, <<>>, a[s.a])
    [] s.op = "regularize" ->
         Res(<<>>, IF s.i > 0
                   THEN <<<<s.i, Regularized(h[s.i])>>>>
                   ELSE [i \in 1..Len(a[s.a]) |-> <<a[s.a][i], Regularized(h[a[s.a][i]])>>],
             <<>>)
    [] s.op = "rotz" -> Res(<<>>, <<>>, Rotz(h[s.i], s.ints[1]))
    [] s.op = "divh" -> Res(<<>>, <<>>, Divh(h[s.i], s.ints[1]))
    [] s.op = "norm2" -> Res(<<>>, <<>>, Norm2(h[s.i]))
    [] s.op = "average" -> NewField(h, Average([i \in 1..Len(a[s.a]) |-> h[a[s.a][i]]]))
    [] s.op = "function" ->
         LET q == [i \in 1..Len(a[s.a]) |-> h[a[s.a][i]]]
             X == Function(s.which, [t \in 1..Len(q) |-> q[t].vx])
             Y == Function(s.which, [t \in 1..Len(q) |-> q[t].vy]) IN
         NewFields(h, [t \in 1..Len(q) |-> [q[t] EXCEPT !.vx = X[t], !.vy = Y[t]]])
    [] s.op = "array" -> Res(<<>>, <<>>, s.ints)
    [] s.op = "get" -> Res(<<>>, <<>>, <<a[s.a][s.ints[1]]>>)
    [] s.op = "slice" -> Res(<<>>, <<>>, SubSeq(a[s.a], s.ints[1], s.ints[2]))
    [] s.op = "append" -> Res(<<>>, <<>>, Append(a[s.a], s.i))
    [] s.op = "extend" -> Res(<<>>, <<>>, a[s.a] \o a[s.j])
    [] s.op = "set" -> Res(<<>>, <<>>, [a[s.a] EXCEPT ![s.ints[1]] = s.i])
    [] s.op = "del" ->
         Res(<<>>, <<>>, SubSeq(a[s.a], 1, s.ints[1] - 1)
                         \o SubSeq(a[s.a], s.ints[1] + 1, Len(a[s.a])))

\* operations giving a new array, changing one
MakesArray(s) ==
  \/ s.op \in FieldOps \union {"function"} /\ s.i = 0
  \/ s.op \in {"array", "slice"}
ChangesArray(s) == s.op \in {"append", "extend", "set", "del"}
AfterHeap(h, r) ==
  [i \in 1..(Len(h) + Len(r.new)) |->
    IF i > Len(h) THEN r.new[i - Len(h)]
    ELSE IF \E k \in DOMAIN r.chg : r.chg[k][1] = i
    THEN r.chg[CHOOSE k \in DOMAIN r.chg : r.chg[k][1] = i][2] ELSE h[i]]
AfterArrays(a, s, r) ==
  IF MakesArray(s) THEN Append(a, r.out)
  ELSE IF ChangesArray(s) THEN [a EXCEPT ![s.a] = r.out] ELSE a
=============================================================================
