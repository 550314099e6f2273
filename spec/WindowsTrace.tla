---------------------------- MODULE WindowsTrace ----------------------------
(***************************************************************************)
(* Validation of the passes of real PIV computations (Windows).  The       *)
(* images are made of codes, such that the content of a window gives its   *)
(* position.  cases.json, one case for each pass of a computation:         *)
(*  id, shape <<ny, nx>> of the images,                                    *)
(*  crop <<<<y0, y1>>, <<x0, x1>>>> slices (None: no limit),               *)
(*  size0, size1 <<h, w>> of the first pass, zooms, ov <<num, den>>        *)
(*  pass, last (of the computation),                                       *)
(*  mode: displacements found by the correlation,                          *)
(*  d8: "uniform": <<8 dx, 8 dy>> found by the previous passes,            *)
(*  ab: "linear": dx = (a x + b y) / 8 in the first pass, x and y exchanged *)
(*      for dy,                                                            *)
(*  grid <<xs, ys>> saved, fields of vecs: see V below                     *)
(*  final: <<x, y, 1000 dx, 1000 dy>> interpolated fields after the last pass *)
(***************************************************************************)
EXTENDS Windows, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

None == -99999
Nothing == -9999
RangeOf(q) == {q[i] : i \in DOMAIN q}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* slices of Python *)
SliceStart(sl, n) ==
  IF sl[1] = None THEN 0 ELSE IF sl[1] < 0 THEN Max(0, n + sl[1]) ELSE Min(n, sl[1])
SliceStop(sl, n) ==
  IF sl[2] = None THEN n ELSE IF sl[2] < 0 THEN Max(0, n + sl[2]) ELSE Min(n, sl[2])
Origin(c, i) == SliceStart(c.crop[i], c.shape[i])
Length(c, i) == SliceStop(c.crop[i], c.shape[i]) - Origin(c, i)

RECURSIVE Prod(_, _)
Prod(q, m) == IF m = 0 THEN 1 ELSE q[m] * Prod(q, m - 1)
SizeOf(s, c, pass) == s \div Prod(c.zooms, pass)
GridOf(c, i, pass) ==
  LET s == SizeOf(c.size0[i], c, pass) IN
  Grid(s, Step(s, c.ov[1], c.ov[2]), Length(c, i))

V(c, k) ==
  LET v == c.vecs[k] IN
  [x2 |-> v[1], y2 |-> v[2], wy0 |-> v[3], wx0 |-> v[4], wy1 |-> v[5], wx1 |-> v[6],
   correlated |-> v[7] = 1, inx |-> v[8], iny |-> v[9], dx8 |-> v[10], dy8 |-> v[11],
   nan |-> v[12] = 1, fx8 |-> v[13], fy8 |-> v[14], failed |-> v[15] = 1,
   error |-> v[16] = 1]

(* the window at the pixel (y, x) of the cropped image or without any pixel of it *)
OutOf(first, s, n) == first + s <= 0 \/ first >= n
WindowOK(c, wy, wx, y, x, size) ==
  LET sy == SizeOf(size[1], c, c.pass) sx == SizeOf(size[2], c, c.pass)
      fy == First(y, sy) fx == First(x, sx) IN
  IF wy = Nothing THEN OutOf(fy, sy, Length(c, 1)) \/ OutOf(fx, sx, Length(c, 2))
                        \* the smallest code is replaced by 0
                        \/ (fy + sy <= 1 /\ fx + sx <= 1)
  ELSE wy = fy + Origin(c, 1) /\ wx = fx + Origin(c, 2)

(* Centres compatible with the windows: the windows without pixel can be
   anywhere, only the ones given by the specification are considered. *)
VectorOK(c, v, gx, gy) ==
  LET p == Centres(gx, gy, v.inx, v.iny, Length(c, 2), Length(c, 1))
      s0y == SizeOf(c.size0[1], c, c.pass) s0x == SizeOf(c.size0[2], c, c.pass)
      seen == <<v.wx0 - Origin(c, 2) + Half(s0x), v.wy0 - Origin(c, 1) + Half(s0y)>>
      \* any solution respecting CentresOK
      q == IF v.wx0 = Nothing THEN p
           ELSE <<seen[1], seen[2], seen[1] + v.inx, seen[2] + v.iny>> IN
  /\ CentresOK(q, gx, gy, v.inx, v.iny, Length(c, 2), Length(c, 1))
  /\ WindowOK(c, v.wy0, v.wx0, q[2], q[1], c.size0)
  /\ WindowOK(c, v.wy1, v.wx1, q[4], q[3], c.size1)
  /\ v.x2 = q[1] + q[3] + 2 * Origin(c, 2)
  /\ v.y2 = q[2] + q[4] + 2 * Origin(c, 1)

NotCorrelatedOK(c, v, gx, gy) ==
  ~CentresIn(Centres(gx, gy, v.inx, v.iny, Length(c, 2), Length(c, 1)),
             Length(c, 2), Length(c, 1))

Subpix == 2 \* (x 8) added by the refinement
SumOK(c, v) ==
  IF v.failed \/ ~v.correlated THEN v.nan /\ v.error
  ELSE /\ ~v.nan /\ ~v.error
       /\ v.dx8 = 8 * v.inx + v.fx8 + (IF c.last THEN Subpix ELSE 0)
       /\ v.dy8 = 8 * v.iny + v.fy8 + (IF c.last THEN Subpix ELSE 0)

(* displacements used to shift the windows *)
Near(i, q8) == Abs(8 * i - q8) <= 4
InputOK(c, v, gx, gy) ==
  IF c.pass = 0 THEN v.inx = 0 /\ v.iny = 0
  ELSE IF c.mode = "uniform" THEN Near(v.inx, c.d8[1]) /\ Near(v.iny, c.d8[2])
  ELSE IF c.mode = "linear" /\ c.pass = 1 THEN
    LET g0x == GridOf(c, 2, 0) g0y == GridOf(c, 1, 0) IN
    (/\ g0x[1] <= gx /\ gx <= g0x[Len(g0x)]
     /\ g0y[1] <= gy /\ gy <= g0y[Len(g0y)])
    => /\ Abs(8 * v.inx - (c.ab[1] * gx + c.ab[2] * gy)) <= 4
       /\ Abs(8 * v.iny - (c.ab[1] * gy + c.ab[2] * gx)) <= 4
  ELSE TRUE

FinalOK(c, gx, gy, k) ==
  LET f == c.final[k] IN
  /\ f[1] = gx + Origin(c, 2) /\ f[2] = gy + Origin(c, 1)
  /\ c.mode = "uniform" =>
       /\ Abs(f[3] - 125 * (c.dlast8[1] + Subpix)) <= 3
       /\ Abs(f[4] - 125 * (c.dlast8[2] + Subpix)) <= 3

Guards(c) ==
  LET gxs == GridOf(c, 2, c.pass) gys == GridOf(c, 1, c.pass)
      nx == Len(gxs)
      X(k) == gxs[((k - 1) % nx) + 1]
      Y(k) == gys[((k - 1) \div nx) + 1]
      count == Len(c.vecs) = Len(gxs) * Len(gys) IN
  {<<"computed", c.failure = "">>}
  \union (IF c.failure # "" THEN {} ELSE {<<"grid", count>>})
  \union
  (IF c.failure # "" \/ ~count THEN {} ELSE
   {<<"windows", \A k \in DOMAIN c.vecs :
       LET v == V(c, k) IN
       IF v.correlated THEN VectorOK(c, v, X(k), Y(k))
       ELSE NotCorrelatedOK(c, v, X(k), Y(k))>>,
    <<"displacements", \A k \in DOMAIN c.vecs : SumOK(c, V(c, k))>>,
    <<"shifts", \A k \in DOMAIN c.vecs : InputOK(c, V(c, k), X(k), Y(k))>>,
    <<"positions", \A k \in DOMAIN c.grid :
       c.grid[k][1] = X(k) + Origin(c, 2) /\ c.grid[k][2] = Y(k) + Origin(c, 1)>>,
    <<"final", c.final # <<>> =>
        /\ Len(c.final) = Len(c.vecs)
        /\ \A k \in DOMAIN c.final : FinalOK(c, X(k), Y(k), k)>>})

FailingNames(guards) == {g[1] : g \in {h \in guards : ~h[2]}}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in FailingNames(Guards(Cases[tr])) :
       PrintT(<<"VERDICT", Cases[tr].id, v, "">>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
