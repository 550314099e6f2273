----------------------------- MODULE MCFields -------------------------------
(***************************************************************************)
(* Small histories of operations of vector fields: consistency of the      *)
(* coordinates and of the components, algebraic laws, and nothing else     *)
(* than what an operation returns or names is modified.                    *)
(***************************************************************************)
EXTENDS VectorFields, TLC
CONSTANTS MaxFields, MaxArrays, Sizes, Kinds
VARIABLES h, a, last
vars == <<h, a, last>>

Coord(n, kind) ==
  [i \in 1..n |-> IF kind = "b" THEN Int2(2 * (n - i))
                  ELSE IF kind = "c" /\ i = n THEN Norm((4 * i) - 1, 1)
                  ELSE Int2(2 * i)]
Values(ny, nx, k, kind) ==
  LET F(i, j) == IF kind = "a" THEN Int2((k * i) - j + 1)
                 ELSE IF kind = "b" THEN Int2(2^((i + (k * j)) % 3))
                 ELSE Norm((i * j) + k, 1) IN
  Mat(ny, nx, F)
Raw(s, kind) ==
  [x |-> Coord(s[2], kind), y |-> Coord(s[1], kind),
   z |-> IF kind = "a" THEN None ELSE IF kind = "b" THEN Arr(Values(s[1], s[2], 2, kind))
         ELSE Num(Int2(1)),
   vx |-> Values(s[1], s[2], 1, kind), vy |-> Values(s[1], s[2], 3, kind),
   vz |-> IF kind = "b" THEN Arr(Values(s[1], s[2], 4, kind)) ELSE Num(Nan)]

Blank == [op |-> "", i |-> 0, j |-> 0, a |-> 0, num |-> Int2(0), nums |-> <<>>,
          ints |-> <<>>, which |-> "", raw |-> 0]
S(op) == [Blank EXCEPT !.op = op]
SameShape(f, g) == NX(f) = NX(g) /\ NY(f) = NY(g)
PowersOf2(f) == f.vz.k = "arr" /\ \A M \in {f.vx, f.vy, f.vz.m} :
  \A i \in 1..Rows(M), j \in 1..Cols(M) :
    ~IsNan(M[i][j]) /\ M[i][j][1] \in {1, 2, 4, -1, -2, -4}
Number(f, w) == {[S("num") EXCEPT !.i = f, !.which = w, !.num = n] :
                   n \in {Int2(2), <<1, 1>>} \union (IF w = "div" THEN {} ELSE {Int2(0), Int2(-3)})}
OnField(f) ==
  UNION {Number(f, w) : w \in {"add", "sub", "mul", "div"}}
  \union {[S("field") EXCEPT !.i = f, !.j = g, !.which = w] :
            g \in {k \in 1..Len(h) : SameShape(h[f], h[k])}, w \in {"add", "sub", "mul"}}
  \union {[S("field") EXCEPT !.i = f, !.j = g, !.which = "div"] :
            g \in {k \in 1..Len(h) : SameShape(h[f], h[k]) /\ PowersOf2(h[k])}}
  \union {[S("extract") EXCEPT !.i = f, !.ints = <<i0, NY(h[f]), 0, j1>>] :
            i0 \in 0..(NY(h[f]) - 2), j1 \in 2..NX(h[f])}
  \union (IF NX(h[f]) >= 4 /\ NY(h[f]) >= 4 THEN {[S("truncate") EXCEPT !.i = f, !.ints = <<1>>]} ELSE {})
  \union {[S("square") EXCEPT !.i = f, !.ints = <<0, e>>] : e \in {0, 1}}
  \union {[S("median") EXCEPT !.i = f, !.ints = <<m, 2, 1, 0>>] : m \in {1, 3}}
  \union {[S("saved") EXCEPT !.i = f], [S("same") EXCEPT !.i = f]}
  \union (IF h[f].vz.k = "num" THEN {[S("regularize") EXCEPT !.i = f]} ELSE {})
OnArray(k) ==
  LET same == \A i \in 1..Len(a[k]) : SameShape(h[a[k][1]], h[a[k][i]]) IN
  (IF same /\ Len(a[k]) = 2 THEN {[S("average") EXCEPT !.a = k]} ELSE {})
  \union (IF same THEN {[S("function") EXCEPT !.a = k, !.which = w] : w \in {"reverse", "diff"}} ELSE {})
  \union {[S("append") EXCEPT !.a = k, !.i = f] : f \in {i \in 1..Len(h) : Len(a[k]) < 2}}
  \union {[S("set") EXCEPT !.a = k, !.i = f, !.ints = <<1>>] : f \in 1..Len(h)}
  \union (IF Len(a[k]) > 1 THEN {[S("del") EXCEPT !.a = k, !.ints = <<1>>]} ELSE {})
  \union {[S("get") EXCEPT !.a = k, !.ints = <<1>>]}
  \union {[S("num") EXCEPT !.a = k, !.which = "mul", !.num = Int2(2)]}
Ops ==
  UNION {OnField(f) : f \in 1..Len(h)}
  \union UNION {OnArray(k) : k \in 1..Len(a)}
  \union {[S("create") EXCEPT !.raw = Raw(<<s \div 10, s % 10>>, kind)] : s \in Sizes, kind \in Kinds}
  \union {[S("array") EXCEPT !.ints = <<f, g>>] : f \in 1..Len(h), g \in 1..Len(h)}

Init == h = <<>> /\ a = <<>> /\ last = Blank
Next ==
  \E s \in Ops :
    LET r == Result(h, a, s) IN
    /\ Len(h) + Len(r.new) <= MaxFields
    /\ ~MakesArray(s) \/ Len(a) < MaxArrays
    /\ h' = AfterHeap(h, r)
    /\ a' = AfterArrays(a, s, r)
    /\ last' = s
Spec == Init /\ [][Next]_vars

All == {h[i] : i \in 1..Len(h)}
IsMat(f, M) == Rows(M) = NY(f) /\ \A i \in 1..NY(f) : Len(M[i]) = NX(f)
ShapesInv == \A f \in All :
  /\ IsMat(f, f.vx) /\ IsMat(f, f.vy)
  /\ f.vz.k = "arr" => IsMat(f, f.vz.m)
  /\ f.z.k = "arr" => IsMat(f, f.z.m)
OrientedInv == \A f \in All :
  /\ \A i \in 1..(NX(f) - 1) : Less(f.x[i], f.x[i + 1])
  /\ \A i \in 1..(NY(f) - 1) : Less(f.y[i], f.y[i + 1])
LawsInv == \A f \in All :
  /\ FieldNum("sub", FieldNum("add", f, <<3, 1>>), <<3, 1>>) = f
  /\ FieldNum("div", FieldNum("mul", f, Int2(4)), Int2(4)) = f
  /\ Created(f) = f
  /\ \A g \in {g \in All : SameShape(f, g)} :
       /\ FieldField("add", f, g).vx = FieldField("add", g, f).vx
       /\ FieldField("sub", FieldField("add", f, g), g).vy = f.vy
       /\ Average(<<f, f>>) = f
ExtractInv == \A f \in All :
  /\ Extract(f, 0, NY(f), 0, NX(f)) = f
  /\ ExtractPhys(f, f.y[1], f.y[2], f.x[1], f.x[NX(f)]) = Extract(f, 0, 2, 0, NX(f))
  /\ \A g \in {g \in All : SameShape(f, g)} :
       Extract(FieldField("add", f, g), 1, NY(f), 0, 2)
       = FieldField("add", Extract(f, 1, NY(f), 0, 2), Extract(g, 1, NY(f), 0, 2))
  /\ LET q == Square(f, 0, TRUE) IN NX(q) = NY(q) /\ NX(q) % 2 = 0
LinearX(f) == [f EXCEPT !.vx = [i \in 1..NY(f) |-> f.x], !.vy = [i \in 1..NY(f) |-> f.x]]
DerivativeInv == \A f \in {f \in All : Regular(f) /\ NX(f) > 2 /\ NY(f) > 2} :
  \A o \in {1, 2} :
    /\ \A i \in 1..NY(f), j \in 1..NX(f) :
         Divh(LinearX(f), o)[i][j] = Int2(1) /\ Rotz(LinearX(f), o)[i][j] = Int2(1)
    /\ Divh(FieldNum("add", f, Int2(7)), o) = Divh(f, o)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN Int2(0) ELSE Add(Head(q), SumSeq(Tail(q)))
SumMat(M) == SumSeq([i \in 1..Rows(M) |-> SumSeq(M[i])])
\* the energy is the sum of the power spectral density (Parseval)
SpectrumInv == \A f \in {f \in All : NX(f) = 4} :
  LET M == f.vx IN
  /\ Mul(SumMat(Spectrum(M, "x").psd), Int2(4)) = Half(SumMat(MatMat("mul", M, M)))
  /\ Freqs(4) = <<-2, -1, 0, 1>>
MedianInv == \A f \in All :
  /\ Median(f, 1, 1, 1, FALSE) = f
  /\ LET M == f.vx m == MedianMat(M, 3, 3)
         V == {M[i][j] : i \in 1..NY(f), j \in 1..NX(f)} IN
     \A i \in 1..NY(f), j \in 1..NX(f) : m[i][j] \in V
ArraysInv == \A k \in 1..Len(a) : \A i \in 1..Len(a[k]) : a[k][i] \in 1..Len(h)
Unchanged ==
  /\ \A i \in 1..Len(h) : h'[i] = h[i] \/ (last'.op = "regularize" /\ last'.i = i)
  /\ \A k \in 1..Len(a) : a'[k] = a[k] \/ (ChangesArray(last') /\ last'.a = k)
NotModified == [][Unchanged]_vars
=============================================================================
