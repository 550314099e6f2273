----------------------------- MODULE CorrelTrace ----------------------------
(***************************************************************************)
(* Validation of the correlations and of the displacements given by the    *)
(* real classes (Correl).  cases.json, records with:                       *)
(*  id, what = "correl" or "threads", failure: text ("" if computed)       *)
(*  "correl": kind, a, b windows, zero <<dy, dx>>: displacement of the     *)
(*   index <<0, 0>> of the map, map: map[i][j] = 10000 correl / norm, or   *)
(*   Nan; norm = integer square root of the square of the norm;            *)
(*   back: the conversions between indices and displacements are inverse   *)
(*   num, den: the displacements considered are such that                  *)
(*     |d|^2 <= num / den (no limit if den = 0); lim: limit on |dy|, |dx|  *)
(*     imposed to the map (kind "mean")                                    *)
(*   radius, nb: parameters of the search of the peaks                     *)
(*   error, d, cmax, others: result of the search; d = <<dy, dx>>, cmax    *)
(*     as the values of map; others: sequence of <<dy, dx, cmax>>          *)
(*  "threads": calls: sequence of <<input, output>> (digests) of the       *)
(*   transforms or computations of threads sharing an object               *)
(***************************************************************************)
EXTENDS Correl, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

Nan == -99999999
Abs(x) == IF x >= 0 THEN x ELSE 0 - x

Dom(c) ==
  {<<c.zero[1] - i, c.zero[2] - j>> : i \in 0..(Len(c.map) - 1), j \in 0..(Len(c.map[1]) - 1)}
(* the shifts covered by each method *)
(* for odd sizes, the fft methods cover one displacement less on one side *)
HalfOf(c, n, n1) ==
  (n - 1) \div 2 -
  (IF c.kind = "periodic" \/ (c.kind = "fill" /\ n1 % 2 = 0) THEN n % 2 ELSE 0)
Covered(c) ==
  LET ny == Ny(c.a) nx == Nx(c.a) ny1 == Ny(c.b) nx1 == Nx(c.b) IN
  IF c.kind = "mean" THEN ((0 - c.lim)..c.lim) \X ((0 - c.lim)..c.lim)
  ELSE IF c.kind = "valid" THEN
    \* positions of the second window in the first one
    {<<Mid(ny) - Mid(ny1) - p, Mid(nx) - Mid(nx1) - q>> : p \in 0..(ny - ny1), q \in 0..(nx - nx1)}
  ELSE ((0 - HalfOf(c, ny, ny1))..HalfOf(c, ny, ny1)) \X ((0 - HalfOf(c, nx, nx1))..HalfOf(c, nx, nx1))
DomOK(c) ==
  IF c.kind \in {"mean", "valid"} THEN Dom(c) = Covered(c)
  ELSE /\ Covered(c) \subseteq Dom(c)
       /\ Len(c.map) = Ny(c.a) /\ Len(c.map[1]) = Nx(c.a)

Value(c, d) == c.map[c.zero[1] - d[1] + 1][c.zero[2] - d[2] + 1]
(* 10000 cc / norm = r, with an error of one unit for the norm and for r *)
Near(c, cc, r) ==
  LET mult == IF c.kind = "mean" THEN MeanFactor ELSE 1 IN
  Abs(r * c.norm - (10000 \div mult) * cc) <= Abs(r) + 2 * c.norm + 20000 \div mult
NormOK(c) ==
  LET n2 == IF c.kind = "ndimage" THEN Total2(c.b) * Total2(c.b) ELSE Norm2(c.kind, c.a, c.b)
  IN c.norm * c.norm <= n2 /\ n2 < (c.norm + 1) * (c.norm + 1)

Kind(c) == IF c.kind = "ndimage" THEN "fill" ELSE c.kind
Allowed(c) ==
  {d \in Dom(c) : c.den = 0 \/ (d[1] * d[1] + d[2] * d[2]) * c.den <= c.num}

PeaksOK(c, map) ==
  LET dom == Dom(c) allowed == Allowed(c)
      tie == Tie(c.kind, MaxOf({map[d] : d \in dom})) IN
  IF c.error THEN c.d \in Failed(map, dom, allowed, c.radius, tie)
  ELSE \E f \in Found(map, dom, allowed, c.radius, tie) :
         /\ f.p = c.d
         /\ Others(map, dom, f.rest, c.radius, tie, f.p,
                   [i \in DOMAIN c.others |-> <<c.others[i][1], c.others[i][2]>>], c.nb - 1)
ValidPeakOK(c) ==
  \A d \in {c.d} \union {<<c.others[i][1], c.others[i][2]>> : i \in DOMAIN c.others} :
    d \in Allowed(c) /\ ~Border(Dom(c), d)

SameValue(c, value, d) ==
  IF c.norm = 0 THEN value = 0 ELSE Abs(value - Value(c, d)) <= 1

Guards(c) ==
  IF c.failure # "" THEN {<<"computed", FALSE>>}
  ELSE IF c.what = "threads" THEN
    {<<"transforms independent", \A i, j \in DOMAIN c.calls :
         c.calls[i][1] = c.calls[j][1] => c.calls[i][2] = c.calls[j][2]>>}
  ELSE IF ~DomOK(c) THEN {<<"displacements covered", FALSE>>}
  ELSE
    LET map == [d \in Dom(c) |-> CC(Kind(c), c.a, c.b, d)] IN
    {<<"norm", NormOK(c)>>,
     <<"indices", c.back>>,
     <<"correlation", c.norm = 0 \/ \A d \in Dom(c) : Near(c, map[d], Value(c, d))>>,
     <<"peak", PeaksOK(c, map)>>,
     <<"peak inside", c.error \/ ValidPeakOK(c)>>,
     <<"correlation of the peak",
        \/ c.d \notin Dom(c)
        \/ SameValue(c, c.cmax, c.d)>>,
     <<"correlation of other peaks", \A i \in DOMAIN c.others :
        LET o == c.others[i] IN
        <<o[1], o[2]>> \in Dom(c) => SameValue(c, o[3], <<o[1], o[2]>>)>>}

FailingNames(guards) == {g[1] : g \in {h \in guards : ~h[2]}}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in FailingNames(Guards(Cases[tr])) :
       PrintT(<<"VERDICT", Cases[tr].id, v, "">>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
