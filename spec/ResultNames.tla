---------------------------- MODULE ResultNames ----------------------------
(***************************************************************************)
(* Names of the result files as functions of the names of the images: the  *)
(* names of the couples of a series identify the couples (design level).   *)
(***************************************************************************)
EXTENDS Names

CONSTANTS MaxIndex0, Lens, Seps, Separated

(* first and last index of a couple for each dimension *)
RECURSIVE PivIndices(_, _, _, _)
PivIndices(dims, first, last, k) ==
  IF k > Len(dims) THEN ""
  ELSE LET a == StrIndex(dims[k], first[k])
           b == StrIndex(dims[k], last[k])
           alpha == dims[k].type # "d" /\ Len(a) = 1
       IN (IF k > 1 /\ Separated THEN dims[k - 1].sep ELSE "")
          \o a \o (IF a = b THEN "" ELSE (IF alpha THEN "" ELSE "-") \o b)
          \o PivIndices(dims, first, last, k + 1)

PivName(dims, first, last) == "piv_" \o PivIndices(dims, first, last, 1) \o ".h5"

(* name of a result for one image: the name of the image without base and extension *)
BosName(s, idx) ==
  LET full == Name(s, idx)
      n == Len(full) - (IF s.ext = "" THEN 0 ELSE Len(s.ext) + 1)
  IN "bos" \o SubSeq(full, Len(s.base) + 1, n) \o ".h5"

Dim == {[first |-> 0, n |-> MaxIndex0, type |-> t, len |-> l, sep |-> sep] :
          t \in {"d", "a"}, l \in Lens, sep \in Seps}
(* two adjacent numbers can be distinguished *)
Readable(d) == \A k \in 1..(Len(d) - 1) :
   d[k].sep = "" => (d[k].type # d[k + 1].type \/ d[k].type = "a" \/ d[k].len > 1)

VARIABLES dims, stride
vars == <<dims, stride>>
Init ==
  /\ dims \in {d \in ([1..1 -> Dim] \union [1..2 -> Dim]) : Readable(d)}
  /\ stride \in 0..2
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* couples (v, v + stride in the dimension k) *)
Idx(i, j) == IF Len(dims) = 1 THEN <<i>> ELSE <<i, j>>
Shift(x, k, s) == [x EXCEPT ![k] = @ + s]
Values == {0, 1, 2, 9, 10, 11, 12}
Bases == {Idx(i, j) : i \in Values, j \in Values}
Couples(k) == {<<b, Shift(b, k, s)>> : b \in Bases, s \in 1..(stride + 1)}
(* as many names as couples *)
Injective ==
  \A k \in 1..Len(dims) :
    Cardinality({PivName(dims, p[1], p[2]) : p \in Couples(k)}) = Cardinality(Couples(k))
(* the name of an image identifies the image *)
ImagesInjective ==
  LET s == [base |-> "im", sep0 |-> "_", ext |-> "", dims |-> dims] IN
  Cardinality({BosName(s, p) : p \in Bases}) = Cardinality(Bases)
=============================================================================
