------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names of the images of a series and elements (couples, subsets, images) *)
(* computed by a topology.                                                 *)
(*                                                                         *)
(* s (description of the images): base, sep0, ext (strings), dims:         *)
(*   sequence of [first, n, type ("d" digits | "a" letters), len, sep]     *)
(* An image is identified by a sequence of indices (one for each dim).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Letter(n) == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
               "n","o","p","q","r","s","t","u","v","w","x","y","z">>[n + 1]

RECURSIVE Letters(_)
Letters(n) == IF n < 26 THEN Letter(n) ELSE Letters(n \div 26) \o Letter((n % 26))

RECURSIVE Pad(_, _, _)
Pad(str, len, char) == IF Len(str) >= len THEN str ELSE Pad(char \o str, len, char)

Capital(n) == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
                "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>[n + 1]

StrIndex(dim, i) ==
  IF dim.type = "d" THEN Pad(ToString(i), dim.len, "0")
  ELSE IF dim.type = "A" THEN Capital(i)
  ELSE Pad(Letters(i), dim.len, "a")

RECURSIVE StrIndices(_, _, _)
StrIndices(dims, idx, k) ==
  IF k > Len(dims) THEN ""
  ELSE StrIndex(dims[k], idx[k]) \o (IF k < Len(dims) THEN dims[k].sep ELSE "")
       \o StrIndices(dims, idx, k + 1)

Name(s, idx) ==
  s.base \o s.sep0 \o StrIndices(s.dims, idx, 1)
  \o (IF s.ext = "" THEN "" ELSE "." \o s.ext)

Exists(s, idx) ==
  \A k \in 1..Len(s.dims) :
    idx[k] >= s.dims[k].first /\ idx[k] < s.dims[k].first + s.dims[k].n

----------------------------------------------------------------------------
(* range(a, b, step) of Python, as a sequence *)
LenRange(a, b, step) ==
  IF step > 0 THEN (IF b > a THEN (b - a + step - 1) \div step ELSE 0)
  ELSE (IF a > b THEN (a - b + (-step) - 1) \div (-step) ELSE 0)
PyRange(a, b, step) == [i \in 1..LenRange(a, b, step) |-> a + (i - 1) * step]

(* cartesian product of sequences: sequence of tuples, last index varying first *)
RECURSIVE Product(_)
Product(seqs) ==
  IF Len(seqs) = 0 THEN << <<>> >>
  ELSE LET rest == Product(Tail(seqs))
           n == Len(rest)
       IN [i \in 1..(Len(seqs[1]) * n) |->
             <<seqs[1][((i - 1) \div n) + 1]>> \o rest[((i - 1) % n) + 1]]

(* c.sub: sequence (one for each dim) of [v, a, b, s]: range(v*i+a, v*i+b, s) *)
SubIndices(c, i) ==
  IF c.mode = "all1by1" THEN
    LET all == Product([k \in 1..Len(c.s.dims) |->
                  PyRange(c.s.dims[k].first, c.s.dims[k].first + c.s.dims[k].n, 1)])
    IN IF i < Len(all) THEN <<all[i + 1]>> ELSE << [k \in 1..Len(c.s.dims) |-> -1] >>
  ELSE Product([k \in 1..Len(c.sub) |->
         LET d == c.sub[k] IN PyRange(d.v * i + d.a, d.v * i + d.b, d.s)])

AllExist(c, i) ==
  LET m == SubIndices(c, i) IN \A j \in 1..Len(m) : Exists(c.s, m[j])

MaxIndex == 200
(* indices of the series of a topology based on series *)
IndexSeq(c) ==
  LET start == IF c.start >= 0 THEN c.start
               ELSE CHOOSE i \in 0..MaxIndex :
                      AllExist(c, i) /\ \A j \in 0..(i - 1) : ~AllExist(c, j)
      stop == IF c.stop >= 0 THEN c.stop
              ELSE CHOOSE i \in start..MaxIndex :
                     ~AllExist(c, i) /\ \A j \in start..(i - 1) : AllExist(c, j)
  IN PyRange(start, stop, c.step)

MemberNames(c, i) ==
  LET m == SubIndices(c, i) IN [j \in 1..Len(m) |-> Name(c.s, m[j])]

SelectSeq2(seq, keep(_)) == SelectSeq(seq, keep)

(* The elements to be computed: sequence of sequences of names of images *)
Elements(c) ==
  IF c.over = "series" THEN
    LET is == IndexSeq(c) IN [k \in 1..Len(is) |-> MemberNames(c, is[k])]
  ELSE
    LET names == MemberNames(c, 0)
        keep(name) == name # c.reference
        kept == SelectSeq(names, keep)
    IN [k \in 1..Len(kept) |-> <<kept[k]>>]

RangeOf(seq) == {seq[i] : i \in 1..Len(seq)}
=============================================================================
