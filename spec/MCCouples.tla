----------------------------- MODULE MCCouples -----------------------------
EXTENDS Couples, TLC
CONSTANTS NImages, MaxElems, MaxLen

Seqs(n) == UNION {[1..l -> 1..NImages] : l \in 1..n}
(* strictly increasing sequences of images *)
Increasing == {s \in Seqs(MaxLen) : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}

Init ==
  /\ \E l \in 0..MaxElems : elems \in [1..l -> Increasing]
  /\ \A i, j \in 1..Len(elems) : i < j => elems[i] # elems[j]
  /\ bad \in SUBSET Images
  /\ Start(elems)

MCSpec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Finished
=============================================================================
