------------------------------- MODULE MCFix --------------------------------
(***************************************************************************)
(* All the small fields: the steps of WorkFIX executed one after the other *)
(* give what Fix describes.                                                *)
(***************************************************************************)
EXTENDS Fix, TLC
CONSTANTS NY, NX, Ds, Correls, CorrelMin, Maxs, Thresholds
VARIABLES f, step, nan, kept, chosen
vars == <<f, step, nan, kept, chosen>>

N == NY * NX
P == Prepared(f)
PeakSet == {<<>>} \union {<<[dx |-> 0, dy |-> 0, correl |-> c, subpix |-> s]>> :
                            c \in Correls, s \in BOOLEAN}
Init ==
  /\ f \in [ny : {NY}, nx : {NX}, dx : [1..N -> Ds], dy : {[i \in 1..N |-> 0]},
            correl : [1..N -> Correls], failed : {{}, {0}},
            peaks : {[i \in 1..N |-> IF i = 2 THEN p ELSE <<>>] : p \in PeakSet},
            correlmin : {CorrelMin}, max : Maxs, threshold : Thresholds]
  /\ step = 1 /\ nan = f.failed /\ kept = {} /\ chosen = [k \in Vecs(f) |-> 0]

Put(S) == nan' = nan \union S /\ UNCHANGED <<f, kept, chosen>>
Mean2(k, x) ==
  LET S == Neighbours(f, k) \cap kept X(l) == DX(f, l) IN
  Sq(SumOver(X, S) - Cardinality(S) * x)
NumKept(k) == Cardinality(Neighbours(f, k) \cap kept)
Steps ==
  \/ step = 1 /\ Put({k \in Vecs(f) : Correl(f, k) < f.correlmin})
  \/ step = 2 /\ Put({k \in Vecs(f) \ nan : f.max # None /\ Sq(DX(f, k)) > Sq(f.max)})
  \/ /\ step = 3
     /\ kept' = Vecs(f) \ nan /\ UNCHANGED <<f, nan, chosen>>
  \/ /\ step = 4
     /\ Put({k \in kept : /\ f.threshold # None /\ NumKept(k) > 0
                          /\ Mean2(k, DX(f, k)) > Sq(f.threshold * NumKept(k))})
  \/ /\ step = 5
     /\ \E c \in {[k \in Vecs(f) |-> IF k = 1 THEN i ELSE 0] : i \in Candidates(P, 1)} :
          chosen' = c
     /\ nan' = nan \ {k \in Vecs(f) : chosen'[k] # 0}
     /\ UNCHANGED <<f, kept>>
Next == Steps /\ step' = step + 1
Spec == Init /\ [][Next]_vars

FlaggedInv == step = 5 => nan = Flagged(P)
KeptInv == step = 6 =>
  \A k \in Vecs(f) \ nan :
    /\ k \notin f.failed /\ Correl(f, k) >= f.correlmin
    /\ LET x == IF chosen[k] = 0 THEN DX(f, k) ELSE f.peaks[k + 1][chosen[k]].dx IN
       /\ f.max # None => Sq(x) <= Sq(f.max)
       /\ (f.threshold # None /\ NbN(P, k) > 0) =>
             Diff2(P, k, x, 0) <= Sq(f.threshold * NbN(P, k))
ChosenInv == step = 6 =>
  \A k \in Vecs(f) : chosen[k] # 0 =>
    /\ k \notin f.failed /\ f.peaks[k + 1][chosen[k]].correl > f.correlmin
    /\ Diff2(P, k, f.peaks[k + 1][chosen[k]].dx, 0) <= Diff2(P, k, DX(f, k), 0)
=============================================================================
