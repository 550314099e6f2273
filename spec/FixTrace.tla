------------------------------ MODULE FixTrace ------------------------------
(***************************************************************************)
(* Validation of the calls of WorkFIX.calcul in PIV computations (Fix).    *)
(* cases.json: records with the field before (see Fix; failed is a         *)
(* sequence), and after the call: adx, ady, acorrel (Nan), errors: number  *)
(* of reasons for each vector (0: no error), wrong: sequence of            *)
(* <<k, dx, dy>>, replaced: sequence of <<k, dx, dy, correl>> (former      *)
(* values), same: what has not to change is unchanged, failure: text       *)
(***************************************************************************)
EXTENDS Fix, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

Nan == -9999999
RangeOf(q) == {q[i] : i \in DOMAIN q}
FieldOf(c) == [ny |-> c.ny, nx |-> c.nx, dx |-> c.dx, dy |-> c.dy, correl |-> c.correl,
               failed |-> RangeOf(c.failed), peaks |-> c.peaks, correlmin |-> c.correlmin,
               max |-> c.max, threshold |-> c.threshold]
Refined == 1 \* added by the refinement of a peak

IsNan(c, k) == c.adx[k + 1] = Nan /\ c.ady[k + 1] = Nan
Kept(c, f, k) ==
  c.adx[k + 1] = DX(f, k) /\ c.ady[k + 1] = DY(f, k) /\ c.acorrel[k + 1] = Correl(f, k)
ReplacedBy(c, f, k, i) ==
  LET p == f.peaks[k + 1][i] IN
  /\ c.adx[k + 1] = p.dx + Refined /\ c.ady[k + 1] = p.dy + Refined
  /\ c.acorrel[k + 1] = p.correl

WasReplaced(c, k) == \E r \in RangeOf(c.replaced) : r[1] = k
VectorOK(c, f, flagged, free, k) ==
  LET cands == Candidates(f, k) IN
  IF WasReplaced(c, k)
  THEN \/ \E i \in cands \ {0} : ReplacedBy(c, f, k, i)
       \/ Uncertain(f, k) /\ \E i \in GoodPeaks(f, k) : ReplacedBy(c, f, k, i)
  ELSE /\ 0 \in cands \/ Uncertain(f, k)
       /\ c.acorrel[k + 1] = Correl(f, k)
       /\ IF k \in free THEN IsNan(c, k) \/ Kept(c, f, k)
          ELSE IF k \in flagged THEN IsNan(c, k) ELSE Kept(c, f, k)

Guards(c) ==
  IF c.failure # "" THEN {<<"computed", FALSE>>}
  ELSE
    LET f == Prepared(FieldOf(c)) flagged == Flagged(f) free == AtThreshold(f)
        vecs == Vecs(f)
        wrong == {k \in vecs : IsNan(c, k)} IN
    {<<"vectors", \A k \in vecs : VectorOK(c, f, flagged, free, k)>>,
     <<"errors", \A k \in vecs \ free :
        c.errors[k + 1] = IF k \in flagged /\ ~WasReplaced(c, k) THEN NbReasons(f, k) ELSE 0>>,
     <<"wrong", /\ {w[1] : w \in RangeOf(c.wrong)} = wrong
                /\ \A w \in RangeOf(c.wrong) :
                     w[2] = c.dx[w[1] + 1] /\ w[3] = c.dy[w[1] + 1]>>,
     <<"replaced", \A r \in RangeOf(c.replaced) :
        r[2] = DX(f, r[1]) /\ r[3] = DY(f, r[1]) /\ r[4] = Correl(f, r[1])>>,
     <<"unchanged", c.same>>}

FailingNames(guards) == {g[1] : g \in {h \in guards : ~h[2]}}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in FailingNames(Guards(Cases[tr])) :
       PrintT(<<"VERDICT", Cases[tr].id, v, "">>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
