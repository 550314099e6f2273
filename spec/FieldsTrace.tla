---------------------------- MODULE FieldsTrace -----------------------------
(* Histories of operations of the real vector fields, against VectorFields. *)
EXTENDS VectorFields, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLES tr, l, h, a, failing
vars == <<tr, l, h, a, failing>>

Core(f) == [x |-> f.x, y |-> f.y, z |-> f.z, vx |-> f.vx, vy |-> f.vy, vz |-> f.vz]
Cores(q) == [i \in 1..Len(q) |-> Core(q[i])]
Observed(s) == Res(s.new, s.chg, s.out)
Matrices == {"rotz", "divh", "norm2"}

SpectraOK(s, X, Y) ==
  /\ s.spectra.vx.fft = X.fft /\ s.spectra.vx.psd = X.psd
  /\ s.spectra.vy.fft = Y.fft /\ s.spectra.vy.psd = Y.psd
FreqsOK(s, f) ==
  /\ s.spectra.kx = IF s.which = "y" THEN <<>> ELSE Freqs(NX(f))
  /\ s.spectra.ky = IF s.which = "x" THEN <<>> ELSE Freqs(NY(f))
KeepsMeta(s) == s.op \in FieldOps \ {"num", "field"}
Sources(s) == IF s.i > 0 THEN <<s.i>> ELSE a[s.a]

Guards(s) ==
  IF s.failure # "" THEN {<<"computed", FALSE>>}
  ELSE IF s.op = "fft" THEN
    {<<"spectra", SpectraOK(s, Spectrum(h[s.i].vx, s.which), Spectrum(h[s.i].vy, s.which))>>,
     <<"frequencies", FreqsOK(s, h[s.i])>>,
     <<"unchanged", s.new = <<>> /\ s.chg = <<>> /\ s.arrays = a>>}
  ELSE IF s.op = "equal" THEN
    {<<"filtered", Len(s.new) = 1 /\ EqualFiltered(h[s.i], s.new[1], s.ints[1], s.ints[2] = 1)>>,
     <<"unchanged", s.chg = <<>> /\ s.arrays = a>>}
  ELSE IF s.op = "times" THEN
    {<<"times", s.nums = [i \in 1..Len(a[s.a]) |-> Mul(Int2(i - 1), s.num)]>>}
  ELSE IF s.op = "tfft" THEN
    LET q == a[s.a] IN
    {<<"spectra", SpectraOK(s, InTime([t \in 1..Len(q) |-> h[q[t]].vx]),
                               InTime([t \in 1..Len(q) |-> h[q[t]].vy]))>>,
     <<"frequencies", s.spectra.kx = Freqs(Len(q)) /\ s.spectra.ky = <<>>>>,
     <<"unchanged", s.new = <<>> /\ s.chg = <<>> /\ s.arrays = a>>}
  ELSE
    LET r == Result(h, a, s) o == Observed(s)
        he == AfterHeap(h, r) ho == AfterHeap(h, o)
        n == Len(h) IN
    {<<"result", IF s.op \in Matrices THEN o.out = r.out
                 ELSE /\ o.out = r.out \/ MakesArray(s) \/ ChangesArray(s)
                      /\ Cores(o.new) = Cores(r.new)>>,
     <<"unchanged", \A i \in 1..n : Core(ho[i]) = Core(he[i])>>,
     <<"arrays", s.arrays = AfterArrays(a, s, r)>>,
     <<"regular", \A i \in (n + 1)..Len(ho) :
          /\ ho[i].reg => Regular(ho[i])
          /\ s.op \in {"create", "saved", "num", "field"} => ho[i].reg = Regular(ho[i])>>,
     <<"names", KeepsMeta(s) =>
          \A k \in 1..Len(o.new) : o.new[k].meta = h[Sources(s)[k]].meta>>}

FailingNames(guards) == {g[1] : g \in {x \in guards : ~x[2]}}
Steps == Cases[tr].steps

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases) /\ l = 1 /\ failing = {} /\ h = <<>> /\ a = <<>>
Next ==
  /\ l <= Len(Steps)
  /\ LET s == Steps[l] IN
     /\ failing' = FailingNames(Guards(s))
     /\ \A v \in failing' : PrintT(<<"VERDICT", Cases[tr].id, v, l>>)
     /\ h' = AfterHeap(h, Observed(s))
     /\ a' = s.arrays
     \* (the rest of a history is not checked after a wrong step)
     /\ l' = IF failing' = {} THEN l + 1 ELSE Len(Steps) + 1
     /\ UNCHANGED tr
     /\ (l' > Len(Steps)) => TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_vars
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
