------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Validation of the analysis of the logs of real executions.  cases.json: *)
(*  id, tol [t0, t1, d0, d1], failed (error of the analysis or ""),        *)
(*  actual: the calls [w, k, t, d] which happened (d = -1: failed),        *)
(*  analysis: the same, given by LogTopology, names: names of the works,   *)
(*  lens: numbers of keys, times and durations for each name,              *)
(*  chars: <<name, expected, found>>, wall, duration                       *)
(*  parts: analyses of truncated logs (sequences of calls of each file)    *)
(* The times are integers (unit 1e-4 s).  d = -1: no duration.             *)
(***************************************************************************)
EXTENDS LogAnalysis, SequencesExt, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

RangeOf(s) == {s[i] : i \in DOMAIN s}
WorkKeys(s) == {<<c.w, c.k>> : c \in RangeOf(s)}
Before(a, b) == a.t < b.t \/ (a.t = b.t /\ a.d < b.d)
Of(s, wk) == SortSeq(SelectSeq(s, LAMBDA c : <<c.w, c.k>> = wk), Before)

TimeOK(c, a, f) == f.t >= a.t - c.tol[1] /\ f.t <= a.t + c.tol[2]
(* what is logged for the global works contains what is done by the executor
   until the line is written, before the next call *)
IsGlobal(k) == k = "kind='global'"
GlobalDurOK(c, as, fs, i) ==
  \/ fs[i].d = NoDuration /\ i = Len(as)
  \/ /\ fs[i].d >= as[i].d - c.tol[3]
     /\ i < Len(as) => as[i].t + fs[i].d <= as[i + 1].t + c.tol[1] + c.tol[4]
DurOK(c, a, f) ==
  IF a.d = NoDuration THEN f.d = NoDuration
  ELSE f.d # NoDuration /\ f.d >= a.d - c.tol[3] /\ f.d <= a.d + c.tol[4]

AnalysisGuards(c) ==
  {<<"names", RangeOf(c.names) = {x.w : x \in RangeOf(c.actual)}
              /\ Len(c.names) = Cardinality(RangeOf(c.names))>>,
   <<"aligned", \A l \in RangeOf(c.lens) : l[1] = l[2] /\ l[2] = l[3]>>,
   <<"keys", WorkKeys(c.actual) = WorkKeys(c.analysis)
             /\ \A wk \in WorkKeys(c.actual) : Len(Of(c.actual, wk)) = Len(Of(c.analysis, wk))>>}
  \union
  {<<"times", \A wk \in WorkKeys(c.actual) \intersect WorkKeys(c.analysis) :
      LET a == Of(c.actual, wk) f == Of(c.analysis, wk) IN
      Len(a) = Len(f) => \A i \in DOMAIN a : TimeOK(c, a[i], f[i])>>,
   <<"durations", \A wk \in WorkKeys(c.actual) \intersect WorkKeys(c.analysis) :
      LET a == Of(c.actual, wk) f == Of(c.analysis, wk) IN
      Len(a) = Len(f) => \A i \in DOMAIN a :
        IF IsGlobal(wk[2]) THEN GlobalDurOK(c, a, f, i) ELSE DurOK(c, a[i], f[i])>>,
   <<"characteristics", \A ch \in RangeOf(c.chars) : ch[2] = ch[3]>>,
   <<"duration-of-the-execution", c.duration >= 0 => c.duration <= c.wall + 11000>>,
   <<"partial-log", \A p \in RangeOf(c.parts) : 
      /\ p.failed = ""
      /\ \A w \in {x.w : x \in RangeOf(p.calls)} :
           PartOf(SelectSeq(p.calls, LAMBDA x : x.w = w), SelectSeq(c.first, LAMBDA x : x.w = w))>>}

(* The plots <<memory, durations, numbers of workers>>: sequences of lines, each
   of them being a sequence of points <<x, y>> (-1: undefined).  The calls (as
   given by the analysis) are in the order of the names. *)
OfName(c, w) == SelectSeq(c.analysis, LAMBDA x : x.w = w)
Count(s, Test(_)) == Len(SelectSeq(s, Test))
NbWorkers(calls, x) ==
  Count(calls, LAMBDA k : k.t <= x) - Count(calls, LAMBDA k : k.d >= 0 /\ k.t + k.d <= x)
PlotNbWorkersOK(line, calls) ==
  /\ \A i \in 1..(Len(line) - 1) :
       LET a == line[i] b == line[i + 1] IN
       (a[1] >= 0 /\ b[1] > a[1]) =>
         a[2] = NbWorkers(calls, a[1]) * 10000 /\ b[2] = a[2]
  /\ \A k \in RangeOf(calls) : k.d > 0 => \E p \in RangeOf(line) : p[1] = k.t
PlotGuards(c) ==
  LET mem == c.plots[1] dur == c.plots[2] nbw == c.plots[3] IN
  {<<"plot-memory",
     /\ Len(mem) >= 1 /\ Len(mem[1]) = Len(c.analysis)
     /\ \A p \in RangeOf(mem[1]) : p[2] > 0 /\ \E k \in RangeOf(c.analysis) : k.t = p[1]>>,
   <<"plot-durations",
     \A w \in RangeOf(c.names) :
       \E l \in RangeOf(dur) :
         /\ Len(l) = Len(OfName(c, w))
         /\ \A i \in DOMAIN l : l[i] = <<OfName(c, w)[i].t, OfName(c, w)[i].d>> >>,
   <<"plot-number-of-workers",
     /\ Len(nbw) = Len(c.names)
     /\ \A i \in DOMAIN nbw : PlotNbWorkersOK(nbw[i], OfName(c, c.names[i]))>>}

Guards(c) ==
  (IF c.plots # <<>> /\ c.failed = "" THEN PlotGuards(c) ELSE {}) \union
  {<<"analysed", c.failed = "">>} \union (IF c.failed = "" THEN AnalysisGuards(c) ELSE {})

FailingNames(guards) == {g[1] : g \in {h \in guards : ~h[2]}}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in FailingNames(Guards(Cases[tr])) :
       PrintT(<<"VERDICT", Cases[tr].id, v, "">>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
