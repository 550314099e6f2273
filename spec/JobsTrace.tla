----------------------------- MODULE JobsTrace -----------------------------
(***************************************************************************)
(* Validation of what is observed from executions sharing a directory of   *)
(* results, with the predicates which are invariants of the protocol Jobs. *)
(* cases.json:                                                             *)
(*  id, hang, concurrent, files, live, repeat, xs: the executions          *)
(*  [x, kill, mayraise, muststop, infolog, visible (calls are observed)]   *)
(*  events: [e, x, t, t1, last, jobs] sorted by t; jobs is a sequence of   *)
(*    <<name, record>> (read between t and t1);                            *)
(*  ends: [x, t, stop, streams, fds, job, suffix, nexp, reported, newlogs, *)
(*         changedlogs, logstart, logend, logger_ok, monitor]              *)
(***************************************************************************)
EXTENDS JobRecords, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

Ev(c) == Range(c.events)
Of(c, kind, x) == {ev \in Ev(c) : ev.e = kind /\ ev.x = x}
Snaps(c) == {ev \in Ev(c) : ev.e \in {"poll", "call", "end"}}
Max(S) == CHOOSE a \in S : \A b \in S : b <= a
Min(S) == CHOOSE a \in S : \A b \in S : a <= b

JobNames(ev) == {j[1] : j \in Range(ev.jobs)}
Rec(ev, n) == (CHOOSE j \in Range(ev.jobs) : j[1] = n)[2]

Ends(c) == Range(c.ends)
Info(c, en) == CHOOSE i \in Range(c.xs) : i.x = en.x
HasJob(en) == en.job # ""
WithJob(c) == {en \in Ends(c) : HasJob(en)}
Killed(c) == {i \in Range(c.xs) : i.kill}

(* the snapshots certainly read between two calls of the execution *)
During(c, en) ==
  LET calls == Of(c, "call", en.x) rets == Of(c, "ret", en.x) IN
  IF calls = {} \/ rets = {} THEN {}
  ELSE LET t == Min({ev.t : ev \in calls}) t1 == Max({ev.t : ev \in rets}) IN
       {s \in Snaps(c) : s.t >= t /\ s.t1 <= t1}
Later(c, en) == {s \in Snaps(c) : s.t >= en.t}
Earlier(c, en) == {s \in Snaps(c) : \A b \in Of(c, "begin", en.x) : s.t1 < b.t}
Obtained(c, en, s) == Cardinality({ev \in Of(c, "call", en.x) : ev.last /\ ev.t <= s.t1})

(* --- one execution --- *)
JobGuards(c, en) ==
  LET i == Info(c, en) IN
  {<<"own-job", \A s \in Earlier(c, en) : en.job \notin JobNames(s)>>,
   <<"lock-while-running",
     \A s \in During(c, en) : en.job \in JobNames(s) /\ Running(Rec(s, en.job))>>,
   <<"parameters-saved",
     \A s \in {s \in During(c, en) : s.e = "call"} :
       en.job \in JobNames(s) => Rec(s, en.job).params /\ Rec(s, en.job).info>>,
   <<"number-of-results",
     i.visible =>
       \A s \in Snaps(c) :
         en.job \in JobNames(s) => Bounded(Rec(s, en.job), Obtained(c, en, s))>>,
   <<"record-at-the-end",
     \A s \in Later(c, en) :
       \* (the names of the means of the subsets are not the ones of files)
       en.job \in JobNames(s)
         /\ (c.named => Complete(Rec(s, en.job), en.reported))>>,
   <<"released",
     \A s \in Later(c, en) : en.job \in JobNames(s) => Released(Rec(s, en.job))>>,
   <<"log-start", i.infolog => en.logstart>>,
   <<"log-end", en.stop = "normal" /\ i.infolog => en.logend>>,
   <<"monitor",
     \A m \in Range(en.monitor) :
       \* another execution can start before the monitor
       LET dates == {j[2].date : j \in Range(en.jobs)} IN
       IF m[1] \in JobNames(en)
       THEN /\ Rec(en, m[1]).date = Max(dates)
            /\ Rec(en, m[1]).end => ~m[2] /\ m[3] = SumOf(Rec(en, m[1]).nums)
       ELSE c.concurrent>>}

ExecGuards(c, en) ==
  LET i == Info(c, en) IN
  {<<"job-iff-something-to-compute", en.stop = "normal" => (HasJob(en) <=> en.nexp # 0)>>,
   <<"reported-saved", c.named => Range(en.reported) \subseteq Range(c.files)>>,
   <<"own-log",
     IF c.concurrent THEN en.suffix \in Range(en.newlogs)
     ELSE /\ Range(en.newlogs) = {en.suffix}
          /\ en.changedlogs = <<>> >>,
   <<"job-and-log", HasJob(en) => en.job = "job_" \o en.suffix>>,
   <<"streams-restored", en.streams>>,
   <<"files-closed", en.fds = <<>> >>,
   <<"logger-usable", en.logger_ok>>,
   <<"returns", en.stop = "normal" \/ i.mayraise>>,
   <<"error-stops", i.muststop => en.stop = "raised">>}
  \union (IF HasJob(en) THEN JobGuards(c, en) ELSE {})

(* --- all executions --- *)
PollPairs(c) ==
  LET I == {k \in DOMAIN c.events : c.events[k].e = "poll"} IN
  {p \in I \X I : p[1] < p[2]}

CaseGuards(c) ==
  LET last == c.events[Len(c.events)] IN
  {<<"no-hang", ~c.hang>>,
   <<"all-ended", Cardinality(Ends(c)) + Cardinality(Killed(c)) = Len(c.xs)>>,
   <<"distinct-executions",
     \A e1, e2 \in Ends(c) : e1.x # e2.x => e1.suffix # e2.suffix>>,
   <<"no-other-job",
     LET others == JobNames(last) \ {en.job : en \in WithJob(c)} IN
     Cardinality(others) <= Cardinality(Killed(c))>>,
   <<"only-grow",
     \A p \in PollPairs(c) :
       LET a == c.events[p[1]] b == c.events[p[2]] IN
       \A n \in JobNames(a) : n \in JobNames(b) /\ Grows(Rec(a, n), Rec(b, n))>>,
   <<"monitor-live",
     \A m \in Range(c.live) :
       /\ m[1] \in JobNames(last)
       /\ m[2] = Rec(last, m[1]).lock
       /\ Rec(last, m[1]).end => m[3] = SumOf(Rec(last, m[1]).nums)>>,
   <<"repeated", c.repeat = <<>> \/ Range(c.repeat) = Range(c.files_digests)>>}

FailingNames(guards) == {g[1] : g \in {h \in guards : ~h[2]}}
Verdicts(c) ==
  UNION {{<<en.x, n>> : n \in FailingNames(ExecGuards(c, en))} : en \in Ends(c)}
  \union {<<"", n>> : n \in FailingNames(CaseGuards(c))}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in Verdicts(Cases[tr]) :
       PrintT(<<"VERDICT", Cases[tr].id, v[2], v[1]>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
