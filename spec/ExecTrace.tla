----------------------------- MODULE ExecTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the executors against ExecAbs.     *)
(*                                                                         *)
(* cases.json: sequence of executions                                      *)
(*   id, topo (see ExecAbs), mode ("full": all the queue operations are    *)
(*   recorded; "coarse": only the calls of the works, maybe from several   *)
(*   processes), split (the topology is split between processes),          *)
(*   events: sequence of [e, s, k, v, p], fin: how it ended                *)
(*                                                                         *)
(* Each event updates the abstract state even if a guard does not hold, so *)
(* that one execution reports all the clauses it breaks (once per clause). *)
(***************************************************************************)
EXTENDS ExecAbs, TLC, Json

Cases == JsonDeserialize("cases.json")

VARIABLES
  tr, l,     \* index of the execution, of the next event
  avail,     \* coarse mode: <<s, k, v>> values which can enter stage s
  donep,     \* coarse mode: <<process, s, k>> calls which happened
  reported   \* clauses already reported for this execution

tvars == <<absvars, tr, l, avail, donep, reported>>

Case == Cases[tr]
Events == Case.events

Init ==
  /\ tr \in 1..Len(Cases)
  /\ l = 1
  /\ AbsInit(Cases[tr].topo)
  /\ avail = {} /\ donep = {} /\ reported = {}

Report(bad) ==
  /\ reported' = reported \union bad
  /\ \A c \in bad \ reported :
       PrintT(<<"VERDICT", Case.id, c, ToString(l)>>)

CoarseSource(s, k, v) ==
  IF s = 1 THEN v[2] = k
  ELSE IF IsJoin(topo, s - 1)
       THEN \A m \in Members(topo, k) : \E a \in avail : a[1] = s - 1 /\ a[2] = m
       ELSE <<s, k, v>> \in avail

CoarseStartGuards(ev) ==
  LET s == ev.s  k == ev.k  v == ev.v
      perprocess == Case.split /\ BeforeJoin(topo, s) IN {
  <<"start-known-item", k \in KeysAt(topo, s)>>,
  <<"start-input-is-result", k \in KeysAt(topo, s) => CoarseSource(s, k, v)>>,
  <<"start-not-on-exception", ~IsExc(v)>>,
  <<"start-once", IF perprocess THEN <<ev.p, s, k>> \notin donep ELSE <<s, k>> \notin done>>,
  <<"start-expected", <<s, k>> \in Calls(topo)>> }

CoarseEndGuards(ev) == {
  <<"end-running", \E r \in running : r[1] = ev.s /\ r[2] = ev.k /\ r[4] = ev.p>>,
  <<"end-fails-as-told", IsExc(ev.v) <=> <<ev.s, ev.k>> \in Fails(topo)>> }

Step ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ tr' = tr
  /\ LET ev == Events[l]
         s == ev.s
         k == ev.k
         v == ev.v
     IN
     IF Case.mode = "coarse" THEN
       CASE ev.e = "start" ->
              /\ Report(Failing(CoarseStartGuards(ev)))
              /\ done' = done \union {<<s, k>>}
              /\ donep' = donep \union {<<ev.p, s, k>>}
              /\ running' = running \union {<<s, k, v, ev.p>>}
              /\ UNCHANGED <<topo, q, subsets, held, ended, status, late, avail>>
         [] ev.e = "end" ->
              /\ Report(Failing(CoarseEndGuards(ev)))
              /\ running' = {r \in running : ~(r[1] = s /\ r[2] = k /\ r[4] = ev.p)}
              /\ avail' = IF s < NS(topo) THEN avail \union {<<s + 1, k, v>>} ELSE avail
              /\ UNCHANGED <<topo, q, subsets, held, ended, status, late, done, donep>>
         [] ev.e = "signal" -> Report({}) /\ Signal /\ UNCHANGED <<avail, donep>>
         [] OTHER -> Report({}) /\ UNCHANGED <<absvars, avail, donep>>
     ELSE
       /\ UNCHANGED <<avail, donep>>
       /\ CASE ev.e = "fill" -> Report({}) /\ Fill(k, v)
            [] ev.e = "pop" -> Report(Failing(PopGuards(s, k, v))) /\ Pop(s, k, v)
            [] ev.e = "start" -> Report(Failing(StartGuards(s, k, v))) /\ Start(s, k, v)
            [] ev.e = "end" -> Report(Failing(EndGuards(s, k, v))) /\ End(s, k, v)
            [] ev.e = "put" -> Report(Failing(PutGuards(s, k, v))) /\ Put(s, k, v)
            [] ev.e = "join" -> Report(Failing(JoinGuards(k))) /\ Join(k, v)
            [] ev.e = "signal" -> Report({}) /\ Signal
            [] OTHER -> Report({"unexpected-queue-operation"}) /\ UNCHANGED absvars

Range(seq) == {seq[i] : i \in 1..Len(seq)}

FinalGuards ==
  LET fin == Case.fin
      failed == FailedCalls(topo)
      mustraise == topo.stop_if_error /\ failed \intersect done # {}
      logs == Range(fin.logs)
      signal == status = "stopping"
      \* the calls of the last work which succeeded
      good == {k \in GoodResults(topo) : <<NS(topo), k>> \in done}
  IN {
  <<"terminates", fin.stop # "hang">>,
  <<"no-unexpected-error", fin.stop = "raised" => mustraise>>,
  <<"raises-if-asked", mustraise => fin.stop # "normal">>,
  <<"raises-the-error", (fin.stop = "raised" /\ mustraise) =>
       \E x \in Range(fin.leaves) : \E c \in failed : x = c>>,
  <<"failures-logged", (fin.stop = "normal" /\ Case.logged) =>
       (IF signal THEN failed \intersect done ELSE failed) \subseteq logs>>,
  <<"only-failures-logged", Case.logged => logs \subseteq failed>>,
  <<"failure-described", Case.logged => fin.logs_ok>>,
  <<"results-complete", fin.stop = "normal" =>
       (IF signal THEN good ELSE GoodResults(topo)) \subseteq Range(fin.results)>>,
  <<"results-no-other", Range(fin.results) \subseteq GoodResults(topo)>>,
  <<"results-once", Len(fin.results) = Cardinality(Range(fin.results))>>,
  <<"lock-released", fin.stop # "hang" => fin.locks = 0>>,
  <<"signal-stops-soon", signal => fin.late_calls = 0>> }
  \union
  (IF fin.stop # "normal" THEN {}
   ELSE IF Case.mode = "full"
        THEN StopGuards \union {<<"queues-really-empty", signal \/ fin.left = <<>>>>}
        ELSE {<<"stop-all-calls-done", signal \/ done = Calls(topo)>>,
              <<"stop-nothing-running", running = {}>>})

Finish ==
  /\ l = Len(Events) + 1
  /\ l' = l + 1
  /\ Report(Failing(FinalGuards))
  /\ TLCSet(1, TLCGet(1) + 1)
  /\ status' = Case.fin.stop
  /\ UNCHANGED <<topo, q, subsets, held, running, ended, done, late, tr, avail, donep>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_tvars

ASSUME TLCSet(1, 0)
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
