"""C08 and second part of C18: executions sharing a directory of results
(Jobs, JobsTrace)"""

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, rng_of

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NSessions = {sessions}
 NRuns = {runs}
 NProc = {procs}
 NRes = {res}
 Kills = {kills}
INVARIANTS TypeOK OwnLog OwnerOK LockOK BoundedOK CompleteOK NoJobWhenNothing
PROPERTIES GrowOK LogsGrow {live}
"""

POSTFIX = {"piv": "piv", "bos": "bos", "pre": "pre", "im2im": "im2im", "mean": "mean"}

CLAUSES_C18 = {
    "streams-restored",
    "files-closed",
    "logger-usable",
    "returns",
    "released",
    "no-hang",
    "all-ended",
    "log-end",
}
CLAUSES_BOTH = {"released", "no-hang", "all-ended"}

# executors with which stop_if_error is possible
STOPPABLE = (*tcm.ONE_PROCESS, "exec_async_multi")


def model_check(check, **kw):
    kw.setdefault("live", "")
    res = vlib.run_tlc(
        "Jobs", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"Jobs: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"Jobs {kw}: {res.distinct} states")


def small_cfg(rng, kind, nmax):
    kw = {"window": 1} if kind == "pre" else {}
    cfg = make_cfg(rng, kind, nmax=nmax, **kw)
    if kind in ("piv", "bos"):
        cfg["passes"] = 1
        cfg["method"] = "np.fft"
    return cfg


def pick_executor(rng, heavy):
    if not heavy:
        return rng.choice(tcm.ONE_PROCESS)
    return rng.choice(["multi_exec_async"] * 3 + ["multi_exec_sync", "multi_exec_subproc"]
                      + ["multi_exec_subproc_sync",
                         "exec_async_servers", "exec_async_multi"])


def make_run(rng, x, heavy):
    executor = pick_executor(rng, heavy)
    run = {
        "x": x,
        "executor": executor,
        "nb": 2 if heavy else rng.choice([1, 2, 3]),
        "how": rng.choice(["recompute", "recompute", "complete"]),
        "pause": rng.choice([0.0, 0.005, 0.02]),
        "level": rng.choice(["info", "info", "debug", None]),
        "loggers": rng.choice([0, 1, 2]),
        "racy": rng.random() < 0.5,
        "monitor": rng.random() < 0.3,
    }
    if rng.random() < 0.4:
        run["fail"] = rng.randint(1, 4)
        if executor in STOPPABLE and rng.random() < 0.7:
            run["stop_if_error"] = True
    elif rng.random() < 0.2 and executor in (*tcm.ONE_PROCESS, "multi_exec_async"):
        run["signal"] = rng.randint(1, 4)
    if "subproc" in executor:
        # the calls of the other processes are not instrumented
        for key in ("fail", "signal", "stop_if_error"):
            run.pop(key, None)
    return run


def make_jobs(check, n, nheavy, prefix):
    kinds = ["im2im", "pre", "piv", "im2im", "bos", "mean"]
    jobs = []
    for i in range(n):
        rng = rng_of("c08", prefix, check.seed, i)
        kind = kinds[i % len(kinds)]
        cfg = small_cfg(rng, kind, rng.choice([3, 4, 6]))
        heavy = i < nheavy
        shape = rng.choice(["seq", "seq", "seq", "conc", "kill"])
        if kind == "mean" and shape == "conc":
            # the concurrent sessions write the same image
            shape = "seq"
        nruns = {"seq": [rng.choice([2, 3, 4])], "conc": [rng.choice([1, 2]) for _ in range(2)],
                 "kill": [1, 2]}[shape]
        names = iter("abcdefgh")
        sessions = []
        rank = rng.randrange(sum(nruns)) if heavy else -1
        k = 0
        for length in nruns:
            session = []
            for _ in range(length):
                session.append(make_run(rng, next(names), k == rank))
                k += 1
            sessions.append(session)
        if shape == "kill":
            run = sessions[0][0]
            run["how"] = "recompute"
            for key in ("fail", "signal", "stop_if_error"):
                run.pop(key, None)
            if "subproc" in run["executor"] or "servers" in run["executor"]:
                run["executor"] = "exec_async"
            run["kill"] = rng.choice([1, 1, 2])
        first = sessions[0][0]
        full = not (set(first) & {"fail", "signal", "kill"})
        job = {
            "id": f"{prefix}{i}",
            "cfg": cfg,
            "dir": "Images." + (cfg.get("postfix") or POSTFIX[kind]),
            "sessions": sessions,
            "concurrent": shape == "conc",
            "live": rng.random() < 0.3,
            "repeat": full and shape != "conc" and rng.random() < 0.3,
        }
        jobs.append(job)
    return jobs


class Normalizer:
    """Same shape for all the snapshots of a case (what is not there yet is
    empty), dates of the jobs as ranks"""

    def __init__(self, events):
        self.nums = {}
        self.names = {}
        dates = set()
        for ev in events:
            for job in ev.get("jobs", []):
                dates.add(self.date(job["job"]))
                for what, store in ((job["nums"], self.nums), (job["names"], self.names)):
                    store.setdefault(job["job"], set()).update(k for k, _ in what)
        self.rank = {d: i for i, d in enumerate(sorted(dates))}

    def date(self, name):
        return "_".join(name.split("_")[1:3])

    def __call__(self, snapshot):
        out = []
        for job in snapshot:
            name = job["job"]
            nums, names = dict(job["nums"]), dict(job["names"])
            rec = {
                "lock": job["lock"],
                "end": job["end"],
                "nums": [nums.get(k, -1) for k in sorted(self.nums[name])],
                "names": [names.get(k, []) for k in sorted(self.names[name])],
                "params": job.get("params", True),
                "info": job.get("info", True),
                "date": self.rank[self.date(name)],
            }
            out.append([name, rec])
        return out


def to_case(job, rec):
    norm = Normalizer(rec["events"])
    events = []
    ends = []
    for ev in rec["events"]:
        new = {k: ev[k] for k in ("e", "x", "t", "t1")}
        new["last"] = ev.get("last", False)
        new["jobs"] = norm(ev.get("jobs", []))
        # only the first and the last ones of the identical snapshots
        same = [e for e in events[-2:] if e["e"] == "poll" == new["e"] and e["jobs"] == new["jobs"]]
        if len(same) == 2:
            events[-1] = new
        else:
            events.append(new)
        if ev["e"] == "end":
            keys = ("x", "t", "stop", "streams", "fds", "job", "suffix", "nexp", "reported",
                    "newlogs", "changedlogs", "logstart", "logend", "logger_ok", "monitor")
            end = {k: ev[k] for k in keys}
            end["jobs"] = new["jobs"]
            ends.append(end)
    xs = []
    called = {}
    for ev in events:
        if ev["e"] == "call":
            called[ev["x"]] = called.get(ev["x"], 0) + 1
    begun = {ev["x"] for ev in events if ev["e"] == "begin"}
    for run in [run for session in job["sessions"] for run in session]:
        if run["x"] not in begun and any("kill" in r for s in job["sessions"] for r in s):
            continue
        ncalls = called.get(run["x"], 0)
        failed = "fail" in run and ncalls >= run["fail"]
        stoppable = failed and run.get("stop_if_error", False)
        xs.append(
            {
                "x": run["x"],
                "kill": "kill" in run and ncalls >= run["kill"],
                "infolog": run["level"] is not None,
                # (no mean image if all the works failed)
                "mayraise": stoppable or (failed and job["cfg"]["kind"] == "mean"),
                "muststop": stoppable,
                "visible": "subproc" not in run["executor"],
            }
        )
    return {
        "id": job["id"],
        "hang": rec["hang"],
        "named": job["cfg"]["kind"] != "mean",
        "concurrent": bool(job.get("concurrent")),
        "events": events,
        "ends": ends,
        "xs": xs,
        "files": [f[0] for f in rec["files"]],
        "files_digests": rec["files"],
        "repeat": rec["repeat"],
        "live": rec["live"],
    }


def conform(check, jobs, clauses):
    byid = {job["id"]: job for job in jobs}
    records = tcm.run_jobs(check, jobs, script="drv_jobs.py")
    cases = [to_case(byid[i], rec) for i, rec in records.items()]
    verdicts, n, states = vlib.validate("JobsTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("executions", sum(len(c["xs"]) for c in cases))
    check.add("events_validated", sum(len(c["events"]) for c in cases))
    check.add("states", states)
    check.add("transitions", states)
    for case in cases[:1]:
        check.sample({"job": byid[case["id"]], "first events": case["events"][:4], "ends": case["ends"]})
    other = 0
    for idc, clause, x in verdicts:
        if not clauses(clause):
            other += 1
            continue
        job = byid[idc]
        runs = {run["x"]: run for session in job["sessions"] for run in session}
        run = runs.get(x, {})
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["cfg"]["kind"],
                "executor": run.get("executor", ""),
                "how": run.get("how", ""),
                "id": idc,
            },
            {"job": job, "x": x, "record": records[idc]},
        )
    if other:
        check.log(f"{other} verdicts about other properties")
    return cases


def c08(check):
    check.assumptions = [
        "the records are read by polling (every 15 ms) and at each call of a work",
        "exec_async_servers_threading (for testing: the servers replace the streams of "
        "the process) is not used",
        "concurrent executions are in different processes",
    ]
    if check.thorough:
        model_check(check, sessions=2, runs=1, procs=2, res=1, kills="TRUE")
        model_check(check, sessions=2, runs=2, procs=1, res=1, kills="FALSE")
        n, nheavy = 1200, 300
    else:
        model_check(check, sessions=2, runs=1, procs=1, res=1, kills="TRUE")
        model_check(check, sessions=1, runs=2, procs=2, res=1, kills="TRUE")
        n, nheavy = 100, 16
    model_check(check, sessions=1, runs=2, procs=1, res=3, kills="TRUE", live="Ends")
    jobs = make_jobs(check, n, nheavy, "r")
    conform(check, jobs, lambda c: c not in CLAUSES_C18 or c in CLAUSES_BOTH)


if __name__ == "__main__":
    vlib.main("C08", "model_checking", c08)
