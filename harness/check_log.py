"""C09: the analysis of the logs (LogAnalysis, LogModel, LogTrace)"""

import random

import exec_common as ec
import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NProcs = {procs}
 Works = {works}
 Keys = {keys}
 MaxCalls = {calls}
 MaxTime = {time}
INVARIANTS Exact Prefixes
"""

VIRT = ("exec_async", "exec_async_sequential", "exec_sequential")
REAL = (
    "exec_async",
    "exec_async_multi",
    "exec_async_servers",
    "multi_exec_async",
    "multi_exec_sync",
    "exec_sequential",
)

# unit 1e-4 s: resolutions 0.01 s (times), 0.001 s (durations)
TOL_VIRT = [60, 60, 8, 8]
# the threads can start and end late
TOL_REAL = [40000, 100, 40, 40000]

PRINTS = [
    ["step 1 "],
    ["progress: 12.5 s. "],
    ["work in progress, done in a moment\n"],
    ["work (unknown) done in 3 s\nother text "],
    ["ERROR: something\n"],
    ["mem usage: \n"],
    ["100 %"],
    ["\n"],
]


def model_check(check, **kw):
    res = vlib.run_tlc(
        "LogModel", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"LogModel: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"LogModel {kw}: {res.distinct} states")


def make_jobs(seed, nvirt, nreal):
    jobs = []
    for i in range(nvirt + nreal):
        real = i >= nvirt
        rng = random.Random(f"log{seed}-{i}")
        if real:
            executors = [REAL[i % len(REAL)]]
        else:
            executors = [rng.choice(VIRT) for _ in range(rng.choice([1, 1, 2]))]
        job = ec.scenario(
            i, f"log{seed}", fails=i % 3, mode="real" if real else "virt", executor=executors[0]
        )
        topology = job["topology"]
        stages = topology["stages"]
        # names with spaces
        for stage in stages:
            if "join" not in stage and rng.random() < 0.3:
                old = stage["name"]
                stage["name"] = f"compute {old}"
                topology["fails"] = [
                    [stage["name"] if w == old else w, k] for w, k in topology["fails"]
                ]
                if "busy" in topology:
                    topology["busy"] = {
                        k.replace(old + "/", stage["name"] + "/"): v
                        for k, v in topology["busy"].items()
                    }
        if rng.random() < 0.5:
            topology["prints"] = {
                f"{stage['name']}/{k}": rng.choice(PRINTS)
                for stage, ks in ec.levels(topology)
                for k in ks
                if rng.random() < 0.5
            }
            if real and any(ex in ("exec_async", "exec_async_multi") for ex in executors):
                # complete lines, written by threads
                topology["prints"] = {}
        if real:
            split = executors[0].startswith("multi_exec")
            job["workers"] = rng.choice([2, 3]) if split else 2
            job["timeout"] = 60
        job["runs"] = [
            {
                "executor": ex,
                "seed": rng.randrange(2**30),
                "level": rng.choice(["info", "debug", None]),
                "parts": 4 if rng.random() < 0.3 else 0,
                "plots": rng.random() < 0.2,
            }
            for ex in executors
        ]
        job["id"] = f"log{i}"
        job.pop("seed")
        jobs.append(job)
    return jobs


def to_cases(job, rec):
    cases = []
    for k, (run, rrec) in enumerate(zip(job["runs"], rec["runs"])):
        actual = rrec["actual"]
        if run["executor"] in ("exec_sequential", "multi_exec_sync"):
            # exec_sequential does not log the global works
            actual = [c for c in actual if c["w"] != "join"]
        chars = rrec["expected"]
        for j, ana in enumerate([rrec["analysis"], *rrec["other"]]):
            cases.append(
                {
                    "id": f"{job['id']}/{k}/{j}",
                    "tol": TOL_REAL if job["mode"] == "real" else TOL_VIRT,
                    "failed": ana["failed"],
                    "actual": actual,
                    "analysis": ana["calls"],
                    "names": ana["names"],
                    "lens": ana["lens"],
                    "chars": [
                        [name, str(v), str(ana["chars"].get(name))] for name, v in chars.items()
                    ],
                    "wall": rrec["wall"],
                    "duration": ana["duration"],
                    "parts": rrec["parts"] if j == 0 else [],
                    "first": rrec["first"],
                    "plots": ana["plots"] or [],
                }
            )
    return cases


def c09(check):
    check.assumptions = [
        "the calls of a work on the same key in one process do not overlap",
        "times compared with the resolution of the log (virtual clock); real executions: "
        f"calls starting and ending up to {TOL_REAL[0] / 1e4:.0f} s after what is logged",
        "global works are not logged by exec_sequential",
    ]
    if check.thorough:
        model_check(check, procs=2, works='{"a"}', keys='{"k"}', calls=3, time=3)
        model_check(check, procs=1, works='{"a","b"}', keys='{"k","l"}', calls=4, time=2)
        nvirt, nreal = 3000, 300
    else:
        model_check(check, procs=2, works='{"a"}', keys='{"k"}', calls=2, time=2)
        model_check(check, procs=1, works='{"a","b"}', keys='{"k","l"}', calls=3, time=2)
        nvirt, nreal = 400, 48
    jobs = make_jobs(check.seed, nvirt, nreal)
    byid = {job["id"]: job for job in jobs}
    # well distributed
    random.Random(0).shuffle(jobs)
    records = {}
    for rc, recs, err, part in vlib.run_driver("drv_log.py", jobs, check.scratch, timeout=700):
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_log.py failed ({rc}) {err}")
    cases = []
    for i, rec in records.items():
        for run, rrec in zip(byid[i]["runs"], rec["runs"]):
            if rrec["stop"] != "normal":
                check.log(f"{i} {run['executor']}: {rrec['stop']} {rrec['raised']}")
                check.add("executions_not_ended", 1)
        if all(r["stop"] == "normal" for r in rec["runs"]):
            cases += to_cases(byid[i], rec)
    check.add("calls", sum(len(c["actual"]) for c in cases))
    check.add("logs_plotted", sum(bool(c["plots"]) for c in cases))
    check.add("partial_logs", sum(len(c["parts"]) for c in cases))
    verdicts, n, states = vlib.validate("LogTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    bycase = {c["id"]: c for c in cases}
    for idc, clause, _ in verdicts:
        job = byid[idc.split("/")[0]]
        case = bycase[idc]
        run = job["runs"][int(idc.split("/")[1])]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "executor": run["executor"],
                "keys": job["topology"]["keys"],
                "failed": case["failed"],
                "id": idc,
            },
            {"job": job, "case": case},
        )


if __name__ == "__main__":
    vlib.main("C09", "model_checking", c09)
