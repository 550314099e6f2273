"""C05: partition of the work between the processes (Split, MCSplit, SplitTrace)"""

import itertools
import sys

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, nb_selected, rng_of
from topo_names import elements, tla_cfg

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxStart = {a}
 MaxStop = {b}
 MaxStep = {s}
 MaxParts = {p}
INVARIANTS RangeOK ListOK
"""


def model_check(check):
    big = check.thorough
    res = vlib.run_tlc(
        "MCSplit",
        MC_CFG.format(a=4 if big else 2, b=16 if big else 9, s=4 if big else 3, p=12 if big else 6),
        check.scratch,
        workers=vlib.NCPU,
    )
    if not res.ok:
        raise vlib.MachineryError(f"MCSplit: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)


def function_jobs(check):
    rng = rng_of("c05f", check.seed)
    jobs = []
    for start, stop, step, np in itertools.product((0, 1, 5), range(0, 14), (1, 2, 3), (1, 2, 3, 5, 8)):
        jobs.append({"op": "range", "start": start, "stop": stop, "step": step, "np": np})
    for n, np in itertools.product(range(0, 13), range(1, 10)):
        jobs.append({"op": "list", "seq": rng.sample(range(100), n), "np": np})
    for _ in range(3000 if check.thorough else 300):
        start = rng.randrange(100)
        jobs.append(
            {
                "op": "range",
                "start": start,
                "stop": start + rng.randrange(60),
                "step": rng.randint(1, 7),
                "np": rng.randint(1, 40),
            }
        )
        n = rng.randrange(50)
        jobs.append({"op": "list", "seq": rng.sample(range(1000), n), "np": rng.randint(1, 40)})
    for i, job in enumerate(jobs):
        job["id"] = f"f{i}"
    return jobs


def run_functions(check):
    jobs = function_jobs(check)
    byid = {job["id"]: job for job in jobs}
    cases = []
    for rc, recs, err, part in vlib.run_driver("drv_split.py", jobs, check.scratch):
        if rc != 0 or len(recs) != len(part):
            raise vlib.MachineryError(f"drv_split.py failed {err}")
        for rec in recs:
            job = byid[rec["id"]]
            if rec["error"]:
                check.violation("split raises", {"op": job["op"], "id": rec["id"]}, {"job": job, "rec": rec})
                continue
            cases.append({**job, "parts": rec["parts"]})
    return cases, byid


def tolerance(cfg, complete):
    if complete or cfg["over"] == "series":
        return 1
    first = len(range(cfg["sub"][0]["a"], cfg["sub"][0]["b"], cfg["sub"][0]["s"]))
    rest = nb_selected(cfg) // first
    return rest + (1 if cfg["reference"] else 0)


def topo_jobs(check):
    jobs = []
    n, nreal = (700, 300) if check.thorough else (120, 60)
    kinds = ["piv", "bos", "pre", "im2im", "piv", "mean"]
    for i in range(n + nreal):
        rng = rng_of("c05", check.seed, i)
        real = i >= n
        kind = kinds[i % (5 if real else 6)]
        cfg = make_cfg(rng, kind, nmax=rng.choice([3, 6, 9, 12]), **({"window": 1} if kind == "pre" else {}))
        if kind in ("piv", "bos"):
            cfg["passes"] = 1
            cfg["method"] = "np.fft"
        complete = kind != "mean" and rng.random() < 0.6
        how = "complete" if complete else "recompute"
        steps = []
        if complete:
            steps.append({"op": "run", "executor": "exec_sequential", "nb": 1, "how": "recompute"})
            ne = len(elements(cfg))
            ndel = rng.randint(1 if real else 0, ne)
            steps.append({"op": "delete", "ranks": rng.sample(range(ne), ndel)})
        nb = rng.choice([1, 2, 3, 4, 5, 7])
        if real:
            executor = ["multi_exec_async", "multi_exec_async", "multi_exec_subproc"][(i // 5) % 3]
            if executor == "multi_exec_subproc":
                nb = min(nb, 3)
            steps.append({"op": "run", "executor": executor, "nb": nb, "how": how, "timeout": 100})
        elif not complete and kind != "bos" and rng.random() < 0.4:
            steps.append({"op": "child", "func": "split_without_topology", "nb": nb, "how": how})
        else:
            steps.append({"op": "child", "func": "split", "nb": nb, "how": how})
        jobs.append({"id": f"s{i}", "cfg": cfg, "steps": steps})
    return jobs


def element_of(cfg, members):
    return members[-1:] if cfg["kind"] == "bos" else members


def to_case(check, job, rec):
    cfg = job["cfg"]
    step, srec = job["steps"][-1], rec["steps"][-1]
    case = {"id": job["id"], "cfg": tla_cfg(cfg), "np": step["nb"], "existing": []}
    if len(job["steps"]) > 1:
        _, res = tcm.result_dir(rec["steps"][1], cfg)
        case["existing"] = [element_of(cfg, m) for _, m, _ in res["files"]]
    sig = {"kind": cfg["kind"], "how": step["how"], "executor": step.get("executor", step.get("func"))}
    if srec["stop"] != "normal":
        check.violation(
            f"execution {srec['stop']}",
            {**sig, "id": job["id"]},
            {"job": job, "record": rec},
        )
        return None
    case["tol"] = tolerance(cfg, step["how"] == "complete")
    if step["op"] == "child":
        case["op"] = "splitter"
        case["parts"] = srec["value"]["parts"]
        case["nexp"] = srec["value"]["nexp"]
    else:
        case["op"] = "run"
        _, res = tcm.result_dir(srec, cfg)
        members = {name: m for name, m, _ in res["files"]}
        case["parts"] = [
            [element_of(cfg, members.get(name, [name])) for name in part] for part in res["parts"]
        ]
        case["nexp"] = srec["nexp"]
    return case


def c05(check):
    check.assumptions = [
        "for images with several indices only the first index is split between the "
        "processes, the sizes differ by at most the number of images for one value",
    ]
    model_check(check)
    cases, byid = run_functions(check)
    jobs = topo_jobs(check)
    records = tcm.run_jobs(check, jobs)
    check.log(f"{len(records)} jobs run")
    for job in jobs:
        byid[job["id"]] = job
        case = to_case(check, job, records[job["id"]])
        if case:
            cases.append(case)
    verdicts, nb, states = vlib.validate("SplitTrace", cases, check.scratch)
    check.add("evaluations", nb)
    check.add("traces_validated_against_impl", len(jobs))
    check.add("states", states)
    check.add("transitions", states)
    for case in cases[-2:]:
        check.sample(case)
    bycase = {case["id"]: case for case in cases}
    for idc, clause, op in verdicts:
        job = byid[idc]
        step = job["steps"][-1] if "steps" in job else {}
        check.violation(
            f"clause {clause} ({op})",
            {
                "clause": clause,
                "op": op,
                "kind": job.get("cfg", {}).get("kind", ""),
                "how": step.get("how", ""),
                "executor": step.get("executor", ""),
                "id": idc,
            },
            {"job": job, "case": bycase[idc], "record": records.get(idc)},
        )


if __name__ == "__main__":
    vlib.main(sys.argv[1], "model_checking", {"C05": c05}[sys.argv[1]])
