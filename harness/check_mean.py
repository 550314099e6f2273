"""C11: mean image (Mean, MeanTrace)"""

import sys

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, nb_selected, rng_of
from topo_names import elements, image_names, tla_cfg

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 Images = {{{images}}}
 NP = {np}
 Workers = {w}
CHECK_DEADLOCK FALSE
INVARIANTS CountedOnce Exact
PROPERTIES Terminates WrittenOnce
"""


def make_jobs(check, n, nmulti):
    jobs = []
    for i in range(n):
        rng = rng_of("c11", check.seed, i)
        big = i % 50 == 49
        many = not big and i % 12 == 0
        nmax = rng.choice([3, 6, 12, 20])
        if big or many:
            nmax = 600 if big else 24
        while True:
            cfg = make_cfg(rng, "mean", nmax=nmax)
            if nb_selected(cfg) >= (270 if big else 12 if many else 1):
                break
        if big:
            cfg["dtype"] = "uint8"
        cfg["shape"] = rng.choice([[2, 3], [1, 4], [3, 2]])
        cfg["content"] = "high" if big else rng.choice(["random", "random", "high"])
        needed = [e[0] for e in elements(cfg)]
        kind = rng.choice(["no", "inject", "unreadable"])
        bad = []
        if kind == "unreadable" and len(needed) > 1:
            # the first image is read to get its type
            bad = rng.sample(sorted(needed)[1:], rng.randint(1, min(2, len(needed) - 1)))
            cfg["unreadable"] = bad
        elif kind == "inject" and len(needed) > 1:
            bad = rng.sample(needed, rng.randint(1, min(3, len(needed) - 1)))
        executors = ["exec_sequential", "exec_async", "exec_async", "exec_async_sequential"]
        if big:
            executors = ["exec_sequential", "exec_async"]
        if many:
            executors = ["exec_sequential", "multi_exec_async"]
        elif i < nmulti:
            executors.append(rng.choice(["multi_exec_async"] * 3 + ["multi_exec_sync"]))
        steps = []
        for k, executor in enumerate(executors):
            step = {
                "op": "run",
                "executor": executor,
                "nb": 12 if many else rng.choice([1, 2, 3, 4, 5]),
                "how": "recompute",
                "seed": tcm.virt_seed(rng, executor),
                "cfg": {"postfix": f"r{k}"},
                "timeout": 100,
            }
            if kind == "inject":
                step["fail_read"] = bad
            steps.append(step)
        if i % 5 == 0 and kind != "inject":
            args = []
            if rng.random() < 0.6:
                args += ["--executor", rng.choice(["exec_async", "exec_sequential"])]
            if rng.random() < 0.6:
                args += ["-np", str(rng.choice([1, 2, 3]))]
            steps.append({"op": "child", "func": "mean_cli", "args": args, "timeout": 60})
        jobs.append({"id": f"m{i}", "cfg": cfg, "steps": steps, "mean": True, "bad": bad})
    return jobs


NOTHING = {"result": [], "attr": [], "tmp": 0}


def to_case(job, rec):
    cfg = job["cfg"]
    runs = []
    for k, (step, srec) in enumerate(zip(job["steps"], rec["steps"])):
        mean = srec.get("mean") or srec.get("value") or NOTHING
        _, res = tcm.result_dir(srec, cfg, f"r{k}")
        cli = step["op"] == "child"
        runs.append(
            {
                "executor": step.get("executor", "cli"),
                "stop": srec["stop"],
                **mean,
                "exceptions": len(res["exceptions"]),
                "nocount": cli,
            }
        )
    return {
        "id": job["id"],
        "cfg": tla_cfg(cfg),
        "names": [name for _, name in image_names(cfg)],
        "pixels": rec["pixels"],
        "bad": job["bad"],
        "runs": runs,
    }


def c11(check):
    check.assumptions = ["images of 8 and 16 bits (unsigned), at least one readable image"]
    domains = [(4, 2, 2), (3, 3, 1), (5, 1, 3)]
    if check.thorough:
        domains += [(5, 2, 2), (4, 3, 2), (6, 1, 3)]
    for n, nproc, w in domains:
        res = vlib.run_tlc(
            "Mean",
            MC_CFG.format(images=",".join(map(str, range(1, n + 1))), np=nproc, w=w),
            check.scratch,
            workers=vlib.NCPU,
            heap="8g",
        )
        if not res.ok:
            raise vlib.MachineryError(f"Mean: {res.violated}\n{res.out[-2000:]}")
        check.add("states", res.distinct)
        check.add("transitions", res.generated)
    n, nmulti = (1200, 400) if check.thorough else (150, 60)
    jobs = make_jobs(check, n, nmulti)
    byid = {job["id"]: job for job in jobs}
    records = tcm.run_jobs(check, jobs)
    check.log(f"{len(records)} jobs run")
    cases = [to_case(byid[i], rec) for i, rec in records.items()]
    verdicts, nb, states = vlib.validate("MeanTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", sum(len(c["runs"]) for c in cases))
    check.add("series", nb)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    for idc, clause, num in verdicts:
        job = byid[idc]
        step = job["steps"][int(num) - 1]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "executor": step.get("executor", "cli"),
                "failures": bool(job["bad"]),
                "id": idc,
            },
            {"job": job, "run": num, "record": records[idc]},
        )


if __name__ == "__main__":
    vlib.main(sys.argv[1], "model_checking", {"C11": c11}[sys.argv[1]])
