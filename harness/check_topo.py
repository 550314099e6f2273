"""C04: the results do not depend on the executor (TopoResults)"""

import sys

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, rng_of
from topo_names import elements, tla_cfg


TOOLS = ["sliding_median", "sliding_minima", "rescale_intensity", "global_threshold"]
TEMPORAL = ["temporal_median", "temporal_minima"]


def more_params(rng, cfg):
    """tools of the preprocessing, cropped images"""
    kind = cfg["kind"]
    if kind == "pre" and rng.random() < 0.6:
        tools = rng.sample(TOOLS, rng.choice([1, 2]))
        if cfg["window"] > 1 and rng.random() < 0.7:
            tools.insert(0, rng.choice(TEMPORAL))
        cfg["tools"] = tools
    elif kind in ("piv", "bos", "optflow") and rng.random() < 0.3:
        cfg["strcrop"] = rng.choice([":, 2:", "1:-1, :-2", ":22, 1:"])


def c04_jobs(check, n, nmulti):
    jobs = []
    kinds = ["piv", "bos", "pre", "im2im", "mean", "optflow", "pre"]
    for i in range(n):
        rng = rng_of("c04", check.seed, i)
        kind = kinds[i % len(kinds)]
        kw = {}
        if kind == "pre" and rng.random() < 0.5:
            kw["window"] = rng.choice([1, 2, 3])
        # more than 10 processes
        many = i in (0, 2, 9, 10) or (check.thorough and i % 25 == 3)
        if many:
            kw = {}
        while True:
            nmax = 24 if many else rng.choice([3, 6, 9])
            cfg = make_cfg(rng, kind, nmax=nmax, **kw)
            if not many or len(elements(cfg)) >= 12:
                break
        cfg["window"] = kw.get("window", 1)
        more_params(rng_of("c04-params", check.seed, i), cfg)
        executors = ["exec_sequential", "exec_async", "exec_async", "exec_async_sequential"]
        if i < nmulti:
            if kind == "mean":
                multi = ["multi_exec_async", "multi_exec_async", "multi_exec_sync"]
            else:
                multi = list(tcm.MULTI)
            if kind != "mean":
                multi.append(rng.choice(tcm.SERVERS[:2]))
            # exec_async_multi works only for the works with a cpu kind
            executors.append(multi[(i // len(kinds)) % len(multi)])
        if many:
            executors = ["exec_sequential", "multi_exec_async"]
        steps = []
        for k, executor in enumerate(executors):
            steps.append(
                {
                    "op": "run",
                    "executor": executor,
                    "nb": 12 if many else 2 if executor in tcm.SERVERS else rng.choice([1, 2, 3, 4]),
                    "how": "recompute",
                    "seed": tcm.virt_seed(rng, executor),
                    "cfg": {"postfix": f"r{k}"},
                    "timeout": 120,
                }
            )
        jobs.append({"id": f"t{i}", "cfg": cfg, "steps": steps, "oracle": True})
    return jobs


def surf_jobs(check, n):
    """The multi executors refuse this topology, which has no splitter"""
    jobs = []
    for i in range(n):
        rng = rng_of("c04-surf", check.seed, i)
        while True:
            cfg = make_cfg(rng, "surf", nmax=rng.choice([1, 4, 6, 8]), failures=True)
            # the first ones with some images
            if i >= 6 or len(elements(cfg)) >= 4:
                break
        cfg["window"] = 1
        executors = ["exec_sequential", "exec_async", "exec_async", "exec_async_sequential"]
        if i % 6 == 0:
            executors.append(tcm.SERVERS[(i // 6) % 3])
        steps = []
        for k, executor in enumerate(executors):
            step = {"op": "run", "executor": executor, "nb": rng.choice([2, 3, 4])}
            step.update({"how": "recompute", "seed": tcm.virt_seed(rng, executor)})
            step.update({"cfg": {"postfix": f"r{k}"}, "timeout": 120})
            steps.append(step)
        jobs.append({"id": f"s{i}", "cfg": cfg, "steps": steps, "oracle": True})
    return jobs


def overlap_jobs(check, n):
    """Subsets of the preprocessing with images in common"""
    jobs = []
    for i in range(n):
        rng = rng_of("c04-overlap", check.seed, i)
        while True:
            cfg = make_cfg(rng, "pre", nmax=6, window=3, overlap=True)
            if len(elements(cfg)) >= 2 and cfg["step"] == 1 and len(elements(cfg)[0]) == 3:
                break
        cfg.update(window=3, overlap=True, tools=["temporal_median"], content="random")
        steps = []
        for k in range(4):
            executor = "exec_async" if k else "exec_sequential"
            step = {"op": "run", "executor": executor, "nb": rng.choice([2, 3, 4])}
            step.update({"how": "recompute", "seed": tcm.virt_seed(rng, executor)})
            step.update({"cfg": {"postfix": f"r{k}"}, "timeout": 120})
            steps.append(step)
        jobs.append({"id": f"o{i}", "cfg": cfg, "steps": steps, "oracle": True})
    return jobs


def to_case(job, rec):
    cfg = job["cfg"]
    runs = []
    for k, (step, srec) in enumerate(zip(job["steps"], rec["steps"])):
        name, res = tcm.result_dir(srec, cfg, f"r{k}")
        runs.append(
            {
                "executor": step["executor"],
                "stop": srec["stop"],
                "nexp": srec["nexp"],
                "files": res["files"],
                "reported": srec["reported"],
                "failures": res["exceptions"],
                "locks": res["locks"],
                "outside": [d for n, d in srec["outside"] if n == name + ".png"],
            }
        )
    return {
        "id": job["id"],
        "kind": cfg["kind"],
        "window": cfg["window"],
        "overlap": cfg.get("overlap", False),
        "unreadable": cfg.get("unreadable", []),
        "cfg": tla_cfg(cfg),
        "oracle": rec["oracle"],
        "images_untouched": rec["images_untouched"],
        "runs": runs,
    }


def c04(check):
    check.assumptions = [
        "contents compared up to 5 decimals; small images",
    ]
    n, nmulti = (900, 500) if check.thorough else (196, 126)
    jobs = c04_jobs(check, n, nmulti) + surf_jobs(check, 200 if check.thorough else 30)
    jobs += overlap_jobs(check, 40 if check.thorough else 8)
    byid = {job["id"]: job for job in jobs}
    records = tcm.run_jobs(check, jobs)
    check.log(f"{len(records)} jobs run")
    cases = [to_case(byid[i], rec) for i, rec in records.items()]
    verdicts, nb, states = vlib.validate("TopoResults", cases, check.scratch)
    check.add("traces_validated_against_impl", sum(len(c["runs"]) for c in cases))
    check.add("topologies", nb)
    for case in cases:
        failed = sum(f[2] == "failed" for f in case["oracle"])
        check.add(f"elements {case['kind']}", len(case["oracle"]) - failed)
        check.add("failing elements", failed)
    check.add("states", states)
    check.add("transitions", states)
    for case in cases[:2]:
        check.sample({"cfg": case["cfg"], "run": case["runs"][-1]})
    for idc, clause, num in verdicts:
        job = byid[idc]
        num = int(num)
        step = job["steps"][num - 1] if num else {}
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["cfg"]["kind"],
                "executor": step.get("executor", ""),
                "overlap": job["cfg"].get("overlap", False),
                "id": idc,
            },
            {"job": job, "run": num, "record": records[idc]},
        )


if __name__ == "__main__":
    prop = sys.argv[1]
    vlib.main(prop, "model_checking", {"C04": c04}[prop])
