"""Helpers shared by the checks using the real topologies"""

import topo_cfgs
import topo_names
import vlib

ONE_PROCESS = ("exec_sequential", "exec_async", "exec_async_sequential")
MULTI = (
    "multi_exec_async",
    "multi_exec_sync",
    "multi_exec_subproc",
    "multi_exec_subproc_sync",
)
SERVERS = ("exec_async_servers", "exec_async_servers_threading", "exec_async_multi")


def run_jobs(check, jobs, timeout=800, env=None, script="drv_topo.py"):
    """Run the jobs with drv_topo.py; returns the records by id"""
    # the longest first, well distributed between the processes
    weight = {"exec_sequential": 1, "exec_async": 1, "exec_async_sequential": 1}
    weight.update({"multi_exec_async": 10, "multi_exec_sync": 10})

    def cost(job):
        return sum(
            weight.get(step.get("executor"), 30) for step in job["steps"] if step["op"] == "run"
        )

    if script == "drv_jobs.py":
        weight = {ex: 5 for ex in weight} | {"multi_exec_async": 10, "multi_exec_sync": 10}

        def cost(job):
            return sum(
                weight.get(run["executor"], 8 if "servers" in run["executor"] else 60)
                for session in job["sessions"]
                for run in session
            )

    jobs = sorted(jobs, key=cost, reverse=True)
    parts = [[] for _ in range(vlib.NCPU)]
    costs = [0] * vlib.NCPU
    for job in jobs:
        k = costs.index(min(costs))
        parts[k].append(job)
        costs[k] += cost(job)
    n = max(len(p) for p in parts)
    # run_driver distributes with a stride
    ordered = []
    for i in range(n):
        for p in parts:
            ordered.append(p[i] if i < len(p) else None)
    nproc = vlib.NCPU
    records = {}
    results = vlib.run_driver(
        script, ordered, check.scratch, timeout=timeout, env=env, nproc=nproc
    )
    for rc, recs, err, part in results:
        part = [job for job in part if job is not None]
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"{script} failed ({rc}) {err}")
    return records


def result_dir(rec, cfg, postfix=None):
    """The record of the result directory of a step"""
    name = rec.get("dir") or ""
    if not name:
        from_cfg = postfix or cfg.get("postfix") or cfg["kind"]
        name = "Images." + from_cfg
    return name, rec["dirs"].get(
        name, {"files": [], "rewritten": [], "locks": 0, "exceptions": []}
    )


def virt_seed(rng, executor):
    return rng.randrange(2**30) if executor in ONE_PROCESS[1:] else -1


__all__ = ["topo_cfgs", "topo_names"]
