"""C18: An execution leaves its process as it found it and stops on demand"""

import random
import sys

import check_exec as ce
import check_jobs as cj
import exec_common as ec
import vlib

EXECUTORS = (
    "exec_async",
    "exec_async_sequential",
    "exec_async_seq_for_multi",
    "exec_sequential",
)


def signal_jobs(seed, n):
    """Schedules with the signal received during any call of a work"""
    jobs = []
    for i in range(n):
        rng = random.Random(f"signal{seed}-{i}")
        job = ec.scenario(i, f"signal{seed}", fails=i % 3, executor=EXECUTORS[i % 4])
        topology = job["topology"]
        ncalls = sum(len(ks) for s, ks in ec.levels(topology) if "join" not in s)
        job["signal"] = rng.randint(1, max(1, ncalls))
        jobs.append(job)
    return jobs


def real_signal_jobs(seed, per_executor):
    jobs = []
    i = 0
    for executor in ce.REAL:
        for k in range(per_executor):
            rng = random.Random(f"realsignal{seed}-{executor}-{k}")
            servers = "servers" in executor or executor == "exec_async_multi"
            nproc = rng.choice([2, 3])
            split = executor.startswith("multi_exec")
            # at least 10 s of computation without the signal
            n = 100 * nproc if split or servers or executor == "exec_async" else 100
            stages = [
                {"name": "wa", "kind": "io"},
                {"name": "wb", "kind": "cpu"},
                {"name": "wc", "kind": "io"},
            ]
            topology = {"n": n, "keys": "str", "stages": stages, "fails": []}
            topology["busy"] = {f"wb/im{j}.png": 0.1 for j in range(n)}
            job = {
                "id": f"realsig-{i}",
                "mode": "real",
                "executor": executor,
                "workers": nproc,
                "seed": 0,
                "topology": topology,
                "signal": rng.randint(20, 40) * nproc,
                "timeout": 60,
                "sleep": 0.01,
            }
            if split and k % 2:
                # one of the processes has finished when the signal is received
                for j in range(n // nproc):
                    topology["busy"][f"wb/im{j}.png"] = 0.0
                job["signal"] = 3 * n // nproc + 30
            jobs.append(job)
            i += 1
    return jobs


def c18(check):
    check.assumptions = [
        "the signal is received while a work is running (virtual schedules: "
        "at any call; real executions: in the middle of the computation)",
        f"real executions: no call starts more than {ec.SOON} s after the signal",
    ]
    if check.thorough:
        ce.model_check(check, n=2, caps="{1,2}", qm="{1,2}", win="{2}", mf=1, signal="TRUE")
        ce.model_check(check, n=3, caps="{1,2}", qm="{1,2}", win="{2}", mf=0, signal="TRUE")
        ce.model_check(check, n=3, caps="{1,2,3}", qm="{1,2}", win="{2,3}", mf=1, signal="TRUE", live="")
        nvirt, nreal = 4000, 6
    else:
        ce.model_check(check, n=2, caps="{1,2}", qm="{1}", win="{2}", mf=0, signal="TRUE")
        ce.model_check(check, n=2, caps="{1,2}", qm="{1}", win="{2}", mf=1, signal="TRUE", live="")
        nvirt, nreal = 600, 2
    jobs = signal_jobs(check.seed, nvirt) + real_signal_jobs(check.seed, nreal)
    records = ce.run(check, jobs, timeout=800)
    ce.conform(check, jobs, records, lambda c: c not in ec.CLAUSES_BOUND)
    # the process after the execution, successive executions in a process
    jobs = cj.make_jobs(check, 1200 if check.thorough else 90, 300 if check.thorough else 18, "p")
    cj.conform(check, jobs, lambda c: c in cj.CLAUSES_C18 or c in cj.CLAUSES_BOTH)


if __name__ == "__main__":
    vlib.main("C18", "model_checking", c18)
