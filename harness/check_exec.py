"""C01, C02, C03: executors on synthetic topologies (ExecAsync / ExecAbs / ExecTrace)"""

import sys
import time

import exec_common as ec
import vlib

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 Topos <- AllTopos
 RecheckCap = TRUE
 Bypass = TRUE
 CountWorking = TRUE
 TestFlag = TRUE
 WithSignal = {signal}
 NItems = {n}
 Caps = {caps}
 QMaxs = {qm}
 Windows = {win}
 MaxFails = {mf}
INVARIANTS CapOK QueueBound StopOnlyWhenDone NothingTakenLost OnlyExpectedCalls
PROPERTY Refines {live}
"""


def model_check(check, **kw):
    kw.setdefault("live", "Terminates")
    kw.setdefault("signal", "FALSE")
    res = vlib.run_tlc(
        "MCExecAsync",
        MC_CFG.format(**kw),
        check.scratch,
        workers=vlib.NCPU,
        timeout=840,
        extra=["-coverage", "1"],
        heap="8g",
    )
    if not res.ok:
        raise vlib.MachineryError(
            f"the specification ExecAsync breaks {res.violated}\n{res.out[-3000:]}"
        )
    never = res.coverage_zero() - {"Raise", "ReceiveSignal"}
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"ExecAsync {kw}: {res.distinct} states, never taken: {sorted(never)}")


def run(check, jobs, timeout=600, env=None):
    """Run the jobs; returns records by id"""
    records = {}
    for rc, recs, err, part in vlib.run_driver(
        "drv_exec.py", jobs, check.scratch, timeout=timeout, env=env
    ):
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 and len(recs) < len(part):
            # the job after the last recorded one killed or blocked the process
            job = part[len(recs)]
            check.violation(
                "executor-process-died-or-blocked",
                {"executor": job["executor"], "rc": rc},
                {"job": job, "stderr": err},
            )
    return records


def conform(check, jobs, records, clauses):
    byid = {job["id"]: job for job in jobs}
    cases = [ec.to_case(byid[i], rec) for i, rec in records.items()]
    verdicts, n, states = vlib.validate("ExecTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("events_validated", sum(len(c["events"]) for c in cases))
    check.add("states", states)
    check.add("transitions", states)
    other = 0
    for idc, clause, pos in verdicts:
        if not clauses(clause):
            other += 1
            continue
        job = byid[idc]
        check.violation(
            f"clause {clause}",
            {"clause": clause, "executor": job["executor"], "id": idc},
            {"job": job, "event": pos, "record": records[idc]},
        )
    if other:
        check.log(f"{other} verdicts about other properties")
    for case in cases[:2]:
        check.sample(
            {"job": byid[case["id"]], "first events": case["events"][:6], "fin": case["fin"]}
        )
    return cases


REAL = [
    "exec_async",
    "exec_async_sequential",
    "exec_async_multi",
    "exec_async_servers",
    "exec_async_servers_threading",
    "multi_exec_async",
    "multi_exec_sync",
    "exec_sequential",
]


def real_jobs(seed, fails, per_executor):
    jobs = []
    i = 0
    for executor in REAL:
        servers = "servers" in executor or executor == "exec_async_multi"
        for k in range(per_executor * (3 if servers else 1)):
            job = ec.scenario(i, f"real{seed}", fails=fails, mode="real", executor=executor)
            if executor.startswith("multi_exec"):
                job["workers"] = 1 + i % 3
            if servers:
                job["workers"] = 2
                if k % 3:
                    # communications slower than the works
                    job["slow_pipes"] = k
                    job["topology"]["busy"] = {}
            job["timeout"] = 90
            jobs.append(job)
            i += 1
    return jobs


def c01(check):
    check.assumptions = [
        "the functions of the works are called by the executor with the trio "
        "thread API or directly; schedules are explored with the virtual clock "
        "and the seeded batch order of trio",
        "specification constants: 3 items, windows 2 and 3, caps and queue limits 1..2",
    ]
    if check.thorough:
        model_check(check, n=3, caps="{1,2,3}", qm="{1,2,3}", win="{2,3}", mf=1)
        model_check(check, n=4, caps="{1,2}", qm="{1,2}", win="{2,4}", mf=0)
        nvirt, nreal = 6000, 8
    else:
        model_check(check, n=3, caps="{1,2}", qm="{1,2}", win="{2,3}", mf=0)
        nvirt, nreal = 900, 1
    jobs = [ec.scenario(i, check.seed) for i in range(nvirt)]
    jobs += real_jobs(check.seed, 0, nreal)
    records = run(check, jobs, timeout=800)
    conform(check, jobs, records, lambda c: c not in ec.CLAUSES_BOUND)


def c02(check):
    check.assumptions = ["failures are exceptions raised by the functions of the works"]
    if check.thorough:
        model_check(check, n=3, caps="{1,2}", qm="{1,2}", win="{2,3}", mf=2)
        nvirt, nreal = 6000, 6
    else:
        model_check(check, n=2, caps="{1,2}", qm="{1,2}", win="{2}", mf=2)
        nvirt, nreal = 800, 1
    jobs = []
    for i in range(nvirt):
        stop = i % 5 == 4
        job = ec.scenario(i, f"f{check.seed}", fails=1 if i % 3 == 0 else 6, stop_if_error=stop)
        if stop and job["executor"] == "exec_async_seq_for_multi":
            job["executor"] = "exec_async"
        jobs.append(job)
    jobs += real_jobs(f"f{check.seed}", 3, nreal)
    records = run(check, jobs, timeout=800)
    conform(check, jobs, records, lambda c: c not in ec.CLAUSES_BOUND)


def c03(check):
    check.assumptions = [
        "the bound on a queue is the limit plus the number of workers (works "
        "launched before the limit was reached)",
    ]
    if check.thorough:
        model_check(check, n=4, caps="{1,2,3}", qm="{1,2}", win="{2}", mf=0, live="")
        nvirt = 8000
    else:
        model_check(check, n=3, caps="{1,2}", qm="{1,2}", win="{2}", mf=1, live="")
        nvirt = 1000
    jobs = []
    for i in range(nvirt):
        executor = ["exec_async", "exec_async", "exec_async_sequential", "exec_async_seq_for_multi"][i % 4]
        job = ec.scenario(i, f"b{check.seed}", fails=i % 2, executor=executor)
        # competition for the workers
        if executor == "exec_async":
            job["workers"] = [1, 2, 3][i % 3]
        jobs.append(job)
    records = run(check, jobs, timeout=800)
    conform(check, jobs, records, lambda c: c in ec.CLAUSES_BOUND)


if __name__ == "__main__":
    prop = sys.argv[1]
    vlib.main(prop, "model_checking", {"C01": c01, "C02": c02, "C03": c03}[prop])
