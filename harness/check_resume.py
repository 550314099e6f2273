"""C06: interrupted computations and mode "complete" (Resume, ResumeTrace)"""

import re
import subprocess
import sys

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, rng_of
from topo_names import elements, tla_cfg

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = {n}
 MaxLen = {m}
 Record = {record}
INVARIANTS TypeOK PrintHist
PROPERTIES CompleteTouchesNothing CompleteComputesMissing NothingMissingNothingDone RecomputeAll ForeignUntouched
"""


def tlc(check, **kw):
    res = vlib.run_tlc("Resume", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="6g")
    if not res.ok:
        raise vlib.MachineryError(f"Resume: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    return res


def histories(check, n, length):
    """The histories of the specification"""
    res = tlc(check, n=n, m=length, record="TRUE")
    hists = set()
    for m in re.finditer(r'<<\s*"HIST",(.*?)>>\s*>>\s*>>', res.out, re.S):
        ops = re.findall(r'<<"(\w+)",\s*"(\w*)",\s*"(\d+)"', m.group(0))
        hists.add(tuple(ops))
    hists = sorted(h for h in hists if len(h) == length)
    if not hists:
        raise vlib.MachineryError("no history " + res.out[-2000:])
    check.log(f"{len(hists)} histories of length {length} in the specification")
    return hists


def build_killio(check):
    path = check.scratch / "killio.so"
    subprocess.run(
        ["gcc", "-O1", "-shared", "-fPIC", "-o", str(path), str(vlib.HARNESS / "native/killio.c"), "-ldl"],
        check=True,
    )
    return path


def pick_executor(rng, op, multi):
    one = list(tcm.ONE_PROCESS)
    if not multi:
        return rng.choice(one)
    many = ["multi_exec_async"] * 3 + ["multi_exec_sync"]
    if op in ("run", "killio"):
        many += ["multi_exec_subproc"]
    if op == "run":
        many += ["exec_async_servers", "multi_exec_subproc_sync"]
    return rng.choice(many)


def make_jobs(check, hists, n, nmulti):
    kinds = ["piv", "bos", "pre", "im2im"]
    jobs = []
    # the multi executors refuse the topology for surface tracking
    nsurf = n // 8
    for i in range(n + nsurf):
        rng = rng_of("c06", check.seed, i)
        kind = kinds[i % 4] if i < n else "surf"
        cfg = make_cfg(rng, kind, nmax=rng.choice([3, 5]), **({"window": 1} if kind == "pre" else {}))
        if kind in ("piv", "bos"):
            cfg["passes"] = 1
            cfg["method"] = "np.fft"
        ne = len(elements(cfg))
        steps = []
        hist = list(rng.choice(hists)) + [("run", "complete", "0")]
        rank_multi = rng.randrange(len(hist)) if i < nmulti else -1
        for j, (op, how, k) in enumerate(hist):
            k = int(k)
            if op in ("delete", "rename"):
                steps.append(
                    {"op": "delete", "hop": op, "foreign": op == "rename", "ranks": rng.sample(range(max(ne, k)), min(k, ne) or 1)}
                )
                continue
            executor = pick_executor(rng, op, j == rank_multi)
            step = {
                "op": "run",
                "hop": op,
                "executor": executor,
                "nb": rng.choice([1, 2, 3]) if "servers" not in executor else 2,
                "how": how,
                "seed": tcm.virt_seed(rng, executor),
                "timeout": 100,
            }
            if op == "kill":
                step["crash"] = k
            elif op == "killio":
                # inside of the saving of the (k+1)-th result
                step["killio"] = 1 + k * 9 + rng.randrange(9)
                step["seed"] = -1
            elif op == "signal":
                step["signal"] = rng.randint(1, 2 + 4 * ne)
            steps.append(step)
        jobs.append({"id": f"h{i}", "cfg": cfg, "steps": steps, "oracle": True})
    return jobs


def to_case(job, rec):
    cfg = job["cfg"]
    steps = []
    locks = 0
    for step, srec in zip(job["steps"], rec["steps"]):
        _, res = tcm.result_dir(srec, cfg)
        steps.append(
            {
                "op": step.get("hop", step["op"]),
                "how": step.get("how", ""),
                "executor": step.get("executor", ""),
                "stop": srec.get("stop", ""),
                "nexp": srec.get("nexp", -1),
                "files": res["files"],
                "rewritten": res["rewritten"],
                "reported": srec.get("reported", []),
                "deleted": srec.get("deleted", []),
                "foreign_ok": res.get("foreign_ok", True),
                "locks": res["locks"],
                "locks_before": locks,
            }
        )
        locks = res["locks"]
    return {
        "id": job["id"],
        "kind": cfg["kind"],
        "cfg": tla_cfg(cfg),
        "oracle": [o[:3] for o in rec["oracle"]],
        "images_untouched": rec["images_untouched"],
        "steps": steps,
    }


def c06(check):
    check.assumptions = [
        "a crash is a SIGKILL of all the processes after the k-th result or at the k-th "
        "system call modifying the results (writes are not lost by the file system)",
        "subsets of one image for the preprocessing",
    ]
    tlc(check, n=4 if check.thorough else 3, m=5 if check.thorough else 4, record="FALSE")
    hists = histories(check, 3, 3)
    if check.thorough:
        hists += histories(check, 2, 4)
        n, nmulti = 1500, 400
    else:
        n, nmulti = 200, 60
    jobs = make_jobs(check, hists, n, nmulti)
    byid = {job["id"]: job for job in jobs}
    path = build_killio(check)
    records = tcm.run_jobs(check, jobs, env=vlib.base_env(VERIF_KILLIO=path))
    check.log(f"{len(records)} histories run")
    cases = [to_case(byid[i], rec) for i, rec in records.items()]
    steps = [s for c in cases for s in c["steps"]]
    check.add("died", sum(s["stop"] == "died" for s in steps))
    check.add("died_killio", sum(s["stop"] == "died" and s["op"] == "killio" for s in steps))
    verdicts, nb, states = vlib.validate("ResumeTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", nb)
    check.add("steps", len(steps))
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    bycase = {c["id"]: c for c in cases}
    for idc, clause, num in verdicts:
        job = byid[idc]
        num = int(num)
        step = bycase[idc]["steps"][num - 1] if num else {}
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["cfg"]["kind"],
                "op": step.get("op", ""),
                "how": step.get("how", ""),
                "executor": step.get("executor", ""),
                "id": idc,
            },
            {"job": job, "step": num, "case": bycase[idc], "record": records[idc]},
        )


if __name__ == "__main__":
    vlib.main(sys.argv[1], "model_checking", {"C06": c06}[sys.argv[1]])
