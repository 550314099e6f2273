"""C07: choice and use of the result directory (ResultDir, ResultDirTrace)"""

import re
import sys

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, rng_of
from topo_names import elements, tla_cfg

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Bases = {{{bases}}}
 N = {n}
 MaxIndex = {mi}
 MaxLen = {m}
 Record = {record}
INVARIANTS PrintHist
PROPERTIES NewDirIsNew OthersUntouched OneDirectory StopDoesNothing NothingDestroyed NothingRemoved
"""


def tlc(check, **kw):
    res = vlib.run_tlc(
        "ResultDir", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="6g"
    )
    if not res.ok:
        raise vlib.MachineryError(f"ResultDir: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    return res


def histories(check, length):
    res = tlc(check, bases='"p", "p0"', n=1, mi=1, m=length, record="TRUE")
    hists = set()
    for m in re.finditer(r'<<\s*"HIST",(.*?)>>\s*>>\s*>>', res.out, re.S):
        ops = re.findall(r'<<"(\w+)",\s*"(\w*)",\s*"(\w*)",\s*"(\w*)"', m.group(0))
        hists.add(tuple(ops))
    hists = sorted(h for h in hists if len(h) == length)
    if not hists:
        raise vlib.MachineryError("no history " + res.out[-2000:])
    check.log(f"{len(hists)} histories of length {length} in the specification")
    return hists


FOREIGN = [[], ["notes.md"], ["sub/keep.txt", "notes.md"], [".hidden", "old/result.txt"]]
INVALID = ["", "x", "yes", "new", "0", " "]


def answers_for(rng, answer):
    out = [rng.choice(INVALID) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    return out + [answer.upper() if rng.random() < 0.3 else answer]


def pick_executor(rng, multi):
    if not multi:
        return rng.choice(["exec_sequential"] * 3 + ["exec_async", "exec_async_sequential"])
    return rng.choice(
        ["multi_exec_async", "multi_exec_subproc", "multi_exec_subproc", "exec_async_servers"]
    )


def make_jobs(check, hists, n, nmulti):
    kinds = ["im2im", "piv", "pre", "im2im", "bos"]
    jobs = []
    nsurf = n // 10
    for i in range(n + nsurf):
        rng = rng_of("c07", check.seed, i)
        kind = kinds[i % len(kinds)] if i < n else "surf"
        cfg = make_cfg(rng, kind, nmax=3, **({"window": 1} if kind == "pre" else {}))
        if kind in ("piv", "bos"):
            cfg.update(passes=1, method="np.fft")
        cfg["slash"] = rng.random() < 0.15
        postfix = rng.choice([kind, kind, "post.v1", "my_results"])
        if rng.random() < 0.2:
            names = {"p": "out", "p0": "out0", "p00": "out00", "p1": "out1", "p01": "out01"}
            explicit = "both"
        else:
            base = "Images." + postfix
            names = {k: base + k[1:] for k in ("p", "p0", "p1", "p00", "p01")}
            explicit = rng.choice(["no", "no", "second", "both"])
        ne = len(elements(cfg))
        steps = []
        # the last operation is always a computation
        hist = list(rng.choice(hists))
        if hist[-1][0] != "compute":
            hist.append(
                (
                    "compute",
                    rng.choice(["p", "p", "p0"]),
                    rng.choice(["new_dir", "new_dir", "complete", "recompute"]),
                    "",
                )
            )
        ranks = [j for j, op in enumerate(hist) if op[0] == "compute"]
        rank_multi = rng.choice(ranks) if i < nmulti else -1
        for j, (op, base, how, answer) in enumerate(hist):
            name = names[base]
            if op in ("mkdir", "rmdir"):
                if op == "mkdir" and rng.random() < 0.2 and base not in ("p", "p0"):
                    steps.append({"op": "mkfile", "dir": name})
                else:
                    steps.append({"op": op, "dir": name, "files": rng.choice(FOREIGN)})
                continue
            executor = pick_executor(rng, j == rank_multi)
            step = {
                "op": "run",
                "hop": "compute" if op == "compute" else "killed",
                "base": name,
                "how": how,
                "executor": executor,
                "nb": 2,
                "seed": tcm.virt_seed(rng, executor),
                "answers": answers_for(rng, answer) if how == "ask" else [],
                "timeout": 100,
            }
            if explicit == "both" or (explicit == "second" and base == "p0"):
                step["path"] = name
                step["path_as"] = rng.choice(["str", "Path"])
            else:
                step["cfg"] = {"postfix": name[len("Images.") :]}
            if op == "interrupted":
                step["crash"] = min(int(answer), ne) if int(answer) else 0
                step["seed"] = -1
            steps.append(step)
        jobs.append(
            {"id": f"d{i}", "cfg": cfg, "steps": steps, "oracle": True, "extra": "describe_dirs"}
        )
    return jobs


def to_case(job, rec):
    cfg = job["cfg"]
    steps = []
    for step, srec in zip(job["steps"], rec["steps"]):
        steps.append(
            {
                "op": step.get("hop", step["op"]),
                "base": step.get("base", ""),
                "how": step.get("how", ""),
                "answers": step.get("answers", []),
                "executor": step.get("executor", ""),
                "stop": srec.get("stop", ""),
                "raised": srec.get("raised", ""),
                "dir": srec.get("dir", ""),
                "dirs": srec["extra"],
            }
        )
    return {
        "id": job["id"],
        "kind": cfg["kind"],
        "cfg": tla_cfg(cfg),
        "oracle": [o[:3] for o in rec["oracle"]],
        "images_untouched": rec["images_untouched"],
        "steps": steps,
    }


def c07(check):
    check.assumptions = [
        "the answers of the user are given through input() or fluiddyn.io.query.query",
        "no other process creates directories at the same time",
    ]
    tlc(
        check,
        bases='"p", "p0"',
        n=2 if check.thorough else 1,
        mi=2,
        m=5 if check.thorough else 4,
        record="FALSE",
    )
    hists = histories(check, 4 if check.thorough else 3)
    n, nmulti = (2500, 500) if check.thorough else (320, 48)
    jobs = make_jobs(check, hists, n, nmulti)
    byid = {job["id"]: job for job in jobs}
    records = tcm.run_jobs(check, jobs)
    check.log(f"{len(records)} histories run")
    cases = {i: to_case(byid[i], rec) for i, rec in records.items()}
    verdicts, nb, states = vlib.validate("ResultDirTrace", cases.values(), check.scratch)
    check.add("traces_validated_against_impl", nb)
    check.add("steps", sum(len(c["steps"]) for c in cases.values()))
    check.add("states", states)
    check.add("transitions", states)
    check.sample(next(iter(cases.values())))
    for idc, clause, num in verdicts:
        job = byid[idc]
        num = int(num)
        step = cases[idc]["steps"][num - 1] if num else {}
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["cfg"]["kind"],
                "how": step.get("how", ""),
                "executor": step.get("executor", ""),
                "id": idc,
            },
            {"job": job, "step": num, "case": cases[idc], "record": records[idc]},
        )


if __name__ == "__main__":
    vlib.main(sys.argv[1], "model_checking", {"C07": c07}[sys.argv[1]])
