"""C12: couples and subsets of images (Couples, CouplesTrace)"""

import sys

import topo_common as tcm
import vlib
from topo_cfgs import make_cfg, rng_of
from topo_names import elements, image_names, tla_cfg

MC_CFG = """SPECIFICATION MCSpec
CONSTANTS
 NImages = {n}
 MaxElems = {e}
 MaxLen = {m}
CHECK_DEADLOCK FALSE
INVARIANTS ReadOnce DroppedWhenUnneeded NothingLost OnlyGood BlockedIsFinished
PROPERTIES Terminates
"""

EXECUTORS = ["exec_async"] * 5 + ["exec_async_sequential"] * 2 + ["exec_sequential"]


def make_jobs(check, n):
    jobs = []
    for i in range(n):
        rng = rng_of("c12", check.seed, i)
        kind = "pre" if i % 3 == 2 else "piv"
        kw = {}
        if kind == "pre":
            kw = {"window": rng.choice([1, 2, 3, 3]), "overlap": rng.random() < 0.6}
        cfg = make_cfg(rng, kind, nmax=rng.choice([3, 6, 10, 14]), **kw)
        cfg["content"] = "const"
        cfg["shape"] = [6, 7]
        cfg["im2im"] = rng.choice(["", "", "func", "cls"])
        cfg.pop("format", None)
        needed = sorted({name for e in elements(cfg) for name in e})
        fail_read = fail_im2im = []
        cfg["unreadable"] = []
        if rng.random() < 0.2 and len(needed) > 1:
            # not the first one, which can be read to get the type of the images
            cfg["unreadable"] = rng.sample(needed[1:], 1)
        elif rng.random() < 0.5:
            fail_read = rng.sample(needed, min(len(needed), rng.choice([1, 1, 2, 3])))
        if cfg["im2im"] and rng.random() < 0.5:
            rest = [n for n in needed if n not in fail_read + cfg["unreadable"]]
            fail_im2im = rng.sample(rest, min(len(rest), rng.choice([1, 1, 2])))
        executor = rng.choice(EXECUTORS)
        steps = [
            {
                "op": "run",
                "executor": executor,
                "nb": rng.choice([1, 2, 3, 5]),
                "how": "recompute",
                "seed": tcm.virt_seed(rng, executor),
                "timeout": 60,
                "couples": {"fail_read": fail_read, "fail_im2im": fail_im2im},
            }
        ]
        jobs.append({"id": f"c{i}", "cfg": cfg, "steps": steps})
    return jobs


def to_case(job, rec):
    cfg = job["cfg"]
    srec = rec["steps"][0]
    _, res = tcm.result_dir(srec, cfg)
    fail = job["steps"][0]["couples"]
    return {
        "id": job["id"],
        "cfg": tla_cfg(cfg),
        "im2im": cfg["im2im"],
        "names": [name for _, name in image_names(cfg)],
        "bad": sorted(fail["fail_read"] + fail["fail_im2im"] + cfg["unreadable"]),
        "stop": srec["stop"],
        "exceptions": res["exceptions"],
        "events": srec.get("events", []),
    }


def c12(check):
    check.assumptions = [
        "images of constant value, identified by this value; the computations are "
        "replaced by a function recording its argument",
    ]
    domains = [(3, 2, 3), (4, 2, 2)]
    if check.thorough:
        domains += [(4, 3, 2), (3, 3, 2), (4, 2, 4)]
    for n, e, m in domains:
        res = vlib.run_tlc(
            "MCCouples", MC_CFG.format(n=n, e=e, m=m), check.scratch, workers=vlib.NCPU, heap="6g"
        )
        if not res.ok:
            raise vlib.MachineryError(f"MCCouples: {res.violated}\n{res.out[-2000:]}")
        check.add("states", res.distinct)
        check.add("transitions", res.generated)
    jobs = make_jobs(check, 3000 if check.thorough else 400)
    byid = {job["id"]: job for job in jobs}
    records = tcm.run_jobs(check, jobs)
    check.log(f"{len(records)} executions")
    cases = {i: to_case(byid[i], rec) for i, rec in records.items()}
    verdicts, nb, states = vlib.validate(
        "CouplesTrace",
        cases.values(),
        check.scratch,
        cfg="SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Post\n",
    )
    check.add("traces_validated_against_impl", nb)
    check.add("events", sum(len(c["events"]) for c in cases.values()))
    check.add("states", states)
    check.add("transitions", states)
    for case in list(cases.values())[:2]:
        check.sample(case)
    for idc, clause, num in verdicts:
        job = byid[idc]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["cfg"]["kind"],
                "executor": job["steps"][0]["executor"],
                "id": idc,
            },
            {"job": job, "event": num, "case": cases[idc], "record": records[idc]},
        )


if __name__ == "__main__":
    vlib.main(sys.argv[1], "model_checking", {"C12": c12}[sys.argv[1]])
