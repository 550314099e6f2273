"""C15: false vectors (Fix, MCFix, FixTrace)"""

import random

import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NY = {ny}
 NX = {nx}
 Ds = {ds}
 Correls = {correls}
 CorrelMin = 3
 Maxs = {maxs}
 Thresholds = {thresholds}
INVARIANTS FlaggedInv KeptInv ChosenInv
"""


def model_check(check, **kw):
    res = vlib.run_tlc(
        "MCFix", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"MCFix: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"MCFix {kw}: {res.distinct} states")


def make_job(rng, i):
    passes = rng.choice([1, 1, 2])
    return {
        "id": f"f{i}",
        "seed": rng.randrange(2**30),
        "passes": passes,
        "nb": rng.choice([1, 2, 3]),
        "amp": rng.choice([2, 4, 6]),
        "base": [rng.randint(-2, 2), rng.randint(-2, 2)],
        "wild": rng.choice([0.1, 0.3, 1.0]) if passes == 1 else 0.15,
        "fail": rng.choice([0, 0.1, 0.3]) if passes == 1 else 0.05,
        "correl_min": rng.choice([0, 8, 16, 32] if passes == 1 else [0, 4]) / 64,
        "threshold": rng.choice([None, 0.75, 1.5, 2, 3.25, 10]),
        "max": rng.choice([None, None, 1.5, 3, 4.25, 6] if passes == 1 else [None, 7]),
        "strcrop": rng.choice([None, None, "3:, 1:-2"]),
        "shape": [rng.randint(20, 48), rng.randint(20, 48)],
    }


def to_cases(job, rec):
    if rec["failure"]:
        return [{"id": job["id"], "failure": rec["failure"]}]
    return [{"id": f"{job['id']}/{k}", **r} for k, r in enumerate(rec["recs"])]


def c15(check):
    check.assumptions = [
        "the correlation is replaced by a class registered in correlation_classes",
        "displacements, correlations and parameters which are multiples of powers of 1/2",
        "grids with at least 2 x 2 vectors",
    ]
    if check.thorough:
        model_check(check, ny=2, nx=2, ds="{0, 3, 7}", correls="{1, 4, 8}", maxs="{5, 9}", thresholds="{2, 5}")
        model_check(check, ny=2, nx=3, ds="{0, 4}", correls="{1, 4, 8}", maxs="{5, 3}", thresholds="{1, 3}")
        njobs = 12000
    else:
        model_check(check, ny=2, nx=2, ds="{0, 3, 7}", correls="{1, 4}", maxs="{5, 9}", thresholds="{2, 5}")
        njobs = 800
    jobs = [make_job(random.Random(f"fix{check.seed}-{i}"), i) for i in range(njobs)]
    byid = {job["id"]: job for job in jobs}
    records = {}
    for rc, recs, err, part in vlib.run_driver("drv_fix.py", jobs, check.scratch, timeout=700):
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_fix.py failed ({rc}) {err}")
    cases = [c for i, rec in records.items() for c in to_cases(byid[i], rec)]
    check.add("vectors", sum(len(c.get("dx", [])) for c in cases))
    check.add("replaced", sum(len(c.get("replaced", [])) for c in cases))
    check.add("flagged", sum(len(c.get("wrong", [])) for c in cases))
    verdicts, n, states = vlib.validate("FixTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    bycase = {c["id"]: c for c in cases}
    for idc, clause, _ in verdicts:
        case = bycase[idc]
        job = byid[idc.split("/")[0]]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                **{k: job[k] for k in ("threshold", "max", "nb", "passes", "correl_min")},
                "failure": case["failure"],
                "id": idc,
            },
            {"job": job, "case": case},
        )


if __name__ == "__main__":
    vlib.main("C15", "model_checking", c15)
