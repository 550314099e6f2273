"""C16: saved PIV results (SavedResults, MCSaved, SavedTrace)"""

import random

import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NbPasses = {passes}
 NbResults = {results}
 MaxObjects = {objects}
 Paths = {paths}
INVARIANTS DescendsInv LastInv RoundTripInv
"""


def model_check(check, **kw):
    res = vlib.run_tlc(
        "MCSaved", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"MCSaved: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"MCSaved {kw}: {res.distinct} states")


def make_job(rng, i):
    real = rng.random() < 0.3
    return {
        "id": f"h{i}",
        "seed": rng.randrange(2**30),
        "nb": rng.choice([8, 14]),
        "real": real,
        "couple": rng.choice(["arrays", "serie", "serie", "bos"]),
        "strcrop": rng.choice([None, None, "3:, 1:-2", ":60, 4:"]),
        "shape": [rng.randint(60, 80), rng.randint(60, 80)] if real else [64, 66],
        "passes": rng.choice([1, 2, 2, 3, 11]),
        "tps": rng.choice([False, False, True, "last"]),
    }


def c16(check):
    check.assumptions = [
        "contents compared with the precision of the files (single precision)",
        "correlation maps, secondary peaks and input displacements are not saved",
        "most of the results have random contents, the others are computed from small images",
    ]
    if check.thorough:
        model_check(check, passes=3, results=2, objects=4, paths='{"p", "q"}')
        njobs = 6000
    else:
        model_check(check, passes=2, results=2, objects=3, paths='{"p", "q"}')
        njobs = 500
    jobs = [make_job(random.Random(f"saved{check.seed}-{i}"), i) for i in range(njobs)]
    byid = {job["id"]: job for job in jobs}
    cases = []
    for rc, recs, err, part in vlib.run_driver("drv_saved.py", jobs, check.scratch, timeout=700):
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_saved.py failed ({rc}) {err}")
        for rec in recs:
            if rec["failure"]:
                check.violation(rec["failure"], {"clause": rec["failure"]}, {"job": byid[rec["id"]], "rec": rec})
            elif rec["steps"]:
                cases.append({"id": rec["id"], "steps": rec["steps"]})
    counts = {}
    for case in cases:
        for step in case["steps"]:
            counts[step["op"]] = counts.get(step["op"], 0) + 1
    check.add("operations", sum(counts.values()))
    check.log(f"operations {counts}")
    verdicts, n, states = vlib.validate("SavedTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    bycase = {c["id"]: c for c in cases}
    for idc, clause, l in verdicts:
        case = bycase[idc]
        step = case["steps"][int(l) - 1]
        check.violation(
            f"clause {clause} of {step['op']}",
            {
                "clause": clause,
                **{k: step[k] for k in ("op", "which", "ipass", "failure")},
                **{k: byid[idc][k] for k in ("couple", "real", "strcrop", "passes", "tps")},
                "id": idc,
            },
            {"job": byid[idc], "step": int(l), "case": case},
        )


if __name__ == "__main__":
    vlib.main("C16", "model_checking", c16)
