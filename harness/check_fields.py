"""C17: operations of vector fields (VectorFields, MCFields, FieldsTrace)"""

import random

import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxFields = {fields}
 MaxArrays = {arrays}
 Sizes = {sizes}
 Kinds = {kinds}
INVARIANTS ShapesInv OrientedInv LawsInv ExtractInv DerivativeInv SpectrumInv MedianInv ArraysInv
PROPERTY NotModified
"""


def model_check(check, **kw):
    res = vlib.run_tlc(
        "MCFields", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"MCFields: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"MCFields {kw}: {res.distinct} states")


def make_job(rng, i):
    return {
        "id": f"h{i}",
        "seed": rng.randrange(2**30),
        "nb": rng.choice([6, 12, 20]),
        "size": rng.choice([[4, 4], [2, 4], [4, 2], [5, 3], [3, 5], [6, 4], [4, 6], [5, 5], [3, 3]]),
    }


def c17(check):
    check.assumptions = [
        "dyadic numbers with few bits, so that the operations on floats are exact",
        "two-dimensional fields with at least 2 lines and 2 columns",
        "gaussian filters only of constant components or with a window of one point",
        "metadata of the results of the binary operations not considered",
    ]
    if check.thorough:
        model_check(check, fields=3, arrays=1, sizes="{23, 42}", kinds='{"a", "b", "c"}')
        njobs = 20000
    else:
        model_check(check, fields=2, arrays=1, sizes="{34}", kinds='{"a", "b"}')
        njobs = 3000
    jobs = [make_job(random.Random(f"fields{check.seed}-{i}"), i) for i in range(njobs)]
    byid = {job["id"]: job for job in jobs}
    cases = []
    for rc, recs, err, part in vlib.run_driver("drv_fields.py", jobs, check.scratch, timeout=700):
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_fields.py failed ({rc}) {err}")
        for rec in recs:
            if rec["failure"]:
                check.violation(rec["failure"], {"clause": rec["failure"]}, {"job": byid[rec["id"]], "rec": rec})
            elif rec["steps"]:
                cases.append({"id": rec["id"], "steps": rec["steps"]})
    counts = {}
    for case in cases:
        for step in case["steps"]:
            counts[step["op"]] = counts.get(step["op"], 0) + 1
    check.add("operations", sum(counts.values()))
    check.log(f"operations {counts}")
    verdicts, n, states = vlib.validate("FieldsTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    bycase = {c["id"]: c for c in cases}
    for idc, clause, l in verdicts:
        case = bycase[idc]
        step = case["steps"][int(l) - 1]
        check.violation(
            f"clause {clause} of {step['op']}",
            {
                "clause": clause,
                **{k: step[k] for k in ("op", "which", "ints", "failure")},
                "id": idc,
            },
            {"job": byid[idc], "step": int(l), "case": case},
        )


if __name__ == "__main__":
    vlib.main("C17", "model_checking", c17)
