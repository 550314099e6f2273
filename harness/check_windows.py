"""C13: positions of the vectors and of the windows of PIV computations
(Windows, MCWindows, WindowsTrace)"""

import random

import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = {n}
 MaxSize = {size}
 MaxD = {d}
 Nums = {nums}
 Dens = {dens}
INVARIANTS GridInv CentresInv
"""
NONE = -99999


def model_check(check, **kw):
    res = vlib.run_tlc(
        "MCWindows", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"MCWindows: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"MCWindows {kw}: {res.distinct} states")


def step(s, ov):
    # only used to choose the sizes of the images
    return s - round(ov[0] * s / ov[1])


def grid_len(n, s, ov):
    return (n - s) // step(s, ov) + 1


def random_slice(rng, length):
    """Slice keeping length pixels, and the size of the image"""
    before, after = rng.randint(0, 9), rng.randint(0, 9)
    n = before + length + after
    start = before if rng.random() < 0.6 else before - n
    stop = before + length if rng.random() < 0.6 or after == 0 else -after
    if before == 0 and rng.random() < 0.7:
        start = None
    if after == 0 and rng.random() < 0.7:
        stop = None
    return [start, stop], n


def make_job(rng, i):
    while True:
        zooms = [rng.choice([2, 2, 3, 1]) for _ in range(rng.choice([0, 1, 1, 2]))]
        prod = 1
        for z in zooms:
            prod *= z
        size0 = [rng.randint(2 * prod, max(2 * prod, 18)) for _ in range(2)]
        if rng.random() < 0.5:
            size0[1] = size0[0]
        ov = rng.choice([[1, 2], [0, 1], [3, 4], [1, 3], [1, 5], [-1, 2], [2, 3]])
        shapes = [[s // div for s in size0] for div in products(zooms)]
        if any(step(s, ov) < 1 for shape in shapes for s in shape):
            continue
        if len({tuple(s) for s in shapes}) < len(shapes):
            # the passes are distinguished with the shapes
            continue
        lens = [
            s + step(s, ov) * rng.randint(1, 4) + rng.randint(0, step(s, ov)) for s in size0
        ]
        nvec = sum(
            grid_len(lens[0], sh[0], ov) * grid_len(lens[1], sh[1], ov) for sh in shapes
        )
        if nvec > 900 or max(lens) > 110:
            continue
        break
    size1 = None
    if rng.random() < 0.3:
        size1 = [rng.randint(max(1, prod), s) for s in size0]
    crop, shape = [[None, None], [None, None]], lens
    if rng.random() < 0.5:
        crop, shape = [], []
        for n in lens:
            sl, m = random_slice(rng, n)
            crop.append(sl)
            shape.append(m)
    runs = []
    thick = all(grid_len(n, s, ov) >= 3 for n, s in zip(lens, size0))
    for _ in range(rng.choice([1, 1, 2])):
        mode = rng.choice(["uniform", "uniform", "linear", "random"])
        run = {
            "mode": mode,
            "seed": rng.randrange(2**30),
            "fail": rng.choice([0.0, 0.1]) if thick and mode != "linear" else 0.0,
            "dtype": rng.choice(["uint16", "float32", "int64"]),
            "mask_given": rng.random() < 0.3,
        }
        if mode == "uniform":
            m = max(3, min(lens) // 3)
            run["d"] = [[rng.randint(-m, m), rng.randint(-m, m)]] + [
                [rng.randint(-3, 3), rng.randint(-3, 3)] for _ in zooms
            ]
        elif mode == "linear":
            run["ab"] = rng.choice([[1, 0], [0, 1], [1, 1], [-1, 2], [2, 0], [0, -2], [1, -1]])
        run["max"] = rng.choice([3, max(size0) // 2, max(3, min(lens) // 2)])
        runs.append(run)
    return {
        "id": f"w{i}",
        "shape": shape,
        "crop": crop,
        "size0": size0,
        "size1": size1,
        "shapes0": shapes,
        "zooms": zooms,
        "ov": ov,
        "use_tps": rng.choice([False, False, "last", True]) if all(r["mode"] == "uniform" and not r["fail"] for r in runs) else False,
        "runs": runs,
    }


def products(zooms):
    out = [1]
    for z in zooms:
        out.append(out[-1] * z)
    return out


def to_cases(job, rec):
    cases = []
    for k, (run, passes) in enumerate(zip(job["runs"], rec["runs"])):
        for p in passes:
            i = p["pass"]
            d8 = dlast8 = [0, 0]
            if run["mode"] == "uniform":
                # displacements found by the previous passes
                d8 = [8 * sum(d[j] for d in run["d"][:i]) for j in range(2)]
                dlast8 = [8 * sum(d[j] for d in run["d"][: i + 1]) for j in range(2)]
            cases.append(
                {
                    "id": f"{job['id']}/{k}/{i}",
                    "shape": job["shape"],
                    "crop": [[NONE if v is None else v for v in sl] for sl in job["crop"]],
                    "size0": job["size0"],
                    "size1": job["size1"] or job["size0"],
                    "zooms": job["zooms"],
                    "ov": job["ov"],
                    "mode": run["mode"],
                    "d8": d8,
                    "dlast8": dlast8,
                    "ab": run.get("ab", [0, 0]),
                    **p,
                }
            )
    return cases


def c13(check):
    check.assumptions = [
        "the correlation is replaced by a class registered in correlation_classes",
        "displacements smaller than the images; slices of the mask without step",
        "at least 2 x 2 vectors (the interpolation needs more than one line of vectors)",
    ]
    if check.thorough:
        model_check(check, n=40, size=12, d=30, nums="{0,1,2,3,9}", dens="{1,2,3,4,5,10}")
        njobs = 6000
    else:
        model_check(check, n=20, size=8, d=14, nums="{0,1,2,3}", dens="{1,2,3,4}")
        njobs = 500
    jobs = [make_job(random.Random(f"win{check.seed}-{i}"), i) for i in range(njobs)]
    byid = {job["id"]: job for job in jobs}
    records = {}
    for rc, recs, err, part in vlib.run_driver("drv_windows.py", jobs, check.scratch, timeout=700):
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_windows.py failed ({rc}) {err}")
    cases = [c for i, rec in records.items() for c in to_cases(byid[i], rec)]
    check.add("vectors", sum(len(c["vecs"]) for c in cases))
    verdicts, n, states = vlib.validate("WindowsTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample({**cases[0], "vecs": cases[0]["vecs"][:3]})
    bycase = {c["id"]: c for c in cases}
    for idc, clause, _ in verdicts:
        case = bycase[idc]
        job = byid[idc.split("/")[0]]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "mode": case["mode"],
                "pass": case["pass"],
                "crop": case["crop"],
                "failure": case["failure"],
                "id": idc,
            },
            {"job": job, "case": case},
        )


if __name__ == "__main__":
    vlib.main("C13", "model_checking", c13)
