"""C22: preprocessing tools (Preproc, MCPreproc, PreprocTrace)"""

import random

import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = {n}
 H = {h}
 W = {w}
 Vmax = {vmax}
 Depth = {depth}
INVARIANTS NonNegativeInv NotAboveInv ConstantInv BackgroundInv PercentileInv IndependentInv FlipInv ClipInv
"""

SLIDING = ["sliding_median", "sliding_percentile", "sliding_minima"]
TEMPORAL = ["temporal_median", "temporal_percentile", "temporal_minima"]
OTHERS = [
    "adaptive_threshold",
    "rescale_intensity",
    "rescale_intensity_tanh",
    "equalize_hist_global",
    "equalize_hist_local",
    "equalize_hist_adapt",
    "gamma_correction",
    "sharpen",
]
MODES = ["reflect", "mirror", "nearest", "wrap", "constant"]
CVMODES = {"reflect": "reflect", "default": "mirror", "replicate": "nearest", "constant": "constant"}


def model_check(check, **kw):
    res = vlib.run_tlc(
        "MCPreproc", MC_CFG.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"MCPreproc: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"MCPreproc {kw}: {res.distinct} states")


def make_op(rng, tool, dtype, backend, nt):
    op = {
        "tool": tool,
        "weight": rng.choice([1, 1, 1, 0.5, 0.75, 0.25]),
        "intweight": rng.random() < 0.5,
        "percentile": rng.choice([0, 1, 10, 25, 49, 50, 51, 75, 99, 100]),
        "win": [],
        "mode": "reflect",
        "lo": 0,
        "hi": None,
        "seq": rng.choice(["tuple", "list"]),
    }
    quarter = (lambda v: v) if dtype != "float64" else (lambda v: v + rng.randint(0, 3) / 4)
    if tool in SLIDING:
        op["win"] = rng.choice([[1], [2], [3], [3], [4], [5], [1, 3], [3, 1], [2, 5], [4, 3], [1, 7]])
        op["mode"] = rng.choice(MODES)
        if backend == "opencv":
            op["cvmode"] = rng.choice(list(CVMODES))
            op["mode"] = CVMODES[op["cvmode"]]
            op["win"] = [rng.choice([1, 3, 3, 5])] if tool == "sliding_median" else [rng.randint(1, 5)]
    elif tool in TEMPORAL:
        op["win"] = rng.choice([[], [], [2], [3], [nt], [1, 2], [3, 3], [2, 1, 3], [3, 2, 2], [2, 3, 1]])
    elif tool == "global_threshold":
        op["lo"] = quarter(rng.choice([0, 0, 5, 20, 100]))
        op["hi"] = rng.choice([None, None, quarter(100), quarter(200), 300, 4096])
        if backend == "python" and op["lo"] == 0 and rng.random() < 0.2:
            op["lo"] = -1
    elif tool == "adaptive_threshold":
        op["win"] = [rng.choice([3, 5])]
        op["lo"] = rng.choice([0, 0, 2, -3, 20] if backend == "opencv" else [0, 0, 2.5, -3, 20])
    elif tool == "rescale_intensity":
        op["lo"] = rng.choice([0, 0, 10, 0.5])
        op["hi"] = rng.choice([1, 50, 200])
        if op["hi"] == 1:
            op["lo"] = 0
    elif tool == "rescale_intensity_tanh":
        op["lo"] = rng.choice([None, 10, 40.5, 200])
    elif tool == "equalize_hist_adapt":
        op["win"] = rng.choice([[2, 2], [3, 4]])
    elif tool == "equalize_hist_local":
        op["win"] = [rng.choice([1, 2, 3])]
    elif tool == "gamma_correction":
        op["percentile"] = rng.choice([1, 2])
    elif tool == "sharpen":
        op["weight"] = rng.choice([1, 5, 30])
        op["lo"] = rng.choice([1, 3])
        op["hi"] = rng.choice([1, 0.5])
    return op


def make_job(rng, i):
    kind = rng.choice(["func", "func", "apply", "apply", "work", "subset"])
    backend = "opencv" if rng.random() < 0.2 else "python"
    dtype = rng.choice(["uint8", "uint8", "uint16", "float64"])
    if kind in ("work", "subset"):
        dtype = rng.choice(["uint8", "uint16"]) if backend == "python" else "uint8"
    nt = rng.choice([1, 2, 3, 4])
    job = {
        "id": f"p{i}",
        "kind": kind,
        "backend": backend,
        "dtype": dtype,
        "seed": rng.randrange(2**30),
        "content": rng.choice(["random", "random", "random", "few", "sparse", "flat", "black"]),
        "high": 255,
        "sequence": [],
        "sel": [],
        "format": rng.choice(["img", "img", "hdf5"]),
        "ext": rng.choice(["png", "tif"]),
    }
    if dtype == "uint16" and backend == "python":
        job["high"] = rng.choice([255, 1000])
    if kind == "subset":
        ni = rng.randint(1, 5)
        nj = rng.choice([1, 1, 2, 3]) if ni < 4 else 1
        nb = rng.randint(1, 4)
        job["sel"] = [ni, nj, rng.randrange(nb), nb]
        nt = ni * nj
    job["shape"] = [nt, rng.randint(2, 5), rng.randint(2, 6)]
    available = SLIDING + (TEMPORAL if nt > 1 else []) + ["global_threshold"]
    if backend == "opencv":
        available = ["sliding_median", "sliding_minima", "global_threshold"]
        if kind != "func" or rng.random() < 0.8:
            names = rng.sample(available, 1)
            if names[0] == "global_threshold":
                job["content"] = "random"
            elif kind != "func" and rng.random() < 0.4:
                names.append("global_threshold")
        else:
            names = ["adaptive_threshold"]
    elif kind == "func":
        names = [rng.choice(available + OTHERS + OTHERS[:3])]
    else:
        names = rng.sample(available, rng.choice([0, 1, 2, 2, 3]))
        if rng.random() < 0.25:
            names = names[:2] + [rng.choice(OTHERS)]
    if any(name in OTHERS for name in names):
        job["high"] = 255
    if "gamma_correction" in names and dtype == "uint16":
        job["dtype"] = dtype = "uint8"
    job["ops"] = [make_op(rng, name, dtype, backend, nt) for name in names]
    if kind != "func" and rng.random() < 0.6:
        exact = [name for name in names if name not in OTHERS]
        rng.shuffle(exact)
        if backend == "opencv":
            exact = names[:]
        elif len(exact) == 2 and rng.random() < 0.2:
            exact.append(exact[0])
        others = [name for name in names if name in OTHERS]
        # tools of the sequence which are not enabled, enabled tools out of the sequence
        extra = [t for t in available if t not in names][:1]
        sequence = exact + extra + others
        if len(exact) > 1 and not others and rng.random() < 0.2:
            sequence = sequence[1:]
        job["sequence"] = sequence
    else:
        # the last tool in the default order has to be the only one which is not exact
        if any(name in OTHERS for name in names) and len(names) > 1:
            job["sequence"] = [n for n in names if n not in OTHERS] + [n for n in names if n in OTHERS]
    if "gamma_correction" in names and any(n in TEMPORAL for n in names):
        job["ops"] = [op for op in job["ops"] if op["tool"] not in TEMPORAL]
    return job


def c22(check):
    check.assumptions = [
        "images of integers, weights multiples of 1/4, integer percentiles and at most 3 tools giving exact results",
        "only bounds, monotony, invariants and independence of the images for the tools using "
        "exponentials, gaussians or histograms of scikit-image and OpenCV",
    ]
    if check.thorough:
        model_check(check, n=1, h=2, w=3, vmax=2, depth=1)
        model_check(check, n=2, h=1, w=2, vmax=2, depth=2)
        model_check(check, n=3, h=1, w=1, vmax=3, depth=2)
        model_check(check, n=2, h=2, w=2, vmax=1, depth=1)
        njobs = 20000
    else:
        model_check(check, n=1, h=2, w=2, vmax=2, depth=1)
        model_check(check, n=2, h=1, w=2, vmax=2, depth=1)
        model_check(check, n=3, h=1, w=1, vmax=2, depth=2)
        njobs = 5000
    jobs = [make_job(random.Random(f"preproc{check.seed}-{i}"), i) for i in range(njobs)]
    byid = {job["id"]: job for job in jobs}
    records = {}
    for rc, recs, err, part in vlib.run_driver("drv_preproc.py", jobs, check.scratch, timeout=700):
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_preproc.py failed ({rc}) {err}")
    cases = list(records.values())
    for case in cases:
        if not case["failure"]:
            check.add("pixels", sum(len(line) for im in case["stack"] for line in im))
            for op in case["ops"]:
                check.add(f"tool {op['tool']}{' (opencv)' if op['cv'] else ''}", 1)
        else:
            case.update(stack=[[[0]]], sequence=[], available=[], ops=[])
    verdicts, n, states = vlib.validate("PreprocTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[0])
    for idc, clause, _ in verdicts:
        case = records[idc]
        job = byid[idc]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["kind"],
                "backend": job["backend"],
                "tools": "+".join(sorted({op["tool"] for op in job["ops"]})),
                "failure": case["failure"],
                "id": idc,
            },
            {"job": job, "case": case},
        )


if __name__ == "__main__":
    vlib.main("C22", "model_checking", c22)
