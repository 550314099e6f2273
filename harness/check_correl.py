"""C14: correlations and displacements (Correl, MCCorrel, Buffers, CorrelTrace)"""

import math
import random

import vlib

MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 WY = {wy}
 WX = {wx}
 WV = {wv}
 MY = {my}
 MX = {mx}
 MV = {mv}
 Radius = {radius}
 NbPeaks = {nb}
INVARIANTS WindowsInv MapInv
"""
BUF_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {threads}
 Count = {count}
 Locked = {locked}
INVARIANT ResultsOK
PROPERTY AllDone
"""


def model_check(check, module, cfg, **kw):
    res = vlib.run_tlc(
        module, cfg.format(**kw), check.scratch, workers=vlib.NCPU, heap="8g", timeout=840
    )
    if not res.ok:
        raise vlib.MachineryError(f"{module}: {res.violated}\n{res.out[-2000:]}")
    check.add("states", res.distinct)
    check.add("transitions", res.generated)
    check.log(f"{module} {kw}: {res.distinct} states")


KINDS = {
    "fftw": "periodic",
    "np.fft": "periodic",
    "scipy.signal": "fill",
    "scipy.ndimage": "ndimage",
    "pythran": "mean",
}


def isqrt_norm(kind, a, b):
    n = len(a) * len(a[0])

    def sums(w):
        vals = [v for row in w for v in row]
        return sum(vals), sum(v * v for v in vals)

    (s0, q0), (s1, q1) = sums(a), sums(b)
    if kind == "periodic":
        return math.isqrt((n * q0 - s0**2) * (n * q1 - s1**2))
    if kind == "ndimage":
        return q1
    return math.isqrt(q0 * q1)


def window(rng, shape, style):
    ny, nx = shape
    if style == "peak":
        w = [[0] * nx for _ in range(ny)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            w[rng.randrange(ny)][rng.randrange(nx)] = rng.randint(1, 5)
        return w
    if style == "zero":
        return [[0] * nx for _ in range(ny)]
    lo, hi = rng.choice([(0, 5), (0, 2), (1, 4), (0, 1)])
    return [[rng.randint(lo, hi) for _ in range(nx)] for _ in range(ny)]


def moved(rng, a, shape):
    """Second window of which a part is the first one moved"""
    ny, nx = len(a), len(a[0])
    my, mx = ny // 2, nx // 2
    d = rng.randint(-my, my), rng.randint(-mx, mx)
    oy, ox = my - shape[0] // 2 - d[0], mx - shape[1] // 2 - d[1]
    return [[a[(i + oy) % ny][(j + ox) % nx] for j in range(shape[1])] for i in range(shape[0])]


def is_constant(w):
    return len({v for row in w for v in row}) == 1


def limits(job, rng):
    """Limit of the displacements: value given to the class, num, den, lim"""
    kind = job["kind"]
    shape0, shape1 = job["shape0"], job["shape1"]
    m = max(shape0)
    if kind == "mean":
        # something common to the windows for all the displacements
        most = min(shape1) // 2 - 1 + min(a - b for a, b in zip(shape0, shape1)) // 2
        if shape0 == shape1:
            default = min(shape0) // 2 - 1
        else:
            default = min(a - b for a, b in zip(shape0, shape1)) // 2 - 1
        choices = []
        if 0 < default <= most:
            choices += [(None, default)] * 2
        choices += [(i, i) for i in range(1, most + 1)]
        choices += [(f"{p}%", p * m // 100) for p in (25, 50) if 0 < p * m // 100 <= most]
        if not choices:
            return None
        dmax, lim = rng.choice(choices)
        return dmax, 0, 0, lim
    if kind != "periodic":
        # not used by these methods
        return rng.choice([None, 2]), 0, 0, 0
    dmax = rng.choice([None, 1, 2, 3, 2.5, "25%", "50%", "75%"])
    if dmax is None:
        return dmax, 0, 0, 0
    if isinstance(dmax, str):
        num, den = (int(dmax[:-1]) * m) ** 2, 10000
    else:
        num, den = int((2 * dmax) ** 2), 4
    return dmax, num, den, 0


def make_job(rng, i):
    method = rng.choice(list(KINDS))
    kind = KINDS[method]
    what = rng.choice(["correl", "correl", "piv"])
    while True:
        lo = 3 if kind == "periodic" else 4
        shape0 = [rng.randint(lo, 8), rng.randint(lo, 8)]
        shape1 = list(shape0)
        mode = None
        if kind != "periodic" and rng.random() < 0.5:
            shape1 = [rng.randint(2, s) for s in shape0]
        if method == "scipy.signal" and what == "correl" and rng.random() < 0.4:
            mode = "valid"
        job = {
            "id": f"c{i}", "what": what, "method": method,
            "kind": "valid" if mode == "valid" else kind,
            "mode": mode, "shape0": shape0, "shape1": shape1,
            "radius": rng.choice([0, 1, 1, 2, 3]), "nb": rng.choice([1, 1, 2, 3]),
        }
        lim = limits(job, rng)
        if lim is not None:
            break
    job["dmax"], job["num"], job["den"], job["lim"] = lim
    if what == "correl":
        job["windows"] = []
        while len(job["windows"]) < 4:
            a = window(rng, shape0, rng.choice(["random", "random", "peak", "zero"]))
            b = (moved(rng, a, shape1) if rng.random() < 0.5
                 else window(rng, shape1, rng.choice(["random", "random", "random", "peak"])))
            if kind == "periodic" and any(is_constant(w) and w[0][0] for w in (a, b)):
                continue
            job["windows"].append([a, b])
    else:
        shape = [2 * s + rng.randint(0, 3) for s in shape0]
        lo, hi = rng.choice([(0, 4), (3, 7), (0, 2)])
        a = [[rng.randint(lo, hi) for _ in range(shape[1])] for _ in range(shape[0])]
        d = rng.randint(-2, 2), rng.randint(-2, 2)
        b = [[a[(p - d[0]) % shape[0]][(q - d[1]) % shape[1]] for q in range(shape[1])]
             for p in range(shape[0])]
        job["images"] = [a, b]
        job["dtype"] = rng.choice(["float32", "int64", "uint16", "uint8"])
    return job


def thread_jobs(check):
    rng = random.Random(f"threads{check.seed}")
    jobs = [
        {"object": "fft", "cls": i, "seed": rng.randrange(2**30), "maxpoints": 60}
        for i in range(4)
    ]
    npiv = 24 if check.thorough else 4
    for i in range(npiv):
        jobs.append(
            {
                "object": "piv", "seed": rng.randrange(2**30),
                "method": "fftw" if i % 2 == 0 else rng.choice(["np.fft", "scipy.signal"]),
                "passes": 1 + i % 2, "nb": rng.choice([1, 2]),
                "tps": rng.choice([False, "last"]),
                "strcrop": rng.choice([None, "2:38, 3:"]),
                "maxpoints": 1000 if check.thorough else 220,
            }
        )
    for i, job in enumerate(jobs):
        job.update(id=f"t{i}", what="threads")
    return jobs


def to_cases(job, rec):
    if rec["failure"]:
        return [{"id": job["id"], "what": job["what"], "failure": rec["failure"]}]
    cases = []
    for k, r in enumerate(rec["recs"]):
        case = {"id": f"{job['id']}/{k}", "failure": "", "what": job["what"], **r}
        if job["what"] == "threads":
            cases.append(case)
            continue
        case["what"] = "correl"
        if job["what"] == "correl":
            case["a"], case["b"] = job["windows"][k]
        for name in ("kind", "num", "den", "lim", "radius", "nb"):
            case[name] = job[name]
        if job["kind"] == "periodic" and any(
            is_constant(w) and w[0][0] for w in (case["a"], case["b"])
        ):
            continue
        case["norm"] = isqrt_norm(job["kind"], case["a"], case["b"])
        cases.append(case)
    return cases


def c14(check):
    check.assumptions = [
        "windows of at most 8 x 8 pixels with values in 0..5",
        "methods using a GPU not executed",
        "threads: all the interleavings with one preemption of one of the threads"
        " (at the lines of fluidimage)",
    ]
    model_check(check, "Buffers", BUF_CFG, threads="{1,2}", count=3, locked="TRUE")
    res = vlib.run_tlc(
        "Buffers", BUF_CFG.format(threads="{1,2}", count=2, locked="FALSE"), check.scratch
    )
    if res.violated != "ResultsOK":
        raise vlib.MachineryError("Buffers: the model has to fail without lock")
    if check.thorough:
        model_check(check, "Buffers", BUF_CFG, threads="{1,2,3}", count=4, locked="TRUE")
        model_check(check, "MCCorrel", MC_CFG, wy=3, wx=3, wv=1, my=4, mx=4, mv=1, radius=1, nb=3)
        model_check(check, "MCCorrel", MC_CFG, wy=2, wx=4, wv=2, my=3, mx=5, mv=1, radius=0, nb=3)
        njobs = 4000
    else:
        model_check(check, "MCCorrel", MC_CFG, wy=2, wx=3, wv=1, my=3, mx=4, mv=1, radius=0, nb=2)
        model_check(check, "MCCorrel", MC_CFG, wy=2, wx=2, wv=2, my=4, mx=3, mv=1, radius=1, nb=2)
        njobs = 320
    jobs = thread_jobs(check)
    jobs += [make_job(random.Random(f"corr{check.seed}-{i}"), i) for i in range(njobs)]
    byid = {job["id"]: job for job in jobs}
    records = {}
    for rc, recs, err, part in vlib.run_driver("drv_correl.py", jobs, check.scratch, timeout=700):
        for rec in recs:
            records[rec["id"]] = rec
        if rc != 0 or len(recs) < len(part):
            raise vlib.MachineryError(f"drv_correl.py failed ({rc}) {err}")
    cases = [c for i, rec in records.items() for c in to_cases(byid[i], rec)]
    check.add("schedules", sum(len(c["calls"]) // 2 for c in cases if "calls" in c))
    verdicts, n, states = vlib.validate("CorrelTrace", cases, check.scratch)
    check.add("traces_validated_against_impl", n)
    check.add("states", states)
    check.add("transitions", states)
    check.sample(cases[-1])
    bycase = {c["id"]: c for c in cases}
    for idc, clause, _ in verdicts:
        case = bycase[idc]
        job = byid[idc.split("/")[0]]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "what": job["what"],
                "method": job.get("method"),
                "shapes": [job.get("shape0"), job.get("shape1")],
                "failure": case["failure"],
                "id": idc,
            },
            {"job": job, "case": case},
        )


if __name__ == "__main__":
    vlib.main("C14", "model_checking", c14)
