"""C10: names of the result files (ResultNames, NamesTrace)"""

import sys

import topo_common as tcm
import vlib
from topo_cfgs import c_dim, dim, i_dim, rng_of
from topo_names import elements, tla_cfg

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxIndex0 = {n}
 Lens = {{{lens}}}
 Seps = {{"", "_"}}
 Separated = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Injective ImagesInjective
"""

BASES = [("im", ""), ("im", "_"), ("my_im", "_"), ("c", "-"), ("", ""), ("Karman", "_")]


def naming(rng, kind):
    base, sep0 = rng.choice(BASES)
    ndims = rng.choice([1, 2, 2, 3] if kind != "pre" else [1, 2, 2])
    dims = []
    for k in range(ndims):
        after_alpha = k > 0 and dims[-1]["type"] != "d"
        typ = "d" if k == 0 or after_alpha else rng.choice(["d", "a", "A"])
        if typ == "d":
            n = rng.randint(2, 5) if k == 0 else rng.randint(2, 3)
            first = rng.choice([0, 1, 8, 9, 10, 98]) if k == 0 else rng.choice([0, 1, 9])
            padded = rng.random() < 0.5
            length = rng.choice([3, 4]) if padded else len(str(first))
            if first + n > 99 and padded:
                length = 4
            dims.append(dim("d", first, n, length))
        else:
            dims.append(dim(typ, 0, rng.randint(2, 3), 1))
    for k in range(ndims - 1):
        two_digits = dims[k]["type"] == "d" and dims[k + 1]["type"] == "d"
        dims[k]["sep"] = rng.choice(["_", "-"] if two_digits else ["", "", "_"])
    ext = rng.choice(["png", "png", "tif", "" if kind in ("piv", "bos") else "png"])
    return {"base": base, "sep0": sep0, "ext": ext, "dims": dims}


def base_cfg(s, over):
    return {
        "s": s,
        "over": over,
        "mode": "slices",
        "start": -1,
        "stop": -1,
        "step": 1,
        "reference": "",
    }


def selection(rng, s, kind, kdim=None, kstride=None):
    """sub: one varying index, a stride in one dimension, the others are fixed"""
    dims = s["dims"]
    if kind != "piv":
        sub = []
        for d in dims:
            if rng.random() < 0.5:
                sub.append(c_dim(d["first"], d["first"] + d["n"]))
            else:
                a = d["first"] + rng.randrange(d["n"])
                sub.append(c_dim(a, rng.randint(a + 1, d["first"] + d["n"]), rng.choice([1, 2])))
        return sub
    stride = rng.randint(1, min(3, dims[kstride]["n"] - 1))
    # the upper limit of the slice is not always the last index plus 1
    extra = rng.randrange(stride)
    sub = []
    for k, d in enumerate(dims):
        if k == kdim:
            sub.append(
                i_dim(0, stride + 1 + extra, stride) if k == kstride else {**i_dim(0, 1), "short": 1}
            )
        elif k == kstride:
            a = d["first"] + rng.randrange(d["n"] - stride)
            sub.append(c_dim(a, a + stride + 1 + extra, stride))
        else:
            a = d["first"] + rng.randrange(d["n"])
            sub.append(c_dim(a, a + 1, short=1))
    return sub


def make_job(check, i):
    rng = rng_of("c10", check.seed, i)
    kind = ["piv", "piv", "piv", "bos", "im2im"][i % 5]
    s = naming(rng, kind)
    cfg = base_cfg(s, "series" if kind == "piv" else "images")
    nd = len(s["dims"])
    kdim = rng.randrange(nd) if rng.random() < 0.3 else 0
    kstride = rng.choice([k for k in range(nd)])
    cfg["sub"] = [c_dim(d["first"], d["first"] + d["n"]) for d in s["dims"]]
    if kind == "bos":
        # the reference is always the same: the last image
        from topo_names import image_names

        cfg["reference"] = cfg["reference_param"] = image_names(cfg)[-1][1]
    cfg.update(kind=kind, seed=i, content="pattern", passes=1, im2im="", from_file=True)
    if kind == "im2im":
        cfg["im2im"] = rng.choice(["func", "float", "16"])
        cfg["content"] = "random"
    steps = []
    for k in range(rng.choice([2, 3])):
        new = {"sub": selection(rng, s, kind, kdim, kstride)}
        if rng.random() < 0.3:
            steps.append({"op": "delete", "ranks": [rng.randrange(50) for _ in range(2)]})
        steps.append(
            {
                "op": "run",
                "executor": "exec_sequential",
                "how": "complete" if k else rng.choice(["complete", "recompute"]),
                "seed": -1,
                "cfg": new,
                "timeout": 60,
            }
        )
    if kind != "im2im":
        steps.append({"op": "child", "func": "load_names", "timeout": 60})
    return {"id": f"n{i}", "cfg": cfg, "steps": steps}


def usable(job):
    """At least one element in each execution"""
    for step in job["steps"]:
        if step["op"] == "run":
            try:
                if not elements({**job["cfg"], **step["cfg"]}):
                    return False
            except StopIteration:
                return False
    return True


def to_case(job, rec):
    cfg = job["cfg"]
    steps = []
    loaded = []
    for step, srec in zip(job["steps"], rec["steps"]):
        _, res = tcm.result_dir(srec, cfg)
        if step["op"] == "child":
            loaded = srec.get("value", [["load_names failed", []]])
            continue
        steps.append(
            {
                "op": step["op"],
                "cfg": tla_cfg({**cfg, **step.get("cfg", {})}),
                "how": step.get("how", ""),
                "stop": srec.get("stop", ""),
                "nexp": srec.get("nexp", -1),
                "files": res["files"],
                "rewritten": res["rewritten"],
                "reported": srec.get("reported", []),
            }
        )
    return {"id": job["id"], "kind": cfg["kind"], "steps": steps, "loaded": loaded}


def c10(check):
    check.assumptions = [
        "series of images recognised by fluiddyn (base name, 1 to 3 indices, digits or one letter)",
        "the successive executions vary the same index and use their stride in the same dimension",
    ]
    for n, lens in [(20, "1,2")] + ([(20, "1,2,3")] if check.thorough else []):
        res = vlib.run_tlc(
            "ResultNames", MC_CFG.format(n=n, lens=lens), check.scratch, workers=vlib.NCPU
        )
        if not res.ok:
            raise vlib.MachineryError(f"ResultNames: {res.violated}\n{res.out[-2000:]}")
        check.add("states", res.distinct)
        check.add("transitions", res.generated)
    wanted = 2500 if check.thorough else 320
    jobs = []
    i = 0
    while len(jobs) < wanted:
        job = make_job(check, i)
        i += 1
        if usable(job):
            jobs.append(job)
    byid = {job["id"]: job for job in jobs}
    records = tcm.run_jobs(check, jobs)
    check.log(f"{len(records)} histories run")
    cases = {i: to_case(byid[i], rec) for i, rec in records.items()}
    verdicts, nb, states = vlib.validate("NamesTrace", cases.values(), check.scratch)
    check.add("traces_validated_against_impl", nb)
    check.add("files", sum(len(s["files"]) for c in cases.values() for s in c["steps"]))
    check.add("states", states)
    check.add("transitions", states)
    check.sample(next(iter(cases.values())))
    for idc, clause, num in verdicts:
        job = byid[idc]
        check.violation(
            f"clause {clause}",
            {
                "clause": clause,
                "kind": job["cfg"]["kind"],
                "ndims": len(job["cfg"]["s"]["dims"]),
                "ext": job["cfg"]["s"]["ext"],
                "id": idc,
            },
            {"job": job, "step": num, "case": cases[idc], "record": records[idc]},
        )


if __name__ == "__main__":
    vlib.main(sys.argv[1], "model_checking", {"C10": c10}[sys.argv[1]])
