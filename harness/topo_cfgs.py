"""Random descriptions of series of images and topologies (see topo_lib)"""

import itertools
import random

import topo_names

BASES = [("im", ""), ("im", "_"), ("Karman", "_"), ("my_im", "_"), ("c", "-"), ("img", "")]


def dim(kind, first, n, length, sep=""):
    return {"first": first, "n": n, "type": kind, "len": length, "sep": sep}


def naming(rng, n, ndims=None, n1=None, simple=False):
    """description of the names for n values of the first index"""
    base, sep0 = rng.choice(BASES)
    first = rng.choice([0, 0, 1, 5, 8, 95])
    if ndims is None:
        ndims = rng.choice([1, 1, 2])
    length = rng.choice([2, 3, 3, 4])
    if first + n > 99:
        length = max(3, length)
    dims = [dim("d", first, n, length)]
    if ndims == 2:
        n1 = n1 or rng.choice([2, 2, 3])
        if rng.random() < 0.6:
            dims[0]["sep"] = rng.choice(["", "", "_"])
            dims.append(dim("a", 0, n1, 1))
        else:
            dims[0]["sep"] = rng.choice(["_", "-"])
            dims.append(dim("d", rng.choice([0, 1, 9]), n1, 2))
    if ndims == 1 and rng.random() < 0.2 and not simple:
        # without padding
        dims[0]["first"] = 0 if rng.random() < 0.5 else 1
        dims[0]["len"] = 1
    ext = rng.choice(["png", "png", "png", "tif"])
    return {"base": base, "sep0": sep0, "ext": ext, "dims": dims}


def i_dim(a, b, s=1):
    return {"v": 1, "a": a, "b": b, "s": s}


def c_dim(a, b, s=1, short=0):
    return {"v": 0, "a": a, "b": b, "s": s, "short": short}


def couples_cfg(rng, nmax=6):
    """a series of couples of images"""
    n = rng.randint(2, nmax)
    s = naming(rng, n)
    dims = s["dims"]
    d0 = dims[0]
    cfg = {"s": s, "over": "series", "start": -1, "stop": -1, "step": 1, "reference": ""}
    if len(dims) == 1:
        if rng.random() < 0.4:
            cfg["mode"] = "pairs"
            cfg["sub"] = [i_dim(d0["first"], d0["first"] + 2)]
        else:
            stride = rng.randint(1, min(3, n - 1))
            shift = rng.choice([0, 0, d0["first"]])
            cfg["mode"] = "slices"
            cfg["sub"] = [i_dim(shift, shift + stride + 1, stride)]
    else:
        d1 = dims[1]
        choice = rng.random()
        if d1["n"] == 2 and choice < 0.3:
            cfg["mode"] = "pairs"
            cfg["sub"] = [i_dim(d0["first"], d0["first"] + 1), c_dim(d1["first"], d1["first"] + 2)]
        elif choice < 0.6:
            cfg["mode"] = "slices"
            stride = rng.randint(1, d1["n"] - 1)
            cfg["sub"] = [
                {**i_dim(0, 1), "short": 1},
                c_dim(d1["first"], d1["first"] + stride + 1, stride),
            ]
        else:
            cfg["mode"] = "slices"
            stride = rng.randint(1, min(3, n - 1))
            j = d1["first"] + rng.randrange(d1["n"])
            cfg["sub"] = [i_dim(0, stride + 1, stride), c_dim(j, j + 1, short=1)]
    pick_range(rng, cfg)
    return cfg


def nb_indices(cfg):
    """first index and number of consecutive indices which exist"""
    dims = cfg["s"]["dims"]
    if cfg["mode"] == "all1by1":
        n = 1
        for d in dims:
            n *= d["n"]
        return 0, n

    def exists(i):
        for d, p in zip(dims, cfg["sub"]):
            for x in range(p["v"] * i + p["a"], p["v"] * i + p["b"], p["s"]):
                if not d["first"] <= x < d["first"] + d["n"]:
                    return False
        return True

    good = [i for i in range(0, 200) if exists(i)]
    return good[0], len(good)


def pick_range(rng, cfg):
    """start, stop and step of a series, inside of what exists"""
    first, n = nb_indices(cfg)
    if n >= 2 and rng.random() < 0.5:
        start = first + rng.randrange(n)
        cfg["start"] = start
        if rng.random() < 0.6:
            cfg["stop"] = rng.randint(start + 1, first + n)
    if rng.random() < 0.4:
        cfg["step"] = rng.randint(1, 3)


def subset_cfg(rng, nmax=5, window=None, overlap=False):
    """a series of subsets (preprocessing)"""
    n = rng.randint(1 if window in (None, 1) else 2, nmax)
    s = naming(rng, max(n, window or 1) if window else n)
    dims = s["dims"]
    cfg = {"s": s, "over": "series", "start": -1, "stop": -1, "step": 1, "reference": ""}
    if window is None or window == 1:
        if rng.random() < 0.6:
            cfg["mode"] = "all1by1"
            cfg["sub"] = [i_dim(dims[0]["first"], dims[0]["first"] + 1)]
            if len(dims) > 1:
                cfg["sub"] = []
        else:
            cfg["mode"] = "slices"
            cfg["sub"] = [{**i_dim(0, 1), "short": rng.randint(0, 1)}]
            if len(dims) > 1:
                j = dims[1]["first"] + rng.randrange(dims[1]["n"])
                cfg["sub"].append(c_dim(j, j + 1, short=rng.randint(0, 1)))
    else:
        window = min(window, s["dims"][0]["n"])
        cfg["mode"] = "slices"
        cfg["sub"] = [i_dim(0, window)]
        if len(dims) > 1:
            j = dims[1]["first"] + rng.randrange(dims[1]["n"])
            cfg["sub"].append(c_dim(j, j + 1, short=1))
    pick_range(rng, cfg)
    if window is not None and window > 1 and not overlap:
        cfg["step"] = window
    return cfg


def images_cfg(rng, nmax=6):
    n = rng.randint(1, nmax)
    s = naming(rng, n)
    dims = s["dims"]
    cfg = {"s": s, "over": "images", "start": -1, "stop": -1, "step": 1, "reference": ""}
    cfg["sub"] = [c_dim(d["first"], d["first"] + d["n"]) for d in dims]
    cfg["mode"] = "all"
    if rng.random() < 0.5:
        cfg["mode"] = "slices"
        for k, d in enumerate(dims):
            a = d["first"] + rng.randrange(d["n"])
            b = rng.randint(a + 1, d["first"] + d["n"])
            cfg["sub"][k] = c_dim(a, b, rng.choice([1, 1, 2, 3]))
    return cfg


def nb_selected(cfg):
    n = 1
    for d in cfg["sub"]:
        n *= len(range(d["a"], d["b"], d["s"]))
    return n


def make_cfg(rng, kind, nmax=6, **kw):
    if kind in ("piv", "optflow"):
        cfg = couples_cfg(rng, nmax)
    elif kind == "pre":
        cfg = subset_cfg(rng, nmax, **kw)
    else:
        cfg = images_cfg(rng, nmax)
        if kind == "bos":
            while nb_selected(cfg) < 2:
                cfg = images_cfg(rng, nmax)
            selected = [
                topo_names.name_of(cfg["s"], idx)
                for idx in itertools.product(
                    *[range(d["a"], d["b"], d["s"]) for d in cfg["sub"]]
                )
            ]
            everything = [name for _, name in topo_names.image_names(cfg)]
            how = rng.random()
            if how < 0.4:
                rank = rng.randrange(len(selected))
                cfg["reference_param"] = rank
                cfg["reference"] = sorted(selected)[rank]
            elif how < 0.8:
                cfg["reference"] = rng.choice(selected)
                cfg["reference_param"] = cfg["reference"]
            else:
                cfg["reference"] = rng.choice(everything)
                cfg["reference_param"] = cfg["reference"]
    if kind == "surf":
        return surf_cfg(rng, nmax, **kw)
    cfg["kind"] = kind
    if kind in ("piv", "bos", "pre"):
        cfg["im2im"] = rng.choice(["", "", "func", "cls"])
    elif kind == "im2im":
        cfg["im2im"] = rng.choice(["func", "cls", "float", "16"])
    if kind == "pre" and rng.random() < 0.25:
        cfg["format"] = "hdf5"
    if kind == "mean":
        cfg["dtype"] = rng.choice(["uint8", "uint16"])
    if kind in ("piv", "bos"):
        cfg["passes"] = rng.choice([1, 1, 2])
        cfg["method"] = rng.choice(["np.fft", "fftw", "scipy.signal"])
    if kind == "optflow":
        cfg["im2im"] = rng.choice(["", "", "func", "cls"])
    cfg["content"] = "pattern" if kind in ("piv", "bos", "optflow") else "random"
    cfg["seed"] = rng.randrange(10**6)
    cfg["from_file"] = rng.random() < 0.3
    return cfg


def surf_cfg(rng, nmax, failures=False):
    n = rng.randint(1, nmax)
    s = naming(rng, n, ndims=1)
    (d,) = s["dims"]
    cfg = {"s": s, "over": "images", "start": -1, "stop": -1, "step": 1, "reference": ""}
    cfg["sub"] = [c_dim(d["first"], d["first"] + n)]
    cfg["mode"] = "all"
    if rng.random() < 0.5:
        cfg["mode"] = "slices"
        a = d["first"] + rng.randrange(n)
        cfg["sub"] = [c_dim(a, rng.randint(a + 1, d["first"] + n), rng.choice([1, 1, 2, 3]))]
    a = rng.randrange(n)
    b = rng.randint(a + 1, n)
    cfg["ref_subset"] = f"{d['first'] + a}:{d['first'] + b}"
    selected = range(cfg["sub"][0]["a"], cfg["sub"][0]["b"], cfg["sub"][0]["s"])
    others = [i for i in selected if not a <= i - d["first"] < b]
    if failures and others and rng.random() < 0.5:
        cfg["unreadable"] = [topo_names.name_of(s, (rng.choice(others),))]
    cfg["kind"] = "surf"
    cfg["content"] = "grid"
    cfg["shape"] = [28, 46]
    cfg["box"] = [4, 43, 3, 25]
    cfg["crop_edge"] = rng.random() < 0.4
    cfg["dtype"] = "uint16" if cfg["crop_edge"] or rng.random() < 0.5 else "uint8"
    cfg["im2im"] = "float" if rng.random() < 0.5 else ""
    for key in ("correct_pos", "correct_height"):
        cfg[key] = rng.random() < 0.3
    cfg["seed"] = rng.randrange(10**6)
    cfg["from_file"] = False
    return cfg


def rng_of(*args):
    return random.Random(repr(args))
