"""Names of the images of a series (see spec/Names.tla)"""

import itertools

LETTERS = "abcdefghijklmnopqrstuvwxyz"


def str_index(dim, i):
    if dim["type"] == "d":
        return str(i).rjust(dim["len"], "0")
    if dim["type"] == "A":
        return LETTERS[i].upper()
    text = LETTERS[i % 26]
    while i >= 26:
        i //= 26
        text = LETTERS[i % 26] + text
    return text.rjust(dim["len"], "a")


def name_of(s, idx):
    text = s["base"] + s["sep0"]
    for k, (dim, i) in enumerate(zip(s["dims"], idx)):
        text += str_index(dim, i)
        if k < len(s["dims"]) - 1:
            text += dim["sep"]
    return text + ("." + s["ext"] if s["ext"] else "")


def image_names(cfg):
    """list of (index tuple, name)"""
    s = cfg["s"]
    ranges = [range(d["first"], d["first"] + d["n"]) for d in s["dims"]]
    return [(idx, name_of(s, idx)) for idx in itertools.product(*ranges)]


def str_subset(cfg):
    """The string given to the user interface (None: default)"""
    mode = cfg["mode"]
    if mode in ("pairs", "all1by1"):
        return mode
    if mode == "all":
        return None
    parts = []
    for d in cfg["sub"]:
        if d["v"]:
            a = f"i{d['a']:+d}" if d["a"] else "i"
            b = f"i{d['b']:+d}"
        else:
            a, b = str(d["a"]), str(d["b"])
        if d.get("short") and d["b"] == d["a"] + 1:
            parts.append(a)
        else:
            parts.append(f"{a}:{b}" + (f":{d['s']}" if d["s"] != 1 else ""))
    return ",".join(parts)


def tla_cfg(cfg):
    """Part of the description used by the specifications"""
    return {
        "s": cfg["s"],
        "over": cfg["over"],
        "mode": cfg["mode"],
        "sub": cfg["sub"],
        "start": cfg.get("start", -1),
        "stop": cfg.get("stop", -1),
        "step": cfg.get("step", 1),
        "reference": cfg.get("reference", ""),
    }


def elements(cfg):
    """As Elements of spec/Names.tla: list of lists of names"""
    s = cfg["s"]
    dims = s["dims"]
    existing = {idx for idx, _ in image_names(cfg)}
    if cfg["over"] == "images":
        ranges = [range(d["a"], d["b"], d["s"]) for d in cfg["sub"]]
        names = [name_of(s, idx) for idx in itertools.product(*ranges)]
        return [[name] for name in names if name != cfg["reference"]]
    everything = sorted(existing)

    def members(i):
        if cfg["mode"] == "all1by1":
            return [everything[i]] if i < len(everything) else [None]
        return list(
            itertools.product(
                *[
                    range(d["v"] * i + d["a"], d["v"] * i + d["b"], d["s"])
                    for d in cfg["sub"]
                ]
            )
        )

    def good(i):
        return all(m in existing for m in members(i))

    start, stop = cfg["start"], cfg["stop"]
    if start < 0:
        start = next(i for i in range(1000) if good(i))
    if stop < 0:
        stop = next(i for i in range(start, 1000) if not good(i))
    return [
        [name_of(s, m) for m in members(i)] for i in range(start, stop, cfg["step"])
    ]
