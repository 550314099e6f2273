"""Scenarios for the executors and conversion of the records for ExecTrace"""

import random

# time (s) after which no call can start after the signal (real executions)
SOON = 3.0

CLAUSES_BOUND = {"cap-cpu", "cap-io", "queue-bound"}


def stage_list(rng, with_join, full_kinds=True):
    """A random chain of works, the last one being of kind io"""
    stages = []
    npre = rng.randint(1, 2)
    npost = rng.randint(1, 3)
    names = iter(["wa", "wb", "wc", "wd", "we", "wf", "wg"])
    kinds = ["cpu", "io", "ekv", "io2", "ioekv"] if full_kinds else ["cpu", "io"]
    for i in range(npre):
        stages.append(
            {"name": next(names), "kind": "io" if i == 0 and rng.random() < 0.7 else rng.choice(kinds)}
        )
    if with_join:
        stages.append({"name": "join", "join": rng.choice([2, 2, 3, 4])})
    for i in range(npost):
        last = i == npost - 1
        stages.append(
            {
                "name": next(names),
                "kind": rng.choice(["io", "ioekv"]) if last else rng.choice(kinds),
            }
        )
    return stages


def scenario(idx, seed, fails=0, mode="virt", executor=None, stop_if_error=False):
    rng = random.Random(f"{seed}-{idx}")
    with_join = rng.random() < 0.6
    stages = stage_list(rng, with_join)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
    if with_join:
        w = [s["join"] for s in stages if "join" in s][0]
        n = max(n, w)
    keys = rng.choice(["str", "str", "int", "tuple", "long", "ext", "case", "space"])
    topology = {"n": n, "keys": keys, "stages": stages, "fails": []}
    lvl = levels(topology)
    calls = [(s["name"], k) for s, ks in lvl for k in ks if "join" not in s]
    nf = min(len(calls), fails if fails < 0 or fails <= 1 else rng.randint(1, fails))
    topology["fails"] = [list(c) for c in rng.sample(calls, nf)]
    if executor is None:
        executor = rng.choice(
            ["exec_async"] * 4
            + ["exec_async_sequential"] * 3
            + ["exec_async_seq_for_multi"] * 2
            + ["exec_sequential"]
        )
    job = {
        "id": f"{mode}-{idx}",
        "mode": mode,
        "executor": executor,
        "workers": 1 if executor in ("exec_async_seq_for_multi",) else rng.choice([1, 1, 2, 3, 5]),
        "seed": rng.randrange(2**30),
        "limit": 60.0 + 5 * n,
        "topology": topology,
        "stop_if_error": stop_if_error,
        "sleep": rng.choice([0.01, 0.01, 0.02, 0.05]),
    }
    if executor in ("exec_async", "exec_async_sequential", "exec_sequential"):
        job["qmax"] = rng.choice([1, 1, 2, 3, 8])
    if mode == "real":
        topology["busy"] = {
            f"{s['name']}/{k}": round(rng.choice([0, 0, 0.005, 0.02, 0.06]), 3)
            for s, ks in lvl
            for k in ks
        }
    return job


LONG = "experiment_2026-11-19_camera_left_run03_exposure_0.005_laser_on_height_120mm"


def make_keys(topology):
    """str of the keys (see synth.make_key)"""
    n, kind = topology["n"], topology["keys"]
    if kind == "str":
        return [f"im{i}.png" for i in range(n)]
    if kind == "int":
        return [str(i) for i in range(n)]
    if kind == "long":
        return [f"{LONG}_{i:05d}.png" for i in range(n)]
    if kind == "ext":
        return [f"im{i // 2}." + ("png", "tif")[i % 2] for i in range(n)]
    if kind == "case":
        return [f"im{'AaBbCcDdEe'[i]}.png" for i in range(n)]
    if kind == "space":
        return [f"my im {i}.png" for i in range(n)]
    return [str((i, "a")) for i in range(n)]


def levels(topology):
    keys = make_keys(topology)
    out = []
    for stage in topology["stages"]:
        out.append((stage, list(keys)))
        if "join" in stage:
            keys = [str(i) for i in range(max(0, topology["n"] - stage["join"] + 1))]
    return out


def value(text):
    return ["!", text[1:]] if text.startswith("!") else ["", text]


def to_case(job, rec):
    """A case for ExecTrace.tla"""
    topology = job["topology"]
    stages = topology["stages"]
    names = {s["name"]: i + 1 for i, s in enumerate(stages)}
    keys = make_keys(topology)
    window = next((s["join"] for s in stages if "join" in s), 0)
    subs = []
    if window:
        subs = [
            [str(i), keys[i : i + window]]
            for i in range(max(0, len(keys) - window + 1))
        ]

    def kind(stage):
        if "join" in stage:
            return "join"
        return "io" if stage["kind"].startswith("io") else "cpu"

    executor = job["executor"]
    full = job["mode"] == "virt"
    cap = job["workers"]
    topo = {
        "stages": [{"name": s["name"], "kind": kind(s)} for s in stages],
        "keys": keys,
        "subs": subs,
        "fails": [[names[a], b] for a, b in topology["fails"]],
        "cap": cap,
        "qmax": job.get("qmax") or 8,
        "stop_if_error": bool(job.get("stop_if_error")),
    }
    if executor == "exec_sequential":
        # one work at a time, no limit for ordinary works
        topo["cap"] = 1
        topo["qmax"] = max(8, len(keys) + 1)
    events = []
    join_in = join_out = None
    if window:
        join_in = "q" + str([i for i, s in enumerate(stages) if "join" in s][0])
        join_out = "q" + str([i for i, s in enumerate(stages) if "join" in s][0] + 1)
    late = None
    late_calls = 0
    split = executor.startswith("multi_exec")
    for i, ev in enumerate(rec["events"]):
        e = ev[0]
        if e == "signal":
            events.append({"e": e, "s": 1, "k": "", "v": ["", ""], "p": 0})
            if not full:
                late = rec["times"][i] + SOON
            continue
        if not full and e == "start" and late is not None:
            late_calls += rec["times"][i] > late
        if e in ("start", "end"):
            s = names[ev[1]]
            if full:
                events.append({"e": e, "s": s, "k": ev[2], "v": value(ev[3]), "p": 0})
            else:
                p = rec["pids"][i] if split else 0
                events.append({"e": e, "s": s, "k": ev[2], "v": value(ev[3]), "p": p})
            continue
        if not full:
            continue
        queue = ev[1]
        if queue == "subsets":
            # removal of a subset: part of the join
            continue
        s = int(queue[1:]) + 1
        if e == "put" and queue == "q0":
            events.append({"e": "fill", "s": 1, "k": ev[2], "v": value(ev[3]), "p": 0})
        elif e == "put" and queue == join_out:
            events.append({"e": "join", "s": s, "k": ev[2], "v": value(ev[3]), "p": 0})
        elif e == "pop" and queue == join_in:
            # removal of an item by the join itself
            continue
        elif e in ("put", "pop"):
            events.append({"e": e, "s": s, "k": ev[2], "v": value(ev[3]), "p": 0})
        elif e == "clear":
            events.append({"e": "clear", "s": s, "k": ev[2], "v": ["", ""], "p": 0})
    logs = []
    logs_ok = True
    for name, text in rec["logs"]:
        found = None
        for sname, key in topology["fails"]:
            if name == f"exception_{sname}_{key}.txt":
                found = [names[sname], key]
                if not (sname in text and key in text and f"SynthError: {sname}/{key}" in text):
                    logs_ok = False
        if found is None:
            found = [0, name]
        logs.append(found)
    leaves = []
    for text in rec.get("leaves", []):
        a, _, b = text.partition("/")
        leaves.append([names.get(a, 0), b])
    results = [key_of(r) for r in rec["results"]]
    return {
        "id": job["id"],
        "topo": topo,
        "mode": "full" if full else "coarse",
        "split": split,
        "events": events,
        "logged": True,
        "fin": {
            "stop": rec["stop"],
            "results": results,
            "left": rec["left"],
            "logs": logs,
            "logs_ok": logs_ok,
            "leaves": leaves,
            "late_calls": late_calls,
            "locks": len(rec["locks"]),
        },
    }


def key_of(text):
    return text.split("|", 1)[0]
