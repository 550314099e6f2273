"""Run executors on synthetic topologies and analyse their logs.

usage: drv_log.py IN.json OUT.ndjson WORKDIR

The date is the one of the virtual clock (mode "virt").
"""

import faulthandler
import io
import json
import os
import random
import shutil
import signal
import sys
import time
from contextlib import redirect_stdout
from pathlib import Path

import virt
import hangs

_time = time.time
_t0 = 1.7e9 + 0.123
_advance = 0.0


def fake_time():
    virtual = virt.current
    if virtual is None:
        return _time()
    t = virtual.clock.current_time() if virtual.clock is not None else 0.0
    return _t0 + _advance + t


time.time = fake_time

import synth  # noqa: E402


def advance(dt):
    global _advance
    _advance += dt


UNIT = 1e4


def as_int(x):
    # nan: no duration
    return int(round(x * UNIT)) if x == x else -1


class Hang(BaseException):
    pass


def plot(log):
    """Points of the plots [memory, durations, nb_workers]"""
    from matplotlib import pyplot as plt

    out = []
    for name in ("memory", "durations", "nb_workers"):
        plt.close("all")
        getattr(log, f"plot_{name}")()
        (ax,) = plt.gcf().axes
        lines = []
        for line in ax.get_lines():
            xs, ys = line.get_xdata(), line.get_ydata()
            lines.append([[as_int(float(x)), as_int(float(y))] for x, y in zip(xs, ys)])
        out.append(lines)
    plt.close("all")
    return out


def analyse(path, plots=False):
    from fluidimage.topologies.log import LogTopology

    out = {"failed": "", "names": [], "calls": [], "lens": [], "chars": {}, "duration": -1}
    out["plots"] = []
    try:
        with redirect_stdout(io.StringIO()):
            log = LogTopology(path)
        for name in log.names_works:
            keys, times, durations = log.keys[name], log.times[name], log.durations[name]
            out["lens"].append([len(keys), len(times), len(durations)])
            for k, t, d in zip(keys, times, durations):
                out["calls"].append({"w": name, "k": k, "t": as_int(t), "d": as_int(d)})
        out["names"] = list(log.names_works)
        out["chars"] = {
            "topology": log.topology_name,
            "executor": log.executor_name,
            "nb_cpus_allowed": log.nb_cpus_allowed,
            "nb_max_workers": log.nb_max_workers,
        }
        if hasattr(log, "duration"):
            out["duration"] = as_int(log.duration)
        if plots:
            out["plots"] = plot(log)
    except Exception as exc:  # pylint: disable=broad-except
        out["failed"] = repr(exc)[:300]
    return out


def parts(path_file, path_tmp, rng, n):
    """Analyses of the beginning of a log"""
    content = path_file.read_bytes()
    path_tmp.mkdir()
    path = path_tmp / path_file.name
    out = []
    for _ in range(n):
        path.write_bytes(content[: rng.randint(0, len(content))])
        out.append(analyse(path))
    path.write_bytes(content)
    first = analyse(path)
    return [{"failed": p["failed"], "calls": p["calls"]} for p in out], first["calls"]


def execute(job, run, path_dir):
    desc = dict(job["topology"])
    desc["path_dir_result"] = str(path_dir)
    desc["record_join"] = True
    real = job["mode"] == "real"
    path_events = None
    global _advance
    _advance = 0.0
    if real:
        path_events = str(path_dir) + ".events"
        desc["path_events"] = path_events
        synth.recorder = synth.Recorder(path_events, clock=_time)
        virt.current = None
    else:
        synth.recorder = synth.Recorder(clock=fake_time)
        virt.current = virt.Virtual(
            run["seed"], job["limit"], durations=(0.0, 0.004, 0.03, 0.11, 0.7, 2.3)
        )
        virt.current.advance = advance
        virt.current.late_starts = False
    kwargs = {}
    if job.get("qmax"):
        kwargs["nb_items_queue_max"] = job["qmax"]
    old = (sys.stdout, sys.stderr)
    rec = {"stop": "normal", "raised": ""}
    topology = None

    def on_alarm(sig, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, hangs.limit(job.get("timeout", 60)))
    t_start = _time()
    try:
        params = {"json": json.dumps(desc)} if real else desc
        topology = synth.TopologySynth(params, logging_level=run["level"])
        topology.compute(
            run["executor"],
            nb_max_workers=job["workers"],
            sleep_time=0.01,
            kwargs_executor=kwargs,
        )
    except Hang:
        rec["stop"] = "hang"
        hangs.hang()
    except BaseException as exc:  # pylint: disable=broad-except
        rec["stop"] = "raised"
        rec["raised"] = repr(exc)[:300]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = old
    rec["wall"] = as_int(_time() - t_start)
    if real:
        events = [json.loads(line) for line in open(path_events)]
        os.unlink(path_events)
    else:
        events = synth.recorder.events
    executor = topology.executor
    t0 = executor.t_start
    synth.recorder = None
    virt.current = None
    actual = []
    running = {}
    for pid, e, w, k, *value, t in events:
        if e == "start":
            running[(pid, w, k)] = t
        elif e == "end":
            t1 = running.pop((pid, w, k))
            d = -1 if value[-1].startswith("!") else as_int(t - t1)
            name = w.replace(" ", "_")
            actual.append({"w": name, "k": k, "t": as_int(t1 - t0), "d": d})
    rec["actual"] = actual
    rec["expected"] = {
        "topology": "synth.TopologySynth",
        "executor": type(executor).__module__ + "." + type(executor).__name__,
        "nb_cpus_allowed": None,
        "nb_max_workers": 1 if run["executor"] == "exec_sequential" else job["workers"],
    }
    from fluidimage.topologies.nb_cpu_cores import nb_cores

    rec["expected"]["nb_cpus_allowed"] = nb_cores
    return rec


def run_job(job, wd):
    path_dir = Path(wd) / f"res_{job['id']}"
    path_dir.mkdir()
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    out = {"id": job["id"], "runs": []}
    for run in job["runs"]:
        before = set(path_dir.glob("log_*"))
        rec = execute(job, run, path_dir)
        sys.stdout = devnull
        rec["analysis"] = analyse(path_dir, plots=run.get("plots", False))
        new = sorted(set(path_dir.glob("log_*")) - before)
        # the directory containing the files or the file
        entries = [p for p in new if p.is_file()] or new
        rec["other"] = [analyse(p) for p in entries]
        files = [p for p in entries if p.is_file()] + [
            f for p in entries if p.is_dir() for f in sorted(p.glob("log_*.txt"))
        ]
        rec["parts"], rec["first"] = [], []
        if run.get("parts") and files:
            rng = random.Random(run["seed"])
            path_tmp = Path(wd) / f"parts_{job['id']}"
            rec["parts"], rec["first"] = parts(files[0], path_tmp, rng, run["parts"])
            shutil.rmtree(path_tmp)
        out["runs"].append(rec)
    sys.stdout = sys.__stdout__
    shutil.rmtree(path_dir, ignore_errors=True)
    return out


def main():
    faulthandler.enable()
    path_in, path_out, wd = sys.argv[1:]
    jobs = json.loads(Path(path_in).read_text())
    with open(path_out, "a") as fout:
        for job in jobs:
            t = _time()
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            rec = run_job(job, wd)
            rec["wall"] = round(_time() - t, 4)
            fout.write(json.dumps(rec) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
