"""Run executors on synthetic topologies and write what happened.

usage: drv_exec.py IN.json OUT.ndjson WORKDIR
"""

import faulthandler
import json
import os
import shutil
import signal
import sys
import threading
import time
from pathlib import Path

import virt
import synth
import hangs


class Hang(BaseException):
    pass


def slow_pipes(seed):
    """Random durations of the communications between the processes"""
    import random
    from multiprocessing import connection

    cls = connection.Connection
    if not hasattr(cls, "_verif_send"):
        cls._verif_send = cls.send
    if seed is None:
        cls.send = cls._verif_send
        return
    base = seed

    def send(self, obj):
        rng = random.Random(f"{base}-{os.getpid()}-{time.monotonic_ns()}")
        time.sleep(rng.choice([0, 0, 0.01, 0.05, 0.1]))
        self._verif_send(obj)

    cls.send = send


def run_job(job, wd):
    slow_pipes(job.get("slow_pipes"))
    path_dir = Path(wd) / f"res_{job['id']}"
    path_dir.mkdir()
    desc = dict(job["topology"])
    desc["path_dir_result"] = str(path_dir)
    real = job["mode"] == "real"
    path_events = None
    if real:
        path_events = str(path_dir) + ".events"
        desc["path_events"] = path_events
        synth.recorder = synth.Recorder(path_events)
        virt.current = None
    else:
        synth.recorder = synth.Recorder()
        virt.current = virt.Virtual(job["seed"], job["limit"])
    if job.get("signal"):
        synth._ncalls = 0
        path = str(path_dir) + ".count" if real else None
        desc["signal_at"] = [job["signal"], os.getpid(), path]
    out = {"id": job["id"], "raised": "", "stop": "normal"}

    def on_alarm(sig, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, hangs.limit(job.get("timeout", 60)))
    kwargs = {}
    if job.get("qmax"):
        kwargs["nb_items_queue_max"] = job["qmax"]
    if job["executor"] == "exec_async_seq_for_multi":
        path_log = path_dir / "log_x" / "process_000.txt"
        path_log.parent.mkdir()
        (path_dir / "job_x").mkdir()
        kwargs = {"path_log": path_log, "t_start": 0.0, "index_process": 0}
    old = (sys.stdout, sys.stderr)
    topology = None
    try:
        params = {"json": json.dumps(desc)} if real else desc
        topology = synth.TopologySynth(params, logging_level=None)
        topology.compute(
            job["executor"],
            nb_max_workers=job["workers"],
            sleep_time=job.get("sleep", 0.01),
            stop_if_error=job.get("stop_if_error", False),
            kwargs_executor=kwargs,
        )
    except Hang:
        out["stop"] = "hang"
    except BaseException as exc:  # pylint: disable=broad-except
        out["stop"] = "raised"
        out["raised"] = type(exc).__name__

        def leaves(e):
            if isinstance(e, BaseExceptionGroup):
                return sum([leaves(x) for x in e.exceptions], [])
            return [e]

        out["leaves"] = [
            str(e) if isinstance(e, synth.SynthError) else "?" + repr(e)[:300]
            for e in leaves(exc)
        ]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = old
    if virt.current is not None and virt.current.timed_out:
        out["stop"] = "hang"
    if real:
        events = [json.loads(line) for line in open(path_events)]
        pids = {}
        for e in events:
            pids.setdefault(e[0], len(pids))
        out["events"] = [e[1:-1] for e in events]
        out["times"] = [round(e[-1], 4) for e in events]
        out["pids"] = [pids[e[0]] for e in events]
        out["npids"] = len({e[0] for e in events})
    else:
        out["events"] = synth.recorder.events
        out["vruns"] = virt.current.nruns
        out["vthreads"] = virt.current.nthreads
    synth.recorder = None
    out["results"] = sorted(map(str, getattr(topology, "results", None) or []))
    out["nresults"] = len(out["results"])
    out["left"] = (
        sorted({q.name for q in topology.queues if q}) if topology is not None else []
    )
    logs = []
    for path in path_dir.glob("log_*/exception_*"):
        logs.append([path.name, path.read_text()])
    out["logs"] = sorted(logs)
    out["locks"] = [p.parent.name for p in path_dir.glob("job_*/*.lock")]
    shutil.rmtree(path_dir, ignore_errors=True)
    if path_events:
        os.unlink(path_events)
        Path(str(path_dir) + ".count").unlink(missing_ok=True)
        Path(str(path_dir) + ".count_sent").unlink(missing_ok=True)
    return out


def main():
    faulthandler.enable()
    path_in, path_out, wd = sys.argv[1:]
    jobs = json.loads(Path(path_in).read_text())
    with open(path_out, "a") as fout:
        for job in jobs:
            t = time.time()
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            rec = run_job(job, wd)
            if rec["stop"] == "hang":
                hangs.hang()
            rec["wall"] = round(time.time() - t, 4)
            fout.write(json.dumps(rec) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
