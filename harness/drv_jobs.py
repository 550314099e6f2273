"""Histories of executions in one result directory, observed from outside and
from inside of the executions.

usage: drv_jobs.py IN.json OUT.ndjson WORKDIR

job: {"id", "cfg", "sessions": [session, ...], "concurrent": bool, "repeat": bool}
session: list of runs executed in the same process
run: {"x": name, "executor", "nb", "how", "stop_if_error", "fail": k (the k-th call
      of a work raises), "signal": k, "kill": k, "pause": duration of each call, "racy": bool,
      "loggers": number of handlers of the user, "monitor": bool}

events: see JobsTrace.tla
"""

import asyncio
import faulthandler
import json
import logging
import os
import shutil
import signal
import sys
import time
import traceback
from pathlib import Path

import topo_lib
import hangs

T0 = time.monotonic()


def now():
    return int((time.monotonic() - T0) * 1e6)


class Log:
    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)

    def __call__(self, **event):
        os.write(self.fd, (json.dumps(event) + "\n").encode())


def read_text(path):
    try:
        return path.read_text()
    except OSError:
        return None


def snapshot(path_dir, deep=False):
    """The job records of a result directory (each file read once)"""
    out = []
    for path in sorted(path_dir.glob("job_*")):
        nums = []
        names = []
        # the numbers, then the names (written in the opposite order at worst)
        for p in sorted(path.glob("len_results*.txt")):
            content = (read_text(p) or "").strip()
            nums.append([p.name[len("len_"):], int(content) if content.isdigit() else -1])
        for p in sorted(path.glob("results*.txt")):
            text = read_text(p) or ""
            # the last line may be incomplete
            names.append([p.name, text.split("\n")[:-1]])
        lock = (path / "is_running.lock").exists()
        end = bool((read_text(path / "time_end.txt") or "").strip())
        rec = {"job": path.name, "lock": lock, "end": end, "nums": nums, "names": names}
        if deep:
            rec["params"] = readable(path / "params.xml")
            rec["info"] = readable(path / "info.xml")
        out.append(rec)
    return out


def readable(path):
    from fluidimage import ParamContainer

    try:
        ParamContainer(path_file=path)
    except Exception:  # pylint: disable=broad-except
        return False
    return True


class RacyList(list):
    """A list whose slices are slow: other threads can add items meanwhile"""

    def __getitem__(self, index):
        ret = super().__getitem__(index)
        if isinstance(index, slice):
            time.sleep(0.03)
        return ret


class WorkError(Exception):
    pass


def next_index(path):
    """Number of the call, between all processes"""
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, b"x")
    n = os.lseek(fd, 0, os.SEEK_CUR)
    os.close(fd)
    return n


def instrument(topology, run, log, path_count, path_dir):
    pid = os.getpid()
    works = [
        w
        for w in topology.works
        if w.kind is None or ("one shot" not in w.kind and "global" not in w.kind)
    ]
    for iwork, work in enumerate(works):
        work.func_or_cls = wrap(
            work.func_or_cls, iwork == len(works) - 1, run, log, path_count, path_dir, pid
        )


def wrap(func, last, run, log, path_count, path_dir, pid):
    def wrapped(arg):
        index = next_index(path_count)
        t = now()
        jobs = snapshot(path_dir, deep=True)
        log(e="call", x=run["x"], t=t, t1=now(), last=last, jobs=jobs)
        if index == run.get("signal"):
            os.kill(pid, signal.SIGUSR2)
        if index == run.get("kill"):
            os.killpg(pid, signal.SIGKILL)
        if run.get("pause"):
            time.sleep(run["pause"])
        try:
            if index == run.get("fail"):
                raise WorkError(str(index))
            return func(arg)
        finally:
            t = now()
            log(e="ret", x=run["x"], t=t, t1=t, last=last)

    return wrapped


def open_files(path_dir):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(str(path_dir) + "/"):
            out.append(os.path.basename(target))
    return sorted(out)


def log_entries(path_dir):
    """Digests of the log entries, and the text of the main logs"""
    import hashlib

    out = {}
    for path in sorted(path_dir.glob("log_*")):
        files = sorted(path.rglob("*")) if path.is_dir() else [path]
        h = hashlib.sha1()
        text = ""
        for p in files:
            if p.is_file():
                content = p.read_bytes()
                h.update(p.name.encode() + content)
                if p.name.startswith("log_"):
                    text += content.decode(errors="replace")
        name = path.name[:-4] if path.suffix == ".txt" and path.is_file() else path.name
        name = name[len("log_") :]
        digest, t = out.get(name, ("", ""))
        out[name] = (digest + h.hexdigest()[:8], t + text)
    return out


class Errors(logging.Handler):
    """Errors during the logging"""


def do_run(job, run, wd, log):
    path_images = wd / "Images"
    cfg = dict(job["cfg"])
    cfg["how"] = run["how"]
    path_dir = wd / job["dir"]
    stdout, stderr = sys.stdout, sys.stderr
    logger = logging.getLogger("fluidimage")
    for handler in list(logger.handlers):
        logger.removeHandler(handler)
    for _ in range(run.get("loggers", 0)):
        logger.addHandler(logging.StreamHandler(sys.stdout))
    logs0 = log_entries(path_dir)
    path_count = str(wd / f"count_{run['x']}")
    rec = {"stop": "normal", "raised": "", "tb": "", "suffix": "", "reported": [], "job": "", "nexp": -1}
    topology = None
    t = now()
    log(e="begin", x=run["x"], t=t, t1=t)
    try:
        topology = topo_lib.make_topology(cfg, path_images, logging_level=run.get("level"))
        if run.get("racy"):
            topology.results = RacyList(topology.results)
        instrument(topology, run, log, path_count, path_dir)
        topology.compute(
            run["executor"],
            nb_max_workers=run["nb"],
            sleep_time=0.01,
            stop_if_error=run.get("stop_if_error", False),
        )
    except BaseException as exc:  # pylint: disable=broad-except
        rec["stop"] = "raised"
        rec["raised"] = type(exc).__name__
        rec["tb"] = "".join(traceback.format_exception(exc))[-2000:]
    rec["t"] = now()
    rec["streams"] = sys.stdout is stdout and sys.stderr is stderr
    sys.stdout, sys.stderr = stdout, stderr
    rec["fds"] = open_files(path_dir)
    if topology is not None and topology.executor is not None:
        name = Path(topology.executor.path_job_data).name
        rec["suffix"] = name[len("job_") :]
        # no job record for an execution with nothing to compute
        rec["job"] = name if (path_dir / name).exists() else ""
        nexp = getattr(topology.executor, "num_expected_results", -1)
        rec["nexp"] = -1 if nexp is None else nexp
        rec["reported"] = [Path(str(r)).name for r in getattr(topology, "results", [])]
    logs1 = log_entries(path_dir)
    rec["newlogs"] = sorted(set(logs1) - set(logs0))
    rec["changedlogs"] = sorted(k for k in logs0 if k not in logs1 or logs1[k] != logs0[k])
    text = "".join(logs1[k][1] for k in rec["newlogs"])
    rec["logstart"] = "starting execution" in text
    rec["logend"] = "end of `compute`" in text and "Stop compute after t = " in text
    # the logger can be used after the execution
    errors = []
    old = logging.Handler.handleError
    logging.Handler.handleError = lambda self, record: errors.append(1)
    print("text printed after the execution")
    logger.warning("warning after the execution")
    sys.stdout.flush()
    logging.Handler.handleError = old
    logs2 = log_entries(path_dir)
    own = rec["suffix"]
    rec["logger_ok"] = not errors and logs1.get(own) == logs2.get(own)
    rec["jobs"] = snapshot(path_dir, deep=True)
    if run.get("monitor") and rec["job"]:
        rec["monitor"] = monitor(path_dir)
    else:
        rec["monitor"] = []
    log(e="end", x=run["x"], t1=now(), **rec)


def make_monitor(path_dir):
    import argparse

    from fluidimage.gui.monitor import MonitorApp

    return MonitorApp(argparse.Namespace(path=str(path_dir)))


def monitor(path_dir):
    """What is shown by the monitor: job, is running, number of results"""
    try:
        app = make_monitor(path_dir)
        shown = {}

        async def look():
            async with app.run_test() as pilot:
                app.update_info()
                await pilot.pause()
                shown["num"] = app.digit_num_results.value
                shown["label"] = str(app.label_times.render())

        asyncio.run(look())
        job = Path(app.path_job_info).name
        running = "Started since" in shown["label"]
        return [[job, running, int(shown["num"])]]
    except Exception as exc:  # pylint: disable=broad-except
        return [["?" + repr(exc)[:300], False, -1]]


def session_process(job, session, wd, log):
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            fd = os.open(str(wd / "child_out"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            for run in session:
                do_run(job, run, wd, log)
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(0)
    return pid


def repeat(job, wd):
    """Repeat the first computation from the parameters in its job record"""
    from fluidimage import ParamContainer

    path_dir = wd / job["dir"]
    out = []
    for path in sorted(path_dir.glob("job_*"))[:1]:
        path_new = wd / "repeat"
        pid = os.fork()
        if pid == 0:
            try:
                fd = os.open("/dev/null", os.O_WRONLY)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                params = ParamContainer(path_file=path / "params.xml")
                params.saving.path = str(path_new)
                params.saving.how = "recompute"
                path_xml = wd / "params_repeat.xml"
                params._save_as_xml(path_xml)
                sys.argv = ["run_from_xml", str(path_xml)]
                os.environ.pop("DISPLAY", None)
                from fluidimage import run_from_xml
                from fluidimage.topologies.base import TopologyBase

                compute = TopologyBase.compute
                TopologyBase.compute = lambda self, **kw: compute(self, "exec_sequential")
                run_from_xml.main()
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        out = [
            [p.name, topo_lib.file_digest(p)] for p in topo_lib.list_results(path_new)
        ]
    return out


def poll(path_dir, log):
    t = now()
    jobs = snapshot(path_dir)
    log(e="poll", x="", t=t, t1=now(), jobs=jobs)
    return jobs


def run_job(job, wd0):
    wd = Path(wd0) / f"job_{job['id']}"
    wd.mkdir()
    topo_lib.make_images(job["cfg"], wd / "Images")
    path_events = wd / "events.ndjson"
    log = Log(path_events)
    path_dir = wd / job["dir"]
    groups = [job["sessions"]] if job.get("concurrent") else [[s] for s in job["sessions"]]
    deadline = time.monotonic() + hangs.limit(job.get("timeout", 90))
    hang = False
    app = None
    for sessions in groups:
        pids = {session_process(job, session, wd, log) for session in sessions}
        every = set(pids)
        while pids and time.monotonic() < deadline:
            jobs = poll(path_dir, log)
            if app is None and job.get("live") and any(j["lock"] for j in jobs):
                try:
                    app = make_monitor(path_dir)
                    app.detect_results()
                except Exception:  # pylint: disable=broad-except
                    # the job directory may be incomplete
                    app = None
            for pid in list(pids):
                if os.waitpid(pid, os.WNOHANG)[0]:
                    pids.discard(pid)
            time.sleep(0.015)
        hang = hang or bool(pids)
        for pid in every:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in pids:
            os.waitpid(pid, 0)
    live = []
    if app is not None:
        app.detect_results()
        live = [[Path(app.path_job_info).name, bool(app.check_is_running()), app.num_results]]
    poll(path_dir, log)
    events = [json.loads(line) for line in path_events.read_text().splitlines()]
    events.sort(key=lambda ev: ev["t"])
    files = [[p.name, topo_lib.file_digest(p)] for p in topo_lib.list_results(path_dir)]
    rec = {
        "id": job["id"],
        "events": events,
        "hang": hang,
        "files": files,
        "live": live,
        "repeat": repeat(job, wd) if job.get("repeat") else [],
        "out": (read_text(wd / "child_out") or "")[-1500:] if hang else "",
    }
    os.close(log.fd)
    shutil.rmtree(wd, ignore_errors=True)
    return rec


def main():
    faulthandler.enable()
    path_in, path_out, wd = sys.argv[1:]
    jobs = [job for job in json.loads(Path(path_in).read_text()) if job]
    for kind in sorted({job["cfg"]["kind"] for job in jobs}):
        topo_lib.get_class(kind)
    import fluidimage.executors as ex

    for name in ("exec_async", "exec_async_sequential", "exec_sequential", "multi_exec_async"):
        ex.import_executor_class(name)
    with open(path_out, "a") as fout:
        for job in jobs:
            t = time.time()
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            rec = run_job(job, wd)
            if rec["hang"]:
                hangs.hang()
            rec["wall"] = round(time.time() - t, 4)
            fout.write(json.dumps(rec) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
