"""Histories of executions of the real topologies.

usage: drv_topo.py IN.json OUT.ndjson WORKDIR

job: {"id", "cfg", "steps": [step, ...]}
steps:
  {"op": "run", "executor", "nb", "how", "seed" (virtual time) or -1, "cfg": {updates},
   "crash": -1 | k  (the process group is killed when the k-th result is saved),
   "killio": -1 | k (killed at the k-th system call modifying the result directory),
   "signal": -1 | k (signal 12 sent when the k-th call of a work starts), "stop_if_error"}
  {"op": "delete", "ranks": [...]} delete the results of these ranks (sorted names)
  {"op": "delete_all"}

Each run is done in its own process.
"""

import faulthandler
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

import virt
import topo_lib
import hangs


def sizes(obj):
    return len(obj) if obj is not None else 0


def list_dir(path_parent):
    """Everything beside the images"""
    out = []
    for path in sorted(Path(path_parent).iterdir()):
        out.append(path.name)
    return out


def describe_results(path_dir):
    out = []
    for path in topo_lib.list_results(path_dir):
        out.append(
            [path.name, topo_lib.names_in_result(path), topo_lib.file_digest(path)]
        )
    return out


def reported_names(results):
    return [Path(str(r)).name for r in results or []]


def instrument(topology, step, path_count):
    """Wrap the functions of the works (crash, signal, failures)"""
    works = topology.works
    last = works[-1]
    if step.get("crash", -1) >= 0:
        func = last.func_or_cls

        def save(arg):
            ret = func(arg)
            with open(path_count, "ab", buffering=0) as file:
                file.write(b"x")
            if os.path.getsize(path_count) >= step["crash"]:
                os.killpg(0, signal.SIGKILL)
                time.sleep(10)
            return ret

        last.func_or_cls = save
        if step["crash"] == 0:
            os.killpg(0, signal.SIGKILL)
    if step.get("signal", -1) >= 0:
        for work in works:
            if work.kind is not None and (
                "one shot" in work.kind or "global" in work.kind
            ):
                continue
            work.func_or_cls = make_signal_func(
                work.func_or_cls, path_count, step["signal"], work.name
            )


def make_signal_func(func, path_count, limit, name):
    def wrapped(arg):
        with open(path_count, "ab", buffering=0) as file:
            file.write(b"x")
        if os.path.getsize(path_count) == limit:
            os.kill(int(os.environ["VERIF_PID_RUN"]), signal.SIGUSR2)
        return func(arg)

    return wrapped


def run_one(job, step, wd):
    """In the child process: run one topology and return the record"""
    if step["op"] == "child":
        import topo_extra

        out = {"op": "child", "stop": "normal", "raised": "", "tb": ""}
        old = (sys.stdout, sys.stderr)
        try:
            out["value"] = getattr(topo_extra, step["func"])(job, step, Path(wd))
        except BaseException as exc:  # pylint: disable=broad-except
            out["stop"] = "raised"
            out["raised"] = type(exc).__name__
            out["tb"] = "".join(traceback.format_exception(exc))[-3000:]
        finally:
            sys.stdout, sys.stderr = old
        return out
    cfg = dict(job["cfg"])
    cfg.update(step.get("cfg") or {})
    if step.get("how"):
        cfg["how"] = step["how"]
    executor = step["executor"]
    out = {"op": "run", "stop": "normal", "raised": "", "tb": ""}
    path_images = Path(wd) / "Images"
    if step.get("seed", -1) >= 0 and executor in (
        "exec_async",
        "exec_async_sequential",
    ):
        virt.current = virt.Virtual(step["seed"], 2000)
    else:
        virt.current = None
    old = (sys.stdout, sys.stderr)
    topology = None
    path_count = str(Path(wd) / f"count_{os.getpid()}")
    os.environ["VERIF_PID_RUN"] = str(os.getpid())
    try:
        if step.get("answers"):
            answers = list(step["answers"])
            import fluidimage.topologies.base as tb

            def answer(*args, **kwargs):
                return answers.pop(0)

            tb.query = answer
            import builtins

            builtins.input = answer
        saving = dict(step.get("saving") or {})
        if step.get("path"):
            saving["path"] = Path(wd) / step["path"]
            if step.get("path_as") != "Path":
                saving["path"] = str(saving["path"])
        topology = topo_lib.make_topology(cfg, path_images, **saving)
        instrument(topology, step, path_count)
        if step.get("fail_read"):
            import trace_couples

            trace_couples.instrument(topology, step["fail_read"], [])
        if step.get("couples"):
            import trace_couples

            out["events"] = trace_couples.instrument(topology, **step["couples"])
        kwargs = dict(step.get("kwargs") or {})
        topology.compute(
            executor,
            nb_max_workers=step.get("nb", 2),
            sleep_time=0.01,
            stop_if_error=step.get("stop_if_error", False),
            kwargs_executor=kwargs,
        )
    except BaseException as exc:  # pylint: disable=broad-except
        out["stop"] = "raised"
        out["raised"] = type(exc).__name__
        out["tb"] = "".join(traceback.format_exception(exc))[-3000:]
    finally:
        sys.stdout, sys.stderr = old
    if virt.current is not None and virt.current.timed_out:
        out["stop"] = "hang"
    if job.get("mean") and out["stop"] == "normal":
        import topo_extra

        out["mean"] = topo_extra.describe_mean(topology)
    if topology is not None:
        out["dir"] = Path(topology.path_dir_result).name
        out["how_final"] = str(getattr(topology, "how_saving", ""))
        out["reported"] = reported_names(getattr(topology, "results", None))
        out["nexp"] = getattr(topology.executor, "num_expected_results", -1)
        if out["nexp"] is None:
            out["nexp"] = -1
    return out


def step_run(job, step, wd):
    """Run in its own process group, with a time limit"""
    path_rec = Path(wd) / "step.json"
    path_rec.unlink(missing_ok=True)
    path_images = Path(wd) / "Images"
    known = [p for p in Path(wd).iterdir() if p.is_dir() and p != path_images]
    for path_dir in known:
        topo_lib.age_files(path_dir)
    t0 = time.time()
    if step.get("killio", -1) >= 0:
        path_job = Path(wd) / "job_step.json"
        path_job.write_text(json.dumps([job, step, str(wd), str(path_rec)]))
        env = dict(os.environ)
        env["LD_PRELOAD"] = os.environ["VERIF_KILLIO"]
        env["KILLIO_DIR"] = str(Path(wd).resolve()) + "/Images."
        env["KILLIO_N"] = str(step["killio"])
        env["KILLIO_COUNT"] = str(Path(wd) / "killio_count")
        Path(env["KILLIO_COUNT"]).write_bytes(b"")
        proc = subprocess.Popen(
            [sys.executable, __file__, "--step", str(path_job)],
            env=env,
            start_new_session=True,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
        )
        pid = proc.pid
        wait = lambda: proc.poll()  # noqa
    else:
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                fd = os.open(str(Path(wd) / "child_out"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                rec = run_one(job, step, wd)
                path_rec.write_text(json.dumps(rec))
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(0)

        def wait():
            p, status = os.waitpid(pid, os.WNOHANG)
            return None if p == 0 else os.waitstatus_to_exitcode(status)

    limit = hangs.limit(step.get("timeout", 60))
    rc = None
    pause = 0.002
    while time.time() - t0 < limit:
        rc = wait()
        if rc is not None:
            break
        time.sleep(pause)
        pause = min(0.05, pause * 1.3)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if rc is None:
        hangs.hang()
        while wait() is None:
            time.sleep(0.01)
    if path_rec.exists():
        rec = json.loads(path_rec.read_text())
    else:
        rec = {"op": "run", "stop": "hang" if rc is None else "died", "raised": "", "tb": str(rc)}
        path = Path(wd) / "child_out"
        if path.exists():
            rec["tb"] += path.read_text(errors="replace")[-2000:]
    rec.setdefault("dir", "")
    rec.setdefault("how_final", "")
    rec.setdefault("reported", [])
    rec.setdefault("nexp", -1)
    if step.get("killio", -1) >= 0:
        rec["nio"] = os.path.getsize(env["KILLIO_COUNT"])
    return rec


def describe_parts(path_dir):
    """Names of the results reported by the processes of the last job"""
    jobs = sorted(path_dir.glob("job_*"), key=lambda p: p.stat().st_ctime_ns)
    if not jobs:
        return []
    return [p.read_text().split() for p in sorted(jobs[-1].glob("results_*.txt"))]


def observe(job, wd, rec):
    """State of the disk after a step"""
    wd = Path(wd)
    dirs = {}
    for path in sorted(wd.iterdir()):
        if not path.is_dir() or path.name == "Images":
            continue
        dirs[path.name] = {
            "files": describe_results(path),
            "rewritten": topo_lib.rewritten(path),
            "foreign_ok": topo_lib.are_foreign_files_ok(path),
            "locks": len(list(path.glob("job_*/*.lock"))),
            "parts": describe_parts(path),
            "exceptions": sorted(p.name for p in path.glob("log_*/exception_*")),
        }
    rec["dirs"] = dirs
    rec["outside"] = sorted(
        [p.name, topo_lib.file_digest(p)]
        for p in wd.iterdir()
        if p.is_file() and p.suffix in (".png", ".tif") and p.name.startswith("Images")
    )
    if job.get("extra"):
        import topo_extra

        rec["extra"] = getattr(topo_extra, job["extra"])(wd, rec)
    return rec


def run_job(job, wd0):
    wd = Path(wd0) / f"job_{job['id']}"
    wd.mkdir()
    topo_lib.make_images(job["cfg"], wd / "Images")
    sums = {p.name: p.read_bytes() for p in (wd / "Images").iterdir()}
    steps = []
    for step in job["steps"]:
        if step["op"] in ("run", "child"):
            rec = step_run(job, step, wd)
        elif step["op"] in ("delete", "delete_all"):
            path_dir = wd / step.get("dir", "Images." + default_postfix(job["cfg"]))
            paths = topo_lib.list_results(path_dir)
            if step["op"] == "delete":
                n = len(paths)
                paths = [paths[r % n] for r in step["ranks"]] if n else []
            for path in set(paths):
                path.unlink()
                if step.get("foreign"):
                    topo_lib.write_foreign_files(path)
            rec = {"op": "delete", "deleted": sorted({p.name for p in paths})}
        elif step["op"] == "mkdir":
            path = wd / step["dir"]
            path.mkdir()
            for name in step.get("files", []):
                (path / name).parent.mkdir(exist_ok=True)
                (path / name).write_text("precious")
            rec = {"op": "mkdir"}
        elif step["op"] == "mkfile":
            (wd / step["dir"]).write_text("precious")
            rec = {"op": "mkfile"}
        elif step["op"] == "rmdir":
            path = wd / step["dir"]
            if path.is_dir():
                shutil.rmtree(path)
            else:
                path.unlink(missing_ok=True)
            rec = {"op": "rmdir"}
        else:
            raise ValueError(step["op"])
        steps.append(observe(job, wd, rec))
    oracle = []
    if job.get("oracle"):
        oracle = topo_lib.oracle(job["cfg"], wd / "Images", wd / "oracle")
    pixels = topo_lib.all_pixels(job["cfg"]) if job.get("mean") else []
    images_ok = sums == {p.name: p.read_bytes() for p in (wd / "Images").iterdir()}
    shutil.rmtree(wd, ignore_errors=True)
    return {"id": job["id"], "steps": steps, "oracle": oracle, "pixels": pixels, "images_untouched": images_ok}


POSTFIX = {"piv": "piv", "bos": "bos", "pre": "pre", "im2im": "im2im", "mean": "mean", "surf": "surf", "optflow": "optflow"}


def default_postfix(cfg):
    return cfg.get("postfix") or POSTFIX[cfg["kind"]]


def main():
    faulthandler.enable()
    if sys.argv[1] == "--step":
        job, step, wd, path_rec = json.loads(Path(sys.argv[2]).read_text())
        rec = run_one(job, step, wd)
        Path(path_rec).write_text(json.dumps(rec))
        os._exit(0)
    path_in, path_out, wd = sys.argv[1:]
    jobs = [job for job in json.loads(Path(path_in).read_text()) if job]
    for kind in sorted({job["cfg"]["kind"] for job in jobs}):
        # import once, before the forks
        topo_lib.get_class(kind)
    import fluidimage.executors as ex

    for name in ("exec_async", "exec_async_sequential", "exec_sequential", "multi_exec_async"):
        ex.import_executor_class(name)
    with open(path_out, "a") as fout:
        for job in jobs:
            t = time.time()
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            rec = run_job(job, wd)
            rec["wall"] = round(time.time() - t, 4)
            fout.write(json.dumps(rec) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
