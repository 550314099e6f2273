"""Preprocessing of small stacks of images with the real tools and works.

usage: drv_preproc.py IN.json OUT.ndjson WORKDIR

job: {"id", "kind": "func"|"apply"|"work"|"subset", "backend", "dtype", "shape": [nt, ny, nx],
      "seed", "high", "content", "sequence": [names], "ops": [op], "sel": [ni, nj, ind, nb],
      "format", "ext"}
op: see spec/Preproc.tla (weight, lo, hi not scaled: numbers), "nbins", "sigmas"...
"""

import faulthandler
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import warnings
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np

import hangs
from fluiddyn.io.image import imread_h5
from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
from fluidimage.topologies.preproc import TopologyPreproc
from fluidimage.util import imread, imsave
from fluidimage.works.preproc import WorkPreproc

S = 64
NONE = -9999999
SLIDING = ("sliding_median", "sliding_percentile", "sliding_minima")
TEMPORAL = ("temporal_median", "temporal_percentile", "temporal_minima")
EXACT = SLIDING + TEMPORAL + ("global_threshold",)


def make_stack(job):
    nt, ny, nx = job["shape"]
    rng = np.random.default_rng(job["seed"])
    high = job["high"]
    content = job["content"]
    if content == "flat":
        stack = np.full((nt, ny, nx), rng.integers(0, high + 1))
    elif content == "black":
        stack = np.zeros((nt, ny, nx))
    elif content == "sparse":
        stack = rng.integers(0, high + 1, (nt, ny, nx)) * (rng.random((nt, ny, nx)) < 0.2)
    elif content == "few":
        stack = rng.integers(0, 3, (nt, ny, nx)) * (high // 2)
    else:
        stack = rng.integers(0, high + 1, (nt, ny, nx))
    return stack.astype(job["dtype"])


def user_args(op, backend):
    """Parameters of a tool as given by a user"""
    tool = op["tool"]
    args = {}
    weight = op["weight"]
    if weight == int(weight) and op["intweight"]:
        weight = int(weight)
    win = op["win"]
    if tool in SLIDING:
        args["weight"] = weight
        args["window_size"] = win[0] if len(win) == 1 else tuple(win)
        if backend == "python":
            args["boundary_condition"] = op["mode"]
        elif tool == "sliding_minima":
            args["boundary_condition"] = op["cvmode"]
    elif tool in TEMPORAL:
        args["weight"] = weight
        if win:
            args["window_shape"] = win[0] if len(win) == 1 else (tuple if op["seq"] == "tuple" else list)(win)
    elif tool == "global_threshold":
        args["minima"] = op["lo"]
        if op["hi"] is not None:
            args["maxima"] = op["hi"]
    elif tool == "adaptive_threshold":
        args["window_size"] = win[0]
        args["offset"] = op["lo"]
    elif tool == "rescale_intensity":
        args.update(minima=op["lo"], maxima=op["hi"])
    elif tool == "rescale_intensity_tanh":
        args["threshold"] = op["lo"]
    elif tool == "equalize_hist_adapt":
        args["window_shape"] = tuple(win)
    elif tool == "equalize_hist_local":
        args["radius"] = win[0]
    elif tool == "gamma_correction":
        args.update(gamma=op["percentile"], gain=weight)
    elif tool == "sharpen":
        args.update(sigma1=op["lo"], sigma2=op["hi"], alpha=weight)
    if "percentile" in tool:
        args["percentile"] = op["percentile"]
    return args


def spec_op(op, job, first):
    """Step for the specification"""
    cv = job["backend"] == "opencv"
    lo, hi = op["lo"], op["hi"]
    mode = op["mode"]
    if op["tool"] in TEMPORAL:
        mode = "reflect"
    elif cv and op["tool"] == "sliding_median":
        mode = "nearest"
    if op["tool"] == "global_threshold" and hi is None:
        hi = 65535
        if job["dtype"] == "uint8" and first and not cv:
            hi = 255
    if op["tool"] == "sharpen":
        lo = hi = None
    return {
        "tool": op["tool"],
        "cv": cv,
        "weight": int(op["weight"] * 4),
        "percentile": op["percentile"],
        "win": op["win"],
        "mode": mode,
        "lo": NONE if lo is None else int(lo * S),
        "hi": NONE if hi is None else int(hi * S),
        "ints": first and job["dtype"] != "float64",
    }


def scaled(array, exact):
    array = np.asarray(array, dtype=float) * S
    if not np.all(np.isfinite(array)):
        raise Failure("not finite")
    out = np.rint(array)
    if exact and np.max(abs(out - array), initial=0) > 1e-3:
        raise Failure("not exact values")
    return out.astype(int).tolist()


class Failure(Exception):
    pass


def digest(arrays):
    array = np.round(np.asarray(arrays, dtype=float), 5) + 0.0
    return hashlib.md5(repr((array.shape, array.tolist())).encode()).hexdigest()[:8]


def in_order(job, available):
    order = job["sequence"] or available
    names = {op["tool"]: op for op in job["ops"]}
    return [names[name] for name in order if name in names]


def make_params(job, **kw):
    cls = TopologyPreproc if kw else WorkPreproc
    params = cls.create_default_params(backend=job["backend"])
    available = list(params.tools.available_tools)
    if job["sequence"]:
        params.tools.sequence = job["sequence"]
    for op in job["ops"]:
        p_tool = params.tools[op["tool"]]
        p_tool.enable = True
        for key, value in user_args(op, job["backend"]).items():
            setattr(p_tool, key, value)
    for key, value in kw.items():
        setattr(params.saving, key, value)
    return params, available


def run_func(job, stack):
    """One tool called as a function"""
    op = job["ops"][0]
    cls = type(WorkPreproc(make_params(job)[0]).tools)
    tool = getattr(cls, op["tool"])
    kwargs = user_args(op, job["backend"])
    out = tool(stack, **kwargs)
    variants = [
        tool(img=stack, **kwargs),
        tool(list(stack), **kwargs),
        tool(tuple(stack), **kwargs),
        tool(img=list(stack), **kwargs),
    ]
    if op["tool"] not in TEMPORAL:
        variants.append([tool(im, **kwargs) for im in stack])
        variants.append([tool(img=np.asfortranarray(im), **kwargs) for im in stack])
    if op["tool"] in EXACT + ("sharpen", "rescale_intensity", "adaptive_threshold"):
        if op["tool"] != "global_threshold" and job["backend"] == "python":
            variants.append(tool(stack.astype(float), **kwargs))
    return out, variants


def near_explicit(job, stack, out):
    """Default threshold of rescale_intensity_tanh"""
    op = job["ops"][0]
    if op["tool"] != "rescale_intensity_tanh" or op["lo"] is not None:
        return True
    from fluidimage.works.preproc.toolbox import PreprocToolsPy

    for image, result in zip(stack, out):
        threshold = 2 * np.sqrt(np.mean(image.astype(float) ** 2))
        if threshold == 0:
            continue
        other = PreprocToolsPy.rescale_intensity_tanh(image, threshold)
        if np.max(abs(other - result)) > 1.01:
            return False
    return True


def names_of(job):
    nt = job["shape"][0]
    if job["sel"] and job["sel"][1] > 1:
        ni, nj = job["sel"][:2]
        return [f"im{i + 2}{chr(97 + j)}.{job['ext']}" for i in range(ni) for j in range(nj)]
    return [f"im{i + 2}.{job['ext']}" for i in range(nt)]


def run_work(job, stack, workdir):
    path = workdir / job["id"]
    path.mkdir()
    names = names_of(job)
    for name, image in zip(names, stack):
        imsave(path / name, image)
    out_dir = path / "out"
    out_dir.mkdir()
    params, available = make_params(job, format=job["format"])
    params.series.path = str(path)
    work = WorkPreproc(params)
    if job["sel"]:
        ni, nj, ind, nb = job["sel"]
        slicing = f"2:{2 + ni}" + (f",0:{nj}" if nj > 1 else "")
    else:
        slicing = f"2:{2 + len(names)}"
    serie = SerieOfArraysFromFiles(str(path), slicing)
    if job["sel"]:
        arg = {"serie": serie, "ind_serie": ind, "nb_series": nb}
        if job["seed"] % 2:
            arg.update(names=names, arrays=[imread(path / name) for name in names])
    else:
        arg = serie
    result = work.calcul(arg)
    given = list(result.data)
    out = list(result.data.values())
    result.save(str(out_dir))
    saved = []
    for name in given:
        found = [p for p in sorted(out_dir.iterdir()) if p.stem == Path(name).stem]
        if len(found) != 1:
            raise Failure(f"saved as {[p.name for p in sorted(out_dir.iterdir())]}")
        if found[0].suffix == ".h5":
            image = np.squeeze(np.asarray(imread_h5(str(found[0]))))
        else:
            image = imread(found[0])
        saved.append([name, np.asarray(image).astype(int).tolist()])
    shutil.rmtree(path)
    return names, given, out, saved, available


def run_job(job, workdir):
    stack = make_stack(job)
    original = stack.copy()
    available = make_params(job)[1]
    names, given, saved, variants = [], [], [], []
    same = True
    if job["kind"] == "func":
        out, variants = run_func(job, stack)
        same = near_explicit(job, stack, out)
        variants = [digest(out)] + [digest(v) for v in variants]
    elif job["kind"] == "apply":
        tools = WorkPreproc(make_params(job)[0]).tools
        out = tools.apply(stack)
        variants = [digest(out), digest(tools.apply(img=list(stack))), digest(tools.apply(tuple(stack)))]
    else:
        names, given, out, saved, available = run_work(job, stack, workdir)
    ops = in_order(job, available)
    exact = all(op["tool"] in EXACT for op in ops)
    first = ops[0] if ops else None
    return {
        "stack": scaled(original, True),
        "sequence": job["sequence"],
        "available": available,
        "ops": [spec_op(op, job, op is first) for op in job["ops"]],
        "out": scaled(out, exact),
        "variants": variants,
        "same": bool(same and np.array_equal(stack, original)),
        "sel": job["sel"],
        "names": names,
        "given": given,
        "saved": saved,
    }


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang("timeout")


def main():
    faulthandler.enable()
    warnings.simplefilter("ignore")
    path_in, path_out, workdir = sys.argv[1:]
    jobs = json.loads(Path(path_in).read_text())
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path_out, "a") as fout:
        for job in jobs:
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            out = {"id": job["id"], "failure": ""}
            signal.alarm(hangs.limit(60))
            try:
                with redirect_stdout(io.StringIO()):
                    out.update(run_job(job, Path(workdir)))
            except Hang as exc:
                hangs.hang()
                out["failure"] = repr(exc)
            except Exception as exc:  # pylint: disable=broad-except
                out["failure"] = repr(exc)[:300]
            finally:
                signal.alarm(0)
            fout.write(json.dumps(out) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
