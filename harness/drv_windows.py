"""Run PIV computations with images made of codes and a correlation which only
looks at the windows.

usage: drv_windows.py IN.json OUT.ndjson WORKDIR
"""

import faulthandler
import io
import json
import os
import random
import signal
import sys
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np

from fluidimage.calcul.correl import correlation_classes
from fluidimage.calcul.errors import PIVError
from fluidimage.data_objects.piv import ArrayCouple
from fluidimage.works.piv import multipass
import hangs

NOTHING = -9999
FACTOR1 = 3
script = None


class Correl:
    """Gives what is asked by the script"""

    def __init__(self, im0_shape, im1_shape=None, displacement_max=None, **kwargs):
        self.im0_shape = im0_shape
        self.im1_shape = im1_shape
        self.displacement_max = displacement_max

    def get_indices_no_displacement(self):
        return 0.0, 0.0

    def __call__(self, im0, im1):
        return script.new_windows(im0, im1), 1.0

    def compute_displacements_from_correl(self, correl, norm=1.0):
        dx, dy, failed = script.found(int(correl.flat[0]))
        if failed:
            raise PIVError(explanation="asked", results=(dx, dy, 0.9))
        return dx, dy, 0.9, []

    def apply_subpix(self, dx, dy, correl):
        return dx + 0.25, dy + 0.25


correlation_classes["verif"] = Correl


def position(window, codes, factor, dtype_min):
    """Position (row, column) of a window in the image, None if it is not a window"""
    h, w = window.shape
    for shift in (dtype_min, 0):
        values = (window + shift) / factor
        iis, jjs = np.nonzero(window)
        if iis.size == 0:
            return (NOTHING, NOTHING)
        vals = values[iis, jjs]
        if not np.all(vals == np.round(vals)):
            continue
        vals = vals.astype(int) - 1
        if vals.min() < 0 or vals.max() >= codes.shape[0] * codes.shape[1]:
            continue
        ps, qs = vals // codes.shape[1] - iis, vals % codes.shape[1] - jjs
        if np.any(ps != ps[0]) or np.any(qs != qs[0]):
            continue
        p, q = int(ps[0]), int(qs[0])
        # the expected content
        pi = np.arange(p, p + h)[:, None] + np.zeros((h, w), int)
        qi = np.arange(q, q + w)[None, :] + np.zeros((h, w), int)
        inside = (
            (pi >= codes.y0) & (pi < codes.y1) & (qi >= codes.x0) & (qi < codes.x1)
        )
        expected = np.where(inside, factor * (pi * codes.shape[1] + qi + 1) - shift, 0)
        if np.array_equal(expected, window):
            return (p, q)
    return None


class Codes:
    def __init__(self, shape, crop):
        self.shape = shape
        self.y0, self.y1, _ = slice(*crop[0]).indices(shape[0])
        self.x0, self.x1, _ = slice(*crop[1]).indices(shape[1])
        self.im = np.arange(1, shape[0] * shape[1] + 1).reshape(shape)
        self.im_cropped = self.im[self.y0 : self.y1, self.x0 : self.x1]


class Script:
    def __init__(self, job, run):
        self.job = job
        self.run = run
        self.codes = Codes(job["shape"], job["crop"])
        self.ipass = -1
        self.records = []
        self.problems = []
        self.rng = random.Random(run["seed"])

    def new_windows(self, im0, im1):
        minimum = int(self.codes.im_cropped.min())
        rec = {}
        for i, (im, factor) in enumerate(((im0, 1), (im1, FACTOR1))):
            pos = position(np.array(im, dtype=float), self.codes, factor, factor * minimum)
            if pos is None:
                self.problems.append(f"window {i} which is not a part of the image")
                pos = (-8888, -8888)
            rec[i] = pos
            rec[f"shape{i}"] = im.shape
        self.records.append(rec)
        ret = np.zeros((3, 3), dtype=np.float32)
        ret[0, 0] = len(self.records) - 1
        return ret

    def found(self, i):
        rec = self.records[i]
        if "found" not in rec:
            rec["found"] = self.choose(rec)
        return rec["found"]

    def choose(self, rec):
        run = self.run
        # the pass is known from the shape of the windows
        ipass = self.job["shapes0"].index(list(rec["shape0"]))
        rng = self.rng
        failed = rng.random() < run["fail"]
        if run["mode"] == "uniform":
            dx, dy = run["d"][ipass]
        elif run["mode"] == "linear" and ipass == 0:
            # the centre of the window 0
            y = rec[0][0] + rec["shape0"][0] // 2 - self.codes.y0
            x = rec[0][1] + rec["shape0"][1] // 2 - self.codes.x0
            a, b = run["ab"]
            dx, dy = (a * x + b * y) / 8, (a * y + b * x) / 8
        else:
            m = run["max"]
            dx, dy = rng.randint(-m, m), rng.randint(-m, m)
        return dx, dy, failed


def as_str_slice(sl):
    return ":".join("" if i is None else str(i) for i in sl)


def make_work(job):
    params = multipass.WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = job["size0"] if job["size0"][0] != job["size0"][1] else job["size0"][0]
    if job["size1"] is not None:
        params.piv0.shape_crop_im1 = job["size1"]
    params.piv0.method_correl = "verif"
    params.piv0.grid.overlap = job["ov"][0] / job["ov"][1]
    params.multipass.number = len(job["zooms"]) + 1
    zooms = job["zooms"]
    params.multipass.coeff_zoom = zooms[0] if zooms and len(set(zooms)) == 1 else tuple(zooms)
    params.multipass.use_tps = job["use_tps"]
    params.fix.correl_min = 0.2
    params.fix.threshold_diff_neighbour = None
    params.fix.displacement_max = None
    if job["crop"] != [[None, None], [None, None]]:
        params.mask.strcrop = ", ".join(as_str_slice(sl) for sl in job["crop"])
    return multipass.WorkPIV(params), params


def q8(x):
    return int(round(float(x) * 8)) if x == x else 0


def run_case(job, work, params, run):
    global script
    script = Script(job, run)
    dtype = np.dtype(run["dtype"])
    arrays = (script.codes.im.astype(dtype), (FACTOR1 * script.codes.im).astype(dtype))
    mask = params.mask if run["mask_given"] and params.mask.strcrop else None
    couple = ArrayCouple(names=("im0", "im1"), arrays=arrays, params_mask=mask)
    failure = ""
    result = None
    try:
        with redirect_stdout(io.StringIO()):
            result = work.calcul(couple)
    except Exception as exc:  # pylint: disable=broad-except
        failure = repr(exc)[:300]
    if script.problems:
        failure = script.problems[0]
    try:
        return describe(job, result, failure)
    except Exception as exc:  # pylint: disable=broad-except
        # the result cannot be described
        return describe(job, None, "result: " + repr(exc)[:300])


def failed_runs(job, failure):
    return [describe(job, None, failure) for _ in job["runs"]]


def describe(job, result, failure):
    passes = []
    for ipass in range(len(job["zooms"]) + 1):
        last = ipass == len(job["zooms"])
        rec = {"pass": ipass, "last": last, "failure": failure, "vecs": [], "grid": [], "final": []}
        passes.append(rec)
        if failure:
            continue
        res = result.passes[ipass]
        n = len(res.xs)
        inx = getattr(res, "deltaxs_input", np.zeros(n, int))
        iny = getattr(res, "deltays_input", np.zeros(n, int))
        for k in range(n):
            correl = res.correls[k]
            dx, dy = float(res.deltaxs[k]), float(res.deltays[k])
            nan = dx != dx and dy != dy
            vec = [int(round(2 * float(res.xs[k]))), int(round(2 * float(res.ys[k])))]
            if correl is None:
                vec += [0, 0, 0, 0, 0]
                found = (0, 0, False)
            else:
                wrec = script.records[int(correl.flat[0])]
                vec += [*wrec[0], *wrec[1], 1]
                found = wrec["found"]
            vec += [int(inx[k]), int(iny[k]), q8(dx), q8(dy), int(nan)]
            vec += [q8(found[0]), q8(found[1]), int(found[2]), int(k in res.errors)]
            rec["vecs"].append(vec)
        if last:
            gx, gy = res.ixvecs_final, res.iyvecs_final
            rec["final"] = [
                [int(a), int(b), int(round(1000 * float(c))), int(round(1000 * float(d)))]
                for a, b, c, d in zip(gx, gy, res.deltaxs_final, res.deltays_final)
            ]
            rec["grid"] = [[int(a), int(b)] for a, b in zip(gx, gy)]
        if ipass > 0:
            # the fields used for a pass are on the grid of this pass
            prev = result.passes[ipass - 1]
            rec["grid"] = [
                [int(a), int(b)] for a, b in zip(prev.ixvecs_approx, prev.iyvecs_approx)
            ]
    return passes


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang("timeout")


def main():
    faulthandler.enable()
    path_in, path_out, _ = sys.argv[1:]
    jobs = json.loads(Path(path_in).read_text())
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path_out, "a") as fout:
        for job in jobs:
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            out = {"id": job["id"], "runs": []}
            signal.alarm(hangs.limit(60))
            try:
                work, params = make_work(job)
                for run in job["runs"]:
                    out["runs"].append(run_case(job, work, params, run))
            except Hang:
                hangs.hang()
                out["runs"] = failed_runs(job, "hang")
            except Exception as exc:  # pylint: disable=broad-except
                out["runs"] = failed_runs(job, repr(exc)[:300])
            finally:
                signal.alarm(0)
            fout.write(json.dumps(out) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
