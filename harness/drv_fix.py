"""Calls of WorkFIX in PIV computations with a correlation giving random results.

usage: drv_fix.py IN.json OUT.ndjson WORKDIR
"""

import faulthandler
import hashlib
import io
import json
import os
import pickle
import random
import signal
import sys
import warnings
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np

from fluidimage.calcul.correl import correlation_classes
from fluidimage.calcul.errors import PIVError
from fluidimage.data_objects.piv import ArrayCouple
from fluidimage.works.piv import multipass
from fluidimage.works.piv.fix import WorkFIX
import hangs

NAN = -9999999
BIG = 999999
script = None


class Script:
    def __init__(self, run):
        self.run = run
        self.rng = random.Random(run["seed"])
        self.answers = []

    def answer(self):
        run, rng = self.run, self.rng
        amp = run["amp"]
        base = run["base"]

        def d(spread):
            return [base[i] + rng.randint(-4 * spread, 4 * spread) / 4 for i in range(2)]

        def correl():
            return rng.choice([rng.randint(0, 64), rng.randint(10, 64)]) / 64

        ret = {
            "d": d(amp if rng.random() < run["wild"] else 1),
            "correl": correl(),
            "failed": rng.random() < run["fail"],
            "subpix": rng.random() > run["fail"],
            "peaks": None,
        }
        if run["nb"] > 1:
            n = rng.choice([0, 1, run["nb"] - 1])
            ret["peaks"] = []
            for _ in range(n):
                c = rng.choice([correl(), ret["correl"] * rng.choice([3, 4, 2]) / 4])
                ret["peaks"].append((*d(rng.choice([1, amp])), round(64 * c) / 64))
        self.answers.append(ret)
        return len(self.answers) - 1


class Correl:
    """Gives what is asked by the script"""

    def __init__(self, im0_shape, im1_shape=None, displacement_max=None, **kwargs):
        self.displacement_max = displacement_max

    def get_indices_no_displacement(self):
        return 0.0, 0.0

    def __call__(self, im0, im1):
        ret = np.zeros((3, 3), dtype=np.float32)
        ret[0, 0] = script.answer()
        return ret, 1.0

    def compute_displacements_from_correl(self, correl, norm=1.0):
        ans = script.answers[int(correl[0, 0])]
        if ans["failed"]:
            raise PIVError(explanation="asked", results=(*ans["d"], ans["correl"]))
        return (*ans["d"], ans["correl"], ans["peaks"])

    def apply_subpix(self, dx, dy, correl):
        if not script.answers[int(correl[0, 0])]["subpix"]:
            raise PIVError(explanation="asked")
        return dx + 0.25, dy + 0.25


correlation_classes["verif"] = Correl


def q4(x):
    x = float(x)
    return NAN if x != x else int(round(4 * x))


def q64(x):
    x = float(x)
    return BIG if x != x else int(round(64 * x))


def digest(res):
    h = hashlib.md5()
    for name in ("xs", "ys", "deltaxs_input", "deltays_input", "correls", "secondary_peaks"):
        h.update(pickle.dumps(np.array(getattr(res, name, None), dtype=object).tolist()))
    return h.hexdigest()


def q_param(x):
    return -1 if x is None else int(round(4 * x))


records = []
calcul_original = WorkFIX.calcul


def calcul_recorded(self, res):
    work = self.piv_work
    fix = self.params_fix
    n = len(res.deltaxs)
    rec = {
        "ny": len(work.iyvecs),
        "nx": len(work.ixvecs),
        "dx": [q4(x) for x in res.deltaxs],
        "dy": [q4(x) for x in res.deltays],
        "correl": [q64(x) for x in res.correls_max],
        "failed": sorted(int(k) for k in res.errors),
        "correlmin": int(round(64 * fix.correl_min)),
        "max": q_param(fix.displacement_max),
        "threshold": q_param(fix.threshold_diff_neighbour),
        "failure": "",
        "peaks": [],
    }
    inx = getattr(res, "deltaxs_input", np.zeros(n))
    iny = getattr(res, "deltays_input", np.zeros(n))
    for k, peaks in enumerate(res.secondary_peaks):
        lst = []
        subpix = res.correls[k] is not None and script.answers[int(res.correls[k][0, 0])]["subpix"]
        for dx, dy, c in peaks or []:
            lst.append({"dx": q4(dx + inx[k]), "dy": q4(dy + iny[k]), "correl": q64(c),
                        "subpix": subpix})
        rec["peaks"].append(lst)
    before = digest(res)
    errors = dict(res.errors)
    records.append(rec)
    try:
        with np.errstate(all="ignore"):
            after = calcul_original(self, res)
        rec["adx"] = [q4(x) for x in after.deltaxs]
        rec["ady"] = [q4(x) for x in after.deltays]
        rec["acorrel"] = [q64(x) for x in after.correls_max]
        rec["errors"] = [
            len(after.errors[k].split(" + ")) if k in after.errors else 0 for k in range(n)
        ]
        rec["wrong"] = [
            [int(k), q4(x), q4(after.deltays_wrong[k])] for k, x in after.deltaxs_wrong.items()
        ]
        rec["replaced"] = [
            [int(k), q4(v[0]), q4(v[1]), q64(v[2])]
            for k, v in getattr(after, "replaced_vectors", {}).items()
        ]
        rec["same"] = digest(after) == before and all(
            after.errors[k].startswith(text) for k, text in errors.items() if k in after.errors
        )
    except Exception as exc:  # pylint: disable=broad-except
        rec["failure"] = repr(exc)[:300]
        raise
    return after


WorkFIX.calcul = calcul_recorded


def run_job(job):
    global script
    records.clear()
    script = Script(job)
    params = multipass.WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = 8
    params.piv0.method_correl = "verif"
    params.piv0.nb_peaks_to_search = job["nb"]
    params.piv0.grid.overlap = 0.0
    params.multipass.number = job["passes"]
    params.multipass.use_tps = False
    params.fix.correl_min = job["correl_min"]
    params.fix.threshold_diff_neighbour = job["threshold"]
    params.fix.displacement_max = job["max"]
    if job["strcrop"]:
        params.mask.strcrop = job["strcrop"]
    work = multipass.WorkPIV(params)
    im = np.random.default_rng(0).random(job["shape"]).astype(np.float32)
    couple = ArrayCouple(names=("im0", "im1"), arrays=(im, im.copy()), params_mask=params.mask)
    try:
        with redirect_stdout(io.StringIO()):
            work.calcul(couple)
    except Exception as exc:  # pylint: disable=broad-except
        if not records:
            raise
        # otherwise, interpolation of the field: not the subject
        if "last" in repr(exc):
            print(exc)
    return list(records)


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang("timeout")


def main():
    faulthandler.enable()
    warnings.simplefilter("ignore")
    path_in, path_out, _ = sys.argv[1:]
    jobs = json.loads(Path(path_in).read_text())
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path_out, "a") as fout:
        for job in jobs:
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            out = {"id": job["id"], "failure": "", "recs": []}
            signal.alarm(hangs.limit(60))
            try:
                out["recs"] = run_job(job)
            except Hang as exc:
                hangs.hang()
                out["failure"] = repr(exc)
            except Exception as exc:  # pylint: disable=broad-except
                out["failure"] = repr(exc)[:300]
            finally:
                signal.alarm(0)
            fout.write(json.dumps(out) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
