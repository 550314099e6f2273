"""Histories of saved, loaded and reduced PIV results.

usage: drv_saved.py IN.json OUT.ndjson WORKDIR
"""

import faulthandler
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from contextlib import redirect_stdout
from pathlib import Path
from shutil import rmtree

import h5py
import numpy as np

from fluiddyn.util.paramcontainer import ParamContainer
from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles, SeriesOfArrays
from fluidimage.data_objects.piv import (
    ArrayCouple,
    ArrayCoupleBOS,
    HeavyPIVResults,
    LightPIVResults,
    MultipassPIVResults,
)
from fluidimage.postproc.piv import PIV2d, get_grid_pixel, get_grid_pixel_from_piv_file
from fluidimage.util import imsave
from fluidimage.works.piv import multipass
import hangs

FIELDS = [
    "xs", "ys", "xs_smooth", "ys_smooth", "deltaxs", "deltays", "correls_max",
    "deltaxs_approx", "deltays_approx", "ixvecs_approx", "iyvecs_approx",
    "deltaxs_final", "deltays_final", "deltaxs_smooth", "deltays_smooth",
    "ixvecs_final", "iyvecs_final",
]
DICTS = ["errors", "deltaxs_wrong", "deltays_wrong"]
MESSAGES = [
    ("Correlation peak touching boundary.", 1), ("correl < correl_min", 2),
    ("delta2 < displacement_max2", 3), ("diff neighbour too large", 4),
    ("Bad im_crop shape.", 255), ("close boundary", 255),
]
KINDS = {"MultipassPIVResults": "multi", "HeavyPIVResults": "heavy", "LightPIVResults": "light"}
CLASSES = {"multi": MultipassPIVResults, "heavy": HeavyPIVResults, "light": LightPIVResults}


class Hang(BaseException):
    pass


class Skip(Exception):
    pass


def md5(b):
    return hashlib.md5(b).hexdigest()[:10]


def digest(arr):
    """Digest of the values in the precision of the files"""
    arr = np.asarray(arr)
    if arr.dtype.kind == "f":
        arr = arr.astype(np.float32)
    else:
        arr = arr.astype(np.int64)
    arr = np.ascontiguousarray(arr)
    return md5(repr((arr.dtype.kind, arr.shape)).encode() + arr.tobytes())


def digest_params(params):
    def norm(v):
        if isinstance(v, dict):
            return {k: norm(x) for k, x in sorted(v.items())}
        if isinstance(v, (list, tuple)):
            return [norm(x) for x in v]
        if isinstance(v, (np.ndarray, np.generic)):
            return norm(v.tolist())
        # booleans are read as integers
        return int(v) if isinstance(v, bool) else v

    return md5(repr(norm(params._make_dict_tree())).encode())


def points(x, y, dx, dy):
    def q(v):
        v = float(np.float32(v))
        return -9999999 if v != v else int(round(64 * v))

    return [[int(a), int(b), q(c), q(d)] for a, b, c, d in zip(x, y, dx, dy)]


def enc_pass(fields, dicts, tps, codes, light=False):
    """Encode a pass from the values"""
    f = [[k, digest(v)] for k, v in sorted(fields.items()) if v is not None]

    def pts(tag):
        names = [k + tag for k in ("ixvecs_", "iyvecs_", "deltaxs_", "deltays_")]
        if any(fields.get(k) is None for k in names):
            return []
        return points(*[fields[k] for k in names])

    u = []
    if not light and fields.get("deltaxs") is not None:
        u = [[k, digest(np.asarray(fields[k], float))] for k in ("correls_max", "xs", "ys") if fields.get(k) is not None]
        u += [[k + "0", digest(np.nan_to_num(fields[k]))] for k in ("deltaxs", "deltays")]
        u.append(["isnan", digest(np.isnan(fields["deltaxs"]).astype(float))])
    d = [
        [k, md5(repr(sorted((int(a), str(b) if k == "errors" else repr(float(np.float32(b)))) for a, b in v.items())).encode())]
        for k, v in sorted(dicts.items())
        if v is not None
    ]
    if tps:
        tps = [[digest(a) for a in lst] for lst in tps]
    grid = []
    if not light and fields.get("xs") is not None:
        grid = [sorted({int(v) for v in np.asarray(fields[k])}) for k in ("xs", "ys")]
    return {"f": f, "d": d, "tps": tps, "codes": codes, "pts": pts("final"), "apts": pts("approx"), "u": u, "g": grid}


def codes_of(errors):
    ret = []
    for k in sorted(errors or {}):
        code = 255
        for m, c in MESSAGES:
            if errors[k].startswith(m[:24]):
                code = c
        ret.append([int(k), code])
    return ret


def enc_object(obj):
    if isinstance(obj, MultipassPIVResults):
        kind = "multi"
        passes = obj.passes
    else:
        kind = "light" if isinstance(obj, LightPIVResults) else "heavy"
        passes = [obj]
    first = passes[0]
    enc = []
    for p in passes:
        fields = {k: getattr(p, k, None) for k in FIELDS}
        dicts = {k: getattr(p, k, None) for k in DICTS}
        tps = []
        if getattr(p, "deltaxs_tps", None) is not None:
            tps = [p.deltaxs_tps, p.deltays_tps]
        enc.append(enc_pass(fields, dicts, tps, codes_of(dicts["errors"]), kind == "light"))
    couple = first.couple
    for p in passes:
        if (p.couple.names, p.couple.paths) != (couple.names, couple.paths) or digest_params(p.params) != digest_params(first.params):
            raise ValueError("passes with different couples or parameters")
    return {
        "kind": kind,
        "passes": enc,
        "params": digest_params(first.params),
        "names": list(couple.names),
        "paths": [str(p) for p in couple.paths] if couple.paths is not None else ["None"],
        "shape": [int(n) for n in couple.shape_images],
        "fname": getattr(obj, "file_name", ""),
    }


def text(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def enc_file(path):
    """Content of a file, with h5py only"""
    with h5py.File(path, "r") as file:
        kind = KINDS.get(text(file.attrs["class_name"]), "?")
        tags = [k for k in file if k.startswith("piv")]
        tags.sort(key=lambda k: (len(k), k))
        if kind == "multi" and tags != [f"piv{i}" for i in range(int(file.attrs["nb_passes"]))]:
            kind = f"passes {tags} {file.attrs['nb_passes']}"
        passes = []
        for tag in tags:
            g = file[tag]
            fields = {k: g[k][...] for k in FIELDS if k in g}
            dicts = {}
            codes = []
            for k in DICTS:
                if k in g:
                    dicts[k] = {int(a): text(b) if k == "errors" else b
                                for a, b in zip(g[k]["keys"][...], g[k]["values"][...])}
                    if k == "errors":
                        codes = sorted([int(a), int(b)] for a, b in zip(g[k]["keys"][...], g[k]["codes"][...]))
            tps = []
            if "deltaxs_tps" in g:
                tps = [[g[k][f"subdom{i}"][...] for i in range(len(g[k]))] for k in ("deltaxs_tps", "deltays_tps")]
            passes.append(enc_pass(fields, dicts, tps, codes, kind == "light"))
        couple = file["couple"]
        names, paths = (eval(text(couple.attrs[k]), {}) for k in ("names", "paths"))
        return {
            "kind": kind,
            "passes": passes,
            "params": digest_params(ParamContainer(hdf5_object=file["params"])),
            "names": list(names),
            "paths": list(paths) if paths is not None else ["None"],
            "shape": [int(n) for n in couple["shape_images"][...]],
        }


def enc_uvmat(path):
    ret = []
    with h5py.File(path, "r") as file:
        i = 1
        while f"Civ{i}_X" in file:
            ret.append([[f"Civ_{k}", digest(file[f"Civ{i}_{k}"][...].astype(float))] for k in ("X", "Y", "U", "V", "C", "FF")])
            i += 1
    return ret


class History:
    def __init__(self, job, workdir):
        self.job = job
        self.rng = random.Random(job["seed"])
        self.nprng = np.random.default_rng(job["seed"])
        self.dir = workdir
        self.objects = []
        self.real = []  # computed by a WorkPIV
        self.images = []  # digest of the images
        self.kinds = []  # argument kind of save
        self.stems = []
        self.paths = []  # of the files
        self.enc_files = {}
        self.fileimages = {}
        self.filereal = {}
        self.filestem = {}
        self.filekind = {}
        self.steps = []
        for name in ("d0", "d1"):
            (workdir / name).mkdir()

    # creation of results

    def couple(self, params, i):
        rng, job = self.rng, self.job
        ny, nx = job["shape"]
        im0 = self.nprng.integers(0, 200, (ny, nx)).astype(np.uint8)
        shift = rng.choice([(0, 1), (1, 0), (1, -2), (2, 2)])
        arrays = (im0, np.roll(im0, shift, (0, 1)))
        if job["couple"] == "arrays":
            names = rng.choice([("a.png", "b.png"), ("im 1.tif", "im'2.tif"), ("É.png", "b-c.png"), ("0.png", "1.png")])
            return ArrayCouple(names=(f"{i}" + names[0], names[1]), arrays=arrays, params_mask=params.mask), None
        path = self.dir / f"im{i}"
        path.mkdir()
        names = rng.choice([
            ("im_1a.png", "im_1b.png"), ("im_03.png", "im_04.png"), ("im_3_7.png", "im_3_9.png"),
            ("a5.tif", "a8.tif"), ("im_09a.png", "im_09b.png"), ("c_4.png", "c_5.png"),
        ])
        subset = {"im_1a.png": "i", "im_03.png": "i:i+2", "im_3_7.png": "i, 7:10:2", "a5.tif": "i:i+4:3",
                  "im_09a.png": "i", "c_4.png": "i:i+2"}[names[0]]
        if names[0] == "im_1a.png" or names[0] == "im_09a.png":
            subset = "i, 0:2"
        for n, a in zip(names, arrays):
            imsave(path / n, a)
        if job["couple"] == "bos":
            serie = SerieOfArraysFromFiles(path)
            c = ArrayCoupleBOS(names=names, arrays=arrays, params_mask=params.mask, serie=serie,
                               paths=[path / n for n in names])
            return c, "bos"
        serie = None
        series = SeriesOfArrays(path, subset, ind_start=int("".join(c for c in names[0].split("_")[-1 if names[0][:2] != "im" else 1] if c.isdigit())))
        for s in series:
            if s.get_name_arrays() == names or list(s.get_name_arrays()) == list(names):
                serie = s
        if serie is None:
            raise Skip
        if rng.random() < 0.5:
            c = ArrayCouple(serie=serie, params_mask=params.mask)
        else:
            c = ArrayCouple(names=names, arrays=arrays, paths=[path / n for n in names], serie=serie, params_mask=params.mask)
        return c, None

    def params(self, number):
        rng = self.rng
        p = multipass.WorkPIV.create_default_params()
        p.multipass.number = number
        p.mask.strcrop = self.job["strcrop"]
        p.piv0.method_correl = rng.choice(["fftw", "np.fft"])
        p.fix.displacement_max = rng.choice([None, 3, 2.5])
        return p

    def synthetic(self):
        rng, job = self.rng, self.job
        n = job["passes"]
        params = self.params(n)
        params.piv0.shape_crop_im0 = rng.choice([16, [16, 12], (8, 10)])
        params.multipass.use_tps = job["tps"]
        if rng.random() < 0.3:
            params._set_child("saving", attribs={"path": rng.choice([None, "a b", "é"]), "how": "ask", "postfix": "piv"})
        couple, kind = self.couple(params, len(self.objects))
        obj = MultipassPIVResults()
        nprng = self.nprng
        for i in range(n):
            ny, nx = rng.randint(2, 4), rng.randint(2, 5)
            nv = ny * nx
            dt = rng.choice([np.float32, np.float64])

            def values():
                v = nprng.random(nv).astype(dt) * 8 - 4
                v[nprng.random(nv) < 0.1] = np.nan
                return v

            errors = {int(k): rng.choice(MESSAGES)[0] + rng.choice(["", " + correl < correl_min", " (diff = 3.01)"])
                      for k in range(nv) if rng.random() < 0.2}
            if rng.random() < 0.2:
                errors = {}
            r = HeavyPIVResults(
                values(), values(), nprng.integers(0, 90, nv), nprng.integers(0, 90, nv), errors,
                correls_max=values(), correls=[np.zeros((2, 2))] * nv, couple=couple, params=params,
                secondary_peaks=[None] * nv,
            )
            if rng.random() < 0.8:
                r.deltaxs_wrong = {k: dt(nprng.random()) for k in errors}
                r.deltays_wrong = {k: dt(nprng.random()) for k in errors}
            gx, gy = np.meshgrid(np.arange(nx) * 7 + rng.randint(0, 5), np.arange(ny) * 5 + rng.randint(0, 5))
            for tag in ["approx"] + ["final"] * (i == n - 1):
                setattr(r, "ixvecs_" + tag, gx.flatten())
                setattr(r, "iyvecs_" + tag, gy.flatten())
                setattr(r, "deltaxs_" + tag, values())
                setattr(r, "deltays_" + tag, values())
            if job["tps"]:
                r.xs_smooth, r.ys_smooth = nprng.integers(0, 90, nv), nprng.integers(0, 90, nv)
                r.deltaxs_smooth, r.deltays_smooth = values(), values()
                nb = rng.choice([1, 4, 12, 23])
                sizes = [rng.randint(3, 6) for _ in range(nb)]
                r.deltaxs_tps, r.deltays_tps = ([nprng.random(s) for s in sizes] for _ in range(2))
            obj.append(r)
        if rng.random() < 0.15:
            obj = obj.passes[0]
        return obj, kind

    def computed(self):
        rng, job = self.rng, self.job
        params = self.params(rng.choice([1, 2, 3]))
        params.piv0.shape_crop_im0 = rng.choice([16, 20, [16, 24]])
        params.piv0.grid.overlap = rng.choice([0.25, 0.5, 0])
        params.piv0.grid["from"] = rng.choice(["overlap"])
        params.multipass.use_tps = rng.choice([False, "last"])
        params.multipass.subdom_size = 40
        params.fix.threshold_diff_neighbour = rng.choice([None, 2])
        params.piv0.nb_peaks_to_search = rng.choice([1, 2])
        couple, kind = self.couple(params, len(self.objects))
        with redirect_stdout(io.StringIO()):
            obj = multipass.WorkPIV(params).calcul(couple)
        if not hasattr(obj.passes[-1], "deltaxs_final"):
            raise Skip
        return obj, kind

    # operations

    def add(self, obj, real, images, kind, stem):
        self.objects.append(obj)
        self.real.append(real)
        self.images.append(images)
        self.kinds.append(kind)
        self.stems.append(stem)

    def op_create(self):
        real = self.job["real"]
        try:
            obj, kind = self.computed() if real else self.synthetic()
        except Exception as e:
            raise Skip from e
        couple = obj.couple if isinstance(obj, HeavyPIVResults) else obj.passes[0].couple
        images = "" if couple.paths is None else md5(b"".join(digest(a).encode() for a in couple.arrays))
        self.add(obj, real, images, kind, "")
        return {"op": "create"}, lambda: None

    def choose(self, kinds, cond=lambda i: True):
        ok = [i for i, o in enumerate(self.objects) if enc_kind(o) in kinds and cond(i)]
        if not ok:
            raise Skip
        return self.rng.choice(ok)

    def op_save(self):
        rng = self.rng
        i = self.choose(["multi", "heavy", "light"])
        obj = self.objects[i]
        d = rng.choice(["d0", "d1"])
        path_dir = self.dir / d
        step = {"op": "save", "i": i + 1, "dir": d}
        arg = str(path_dir) if rng.random() < 0.5 else path_dir
        kind = self.kinds[i]
        kind_obj = enc_kind(obj)
        exact = kind_obj == "multi" and rng.random() < 0.2

        def func():
            name0 = None
            if exact:
                # a path of file
                name0 = f"given{len(self.steps)}.h5"
                ret = obj.save(str(path_dir / name0), kind=kind)
            else:
                cwd = rng.random() < 0.2
                if cwd:
                    os.chdir(path_dir)
                    ret = obj.save(kind=kind)
                    os.chdir(self.dir)
                    if kind_obj != "light":
                        ret = path_dir / ret
                else:
                    ret = obj.save(arg, kind=kind)
            if kind_obj == "light":
                if ret is not obj:
                    raise TypeError("result of save")
                now = {str(p.relative_to(self.dir)) for p in self.dir.glob("d?/*") if p.name.endswith("_light.h5")}
                changed = [p for p in now if os.stat(self.dir / p).st_mtime_ns >= start]
                if len(changed) != 1:
                    raise ValueError(f"light files {changed}")
                path = changed[0]
            else:
                path = str(Path(ret).relative_to(self.dir))
            name = Path(path).name
            if len(list(self.dir.glob("d?/.tmp*"))):
                raise ValueError("temporary files")
            stem = name[:-3]
            if kind_obj == "light" and stem.endswith("_light"):
                stem = stem[: -len("_light")]
            if name0 is not None:
                stem = name0[:-3]
            elif self.stems[i]:
                stem = self.stems[i]
            elif getattr(obj, "file_name", ""):
                stem = obj.file_name[:-3]
            else:
                self.stems[i] = stem
            step["stem"] = stem
            step["path"] = path
            if path not in self.paths:
                self.paths.append(path)
            self.fileimages[path] = self.images[i]
            self.filereal[path] = self.real[i]
            self.filekind[path] = kind_obj

        start = 0

        def run():
            nonlocal start
            probe = self.dir / "probe"
            probe.write_text("")
            start = os.stat(probe).st_mtime_ns
            time.sleep(0.002)
            func()

        return step, run

    def op_load(self):
        rng = self.rng
        if not self.paths:
            raise Skip
        path = rng.choice(self.paths)
        file = self.enc_files[path]
        allowed = {"multi": ["multi", "multi", "heavy", "light"], "heavy": ["heavy"], "light": ["light"]}[file["kind"]]
        cls = rng.choice(allowed)
        step = {"op": "load", "path": path, "which": cls, "stem": Path(path).name, "images0": self.fileimages[path]}
        if cls == "heavy" and not file["passes"]:
            raise Skip

        def func():
            arg = self.dir / path
            if rng.random() < 0.5:
                arg = str(arg)
            obj = CLASSES[cls](str_path=arg)
            couple = obj.couple
            step["images"] = step["images0"]
            if step["images0"]:
                step["images"] = md5(b"".join(digest(a).encode() for a in couple.get_arrays()))
            if cls == "multi":
                if obj.params is not obj.passes[0].params or obj[0] is not obj.piv0:
                    raise ValueError("attributes of the passes")
            self.add(obj, self.filereal[path] and cls == "multi", self.fileimages[path], None, "")

        return step, func

    def op_light(self):
        i = self.choose(["multi"])
        obj = self.objects[i]
        n = len(obj.passes)
        ipass = self.rng.choice([-1, -1, n - 1, self.rng.randrange(n), -self.rng.randint(1, n)])
        step = {"op": "light", "i": i + 1, "ipass": ipass}

        def func():
            ret = obj.make_light_result() if ipass == -1 else obj.make_light_result(ipass)
            stem = "" if not getattr(obj, "file_name", "") else obj.file_name[:-3]
            self.add(ret, False, self.images[i], self.kinds[i], stem)

        return step, func

    def op_field(self):
        paths = [p for p in self.paths if self.enc_files[p]["kind"] in ("multi", "light")]
        if not paths:
            raise Skip
        path = self.rng.choice(paths)
        step = {"op": "field", "path": path}

        def func():
            f = PIV2d.from_file(self.dir / path)
            if digest_params(f.params) != self.enc_files[path]["params"]:
                raise ValueError("parameters")
            x, y = np.meshgrid(f.x, f.y)
            step["pts"] = points(x.flatten(), y.flatten(), f.vx.flatten(), f.vy.flatten())

        return step, func

    def op_grid(self):
        i = self.choose(["multi"], lambda i: self.real[i])
        obj = self.objects[i]
        n = len(obj.passes)
        ipass = self.rng.choice([-1, n - 1, self.rng.randrange(n), -self.rng.randint(1, n)])
        step = {"op": "grid", "i": i + 1, "ipass": ipass}
        paths = [p for p in self.paths if self.enc_files[p]["kind"] == "multi"
                 and self.enc_files[p]["passes"] == enc_object(obj)["passes"]]

        def func():
            if paths and self.rng.random() < 0.5:
                x, y = get_grid_pixel_from_piv_file(self.dir / self.rng.choice(paths), ipass)
            elif self.rng.random() < 0.5:
                x, y = get_grid_pixel(obj.passes[0].params, obj.passes[0].couple.shape_images, ipass)
            else:
                x, y = obj.get_grid_pixel(ipass)
            step["xs"] = [int(v) for v in x]
            step["ys"] = [int(v) for v in y]
            if sorted(set(step["xs"])) != step["xs"] or sorted(set(step["ys"])) != step["ys"]:
                raise ValueError("grid")

        return step, func

    def op_uvmat(self):
        i = self.choose(["multi"])
        obj = self.objects[i]
        step = {"op": "uvmat", "i": i + 1}

        def func():
            d = self.dir / "uvmat"
            d.mkdir(exist_ok=True)
            with redirect_stdout(io.StringIO()):
                path = obj.save(str(d), "uvmat", kind=self.kinds[i])
            step["uvmat"] = enc_uvmat(path)
            rmtree(d)

        return step, func

    OPS = ["save"] * 4 + ["load"] * 4 + ["light"] * 2 + ["field", "field", "grid", "grid", "uvmat", "create"]

    def run(self):
        nb = 0
        while nb < self.job["nb"]:
            nb += 1
            name = "create" if nb == 1 else self.rng.choice(self.OPS)
            if name in ("create", "load", "light") and len(self.objects) >= 7:
                continue
            try:
                step, func = getattr(self, "op_" + name)()
            except Exception:
                # Skip, or a wrong object (already recorded)
                if nb == 1:
                    return
                continue
            full = {"i": 0, "dir": "", "stem": "", "path": "", "which": "", "images": "", "images0": "",
                    "ipass": 0, "pts": [], "xs": [], "ys": [], "uvmat": [], "failure": "", "objs": [], "files": []}
            for k, v in full.items():
                step.setdefault(k, v)
            self.steps.append(step)
            try:
                with np.errstate(all="ignore"):
                    func()
                step["objs"] = [enc_object(o) for o in self.objects]
                present = {str(p.relative_to(self.dir)) for p in self.dir.glob("d?/*")}
                if present != set(self.paths):
                    raise ValueError(f"files {sorted(present ^ set(self.paths))}")
                self.enc_files = {p: enc_file(self.dir / p) for p in self.paths}
                step["files"] = [[p, self.enc_files[p]] for p in self.paths]
            except Exception as e:
                os.chdir(self.dir)
                step["failure"] = f"{type(e).__name__}: {e}"[:200]
                step["trace"] = traceback.format_exc()[-1500:]
                return


def enc_kind(o):
    return KINDS[type(o).__name__]


def main():
    faulthandler.enable()
    path_in, path_out, workdir = sys.argv[1:4]
    workdir = Path(workdir)
    workdir.mkdir(parents=True, exist_ok=True)
    warnings.simplefilter("ignore")

    def on_alarm(*args):
        raise Hang

    signal.signal(signal.SIGALRM, on_alarm)
    with open(path_out, "w") as out:
        for job in json.load(open(path_in)):
            if hangs.skip():
                print(json.dumps(hangs.skipped(job)), file=out, flush=True)
                continue
            path = workdir / job["id"]
            path.mkdir()
            os.chdir(path)
            hist = History(job, path)
            signal.alarm(hangs.limit(100))
            failure = ""
            try:
                hist.run()
            except Hang:
                failure = "hang"
                hangs.hang()
            finally:
                signal.alarm(0)
            os.chdir(workdir)
            rmtree(path)
            rec = {"id": job["id"], "steps": hist.steps, "failure": failure}
            print(json.dumps(rec), file=out, flush=True)


if __name__ == "__main__":
    main()
