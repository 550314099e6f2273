"""Real topologies of fluidimage on small images, described by dictionaries

cfg: {"kind": "piv"|"bos"|"pre"|"im2im"|"mean", "s": description of the names (see
      spec/Names.tla), "over": "series"|"images", "mode", "sub", "start", "stop", "step",
      "reference": name or "", "im2im": ""|"func"|"cls", "shape": [ny, nx], ...}
"""

import hashlib
import os
from pathlib import Path

import numpy as np
from PIL import Image

from topo_names import elements, image_names, name_of, str_subset  # noqa: F401


def make_image(cfg, rank):
    shape = cfg.get("shape", (24, 26))
    content = cfg.get("content", "pattern")
    dtype = np.dtype(cfg.get("dtype", "uint8"))
    if content == "const":
        return np.full(shape, 1 + rank, dtype=dtype)
    if content == "high":
        high = np.iinfo(dtype).max
        rng = np.random.default_rng([cfg.get("seed", 0), rank])
        return rng.integers(high - 3, high, shape, endpoint=True).astype(dtype)
    if content == "random":
        rng = np.random.default_rng([cfg.get("seed", 0), rank])
        high = np.iinfo(dtype).max
        return rng.integers(0, high, shape, endpoint=True).astype(dtype)
    rng = np.random.default_rng(cfg.get("seed", 0))
    base = rng.integers(0, 255, (shape[0] + 64, shape[1] + 64)).astype(np.uint8)
    if content == "grid":
        return make_grid_image(shape, rank, rng, dtype)
    # moving pattern
    dy, dx = rank % 3, rank % 4
    return base[dy : dy + shape[0], dx : dx + shape[1]].copy()


def make_grid_image(shape, rank, rng, dtype):
    """A projected grid (large jumps of the phase between the images)"""
    amplitude = rng.uniform(1, 6)
    y, x = np.mgrid[: shape[0], : shape[1]]
    phase = 2 * np.pi * x / 6.5 + amplitude * rank + 0.3 * np.sin(y / 5 + rank)
    image = 100 + 60 * np.cos(phase) + rng.integers(0, 10, shape)
    if dtype.kind == "u" and dtype.itemsize == 2:
        # an object (see WorkSurfaceTracking.get_borders)
        image = image * 10 + 200
        left = 6 + rank % 4
        image[:, :left] = 10
        image[:, shape[1] - 5 + rank % 3 :] = 10
    return image.astype(dtype)


def all_pixels(cfg):
    """Values of the pixels of the images, by rank"""
    return [
        make_image(cfg, rank).ravel().tolist() for rank, _ in enumerate(image_names(cfg))
    ]


def make_images(cfg, path_dir):
    path_dir = Path(path_dir)
    path_dir.mkdir(parents=True, exist_ok=True)
    for rank, (_, name) in enumerate(image_names(cfg)):
        fmt = None if cfg["s"]["ext"] else "png"
        Image.fromarray(make_image(cfg, rank)).save(path_dir / name, format=fmt)
    for name in cfg.get("unreadable", []):
        (path_dir / name).write_bytes(b"this is not an image")
    for name in cfg.get("missing", []):
        (path_dir / name).unlink()
    return path_dir


def im2im_func(tuple_image_path):
    path, image = tuple_image_path
    assert isinstance(path, str), path
    return (255 - image).astype(np.uint8)


def im2im_float(tuple_image_path):
    """an image of 64 bits floats"""
    _, image = tuple_image_path
    return image / 4.0


def im2im_16(tuple_image_path):
    """an image of 16 bits integers"""
    _, image = tuple_image_path
    return image.astype(np.uint16) * 16


class Im2ImCls:
    def __init__(self, value):
        self.value = value

    def calcul(self, tuple_image_path):
        path, image = tuple_image_path
        assert isinstance(path, str), path
        return (image // 2 + self.value).astype(np.uint8)


IM2IM_FUNCS = ("func", "float", "16")


def set_im2im(params, cfg):
    if cfg.get("im2im") in IM2IM_FUNCS:
        params.im2im = "topo_lib.im2im_" + cfg["im2im"]
    elif cfg.get("im2im") == "cls":
        params.im2im = "topo_lib.Im2ImCls"
        params.args_init = (3,)


def get_class(kind):
    if kind == "piv":
        from fluidimage.piv import Topology
    elif kind == "bos":
        from fluidimage.bos import Topology
    elif kind == "optflow":
        from fluidimage.optical_flow import Topology
    elif kind == "pre":
        from fluidimage.preproc import Topology
    elif kind == "im2im":
        from fluidimage.image2image import Topology
    elif kind == "mean":
        from fluidimage.topologies.mean import Topology
    elif kind == "surf":
        from fluidimage.topologies.surface_tracking import Topology
    else:
        raise ValueError(kind)
    return Topology


def make_params(cfg, path_dir):
    kind = cfg["kind"]
    cls = get_class(kind)
    params = cls.create_default_params()
    path_dir = Path(path_dir)
    path_images = str(path_dir)
    if cfg.get("slash"):
        path_images += "/"
    if cfg.get("from_file"):
        path_images = str(path_dir / image_names(cfg)[0][1])
    if cfg["over"] == "series":
        params.series.path = path_images
        params.series.str_subset = str_subset(cfg)
        for key in ("start", "stop", "step"):
            if cfg.get(key, -1) != -1:
                setattr(params.series, "ind_" + key, cfg[key])
    else:
        params.images.path = path_images
        params.images.str_subset = str_subset(cfg)
    if kind in ("piv", "bos"):
        params.piv0.shape_crop_im0 = cfg.get("crop", 12)
        params.piv0.method_correl = cfg.get("method", "np.fft")
        params.piv0.nb_peaks_to_search = 1
        if "grid" in cfg:
            params.piv0.grid.overlap = cfg["grid"]
        params.multipass.number = cfg.get("passes", 1)
        params.multipass.use_tps = cfg.get("tps", False)
        params.fix.correl_min = 0.05
        set_im2im(params.preproc, cfg)
    if kind == "optflow":
        params.optical_flow.winSize = (9, 9)
        params.optical_flow.maxLevel = 1
        params.features.blockSize = 5
        params.filters.displacement_max = cfg.get("displacement_max", 8)
        set_im2im(params.preproc, cfg)
    if cfg.get("strcrop"):
        params.mask.strcrop = cfg["strcrop"]
    if kind == "bos":
        params.reference = cfg.get("reference_param", cfg.get("reference"))
    if kind == "pre":
        set_im2im(params.im2im, cfg)
        if cfg.get("tools"):
            params.tools.sequence = cfg["tools"]
            for tool in cfg["tools"]:
                params.tools[tool].enable = True
                if tool.startswith("sliding"):
                    params.tools[tool].window_size = 5
    if kind == "im2im":
        set_im2im(params, cfg)
    if kind == "surf":
        params.images.path_ref = str(path_dir)
        params.images.str_subset_ref = cfg["ref_subset"]
        work = params.surface_tracking
        work.xmin, work.xmax, work.ymin, work.ymax = cfg["box"]
        work.sur = 4
        for key in ("crop_edge", "correct_pos", "correct_height"):
            work[key] = cfg.get(key, False)
        set_im2im(params.preproc, cfg)
    params.saving.how = cfg.get("how", "recompute")
    if cfg.get("format"):
        params.saving.format = cfg["format"]
    if cfg.get("postfix"):
        params.saving.postfix = cfg["postfix"]
    return params


def make_topology(cfg, path_dir, logging_level=None, **kw):
    params = make_params(cfg, path_dir)
    for key, value in kw.items():
        setattr(params.saving, key, value)
    return get_class(cfg["kind"])(params, logging_level=logging_level)


def digest_array(arr, decimals=5):
    arr = np.asarray(arr)
    if arr.dtype.kind == "O":
        return repr(arr.tolist())
    if arr.dtype.kind == "f":
        arr = np.round(arr.astype(float), decimals) + 0.0
    elif arr.dtype.kind in "iub":
        arr = arr.astype(np.int64)
    h = hashlib.sha1(str((arr.shape, arr.dtype.kind)).encode())
    h.update(np.ascontiguousarray(arr).tobytes())
    return h.hexdigest()[:12]


def file_digest(path):
    """Digest of the content of a result file (independent of dates)"""
    path = Path(path)
    if path.suffix == ".h5":
        import h5py

        items = []

        def visit(name, obj):
            if name.split("/")[0] == "params":
                return
            if isinstance(obj, h5py.Dataset):
                try:
                    items.append((name, digest_array(obj[...])))
                except TypeError:
                    items.append((name, repr(obj[...])))

        try:
            with h5py.File(path, "r") as file:
                file.visititems(visit)
                if "couple" in file:
                    items.append(("names", str(file["couple"].attrs["names"])))
        except OSError:
            return "unreadable"
        return hashlib.sha1(repr(sorted(items)).encode()).hexdigest()[:12]
    try:
        with Image.open(path) as im:
            return digest_array(np.asarray(im))
    except Exception:  # pylint: disable=broad-except
        return "unreadable"


def names_in_result(path):
    """The names of the images a result says it was computed from"""
    path = Path(path)
    if path.suffix == ".h5":
        import ast

        import h5py

        try:
            with h5py.File(path, "r") as file:
                if "couple" in file:
                    names = file["couple"].attrs["names"]
                    if isinstance(names, bytes):
                        names = names.decode()
                    return list(ast.literal_eval(names))
                if "images" in file:
                    return sorted(file["images"])
                return [path.name[: -len(".h5")]]
        except (OSError, KeyError, SyntaxError, ValueError):
            return ["unreadable"]
    # see im2im_float
    name = path.name
    if name.endswith(".tiff"):
        name = name[: -len(".tiff")]
    return [name]


FOREIGN = b"VERIF-FOREIGN"
LIST_FOREIGN = ".foreign"


def write_foreign_files(path):
    """Files which are not results, with names similar to the one of a result

    The length of the indices given by 77 makes them different from the results
    """
    stem, ext = path.stem, path.suffix
    names = [
        stem + "77" + ext,
        stem + "_light" + ext,
        "77" + stem + ext,
        stem + "77",
        path.name + ".bak",
        path.name + "~",
    ]
    with open(path.with_name(LIST_FOREIGN), "a", encoding="utf-8") as file:
        for name in names:
            path.with_name(name).write_bytes(FOREIGN)
            file.write(name + "\n")


def is_foreign(path):
    if not path.is_file():
        return False
    with open(path, "rb") as file:
        return file.read(len(FOREIGN)) == FOREIGN


def are_foreign_files_ok(path_dir):
    path_list = Path(path_dir) / LIST_FOREIGN
    if not path_list.exists():
        return True
    names = set(path_list.read_text(encoding="utf-8").split("\n")) - {""}
    return all(is_foreign(Path(path_dir) / name) for name in names)


def is_result(path, path_dir_result):
    rel = path.relative_to(path_dir_result).parts
    if is_foreign(path):
        return False
    return len(rel) == 1 and path.is_file() and not rel[0].startswith(".") and not (
        rel[0].startswith("log_") and rel[0].endswith(".txt")
    )


def list_results(path_dir_result):
    path_dir_result = Path(path_dir_result)
    if not path_dir_result.exists():
        return []
    return sorted(
        p for p in path_dir_result.iterdir() if is_result(p, path_dir_result)
    )


OLD = 10**18


def age_files(path_dir_result):
    """Mark the existing files so that a rewritten file is detected"""
    for path in list_results(path_dir_result):
        os.utime(path, ns=(OLD, OLD))


def rewritten(path_dir_result):
    return [
        p.name for p in list_results(path_dir_result) if p.stat().st_mtime_ns != OLD
    ]


def apply_im2im(cfg, name, image):
    if cfg.get("im2im") in IM2IM_FUNCS:
        return globals()["im2im_" + cfg["im2im"]]((name, image))
    if cfg.get("im2im") == "cls":
        return Im2ImCls(3).calcul((name, image))
    return image


def oracle(cfg, path_images, path_out):
    """Compute each element separately, with the works (no topology, no executor)"""
    path_images = Path(path_images)
    path_out = Path(path_out)
    kind = cfg["kind"]
    out = []

    def read(name):
        with Image.open(path_images / name) as im:
            return np.array(im)

    if kind == "surf":
        return oracle_surf(cfg, path_images, path_out, read)

    for rank, names in enumerate(elements(cfg)):
        path_dir = path_out / str(rank)
        path_dir.mkdir(parents=True)
        try:
            result = compute_alone(cfg, names, path_images, path_dir, read)
        except Exception as exc:  # pylint: disable=broad-except
            for path in list_results(path_dir):
                path.unlink()
            members = list(names)
            if kind == "bos":
                members.insert(0, cfg["reference"])
            out.append(["", members, "failed", type(exc).__name__])
            continue
        if result:
            out.append(result)
        for path in list_results(path_dir):
            out.append([path.name, names_in_result(path), file_digest(path)])
    return out


def oracle_surf(cfg, path_images, path_out, read):
    """The phases are corrected one after the other"""
    from fluidimage.util import imsave_h5
    from fluidimage.works.surface_tracking import WorkSurfaceTracking

    path_out.mkdir()
    out = []
    last = None
    failed = False
    for (name,) in elements(cfg):
        # all the following images need this one
        failed = failed or name in cfg.get("unreadable", [])
        if failed:
            out.append(["", [name], "failed", ""])
            continue
        work = WorkSurfaceTracking(make_params(cfg, path_images))
        angle = work.process_frame_func(apply_im2im(cfg, name, read(name)))
        last = work.correctcouple((last or angle, angle))
        result = work.set_borders_zero_func(work.calculheight_func(last))
        path = path_out / (name + ".h5")
        imsave_h5(path_out / name, result, splitext=False)
        out.append([path.name, [name], file_digest(path)])
    return out


def compute_alone(cfg, names, path_images, path_dir, read):
    kind = cfg["kind"]
    images = [apply_im2im(cfg, name, read(name)) for name in names]
    params = make_params(cfg, path_images)
    if kind == "piv":
        from fluidimage.data_objects.piv import ArrayCouple
        from fluidimage.works.piv import WorkPIV

        couple = ArrayCouple(
            names=tuple(names), arrays=tuple(images), params_mask=params.mask
        )
        WorkPIV(params).calcul(couple).save(path_dir)
    elif kind == "optflow":
        from fluidimage.data_objects.piv import ArrayCouple
        from fluidimage.works.optical_flow import WorkOpticalFlow

        couple = ArrayCouple(
            names=tuple(names), arrays=tuple(images), params_mask=params.mask
        )
        WorkOpticalFlow(params).calcul(couple).save(path_dir)
    elif kind == "bos":
        from fluidimage.data_objects.piv import ArrayCoupleBOS
        from fluidimage.works.piv import WorkPIV

        ref = cfg["reference"]
        couple = ArrayCoupleBOS(
            names=(ref, names[0]),
            arrays=(read(ref), images[0]),
            params_mask=params.mask,
        )
        WorkPIV(params).calcul(couple).save(path_dir)
    elif kind == "pre":
        from fluidimage.data_objects.preproc import PreprocResults
        from fluidimage.works.preproc import WorkPreproc

        arr = WorkPreproc(params).tools.apply(np.array(images))
        result = PreprocResults(params)
        result.data.update(dict(zip(names, arr)))
        result.save(path_dir)
    elif kind == "im2im":
        image = np.asarray(images[0])
        name = names[0]
        if image.dtype.kind == "f" and not name.endswith(".tif"):
            name += ".tiff"
        return [name, list(names), digest_array(image)]
    return None
