"""Functions executed in the processes of drv_topo.py (op "child")"""

from pathlib import Path

import topo_lib


def names_of_elements(topology):
    """The elements put in the first queues by the first work of a topology"""
    work = topology.works[0]
    assert "one shot" in work.kind
    work.func_or_cls(work.input_queue, work.output_queue)
    queues = work.output_queue
    if not isinstance(queues, (tuple, list)):
        return [[str(key)] for key in queues]
    for queue in queues:
        values = list(queue.values())
        if values and not isinstance(values[0], str):
            return [[str(n) for n in value] for value in values]
    return []


def split(job, step, wd):
    """Parts computed by the processes for the splitter of a topology"""
    cfg = dict(job["cfg"])
    cfg["how"] = step["how"]
    path_images = wd / "Images"
    topology = topo_lib.make_topology(cfg, path_images)
    splitter = topology.Splitter(topology.params, step["nb"], topology)
    if topology.how_saving == "complete":
        path_dir = wd / "indices"
        path_dir.mkdir()
        splitter.save_indices_files(path_dir)
    cls = type(topology)
    parts = []
    for params in splitter.iter_over_new_params():
        parts.append(names_of_elements(cls(params)))
    return {"parts": parts, "nexp": splitter.num_expected_results}


def split_without_topology(job, step, wd):
    """The splitter used with the parameters only"""
    cfg = dict(job["cfg"])
    cfg["how"] = "recompute"
    params = topo_lib.make_params(cfg, wd / "Images")
    cls = topo_lib.get_class(cfg["kind"])
    splitter = cls.Splitter(params, step["nb"])
    parts = []
    for new_params in splitter.iter_over_new_params():
        parts.append(names_of_elements(cls(new_params)))
    return {"parts": parts, "nexp": splitter.num_expected_results}


def read_pixels(path):
    import numpy as np
    from PIL import Image

    if not Path(path).exists():
        return []
    with Image.open(path) as im:
        return [int(x) for x in np.asarray(im).ravel()]


def describe_mean(topology):
    """The mean image"""
    path_dir = Path(topology.path_dir_result)
    attr = getattr(topology, "result", None)
    return {
        "result": read_pixels(path_dir.with_name(path_dir.name + ".png")),
        "attr": [] if attr is None else [int(x) for x in attr.ravel()],
        "tmp": len(list(path_dir.glob("job_*/tmp_sum*"))),
    }


def mean_cli(job, step, wd):
    """The command fluidimage-mean"""
    import sys

    from fluidimage.topologies.mean import main
    from topo_names import str_subset

    path_out = wd / "Images_cli"
    sys.argv = ["fluidimage-mean", str(wd / "Images"), "-o", str(path_out)]
    subset = str_subset(job["cfg"])
    if subset is not None:
        sys.argv += ["--subset", subset]
    sys.argv += step.get("args", [])
    main()
    return {"result": read_pixels(wd / "Images_cli.png"), "attr": [], "tmp": 0}


def load_names(job, step, wd):
    """The names of the images of the results loaded from the files"""
    from fluidimage import create_object_from_file

    out = []
    for path_dir in wd.glob("Images.*"):
        for path in topo_lib.list_results(path_dir):
            obj = create_object_from_file(str(path))
            out.append([path.name, [str(n) for n in obj.couple.names]])
    return out


WORKING_DIRS = ("job_", "log_", "params_files_", "indices_files_")


def describe_dirs(wd, rec):
    """Everything beside the images: results and other files"""
    import hashlib

    dirs = []
    for path in sorted(wd.iterdir()):
        if path.name == "Images" or not (
            path.name.startswith(("Images", "out")) or (path.is_dir())
        ):
            continue
        entry = {"name": path.name, "files": [], "rewritten": [], "others": []}
        dirs.append(entry)
        if path.is_file():
            entry["others"] = [["the file", hashlib.sha1(path.read_bytes()).hexdigest()[:12]]]
            continue
        for p in sorted(path.rglob("*")):
            parts = p.relative_to(path).parts
            if p.is_dir() or parts[0].startswith(WORKING_DIRS):
                continue
            if len(parts) == 1 and not parts[0].startswith(".") and p.suffix in (".h5", ".png", ".tif", ".tiff", ""):
                entry["files"].append(
                    [p.name, topo_lib.names_in_result(p), topo_lib.file_digest(p)]
                )
                if p.stat().st_mtime_ns != topo_lib.OLD:
                    entry["rewritten"].append(p.name)
            else:
                entry["others"].append(
                    ["/".join(parts), hashlib.sha1(p.read_bytes()).hexdigest()[:12]]
                )
    return dirs
