"""Evaluations of split_range and split_list: IN.json OUT.ndjson WORKDIR"""

import json
import sys

from fluidimage.topologies.splitters import split_list, split_range

path_in, path_out, _ = sys.argv[1:]
with open(path_in) as file:
    jobs = json.load(file)
with open(path_out, "w") as fout:
    for job in jobs:
        rec = {"id": job["id"], "parts": [], "error": ""}
        try:
            if job["op"] == "range":
                rec["parts"] = [
                    list(p)
                    for p in split_range(job["start"], job["stop"], job["step"], job["np"])
                ]
            else:
                seq = list(job["seq"])
                rec["parts"] = [list(p) for p in split_list(seq, job["np"])]
        except Exception as exc:  # pylint: disable=broad-except
            rec["error"] = repr(exc)
        fout.write(json.dumps(rec) + "\n")
