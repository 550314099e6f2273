"""Common machinery of the checks: scratch folders, TLC, verdicts, evidence."""

import contextlib
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("FLUIDIMAGE_VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
PYTHON = "/opt/venv/bin/python"
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


def tla_classpath():
    """tla2tools.jar and the CommunityModules, as the tlc wrapper does"""
    text = Path(shutil.which("tlc") or "/usr/local/bin/tlc").read_text(
        errors="replace"
    )
    jars = re.findall(r"[/\w.\-]+\.jar", text)
    jars = [jar for jar in dict.fromkeys(jars) if os.path.exists(jar)]
    if TLA_JARS not in jars:
        jars.insert(0, TLA_JARS)
    folder = os.path.dirname(TLA_JARS)
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name)
        if name.endswith(".jar") and path not in jars:
            jars.append(path)
    return ":".join(jars)


_CP = None


def base_env(**extra):
    """Environment of the processes running the code under test"""
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": os.environ.get("HOME", "/root"),
        "LANG": "C.UTF-8",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MPLBACKEND": "agg",
        "TRANSONIC_NO_REPLACE": "1",
        "TRANSONIC_NO_MPI": "1",
        "FLUIDIMAGE_VERIF_SRC": str(REPO / "src"),
        "PYTHONPATH": f"{HARNESS / 'site'}:{HARNESS}",
        "COLUMNS": "100",
    }
    env.update({k: str(v) for k, v in extra.items()})
    return env


class MachineryError(RuntimeError):
    """Failure of the verification machinery itself"""


class TLCResult:
    def __init__(self, returncode, out, wall):
        self.returncode = returncode
        self.out = out
        self.wall = wall
        m = re.findall(
            r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states", out
        )
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            self.generated = self.distinct = 0
        m = re.search(r"(?:Invariant|property|Property) (\S+) (?:is|was) violated", out)
        self.violated = m.group(1) if m else None
        if self.violated is None and "Temporal properties were violated" in out:
            self.violated = "temporal"
        if self.violated is None and "Deadlock reached" in out:
            self.violated = "deadlock"
        self.ok = "Model checking completed. No error has been found." in out

    def coverage_zero(self):
        """Names of the actions which were never taken (needs -coverage)"""
        zero = set()
        seen = {}
        for name, a, b in re.findall(
            r"<(\w+) line [^>]*>: ([\d,]+):([\d,]+)", self.out
        ):
            seen[name] = seen.get(name, 0) + int(b.replace(",", ""))
        for name, n in seen.items():
            if n == 0:
                zero.add(name)
        return zero


def run_tlc(
    module,
    cfg,
    scratch,
    timeout=600,
    workers=1,
    files=None,
    extra=(),
    heap="2g",
    env=None,
):
    """Run TLC on spec/<module>.tla with the text or the file of a configuration"""
    global _CP
    if _CP is None:
        _CP = tla_classpath()
    scratch = Path(scratch)
    wd = Path(tempfile.mkdtemp(prefix=f"tlc_{module}_", dir=scratch))
    for path in SPEC.glob("*.tla"):
        shutil.copy(path, wd / path.name)
    if "\n" in cfg or " " in cfg:
        (wd / "M.cfg").write_text(cfg)
    else:
        shutil.copy(SPEC / cfg, wd / "M.cfg")
    for name, content in (files or {}).items():
        (wd / name).write_text(content)
    cmd = [
        "java",
        "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
        f"-Xmx{heap}",
        "-Xss64m",
        "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:+TieredCompilation",
        "-cp",
        _CP,
        "tlc2.TLC",
        "-workers",
        str(workers),
        "-metadir",
        str(wd / "meta"),
        "-noGenerateSpecTE",
        "-config",
        "M.cfg",
        *extra,
        module + ".tla",
    ]
    t = time.time()
    try:
        proc = subprocess.run(
            cmd,
            cwd=wd,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=timeout,
            env=dict(os.environ, **(env or {})),
        )
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC timed out on {module} after {timeout} s") from exc
    res = TLCResult(proc.returncode, proc.stdout, time.time() - t)
    res.wd = wd
    return res


def parse_verdicts(out):
    """The lines printed by PrintT(<<"VERDICT", id, clause, detail...>>)"""
    verdicts = []
    # a tuple can be pretty-printed over several lines
    for m in re.finditer(r'<<\s*"VERDICT",(.*?)>>\s*(?=\n|$)', out, re.S):
        text = m.group(1)
        fields = re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)', text)
        verdicts.append([a if a or not b else b for a, b in fields])
    return verdicts


def validate(
    module,
    cases,
    scratch,
    chunks=None,
    timeout=700,
    heap="2g",
    cfg=None,
    id_field="id",
    extra_files=None,
):
    """Validate recorded executions/evaluations against a specification module.

    The module reads cases.json and prints <<"VERDICT", id, clause, ...>> for each
    failing clause and <<"SEEN", id>> counts through the final line
    <<"VALIDATED", n>>.

    Returns (list of verdicts, number validated, states generated, transitions)
    """
    cases = list(cases)
    if not cases:
        return [], 0, 0
    if chunks is None:
        chunks = min(NCPU, max(1, len(cases) // 20))
    parts = [cases[i::chunks] for i in range(chunks)]
    parts = [p for p in parts if p]
    cfg = cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Post\n"

    def one(part):
        files = {"cases.json": json.dumps(part)}
        if extra_files:
            files.update(extra_files)
        return run_tlc(
            module,
            cfg,
            scratch,
            timeout=timeout,
            files=files,
            heap=heap,
        )

    with ThreadPoolExecutor(len(parts)) as pool:
        results = list(pool.map(one, parts))
    verdicts = []
    validated = 0
    states = 0
    for part, res in zip(parts, results):
        m = re.search(r'<<"VALIDATED", (\d+)>>', res.out)
        if not res.ok or not m or int(m.group(1)) != len(part):
            keep = Path(tempfile.gettempdir()) / f"tlc_failed_{module}.log"
            keep.write_text(res.out)
            raise MachineryError(
                f"TLC failed on {module} (log {keep}):\n" + res.out[-3000:]
            )
        verdicts.extend(parse_verdicts(res.out))
        validated += int(m.group(1))
        states += res.generated
    return verdicts, validated, states


def run_python(
    script, *args, timeout=600, env=None, cwd=None, check=True, stdin=None
):
    """Run a driver with the python of the project"""
    proc = subprocess.run(
        [PYTHON, str(script), *map(str, args)],
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        text=True,
        timeout=timeout,
        env=env or base_env(),
        cwd=cwd,
        input=stdin,
    )
    if check and proc.returncode != 0:
        raise MachineryError(
            f"{script} {args} failed ({proc.returncode})\n"
            + proc.stdout[-2000:]
            + proc.stderr[-4000:]
        )
    return proc


SKIPPED = set()


def run_driver(script, jobs, scratch, timeout=600, nproc=None, env=None):
    """Run a driver over a list of jobs split between processes.

    The driver is called as ``driver.py IN.json OUT.json`` and writes the list of
    the records for its jobs. A driver which dies is reported in the records of
    the jobs it did not finish (it appends to OUT.ndjson as it goes).
    """
    jobs = list(jobs)
    nproc = min(nproc or NCPU, max(1, len(jobs)))
    parts = [jobs[i::nproc] for i in range(nproc)]

    def one(ip):
        part = parts[ip]
        wd = Path(tempfile.mkdtemp(prefix=f"drv{ip}_", dir=scratch))
        path_in = wd / "in.json"
        path_out = wd / "out.ndjson"
        path_in.write_text(json.dumps(part))
        err = ""
        try:
            with open(wd / "stdout", "w") as fo, open(wd / "stderr", "w") as fe:
                proc = subprocess.run(
                    [PYTHON, str(HARNESS / script), str(path_in), str(path_out), str(wd)],
                    stdout=fo,
                    stderr=fe,
                    timeout=timeout,
                    env=env or base_env(),
                    cwd=wd,
                    start_new_session=True,
                )
            rc = proc.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        records = []
        if path_out.exists():
            for line in path_out.read_text().splitlines():
                if line.strip():
                    try:
                        records.append(json.loads(line))
                    except json.JSONDecodeError:
                        pass
        skipped = {r["id"] for r in records if r.get("skipped")}
        if skipped:
            # after many hangs (see hangs.py)
            SKIPPED.update(skipped)
            records = [r for r in records if r["id"] not in skipped]
            part = [job for job in part if job is None or job["id"] not in skipped]
        if rc != 0:
            err = (wd / "stderr").read_text()[-3000:]
        return rc, records, err, part

    with ThreadPoolExecutor(nproc) as pool:
        return list(pool.map(one, range(nproc)))


class Check:
    """One run of the check of one property"""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = TIER
        self.seed = SEED
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known_seen = {}
        self.samples = []
        path = VERIF / "known_findings.json"
        data = json.loads(path.read_text()) if path.exists() else {"findings": []}
        self.known = [f for f in data["findings"] if f["property"] == prop]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *args):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *args, flush=True)

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, obj):
        if len(self.samples) < 5:
            self.samples.append(obj)

    def violation(self, what, signature, data):
        """Report a failing case.

        signature: dict describing the specific input/call site/history, compared
        with the known findings.
        """
        for finding in self.known:
            sig = finding["match"]
            if all(str(signature.get(k)) == str(v) for k, v in sig.items()):
                self.known_seen.setdefault(finding["id"], finding["what"])
                return
        self.violations.append((what, signature, data))

    def finish(self):
        evidence_dir = VERIF / "evidence"
        evidence_dir.mkdir(exist_ok=True)
        self.coverage.setdefault("samples", self.samples or ["(no sample)"])
        evidence = {
            "property": self.prop,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": self.coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        (evidence_dir / f"{self.prop}.json").write_text(
            json.dumps(evidence, indent=1, default=str) + "\n"
        )
        for idf, what in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if SKIPPED:
            self.log(f"{len(SKIPPED)} jobs skipped after many hangs")
        if not self.violations:
            self.log("held on everything explored", summary(self.coverage))
            return 0
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        shown = {}
        for what, signature, data in self.violations:
            key = json.dumps(signature, sort_keys=True, default=str)
            shown.setdefault(what, []).append((key, signature, data))
        for what, lst in list(shown.items())[:10]:
            key, signature, data = lst[0]
            h = hashlib.sha1((what + key).encode()).hexdigest()[:10]
            path = rdir / f"{self.prop}_{h}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": self.prop,
                        "what": what,
                        "count": len(lst),
                        "signature": signature,
                        "data": data,
                        "seed": self.seed,
                    },
                    indent=1,
                    default=str,
                )
            )
            print(f"  {what} (x{len(lst)}) e.g. {key[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


def summary(coverage):
    return {k: v for k, v in coverage.items() if isinstance(v, (int, float))}


def main(prop, level, func):
    """Run a check: exit 0, 1 or 2 (failure of the machinery)"""
    check = Check(prop, level)
    try:
        func(check)
        rc = check.finish()
    except Exception:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
        shutil.rmtree(check.scratch, ignore_errors=True)
        if check.violations:
            # the violations found before the failure are still violations
            check.scratch.mkdir(exist_ok=True)
            rc = check.finish()
        else:
            rc = 2
    with contextlib.suppress(Exception):
        sys.stdout.flush()
    sys.exit(rc)
