"""setup_cmd: nothing to build; verify that the tools are usable (TLC parses
the specifications, the code can be imported from /repo's working tree)"""

import shutil
import sys
import tempfile

import check_exec
import vlib

proc = vlib.run_python("-c", "import fluidimage, fluidimage.executors; print(fluidimage.__file__)")
print(proc.stdout.strip())
if not proc.stdout.startswith(str(vlib.REPO)):
    print("the code is not imported from", vlib.REPO)
    sys.exit(2)
tmp = tempfile.mkdtemp(prefix="verif_setup_")
try:
    res = vlib.run_tlc(
        "MCExecAsync",
        check_exec.MC_CFG.format(n=2, caps="{1}", qm="{1}", win="{2}", mf=0, signal="FALSE", live=""),
        tmp,
    )
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("TLC", "ok" if res.ok else res.out[-2000:])
sys.exit(0 if res.ok else 2)
