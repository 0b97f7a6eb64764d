"""Builds the Python module from the current tree, instrumented; the runtime is preloaded."""
import glob
import hashlib
import os
import shutil
import subprocess

import build as B


def prepare(prop):
    b = B.Builder(extra=["-fPIC", "-fvisibility=hidden", "-isystem", "/usr/include/python3.12", "-w"])
    d = os.path.join(B.REPO, "bindings/python/vara-feature")
    hdr = B.tree_hash([d], [".h"])  # part of the objects' identity
    jobs = [(s, ("-DVERIF_FPIC",)) for s in B.lib_sources(["Feature"])]
    jobs += [(s, ("-DVERIF_HDR_" + hdr[:16],)) for s in sorted(glob.glob(d + "/*.cpp"))]
    objs = b.compile_all(jobs)
    so = b.link("pymod.so", objs, ["-shared", "-shared-libasan"])
    out = os.path.join(B.BUILD, "pymod-" + hashlib.sha256(so.encode()).hexdigest()[:16])
    if not os.path.exists(os.path.join(out, "vara_feature.so")):
        for old in glob.glob(os.path.join(B.BUILD, "pymod-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out + ".tmp", exist_ok=True)
        shutil.copy(so, os.path.join(out + ".tmp", "vara_feature.so"))
        os.replace(out + ".tmp", out)
    rt = subprocess.run([b.cxx, "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    return {"VERIF_PYDIR": out, "VERIF_PYRT": rt, "VERIF_PYDRV": os.path.join(B.VERIF, "harness/c23_driver.py")}
