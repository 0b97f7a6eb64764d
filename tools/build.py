"""Builds /repo's library sources and the harnesses with sanitizers, in /verif/build."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

BASE = ["-std=c++17", "-O0", "-g1", "-fno-omit-frame-pointer",
        "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", "-D_GLIBCXX_ASSERTIONS", "-UNDEBUG", "-w",
        "-I" + REPO + "/include", "-I/usr/lib/llvm-14/include",
        "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "harness")]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr",
       "-fno-sanitize-recover=all"]
# races: the library and the standard containers it uses, instantiated here instead of
# taken from the (uninstrumented) standard library
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
LIBS = ["-L/usr/lib/llvm-14/lib", "-lLLVM-14", "-lxml2", "-lz3", "-lpthread",
        "-ldl"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, pats):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if any(f.endswith(p) for p in pats):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + _read(p) + b"\0")
    return h.hexdigest()


def header_hash(harness=False):
    return tree_hash([REPO + "/include", REPO + "/lib"] +
                     ([os.path.join(VERIF, "harness")] if harness else []),
                     [".h", ".def", ".inc"])


def lib_sources(groups):
    out = []
    for g in groups:
        for p in sorted(glob.glob(f"{REPO}/lib/{g}/*.cpp")):
            txt = _read(p)
            if b"csv.hpp" in txt or b"stats.hpp" in txt or b"SampleSetParser.h" in txt \
                    or b"SamplingMethods.h" in txt:
                continue  # need libraries that are not available offline
            out.append(p)
    return out


class Builder:
    def __init__(self, san=None, extra=(), compiler="clang++"):
        self.cxx = compiler
        self.san = TSAN if san == "thread" else SAN
        self.flags = BASE + self.san + list(extra)
        self.hh = header_hash()
        self.hh_harness = header_hash(True)
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def obj_path(self, src, extra):
        h = hashlib.sha256()
        hh = self.hh_harness if src.startswith(VERIF + "/") else self.hh
        h.update("\0".join([self.cxx] + self.flags + list(extra) + [src, hh]).encode())
        h.update(_read(src))
        return os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")

    def compile(self, src, extra=()):
        obj = self.obj_path(src, extra)
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + f".{os.getpid()}.tmp"
        cmd = [self.cxx] + self.flags + list(extra) + ["-c", src, "-o", tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError(f"compiling {src} failed:\n" + p.stdout.decode(errors="replace")[-6000:])
        os.replace(tmp, obj)
        return obj

    def compile_all(self, jobs):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.compile, s, x) for s, x in jobs]
            return [f.result() for f in futs]

    def link(self, name, objs, args=()):
        h = hashlib.sha256("\0".join(list(objs) + self.flags + list(args)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, f"{name}-{h}")
        if os.path.exists(exe):
            return exe
        tmp = exe + f".{os.getpid()}.tmp"
        cmd = [self.cxx] + self.san + list(objs) + list(args) + LIBS + ["-o", tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError(f"linking {name} failed:\n" + p.stdout.decode(errors="replace")[-6000:])
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            if not old.endswith(".tmp"):
                os.unlink(old)
        os.replace(tmp, exe)
        return exe


def prune(maxfiles=600):
    objs = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    for o in objs[:-maxfiles]:
        os.unlink(o)


def build_harness(name, srcs, groups, extra=(), link_args=(), san=None):
    """name: executable; srcs: files in harness/, "parts:a b" adds the harnesses a and b
    with their main renamed to main_a and main_b; groups: library directories."""
    b = Builder(san)
    parts = [p for s in srcs if s.startswith("parts:") for p in s[6:].split()]
    srcs = [s for s in srcs if not s.startswith("parts:")]
    jobs = [(os.path.join(VERIF, "harness", s), tuple(extra)) for s in srcs]
    jobs += [(os.path.join(VERIF, "harness", p + ".cpp"), tuple(extra) + ("-Dmain=main_" + p,)) for p in parts]
    jobs += [(s, ()) for s in lib_sources(groups)]
    objs = b.compile_all(jobs)
    exe = b.link(name, objs, link_args)
    prune()
    return exe
