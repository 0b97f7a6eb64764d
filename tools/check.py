#!/usr/bin/env python3
"""Runs the monitor of one property:  check.py C06 [--replay FILE] [--cases N]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: no verdict (build failure, harness failure, nothing observed).
"""
import argparse
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS

VERIF = B.VERIF
WORKERS = max(2, min(8, os.cpu_count() or 8))
STALL_S = 60       # a case without progress for this long is looked at alone
ALONE_S = 150      # and is a hang if it does not end within this
RUN_CAP_S = float(os.environ.get("VERIF_RUN_CAP", "560"))

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:"
                    "check_initialization_order=1:handle_abort=1:symbolize=1:"
                    "quarantine_size_mb=16:malloc_context_size=12",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=1:history_size=4:"
                    "second_deadlock_stack=1:external_symbolizer_path=/usr/lib/llvm-18/bin/llvm-symbolizer",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "ASAN_SYMBOLIZER_PATH": "/usr/lib/llvm-18/bin/llvm-symbolizer",
    "LC_ALL": "C.UTF-8",
})


def say(*a):
    print(*a, flush=True)


def known_findings():
    """lines 'known: property=<id> key=<key> <what>' and 'fixed: property=<id> <commit> <what>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def read_tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(0)
            data = f.read(200000)
        if len(data) > 2 * n:
            data = data[:n] + b"\n...\n" + data[-n:]
        return data.decode(errors="replace")
    except OSError:
        return ""


def crash_key(err, rc):
    m = re.search(r"SUMMARY: (\w+): (\S+)", err)
    if m:
        return f"crash:{m.group(2)}"
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "crash:ub"
    if "Assertion" in err:
        return "crash:assertion"
    if "terminate called" in err:
        return "crash:exception"
    if rc < 0:
        return f"crash:signal{-rc}"
    return f"crash:exit{rc}"


class Failures:
    def __init__(self):
        self.items = []
        self.lock = threading.Lock()

    def add(self, key, case, msg):
        with self.lock:
            self.items.append({"key": key, "case": case, "msg": msg})


class Run:
    """Drives one harness executable over the cases [0, n)."""

    def __init__(self, exe, n, seed, tier, tag, chunk=None):
        self.exe, self.n, self.seed, self.tier, self.tag = exe, n, seed, tier, tag
        self.fails = Failures()
        self.counters, self.distinct, self.samples = {}, set(), []
        self.cases = 0
        self.crashes = 0
        self.inconclusive = []
        self.errors = []
        self.lock = threading.Lock()
        self.dir = os.path.join(B.BUILD, "run", f"{tag}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        size = chunk or max(1, (n + WORKERS * 3 - 1) // (WORKERS * 3))
        self.queue = [(a, min(a + size, n)) for a in range(0, n, size)]
        self.queue.reverse()
        self.deadline = time.time() + (RUN_CAP_S if tier == "quick" else 6 * 3600)

    def cmd(self, *extra):
        c = [self.exe, "--seed", str(self.seed)] + list(extra)
        if self.tier == "thorough":
            c.append("--thorough")
        return c

    def take(self):
        with self.lock:
            return self.queue.pop() if self.queue else None

    def worker(self, w):
        status = os.path.join(self.dir, f"st{w}")
        out = os.path.join(self.dir, f"out{w}")
        err = os.path.join(self.dir, f"err{w}")
        while True:
            job = self.take()
            if job is None:
                return
            a, b = job
            while a < b:
                if self.crashes >= 8 or len(self.fails.items) > 60:
                    return
                if time.time() > self.deadline:
                    self.inconclusive.append(f"time cap reached before cases {a}..{b}")
                    return
                if os.path.exists(out):
                    os.unlink(out)
                with open(status, "wb") as f:
                    f.write(a.to_bytes(8, "little") * 2)
                p = subprocess.Popen(
                    self.cmd("--from", str(a), "--to", str(b), "--status", status,
                             "--out", out, "--err", err),
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV,
                    stdin=subprocess.DEVNULL, start_new_session=True, cwd=self.dir)
                last, since, stalled = -1, time.time(), False
                while True:
                    try:
                        p.wait(timeout=0.5)
                        break
                    except subprocess.TimeoutExpired:
                        cur = self.current(status)
                        if cur != last:
                            last, since = cur, time.time()
                        elif time.time() - since > STALL_S:
                            stalled = True
                            kill(p)
                            break
                cur = self.current(status)
                self.collect(out)
                if stalled:
                    self.alone(cur)
                    a = cur + 1
                    continue
                if p.returncode in (0, 1):
                    # 1: failures were recorded
                    break
                if p.returncode == -9:
                    # somebody killed it (memory?): look at the case alone
                    self.alone(cur)
                    a = cur + 1
                    continue
                if p.returncode == 3:
                    self.errors.append("harness could not start: " + read_tail(err, 500))
                    return
                text = read_tail(err)
                self.crash(cur, text, p.returncode)
                a = cur + 1

    def current(self, status):
        try:
            with open(status, "rb") as f:
                return int.from_bytes(f.read(8), "little")
        except OSError:
            return 0

    def crash(self, case, text, rc):
        log = ""
        with self.lock:
            self.crashes += 1
            first = self.crashes <= 3
        if first:
            # replay alone to get the log of the case
            try:
                r = subprocess.run(self.cmd("--only", str(case)), env=ENV, cwd=self.dir,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   stdin=subprocess.DEVNULL, timeout=ALONE_S)
                log = r.stdout.decode(errors="replace")[-4000:]
            except subprocess.TimeoutExpired:
                pass
        self.fails.add(crash_key(text, rc), case,
                       f"process died (status {rc})\n{text}\n--- case log ---\n{log}")

    def alone(self, case):
        err = os.path.join(self.dir, f"alone-{case}")
        p = subprocess.Popen(self.cmd("--only", str(case), "--err", err), env=ENV, cwd=self.dir,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=ALONE_S)
        except subprocess.TimeoutExpired:
            kill(p)
            o, _ = p.communicate()
            with self.lock:
                self.crashes += 1
            self.fails.add("hang", case, f"case does not end within {ALONE_S} s when run alone\n"
                           + o.decode(errors="replace")[-4000:])
            return
        text = o.decode(errors="replace")
        if p.returncode == 0:
            self.inconclusive.append(f"case {case} was slow in parallel, fine alone")
        elif p.returncode == 1:
            m = re.search(r"FAIL\[(\S*)\]", text)
            self.fails.add(m.group(1) if m else "fail", case, text[-6000:])
        elif p.returncode == -9:
            self.errors.append(f"case {case}: killed (memory?)")
        else:
            self.crash(case, read_tail(err), p.returncode)

    def collect(self, out):
        try:
            lines = open(out, errors="replace").read().splitlines()
        except OSError:
            return
        with self.lock:
            for l in lines:
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "fail" in j:
                    self.fails.add(j["fail"], j["case"], j["msg"])
                elif "stats" in j:
                    s = j["stats"]
                    self.cases += s["cases"]
                    for k, v in s["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    self.distinct.update(s["distinct"])
                    if len(self.samples) < 4:
                        self.samples.extend(s["samples"][:4 - len(self.samples)])

    def go(self):
        ts = [threading.Thread(target=self.worker, args=(w,)) for w in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isfile(p):
                os.unlink(p)
        try:
            os.rmdir(self.dir)
        except OSError:
            pass

    def probes(self):
        """Directed cases: each reproduces one recorded finding or repaired defect."""
        names = subprocess.run([self.exe, "--list-probes"], stdout=subprocess.PIPE, env=ENV
                               ).stdout.decode().split()
        res = {}

        def one(n):
            err = os.path.join(self.dir + f"-probe-{n}.err")
            p = subprocess.Popen(self.cmd("--probe", n, "--err", err), env=ENV, cwd=B.BUILD,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                o, _ = p.communicate(timeout=ALONE_S)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                kill(p)
                o, _ = p.communicate()
                rc = "hang"
            text = o.decode(errors="replace")[-4000:]
            if rc not in (0, 1):
                text += "\n" + read_tail(err, 3000)
            if os.path.exists(err):
                os.unlink(err)
            res[n] = (rc, text)

        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            list(ex.map(one, names))
        return res


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    args = ap.parse_args()
    prop = args.prop
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        env_extra = {}
        if "prepare" in cfg:
            mod = importlib.import_module(cfg["prepare"])
            env_extra = mod.prepare(prop) or {}
        ENV.update(env_extra)
        exe = B.build_harness(prop.lower(), cfg["srcs"], cfg["groups"],
                              cfg.get("extra", ()), cfg.get("link", ()), cfg.get("san"))
    except B.BuildError as e:
        say(f"build failed: {e}")
        return 2
    t_build = time.time() - t0
    if args.replay:
        r = json.load(open(args.replay))
        if r.get("seed") is not None:
            seed = r["seed"]
        c = [exe, "--seed", str(seed)]
        c += ["--probe", r["probe"]] if r.get("probe") else ["--only", str(r["case"])]
        if r.get("tier") == "thorough":
            c.append("--thorough")
        say("+", " ".join(c))
        return subprocess.run(c, env=ENV).returncode
    n = args.cases or cfg[tier]
    run = Run(exe, n, seed, tier, prop, cfg.get("chunk"))
    run.go()
    probes = run.probes()

    known = [(k, w) for p, k, w in known_findings() if p == prop]
    violations = []
    seen_known = {}
    for f in run.fails.items:
        hit = [k for k, _ in known if f["key"] == k]
        if hit:
            seen_known[hit[0]] = f
        else:
            violations.append(f)
    for name, (rc, text) in sorted(probes.items()):
        if rc == 0:
            continue
        key = "probe:" + name
        if rc in (2, 3) or rc == -9:
            run.errors.append(f"probe {name} could not run ({rc})")
            continue
        f = {"key": key, "case": None, "probe": name,
             "msg": f"directed case '{name}' fails (status {rc})\n{text}"}
        if any(k == key for k, _ in known):
            seen_known[key] = f
        else:
            violations.append(f)
    for k, w in known:
        if k in seen_known:
            say(f"KNOWN-FINDING: property={prop} {w} [{k}]")
        else:
            say(f"note: known finding {k} was not reproduced in this run")

    evaluations = run.cases + len(probes)
    wall = time.time() - t0
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(run.distinct),
           "rule": cfg["rule"], "samples": run.samples[:4],
           "observed": run.counters, "directed_cases": len(probes),
           "build_s": round(t_build, 1)}
    if run.inconclusive:
        cov["inconclusive"] = run.inconclusive[:10]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(wall, 2), "violations": len(violations),
          "assumptions": cfg.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    say(f"{prop} {tier} seed={seed}: {run.cases} cases, {len(run.distinct)} distinct, "
        f"{len(probes)} directed, build {t_build:.1f}s, total {wall:.1f}s")
    say("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(run.counters.items())))
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = {}
        for v in violations:
            shown.setdefault(v["key"], v)
        for i, (k, v) in enumerate(list(shown.items())[:6]):
            path = os.path.join(VERIF, "replays",
                                f"{prop}-{re.sub('[^A-Za-z0-9_-]', '_', k)[:40]}-{seed}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "case": v["case"],
                           "probe": v.get("probe"), "key": k, "msg": v["msg"],
                           "how": f"python3 tools/check.py {prop} --replay {path}"}, f, indent=1)
            say(f"--- {k} (case {v['case']}): " + v["msg"][:3000])
            say(f"VIOLATION property={prop} replay={path}")
        return 1
    if run.errors:
        say("no verdict: " + "; ".join(run.errors[:5]))
        return 2
    minimum = cfg.get("min_distinct", 20)
    if len(run.distinct) < minimum or run.cases < n * 0.5:
        say(f"no verdict: too little observed ({run.cases} cases, {len(run.distinct)} distinct)")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
