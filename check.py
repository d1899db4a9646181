#!/usr/bin/env python3
"""check.py ID [--keep] - decide one property of /repo's current working tree by monitored executions.

Builds the harnesses named by plans.py, runs them (seeded by VERIF_SEED, sized by VERIF_TIER), classifies what the
monitors and sanitizers reported, writes evidence/ID.json.
Exit 0: held on everything observed; 1: VIOLATION line printed; 2: no answer (build or machinery trouble).
"""
import array
import json
import os
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plans  # noqa: E402

SLOTS = max(2, os.cpu_count() or 2)

CONFIGS = {
    # name: (compiler, flags, link flags)
    "plain": ("g++", "-O2 -g1 -DVH_HEAP", ""),
    "ndebug": ("g++", "-O2 -DNDEBUG -DVH_HEAP", ""),
    "cplain": ("clang++", "-O2 -g1 -DVH_HEAP", ""),
    "o0": ("g++", "-O0 -g1 -DVH_HEAP", ""),
    "asan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all", ""),
    "plain1": ("g++", "-O1 -foptimize-sibling-calls -g1 -DVH_HEAP", ""),
    "asan0": ("clang++", "-O0 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all", ""),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread", ""),
}
RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=86:handle_abort=1:"
                    "detect_stack_use_after_return=0:max_free_fill_size=4096:free_fill_byte=205",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0",
}


def hwloc_enabled():
    return os.path.exists("/usr/include/hwloc.h")


class Slots:
    """Counting resource with weights."""

    def __init__(self, n):
        self.n = n
        self.free = n
        self.cv = threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k
        return k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


class Check:
    def __init__(self, pid, keep=False):
        self.pid = pid
        self.plan = plans.PLANS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.keep = keep
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir="/tmp")
        self.slots = Slots(SLOTS)
        self.lock = threading.Lock()
        self.builds = {}
        self.results = []
        self.failures = []  # (key, run, output)
        self.trouble = []
        self.procs = set()
        self.stop = threading.Event()
        self.t0 = time.time()

    # ------------------------------------------------------------------ processes

    def popen(self, cmd, env, out):
        with self.lock:
            if self.stop.is_set():
                return None
            p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=self.dir,
                                 start_new_session=True, stdin=subprocess.DEVNULL)
            self.procs.add(p)
            return p

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def wait(self, p, tmo):
        try:
            p.wait(tmo)
            return p.returncode
        except subprocess.TimeoutExpired:
            self.kill(p)
            p.wait()
            return None
        finally:
            with self.lock:
                self.procs.discard(p)

    def abort_all(self):
        with self.lock:
            self.stop.set()
            for p in list(self.procs):
                self.kill(p)

    # ------------------------------------------------------------------ building

    def build(self, key, b):
        exe = os.path.join(self.dir, key.replace(" ", "_"))
        cc, cfl, lfl = CONFIGS[b.cfg]
        inc = os.path.join(REPO, "single_header") if b.single else os.path.join(REPO, "include")
        base = [cc, "-w", "-std=c++23"] + shlex.split(cfl) + shlex.split(b.flags)
        if b.single:
            base += ["-DVH_SINGLE_HEADER"]
        if b.hwloc and hwloc_enabled():
            base += ["-DLF_USE_HWLOC"]
        if b.prelude:
            base += ["-include", os.path.join(HERE, "harness", "prelude.hpp")]
        base += ["-I" + inc, "-I" + os.path.join(HERE, "harness")]
        srcs = [os.path.join(HERE, "harness", s) for s in b.sources]
        link = shlex.split(lfl) + shlex.split(b.link) + (["-lhwloc"] if b.hwloc and hwloc_enabled() else []) + \
            ["-lpthread", "-ldl"]
        cmds = []
        if len(srcs) == 1:
            cmds.append(base + [srcs[0], "-o", exe] + link)
        else:
            objs = []
            for i, s in enumerate(srcs):
                o = "%s.%d.o" % (exe, i)
                objs.append(o)
                cmds.append(base + ["-c", s, "-o", o])
            cmds.append(base[:1] + shlex.split(cfl) + objs + ["-o", exe] + link)
        log = exe + ".log"
        for cmd in cmds:
            k = self.slots.take(1)
            try:
                with open(log, "ab") as out:
                    p = self.popen(cmd, dict(os.environ), out)
                    if p is None:
                        return
                    rc = self.wait(p, 600)
            finally:
                self.slots.give(k)
            if rc != 0:
                if not self.stop.is_set():
                    with open(log, errors="replace") as f:
                        text = f.read()
                    if rc == 1 and " error: " in text and self.control_compiles(base):
                        self.fail("does-not-compile", None, "a program using the documented interface no longer "
                                  "compiles: %s\n%s" % (" ".join(cmd), text))
                    else:
                        self.trouble.append("build failed: %s\n%s" % (" ".join(cmd), text[:4000]))
                        self.abort_all()
                return
        b.cmds = cmds
        b.exe = exe

    def control_compiles(self, base):
        """Whether a minimal user program still compiles (else the tree is broken and nothing can be said)."""
        cmd = base + ["-fsyntax-only", os.path.join(HERE, "harness", "control.cpp")]
        p = self.popen(cmd, dict(os.environ), subprocess.DEVNULL)
        return p is not None and self.wait(p, 300) == 0

    # ------------------------------------------------------------------ running

    def fail(self, key, run, text):
        with self.lock:
            self.failures.append((key, run, text))
        # A listed finding does not end the check, so that other violations are still found.
        if not known_match(self.pid, key, text):
            self.abort_all()

    def run(self, i, r):
        b = self.builds[r.build]
        b.done.wait()
        if not b.exe or self.stop.is_set():
            return
        hashes = os.path.join(self.dir, "hashes.%d" % i)
        args = dict(r.args)
        if "peer" in args:
            peer = self.builds[args["peer"]]
            peer.done.wait()
            if not peer.exe:
                return
            args["peer"] = peer.exe
        args.setdefault("seed", self.seed * 1009 + i)
        args["hashes"] = hashes
        if r.soft:
            args["soft"] = r.soft
        cmd = [b.exe] + ["%s=%s" % kv for kv in args.items()]
        env = dict(os.environ)
        env.update(RUN_ENV)
        env.update(r.env)
        r.cmd = cmd
        for attempt in (0, 1):
            outp = os.path.join(self.dir, "out.%d" % i)
            k = self.slots.take(r.cores if attempt == 0 else SLOTS)
            t = time.time()
            try:
                with open(outp, "wb") as out:
                    p = self.popen(cmd, env, out)
                    if p is None:
                        return
                    rc = self.wait(p, r.tmo * (4 if self.tier == "thorough" else 1))
            finally:
                self.slots.give(k)
            r.wall = time.time() - t
            if self.stop.is_set():
                return
            with open(outp, errors="replace") as f:
                text = f.read()
            if rc is None and attempt == 0:
                continue  # inconclusive: once more, alone
            break
        key = classify(rc, text)
        if key is None:
            m = re.search(r"^VHSTAT (\{.*\})$", text, re.M)
            if not m:
                self.trouble.append("no statistics from %s\n%s" % (" ".join(cmd), text[-1500:]))
                self.abort_all()
                return
            st = json.loads(m.group(1))
            a = array.array("Q")
            try:
                with open(hashes, "rb") as f:
                    a.frombytes(f.read())
                os.unlink(hashes)
            except OSError:
                pass
            for line in re.findall(r"^VHSOFT (.*)$", text, re.M):
                with self.lock:
                    self.soft.append(line)
            with self.lock:
                self.results.append((r, st, a))
            os.unlink(outp)
        elif key == "timeout":
            self.trouble.append("no answer within %d s, twice: %s\n%s" % (r.tmo, " ".join(cmd), text[-1500:]))
            self.abort_all()
        elif key == "harness":
            self.trouble.append("machinery trouble: %s (exit %s)\n%s" % (" ".join(cmd), rc, text[-3000:]))
            self.abort_all()
        else:
            self.fail(key, r, text)

    def main(self):
        self.soft = []
        self.builds, runs = self.plan.make(self.tier, self.seed)
        threads = []

        def do_build(key, b):
            try:
                self.build(key, b)
            except Exception as e:  # noqa: BLE001
                self.trouble.append("build %s: %r" % (key, e))
                self.abort_all()
            finally:
                b.done.set()

        def do_run(i, r):
            try:
                self.run(i, r)
            except Exception as e:  # noqa: BLE001
                self.trouble.append("run %d: %r" % (i, e))
                self.abort_all()

        used = {r.build for r in runs} | {r.args["peer"] for r in runs if "peer" in r.args}
        # Slow compilations first.
        for key, b in sorted(self.builds.items(), key=lambda kv: kv[1].cfg not in ("asan", "tsan")):
            if key in used:
                threads.append(threading.Thread(target=do_build, args=(key, b)))
        for i, r in enumerate(runs):
            threads.append(threading.Thread(target=do_run, args=(i, r)))
        for t in threads:
            t.daemon = True
            t.start()
        for t in threads:
            t.join()
        return self.verdict(runs)

    # ------------------------------------------------------------------ verdict

    def verdict(self, runs):
        new, known = [], []
        for f in self.failures:
            k = known_match(self.pid, f[0], f[2])
            (known if k else new).append((f, k))
        counters, samples, distinct, evals = {}, [], set(), 0
        per_cfg = {}
        for r, st, a in self.results:
            evals += int(st["evaluations"])
            distinct.update(a)
            for k, v in st["counters"].items():
                if k.startswith("max."):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
            for s in st["samples"]:
                if len(samples) < 12 and (len(samples) < 4 or r.build not in [x[0] for x in samples]):
                    samples.append((r.build, s))
            c = per_cfg.setdefault(r.build, {"executions": 0, "evaluations": 0, "wall_s": 0.0})
            c["executions"] += 1
            c["evaluations"] += int(st["evaluations"])
            c["wall_s"] = round(c["wall_s"] + r.wall, 2)
        if not new and not self.trouble:
            for k, least in self.plan.require.items():
                if counters.get(k, 0) < least:
                    self.trouble.append("too little was observed: %s = %s, needed %s" % (k, counters.get(k, 0), least))
            if evals == 0:
                self.trouble.append("nothing was observed")
        replay = None
        if new:
            (key, r, text), _ = new[0]
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            replay = os.path.join(HERE, "evidence", "replay-%s.txt" % self.pid)
            with open(replay, "w") as f:
                f.write("property %s violated: %s\n\n" % (self.pid, key))
                if r is not None:
                    b = self.builds[r.build]
                    f.write("build:\n  %s\nrun (environment %s):\n  %s\n\noutput:\n" %
                            ("\n  ".join(" ".join(c) for c in b.cmds),
                             " ".join("%s=%s" % kv for kv in {**RUN_ENV, **r.env}.items()), " ".join(r.cmd)))
                f.write(text[-60000:])
        ints = {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(counters.items())}
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.plan.level,
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": self.plan.rule,
                "samples": [{"build": b, "case": s} for b, s in samples] or ["(none)"],
                "observed": ints, "executions": per_cfg, "planned_executions": len(runs),
                "completed_executions": len(self.results),
            },
            "assumptions": self.plan.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        if known:
            ev["coverage"]["known_findings_seen"] = sorted({k for _, k in known})
        if self.soft:
            ev["coverage"]["reported_under_other_properties"] = self.soft[:20]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", self.pid + ".json"))
        for k in sorted({k for _, k in known}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if new:
            (key, r, text), _ = new[0]
            brief = [ln for ln in text.splitlines() if re.search(r"VHFAIL|SUMMARY|ERROR:|WARNING: Thread|runtime error|"
                                                                 r"ssertion|VHCRASH|terminate", ln)]
            print("%s: %s\n  %s" % (self.pid, key, "\n  ".join(x[:600] for x in brief[:6]) or text[-800:]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        if self.trouble:
            print("NO ANSWER: " + self.trouble[0])
            return 2
        print("%s held: %d evaluations, %d distinct, %d executions, %.1f s" %
              (self.pid, evals, len(distinct), len(self.results), time.time() - self.t0))
        return 0


def classify(rc, text):
    """None: fine. Otherwise the key of the violation, 'timeout' or 'harness'."""
    if rc is None:
        return "timeout"
    m = re.search(r"^VHFAIL key=(\S+)", text, re.M)
    if m:
        if m.group(1).startswith("harness"):
            return "harness"
        return m.group(1)
    if "AddressSanitizer failed to allocate" in text or "ERROR: Failed to mmap" in text:
        return "harness"
    if "ThreadSanitizer: data race" in text:
        return "data-race"
    if "AddressSanitizer" in text and "ERROR" in text:
        m = re.search(r"AddressSanitizer:? ([\w-]+)", text)
        return "asan-" + (m.group(1) if m else "report")
    if "runtime error:" in text:
        return "undefined-behaviour"
    if "ThreadSanitizer" in text and ("WARNING" in text or "ERROR" in text):
        return "tsan-report"
    if rc == 0:
        return None
    if rc in (70, 71):  # the harness says it cannot work here
        return "harness"
    if "ssertion" in text:
        return "assertion"
    if "terminate called" in text or "libc++abi" in text:
        return "terminate"
    if rc < 0:
        # Killed by the sandbox (memory) is not an answer; faults are.
        if -rc in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            return "harness"
        return "crash-signal-%d" % -rc
    return "exit-%d" % rc


_known = None


def known_match(pid, key, text):
    """Entries:  open: property=<id> key=<regex> case=<regex> :: description"""
    global _known
    if _known is None:
        _known = []
        try:
            with open(os.path.join(HERE, "known_findings")) as f:
                for ln in f:
                    m = re.match(r"open: property=(\S+) key=(\S+) match=(.*?) :: (.*)", ln.strip())
                    if m:
                        _known.append(m.groups())
        except OSError:
            pass
    for p, k, rx, desc in _known:
        if p == pid and re.fullmatch(k, key) and re.search(rx, text):
            return desc
    return None


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in plans.PLANS:
        print("usage: check.py ID [--keep];  IDs: " + " ".join(sorted(plans.PLANS)))
        return 2
    c = Check(sys.argv[1], "--keep" in sys.argv)
    try:
        return c.main()
    finally:
        c.abort_all()
        if c.keep:
            print("kept " + c.dir)
        else:
            shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
