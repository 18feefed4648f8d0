"""Build-and-run machinery shared by all checks.

A check is a list of Build objects. Every Build compiles harness translation units together with the headers in the working
tree of /repo and has a list of Run objects. The verdict is three-valued:
  exit 0  held on everything observed
  exit 1  violated: a monitor or sanitizer reported, with a VIOLATION line
  exit 2  no answer (compiler killed, monitor observed nothing, wall clock watchdog)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
INCLUDE = os.path.join(REPO, "include")
JOBS = max(2, min(8, os.cpu_count() or 2))

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=97:abort_on_error=0:halt_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_init_order=1:allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "exitcode=97:halt_on_error=1:print_stacktrace=1",
    "LSAN_OPTIONS": "exitcode=98:report_objects=1",
    "MSAN_OPTIONS": "exitcode=97:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1",
}
SAN_RE = re.compile(
    r"ERROR: (Address|Leak|Memory|Thread)Sanitizer|WARNING: (Memory|Thread)Sanitizer|runtime error:|"
    r"SUMMARY: \w*Sanitizer|LEAK SUMMARY|Invalid (read|write) of size|uninitialised value")


class InfraError(Exception):
    pass


class Run:
    def __init__(self, *args, env=None, wrap=None, cpu=240, expect=None, name=None, post=None):
        self.args = [str(a) for a in args]
        self.env = env or {}
        self.wrap = wrap or []      # e.g. valgrind ...
        self.cpu = cpu              # CPU seconds; exceeding it twice is reported as non-termination
        self.name = name
        self.post = post            # post(stdout) -> list of failure strings; sees the whole output


class Build:
    def __init__(self, name, cc, srcs, runs, link=None, expect_link_fail=None, need="required"):
        self.name = name
        self.cc = cc.split() if isinstance(cc, str) else list(cc)
        # list of (file, [flags...]) or (file, [flags...], compiler command)
        self.srcs = [(x[0], x[1], (x[2].split() if len(x) > 2 else self.cc)) for x in srcs]
        self.runs = runs
        self.link = link or []


class Violation:
    def __init__(self, what, build=None, run=None, output="", cmds=None):
        self.what, self.build, self.run, self.output, self.cmds = what, build, run, output, cmds or []


def _limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgrp()
    return f


def run_cmd(cmd, cpu, wall, env=None, cwd=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         preexec_fn=_limits(cpu))
    try:
        out, _ = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace")


class Check:
    def __init__(self, pid, tier, seed, level, rule, assumptions=None):
        self.pid, self.tier, self.seed, self.level, self.rule = pid, tier, seed, level, rule
        self.assumptions = assumptions or []
        self.violations = []
        self.evaluations = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.runs = []
        self.extra = {}
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.infra = []

    # ------------------------------------------------------------------ compile
    def _compile_cmd(self, src, flags, cc, obj):
        return cc + ["-I" + INCLUDE, "-I" + HARNESS] + flags + ["-c", os.path.join(HARNESS, src), "-o", obj]

    def obj(self, src, flags, cc):
        key = hashlib.sha1(repr((cc, src, flags)).encode()).hexdigest()[:16]
        return os.path.join(self.tmp, key + ".o")

    def compile_all(self, builds):
        """Compiles all objects of all builds in one pool. Returns list of builds that linked."""
        jobs, objs = {}, {}
        for b in builds:
            objs[b.name] = []
            for src, flags, cc in b.srcs:
                obj = self.obj(src, flags, cc)
                jobs.setdefault(obj, (b, self._compile_cmd(src, flags, cc, obj), src))
                objs[b.name].append(obj)

        def comp(item):
            obj, (b, cmd, src) = item
            for attempt in range(2):
                rc, out = run_cmd(cmd, cpu=400, wall=700)
                if rc == 0:
                    return obj, None, cmd
                if rc is not None and rc > 0 and re.search(r"\berror:", out) and "Killed" not in out \
                        and "internal compiler error" not in out and "No space left" not in out:
                    return obj, out, cmd
            return obj, InfraError("compiler gave no answer (rc %s) for %s:\n%s" % (rc, src, out[-2000:])), cmd

        failed = {}
        # long ones first
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for obj, res, cmd in ex.map(comp, list(jobs.items())):
                if isinstance(res, InfraError):
                    raise res
                if res is not None:
                    failed[obj] = (res, cmd)
        ok = []
        for b in builds:
            bad = [o for o in objs[b.name] if o in failed]
            if bad:
                out, cmd = failed[bad[0]]
                first = next((l for l in out.splitlines() if "error:" in l), "")
                self.violations.append(Violation(
                    "a valid program using only the public interface does not compile: " + first[:300], b, None, out[-12000:],
                    [" ".join(map(shlex.quote, cmd))]))
                continue
            b.exe = os.path.join(self.tmp, b.name)
            b.link_cmd = b.cc + objs[b.name] + ["-o", b.exe] + b.link
            ok.append(b)

        def link(b):
            rc, out = run_cmd(b.link_cmd, cpu=200, wall=400)
            return b, rc, out
        linked = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for b, rc, out in ex.map(link, ok):
                b.cmds = [" ".join(map(shlex.quote, self._compile_cmd(s, f, cc, o)))
                          for (s, f, cc), o in zip(b.srcs, objs[b.name])] + [" ".join(map(shlex.quote, b.link_cmd))]
                if rc != 0:
                    if rc is None or rc < 0 or "No space left" in out:
                        raise InfraError("linker gave no answer for %s: %s" % (b.name, out[-500:]))
                    self.violations.append(Violation("program does not link: " + out[-500:], b, None, out, b.cmds))
                    continue
                linked.append(b)
        return linked

    # ------------------------------------------------------------------ run
    def _execute(self, b, r):
        cmd = r.wrap + [b.exe] + r.args
        rc, out = run_cmd(cmd, cpu=r.cpu, wall=r.cpu * 3 + 60, env=r.env, cwd=self.tmp)
        if "LeakSanitizer has encountered a fatal error" in out or "LeakSanitizer does not work under ptrace" in out:
            env = dict(r.env)
            env["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
            self.extra["lsan"] = "not usable in this environment"
            rc, out = run_cmd(cmd, cpu=r.cpu, wall=r.cpu * 3 + 60, env=env, cwd=self.tmp)
        if "FATAL: ThreadSanitizer" in out or "FATAL: MemorySanitizer" in out:  # address space layout: once more without ASLR
            cmd = ["setarch", "-R"] + cmd
            rc, out = run_cmd(cmd, cpu=r.cpu, wall=r.cpu * 3 + 60, env=r.env, cwd=self.tmp)
        return cmd, rc, out

    def run_one(self, b, r):
        cmd, rc, out = self._execute(b, r)
        if rc is None or rc == -signal.SIGKILL:
            cmd, rc, out = self._execute(b, r)
            if rc is None or rc == -signal.SIGKILL:
                return b, r, cmd, rc, out, None, "no answer: killed or wall clock watchdog (rc %s)" % rc
        if rc == -signal.SIGXCPU:
            cmd, rc, out = self._execute(b, r)
            if rc == -signal.SIGXCPU:
                return b, r, cmd, rc, out, ["does not terminate within %d s of CPU time" % r.cpu], None
        stats = None
        m = re.findall(r"^STATS (\{.*\})$", out, re.M)
        if m:
            try:
                stats = json.loads(m[-1])
            except ValueError:
                stats = None
        fails = [l for l in out.splitlines() if l.startswith("FAIL:")]
        if rc == 9:
            return b, r, cmd, rc, out, None, "harness rejected its arguments: " + out[-300:]
        m = SAN_RE.search(out)
        if m and rc != 0:
            i = out.find(m.group(0))
            fails.append("sanitizer report: " + " | ".join(out[i:i + 600].splitlines()[:4]))
        if not fails and rc != 0:
            fails.append("abnormal end with code %d: %s" % (rc, out[-400:].replace("\n", " | ")))
        if r.post:
            fails += r.post(out)
        if not fails and (stats is None or stats["evaluations"] == 0):
            return b, r, cmd, rc, out, None, "the monitor observed nothing (no STATS): " + out[-300:]
        r.stats = stats
        r.out = out
        return b, r, cmd, rc, out, fails, None

    def run_all(self, builds):
        work = [(b, r) for b in builds for r in b.runs]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for b, r, cmd, rc, out, fails, infra in ex.map(lambda x: self.run_one(*x), work):
                if infra:
                    self.infra.append("%s %s: %s" % (b.name, " ".join(r.args), infra))
                    continue
                st = getattr(r, "stats", None)
                self.runs.append({"build": b.name, "args": r.args, "rc": rc,
                                  "evaluations": st["evaluations"] if st else 0,
                                  "distinct": st["distinct"] if st else 0})
                if st:
                    self.evaluations += st["evaluations"]
                    self.distinct += st["distinct"]
                    for k, v in st["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for s in st["samples"]:
                        if len(self.samples) < 40 and s not in self.samples:
                            self.samples.append(s)
                if fails:
                    self.violations.append(Violation("; ".join(fails[:3])[:1500], b, r, out,
                                                     getattr(b, "cmds", []) + [" ".join(map(shlex.quote, cmd))]))

    def go(self, builds):
        linked = self.compile_all(builds)
        self.run_all(linked)

    def add(self, evaluations, distinct, samples=()):
        self.evaluations += evaluations
        self.distinct += distinct
        for s in samples:
            if len(self.samples) < 60:
                self.samples.append(s)

    def violation(self, what, output="", cmds=()):
        self.violations.append(Violation(what, None, None, output, list(cmds)))

    # ------------------------------------------------------------------ end
    def known(self):
        """Known findings: lines 'finding: property=<id> match=/<regex>/ <text>' (entries 'fixed:' suppress nothing)."""
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.rstrip("\n"))
                if m and m.group(1) == self.pid:
                    res.append((re.compile(m.group(2)), m.group(3)))
        return res

    def finish(self):
        new = []
        for v in self.violations:
            k = next((d for rx, d in self.known() if rx.search(v.what)), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
            else:
                new.append(v)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": self.distinct, "rule": self.rule,
                "samples": self.samples[:60] or ["(none)"], "observed": self.counters, "runs": self.runs,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        ev["coverage"].update(self.extra)
        edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rdir = os.path.join(edir, "replay", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        if new:
            os.makedirs(rdir, exist_ok=True)
            for n, v in enumerate(new[:10]):
                path = os.path.join(rdir, "%d.sh" % n)
                with open(path, "w") as f:
                    f.write("#!/bin/bash\n# Replays: %s\n# Rebuilds the harness and reruns exactly this workload.\n"
                            % v.what.replace("\n", " ")[:400])
                    f.write("mkdir -p %s\n" % self.tmp)
                    for k, val in SAN_ENV.items():
                        f.write("export %s=%s\n" % (k, shlex.quote(val)))
                    for c in v.cmds:
                        f.write(c + "\n")
                    f.write("# ---- observed output ----\n")
                    for l in v.output.splitlines()[-400:]:
                        f.write("# " + l + "\n")
                print("  " + v.what.replace("\n", "\n  ")[:1200])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s %s: %d evaluations, %d distinct, %d runs, %.1f s, %d violations"
              % (self.pid, self.tier, self.evaluations, self.distinct, len(self.runs), ev["wall_s"], len(new)))
        if new:
            return 1
        if self.infra:
            for i in self.infra:
                print("NO ANSWER: " + i)
            return 2
        return 0
