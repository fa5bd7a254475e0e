#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, runs
them, confirms and reports violations, writes evidence/<id>.json.

usage: check.py <property> [--tier quick|thorough]
exit 0: held on everything explored; exit 1: VIOLATION line(s) printed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "src", "include")
SRC = os.path.join(HERE, "src")
sys.path.insert(0, os.path.join(HERE, "bin"))
NCPU = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)

ENV = {k: v for k, v in os.environ.items()
       if not k.startswith(("VERIF_", "ASAN", "UBSAN", "TSAN", "MALLOC_"))}
ENV["LC_ALL"] = "C"
ENV["MALLOC_PERTURB_"] = "191"  # fresh heap memory reads as 32.5, not as 0


class Job:
    """One harness binary and one run of it."""
    def __init__(self, name, src, std="c++17", defs=(), flags=("-O1",), args=(),
                 cxx="g++", timeout=300, extra_src=(), link=(), key=None,
                 fallback=True, mem_gb=12, wrapper=(), inc=True):
        self.name, self.src, self.std = name, src, std
        self.defs, self.flags, self.args = tuple(defs), tuple(flags), tuple(args)
        self.cxx, self.timeout = cxx, timeout
        self.extra_src, self.link = tuple(extra_src), tuple(link)
        self.fallback, self.mem_gb = fallback, mem_gb
        self.wrapper, self.inc = tuple(wrapper), inc
        # jobs with equal build keys share the binary
        self.key = (self.src, self.std, self.defs, self.flags, self.cxx,
                    self.extra_src, self.link)

    def compile_cmd(self, out, std=None):
        c = [self.cxx, "-std=" + (std or self.std), "-w", "-pthread"]
        c += list(self.flags) + ["-D" + d for d in self.defs]
        if self.inc:
            c += ["-I", INC]
        c += ["-I", SRC, os.path.join(SRC, self.src)]
        c += [os.path.join(SRC, s) for s in self.extra_src]
        c += ["-o", out] + list(self.link)
        return c


class McJob(Job):
    """A harness explored by the model checker in mc/: its objects are compiled
    with the thread sanitizer's instrumentation and linked with mc/mcrt.cpp
    instead of the sanitizer's runtime."""
    MC = os.path.join(HERE, "mc")

    def __init__(self, name, src, std="c++17", defs=(), ref=(), args=(),
                 timeout=400):
        Job.__init__(self, name, src, std, defs, ("mc",), args, timeout=timeout,
                     extra_src=ref, mem_gb=0)

    def compile_cmd(self, out, std=None):
        import shlex
        std = "-std=" + (std or self.std)
        sq = lambda l: " ".join(shlex.quote(x) for x in l)
        inst = ["g++", std, "-w", "-O1", "-g1", "-fno-inline", "-fsanitize=thread",
                "-I", self.MC, "-I", INC] + ["-D" + d for d in self.defs]
        # $0: the executable; everything is built beside it
        cmds = [sq(["g++", "-std=c++17", "-w", "-O1", "-fno-builtin", "-c",
                    os.path.join(self.MC, "mcrt.cpp"), "-o"]) + ' "$0.rt.o"']
        objs = ['"$0.rt.o"']
        for i, s in enumerate((self.src,) + self.extra_src):
            o = '"$0.%d.o"' % i
            cmds.append(sq(inst + ["-c", os.path.join(self.MC, s), "-o"]) + " " + o)
            objs.append(o)
        cmds.append("g++ %s -o \"$0\" -rdynamic -ldl -pthread" % " ".join(objs))
        cmds.append("rm -f " + " ".join(objs))
        return ["bash", "-c", " && ".join(cmds), out]


def run(cmd, timeout, mem_gb=12, cwd=None):
    """-> (rc or None on timeout, output)"""
    def pre():
        os.setsid()
        import resource
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=ENV,
                             stdin=subprocess.DEVNULL, preexec_fn=pre, cwd=cwd)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out.seek(0, 2)
        n = out.tell()
        out.seek(max(0, n - 400000))
        return rc, out.read().decode("utf-8", "replace")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.lock = threading.Lock()
        self.built = {}      # key -> (event, path or None, log)
        self.viol = []       # (text, job, output)
        self.known = []
        self.errors = []
        self.tot = dict(states=0, transitions=0, traces=0)
        self.samples, self.runs, self.extra = [], [], {}
        self.solo = threading.Lock()
        self.stop = False

    # -------------------------------------------------------------- build
    def build(self, job):
        with self.lock:
            ent = self.built.get(job.key)
            first = ent is None
            if first:
                ent = self.built[job.key] = [threading.Event(), None, "", None]
                n = len(self.built)
        if not first:
            ent[0].wait()
            return ent
        out = os.path.join(self.tmp, "b%d" % n)
        try:
            for attempt in range(2):
                rc, log = run(job.compile_cmd(out), 600, 0)
                if rc == 0:
                    ent[1] = out
                    break
                if attempt == 0:
                    time.sleep(0.5)
            if ent[1] is None and job.fallback and job.std in (
                    "c++11", "c++14", "c++17"):
                # other checks do not judge what a language standard accepts
                # (C09 does): fall back to a newer one
                for std in ("c++17", "c++20"):
                    rc2, log2 = run(job.compile_cmd(out, std), 600, 0)
                    if rc2 == 0:
                        ent[1], ent[3] = out, std
                        break
            ent[2] = log
        finally:
            ent[0].set()
        return ent

    # -------------------------------------------------------------- run
    def do(self, job):
        if self.stop:
            return
        t0 = time.time()
        ent = self.build(job)
        t1 = time.time()
        if ent[1] is None:
            errs = [l for l in ent[2].splitlines()
                    if "error" in l or "undefined reference" in l]
            if errs:
                self.violation(job, "does not compile: " + errs[0][:300], ent[2])
            else:
                with self.lock:
                    self.errors.append("%s: compiler failed: %s" %
                                       (job.name, ent[2][-500:]))
            return
        cmd = list(job.wrapper) + [ent[1]] + list(job.args)
        if self.tier == "thorough":
            cmd.append("--thorough")
        rc, out = run(cmd, job.timeout, job.mem_gb)
        if rc == 0 and "STATS " in out:
            self.stats(job, out, t1 - t0, time.time() - t1)
            return
        # confirm before reporting: run the same thing again, alone
        with self.solo:
            if self.stop:
                return
            again = []
            for _ in range(3):
                rc2, out2 = run(cmd, job.timeout * (1.5 if rc is None else 1),
                                job.mem_gb)
                bad = not (rc2 == 0 and "STATS " in out2)
                again.append(bad)
                if bad:
                    self.stats(job, out2, 0, 0)
                    self.describe(job, rc2, out2)
                    if rc2 is None and self.viol:
                        self.stop = True    # a hang: do not wait for others
                    return
            # not reproduced: a fault of the machine, unless the harness itself
            # found a concrete mismatch (multithreaded builds)
            with self.lock:
                self.extra.setdefault("unreproduced", []).append(
                    "%s rc=%s %s" % (job.name, rc, out[-300:]))
            self.stats(job, out2, t1 - t0, time.time() - t1)

    def describe(self, job, rc, out):
        vs = [l for l in out.splitlines() if l.startswith("VIOL ")]
        if rc is None and not vs:
            vs = ["VIOL no termination within the time limit " +
                  " ".join(re.findall(r"CASE .*", out)[-1:])]
        elif not vs:
            m = re.findall(r"(?:ERROR: |runtime error: |SUMMARY: |"
                           r"terminate called.*|what\(\).*|Assertion.*)[^\n]*",
                           out)
            c = re.findall(r"CRASH case=[^\n]*", out)
            vs = ["VIOL abnormal end rc=%s %s %s" % (rc, " ".join(c[:1]),
                                                    " | ".join(m[:3])[:600])]
        for v in vs:
            self.violation(job, v[5:], out)

    def violation(self, job, text, out):
        with self.lock:
            for k in KNOWN.get(self.pid, []):
                if k in text:
                    if k not in self.known:
                        self.known.append(k)
                    return
            self.viol.append((text, job, out))
            if len(self.viol) >= 3:
                self.stop = True

    def stats(self, job, out, tc, tr):
        m = re.findall(r"^STATS (\{.*\})$", out, re.M)
        if not m:
            return
        s = json.loads(m[-1])
        with self.lock:
            for k in self.tot:
                self.tot[k] += int(s.get(k, 0))
            self.samples += [job.name + ": " + x for x in s.get("samples", [])[:2]]
            self.runs.append(dict(run=job.name, compile_s=round(tc, 1),
                                  run_s=round(tr, 1),
                                  **{k: v for k, v in s.items()
                                     if k not in ("samples",)}))
            if s.get("incomplete"):
                self.extra["not_exhausted"] = (
                    self.extra.get("not_exhausted", 0) + s["incomplete"])

    # -------------------------------------------------------------- report
    def report(self, spec, wall):
        rdir = os.path.join(HERE, "replays", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        lines = []
        for i, (text, job, out) in enumerate(self.viol[:5]):
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%d.sh" % i)
            exe = "$(mktemp -d)/h"
            with open(p, "w") as f:
                f.write("#!/bin/bash\n# property %s, run %s\n# %s\n"
                        "# rebuilds the harness from %s and repeats the run\n"
                        "export MALLOC_PERTURB_=191\nexe=%s\n" % (self.pid, job.name,
                                      text.replace("\n", " ")[:1500], INC, exe))
                f.write(" ".join(q(a) for a in job.compile_cmd("@EXE@"))
                        .replace("@EXE@", '"$exe"').replace("'\"$exe\"'", '"$exe"')
                        + " || exit 1\n")
                one = re.search(r"scenario=(\S+) .*schedule=([0-9a-f]*)", text)
                f.write(" ".join(list(job.wrapper) + ['"$exe"'] +
                                 [q(a) for a in job.args] +
                                 (["--only", one.group(1), "--schedule",
                                   one.group(2) or "''"]
                                  if one and isinstance(job, McJob) else []) +
                                 (["--thorough"] if self.tier == "thorough"
                                  else [])) + "\n")
            with open(p[:-3] + ".log", "w") as f:
                f.write(out)
            os.chmod(p, 0o755)
            print("  %s: %s" % (job.name, text[:600]))
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, p))
        t = self.tot
        cov = dict(states=t["states"], transitions=t["transitions"],
                   traces_validated_against_impl=t["traces"],
                   samples=self.samples[:12] or ["none"],
                   exhaustive=bool(spec.get("exhaustive", True)) and not self.stop
                   and not self.extra.get("not_exhausted"),
                   rule=spec.get("rule", ""), bounds=spec.get("bounds", ""),
                   runs=self.runs)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=spec.get("level", "model_checking"), coverage=cov,
                  assumptions=spec.get("assumptions", []),
                  wall_s=round(wall, 2), violations=len(self.viol))
        if ev["level"] in ("exploration", "fault_enumeration"):
            cov["evaluations"] = t["transitions"]
            cov["distinct_nontrivial"] = t["states"]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: states=%d transitions=%d traces=%d runs=%d wall=%.1fs" %
              (self.pid, self.tier, t["states"], t["transitions"], t["traces"],
               len(self.runs), wall))
        for l in lines:
            print(l)
        if lines:
            return 1
        if self.errors:
            print("\n".join(self.errors[:5]))
            return 2
        return 0


def q(a):
    import shlex
    return shlex.quote(a)


def load_known():
    k = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) match=(.*)$", l.strip())
            if m:
                k.setdefault(m.group(1), []).append(m.group(2))
    return k


KNOWN = load_known()


def main():
    import specs
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ck = Check(pid, tier, seed)
    try:
        spec = specs.SPECS[pid](tier)
        jobs = spec["jobs"]
        with ThreadPoolExecutor(NCPU) as ex:
            if spec.get("serial"):  # each run uses all processors
                for f in [ex.submit(ck.build, j) for j in jobs]:
                    f.result()
                for j in jobs:
                    ck.do(j)
            else:
                for f in [ex.submit(ck.do, j) for j in jobs]:
                    f.result()
        rc = ck.report(spec, time.time() - t0)
    finally:
        shutil.rmtree(ck.tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
