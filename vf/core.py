"""Shared machinery of the checks: TLC runs, driver runs, trace validation, evidence, verdicts."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback

from . import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MPIENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
}


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Violation(Exception):
    def __init__(self, msg, replay):
        Exception.__init__(self, msg)
        self.msg, self.replay = msg, replay


def run_java(args, cwd, timeout, env=None, xmx="3g"):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss64m",
           "-cp", JAR, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return 124, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0


class Check:
    error = CheckError

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(B.BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays", pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.event_counts = {}
        self.notes = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.design_runs = []
        self._spec_copied = False

    # ---- specification files ------------------------------------------------------------
    def specdir(self):
        d = os.path.join(self.work, "spec")
        if not self._spec_copied:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(SPEC, d)
            self._spec_copied = True
        return d

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC ----------------------------------------------------------------------------
    def design(self, module, cfg=None, workers=8, timeout=400, xmx="8g", env=None):
        """Exhaustive (bounded) model check of the design; failing it is an error of the check."""
        cfg = cfg or module + ".cfg"
        meta = os.path.join(self.work, "meta_" + cfg)
        rc, out = run_java(["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
                            module + ".tla"], self.specdir(), timeout, env=env, xmx=xmx)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise CheckError("design check %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        self.design_runs.append({"module": module, "cfg": cfg, "generated": gen, "distinct": dist})
        return out

    def generate(self, module, cfg, num, depth, timeout=300, env=None, seed=None):
        """Behaviours of the specification (TLC -simulate), as JSON values printed with PrintT("@@" \\o ToJson(..))."""
        seed = seed if seed is not None else self.rng.randrange(1, 2 ** 31)
        meta = os.path.join(self.work, "meta_gen")
        rc, out = run_java(["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-workers", "1",
                            "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"],
                           self.specdir(), timeout, env=env)
        shutil.rmtree(meta, ignore_errors=True)
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    s = json.loads(line)
                except ValueError:
                    s = line[1:-1].replace('\\"', '"')
                res.append(json.loads(s[2:]))
        if not res or "Error:" in out:
            raise CheckError("generation from %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
        gen, _ = tlc_stats(out)
        self.transitions += gen
        return res

    def enumerate(self, module, cfg, timeout=600, env=None, workers=1, xmx="4g"):
        """All scenarios TLC reaches in an exhaustive run of a generator module (printed with "@@")."""
        meta = os.path.join(self.work, "meta_enum")
        rc, out = run_java(["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
                            module + ".tla"], self.specdir(), timeout, env=env, xmx=xmx)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise CheckError("enumeration %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        return res

    # ---- the implementation -------------------------------------------------------------
    def build(self, driver, **kw):
        return B.build(driver, **kw)

    def util(self, name):
        return B.util(name)

    def drive(self, exe, args=(), trace=None, timeout=300, mpi=0, cwd=None, env=None, stdin=None):
        """Run a driver; its trace goes to `trace`.  A crash or a hang becomes a Crash event."""
        cwd = cwd or os.path.join(self.work, "run")
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(cwd)
        e = dict(os.environ)
        e.update(MPIENV)
        e["TMPDIR"] = self.work
        e["HOME"] = self.work
        e["VERIF_TRACE"] = trace or ""
        e.update(env or {})
        if trace and os.path.exists(trace):
            os.remove(trace)
        cmd = [exe] + [str(a) for a in args]
        if mpi:
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(mpi)] + cmd
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace", input=stdin)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or ""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            rc = 124
        if rc == 77:
            raise CheckError("driver %s: harness error\n%s" % (os.path.basename(exe), out[-3000:]))
        if trace:
            lines = []
            if os.path.exists(trace):
                with open(trace, errors="replace") as f:
                    for x in f.read().split("\n"):
                        if not x:
                            continue
                        try:
                            json.loads(x)
                        except ValueError:
                            continue
                        lines.append(x)
            if rc != 0:
                lines.append(json.dumps({"event": "Crash", "rc": rc}))
            with open(trace, "w") as f:
                f.write("\n".join(lines) + ("\n" if lines else ""))
        shutil.rmtree(cwd, ignore_errors=True)
        return rc, out

    # ---- conformance --------------------------------------------------------------------
    def _tlc_trace(self, module, cfg, path, timeout, env):
        e = {"TRACE": path}
        e.update(env or {})
        meta = path + ".meta"
        n = sum(1 for _ in open(path))
        rc, out = run_java(["-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"],
                           self.specdir(), timeout, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        gen, dist = tlc_stats(out)
        if rc == 0 and "Model checking completed. No error has been found" in out:
            return True, n, out, gen, dist
        m = re.search(r"[Tt]he depth of the complete state graph search is (\d+)", out)
        if re.search(r"(TraceAccepted|ostcondition)[^\n]*(violated|false|evaluated)", out) or "POSTCONDITION" in out.upper() and m:
            pos = int(m.group(1)) - 1 if m else -1
            return False, pos, out, gen, dist
        inv = re.search(r"Invariant (\w+) is violated|Action property (\w+)", out)
        if inv:
            pos = len(re.findall(r"^State \d+:", out, re.M)) - 1
            return False, pos, out, gen, dist
        first = re.search(r"^Error: .*?(?=^State 1:|^Error: The behavior|\Z)", out, re.M | re.S)
        err = first.group(0)[:1500] if first else out[-3000:]
        # A recorded value of a shape the specification cannot even compare (wrong length, missing
        # index ...) makes TLC stop with an evaluation error at that event: also a rejection.
        if n > 0 and re.search(r"Attempted to|In applying the function|out of (its )?(domain|bounds)|"
                               r"not in the domain|[Oo]verflow when", err) and re.search(r"^State 1:|Finished computing initial states", out, re.M):
            pos = max(len(re.findall(r"^State \d+:", out, re.M)) - 1, 0)
            return False, pos, "evaluation error: " + err, gen, dist
        raise CheckError("trace validation %s of %s did not give a verdict (rc %d):\n%s" % (module, path, rc, err))

    def validate(self, module, cfg, trace, rerun=None, chunks=1, timeout=600, env=None, label=""):
        """TLC decides whether `trace` is a behaviour of the specification.

        The trace is cut at its Begin events into at most `chunks` files validated in parallel.
        A rejection is reported only if recording and validating again rejects again."""
        res = self._validate(module, cfg, trace, chunks, timeout, env)
        if res is None:
            return
        first = res
        if rerun is not None:
            rerun()
            res = self._validate(module, cfg, trace, chunks, timeout, env, count=False)
            if res is None:
                raise CheckError("a rejection did not repeat: %s" % first[1])
        path, msg = res
        os.makedirs(self.replays, exist_ok=True)
        dst = os.path.join(self.replays, "rejected_%s%s.ndjson" % (module, label))
        shutil.copy(path, dst)
        with open(dst + ".txt", "w") as f:
            f.write(msg + "\n\nreplay: cd %s && TRACE=%s tlc -workers 1 -config %s %s.tla\n" % (SPEC, dst, cfg, module))
        raise Violation(msg, dst)

    def _validate(self, module, cfg, trace, chunks, timeout, env, count=True):
        lines = [x for x in open(trace).read().split("\n") if x]
        if not lines:
            raise CheckError("empty trace " + trace)
        evs = [json.loads(x) for x in lines]
        starts = [i for i, e in enumerate(evs) if e["event"] == "Begin"] or [0]
        if starts[0] != 0:
            starts = [0] + starts
        bounds = starts + [len(lines)]
        episodes = [lines[bounds[i]:bounds[i + 1]] for i in range(len(starts))]
        k = max(1, min(chunks, len(episodes)))
        total = sum(len(x) for x in lines)
        groups, cur, acc = [], [], 0
        for ep in episodes:
            cur.append(ep)
            acc += sum(len(x) for x in ep)
            if acc >= total / k and len(groups) < k - 1:
                groups.append(cur)
                cur, acc = [], 0
        if cur:
            groups.append(cur)
        files = []
        for i, g in enumerate(groups):
            p = trace + ".part%d" % i
            with open(p, "w") as f:
                for ep in g:
                    f.write("\n".join(ep) + "\n")
            files.append(p)
        if count:
            self.traces += len(episodes)
            self.events += len(lines)
            for e in evs:
                c = e["event"] + ("/" + e["op"] if isinstance(e.get("op"), str) else "")
                self.event_counts[c] = self.event_counts.get(c, 0) + 1
            if len(self.samples) < 3:
                self.samples.append([json.loads(x) if len(x) < 600 else x[:600] + "..." for x in episodes[-1][:4]])
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda p: self._tlc_trace(module, cfg, p, timeout, env), files))
        bad = None
        for p, (ok, pos, out, gen, dist) in zip(files, results):
            if count:
                self.states += dist
                self.transitions += gen
            if not ok and bad is None:
                ls = open(p).read().split("\n")
                j = min(max(pos, 0), len(ls) - 2)
                inv = re.search(r"Invariant \w+ is violated|^evaluation error: [^\n]*(\n[^\n]*){0,4}", out)
                msg = "%s rejects the recorded execution at event %d: %s%s" % (
                    module, pos + 1, (inv.group(0) + "; ") if inv else "", ls[j][:1500])
                bad = (p, msg)
        return bad

    # ---- verdict ------------------------------------------------------------------------
    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events": self.events,
               "events_by_kind": self.event_counts, "design_models": self.design_runs,
               "samples": self.samples or [self.notes]}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations, "assumptions": self.assumptions}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def need(self, kind, n=1):
        """Guard against vacuity: the recorded traces must contain events of this kind."""
        if self.event_counts.get(kind, 0) < n:
            raise CheckError("vacuous: %d events of kind %s, need %d" % (self.event_counts.get(kind, 0), kind, n))


def load_known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        shutil.rmtree(c.replays, ignore_errors=True)
        fn(c)
        c.evidence(0)
        for k in c.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs" % (
            pid, c.tier, c.traces, c.events, c.states, time.time() - c.t0))
        rc = 0
    except Violation as v:
        c.evidence(1)
        print(v.msg)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        rc = 1
    except (CheckError, B.BuildError) as e:
        print("ERROR property=%s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
