"""Shared machinery of the checks: TLC runs, harness runs, verdicts, evidence, known findings."""
import json, os, re, subprocess, sys, tempfile, time, shutil, random, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402

TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    """Something is wrong with the check itself (never a verdict about the code)."""


class Violation(Exception):
    pass


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"Invariant (\w+) is violated", out)
        self.invariant = m.group(1) if m else None
        self.ok = "No error has been found" in out

    def last(self, var):
        """Value of a variable in the last printed state."""
        m = re.findall(r"^(?:/\\ )?%s = (.*)$" % re.escape(var), self.out, re.M)
        return m[-1] if m else None


class Check:
    def __init__(self, pid, level, tier=None, seed=None):
        self.pid = pid
        self.level = level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = self.cases = 0
        self.samples = []
        self.parts = []
        self.tmp = tempfile.mkdtemp(prefix="vck-%s-" % pid)
        self.bins = {}
        self.san = True

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.tmp, name)

    # ---- building and running the real code -------------------------------------------------
    def build(self, harnesses, variants=("simd",), tools=False):
        """Builds the harnesses; next to the "simd" variant always "san", the same with the sanitizers."""
        if self.san and "simd" in variants and "san" not in variants and harnesses:
            variants = (*variants, "san")
        self.bins.update(build.ensure(harnesses, variants, tools))

    def run(self, harness, args, variant="simd", env=None, stdin=None, timeout=600, check=True, san=True):
        """Runs a harness; a crash or a MISMATCH line is a violation (confirmed by a second run).

        With san, the same run (or that with the arguments given there) is repeated with the sanitizers, whose reports
        end the process: a crash too."""
        out = self.run1(harness, args, variant, env, stdin, timeout, check)
        if san and self.san and check and variant == "simd" and (harness, "san") in self.bins:
            cases = self.cases
            t = time.time()
            self.run1(harness, args if san is True else san, "san", dict(env or {}, ASAN_OPTIONS="detect_leaks=0"), stdin, timeout, check)
            self.cases = cases
            if os.environ.get("VERIF_TIMES"):
                print("san %s %s %.1f" % (harness, args[0], time.time() - t), flush=True)
        return out

    def run1(self, harness, args, variant, env, stdin, timeout, check):
        cmd = [self.bins[(harness, variant)]] + [str(a) for a in args]
        for attempt in (1, 2):
            try:
                p = subprocess.run(cmd, env=dict(os.environ, **(env or {})), input=stdin, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout)
            except subprocess.TimeoutExpired:
                if attempt == 1:
                    timeout = min(timeout, 200)
                    continue
                self.violate({"what": "harness does not terminate", "cmd": cmd[1:], "variant": variant})
            out = p.stdout.decode("utf-8", "replace")
            bad = [l for l in out.splitlines() if l.startswith("MISMATCH")]
            if not bad and p.returncode == 0:
                break
            if p.returncode == 77:
                raise Machinery("harness %s: %s %s" % (harness, out[-2000:], p.stderr.decode("utf-8", "replace")[-2000:]))
            if attempt == 2 and check:
                what = "the real code does not behave as the specification says" if bad else \
                    "the real code crashed (status %d)" % p.returncode
                self.violate({"what": what, "harness": harness, "variant": variant, "args": cmd[1:], "env": env or {},
                              "mismatches": bad[:20], "tail": out[-1500:],
                              "stderr": p.stderr.decode("utf-8", "replace")[-3000:]})
        m = re.findall(r"^DONE (\d+)", out, re.M)
        if m:
            self.cases += sum(map(int, m))
        return out

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", timeout=800, extra=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock", "-config", "run.cfg", *extra, module]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on %s" % module)
        r = Tlc(p.returncode, p.stdout.decode("utf-8", "replace"))
        shutil.rmtree(d, ignore_errors=True)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def model(self, name, module, cfg, env=None, **kw):
        """A check of the specification itself: must pass, whatever the code does."""
        t = time.time()
        r = self.tlc(module, cfg, env, **kw)
        if not r.ok:
            raise Machinery("specification run %s failed:\n%s" % (name, r.out[-4000:]))
        self.parts.append({"part": name, "kind": "model", "states": r.distinct, "generated": r.generated,
                           "wall_s": round(time.time() - t, 1)})
        return r

    def table(self, name, module, env=None, cfg="", **kw):
        """Evaluates the ASSUMEs of a module which write tables for the harness."""
        t = time.time()
        r = self.tlc(module, cfg, env, workers=kw.pop("workers", 1), **kw)
        if not r.ok and "Finished in" not in r.out or "Error" in r.out or "is false" in r.out:
            raise Machinery("table run %s failed:\n%s" % (name, r.out[-4000:]))
        self.parts.append({"part": name, "kind": "generated-from-spec", "wall_s": round(time.time() - t, 1)})
        return r

    def validate(self, name, module, cfg, traces_file, env=None, describe=None, **kw):
        """Checks recorded traces of the real code against the specification (invariant Conform)."""
        t = time.time()
        n = sum(1 for _ in open(traces_file))
        e = {"TRACES": traces_file}
        e.update(env or {})
        r = self.tlc(module, cfg, e, **kw)
        if r.ok:
            self.traces += n
            self.parts.append({"part": name, "kind": "trace-validation", "traces": n, "states": r.distinct,
                               "generated": r.generated, "wall_s": round(time.time() - t, 1)})
            return r
        if r.invariant != "Conform":
            raise Machinery("trace validation %s failed:\n%s" % (name, r.out[-4000:]))
        tid, l = r.last("tid"), r.last("l")
        rec = None
        if tid and tid.isdigit():
            with open(traces_file) as f:
                for i, line in enumerate(f, 1):
                    if i == int(tid):
                        rec = json.loads(line)
        self.violate({"what": "a recorded trace of the real code is not a behaviour of the specification",
                      "part": name, "module": module, "trace_id": tid, "line": l,
                      "trace": rec, "tlc": r.out[-3000:]})

    # ---- verdicts -----------------------------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, info):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, self.seed))
        info = dict(info, property=self.pid, tier=self.tier, seed=self.seed,
                    rerun="VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s" % (self.seed, self.tier, self.pid))
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        raise Violation(p)

    def evidence(self, result):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "cases_replayed_on_impl": self.cases,
               "parts": self.parts, "samples": self.samples, "result": result}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(pid, level, fn):
    c = Check(pid, level)
    try:
        try:
            fn(c)
            for key, what in known_findings(pid):
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
            c.evidence("held on everything explored")
            print("OK property=%s states=%d transitions=%d traces=%d cases=%d wall=%.1fs" %
                  (pid, c.states, c.transitions, c.traces, c.cases, time.time() - c.t0))
            return 0
        except Violation as v:
            c.evidence("VIOLATION")
            print("VIOLATION property=%s replay=%s" % (pid, v))
            return 1
        except build.BuildError as e:
            print("BUILD ERROR\n%s" % str(e)[:3000])
            return 2
        except Machinery as e:
            print("CHECK ERROR\n%s" % e)
            return 2
        except Exception:
            traceback.print_exc()
            return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.tmp, ignore_errors=True)
