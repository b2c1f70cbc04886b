"""Shared machinery of the checks: scratch space, building harnesses from /repo, running TLC, evidence, verdicts.

Outcome discipline: exit 0 (held), exit 1 + VIOLATION line (broken, confirmed by a second identical run),
exit 2 (the check itself failed: compiler, TLC model error, ...)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The machinery failed; says nothing about the property."""


class Violation(Exception):
    def __init__(self, what, replay_lines=None):
        super().__init__(what)
        self.what = what
        self.replay_lines = replay_lines or []


def tla_classpath():
    cps = []
    for root, _, files in os.walk("/opt/veriftools/tla"):
        for f in files:
            if f.endswith(".jar"):
                cps.append(os.path.join(root, f))
    cps.sort(key=lambda p: (not p.endswith("tla2tools.jar"), p))
    return ":".join(cps)


def tlc_err(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-2500:]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = seed
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.dir = tempfile.mkdtemp(prefix=f"vchk_{prop}_", dir=base)
        self.states = 0          # distinct states over all TLC runs
        self.transitions = 0     # states generated
        self.traces = 0          # scenarios replayed in the implementation and validated
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self._n = 0
        self._lock = threading.Lock()

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name):
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        return p

    # ------------------------------------------------------------------ build
    def build(self, src, out=None, flags=(), libs=(), shim=False, simmpi=False, timeout=600):
        """Compile /verif/harness/<src> against /repo/include. Compile failure is an error of the check."""
        out = out or os.path.splitext(os.path.basename(src))[0]
        exe = self.path(out)
        cmd = ["g++", "-std=c++20", "-O1", "-g0", "-w", f"-I{HARNESS}"]
        if simmpi:
            cmd += [f"-I{SHIM}/simmpi"]
        if shim:
            cmd += [f"-I{SHIM}", "-I/usr/include/eigen3"]
        cmd += [f"-I{REPO}/include", *flags, os.path.join(HARNESS, src), "-o", exe, *libs]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError(f"harness {src} does not compile:\n{' '.join(cmd)}\n{r.stderr[-4000:]}")
        return exe

    def run(self, exe, args=(), stdin=None, timeout=300, env=None, cwd=None, ok=(0,)):
        """Run a harness. A crash or a hang that repeats is the code's doing and reported as a violation."""
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=99")
        e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:exitcode=98:print_stacktrace=0")
        if env:
            e.update(env)
        last = None
        for attempt in range(2):
            try:
                r = subprocess.run([exe, *map(str, args)], input=stdin, capture_output=True, text=True,
                                   timeout=timeout, env=e, cwd=cwd or self.dir)
            except subprocess.TimeoutExpired as ex:
                last = ("hang", f"no result within {timeout} s", ex.stdout, ex.stderr)
                continue
            if r.returncode in ok:
                return r
            last = ("crash", f"exit status {r.returncode}", r.stdout, r.stderr)
            if r.returncode == 3:      # harness usage/setup error, by convention
                raise CheckError(f"harness {exe} {args}: {r.stderr[-2000:]}")
        kind, what, so, se = last
        def tail(x):
            if x is None:
                return ""
            if isinstance(x, bytes):
                x = x.decode("utf8", "replace")
            return x[-3000:]
        raise Violation(f"implementation {kind} ({what}) in {os.path.basename(exe)} {' '.join(map(str, args))}",
                        [tail(so), tail(se)])

    # ------------------------------------------------------------------ TLC
    def _next(self):
        with self._lock:
            self._n += 1
            return self._n

    def tlc(self, module, cfg, env=None, workers=4, timeout=800, extra=(), heap="3g"):
        """Run TLC on spec/<module>.tla with the config text `cfg`. Returns (ok, stdout, stats)."""
        work = self.path(f"tlc{self._next()}")
        os.makedirs(work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        with open(os.path.join(work, "M.cfg"), "w") as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", tla_classpath(),
               "tlc2.TLC", "-config", "M.cfg", "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE",
               "-workers", str(workers), *extra, f"{module}.tla"]
        try:
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC {module} exceeded {timeout} s")
        out = r.stdout
        st = {"distinct": 0, "generated": 0, "depth": 0, "rc": r.returncode}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            st["generated"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m[-1])
        self.states += st["distinct"]
        self.transitions += st["generated"]
        shutil.rmtree(work, ignore_errors=True)
        return r.returncode == 0, out, st

    def model_check(self, module, cfg, env=None, workers=4, timeout=800, label=None, extra=(), heap="3g"):
        """Exhaustive check of the design. Anything but success is an error of the machinery, never an alarm."""
        ok, out, st = self.tlc(module, cfg, env, workers, timeout, extra, heap)
        if not ok:
            raise CheckError(f"model {module} failed:\n{tlc_err(out)}")
        self.notes.setdefault("models", []).append(
            {"module": module, "config": label or "", "distinct_states": st["distinct"],
             "states_generated": st["generated"], "depth": st["depth"]})
        return out, st

    def gen_scenarios(self, module, cfg, workers=1, timeout=800, env=None):
        """Run TLC on a generator module; the spec writes one JSON scenario per line to IOEnv.OUT."""
        outf = self.path(f"scn{self._n}.ndjson")
        e = {"OUT": outf}
        if env:
            e.update(env)
        self.model_check(module, cfg, e, workers, timeout, label="scenario generator")
        with open(outf) as fh:
            out = [json.loads(l) for l in fh if l.strip()]
        return [json.loads(x) if isinstance(x, str) else x for x in out]

    def validate(self, module, lines, cfg_extra="", constants="", timeout=800, what="trace", heap="4g"):
        """Validate one recorded trace (list of dict events) against the trace specification `module`.
        Returns None if accepted, else the 0-based index of the first event the specification rejects."""
        tf = self.path(f"trace{self._next()}.ndjson")
        with open(tf, "w") as fh:
            for l in lines:
                fh.write((l if isinstance(l, str) else json.dumps(l)) + "\n")
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + constants + "\n" + cfg_extra
        ok, out, st = self.tlc(module, cfg, {"TRACE": tf}, workers=1, timeout=timeout, heap=heap)
        if ok:
            if st["depth"] - 1 != len(lines):
                raise CheckError(f"trace acceptance mismatch for {module}: depth {st['depth']} events {len(lines)}")
            self.events += len(lines)
            return None
        if "TraceAccepted" in out and re.search(r"POSTCONDITION|postcondition|Postcondition", out) and "Error: Evaluating" not in out \
                and "The error occurred when TLC was evaluating" not in out:
            return max(0, st["depth"] - 1)
        if "Invariant" in out and "is violated" in out:
            m = re.findall(r"^State (\d+):", out, re.M)
            return max(0, int(m[-1]) - 2) if m else 0
        if "Attempted to" in out or "Overflow when computing" in out or "The error occurred when TLC was evaluating" in out:
            # the recorded event does not even have the shape the specification expects: also a rejection
            # (on the unchanged tree every trace is evaluated and accepted, so this is the code's doing)
            self.notes["rejection_by_evaluation_error"] = tlc_err(out)[:800]
            m = re.findall(r"^State (\d+):", out, re.M)
            return max(0, int(m[-1]) - 1) if m else max(0, st["depth"] - 1)
        raise CheckError(f"trace specification {module} failed:\n{tlc_err(out)}")

    def conform(self, module, record, begin=lambda e: e.get("op") in ("begin", "scenario"), constants="", cfg_extra="", timeout=800,
                describe=None, heap="4g"):
        """record() executes the implementation and returns the event list; TLC must accept it.
        A rejection is confirmed by recording and validating the rejected scenario a second time."""
        lines = record()
        evs = [json.loads(l) if isinstance(l, str) else l for l in lines]
        if not evs:
            raise CheckError("empty trace recorded")
        bad = self.validate(module, evs, constants=constants, cfg_extra=cfg_extra, timeout=timeout, heap=heap)
        self.traces += sum(1 for e in evs if begin(e))
        if len(self.samples) < 4:
            self.samples.append(evs[:6])
        if bad is None:
            return evs
        for _ in range(2):
            evs2 = [json.loads(l) if isinstance(l, str) else l for l in record()]
            bad2 = self.validate(module, evs2, constants=constants, cfg_extra=cfg_extra, timeout=timeout, heap=heap)
            if bad2 is not None:
                break
        if bad2 is None:
            raise CheckError(f"rejection by {module} did not repeat (event {bad})")
        bad, evs = bad2, evs2
        s = bad if bad < len(evs) else len(evs) - 1
        while s > 0 and not begin(evs[s]):
            s -= 1
        scen = evs[s:bad + 1]
        raise Violation(f"{module} rejects recorded event #{bad}: {json.dumps(evs[min(bad, len(evs)-1)])[:600]}"
                        + (" " + describe(scen) if describe else ""), [json.dumps(e) for e in scen])

    def conform_all(self, module, records, **kw):
        """Several independent recordings, each judged by its own TLC run, at most six at a time."""
        with ThreadPoolExecutor(6) as ex:
            return list(ex.map(lambda r: self.conform(module, r, **kw), records))

    # ------------------------------------------------------------------ evidence
    def evidence(self, level, violations):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "implementation_events_validated": self.events}
        cov.update(self.notes)
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fh:
            json.dump({"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
                       "level": level, "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 3), "violations": violations}, fh, indent=1)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={prop} "):
                out.append(l[len(f"known: property={prop} "):])
    return out


def parse_events(text):
    """Harness stdout: one JSON object per line; anything not starting with '{' is the code's own chatter."""
    return [l for l in text.splitlines() if l.startswith("{")]


def main(run, prop, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    rc = 0
    try:
        run(ctx)
        for k in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {k}")
        if os.path.exists(os.path.join(EVID, f"replay_{prop}.txt")):
            os.remove(os.path.join(EVID, f"replay_{prop}.txt"))
        ctx.evidence(level, 0)
        print(f"OK property={prop} tier={tier} states={ctx.states} traces={ctx.traces} events={ctx.events} "
              f"wall={time.time()-ctx.t0:.1f}s")
    except Violation as v:
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, f"replay_{prop}.txt")
        with open(rp, "w") as fh:
            fh.write(v.what + "\n" + "\n".join(v.replay_lines) + "\n")
        ctx.evidence(level, 1)
        print(v.what[:1500])
        print(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    except CheckError as e:
        print("CHECK-ERROR: " + str(e))
        rc = 2
    except Exception:
        print("CHECK-ERROR: " + traceback.format_exc())
        rc = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)
