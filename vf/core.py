"""What the checks of all properties have in common: building the code under test, replaying cases in it,
checking models, validating traces, evidence and verdicts."""
import json, os, random, subprocess, sys, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import tlc
from .tlc import VERIF, BUILD, ToolError

REPO = "/repo"
CORES = os.cpu_count() or 4
# an overflow is a panic, as in a debug build
FLAGS = "-Awarnings -Coverflow-checks=on"


def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd, timeout=timeout)
    if p.returncode != 0:
        raise ToolError("%s failed (%d)\n%s" % (" ".join(cmd), p.returncode, p.stdout[-4000:]))
    return p.stdout


def build_harness():
    sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml"),
        "--target-dir", os.path.join(BUILD, "harness")], env={"RUSTFLAGS": FLAGS})
    return os.path.join(BUILD, "harness/release/harness")


def build_cli():
    """The command line tools, built from a link farm so that /repo gets no Cargo.lock."""
    sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
        "-p", "ripdlt", "-p", "dd_dlt", "--target-dir", os.path.join(BUILD, "cli")], env={"RUSTFLAGS": FLAGS})
    return os.path.join(BUILD, "cli/release/ripdlt"), os.path.join(BUILD, "cli/release/dd_dlt")


def build_shim():
    """The library that decides what system calls return (LD_PRELOAD)."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "shim.so")
    tmp = "%s.%d" % (out, os.getpid())
    sh(["gcc", "-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", tmp, os.path.join(VERIF, "shim/shim.c"), "-ldl"])
    os.replace(tmp, out)
    return out


def hexs(b):
    return bytes(b).hex()


class Failure(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.models, self.samples, self.notes, self.bad = [], [], [], []
        self.counts = {}
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(16)
        self.harness = None

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- models ---------------------------------------------------------------------------------------------------
    def model(self, module, **kw):
        label = kw.pop("label", module)
        t = time.time()
        r = tlc.run(module, **kw)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.steps
            self.models.append({"model": label, "constants": {k: tlc.value(v) for k, v in (kw.get("consts") or {}).items()},
                                "invariants": list(kw.get("invariants", ())), "properties": list(kw.get("properties", ())),
                                "distinct_states": r.distinct, "steps": r.steps, "cases": len(r.cases)})
        self.log("model %s: %d distinct states, %d cases, %.1f s" % (label, r.distinct, len(r.cases), time.time() - t))
        return r

    def bg(self, f, *a, **kw):
        return self.pool.submit(f, *a, **kw)

    def bg_model(self, module, **kw):
        return self.bg(self.model, module, **kw)

    # -- replaying cases in the real code -------------------------------------------------------------------------
    def run_harness(self, reqs, limit=60, procs=None, env=None, wrap=None):
        """Answers of the real code to the requests (dicts without id), in order; a request that crashes or hangs the
        process is answered by {"crash": ..} or {"hang": ..}."""
        if self.harness is None: raise ToolError("harness is not built")
        n = min(procs or CORES, max(1, len(reqs) // 8 + 1))
        out = [None] * len(reqs)
        chunks = [list(range(i, len(reqs), n)) for i in range(n)]

        def work(ids):
            while ids:
                e = dict(os.environ, CASE_LIMIT_S=str(limit))
                e.update(env or {})
                p = subprocess.Popen((wrap or []) + [self.harness], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
                def feed(p=p, ids=list(ids)):
                    try:
                        for i in ids: p.stdin.write(json.dumps(dict(reqs[i], id=i)).encode() + b"\n")
                        p.stdin.close()
                    except (BrokenPipeError, OSError, ValueError):
                        pass
                th = threading.Thread(target=feed)
                th.start()
                done = 0
                for line in p.stdout:
                    a = json.loads(line)
                    i = a.pop("id")
                    assert i == ids[done], (i, ids[done])
                    out[i] = a
                    done += 1
                rc = p.wait()
                th.join()
                if done < len(ids):
                    if out[ids[done - 1]] is None or "hang" not in (out[ids[done - 1]] if done else {}):
                        out[ids[done]] = {"crash": rc}
                        done += 1
                ids = ids[done:]
                if sum(1 for a in out if a and ("hang" in a or "crash" in a)) > 3:
                    for i in ids: out[i] = {"skipped": True}
                    return
        list(ThreadPoolExecutor(n).map(work, chunks))
        return out

    def violation(self, what, **data):
        with self.lock:
            self.bad.append(dict(data, what=what))
            if len(self.bad) <= 5: self.log("VIOLATES:", what, json.dumps(data, default=repr)[:1500])

    def replay(self, cases, expect, what, **kw):
        """cases: list of (request, expected answer). A different answer, panic, crash or hang is a violation."""
        reqs = [c[0] for c in cases]
        got = self.run_harness(reqs, **kw)
        for (req, exp), a in zip(cases, got):
            if "skipped" in a: continue
            if "r" not in a:
                self.violation("%s: the code under test does not return" % what, request=req, answer=a)
                continue
            d = expect(req, exp, a["r"])
            if d: self.violation("%s: %s" % (what, d), request=req, expected=exp, answer=a["r"])
        with self.lock:
            self.validated += len(cases)
            self.counts[what] = self.counts.get(what, 0) + len(cases)
        return got

    # -- validating recorded traces -------------------------------------------------------------------------------
    def validate(self, module, traces, what, chunk=400, workers=2, **kw):
        """Every trace has to be a behaviour of the trace specification `module`."""
        if not traces: return
        os.makedirs(os.path.join(BUILD, "traces"), exist_ok=True)

        def one(part):
            base, ts = part
            key = "%s-%s-%d-%d" % (self.prop, module, os.getpid(), base)
            path = os.path.join(BUILD, "traces", key + ".json")
            with open(path, "w") as f: json.dump(ts, f)
            r = self.model(module, label="%s (%d traces)" % (module, len(ts)), workers=workers,
                           env={"TRACES": path}, invariants=kw.get("invariants", ["Accepted"]),
                           consts=kw.get("consts"), subst=kw.get("subst"))
            rejected = [i for i in range(len(ts)) if i + 1 not in r.accepted]
            for i in rejected:
                self.violation("%s: recorded trace is not a behaviour of %s" % (what, module), trace=ts[i], module=module)
            os.unlink(path)
            n = len(ts) - len(r.cases)         # r.cases: traces that are outside of the property
            with self.lock:
                self.validated += n
                self.counts[what] = self.counts.get(what, 0) + n
        parts = [(i, traces[i:i + chunk]) for i in range(0, len(traces), chunk)]
        list(ThreadPoolExecutor(4).map(one, parts))

    def sample(self, x, n=3):
        with self.lock:
            if len(self.samples) < 12: self.samples.append(x)

    # -- verdict --------------------------------------------------------------------------------------------------
    def finish(self, level="model_checking", assumptions=(), exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples[:12] or [m["model"] for m in self.models][:3], "models": self.models, "replayed": self.counts}
        if exhaustive is not None: cov["exhaustive"] = exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=repr)
        if self.bad:
            os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
            path = os.path.join(BUILD, "replays", "%s.json" % self.prop)
            with open(path, "w") as f: json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": self.bad[:50]}, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        self.log("property %s held: %d states, %d replays and traces" % (self.prop, self.states, self.validated))
        return 0
