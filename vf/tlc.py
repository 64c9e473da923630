"""Runs TLC on modules of /verif/spec."""
import json, os, re, subprocess, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def value(v):
    """A Python value as a TLA+ value of a configuration file."""
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return "{%s}" % ", ".join(value(x) for x in sorted(v))
    raise ToolError("constant %r" % (v,))


class Result:
    def __init__(self):
        self.cases, self.accepted, self.states, self.distinct, self.output = [], set(), 0, 0, ""


def run(module, consts=None, subst=None, invariants=(), properties=(), constraints=(), workers=4, heap="4g",
        timeout=800, keep_cases=True, env=None, prints=None, spec="Spec", view=None):
    """Model checks `module`; a failed check of the specification itself is a ToolError.
    Returns the cases that invariants print ("@@{json}") and the traces they accept ("@@accept n")."""
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=module + ".", dir=os.path.join(BUILD, "tlc"))
    lines = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if consts or subst:
        lines.append("CONSTANTS")
        lines += ["  %s = %s" % (k, value(v)) for k, v in (consts or {}).items()]
        lines += ["  %s <- %s" % (k, v) for k, v in (subst or {}).items()]
    if invariants: lines.append("INVARIANTS " + " ".join(invariants))
    if properties: lines.append("PROPERTIES " + " ".join(properties))
    if constraints: lines.append("CONSTRAINTS " + " ".join(constraints))
    if view: lines.append("VIEW " + view)
    cfg = os.path.join(d, "m.cfg")
    with open(cfg, "w") as f: f.write("\n".join(lines) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", cfg, os.path.join(SPEC, module + ".tla")]
    r = Result()
    e = dict(os.environ)
    e.update(env or {})
    rest = []
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, env=e)
    import threading
    t = threading.Timer(timeout, p.kill)
    t.start()
    try:
        for line in p.stdout:
            if line.startswith('"@@'):
                s = json.loads(line)[2:]
                if s.startswith("accept "):
                    r.accepted.add(int(s[7:]))
                else:
                    c = json.loads(s)
                    if prints: prints(c)
                    elif keep_cases: r.cases.append(c)
            else:
                rest.append(line)
        p.wait()
    finally:
        t.cancel()
        if p.poll() is None: p.kill()
    r.output = "".join(rest)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.output)
    if p.returncode != 0 or "No error has been found" not in r.output or not m:
        raise ToolError("TLC failed on %s (exit %s)\n%s\n%s" % (module, p.returncode, "\n".join(lines), r.output[-6000:]))
    r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    inits = re.findall(r"Finished computing initial states: (\d+)", r.output)
    r.steps = r.states - (int(inits[-1]) if inits else 0)
    shutil.rmtree(d, ignore_errors=True)
    return r
