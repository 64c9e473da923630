"""Runs dd_dlt, and compares what it does with DdDlt.tla."""
import shutil, tempfile
from vf.common import *


class DdRunner:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = build_cli()[1]
        self.shim = build_shim()
        self.dir = tempfile.mkdtemp(prefix="dd-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.pool = ThreadPoolExecutor(CORES + 2)
        self.n = 0

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, kind):
        with self.ctx.lock:
            self.n += 1
            return os.path.join(self.dir, "%s%d" % (kind, self.n))

    def run(self, data, size, ecu="ECU1", app="APID", limit=60, **env):
        """Exit code ("hang" if it does not end), output, error output."""
        e = dict(os.environ, RUST_BACKTRACE="0")
        e.update(env)
        src = self.path("in")
        with open(src, "wb") as f: f.write(data)
        try:
            with open(src, "rb") as f:
                p = subprocess.run([self.exe, ecu, app, str(size)], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=limit)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            return "hang", x.stdout or b"", b""
        finally:
            os.unlink(src)

    def scripted(self, data, size, reads, writes, ecu="ECU1", app="APID"):
        """A run in which the given steps decide the results of reads and writes, as a trace of TraceDdDlt."""
        log = self.path("log")
        rc, out, err = self.run(data, size, ecu, app, LD_PRELOAD=self.shim, SHIM_IN="0", SHIM_OUT="1", SHIM_LOG=log, SHIM_READ=",".join(reads), SHIM_WRITE=",".join(writes))
        ev = events(log)
        if rc == "hang" or (isinstance(rc, int) and rc < 0):
            self.ctx.violation("dd_dlt ends with %s" % rc, input=data.hex(), size=size, reads=reads, writes=writes)
            return None
        return {"in": list(data), "size": size, "ecu": list(ecu.encode()), "app": list(app.encode()), "out": list(out), "code": rc, "ev": ev,
                "reads": reads, "writes": writes}


def events(log):
    try:
        with open(log) as f: ev = [[int(x) if x.lstrip("-").isdigit() else x for x in l.split()] for l in f]
    except FileNotFoundError:
        return []
    os.unlink(log)
    return ev


def headers(ctx, asked):
    """What the specification says about messages (n, size, ecu, app): their headers, None if the size is not carried."""
    out = [None] * len(asked)

    def part(base):
        os.makedirs(os.path.join(BUILD, "traces"), exist_ok=True)
        path = os.path.join(BUILD, "traces", "%s-dd-%d-%d.json" % (ctx.prop, os.getpid(), base))
        qs = [dict(s=n // 100, r=n % 100, size=s, ecu=list(e.encode()), app=list(a.encode())) for n, s, e, a in asked[base:base + 2000]]
        with open(path, "w") as f: json.dump(qs, f)
        r = ctx.model("DdHeaders", label="DdHeaders (%d)" % len(qs), invariants=["InvHeader", "InvSmall", "Case"], workers=2, env={"TRACES": path})
        for c in r.cases: out[base + c["t"] - 1] = bytes(c["h"]) if c["ok"] else None
        os.unlink(path)
        return len(r.cases) == len(qs)
    if not all(ThreadPoolExecutor(4).map(part, range(0, len(asked), 2000))): raise ToolError("headers are missing")
    return out


def compose(data, size, hs):
    """The output for the input, with the headers of all messages."""
    return b"".join(hs[n] + data[n * size:(n + 1) * size] for n in range(len(data) // size))
