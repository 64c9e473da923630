"""Access to files: FileAccess.tla."""
import shutil, tempfile, zlib
from vf.dd import events
from vf.common import *


def run(ctx):
    d = tempfile.mkdtemp(prefix="files-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        m = ctx.bg_model("MCFileAccess", consts=ctx.pick(dict(MaxLen=9, Cap0=2, MaxStops=2), dict(MaxLen=40, Cap0=4, MaxStops=3)),
                         invariants=["InvComplete", "InvShown", "InvEither"], properties=["Refines", "Terminates"])
        s = ctx.bg_model("MCFileScripts", consts=dict(MaxSteps=ctx.pick(3, 4)), invariants=["Case"])
        a = Access(ctx, d)
        ctx.harness = a.harness
        plain(ctx, a)
        scripted(ctx, a, s.result().cases)
        tool(ctx, a)
        m.result()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ctx.finish(assumptions=["what a call returned is what the preloaded library logged", "files do not change while they are accessed"])


class Access:
    def __init__(self, ctx, d):
        self.ctx, self.dir, self.n = ctx, d, 0
        self.harness, self.shim = build_harness(), build_shim()
        self.pool = ThreadPoolExecutor(CORES + 2)

    def path(self):
        with self.ctx.lock:
            self.n += 1
            return os.path.join(self.dir, "f%d" % self.n)

    def file(self, data):
        p = self.path()
        with open(p, "wb") as f: f.write(data)
        return p

    def ask(self, req, limit=100, **env):
        e = dict(os.environ, **env)
        try:
            p = subprocess.run([self.harness], input=json.dumps(dict(req, id=0)).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=limit)
        except subprocess.TimeoutExpired:
            return {"hang": limit}
        return json.loads(p.stdout) if p.stdout else {"crash": p.returncode}


def contents(R, n):
    return bytes(R.getrandbits(8) for _ in range(n)) if n < 5000 else (bytes(R.getrandbits(8) for _ in range(997)) * (n // 997 + 1))[:n]


def scripted(ctx, a, scripts):
    R = ctx.rng
    jobs = [(R.choice([0, 1, 2, 3, 5, 30, 31, 32, 33, 63, 64, 65]), c["method"], c["o"].split(","), c["s"].split(","), c["m"].split(","), c["r"]) for c in scripts]
    for _ in range(ctx.pick(250, 2500)):
        # the length of an open file is known: what is behind it is found by small reads
        r = [R.choice(["1", "2", "7", "31", "i", "100", "-"]) for _ in range(R.randrange(12))] + R.choice([[], ["*1"], ["*5"], ["e5"], ["i", "e5"], ["*33"]])
        jobs.append((R.choice([0, 1, 10, 31, 32, 33, 64, 100, 200, 257]), "read", ["-"], R.choice([["-"], ["e5"]]), ["-"], r))

    def job(j):
        n, method, o, s, m, r = j
        data = contents(R, n)
        path, log = a.file(data), a.path()
        ans = a.ask({"k": "file", "path": path, "method": method, "hex": True}, LD_PRELOAD=a.shim, SHIM_PATH=path, SHIM_LOG=log,
                    SHIM_OPEN=",".join(o), SHIM_STAT=",".join(s), SHIM_MMAP=",".join(m), SHIM_READ=",".join(r))
        ev = events(log)
        os.unlink(path)
        if "r" not in ans:
            return ctx.violation("opening a file does not return", answer=ans, file=data.hex(), method=method, open=o, stat=s, mmap=m, read=r)
        x = ans["r"]
        return {"file": list(data), "method": method, "ev": ev, "ok": x["ok"], "len": x.get("len", 0), "data": list(bytes.fromhex(x.get("hex", ""))), "open": o, "stat": s, "mmap": m, "read": r}
    traces = [t for t in a.pool.map(job, jobs) if t]
    for t in traces[100:103]: ctx.sample({k: bytes(v).hex() if k in ("file", "data") else v for k, v in t.items()})
    ctx.log("%d accesses, %d with errors" % (len(traces), sum(1 for t in traces if not t["ok"])))
    ctx.validate("TraceFile", traces, "accesses with cut, interrupted and failing calls", chunk=500)


def plain(ctx, a):
    """Files of many sizes; files that do not exist; special files."""
    R = ctx.rng
    sizes = [0, 1, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 3000000, 20000001]
    sizes += [R.randrange(100000) for _ in range(ctx.pick(10, 100))]
    jobs = [(n, m, i) for i, n in enumerate(sizes) for m in ("mmap", "read")]
    datas = [contents(R, n) for n in sizes]
    paths = [a.file(x) for x in datas]

    def job(j):
        n, m, i = j
        x = a.ask({"k": "file", "path": paths[i], "method": m}).get("r", {})
        exp = {"ok": True, "len": n, "slice": n, "crc": zlib.crc32(datas[i])}
        if x != exp: ctx.violation("a file of %d bytes" % n, method=m, answer=x, expected=exp)
    list(a.pool.map(job, jobs))
    for p in paths: os.unlink(p)
    # sparse files, larger than 2 and 4 GiB when they are mapped
    for n, m in [(2 ** 31 + 5, "mmap"), (2 ** 32 + 4097, "mmap"), (ctx.pick(3 * 2 ** 27 + 1, 2 ** 32 + 4097), "read")]:
        p = a.path()
        at = [0, 1, 4096, n // 2, n - 2, n - 1] + [2 ** 31, 2 ** 32] * (n > 2 ** 32)
        with open(p, "wb") as f:
            for k, x in enumerate(at):
                f.seek(x)
                f.write(bytes([k + 1]))
            f.truncate(n)
        exp = [list(at).index(x) + 1 for x in at]
        x = a.ask({"k": "file", "path": p, "method": m, "at": at}, limit=300).get("r", {})
        os.unlink(p)
        if x != {"ok": True, "len": n, "slice": n, "at": exp}: ctx.violation("a file of %d bytes" % n, method=m, answer=x)
    # errors, and a file that shows no length
    for m in ("mmap", "read"):
        for p in (os.path.join(a.dir, "none"), a.dir, os.path.join(a.dir, "x" * 300), ""):
            x = a.ask({"k": "file", "path": p, "method": m}).get("r", {})
            if x.get("ok") is not False: ctx.violation("no error for %r" % p, method=m, answer=x)
        v = open("/proc/version", "rb").read()
        x = a.ask({"k": "file", "path": "/proc/version", "method": m, "hex": True}).get("r", {})
        if x.get("ok") and x.get("hex") != v.hex(): ctx.violation("a file without length", method=m, answer=x, expected=v.hex())
    ctx.counts["files of many sizes"] = len(jobs) + 13
    ctx.validated += len(jobs) + 13


def tool(ctx, a):
    """The tool shows errors, and gives the same report if reads are cut."""
    R = ctx.rng
    exe = build_cli()[0]
    b = b"".join(gen.message(R, htyp=0x20, payload=b"x" * R.randrange(50)) for _ in range(50))
    path = a.file(b)
    log = a.path()

    def job(j):
        method, fails, env = j
        e = dict(os.environ, LD_PRELOAD=a.shim, SHIM_PATH=path, RUST_BACKTRACE="0", **env)
        try:
            p = subprocess.run([exe, method, "count", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=60)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = "hang", b""
        if (rc == 0 or b" messages" in out) if fails else (rc != 0 or b"50 messages" not in out.split(b"\n")):
            ctx.violation("ripdlt: %s" % ("an error is not reported" if fails else "the report is not complete"), method=method, env=env, exit=rc, answer=out.decode("utf-8", "replace"))
    jobs = [("mmap", True, {"SHIM_OPEN": "e13"}), ("read", True, {"SHIM_OPEN": "e13"}), ("mmap", True, {"SHIM_OPEN": "e24"}), ("mmap", True, {"SHIM_MMAP": "*e12", "SHIM_READ": "*e5"}),
            ("read", True, {"SHIM_READ": "*e5", "SHIM_MMAP": "*e12"}), ("read", True, {"SHIM_READ": "100,*e5", "SHIM_MMAP": "*e12"}), ("read", True, {"SHIM_READ": "100,i,*e5", "SHIM_MMAP": "*e12"}),
            ("read", False, {"SHIM_READ": "*1"}), ("read", False, {"SHIM_READ": "i,3,i,i,*99"}), ("mmap", False, {"SHIM_READ": "*7"}), ("read", False, {"SHIM_OPEN": "i"}), ("mmap", False, {"SHIM_OPEN": "i"})]
    list(a.pool.map(job, jobs))
    ctx.counts["reports of the tool"] = len(jobs)
    ctx.validated += len(jobs)
