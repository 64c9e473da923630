"""What dd_dlt writes: DdDlt.tla."""
from vf.dd import *

HEADER = 34


def run(ctx):
    rn = DdRunner(ctx)
    try:
        m = ctx.bg_model("MCDdDlt", subst={"HeaderLen": "SmallHeader"}, consts=dict(MaxIn=6, MaxSizes=3, InCap=4, OutCap=6, MaxStops=1, HLen=3),
                         invariants=["InvPrefix", "InvComplete", "InvShown", "InvBytes"], properties=["Refines", "Terminates"])
        small(ctx, rn)
        sizes(ctx, rn)
        total = 43100000
        many(ctx, rn, total, {n for b in MARKS for n in range(max(0, b - 3), b + 4)} | set(range(600)) | {ctx.rng.randrange(total) for _ in range(1200)}
             | {ctx.rng.randrange(70000) for _ in range(500)} | {ctx.rng.randrange(42949672, total) for _ in range(100)} | {total - 1}, 400)
        if ctx.tier == "thorough":       # more messages than 32 bits count
            total = 2 ** 32 + 10000
            many(ctx, rn, total, {n for b in MARKS + [2 ** 31, 2 ** 32, 2 ** 32 + 256] for n in range(max(0, b - 3), b + 4)} | {ctx.rng.randrange(total) for _ in range(3000)}
                 | {2 ** 32 + ctx.rng.randrange(10000) for _ in range(300)} | {total - 1}, 9000)
        m.result()
    finally:
        rn.close()
    return ctx.finish(assumptions=["ids are 4 bytes of UTF-8, as the command line passes them"])


IDS = ["ECU1", "APID", "a\u00e9z", "\x01\x02\x7f\n", "DLT\x01", "\u20acx"]


def small(ctx, rn):
    """All bytes of the outputs for small inputs are those of the specification (TraceDdDlt)."""
    R = ctx.rng
    jobs = [(bytes(R.getrandbits(8) for _ in range(n)), s) for s in range(1, 9) for n in range(0, 3 * s + 1)]
    jobs += [(bytes(R.choice([0, 10, 68, 76, 84, 1, 255]) for _ in range(R.randrange(300))), R.randrange(1, 60)) for _ in range(ctx.pick(150, 1500))]

    def job(j):
        # reads and writes as they come, which are recorded
        t = rn.scripted(j[0], j[1], [], [], R.choice(IDS), R.choice(IDS))
        if t and t["code"] != 0: ctx.violation("dd_dlt ends with %s" % t["code"], input=j[0].hex(), size=j[1])
        return t
    traces = [t for t in rn.pool.map(job, jobs) if t]
    for t in traces[60:62]: ctx.sample({k: bytes(t[k]).hex() if k in ("in", "out") else t[k] for k in ("in", "size", "out")})
    ctx.validate("TraceDdDlt", traces, "small inputs", chunk=150)


def sizes(ctx, rn):
    """Payload sizes around all limits, and what is not carried."""
    R = ctx.rng
    ok = [1, 2, 99, 100, 221, 222, 237, 238, 254, 255, 256, 257, 990, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 32749, 32750, 32767, 32768, 65279, 65280, 65499, 65500, 65515, 65516, 65517]
    ok += [R.randrange(1, 65518) for _ in range(ctx.pick(10, 200))]
    no = [0, 65518, 65519, 65520, 65534, 65535, 65536, 65537, 131072, 4294967297, -1]
    asked = [(n, s, "ECU1", "APID") for s in ok for n in range(4)] + [(0, s, "ECU1", "APID") for s in no if s < 2 ** 31]
    hs = headers(ctx, asked)
    if any(h is None for h in hs[:4 * len(ok)]) or any(hs[4 * len(ok):]): raise ToolError("carried sizes")

    def job(k):
        s = ok[k]
        data = bytes((i * 31 + i // 251) & 255 for i in range(R.choice([3 * s, 4 * s - 1, 3 * s + 1 if s > 1 else 3])))
        rc, out, err = rn.run(data, s)
        if rc != 0 or out != compose(data, s, hs[4 * k:4 * k + 4]):
            ctx.violation("output for payload size %d differs" % s, exit=rc, length=len(out), start=out[:100].hex(), expected=compose(data, s, hs[4 * k:4 * k + 4])[:100].hex())
    list(rn.pool.map(job, range(len(ok))))

    def rejected(s):
        for data in (b"", b"x" * 140000):
            rc, out, err = rn.run(data, s, limit=20)
            if rc in (0, "hang") or out: ctx.violation("payload size %s is not rejected" % s, exit=rc, length=len(out))
    list(rn.pool.map(rejected, no))
    with ctx.lock: ctx.validated += len(ok) + 2 * len(no)
    ctx.counts["payload sizes"] = len(ok) + len(no)


MARKS = [0, 256, 65536, 131072, 100, 10000, 25600, 2 ** 24, 42949672, 2 * 42949672 // 3]


def many(ctx, rn, total, ns, limit):
    """Long sequences of messages: counter and times, up to the wrap of the timestamp and beyond."""
    ns = sorted(ns)
    hs = headers(ctx, [(n, 1, "ECU1", "APID") for n in ns])
    size, block = HEADER + 1, 7 * 2 ** 20
    cell = bytes((j * 7) & 255 for j in range(256)) * 4096
    at, k, bad = 0, 0, 0
    i, o = os.pipe()
    p = subprocess.Popen([rn.exe, "ECU1", "APID", "1"], stdin=i, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    os.close(i)

    def feed():
        try:
            with os.fdopen(o, "wb", buffering=0) as f:
                for j in range(0, total, len(cell)):
                    rest = memoryview(cell)[:min(len(cell), total - j)]
                    while rest: rest = rest[f.write(rest):]
        except BrokenPipeError:
            pass                           # it stopped early, which the length shows
    feeder = threading.Thread(target=feed)
    feeder.start()
    timer = threading.Timer(limit, p.kill)
    timer.start()
    while at <= size * total:
        b = p.stdout.read(block * 5)            # whole messages, but for the last block
        if not b: break
        while k < len(ns) and (ns[k] + 1) * size <= at + len(b):
            got, exp = b[ns[k] * size - at:(ns[k] + 1) * size - at], hs[k] + bytes([(ns[k] * 7) & 255])
            if got != exp and bad < 5:
                bad += 1
                ctx.violation("message %d differs" % ns[k], message=got.hex(), expected=exp.hex())
            k += 1
        at += len(b)
    if at > size * total: p.kill()
    p.stdout.close()
    rc = p.wait()
    timer.cancel()
    feeder.join()
    if rc != 0 or at != size * total: ctx.violation("%d messages: exit %s, %d bytes" % (total, rc, at))
    ctx.validated += len(ns)
    ctx.counts["messages of a sequence of %d" % total] = len(ns)
