"""How dd_dlt reads and writes: DdDlt.tla."""
from vf.dd import *


def run(ctx):
    rn = DdRunner(ctx)
    try:
        T = ctx.thorough
        ms = [ctx.bg_model("MCDdDlt", subst={"HeaderLen": "SmallHeader"}, consts=c, heap="6g",
                           invariants=["InvPrefix", "InvComplete", "InvShown", "InvBytes"], properties=["Refines", "Terminates"])
              for c in ([dict(MaxIn=6, MaxSizes=3, InCap=4, OutCap=6, MaxStops=2, HLen=3)] if not T else
                        [dict(MaxIn=9, MaxSizes=4, InCap=5, OutCap=7, MaxStops=2, HLen=3), dict(MaxIn=7, MaxSizes=3, InCap=3, OutCap=9, MaxStops=3, HLen=5)])]
        scripts = ctx.model("MCDdScripts", consts=dict(MaxSteps=2), invariants=["Case"]).cases
        if T: scripts += ctx.model("MCDdScripts", consts=dict(MaxSteps=3), invariants=["Case"]).cases[::7]
        R = ctx.rng
        jobs = [(bytes(R.getrandbits(8) for _ in range(n)), s, c["rs"], c["ws"]) for c in scripts for n, s in [R.choice([(7, 3), (3, 1), (4, 2), (6, 6), (2, 3), (0, 1), (5, 5)])]]
        # the steps are met: first messages are written only when the buffer is full, a line ends, or at the end
        jobs += [random_job(R) for _ in range(ctx.pick(500, 5000))]
        ctx.rng.shuffle(jobs)

        def job(j): return rn.scripted(*j)
        traces = [t for t in rn.pool.map(job, jobs) if t]
        met = sum(1 for t in traces if any(e[2] < 0 and e[3] != 4 for e in t["ev"]))
        ctx.log("%d of %d runs with failures, %d with interruptions" % (met, len(traces), sum(1 for t in traces if any(e[2] < 0 and e[3] == 4 for e in t["ev"]))))
        for t in traces[:4]: ctx.sample({k: bytes(t[k]).hex() if k in ("in", "out") else t[k] for k in ("in", "size", "reads", "writes", "ev", "code", "out")})
        ctx.validate("TraceDdDlt", traces, "runs with cut, interrupted and failing reads and writes", chunk=700)
        large(ctx, rn)
        for m in ms: m.result()
    finally:
        rn.close()
    return ctx.finish(assumptions=["what a call returned is what the preloaded library logged", "errors other than EBADF, which the standard library hides"])


ERR = ["e5", "e28", "e32", "e11", "e22", "e104"]


def random_job(R):
    n = R.randrange(0, 120)
    data = bytes(R.choice([10, 0, 255, 65, R.getrandbits(8)]) for _ in range(n))
    def script(steps, k):
        s = [R.choice(steps) for _ in range(R.randrange(k))]
        if R.random() < 0.5: s.append("*%d" % R.choice([1, 3, 7, 50, 100]))
        elif R.random() < 0.5: s.append(R.choice(ERR))
        return s
    return (data, R.choice([1, 2, 3, 8, 20, 50]), script(["1", "3", "i", "50", "-"], 12), script(["1", "9", "34", "i", "100", "-", "i"], 12))


def large(ctx, rn):
    """Larger inputs: with a failure the output is a prefix, without one it is complete."""
    R = ctx.rng
    hs = headers(ctx, [(n, s, "ECU1", "APID") for s in (1000, 5000, 65517) for n in range({1000: 300, 5000: 60, 65517: 4}[s])])
    start = {1000: 0, 5000: 300, 65517: 360}

    def job(k):
        s = R.choice([1000, 5000, 65517])
        data = bytes((i * 31 + i // 251) & 255 for i in range(R.choice([300000, 299999, 250000, 262140, 65517 * 2])))
        whole = compose(data, s, hs[start[s]:])
        reads = [R.choice(["1", "999", "i", "4096", "-", "100000"]) for _ in range(R.randrange(10))] + R.choice([[], ["*777"], ["*8000"], ["e5"], ["-", "-", "-", "e5"]])
        writes = [R.choice(["1", "33", "i", "1000", "-", "70000"]) for _ in range(R.randrange(10))] + R.choice([[], ["*999"], ["*5000"], ["e28"], ["-", "-", "-", "-", "e32"]])
        log = rn.path("log")
        rc, out, err = rn.run(data, s, LD_PRELOAD=rn.shim, SHIM_IN="0", SHIM_OUT="1", SHIM_LOG=log, SHIM_READ=",".join(reads), SHIM_WRITE=",".join(writes))
        ev = events(log)
        failed = any(e[2] < 0 and e[3] != 4 for e in ev)
        where = dict(size=s, input=len(data), reads=reads, writes=writes, exit=rc, written=len(out))
        if not isinstance(rc, int) or rc < 0 or (rc != 0) != failed: ctx.violation("a large input: exit code %s, and %s" % (rc, "a call failed" if failed else "no call failed"), **where)
        elif out != whole[:len(out)] or (rc == 0 and out != whole): ctx.violation("a large input: the output is not the messages of the input", **where)
        else:
            rd = wr = 0
            for e in ev:
                if e[0] == "read": rd += max(0, e[2])
                else: wr += max(0, e[2])
                if wr > rd // s * (34 + s):
                    ctx.violation("a large input: more is written than was read", **where)
                    break
    k = ctx.pick(150, 1500)
    list(rn.pool.map(job, range(k)))
    # real files and pipes
    with open("/dev/full", "wb") as full:
        for data, s in ((b"abc", 3), (b"x" * 100000, 10), (b"ab\ncd\n", 3)):
            p = subprocess.run([rn.exe, "ECU1", "APID", str(s)], input=data, stdout=full, stderr=subprocess.DEVNULL, timeout=60)
            if p.returncode == 0: ctx.violation("a full device is not reported", size=s, input=data[:20].hex())
    fd = os.open(rn.dir, os.O_RDONLY)
    p = subprocess.run([rn.exe, "ECU1", "APID", "3"], stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    os.close(fd)
    if p.returncode == 0 or p.stdout: ctx.violation("a directory as input is not reported")
    ctx.validated += k + 4
    ctx.counts["large inputs"] = k + 4
