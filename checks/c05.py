"""Processing in parallel: ParScan.tla."""
from vf.rip import *
from checks.c17 import session, wide

ECUS = [b"ECU1", b"ECU2", b"ABCD"]
NUM = {"par_count": "count", "par_count_hello_world": "hello", "par_count_hello_world_raw": "raw", "par_count_hello_world_grepit": "grep"}
LONG = re.compile(r"^(\d+) lifecycles >= 1800s$")
SPAN = re.compile(r"^(\d+)-(\d+) secs: (\d+)$")
ECU = re.compile(r"^(.*) #lifecycles: \(\{(.*)\}, (\d+)\)$", re.S)


def pair(n): return [n >> 16, n & 65535]


def parse(rep, out):
    """The report as a trace of TracePar without its file; None if the output is not understood."""
    ls, m = lines(out), 0
    s = [re.search(r"slices = (\d+)", l) for l in ls]
    if any(s):
        m = int([x for x in s if x][0].group(1))
        ls = [l for l, x in zip(ls, s) if not x]
    v, w = 0, []
    if rep in NUM:
        n = [re.match(r"^(\d+) (hello world )?(messages|raw hello world matches)$", l) for l in ls]
        if len(ls) != 1 or not n[0]: return None
        v, h = int(n[0].group(1)), NUM[rep]
    elif rep == "par_iter":
        h = "long"
        for l in ls:
            x = LONG.match(l)
            if not x: return None
            w.append(int(x.group(1)))
    elif rep == "par_histogram_timestamp":
        h = "spans"
        for l in ls:
            x = SPAN.match(l)
            if not x or int(x.group(2)) != int(x.group(1)) + 1: return None
            w.append([pair(int(x.group(1))), int(x.group(3))])
    else:
        h = "ecus"
        for l in ls:
            x = ECU.match(l)
            if not x: return None
            # more than one id may be shown in this way
            if len(x.group(1)) != 4 or not x.group(1).isascii(): return "unknown ids"
            w.append([list(x.group(1).encode()), [[pair(int(a)), int(c)] for a, c in (y.split(": ") for y in x.group(2).split(", ") if y)], int(x.group(3))])
    return {"h": h, "m": m, "v": v, "w": w}


def par_file(r, n, nested=True):
    """Messages of text ECUs; nested: some contain others, or their beginning."""
    out, secs, t = b"", {}, {}
    for _ in range(n):
        e = r.choice(ECUS)
        secs[e] = r.choice([secs.get(e, 5) + r.randrange(4), r.randrange(20), 0xffffffff, 0, secs.get(e, 5)])
        t[e] = r.choice([t.get(e, 0) + r.choice([1, 18000000, 17999999, 30000000]), r.randrange(30000), 0]) & 0xffffffff
        out += gen.message(r, htyp=r.choice([0x30, 0x34, 0x31, 0x20, 0x21]), secs=secs[e] & 0xffffffff, ecu=e, tmsp=t[e], info=0x41,
                           payload=r.choice([b"", b"Hello World", b"xHello Worldx", b"H\nHello World", b"Hello Worl", b"H World Hello World", b"a" * r.randrange(60)]))
        k = r.random()
        if k < 0.1: out += r.choice([b"\0", b"junk", b"Hello World", b"DLT"] + nested * [gen.MARK + b"\0" * 16, gen.message(r, ecu=r.choice(ECUS))[:-1]])
        elif nested and k < 0.13: out += gen.message(r, ecu=r.choice(ECUS), secs=5, payload=gen.message(r, ecu=b"NEST")[:r.randrange(30, 50)])
    return out


def run(ctx):
    rn = Runner(ctx)
    rn.shim = build_shim()
    try:
        m = [ctx.bg_model("MCPar", label="MCPar %d %d %d" % x, subst=DLT, consts=dict(MaxRec=65551, MaxPieces=x[0], MaxParts=x[1], Workers=x[2]),
                          invariants=["InvSame", "InvSum", "Case"], properties=["Terminates"] if x[0] < 3 else [], heap="6g")
             for x in ctx.pick([(2, 3, 2), (3, 2, 2)], [(3, 3, 2), (3, 3, 3), (4, 2, 2)])]
        R = ctx.rng
        files = [par_file(R, R.randrange(1, 9)) for _ in range(ctx.pick(60, 600))] + [par_file(R, R.randrange(9, 20)) for _ in range(ctx.pick(15, 100))]
        small = [c["b"] for f in m for c in f.result().cases]
        files += R.sample(small, min(len(small), ctx.pick(60, 400))) + [b""]
        record(ctx, rn, [bytes(f) for f in files])
        totals(ctx, rn)
    finally:
        rn.close()
    return ctx.finish(assumptions=["the number of slices is the one that ripdlt prints", "matches of the raw search that do not lie in a message may cross slices",
                                   "pattern reports: no marker starts inside a message"])


def settings(R):
    """Processors, and threads of the pool."""
    k = R.choice([1, 2, 3, 4, 5, 7, 8, 12, 33, 64, 200])
    return {"FAKE_CORES": str(k), "RAYON_NUM_THREADS": str(R.choice([1, 2, 3, 8, 16]))}


def record(ctx, rn, files):
    """Runs of the parallel reports, to be explained by TracePar."""
    R, traces, jobs = ctx.rng, [], []
    for i, b in enumerate(files):
        path = rn.file(i, b)
        for rep in R.sample(PAR, 4) if not ctx.thorough else PAR:
            env = dict(settings(R), LD_PRELOAD=rn.shim)
            # with many slices and histograms, too many ways to cut have to be tried
            if len(b) > 600 and rep not in NUM: env["FAKE_CORES"] = R.choice("123")
            jobs.append((b, rep, env, R.choice(["mmap", "read"]), path))

    def job(j):
        b, rep, env, method, path = j
        rc, out, err = rn.run(method, rep, path, env=env)
        where = dict(file=b.hex(), report=rep, method=method, env={k: env[k] for k in ("FAKE_CORES", "RAYON_NUM_THREADS")})
        if rc != 0: return ctx.violation("%s ends with %s" % (rep, rc), stderr=err.decode("utf-8", "replace")[-500:], **where)
        t = parse(rep, out)
        if t is None: return ctx.violation("%s: output without the specified lines" % rep, answer=lines(out)[:20], **where)
        return dict(t, b=list(b), env=where["env"]) if t != "unknown ids" else None
    traces = [t for t in rn.pool.map(job, jobs) if t]
    for t in R.sample(traces, min(4, len(traces))): ctx.sample({k: (bytes(v).hex() if k == "b" else v) for k, v in t.items()})
    ctx.validate("TracePar", traces, "parallel reports", chunk=100, subst=DLT, consts=dict(MaxRec=65551))


def totals(ctx, rn):
    """Large files, many slices, repeated runs: what does not depend on the slices is the same as in the sequential reports."""
    R = ctx.rng
    files = [b"".join(par_file(R, 30, False) for _ in range(n)) for n in ctx.pick([40, 300, 1000], [40, 300, 1000, 3000])]
    files += [b"".join(repo_files()), gen.message(R, htyp=0x20, ecu=b"ECU1", payload=b"Hello World" + b"x" * 65000) * 20]
    ids = sorted({b"%c%c%c%c" % tuple(R.randrange(65, 91) for _ in range(4)) for _ in range(700)})
    files += [wide(R, n, R.sample(ids, k)) for n, k in ((1500, 290), (6000, 600))]
    for i, b in enumerate(files):
        path = rn.file(1000 + i, b)
        seq = {}
        for rep in ("count", "count_hello_world", "count_hello_world_grepit", "split_timestamp"):
            rc, out, err = rn.run("mmap", rep, path)
            if rc != 0: return ctx.violation("%s ends with %s" % (rep, rc), size=len(b), stderr=err.decode("utf-8", "replace")[-500:])
            seq["par_" + rep] = parse("par_" + rep, out)
        if "unknown ids" in seq.values(): del seq["par_split_timestamp"]
        jobs = []
        for rep in seq:
            for _ in range(ctx.pick(12, 60)): jobs.append((rep, settings(R)))

        def job(j):
            rep, env = j
            rc, out, err = rn.run("mmap", rep, path, env=dict(env, LD_PRELOAD=rn.shim))
            if rc != 0: return ctx.violation("%s ends with %s" % (rep, rc), env=env, size=len(b), stderr=err.decode("utf-8", "replace")[-500:])
            t = parse(rep, out)
            s = seq[rep]
            def key(x): return x if x is None or x == "unknown ids" else (x["v"], sorted((bytes(y[0]), y[2]) for y in x["w"]) if rep == "par_split_timestamp" else 0)
            if key(t) != key(s): ctx.violation("%s differs from the sequential report" % rep, env=env, size=len(b), answer=str(key(t)), sequential=str(key(s)), file=b.hex()[:4000])
            elif rep == "par_split_timestamp" and s and t["m"] == 1 and t["w"] != s["w"]: ctx.violation("%s with one slice differs from the sequential report" % rep, env=env, size=len(b))
        list(rn.pool.map(job, jobs))
        with ctx.lock:
            ctx.validated += len(jobs)
            ctx.counts["totals of large files"] = ctx.counts.get("totals of large files", 0) + len(jobs)
