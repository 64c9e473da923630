"""The reports of ripdlt: Ripdlt.tla."""
from vf.rip import *


def session(r, n):
    """Messages of a few ECUs whose times mostly grow."""
    out, secs, t = b"", {}, {}
    for _ in range(n):
        e = r.choice([b"ECU1", b"ECU2", b"E\0\0\0", b"\xff\xfeA1"])
        secs[e] = r.choice([secs.get(e, 5) + r.randrange(4), r.randrange(20), 0xffffffff, 0, secs.get(e, 5)])
        t[e] = r.choice([t.get(e, 0) + r.choice([1, 9999, 10000, 18000000, 17999999]), r.randrange(30000), 0, 0xffffffff]) & 0xffffffff
        out += gen.message(r, htyp=r.choice([0x30, 0x34, 0x31, 0x35, 0x3d, 0x20, 0x21]), secs=secs[e] & 0xffffffff, ecu=e, tmsp=t[e],
                           info=r.choice([0x41, 0x40, 0x31, 0x26, 0x23, 0x55, 0x74, 0x14, r.getrandbits(8)]), ecuid=r.choice([b"ECU1", b"ECU2"]),
                           payload=r.choice([b"", b"Hello World", b"xHello Worldx", b"H\nHello World", b"Hello Worl", gen.text(r), b"a" * r.randrange(60)]))
        if r.random() < 0.1: out += r.choice([b"\0", b"junk", b"Hello World", gen.MARK, gen.message(r)[:-1], b"Hello"])
    return out


def wide(r, n, ids):
    """Many messages of many ECUs: reports with many lines."""
    out, secs, t = [], {}, {}
    for i in range(n):
        e = ids[i] if i < len(ids) else r.choice(ids)
        # many periods and lifecycles of different lengths, a few of which overlap
        secs[e] = r.choice([secs.get(e, r.randrange(9000)) + r.randrange(40), r.randrange(9000), secs.get(e, 5)])
        t[e] = r.choice([t.get(e, 0) + r.randrange(40000000), r.randrange(30000)])
        out.append(gen.message(r, htyp=r.choice([0x30, 0x34, 0x31, 0x35, 0x3d, 0x20, 0x21]), secs=secs[e] & 0xffffffff, ecu=e, tmsp=t[e] & 0xffffffff, info=r.getrandbits(8),
                               ecuid=r.choice(ids), payload=r.choice([b"", b"Hello World", b"H World", b"a" * r.choice([r.randrange(20), r.randrange(400)])])))
    return b"".join(out)


def run(ctx):
    rn = Runner(ctx)
    try:
        T = ctx.thorough
        m = [ctx.bg_model("MCRipdlt", label="MCRipdlt " + f, subst=DLT, invariants=["InvExact", "InvTotal", "Case"], heap="6g",
                          properties=["Terminates"] if n < 4 else [], consts=dict(MaxRec=65551, MaxPieces=n, Family=f))
             for f, n in (("times", ctx.pick(3, 4)), ("seconds", ctx.pick(3, 5)), ("contents", ctx.pick(2, 3)))]
        lemma = [ctx.bg_model("MCRepeat", label="MCRepeat " + f, subst=DLT, consts=dict(MaxRec=65551, MaxPieces=n, Family=f, Copies=4), invariants=["InvBytes", "InvCounts"] + i, spec="RSpec", workers=2)
                 for f, n, i in (("times", ctx.pick(2, 3), ["InvLives"]), ("seconds", 3, ["InvPeriods", "InvMerged"]), ("contents", 2, ["InvHits", "InvRaw"]))]
        R = ctx.rng
        files = [session(R, R.randrange(1, 16)) for _ in range(ctx.pick(150, 1500))]
        files += [gen.grep(R, R.randrange(2, 8)) for _ in range(ctx.pick(60, 600))] + [gen.dlt(R, R.randrange(2, 8)) for _ in range(ctx.pick(60, 600))]
        files += [b[:k] for b in repo_files() for k in (1500, 2500)] + [b[-1500:] for b in repo_files()] + [b""]
        spec = ctx.bg(specified, ctx, files)
        ids = ["%c%c%c%c" % tuple(R.randrange(65, 91) for _ in range(4)) for _ in range(400)]
        large = [wide(R, n, R.sample([i.encode() for i in ids], k)) for n, k in ctx.pick([(600, 290), (700, 300), (700, 2)], [(2000, 400), (1500, 300), (1500, 60), (1500, 2)])]
        spec2 = ctx.bg(specified, ctx, large, "many messages and ECUs", True)
        for f in m:
            cases = f.result().cases
            small = [c for c in cases if T or len(c["b"]) < 64 or ctx.rng.random() < 0.6]
            reports = {"times": ["histogram_lifecycles", "split_lifecycles", "iter", "itertools", "count"],
                       "seconds": ["split_timestamp", "histogram_timestamp"],
                       "contents": [x for x in SEQ if x not in ("histogram_lifecycles", "iter", "itertools", "split_timestamp")]}[["times", "seconds", "contents"][m.index(f)]]
            rn.compare("reports on files of the specification", [(c["b"], c["r"]) for c in small], reports)
            ctx.sample(dict(file=bytes(cases[-1]["b"]).hex(), reports=reports, specified=cases[-1]["r"]))
        rn.compare("reports on random files", list(zip(files, spec.result())))
        rn.compare("reports on files with many ECUs", list(zip(large, spec2.result())))
        gaps(ctx, rn)
        many(ctx, rn)
        for x in lemma: x.result()
    finally:
        rn.close()
    return ctx.finish(assumptions=["bytes of zero between messages only shift what is behind them (files with large gaps)",
                                   "pattern reports: no marker starts inside a message", "the text of titles is free"])


def gaps(ctx, rn):
    """Files with messages at large offsets: the parts are specified, and the gaps between them shift the offsets."""
    R = ctx.rng
    for n in range(ctx.pick(2, 5)):
        parts = [b"".join(gen.message(R, htyp=0x20, payload=R.choice([b"Hello World", b"none", b"H World"]), secs=5, ecu=b"ECU1") for _ in range(R.randrange(1, 5))) for _ in range(4)]
        spec = specified(ctx, parts, "parts of a large file")
        at = sorted([R.randrange(0, 1000), 100000000 - R.choice([1, 0, 40]), R.randrange(1, 3) * 100000000 + R.randrange(1000), 399999999 - R.randrange(2)])
        path = os.path.join(rn.dir, "sparse.dlt")
        with open(path, "wb") as f:
            end = 0
            for p, a in zip(parts, at):
                a = max(a, end)
                f.seek(a)
                f.write(p)
                end = a + len(p)
                at[parts.index(p)] = a
        hits = [h[0] + a for s, a in zip(spec, at) for h in s["hits"][0]]
        exp = {"histogram_hello_world": Counter(h // 100000000 for h in hits), }
        for method in ("mmap",) if n else ("mmap", "read"):
            for rep, e in (("histogram_hello_world", ["Offset %dM-%dM: %d" % (k * 100, (k + 1) * 100, v) for k, v in exp["histogram_hello_world"].items()]),
                           ("count", ["%d messages" % sum(s["count"] for s in spec)]), ("count_hello_world_grepit", ["%d hello world messages" % len(hits)])):
                rc, out, err = rn.run(method, rep, path)
                if rc != 0 or sorted(lines(out)) != sorted(e):
                    ctx.violation("a large file: %s differs" % rep, parts=[p.hex() for p in parts], offsets=at, method=method, exit=rc, answer=lines(out)[:20], expected=e)
                ctx.validated += 1
        os.unlink(path)


def grown(r, k, size):
    """The reports of k copies of a block, from those of 1, 2 and 3 copies (MCRepeat.tla)."""
    r1, r2, r3 = r
    def lin(x, y): return x + (k - 2) * (y - x)
    def bag(x, y):
        x = {json.dumps(a): n for a, n in x}
        return [[json.loads(a), lin(x.get(a, 0), n)] for a, n in ((json.dumps(a), n) for a, n in y)]
    g = {f: lin(r2[f], r3[f]) for f in ("count", "hello", "raw", "long")}
    g.update({f: bag(r2[f], r3[f]) for f in ("types", "pays", "sizes", "byIds", "spans")})
    two = {bytes(e): (m, n) for e, m, n in r2["lifeEcus"]}
    g["lifeEcus"] = [[e, bag(two[bytes(e)][0], m), lin(two[bytes(e)][1], n)] for e, m, n in r3["lifeEcus"]]
    two = {bytes(e): (m, n) for e, m, n in r2["secsEcus"]}
    g["secsEcus"] = [[e, m, lin(two[bytes(e)][1], n)] for e, m, n in r3["secsEcus"]]
    g["hits"] = [[[p + i * size, n] for i in range(k) for p, n in r1["hits"][0]]] if r3["hits"] else []
    if r3["hits"] and (len(r2["hits"][0]), len(r3["hits"][0])) != (2 * len(r1["hits"][0]), 3 * len(r1["hits"][0])): raise ToolError("hits of copies")
    if any(sorted(x[1]) != sorted(y[1]) for x, y in zip(sorted(r2["secsEcus"]), sorted(r3["secsEcus"]))): raise ToolError("periods of copies")
    return g


def many(ctx, rn):
    """Files with many copies of a block: more than 2^16 messages, and more than 2^32 bytes."""
    R = ctx.rng
    def msg(e, secs, t, payload):
        return gen.message(R, htyp=R.choice([0x30, 0x34, 0x31, 0x35, 0x20, 0x21]), secs=secs, ecu=e, tmsp=t, info=R.choice([0x41, 0x40, 0x31, 0x26, 0x23, 0x55, 0x74, 0x14]), ecuid=R.choice([b"ECU1", b"ECU2"]), payload=payload)
    def block(big):
        secs, t, out = R.randrange(100), R.randrange(10 ** 6), []
        for _ in range(R.randrange(1, 6)):
            secs, t = R.choice([secs, secs + 1, secs + 3, R.randrange(100)]), R.choice([t, t + 10 ** 4, t + 18000000, R.randrange(10 ** 6)])
            out.append(msg(R.choice([b"ECU1", b"ECU2"]), secs, t, R.choice([b"", b"Hello World", b"xH World", b"Hello", b"y" * R.randrange(99)])))
        if big: out.insert(R.randrange(len(out) + 1), gen.message(R, htyp=0x20, secs=secs, ecu=b"ECU1", payload=b"\0" * R.choice([65531, 65000])))
        return out
    jobs = [(block(False), R.choice([65536, 65537, 70000])) for _ in range(ctx.pick(2, 12))]
    jobs += [(block(True), R.choice([65600, 66500])) for _ in range(ctx.pick(1, 3))]
    spec = specified(ctx, [b"".join(b) * n for b, _ in jobs for n in (1, 2, 3)], "copies of a block")
    for j, (b, k) in enumerate(jobs):
        whole = b"".join(b)
        size, big = len(whole), len(whole) > 60000
        g = grown(spec[3 * j:3 * j + 3], k, size)
        path = os.path.join(rn.dir if not big else rn.disk(), "many.dlt")
        with open(path, "wb") as f:
            if not big: f.write(whole * k)
            else:
                # zeros of the payload are not written
                parts = [(i.start(), i.group(0)) for i in re.finditer(rb"(?s)(?:[^\0]|\0{1,99}(?!\0))+", whole)]
                os.ftruncate(f.fileno(), size * k)
                for i in range(k):
                    for o, p in parts: os.pwrite(f.fileno(), p, i * size + o)
        reports = [r for r in SEQ if not big or r in ("count", "histogram_message_size", "histogram_payload_size", "histogram_message_type", "histogram_hello_world", "iter", "split_timestamp")]
        def job(x):
            rep, method = x
            rc, out, err = rn.run(method, rep, path, limit=200)
            e = expected(g, rep) if rc == 0 else None
            if rc != 0 or (e is not None and sorted(lines(out)) != sorted(e)):
                ctx.violation("many copies of a block: %s differs" % rep, block=whole.hex()[:4000], copies=k, method=method, exit=rc, answer=lines(out)[:20], expected=e)
        list(rn.pool.map(job, [(r, "mmap" if (n + j) % 2 or big else "read") for n, r in enumerate(reports)]))
        os.unlink(path)
        ctx.validated += len(reports)
        ctx.counts["reports on many copies of a block"] = ctx.counts.get("reports on many copies of a block", 0) + len(reports)
