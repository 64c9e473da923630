"""Partitioning: Contain.tla."""
from vf.common import *
from vf import copies, wide


def cuts_ok(n, allowed, parts, num, roots):
    """The partitions are cut off one behind the other, at positions that the specification allows, and are no longer than
    their share of the buffer (ShareOK in Contain.tla)."""
    at, ok = 0, set(allowed)
    first = dict((r[0], r[1]) for r in roots)
    share = max(n // num, 1) if num != "max" else 1
    for off, ln in parts:
        if ln == 0: return "an empty partition"
        if off != at: return "partition at %d instead of %d" % (off, at)
        if ln - (share // 4 if at + ln == n else 0) > max(share, first.get(at, 0)):
            return "a partition of %d bytes at %d, its share is %d" % (ln, at, share)
        if at and last + ln <= share: return "two partitions of %d bytes up to %d, the share of one is %d" % (last + ln, at + ln, share)
        last = ln
        at += ln
        if at not in ok: return "a cut at %d is inside a message" % at
    return None if at == n else "partitions end at %d of %d" % (at, n)


def long(ctx):
    """Long runs of zeros, up to several GiB."""
    R = ctx.rng
    m = wide.lemma(ctx, ["InvCuts"])
    for t, n, huge in (("dlt", ctx.pick(200, 2000), ctx.pick(4, 30)), ("mini", ctx.pick(100, 1000), 1)):
        def ops(w):
            ks = [1, 2, 3, R.randrange(1, 20)] + [R.randrange(1, 300)] * (w.long < 2 ** 30)
            return [["scan", 0]] + [[k, x] for x in ks for k in ("part", "partread")]
        traces = []
        for w, req, r in wide.ask(ctx, t, wide.buffers(ctx, t, n, huge), ops):
            parts = []
            for (_, num), cut, read in zip(req["ops"][1::2], r[1::2], r[2::2]):
                if read != r[0][0]: ctx.violation("reading the partitions does not give the messages of the buffer", request=req, answer=r)
                d = cuts_ok(w.long, {c[0] + c[1] for c in cut}, cut, num, r[0][0])
                if d: ctx.violation(d, request=req, answer=cut)
                at = sorted({w.down(c[0] + c[1]) for c in cut})
                parts.append([b - a for a, b in zip([0] + at, at) if b > a])
            traces.append(dict(b=list(w.b), q=[], parts=parts, nums=[0] * len(parts)))
        ctx.validate("TraceContain", traces, "recorded partitions of long %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    for x in m: x.result()


def many(ctx):
    """Many messages, and many partitions."""
    R = ctx.rng
    m = copies.lemma(ctx, ["InvCuts"])
    for t, n, more in (("dlt", ctx.pick(80, 1200), ctx.pick(3, 30)), ("mini", ctx.pick(80, 800), ctx.pick(3, 30))):
        def ops(c):
            ks = [2, R.randrange(3, 20), R.choice(copies.MANY), R.choice([c.k, c.k + 1, c.k // 2 + 1, c.long // 3 + 1])]
            ks += [R.choice(copies.MORE), c.long, c.long + 1]
            # every cut may have to look through the buffer for a marker
            ks = [x for x in ks if x * c.long < 10 ** 9]
            return [["scan", 0]] + [[k, x] for x in ks for k in (R.choice(["part", "partbuf"]), "partread")]
        traces = []
        for c, req, r in copies.ask(ctx, t, copies.buffers(ctx, t, n, more, most=3 * 10 ** 6), ops):
            parts = []
            for (_, num), cut, read in zip(req["ops"][1::2], r[1::2], r[2::2]):
                if read != r[0][0]: ctx.violation("reading the partitions does not give the messages of the buffer", request=req)
                d = cuts_ok(c.long, {x[0] + x[1] for x in cut}, cut, num, r[0][0])
                if d: ctx.violation(d, request=req, answer=cut[:50])
                at = sorted({c.down(x[0] + x[1])[0] for x in cut})
                parts.append([b - a for a, b in zip([0] + at, at) if b > a])
            traces.append(dict(b=list(c.b), q=[], parts=parts, nums=[0] * len(parts)))
        ctx.validate("TraceContain", traces, "recorded partitions of %s blocks with many copies" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    for x in m: x.result()


def run(ctx):
    ctx.harness = build_harness()
    T = ctx.thorough
    small = {1, 2, 3, 4, 5, 7, 9}
    any_cut = ctx.bg_model("MCPartition", subst=MINI, invariants=["InvAnyPartition", "InvNotStuck"], heap="8g",
                           consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(6, 7)))
    any_chain = ctx.bg_model("MCPartition", label="MCPartition, chains", subst=MINI, invariants=["InvAnyPartition", "InvNotStuck"], heap="8g",
                             consts=dict(MaxRec=5, Alphabet={1, 2, 3}, MinN=7, MaxN=ctx.pick(8, 9)))
    inv = ["InvAlgorithm", "Case"]
    m = [("mini", ctx.bg_model("MCContain", label="MCContain mini", subst=MINI, invariants=inv, heap="8g",
                               consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(6, 7), Nums=small))),
         ("mini", ctx.bg_model("MCContain", label="MCContain mini, chains", subst=MINI, invariants=inv, heap="8g",
                               consts=dict(MaxRec=5, Alphabet={1, 2, 3}, MinN=7, MaxN=ctx.pick(8, 10), Nums={2, 3, 4})))]
    m.append(("trio", ctx.bg_model("MCContain", label="MCContain trio", subst=TRIO, invariants=inv, heap="8g",
              consts=dict(MaxRec=6, Alphabet={0, 1, 2}, MinN=0, MaxN=ctx.pick(7, 8), Nums=small))))
    m.append(("dlt", ctx.bg_model("MCDltContain", label="MCDltContain", subst=dict(DLT, Pieces="AllPieces"), invariants=["InvWithin", "Case"],
              consts=dict(MaxRec=65551, MaxPieces=3, Widths={1}), heap="8g")))
    if T: m.append(("dlt", ctx.bg_model("MCDltContain", label="MCDltContain, four pieces", subst=dict(DLT, Pieces="FewPieces"), invariants=["InvWithin", "Case"],
              consts=dict(MaxRec=65551, MaxPieces=4, Widths={1}), heap="8g")))
    for t, f in m:
        cases = []
        for c in f.result().cases:
            n = len(c["b"])
            nums = list(range(1, n + 3)) + [n * 2 + 1, "max"] if t != "dlt" else [1, 2, 3, 4, 5, 8, 16, n // 3 + 1, n + 1, "max"]
            ops = [["part", k] for k in nums] + [["partbuf", k] for k in nums] + [["partread", k] for k in nums]
            cases.append((buf(t, c["b"], ops), (n, c["k"], c["o"])))

        def check(req, exp, got):
            n, allowed, roots = exp
            for o, g in zip(req["ops"], got):
                d = cuts_ok(n, allowed, g, o[1], roots) if o[0] != "partread" else (None if g == roots else "reading the partitions gives %s, the buffer has %s" % (str(g)[:300], str(roots)[:300]))
                if d: return "%s: %s" % (o, d)
            return None
        ctx.replay(cases, check, "partitions of %s buffers of the specification" % t)
        ctx.sample(dict(type=t, buffer=cases[-1][0]["b"], allowed_cuts=cases[-1][1][1]))
    any_cut.result()
    any_chain.result()

    for t, n in (("mini", ctx.pick(500, 5000)), ("trio", ctx.pick(150, 1500)), ("word", ctx.pick(150, 1500)), ("dlt", ctx.pick(500, 6000))):
        bufs = random_buffers(ctx, t, n)
        if t == "dlt": bufs += [b[:2500] for b in repo_files()] + large_buffers(ctx)
        reqs = []
        for b in bufs:
            nums = [1, 2, 3, ctx.rng.randrange(1, len(b) + 2), ctx.rng.randrange(1, 20)]
            reqs.append(buf(t, b, [[ctx.rng.choice(["part", "partbuf"]), k] for k in nums] + [["partread", k] for k in nums] + [["scan", 0]]))
        traces = []
        for b, req, a in zip(bufs, reqs, ctx.run_harness(reqs)):
            if "r" not in a:
                ctx.violation("partitioning does not return", request=req, answer=a)
                continue
            r = a["r"]
            k = (len(r) - 1) // 2
            for x in r[:k]:
                at = 0
                for off, ln in x:
                    if off != at: ctx.violation("partitions are not contiguous", request=req, answer=r)
                    at += ln
            for x in r[k:2 * k]:
                if x != r[-1][0]: ctx.violation("reading the partitions does not give the messages of the buffer", request=req, answer=r)
            traces.append(dict(b=list(b), q=[], parts=[[p[1] for p in x] for x in r[:k]], nums=[o[1] for o in req["ops"][:k]]))
        ctx.validate("TraceContain", traces, "recorded partitions of random %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    long(ctx)
    many(ctx)
    return ctx.finish(assumptions=["a message is complete or not independently of what follows it"])
