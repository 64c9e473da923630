"""The outermost message around a range: Contain.tla."""
from vf.common import *
from vf import copies, wide


def long(ctx):
    """Ranges that are far from messages, or far from the start of the buffer."""
    R = ctx.rng
    m = wide.lemma(ctx, ["InvLookup"])
    for t, n, huge in (("dlt", ctx.pick(200, 2500), ctx.pick(4, 30)), ("mini", ctx.pick(100, 1000), 1)):
        def ops(w):
            q = []
            for _ in range(25 if w.long < 2 ** 30 else 6):
                lo = w.offset(R)
                q.append([lo, R.choice([lo + 1, lo + 1, lo + 2, lo + R.randrange(40), w.offset(R)])])
            return [["contain", q]]
        traces = []
        for w, req, r in wide.ask(ctx, t, wide.buffers(ctx, t, n, huge), ops):
            q = []
            for (lo, hi), a in zip(req["ops"][0][1], r[0]):
                # the last byte of the range decides, but an empty range stays empty
                d = w.down(hi - 1) + 1 if hi > lo else w.down(lo)
                q.append([w.down(lo), len(w.b) + 1 if hi > w.long else d, wide.moved(ctx, w, req, [a])[0] if a else a])
            traces.append(dict(b=list(w.b), parts=[], nums=[], q=q))
        ctx.validate("TraceContain", traces, "recorded lookups in long %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    for x in m: x.result()


def many(ctx):
    """Ranges behind many messages."""
    R = ctx.rng
    m = copies.lemma(ctx, ["InvLookup"])
    for t, n, more in (("dlt", ctx.pick(100, 1500), ctx.pick(3, 30)), ("mini", ctx.pick(100, 1000), ctx.pick(3, 30))):
        def ops(c):
            q = []
            for _ in range(25):
                lo = R.randrange(c.long + 1)
                q.append([lo, min(c.long, lo + R.choice([1, 1, 2, 1 + R.randrange(c.n + 1)]))])
            return [["contain", q]]
        traces = []
        for c, req, r in copies.ask(ctx, t, copies.buffers(ctx, t, n, more), ops):
            q = []
            for (lo, hi), a in zip(req["ops"][0][1], r[0]):
                x, d = c.down(lo)
                q.append([x, min(x + hi - lo, len(c.b) + 1), [a[0] - d, a[1]] if a else a])
            traces.append(dict(b=list(c.b), parts=[], nums=[], q=q))
        ctx.validate("TraceContain", traces, "recorded lookups in %s blocks with many copies" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    for x in m: x.result()


def run(ctx):
    ctx.harness = build_harness()
    T = ctx.thorough
    inv = ["InvLookup", "InvAlgorithm", "Case"]
    m = [("mini", ctx.bg_model("MCContain", label="MCContain mini, all ranges", subst=MINI, invariants=inv, heap="8g",
                               consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(6, 7), Nums={2}))),
         # long enough for chains of messages that overlap each other
         ("mini", ctx.bg_model("MCContain", label="MCContain mini, chains", subst=MINI, invariants=inv, heap="8g",
                               consts=dict(MaxRec=5, Alphabet={1, 2, 3}, MinN=7, MaxN=ctx.pick(8, 10), Nums={2}))),
         ("tick", ctx.bg_model("MCContain", label="MCContain tick, all ranges", subst=TICK, invariants=["InvLookup", "Case"],
                               consts=dict(MaxRec=3, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(5, 7), Nums={2})))]
    m.append(("trio", ctx.bg_model("MCContain", label="MCContain trio, all ranges", subst=TRIO, invariants=inv, heap="8g",
              consts=dict(MaxRec=6, Alphabet={0, 1, 2}, MinN=0, MaxN=ctx.pick(7, 8), Nums={2}))))
    P = dict(DLT, Pieces="AllPieces")
    m.append(("dlt", ctx.bg_model("MCDltContain", label="MCDltContain, two pieces", subst=P, invariants=["InvWithin", "Case"],
              consts=dict(MaxRec=65551, MaxPieces=2, Widths={0, 1, 2, 4, 6, 20, 21}))))
    m.append(("dlt", ctx.bg_model("MCDltContain", label="MCDltContain, more pieces", subst=dict(DLT, Pieces=ctx.pick("FewPieces", "AllPieces")), invariants=["InvWithin", "Case"],
              consts=dict(MaxRec=65551, MaxPieces=3, Widths={1, 20}), heap="8g")))
    for t, f in m:
        cases = []
        for c in f.result().cases:
            n = len(c["b"])
            if t == "dlt":
                q = [[x[0], x[1]] for x in c["c"]]
                e = [x[2:] for x in c["c"]]
            else:
                q = [[lo, hi] for lo in range(n + 1) for hi in range(n + 1)]
                e = [c["c"][lo][hi] for lo, hi in q]
            # ranges that lie outside of the buffer
            q += [[0, n + 1], [n, n + 1], [n + 1, n + 2], ["max-1", "max"], [0, "max"], ["max", 0], [n // 2, "max"]]
            e += [[]] * 7
            cases.append((buf(t, c["b"], [["contain", q]]), [e]))
        ctx.replay(cases, differ, "lookups in %s buffers of the specification" % t)
        ctx.sample(dict(type=t, buffer=cases[-1][0]["b"], lookups=len(cases[-1][1][0])))

    for t, n in (("mini", ctx.pick(400, 4000)), ("tick", ctx.pick(150, 2000)), ("trio", ctx.pick(150, 2000)), ("word", ctx.pick(150, 2000)), ("dlt", ctx.pick(500, 6000))):
        bufs = random_buffers(ctx, t, n)
        if t == "dlt": bufs += [b[:2000] for b in repo_files()] + large_buffers(ctx)
        reqs = []
        for b in bufs:
            q = []
            for _ in range(25):
                lo = ctx.rng.randrange(len(b) + 1)
                q.append([lo, ctx.rng.choice([lo, lo + 1, lo + 2, lo + ctx.rng.randrange(40), ctx.rng.randrange(len(b) + 2)])])
            reqs.append(buf(t, b, [["contain", q]]))
        traces = []
        for b, req, a in zip(bufs, reqs, ctx.run_harness(reqs)):
            if "r" not in a: ctx.violation("a lookup does not return", request=req, answer=a)
            else: traces.append(dict(b=list(b), parts=[], nums=[], q=[[q[0], q[1], r] for q, r in zip(req["ops"][0][1], a["r"][0])]))
        ctx.validate("TraceContain", traces, "recorded lookups in random %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    long(ctx)
    many(ctx)
    return ctx.finish(assumptions=["markers cannot overlap themselves"])
