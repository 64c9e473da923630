"""Forward and backward search for messages: Scan.tla, RevSearch.tla, Once.tla."""
from vf.common import *
from vf import copies, wide

INV = ["InvOrdered", "InvComplete", "InvExact", "Case"]
REV = ["InvDescending", "InvAll", "InvLengths", "Case"]


def long(ctx):
    """Messages far apart, up to several GiB."""
    R = ctx.rng
    m = wide.lemma(ctx, ["InvRead", "InvRev"])
    for t, n, huge in (("dlt", ctx.pick(150, 2000), ctx.pick(4, 30)), ("mini", ctx.pick(100, 1000), 1)):
        at, fw, rv, qs = {}, [], [], []
        def ops(w):
            f, r, o = at[id(w)] = w.offset(R), R.choice([w.long, w.offset(R), "max"]), [w.offset(R) for _ in range(4)]
            return [["fwd", f], ["rev", r]] + [[k, x] for x in o for k in ("fwd1", "rev1", "mark1", "last1")]
        for w, req, r in wide.ask(ctx, t, wide.buffers(ctx, t, n, huge), ops):
            f, b, o = at[id(w)]
            if any(x[1] != 0 for x in r[:2]): ctx.violation("a search does not end, or goes on behind its end", request=req, answer=r[:2])
            fw.append({"b": list(w.b), "from": w.down(f), "r": "scan", "ev": wide.moved(ctx, w, req, r[0][0])})
            rv.append({"b": list(w.b), "from": len(w.b) + 1 if b == "max" else w.down(b), "ev": wide.moved(ctx, w, req, r[1][0])})
            qs.append({"b": list(w.b), "q": [[k, w.down(x), wide.moved(ctx, w, req, [a])[0] if a else a] for (k, x), a in zip(req["ops"][2:], r[2:])]})
        k = dict(subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
        ctx.validate("TraceOnce", qs, "recorded single searches in long %s buffers" % t, **k)
        ctx.validate("TraceScan", fw, "recorded forward searches in long %s buffers" % t, invariants=["InvOrdered", "Accepted"], **k)
        ctx.validate("TraceRev", rv, "recorded backward searches in long %s buffers" % t, invariants=["InvDescending", "Accepted"], **k)
    for x in m: x.result()


def many(ctx):
    """Many messages, complete and damaged."""
    R = ctx.rng
    m = copies.lemma(ctx, ["InvRead", "InvRev"])
    for t, n, more in (("dlt", ctx.pick(100, 1500), ctx.pick(3, 30)), ("mini", ctx.pick(100, 1000), ctx.pick(3, 30))):
        at, fw, rv, qs = {}, [], [], []
        def ops(c):
            # searches start before the second copy, or behind the last but one
            f, r = at[id(c)] = R.choice([0, R.randrange(c.e + 1)]), R.choice([c.long, c.long - R.randrange(len(c.b) - c.e - c.n + 1)])
            return [["fwd", f], ["rev", R.choice([r, "max"]) if r == c.long else r], ["fwd1", f], ["rev1", r], ["mark1", f], ["last1", r]]
        for c, req, r in copies.ask(ctx, t, copies.buffers(ctx, t, n, more), ops):
            f, b = at[id(c)]
            if any(x[1] != 0 for x in r[:2]):
                ctx.violation("a search does not end, or goes on behind its end", request=req)
                continue
            x, y = c.fold(r[0][0]), c.fold(r[1][0])
            if x is None: copies.differ_(ctx, "search", req, r[0][0])
            else: fw.append({"b": list(c.b), "from": f, "r": "scan", "ev": x})
            if y is None: copies.differ_(ctx, "backward search", req, r[1][0])
            else: rv.append({"b": list(c.b), "from": c.down(b)[0], "ev": y})
            # the next one lies in the first two copies or behind all of them, the last one in the last two or before all of them
            lo, hi = c.e + c.n, c.e + c.k * c.n
            for (k, o), x in zip(req["ops"][2:], r[2:]):
                if x and k in ("fwd1", "mark1"): ok, x = not lo <= x[0] < hi, [c.down(x[0])[0]] + x[1:]
                elif x: ok, x = not c.e - c.n <= x[0] < hi - 2 * c.n, [x[0] if x[0] < c.e - c.n else x[0] - c.add] + x[1:]
                if x and not ok: ctx.violation("%s at %d leaves out a copy" % (k, o), request=req, answer=r[2:])
                else: qs.append({"b": list(c.b), "q": [[k, o if k in ("fwd1", "mark1") else c.down(o)[0], x]]})
        k = dict(subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
        ctx.validate("TraceOnce", qs, "recorded single searches in %s blocks with many copies" % t, **k)
        ctx.validate("TraceScan", fw, "recorded forward searches in %s blocks with many copies" % t, invariants=["InvOrdered", "Accepted"], **k)
        ctx.validate("TraceRev", rv, "recorded backward searches in %s blocks with many copies" % t, invariants=["InvDescending", "Accepted"], **k)
    for x in m: x.result()


def run(ctx):
    ctx.harness = build_harness()
    T = ctx.thorough
    m = []
    for t, n, alphabet in (("mini", ctx.pick(6, 7), {0, 1, 2, 3}), ("tick", ctx.pick(5, 7), {0, 1, 2, 3}), ("trio", ctx.pick(7, 8), {0, 1, 2})):
        c = dict(MaxRec=MAXREC[t], Alphabet=alphabet, MinN=0, MaxN=n)
        m.append((t, "rev", ctx.bg_model("MCRev", label="MCRev " + t, subst=SUBST[t], invariants=REV, properties=["Terminates"], consts=c)))
        m.append((t, "fwd", ctx.bg_model("MCScan", label="MCScan " + t, subst=SUBST[t], invariants=INV, consts=dict(c, Offsets=True))))
    P = dict(DLT, Pieces="AllPieces")
    m.append(("dlt", "rev", ctx.bg_model("MCDltRev", label="MCDltRev, offsets", subst=P, invariants=REV, properties=["Terminates"],
              consts=dict(MaxRec=65551, MaxPieces=2, Backs=set(range(0, 70)) if T else {0, 1, 2, 3, 4, 5, 17, 20, 21, 24, 40}))))
    m.append(("dlt", "rev", ctx.bg_model("MCDltRev", label="MCDltRev, three pieces", subst=P, invariants=REV,
              consts=dict(MaxRec=65551, MaxPieces=3, Backs={0, 1}))))
    m.append(("dlt", "fwd", ctx.bg_model("MCDltScan", label="MCDltScan, offsets", subst=P, invariants=INV,
              consts=dict(MaxRec=65551, MaxPieces=2, Froms=set(range(0, 70)) if T else {0, 1, 4, 20, 21, 45}))))
    m.append(("dlt", "fwd", ctx.bg_model("MCDltScan", label="MCDltScan, three pieces", subst=P, invariants=INV,
              consts=dict(MaxRec=65551, MaxPieces=3, Froms={0}))))
    once = [(t, ctx.bg_model("MCOnce", label="MCOnce " + t, subst=SUBST[t], invariants=["InvFwd", "InvRev", "InvNear", "Case"],
                             consts=dict(MaxRec=MAXREC[t], Alphabet=alphabet, MinN=0, MaxN=n))) for t, n, alphabet in (("mini", ctx.pick(5, 6), {0, 1, 2, 3}), ("tick", ctx.pick(5, 6), {0, 1, 2, 3}), ("trio", ctx.pick(6, 7), {0, 1, 2}))]
    for t, d, f in m:
        cs = f.result().cases
        ctx.replay([(buf(t, c["b"], [[d, c["f"]]]), [[c["o"], 0]]) for c in cs], differ, "%s search on %s buffers of the specification" % (d, t))
        c = cs[2 * len(cs) // 3]
        ctx.sample(dict(type=t, search=d, buffer=bytes(c["b"]).hex(), start=c["f"], specified=c["o"]))

    for t, f in once:
        g = {}
        for c in f.result().cases: g.setdefault(bytes(c["b"]), []).extend((k, c["f"], a) for k, a in c["o"].items())

        def admissible(req, exp, got):
            for o, e, a in zip(req["ops"], exp, got):
                if a not in e: return "%s gives %s, specified is one of %s" % (o, a, e)
        ctx.replay([(buf(t, b, [[k, f] for k, f, _ in q]), [a for _, _, a in q]) for b, q in g.items()], admissible, "single searches on %s buffers of the specification" % t)
        ctx.validated += sum(len(q) - 1 for q in g.values())

    for t, n in (("mini", ctx.pick(300, 4000)), ("tick", ctx.pick(150, 2000)), ("trio", ctx.pick(150, 2000)), ("word", ctx.pick(150, 2000)), ("dlt", ctx.pick(400, 6000))):
        bufs = random_buffers(ctx, t, n)
        if t == "dlt": bufs += [b[:2000] for b in repo_files()] + large_buffers(ctx)
        reqs, at, ones = [], [], []
        for b in bufs:
            f, r = ctx.rng.randrange(len(b) + 2), ctx.rng.choice([len(b), len(b) + 1, ctx.rng.randrange(len(b) + 2)])
            at.append((f, r))
            reqs.append(buf(t, b, [["fwd", f], ["rev", r], ["rev", "max"]]))
            ask = sorted({0, 1, len(b), len(b) + 1} | {ctx.rng.randrange(len(b) + 3) for _ in range(8)} | {max(0, p + d) for p in [i for i in range(len(b)) if b[i:i + 1] in (b"D", b"\1", b"a")][:4] for d in (0, 1, 4)})
            ones.append((b, [[k, x] for x in ask for k in ("fwd1", "rev1") + (("mark1", "last1") if x <= len(b) else ())]))
        qs = []
        for (b, ops), a in zip(ones, ctx.run_harness([buf(t, b, ops) for b, ops in ones])):
            if "r" not in a: ctx.violation("a single search does not return", request=buf(t, b, ops), answer=a)
            else: qs.append({"b": list(b), "q": [o + [x] for o, x in zip(ops, a["r"])]})
        fw, rv = [], []
        for b, (f, r), req, a in zip(bufs, at, reqs, ctx.run_harness(reqs)):
            if "r" not in a:
                ctx.violation("a search does not return", request=req, answer=a)
                continue
            if any(x[1] != 0 for x in a["r"]): ctx.violation("a search does not end, or goes on behind its end", request=req, answer=a["r"])
            fw.append({"b": list(b), "from": f, "r": "scan", "ev": a["r"][0][0]})
            rv.append({"b": list(b), "from": r, "ev": a["r"][1][0]})
            rv.append({"b": list(b), "from": len(b) + 1, "ev": a["r"][2][0]})
        k = dict(subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
        ctx.validate("TraceOnce", qs, "recorded single searches in random %s buffers" % t, **k)
        ctx.validate("TraceScan", fw, "recorded forward searches in random %s buffers" % t, invariants=["InvOrdered", "Accepted"], **k)
        ctx.validate("TraceRev", rv, "recorded backward searches in random %s buffers" % t, invariants=["InvDescending", "Accepted"], **k)
    long(ctx)
    many(ctx)
    return ctx.finish(assumptions=["markers cannot overlap themselves"])
