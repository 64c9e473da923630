"""Sequential reading: Scan.tla."""
from vf.common import *
from vf import copies, wide

INV = ["InvOrdered", "InvComplete", "InvExact", "InvStrict", "Case"]
READERS = ["scan", "scant"]


def long(ctx):
    """Messages far apart, up to several GiB."""
    R = ctx.rng
    m = wide.lemma(ctx, ["InvRead", "InvStrictRead"])
    for t, n, huge in (("dlt", ctx.pick(150, 2000), ctx.pick(5, 40)), ("mini", ctx.pick(100, 1000), 1)):
        traces = []
        at = {}
        def ops(w):
            fs = at[id(w)] = [0, w.offset(R)]
            return [[k, f] for f in fs for k in ("scan", "scant", "nooff", "strict")]
        for w, req, r in wide.ask(ctx, t, wide.buffers(ctx, t, n, huge), ops):
            if any(x[1] != 0 for x in r): ctx.violation("a reader does not end, or goes on behind its end", request=req, answer=r)
            for i, f in enumerate(at[id(w)]):
                scan, scant, nooff, strict = [x[0] for x in r[4 * i:4 * i + 4]]
                if scant != scan or [x[1] for x in scan] != nooff: ctx.violation("readers differ", request=req, answer=r)
                traces.append(dict(b=list(w.b), **{"from": w.down(f)}, r="scan", ev=wide.moved(ctx, w, req, scan)))
                if f == w.up(w.down(f)): traces.append(dict(b=list(w.b), **{"from": w.down(f)}, r="strict", ev=wide.moved(ctx, w, req, strict)))
                elif strict: ctx.violation("a message in a run of zeros", request=req, answer=strict)
        ctx.validate("TraceScan", traces, "recorded reads of long %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]), invariants=["InvOrdered", "Accepted"])
    for x in m: x.result()


def many(ctx):
    """Blocks of messages, damaged messages and other bytes that are repeated."""
    R = ctx.rng
    m = copies.lemma(ctx, ["InvRead", "InvStrictRead"])
    for t, n, more in (("dlt", ctx.pick(100, 1500), ctx.pick(4, 40)), ("mini", ctx.pick(100, 1000), ctx.pick(4, 40))):
        traces, at = [], {}
        def ops(c):
            f = at[id(c)] = R.choice([0, R.randrange(c.e + 1)])
            return [[k, f] for k in ("scan", "scant", "nooff", "strict", "strictt")] + [["dltit"]] * (t == "dlt" and f == 0)
        for c, req, r in copies.ask(ctx, t, copies.buffers(ctx, t, n, more), ops):
            if any(x[1] != 0 for x in r):
                ctx.violation("a reader does not end, or goes on behind its end", request=req)
                continue
            scan, scant, nooff, strict, strictt = [x[0] for x in r[:5]]
            if scant != scan or strictt != strict or any([x[1] for x in scan] != x for x in [nooff] + [x[0] for x in r[5:]]): ctx.violation("readers differ", request=req)
            f = at[id(c)]
            if strict and strict[-1][0] + strict[-1][1] < c.e + c.n: ev = strict    # ends before there are more copies
            else: ev = c.fold(strict)
            for what, x in (("scan", c.fold(scan)), ("strict", ev)):
                if x is None: copies.differ_(ctx, what, req, scan if what == "scan" else strict)
                else: traces.append(dict(b=list(c.b), **{"from": f}, r=what, ev=x))
        ctx.validate("TraceScan", traces, "recorded reads of %s blocks with many copies" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]), invariants=["InvOrdered", "Accepted"])
    for x in m: x.result()


def requests(t, c):
    """All readers on a case of the specification; over a buffer from its start, also the readers without offsets."""
    f, exp = c["f"], c["o"]
    ops = [["scan", f], ["scant", f], ["strict", f], ["strictt", f], ["nooff", f]]
    e = [[exp, 0], [exp, 0], [c["s"], 0], [c["s"], 0], [[x[1] for x in exp], 0]]
    if t == "dlt" and f == 0:
        ops.append(["dltit"])
        e.append([[x[1] for x in exp], 0])
    return buf(t, c["b"], ops), e


def bare(ctx):
    """Messages without a marker, as DLT messages without a storage header."""
    R = ctx.rng
    kinds = dict(entry=("EntryLen", "Pieces", ctx.pick(3, 4)), field=("FieldLen", "Small", ctx.pick(5, 6)), pair=("PairLen", "Small", ctx.pick(4, 5)))
    m = [(t, ctx.bg_model("MCBare", label="MCBare " + t, subst=dict(RecLen=l, Buffers=s), consts=dict(Max=n), invariants=["InvChain", "InvLongest", "Case"], properties=["Terminates"]))
         for t, (l, s, n) in kinds.items()]
    for t, f in m:
        reqs = []
        for c in f.result().cases:
            n = [[x[1] for x in c["o"]], 0]
            reqs.append((buf(t, c["b"], [["strict", c["f"]], ["strictt", c["f"]], ["nooff", c["f"]]]), [[c["o"], 0], [c["o"], 0], n]))
        ctx.replay(reqs, differ, "the strict reader on %s messages without a marker" % t)
    for t, (l, s, n) in kinds.items():
        reqs, traces = [], []
        for i in range(ctx.pick(200, 2000)):
            if t == "entry":
                b = b"".join(gen.message(R, payload=bytes(R.randrange(256) for _ in range(R.choice([0, 1, 5, 30, 300]))))[16:] for _ in range(R.randrange(12)))
                b += bytes(R.randrange(4) for _ in range(R.choice([0, 0, 3, 4, 9])))
            else: b = bytes(R.choice([0, 1, 1, 2, 2, 3] if R.random() < .2 else [0, 1, 1, 2]) for _ in range(R.randrange(150)))
            f = R.choice([0, 0, 0, R.randrange(len(b) + 2)])
            reqs.append((b, f, buf(t, b, [["strict", f]])))
        for (b, f, req), a in zip(reqs, ctx.run_harness([r[2] for r in reqs])):
            if "r" not in a or a["r"][0][1] != 0: ctx.violation("the strict reader does not return or end", request=req, answer=a)
            else: traces.append(dict(b=list(b), **{"from": f}, ev=a["r"][0][0]))
        ctx.validate("TraceBare", traces, "recorded reads of %s messages without a marker" % t, subst=dict(RecLen=l), invariants=["Accepted"])


def run(ctx):
    ctx.harness = build_harness()
    T = ctx.thorough
    m = []
    w = dict(properties=["PropProgress", "Terminates"])
    m.append(("mini", ctx.bg_model("MCScan", label="MCScan mini, all offsets", subst=MINI, invariants=INV + ["InvFunction"],
              consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(6, 7), Offsets=True), **w)))
    m.append(("tick", ctx.bg_model("MCScan", label="MCScan tick, all offsets", subst=TICK, invariants=INV + ["InvFunction"],
              consts=dict(MaxRec=3, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(5, 7), Offsets=True), **w)))
    m.append(("trio", ctx.bg_model("MCScan", label="MCScan trio, all offsets", subst=TRIO, invariants=INV + ["InvFunction"],
              consts=dict(MaxRec=6, Alphabet={0, 1, 2}, MinN=0, MaxN=ctx.pick(7, 8), Offsets=True), **w)))
    m.append(("dlt", ctx.bg_model("MCDltScan", label="MCDltScan, offsets", subst=dict(DLT, Pieces="AllPieces"), invariants=INV,
              consts=dict(MaxRec=65551, MaxPieces=2, Froms=set(range(0, 50)) if T else {0, 1, 2, 4, 16, 20, 21, 45}), **w)))
    m.append(("dlt", ctx.bg_model("MCDltScan", label="MCDltScan, three pieces", subst=dict(DLT, Pieces="AllPieces"), invariants=INV,
              consts=dict(MaxRec=65551, MaxPieces=3, Froms={0}))))
    if T:
        m.append(("dlt", ctx.bg_model("MCDltScan", label="MCDltScan, four pieces", subst=dict(DLT, Pieces="SomePieces"), invariants=INV,
                  consts=dict(MaxRec=65551, MaxPieces=4, Froms={0}))))
        m.append(("mini", ctx.bg_model("MCScan", label="MCScan mini, long", subst=MINI, invariants=INV, heap="8g",
                  consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=8, MaxN=9, Offsets=False))))
    for t, f in m:
        cases = f.result().cases
        ctx.replay([requests(t, c) for c in cases], differ, "all readers on %s buffers of the specification" % t)
        ctx.sample(dict(type=t, buffer=bytes(cases[len(cases) // 2]["b"]).hex(), specified=cases[len(cases) // 2]["o"]))

    # recorded runs on larger random buffers are behaviours of the specification
    for t, n in (("mini", ctx.pick(400, 4000)), ("tick", ctx.pick(200, 2000)), ("trio", ctx.pick(200, 2000)), ("word", ctx.pick(200, 2000)), ("dlt", ctx.pick(500, 6000))):
        bufs = random_buffers(ctx, t, n)
        if t == "dlt": bufs += [b[:2500] for b in repo_files()] + [b[-2000:] for b in repo_files()] + large_buffers(ctx)
        reqs = []
        for b in bufs:
            f = ctx.rng.choice([0, 0, 0, ctx.rng.randrange(len(b) + 2)])
            reqs.append((b, f, buf(t, b, [["scan", f], ["scant", f], ["strict", f], ["nooff", f]])))
        traces = []
        for (b, f, req), a in zip(reqs, ctx.run_harness([r[2] for r in reqs])):
            if "r" not in a:
                ctx.violation("a reader does not return", request=req, answer=a)
                continue
            r = a["r"]
            if any(x[1] != 0 for x in r): ctx.violation("a reader does not end, or goes on behind its end", request=req, answer=r)
            if [x[1] for x in r[0][0]] != r[3][0]: ctx.violation("readers with and without offsets differ", request=req, answer=r)
            traces.append(dict(b=list(b), **{"from": f}, r="scan", ev=r[0][0]))
            if r[1][0] != r[0][0]: traces.append(dict(b=list(b), **{"from": f}, r="scan", ev=r[1][0]))
            traces.append(dict(b=list(b), **{"from": f}, r="strict", ev=r[2][0]))
        ctx.validate("TraceScan", traces, "recorded reads of random %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]),
                     invariants=["InvOrdered", "Accepted"])
    bare(ctx)
    long(ctx)
    many(ctx)
    return ctx.finish(assumptions=["markers cannot overlap themselves", "message types besides DLT v1 are represented by the four of Kinds.tla"])
