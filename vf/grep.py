"""Pattern search (C07) and capture search (C08): Grep.tla."""
from vf.common import *
from vf import copies, wide
from vf.pattern import pattern

SMALL = ["\\x03", "\\x03\\x04", "\\x04.*\\x03", "\\x03(.*?)\\x04", "(\\x03)|\\x04", "\\x03\\x01|(\\x03)", "\\x03(\\x04)?", "[\\x03\\x04]+", "([\\x03\\x04]+)\\x04",
         "\\x02(\\x03)", "\\x01\\x02", "\\x04\\x01\\x02\\x03|\\x04()", "\\x02\\x03\\x03|(\\x03)", "()\\x03*", "(?s-u:(.))\\x01"]
TEXT = ["H.* World", "Hello World", "Hello( World)?", "(Hel+o).*?(?:World|DLT)", "World|(H)", "\\x01(.)", "(?-u:([\\x80-\\xff]))(.*)", "ECU(1|2)", "LT", "T\\x01|(\\x01)"]


def run(ctx, kind):
    ctx.harness = build_harness()
    T = ctx.thorough
    A = set(range(1, 16))
    inv = ["InvExact", "InvWithin", "Case"]
    k = dict(Kind=kind, Pats=A)
    m = [("mini", ctx.bg_model("MCGrep", label="MCGrep mini", subst=MINI, invariants=inv, heap="6g",
                               consts=dict(k, MaxRec=5, Alphabet={1, 2, 3, 4}, MinN=0, MaxN=ctx.pick(5, 7), Offsets={0}))),
         ("mini", ctx.bg_model("MCGrep", label="MCGrep mini, offsets", subst=MINI, invariants=inv, properties=["Terminates"],
                               consts=dict(k, MaxRec=5, Alphabet={1, 2, 3, 4}, MinN=0, MaxN=ctx.pick(4, 5), Offsets=set(range(7))))),
         ("tick", ctx.bg_model("MCGrep", label="MCGrep tick", subst=TICK, invariants=inv,
                               consts=dict(k, MaxRec=3, Alphabet={1, 2, 3, 4}, MinN=0, MaxN=ctx.pick(5, 6), Offsets={0, 2}, Pats=A - {14}))),
         ("mini", ctx.bg_model("MCGrepLay", label="MCGrepLay, two pieces", subst=MINI, invariants=inv,
                               consts=dict(k, MaxRec=5, MaxPieces=2, Offsets=set(range(8)) if T else {0, 3, 4, 6}))),
         ("mini", ctx.bg_model("MCGrepLay", label="MCGrepLay, three pieces", subst=MINI, invariants=inv, heap="8g",
                               consts=dict(k, MaxRec=5, MaxPieces=3, Offsets={0, 2, 4, 5} if T else {0}, Pats=A if T else {1, 3, 4, 5, 6, 7, 12, 13, 15})))]
    for t, f in m:
        g = {}
        for c in f.result().cases: g.setdefault(bytes(c["b"]), []).append(c)
        # the iterator, and a single search
        cases = [(buf(t, b, [[k, c["p"], c["f"]] for c in cs for k in (kind, kind + "1")]),
                  [x for c in cs for x in ([c["o"], 0], c["o"][0] if c["o"] else [])]) for b, cs in g.items()]
        ctx.replay(cases, differ, "searches in %s buffers of the specification" % t)
        ctx.validated += sum(len(c[1]) // 2 - 1 for c in cases)
        c = [c for c in f.result().cases if len(c["o"]) > 0][-1]
        ctx.sample(dict(type=t, buffer=bytes(c["b"]).hex(), pattern=c["p"], offset=c["f"], specified=c["o"]))

    R = ctx.rng
    for t, l, pats, n in (("mini", "Small", SMALL, ctx.pick(1200, 10000)), ("tick", "Small", SMALL, ctx.pick(300, 3000)), ("dlt", "Text", TEXT, ctx.pick(1200, 12000))):
        reqs = []
        for _ in range(n):
            if t == "dlt": b = gen.grep(R, R.randrange(1, 7))
            elif t == "mini":
                b = b"".join(R.choice([bytes([1, 2, 3, R.choice([3, 4]), R.choice([3, 4, 10])]), bytes([1, 2, 2, R.choice([3, 4])]), b"\1\2\1", b"\1\2", b"\1\2\0", b"\3", b"\4", b"\3\4", b"\n", b"\1"])
                             for _ in range(R.randrange(1, 14)))
            else: b = bytes(R.choice([1, 2, 3, 4]) for _ in range(R.randrange(20)))
            i = R.randrange(len(pats))
            if t == "tick" and i == 13: continue
            f = R.choice([0, 0, R.randrange(len(b) + 2)])
            reqs.append((b, i, f, buf(t, b, [[kind, pats[i], f], [kind + "1", pats[i], f]])))
        if t == "dlt":
            for x in repo_files():
                for i in (0, 1, 3): reqs.append((x[:1800], i, 0, buf(t, x[:1800], [[kind, pats[i], 0], [kind + "1", pats[i], 0]])))
        traces = []
        for (b, i, f, req), a in zip(reqs, ctx.run_harness([r[3] for r in reqs])):
            if "r" not in a: ctx.violation("a search does not return", request=req, answer=a)
            elif a["r"][0][1] != 0: outside(ctx, t, b, req, a)
            elif a["r"][1] != (a["r"][0][0] + [[]])[0]: ctx.violation("a single search gives something else than the first item", request=req, answer=a["r"])
            else: traces.append(dict(b=list(b), l=l, p=i + 1, f=f, k=kind, o=a["r"][0][0]))
        ctx.validate("TraceGrep", traces, "recorded searches in random %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    patterns(ctx, kind)
    long(ctx, kind)
    many(ctx, kind)
    return ctx.finish(assumptions=["no marker starts inside a message", "patterns without anchors and word boundaries", "patterns are made of bytes, classes of bytes, dots, alternatives, groups and greedy and lazy repetitions"])


def patterns(ctx, kind):
    """Random patterns."""
    R = ctx.rng
    # searching without listing all matches
    lemma = [ctx.bg_model("MCRegex", consts=dict(Alphabet={1, 2, 10}, MaxN=n, Depth=d), invariants=["InvEnds", "InvFind"]) for d, n in ctx.pick([(1, 4), (2, 2)], [(1, 5), (2, 4)])]
    for t, n in (("mini", ctx.pick(1200, 10000)), ("trio", ctx.pick(400, 5000)), ("word", ctx.pick(400, 5000)), ("dlt", ctx.pick(1200, 10000))):
        reqs, traces = [], []
        for _ in range(n):
            if t == "mini":
                b = b"".join(R.choice([bytes([1, 2, 3, R.choice([3, 4]), R.choice([3, 4, 10])]), bytes([1, 2, 2, R.choice([3, 4])]), b"\1\2\1", b"\1\2", b"\1\2\0", b"\3", b"\4", b"\3\4", b"\n", b"\1"])
                             for _ in range(R.randrange(1, 14)))
                s, r, e = pattern(R, [1, 2, 3, 3, 4, 4, 10], [b"\3\4", b"\2\3", b"\4\1\2", b"\3\3"], kind == "capture")
            elif t == "trio":
                b = b"".join(R.choice([bytes([1, 1, 2, 2, R.choice([3, 4]), R.choice([3, 4, 1])]), bytes([1, 1, 2, 1, R.choice([3, 4])]), b"\1\1\2\0", b"\1\1\2", b"\1\1\2\5", b"\3", b"\4", b"\1", b"\1\1"])
                             for _ in range(R.randrange(1, 12)))
                s, r, e = pattern(R, [1, 2, 3, 3, 4, 4], [b"\3\4", b"\2\3", b"\4\1\1", b"\1\1"], kind == "capture")
            elif t == "word":
                m = b"abacabad"
                b = b"".join(R.choice([m + bytes([len(x)]) + x, m + bytes([len(x)]) + x, m, x, m[:R.randrange(8)], m[R.randrange(1, 8):]])
                             for x in (R.choice([b"", b"ab", b"dada", b"ccab", b"badcab", b"x\ny", b"aba" * 9]) for _ in range(R.randrange(1, 8))))
                s, r, e = pattern(R, list(b"abcdaxy\n\0"), [b"ab", b"da", b"cab", b"ad", b"bad"], kind == "capture")
            else:
                b = gen.grep(R, R.randrange(1, 5))
                s, r, e = pattern(R, list(b"HelloWrd  DLTECU12\n\x00\x01\xff\xc3"), [b"Hello", b"World", b" Wo", b"LT", b"ECU1", b"ll", b"Hello World"], kind == "capture")
            f = R.choice([0, 0, R.randrange(len(b) + 2)])
            reqs.append((b, s, r, f, buf(t, b, [[kind, s, f], [kind + "1", s, f]])))
        for (b, s, r, f, req), a in zip(reqs, ctx.run_harness([x[4] for x in reqs])):
            if "r" not in a: ctx.violation("a search does not return", request=req, answer=a)
            elif a["r"][0][1] != 0: outside(ctx, t, b, req, a)
            elif a["r"][1] != (a["r"][0][0] + [[]])[0]: ctx.violation("a single search gives something else than the first item", request=req, answer=a["r"])
            else: traces.append(dict(b=list(b), l="", r=r, f=f, k=kind, o=a["r"][0][0], pattern=s))
        ctx.counts["random patterns on %s buffers: searches with matches" % t] = sum(1 for x in traces if x["o"])
        ctx.validate("TraceGrep", traces, "recorded searches for random patterns in %s buffers" % t, subst=SUBST[t], consts=dict(MaxRec=MAXREC[t]))
    for x in lemma: x.result()


def long(ctx, kind):
    """Messages far apart, up to several GiB; matches may reach over runs of zeros."""
    R = ctx.rng
    m = wide.lemma(ctx, ["InvGrep"])
    traces, at = [], {}
    def ops(w):
        i, f = at[id(w)] = R.randrange(len(TEXT)), R.choice([0, 0, w.offset(R)])
        return [[kind, TEXT[i], f], [kind + "1", TEXT[i], f]]
    def seg(R): return gen.grep(R, R.randrange(1, 4)) or b"H"
    for w, req, r in wide.ask(ctx, "dlt", wide.buffers(ctx, "dlt", ctx.pick(250, 2500), ctx.pick(3, 25), seg), ops):
        i, f = at[id(w)]
        if r[0][1] != 0: outside(ctx, "dlt", w.b, req, r)
        elif r[1] != (r[0][0] + [[]])[0]: ctx.violation("a single search gives something else than the first item", request=req, answer=r)
        else:
            o = wide.moved(ctx, w, req, r[0][0])
            if kind == "capture": o = [[x[0], w.down(x[1]), w.down(x[2])] for x in o]
            traces.append(dict(b=list(w.b), l="Text", p=i + 1, f=w.down(f), k=kind, o=o))
    ctx.validate("TraceGrep", traces, "recorded searches in long dlt buffers", subst=DLT, consts=dict(MaxRec=MAXREC["dlt"]))
    for x in m: x.result()


def many(ctx, kind):
    """Many messages, with and without matches."""
    R = ctx.rng
    m = copies.lemma(ctx, ["InvGrep"], 3)
    traces, at = [], {}
    def ops(c):
        i, f = at[id(c)] = R.randrange(len(TEXT)), R.choice([0, 0, R.randrange(c.e + 1)])
        return [[kind, TEXT[i], f], [kind + "1", TEXT[i], f]]
    def move(x, d): return [x[0] - d, x[1]] if kind == "grep" else [y - d for y in x]
    for c, req, r in copies.ask(ctx, "dlt", copies.buffers(ctx, "dlt", ctx.pick(120, 1500), ctx.pick(2, 20), gen.grep, 10 ** 6), ops, 120):
        i, f = at[id(c)]
        if r[0][1] != 0: outside(ctx, "dlt", c.b, req, r)
        elif r[1] != (r[0][0] + [[]])[0]: ctx.violation("a single search gives something else than the first item", request=req, answer=r[1])
        else:
            o = c.fold(r[0][0], move)
            if o is None: copies.differ_(ctx, kind, req, r[0][0])
            else: traces.append(dict(b=list(c.b), l="Text", p=i + 1, f=f, k=kind, o=o))
    ctx.validate("TraceGrep", traces, "recorded searches in dlt blocks with many copies", subst=DLT, consts=dict(MaxRec=MAXREC["dlt"]))
    for x in m: x.result()


def outside(ctx, t, b, req, a):
    ctx.violation("a search does not end, or goes on behind its end", request=req, answer=a["r"])
