"""Arbitrary bytes: everything returns, and every iterator has a finite life (IterLife.tla)."""
from vf.common import *

GREP = {"mini": ["\\x03", "(?s-u:.*)(\\x03)?", "x*", "(\\x03)|\\x04", "\\x01\\x02(\\x03|)"],
        "tick": ["\\x03", "x*", "(\\x03)|\\x02"], "trio": ["\\x03", "(?s-u:.*)(\\x02)?", "x*", "\\x01\\x01\\x02(\\x01|)"], "word": ["ab", "(?s-u:.*)(ad)?", "x*", "abacabad(ab|)"],
        "dlt": ["H.* World", "(?s-u:.*)", "x*|(y)", "DLT(\\x01)?", "(?s-u:(.))(T|\\x00)+"]}
UP = ("scan", "scant", "strict", "strictt", "fwd", "grep")


def operations(t, n, offs, pats):
    ops = []
    for f in offs:
        ops += [[o, f] for o in ("scan", "scant", "strict", "strictt", "nooff", "fwd", "rev", "fwd1", "rev1")]
        for p in pats: ops += [["grep", p, f], ["capture", p, f], ["grep1", p, f], ["capture1", p, f]]
        if isinstance(f, int) and f <= n:
            ops += [["tryread", f], ["mark1", f], ["last1", f]]
            if t == "dlt": ops += [["fields", f], ["entry", f], ["valid", f]]
    for k in {1, 2, 3, 7, n + 1, "max"}: ops += [["part", k], ["partread", k]]
    if t == "dlt": ops += [["scanfields"], ["dltit"]]
    ops.append(["contain", [[f, g] for f in offs[:8] for g in offs[:10]]])
    return ops


def offsets(n, r=None):
    o = list(range(n + 2)) if r is None else [0, n, n + 1] + [r.randrange(n + 2) for _ in range(2)]
    return o + ["max", "max-1", "max-3", "max-20"]


def runs(t, n, ops, ans):
    """The lives that the answers tell."""
    out = []
    for o, a in zip(ops, ans):
        k = o[0]
        if k in UP: out.append(dict(d="up", it=a[0], a=a[1]))
        elif k == "rev": out.append(dict(d="down", it=a[0], a=a[1]))
        elif k == "scanfields": out.append(dict(d="up", it=[[x[0], x[1]["len"]] for x in a[0]], a=a[1]))
        # one byte each, as positions are not known
        elif k in ("nooff", "dltit"): out.append(dict(d="up", it=[[i, 1] for i in range(len(a[0]))], a=a[1]))
        # the range that is captured ends behind the start of its message
        elif k == "capture": out.append(dict(d="up", it=[[x[0], x[2] - x[0]] for x in a[0]], a=a[1]))
        elif k == "contain": out += [dict(d="up", it=[x], a=0) for x in a if x]
        elif k in ("part", "partread"): out.append(dict(d="up", it=a, a=0))
        # a single answer
        elif k in ("fwd1", "rev1", "grep1"): out.append(dict(d="up", it=[a] if a else [], a=0))
        elif k == "capture1": out.append(dict(d="up", it=[[a[0], a[2] - a[0]]] if a else [], a=0))
        elif k in ("mark1", "last1"): out.append(dict(d="up", it=[[a[0], 1]] if a else [], a=0))
        elif k == "tryread": out.append(dict(d="up", it=[[o[1], a[1]]] if a else [], a=0))
    # the same life again tells nothing new
    seen = {}
    for r in out: seen[json.dumps(r)] = r
    return dict(n=n, runs=list(seen.values()))


def lives(ctx, what, cases, **kw):
    got = ctx.run_harness([buf(t, b, ops) for t, b, ops in cases], **kw)
    traces = []
    for (t, b, ops), a in zip(cases, got):
        if "skipped" in a: continue
        if "r" not in a: ctx.violation("%s: does not return" % what, request=buf(t, b, ops), answer=a)
        else: traces.append(runs(t, len(b), ops, a["r"]))
    ctx.counts["operations on " + what] = sum(len(c[2]) for c in cases)
    ctx.validate("TraceIterLife", traces, "lives of iterators on " + what, chunk=1000, invariants=["InvDistinct", "Accepted"])


def big(t, pat, n, pre=b"", post=b"", ops=()):
    return dict(k="big", t=t, pat=bytes(pat).hex(), n=n, pre=bytes(pre).hex(), post=bytes(post).hex(), ops=list(ops))


def large(ctx):
    """Large buffers that are bad for searches, readers and lookups; everything takes a moment only."""
    r = ctx.rng
    size = ctx.pick(1 << 20, 1 << 23)
    h = gen.message(r, htyp=0x20, payload=b"H", secs=5, ecu=b"ECU1")
    over = gen.storage(r, secs=5, ecu=b"ECU1") + b"\x20\0\0\x16" + b"\0"         # reaches into the next one
    far = gen.storage(r, secs=5, ecu=b"ECU1") + b"\x20\0\xff\xff"
    pats = ["H.* World", "(?s-u:H.* World)", "(?s-u:(H.*?) World)", "\\x00|(y)", "x*", "(?s-u:.)"]
    reads = [["scan"], ["fwd"], ["rev"], ["strict"]]
    look = [["contain", 1, 1], ["contain", 100, 7], ["part", 1], ["part", 8], ["part", 64]]
    searches = [[k, p] for p in pats for k in ("grep", "capture")]
    out = []
    for pat, pre, post in ((h, b"", b" World"), (over, b"", b" World"), (over, b"", over + b"\0" * 20), (far, b"", b" World"), (gen.MARK, b"", b" World"),
                           (gen.MARK, b"", h), (b"H", b"", b" World"), (b"H", h, h), (b"\0", b"", h), (b"DLT", b"", b"\1" + h[4:]), (b"D", h, b"LT\1"),
                           (gen.MARK + b"\x20", b"", h), (gen.message(r, payload=h * 50, htyp=0x20), b"", b" World"), (h[:-1], b"", h), (gen.MARK[::-1], b"", b""),
                           (b"H\n" + gen.MARK, b"", b" World"), (b"DLT\1" * 4 + b"\x20\0\0\x04", b"", b"")):
        n = size // len(pat)
        # each operation alone, so that the time limit is for each
        for o in reads + look + searches + [["fields"]]:
            out.append(big("dlt", pat, n, pre, post, [o]))
    for pat in (b"\1\2\3", b"\1\2", b"\1", b"\1\2\1", b"\1\2\3\1\2\3\3", b"\1\2\3\3\3"):
        for t in ("mini", "tick"):
            for o in reads + look + [["grep", "\\x03"], ["capture", "(\\x03)|\\x02"], ["grep", "(?s-u:\\x01.*\\x04)"], ["capture", "(?s-u:\\x03.*?(\\x04))"]]:
                out.append(big(t, pat, size // 4 // len(pat), b"", b"\4", [o]))
    return out


def run(ctx):
    ctx.harness = build_harness()
    T = ctx.thorough
    ctx.bg_model("MCIterLife", consts=dict(MaxN=ctx.pick(5, 6)), invariants=["InvBounded", "InvDistinct"], properties=["PropStaysOver", "Terminates"]).result()
    # the buffers: all behaviours of the readers end on them
    f = [("mini", ctx.bg_model("MCScan", label="MCScan mini", subst=MINI, invariants=["Case"], properties=["Terminates"],
                               consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(5, 7), Offsets=False))),
         ("tick", ctx.bg_model("MCScan", label="MCScan tick", subst=TICK, invariants=["Case"], properties=["Terminates"],
                               consts=dict(MaxRec=3, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=ctx.pick(4, 6), Offsets=False))),
         ("dlt", ctx.bg_model("MCDltScan", label="MCDltScan", subst=dict(DLT, Pieces="AllPieces"), invariants=["Case"], properties=["Terminates"],
                              consts=dict(MaxRec=65551, MaxPieces=ctx.pick(2, 3), Froms={0}))),
         ("mini", ctx.bg_model("MCRev", label="MCRev mini", subst=MINI, invariants=["InvAll"], properties=["Terminates"],
                               consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MinN=0, MaxN=4))),
         ("mini", ctx.bg_model("MCGrep", label="MCGrep mini", subst=MINI, invariants=["InvExact"], properties=["Terminates"],
                               consts=dict(MaxRec=5, Alphabet={1, 2, 3, 4}, MinN=0, MaxN=4, Offsets={0, 2}, Kind="capture", Pats=set(range(1, 16))))) ]
    for t, g in f:
        cases, n = g.result().cases, 0
        if not cases: continue
        for i, c in enumerate(cases):
            if t == "dlt": o = offsets(len(c["b"]), ctx.rng)
            else: o = offsets(len(c["b"]))
            c["ops"] = operations(t, len(c["b"]), o, [GREP[t][i % len(GREP[t])]])
        lives(ctx, "all %s buffers of the specification" % t, [(t, c["b"], c["ops"]) for c in cases], limit=30)
        ctx.sample(dict(type=t, buffer=bytes(cases[-1]["b"]).hex(), operations=len(cases[-1]["ops"])))

    R = ctx.rng
    for t, n in (("mini", ctx.pick(400, 4000)), ("tick", ctx.pick(150, 2000)), ("trio", ctx.pick(150, 2000)), ("word", ctx.pick(150, 2000)), ("dlt", ctx.pick(1500, 20000))):
        bufs = random_buffers(ctx, t, n)
        if t == "dlt":
            bufs += [bytes(R.getrandbits(8) for _ in range(R.randrange(200))) for _ in range(n // 5)]
            bufs += [gen.grep(R, R.randrange(1, 7)) for _ in range(n // 5)]
            # every byte of a message broken, and every length
            m = gen.message(R, htyp=0x3d, info=0x41) + gen.message(R, htyp=0x20)
            bufs += [m[:i] + bytes([x]) + m[i + 1:] for i in range(len(m)) for x in (0, 3, 68, 255)] + [m[:i] for i in range(len(m))]
            bufs += [gen.storage(R) + bytes([h, 0, 0, n]) + b"\x41" * 40 for h in range(0, 256, 1 if T else 5) for n in (4, 5, 7, 8, 11, 12, 15, 16, 17, 25, 26)]
            bufs += [b[:3000] for b in repo_files()] + large_buffers(ctx)
        cases = [(t, b, operations(t, len(b), offsets(len(b), R), [R.choice(GREP[t])])) for b in bufs]
        lives(ctx, "random %s buffers" % t, cases, limit=60)

    reqs = large(ctx)
    limit = 30
    n = 0
    for q, a in zip(reqs, ctx.run_harness(reqs, limit=limit)):
        if "skipped" in a: continue
        n += 1
        if "r" not in a:
            ctx.violation("a large buffer: does not return within %d s" % limit, request=q, answer=a)
            continue
        x, k = a["r"][0], q["ops"][0][0]
        size = (len(q["pre"]) + len(q["post"])) // 2 + q["n"] * len(q["pat"]) // 2
        if k == "part" and x[0] is not True: ctx.violation("a large buffer: partitions are not the buffer", request=q, answer=a)
        if k not in ("part", "contain", "fields") and not (x[1] and x[2] == 0 and x[0] <= size):
            ctx.violation("a large buffer: items repeat, or do not end", request=q, answer=a)
    ctx.counts["operations on large buffers"] = n
    ctx.validated += n
    return ctx.finish(assumptions=["a time limit of %d s for one operation on a buffer of some MB stands for a reasonable time" % limit,
                                   "the number of partitions is positive; patterns are valid"])
