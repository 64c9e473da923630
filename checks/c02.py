"""Decoding of messages: DltFormat.tla."""
from vf.common import *

INV = ["InvComplete", "InvWhole", "InvAbsent", "InvLocal", "Case"]


def run(ctx):
    ctx.harness = build_harness()
    base = dict(Lens={0, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 18, 22, 25, 26, 27, 28}, Infos={0, 65})
    m = [ctx.bg_model("MCFields", label="MCFields, all flags and lengths", subst=dict(HTyps="LowFlags", Lens="LensAll", Posts="PostsAll", Pres="PresAll"),
                      invariants=INV, consts=dict(Infos={65}))]
    m.append(ctx.bg_model("MCFields", label="MCFields, all header types", subst=dict(HTyps="AllHTyps"), invariants=INV,
                          consts=dict(Infos={65}, Lens={4, 8, 14, 18, 22, 26, 27, 40}, Posts={0, 5}, Pres={0})))
    m.append(ctx.bg_model("MCFields", label="MCFields, all message infos", subst={}, invariants=INV,
                          consts=dict(HTyps={33, 61, 37}, Infos=set(range(256)), Lens={13, 14, 18, 26, 30}, Posts={0, 5}, Pres={0})))
    if ctx.thorough:
        m.append(ctx.bg_model("MCFields", label="MCFields, all header types and lengths", subst=dict(HTyps="AllHTyps", Lens="LensAll", Posts="PostsAll"),
                              invariants=INV, consts=dict(Infos={65, 38}, Pres={0}), heap="8g"))
    for f in m:
        cases = []
        for c in f.result().cases:
            if c["p"] > len(c["b"]): continue
            ops = [["fields", c["p"]]]
            e = [c["f"]]
            if c["f"]:
                ops += [["valid", c["p"]], ["scanfields"]]
                e += [c["f"], None]
            if c["q"]:
                ops.append(["entry", c["p"] + 16])
                e.append(c["e"])
            cases.append((buf("dlt", c["b"], ops), e, c))

        def check(req, exp, got):
            for o, e, g in zip(req["ops"], exp, got):
                if o[0] == "scanfields":        # the message as an iterator gives it
                    first = [x for x in g[0] if x[0] == ctx_pos[req["b"]]]
                    if not first or first[0][1] != exp[0][1]: return "iterators give %s, specified is %s" % (str(first)[:300], str(exp[0])[:300])
                elif e != g: return "%s gives %s, specified is %s" % (o, str(g)[:400], str(e)[:400])
            return None
        ctx_pos = {c[0]["b"]: c[2]["p"] for c in cases}
        ctx.replay([(c[0], c[1]) for c in cases], check, "decoding of messages of the specification")
        ctx.sample(dict(buffer=cases[-1][0]["b"], specified=cases[-1][1][0]))

    # what was decoded in random buffers
    n = ctx.pick(700, 8000)
    bufs = random_buffers(ctx, "dlt", n) + [gen.message(ctx.rng) for _ in range(n)] + [b[:1500] for b in repo_files()] + large_buffers(ctx)
    reqs, where = [], []
    for b in bufs:
        at = [p for p in range(len(b)) if b[p:p + 4] == gen.MARK][:20]
        at += [ctx.rng.randrange(len(b) + 1) for _ in range(3)]
        ops = []
        for p in at:
            ops.append(["fields", p])
            ops.append(["entry", min(len(b), p + 16)])
            if b[p:p + 4] == gen.MARK: ops.append(["valid", p])
        reqs.append(buf("dlt", b, ops))
    traces = []
    for b, req, a in zip(bufs, reqs, ctx.run_harness(reqs)):
        if "r" not in a: ctx.violation("decoding does not return", request=req, answer=a)
        else: traces.append(dict(b=list(b), e=[[o[0], o[1], r] for o, r in zip(req["ops"], a["r"])]))
    ctx.validate("TraceFields", traces, "recorded fields of random messages")
    return ctx.finish(assumptions=["fields are compared as the public accessors give them"])
