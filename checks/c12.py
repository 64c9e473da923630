"""Push-based pipelines: Streams.tla."""
from vf.common import *
from vf import pipes


def replay(ctx, cases, what):
    groups = []
    for g in pipes.matrix(cases, lambda c: c["p"]): groups += [g[i:i + 200] for i in range(0, len(g), 200)]

    def check(req, g, got):
        for c, x in zip(g, got[0]):
            if x != c["r"]: return "pipeline %s on %s: %s instead of %s" % (json.dumps(c["p"]), c["s"], x, c["r"])
    ctx.replay([({"k": "stream", "pipes": [g[0]["p"]], "seqs": [c["s"] for c in g]}, g) for g in groups], check, what)
    ctx.validated += len(cases) - len(groups)


def run(ctx):
    ctx.harness = build_harness()
    inv = ["InvComposition", "InvNothingLost", "InvLarge", "Case"]
    V = {0, 1, 2, 3}
    m = []
    for d in (0, 1, 2):
        for part in ("simple", "nested"):
            m.append(ctx.bg_model("MCPush", label="MCPush, %d stages, %s ends" % (d, part), invariants=inv, properties=["Terminates"] if d < 2 else (),
                                  consts=dict(Depth=d, SeqLen=ctx.pick(3, 4), Vals=V if d < 2 else {0, 1, 3}, Part=part), heap="6g", workers=3))
    m.append(ctx.bg_model("MCPush", label="MCPush, three stages", invariants=inv, heap="6g", workers=4,
                          consts=dict(Depth=3, SeqLen=ctx.pick(2, 3), Vals={0, 1, 3}, Part="one")))
    for f in m:
        cs = f.result().cases
        replay(ctx, cs, "pipelines of the specification")
        ctx.sample(cs[len(cs) // 2])

    reqs, R = [], ctx.rng
    for _ in range(ctx.pick(2500, 20000)):
        p = pipes.fix(pipes.pipe(R, depth=2, n=R.choice([1, 2, 3, 4, 5])))
        reqs.append({"k": "stream", "pipes": [p], "seqs": [pipes.seq(R, 12, R.choice([2, 5, 9]))]})
    # long runs, with few and with many keys and groups
    for _ in range(ctx.pick(80, 600)):
        p = pipes.fix(pipes.pipe(R, depth=2, n=R.choice([0, 1, 1, 2, 3])))
        reqs.append({"k": "stream", "pipes": [p], "seqs": [pipes.long(R)]})
    for e in (["split", "w", {"stages": [], "end": ["count"]}], ["split", "rev", {"stages": [["groupby", "always"]], "end": ["collect"]}]):
        for g in ([], [["map", "inc"]], [["merge", "same", "w"]], [["groupby", "eq"]]):
            reqs.append({"k": "stream", "pipes": [{"stages": g, "end": e}], "seqs": [[[i * 7 % 211] for i in range(250)]]})
    traces = []
    for req, a in zip(reqs, ctx.run_harness(reqs)):
        if "r" not in a: ctx.violation("a pipeline does not return", request=req, answer=a)
        else: traces.append(dict(p=req["pipes"][0], s=req["seqs"][0], r=a["r"][0][0]))
    ctx.validate("TraceStream", traces, "recorded runs of random pipelines", chunk=1000, invariants=["InvComposition", "Accepted"])
    # many thousand values, keys, and values that are kept back
    items = []
    while len(items) < ctx.pick(12, 120):
        p = pipes.fix(pipes.pipe(R, depth=1, n=R.choice([0, 1, 2, 3])))
        if pipes.easy(p): items.append(("p", p, pipes.big(R)))
    s = pipes.distinct(R, R.choice([1100, 5000]))
    items += [("p", {"stages": [], "end": ["split", "w", {"stages": [], "end": ["count"]}]}, s),
              ("p", {"stages": [["merge", "same", "rev"]], "end": ["fork", {"stages": [], "end": ["count"]}, {"stages": [["groupby", "succ"]], "end": ["count"]}]}, s),
              ("p", {"stages": [["merge", "same", "w"], ["groupby", "succ"]], "end": ["collect"]}, s),
              ("p", {"stages": [], "end": ["split", "rev", {"stages": [["groupby", "always"]], "end": ["collect"]}]}, s)]
    n = R.choice([65537, 70000])
    s = [[i % 3] for i in range(n)]
    for e in (["count"], ["sum"], ["fold"], ["fork", {"stages": [], "end": ["count"]}, {"stages": [["filter", "odd"]], "end": ["collect"]}],
              ["split", "mod2", {"stages": [], "end": ["split", "w", {"stages": [], "end": ["count"]}]}]):
        items.append(("p", {"stages": [["map", "inc"]] if e[0] == "count" else [], "end": e}, s))
    pipes.ask_big(ctx, items, "recorded pipelines on long sequences")
    return ctx.finish(assumptions=["stages are combined from the library of functions in Values.tla"])
