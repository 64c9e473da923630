"""Iterators with stages: Pull.tla."""
from vf.common import *
from vf import pipes

SUB = {"stages": [["groupby", "ge"]], "end": ["count"]}


def run(ctx):
    ctx.harness = build_harness()
    inv = ["InvSame", "InvEnded", "InvLazy", "InvLarge", "Case"]
    m = [ctx.bg_model("MCPull", label="MCPull, %d stages" % d, invariants=inv, heap="6g",
                      consts=dict(Depth=d, SeqLen=n, Vals=v))
         for d, n, v in [(0, 4, {0, 1, 2, 3}), (1, ctx.pick(4, 5), {0, 1, 2, 3}), (2, ctx.pick(3, 4), {0, 1, 2, 3}), (3, ctx.pick(2, 3), {0, 1, 2, 3})]]
    for f in m:
        cs = f.result().cases
        groups = []
        for g in pipes.matrix(cs, lambda c: c["p"]): groups += [g[i:i + 200] for i in range(0, len(g), 200)]

        def check(req, g, got):
            for c, x, y in zip(g, got[0], got[1]):
                if x[0] != c["out"]: return "%s on %s: %s instead of %s ([value, items taken])" % (c["p"], c["s"], x[0], c["out"])
                if x[1] != c["taken"]: return "%s on %s: %s items taken instead of %s" % (c["p"], c["s"], x[1], c["taken"])
                if x[2] != 0: return "%s on %s: the iterator goes on behind its end" % (c["p"], c["s"])
                if y != c["split"]: return "split behind %s on %s: %s instead of %s" % (c["p"], c["s"], y, c["split"])
        ctx.replay([({"k": "pull", "pipes": [{"stages": g[0]["p"], "split": []}, {"stages": g[0]["p"], "split": ["mod2", SUB]}],
                      "seqs": [c["s"] for c in g]}, g) for g in groups], check, "chains of the specification")
        ctx.validated += 2 * len(cs) - len(groups)
        ctx.sample(cs[len(cs) // 2])

    reqs, R = [], ctx.rng
    for _ in range(ctx.pick(2500, 20000)):
        st, k = pipes.chain(R, R.choice([1, 2, 3, 4, 5]), pipes.PULL)
        reqs.append({"k": "pull", "pipes": [{"stages": st, "split": []}], "seqs": [pipes.seq(R, 12, R.choice([2, 5, 9]))]})
    for _ in range(ctx.pick(60, 500)):
        st, k = pipes.chain(R, R.choice([1, 2, 3]), pipes.PULL)
        reqs.append({"k": "pull", "pipes": [{"stages": st, "split": []}], "seqs": [pipes.long(R)]})
    traces = []
    for req, a in zip(reqs, ctx.run_harness(reqs)):
        if "r" not in a: ctx.violation("an iterator does not return", request=req, answer=a)
        elif len(a["r"][0][0]) != 3 or a["r"][0][0][2] != 0: ctx.violation("an iterator does not end, or goes on behind its end", request=req, answer=a)
        else: traces.append(dict(c=req["pipes"][0]["stages"], s=req["seqs"][0], o=a["r"][0][0][0], n=a["r"][0][0][1]))
    ctx.validate("TracePull", traces, "recorded runs of random chains", chunk=1000, invariants=["InvSame", "Accepted"])

    # splits of iterators on random sequences, with nested pipelines: the same as feeding the items to a split
    reqs = []
    for _ in range(ctx.pick(800, 6000)):
        st, k = pipes.chain(R, R.choice([0, 0, 1, 2]), pipes.LIB)
        p = pipes.fix(pipes.pipe(R, k, 1))
        reqs.append({"k": "pull", "pipes": [{"stages": st, "split": [R.choice(["mod2", "w", "rev"]), p]}], "seqs": [pipes.seq(R, 10, 4)]})
    for _ in range(ctx.pick(30, 300)):
        p = pipes.fix(pipes.pipe(R, "I", 1, R.choice([0, 1])))
        reqs.append({"k": "pull", "pipes": [{"stages": [], "split": [R.choice(["mod2", "w", "rev"]), p]}], "seqs": [pipes.long(R)]})
    traces = []
    for req, a in zip(reqs, ctx.run_harness(reqs)):
        x = req["pipes"][0]
        if "r" not in a: ctx.violation("a split does not return", request=req, answer=a)
        else: traces.append(dict(p={"stages": x["stages"], "end": ["split", x["split"][0], x["split"][1]]}, s=req["seqs"][0], r=a["r"][0][0]))
    ctx.validate("TraceStream", traces, "recorded splits of iterators", chunk=1000, invariants=["InvComposition", "Accepted"])
    # many thousand values: given, kept back, or dropped
    items = []
    while len(items) < ctx.pick(12, 120):
        st, k = pipes.chain(R, R.choice([1, 2, 3]), pipes.PULL)
        if pipes.settled(st): items.append(("c", {"stages": st}, pipes.big(R)))
    n = R.choice([65537, 70000])
    for st, s in (([["filter", "odd"]], [[0]] * n + [[1]]), ([["gaps"]], [[1]] * n), ([["hold", 9]], [[i % 5] for i in range(n)]),
                  ([["merge", "same", "w"]], pipes.distinct(R, 5000)), ([["filter", "odd"], ["groupby", "eq"]], [[0]] * n + [[1], [1]]),
                  ([["map", "inc"]], [[i % 300] for i in range(n)]), ([["groupbyfn", "always"], ["map", "w"]], [[i % 7] for i in range(n)])):
        items.append(("c", {"stages": st}, s))
    for e in (["split", "w", {"stages": [], "end": ["count"]}], ["split", "mod2", {"stages": [["groupby", "eq"]], "end": ["count"]}]):
        items.append(("s", {"stages": R.choice([[], [["map", "inc"]]]), "end": e}, pipes.big(R)))
    items.append(("s", {"stages": [], "end": ["split", "rev", {"stages": [["groupby", "always"]], "end": ["collect"]}]}, pipes.distinct(R, 5000)))
    pipes.ask_big(ctx, items, "recorded iterators on long sequences")
    return ctx.finish(assumptions=["stages are combined from the library of functions in Values.tla, and three stages of a user"])
