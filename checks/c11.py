"""merge: Merge.tla, MergeArrival.tla."""
from vf.common import *
from vf import pipes


def run(ctx):
    ctx.harness = build_harness()
    inv = ["InvCovers", "InvHulls", "InvDistinct", "InvOrderFree", "Case"]
    n = ctx.pick(4, 5)
    m = [ctx.bg_model("MCMerge", label="MCMerge, intervals", subst=dict(Crits="IntervalCrits"), invariants=inv, heap="8g", consts=dict(Dom="intervals", Hi0=ctx.pick(3, 3), SeqLen=ctx.pick(3, 4))),
         ctx.bg_model("MCMerge", label="MCMerge, numbers", subst=dict(Crits="NumberCrits"), invariants=inv, heap="8g", consts=dict(Dom="numbers", Hi0=4, SeqLen=n))]
    a = [ctx.bg_model("MCMergeArrival", label="MCMergeArrival, intervals", subst=dict(Crits="IntervalCrits"), invariants=["EndsSettled", "StoredSettled"],
                      properties=["Refines", "Ends"], consts=dict(Dom="intervals", Hi0=3, SeqLen=3)),
         ctx.bg_model("MCMergeArrival", label="MCMergeArrival, numbers", subst=dict(Crits="NumberCrits"), invariants=["EndsSettled", "StoredSettled"],
                      properties=["Refines", "Ends"], consts=dict(Dom="numbers", Hi0=4, SeqLen=n))]
    for f in m:
        # several results are admissible if the order matters
        adm = {}
        for c in f.result().cases: adm.setdefault(json.dumps([c["c"], c["s"]]), []).append(c["out"])
        cases = [json.loads(k) + [v] for k, v in adm.items()]
        groups = []
        for g in pipes.matrix(cases, lambda c: c[0]): groups += [g[i:i + 300] for i in range(0, len(g), 300)]
        push = [({"k": "stream", "pipes": [{"stages": [["merge"] + g[0][0]], "end": ["collect"]}], "seqs": [c[1] for c in g]}, g) for g in groups]
        pull = [({"k": "pull", "pipes": [{"stages": [["merge"] + g[0][0]], "split": []}], "seqs": [c[1] for c in g]}, g) for g in groups]

        def check_push(req, g, got):
            for c, x in zip(g, got[0]):
                if x not in c[2]: return "%s of %s: %s instead of one of %s" % (c[0], c[1], x, c[2])

        def check_pull(req, g, got):
            for c, x in zip(g, got[0]):
                if [v[0] for v in x[0]] not in c[2]: return "%s of %s: %s instead of one of %s" % (c[0], c[1], x, c[2])
                if len(x) != 3 or x[2] != 0: return "%s of %s: the iterator does not end" % (c[0], c[1])
        ctx.replay(push, check_push, "sequences of the specification, push-based")
        ctx.replay(pull, check_pull, "sequences of the specification, as iterator")
        ctx.validated += 2 * (len(cases) - len(groups))
        ctx.sample(dict(criterion=cases[-1][0], values=cases[-1][1], admissible=cases[-1][2]))
    for f in a: f.result()

    R = ctx.rng
    reqs = []
    for _ in range(ctx.pick(1500, 12000)):
        k = R.random()
        if k < 0.7:
            c = R.choice([["union", "iv"], ["touch", "iv"]])
            hi = R.choice([6, 20, 60])
            s = []
            for _ in range(R.randrange(13)):
                lo = R.randrange(hi)
                s.append([[lo], [lo + R.choice([0, 1, 2, R.randrange(8)])]])
        elif k < 0.9:
            c = R.choice([["same", "w"], ["same", "rev"], ["parity", "w"], ["parity", "mod2"]])
            s = [[R.randrange(9)] for _ in range(R.randrange(14))]
        else:
            c = R.choice([["near", "w"], ["near", "rev"]])
            s = [[R.randrange(8)] for _ in range(R.randrange(6))]
        reqs.append(({"k": "stream", "pipes": [{"stages": [["merge"] + c], "end": ["collect"]}], "seqs": [s]}, c, s, 0))
        reqs.append(({"k": "pull", "pipes": [{"stages": [["merge"] + c], "split": []}], "seqs": [s]}, c, s, 1))
    # many values that stay apart
    for _ in range(ctx.pick(60, 500)):
        n = R.choice([20, 40, 70, 140])
        if R.random() < 0.6:
            c = R.choice([["union", "iv"], ["touch", "iv"]])
            lo = [R.randrange(5 * n) for _ in range(n)] if R.random() < 0.5 else R.sample(range(0, 4 * n, 4), n)
            s = [[[x], [x + R.choice([0, 0, 1, 2, 2, R.choice([1, 9])])]] for x in lo]
        else:
            c = R.choice([["same", "w"], ["same", "rev"]])
            s = [[x] for x in R.sample(range(2 * n), n)] + [[R.randrange(2 * n)] for _ in range(5)]
        reqs.append(({"k": "stream", "pipes": [{"stages": [["merge"] + c], "end": ["collect"]}], "seqs": [s]}, c, s, 0))
        reqs.append(({"k": "pull", "pipes": [{"stages": [["merge"] + c], "split": []}], "seqs": [s]}, c, s, 1))
    traces = []
    for (req, c, s, k), x in zip(reqs, ctx.run_harness([x[0] for x in reqs])):
        if "r" not in x: ctx.violation("merge does not return", request=req, answer=x)
        else: traces.append(dict(c=c, s=s, o=x["r"][0][0] if k == 0 else [v[0] for v in x["r"][0][0][0]]))
    ctx.validate("TraceMerge", traces, "recorded merges of random sequences", chunk=500)
    # thousands of values that stay apart, or that are merged all together
    items = []
    for _ in range(ctx.pick(10, 80)):
        n = R.choice([1000, 1025, 2000, 4097, 5000])
        k = R.random()
        if k < 0.3: c, s = R.choice([["same", "w"], ["same", "rev"]]), pipes.distinct(R, n)
        elif k < 0.5: c, s = R.choice([["same", "w"], ["same", "rev"], ["parity", "w"], ["parity", "mod2"]]), pipes.big(R, R.choice([5000, 66000]))
        else:
            c, w = R.choice([["union", "iv"], ["touch", "iv"]]), R.choice([1, 2, 3, 5])
            lo = [x[0] * w for x in pipes.distinct(R, n)]
            s = [[[x], [x + R.choice([0, 0, 1, 2, w, R.choice([1, 9, 3 * n if R.random() < 0.01 else 0])])]] for x in lo]
        items.append(("p", {"stages": [["merge"] + c], "end": ["collect"]}, s) if R.random() < 0.5 else ("c", {"stages": [["merge"] + c]}, s))
    # in the end, one that all others are part of
    n = R.choice([300, 1100, 2100])
    for at in (0, n // 2, n):
        s = [[[4 * i], [4 * i + 1]] for i in range(n)]
        items.append(("p", {"stages": [["merge", "union", "iv"]], "end": ["collect"]}, s[:at] + [[[0], [4 * n]]] + s[at:]))
    pipes.ask_big(ctx, items, "recorded merges of long sequences")
    return ctx.finish(assumptions=["criteria are symmetric; keys tell values apart that cannot be merged"])
