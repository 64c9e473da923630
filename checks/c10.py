"""groupby: Group.tla."""
from vf.common import *
from vf import pipes


def both(ctx, groups, what):
    """The same cases through the push-based pipeline and through both iterator stages."""
    push, pull = [], []
    for g in groups:
        r, seqs = g[0]["r"], [c["s"] for c in g]
        push.append(({"k": "stream", "pipes": [{"stages": [["groupby", r]], "end": ["collect"]}], "seqs": seqs}, g))
        for name in ("groupby", "groupbyfn"):
            pull.append(({"k": "pull", "pipes": [{"stages": [[name, r]], "split": []}], "seqs": seqs}, g))

    def check_push(req, g, got):
        for c, x in zip(g, got[0]):
            if x != c["o"]: return "relation %s, values %s: %s instead of %s" % (c["r"], c["s"], x, c["o"])

    def check_pull(req, g, got):
        for c, x in zip(g, got[0]):
            if [v[0] for v in x[0]] != c["o"]: return "relation %s, values %s: %s instead of %s" % (c["r"], c["s"], x[0], c["o"])
            if len(x) != 3 or x[2] != 0: return "relation %s, values %s: the iterator does not end" % (c["r"], c["s"])
    ctx.replay(push, check_push, what + ", push-based")
    ctx.replay(pull, check_pull, what + ", as iterator")
    ctx.validated += sum(len(g) - 1 for g in groups) * 3


RELS = ["ge", "gt", "eq", "succ", "near", "sumodd", "pos", "never", "always"]


def run(ctx):
    ctx.harness = build_harness()
    r = ctx.model("MCGroup", invariants=["InvGroup", "InvPartition", "Case"], properties=["Terminates"], workers=8,
                  consts=dict(Rels=set(RELS), SeqLen=ctx.pick(6, 8), Hi0=2))
    split = []
    for g in pipes.matrix(r.cases, lambda c: c["r"]): split += [g[i:i + 300] for i in range(0, len(g), 300)]
    both(ctx, split, "sequences of the specification")
    ctx.sample(r.cases[len(r.cases) // 2])

    traces, reqs = [], []
    for _ in range(ctx.pick(1500, 15000)):
        s = [[ctx.rng.randrange(ctx.rng.choice([2, 4, 9]))] for _ in range(ctx.rng.randrange(40))]
        rel = ctx.rng.choice(RELS)
        reqs.append(({"k": "stream", "pipes": [{"stages": [["groupby", rel]], "end": ["collect"]}], "seqs": [s]}, rel, s, 0))
        reqs.append(({"k": "pull", "pipes": [{"stages": [["groupby", rel]], "split": []}], "seqs": [s]}, rel, s, 1))
    # long sequences, with few and with many runs
    for _ in range(ctx.pick(60, 400)):
        n, hi = ctx.rng.choice([100, 260, 500]), ctx.rng.choice([2, 5, 300])
        s = [[ctx.rng.randrange(hi)] for _ in range(n)] if ctx.rng.random() < 0.6 else [[i // 2 if ctx.rng.random() < 0.98 else 0] for i in range(n)]
        rel = ctx.rng.choice(RELS)
        reqs.append(({"k": "stream", "pipes": [{"stages": [["groupby", rel]], "end": ["collect"]}], "seqs": [s]}, rel, s, 0))
        reqs.append(({"k": "pull", "pipes": [{"stages": [["groupby", rel]], "split": []}], "seqs": [s]}, rel, s, 1))
    for (req, rel, s, k), a in zip(reqs, ctx.run_harness([x[0] for x in reqs])):
        if "r" not in a: ctx.violation("groupby does not return", request=req, answer=a)
        else: traces.append(dict(r=rel, s=s, o=a["r"][0][0] if k == 0 else [v[0] for v in a["r"][0][0][0]]))
    ctx.validate("TraceGroup", traces, "recorded groupby of random sequences", chunk=1000)
    # many thousand values, of which a run has all, or a few
    items = []
    for _ in range(ctx.pick(6, 60)):
        rel, s = ctx.rng.choice(RELS), pipes.big(ctx.rng)
        items.append(("p", {"stages": [["groupby", rel]], "end": ["collect"]}, s))
        items.append(("c", {"stages": [[ctx.rng.choice(["groupby", "groupbyfn"]), rel]]}, s))
    for n in (65537, 70000):
        for rel, s in (("always", [[1]] * n), ("eq", [[i % 2] for i in range(n)]), ("succ", [[i] for i in range(n)])):
            k = ctx.rng.random() < 0.5
            items.append(("p", {"stages": [["groupby", rel]], "end": ["collect"]}, s) if k else ("c", {"stages": [["groupbyfn", rel]]}, s))
    pipes.ask_big(ctx, items, "recorded groupby of long sequences")
    return ctx.finish(assumptions=["relations are functions of two values"])
