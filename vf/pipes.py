"""Pipelines and values for the checks of streams; random ones use the typed library of MCPush.tla."""

LIB = {"I": [(["filter", "odd"], "I"), (["filter", "ne0"], "I"), (["filter", "lt3"], "I"), (["map", "inc"], "I"), (["map", "mod2"], "I"), (["map", "dup"], "P"), (["map", "to3"], "P"),
             (["groupby", "ge"], "P"), (["groupby", "succ"], "P"), (["groupby", "sumodd"], "P"), (["groupby", "pos"], "P"), (["groupby", "never"], "P"), (["groupby", "always"], "P"),
             (["groupby", "eq"], "P"), (["merge", "same", "rev"], "I"), (["merge", "same", "w"], "I"), (["merge", "parity", "w"], "I")],
       "P": [(["filter", "lt3"], "P"), (["filter", "odd"], "P"), (["map", "w"], "I"), (["map", "snd"], "I"), (["map", "fst"], "I"), (["groupby", "gt"], "Q"), (["groupby", "near"], "Q"),
             (["groupby", "ge"], "Q"), (["merge", "union", "iv"], "P"), (["merge", "touch", "iv"], "P")],
       "Q": [(["map", "fst"], "P"), (["map", "snd"], "P"), (["map", "w"], "I"), (["filter", "ne0"], "Q")]}
PULL = {"I": LIB["I"] + [(["groupbyfn", "ge"], "P"), (["groupbyfn", "sumodd"], "P"), (["hold", 4], "I"), (["hold", 1], "I"), (["pass", 3], "I"), (["gaps"], "I"), (["gaps"], "I")],
        "P": LIB["P"] + [(["groupbyfn", "near"], "Q"), (["hold", 9], "P"), (["pass", 7], "P"), (["gaps"], "P")],
        "Q": LIB["Q"] + [(["gaps"], "Q")]}


def chain(rng, n, lib, kind="I"):
    out = []
    for _ in range(n):
        s, kind = rng.choice(lib[kind])
        out.append(s)
    return out, kind


def end(rng, kind, depth, empty=False):
    k = rng.random()
    if depth > 0 and k < 0.25: return ["fork", pipe(rng, kind, depth - 1), pipe(rng, kind, depth - 1)]
    if depth > 0 and k < 0.5: return ["split", rng.choice(["mod2", "w", "rev"]), pipe(rng, kind, depth - 1)]
    if k < 0.6 and kind == "I": return ["sum"]
    if k < 0.75: return ["count"]
    return ["fold"] if empty or k < 0.85 else ["collect"]


def pipe(rng, kind="I", depth=2, n=None):
    st, k = chain(rng, rng.randrange(4) if n is None else n, LIB, kind)
    return {"stages": st, "end": end(rng, k, depth, not st)}


def fix(p):
    """A pipeline that ends in sum takes it behind a stage that gives values, not behind a groupby."""
    e = p["end"]
    if e[0] == "sum" and p["stages"] and p["stages"][-1][0] == "groupby": p["end"] = ["count"]
    for x in e[1:]:
        if isinstance(x, dict): fix(x)
    return p


def seq(rng, n, hi):
    return [[rng.randrange(hi + 1)] for _ in range(rng.randrange(n + 1))]


def matrix(cases, key):
    """Groups cases with the same pipeline into one request each."""
    import json
    g = {}
    for c in cases: g.setdefault(json.dumps(key(c)), []).append(c)
    return list(g.values())


def long(rng):
    """A long sequence, of few or many values."""
    n, hi = rng.choice([70, 130, 260]), rng.choice([3, 20, 200])
    return [[rng.randrange(hi + 1)] for _ in range(n)] if rng.random() < 0.7 else [[i * hi // n] for i in range(n)]


def settled(stages):
    """Intervals are merged only where none is empty, so that the order does not matter (LMerge in Large.tla)."""
    for i, g in enumerate(stages):
        if g[0] != "merge" or g[1] not in ("union", "touch"): continue
        j = i - 1
        while j >= 0 and stages[j][0] in ("filter", "gaps", "hold", "pass"): j -= 1
        if j < 0: continue
        if stages[j] not in (["map", "dup"], ["map", "to3"]) and not (stages[j][0] in ("groupby", "groupbyfn") and stages[j][1] in ("ge", "eq", "succ") and not any(
                x[0] in ("groupby", "groupbyfn") or x[1:] in (["dup"], ["to3"]) for x in stages[:j])) and stages[j][0] != "merge": return False
    return True


def easy(p):
    return settled(p["stages"]) and all(easy(x) for x in p["end"][1:] if isinstance(x, dict))


LENGTHS = [1000, 1024, 2000, 4097, 5000, 10000, 32768, 65535, 65536, 65537, 66000, 70000, 100000]


def big(rng, n=None):
    """Many thousand values: few or many different ones, long runs, or runs of two; every part of the code sees the number."""
    n = n or rng.choice(LENGTHS)
    hi = rng.choice([2, 4, 30, 300, 1000])
    k = rng.random()
    if k < 0.3: return [[rng.randrange(hi)] for _ in range(n)]
    if k < 0.5: return [[i * hi // n] for i in range(n)]                     # long runs of equal values
    if k < 0.65:                                                             # the same value, but for the ends
        a, b = rng.randrange(hi), rng.randrange(hi)
        m = rng.choice([0, 1, 2, 5])
        return [[b]] * m + [[a]] * (n - m) + [[b]] * rng.choice([0, 1])
    if k < 0.8: return [[i % hi] for i in range(n)]
    out = []
    while len(out) < n: out += [[rng.randrange(hi)]] * rng.choice([1, 1, 2, 3, 255, 256, 1000])
    return out


def distinct(rng, n):
    """Values of which no two are equal."""
    s = list(range(n))
    if rng.random() < 0.5: rng.shuffle(s)
    elif rng.random() < 0.5: s.reverse()
    return [[x] for x in s]


def ask_big(ctx, items, what):
    """Pipelines <<"p", pipeline, values>>, splits of iterators <<"s", pipeline, values>> and chains on iterators
    <<"c", stages, values>> on long sequences."""
    reqs, traces = [], []
    for k, p, s in items:
        reqs.append({"k": "stream", "pipes": [p], "seqs": [s]} if k == "p" else
                    {"k": "pull", "pipes": [{"stages": p["stages"], "split": p["end"][1:] if k == "s" else []}], "seqs": [s]})
    for (k, p, s), req, a in zip(items, reqs, ctx.run_harness(reqs, limit=60)):
        if "r" not in a:
            ctx.violation("a pipeline does not return", request=req, answer=a)
            continue
        x = a["r"][0][0]
        if k in "ps": traces.append(dict(p=p, s=s, r=x))
        elif len(x) != 3 or x[2] != 0: ctx.violation("an iterator does not end, or goes on behind its end", request=req, answer=str(x)[:500])
        else: traces.append(dict(c=p["stages"], s=s, o=x[0], n=x[1]))
    ctx.validate("TraceLarge", traces, what, chunk=ctx.pick(3, 10))
