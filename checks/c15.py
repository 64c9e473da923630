"""Building headers and message types, and reading them back: MCHeaders.tla."""
from vf.common import *


def run(ctx):
    ctx.harness = build_harness()
    r = ctx.model("MCHeaders", invariants=["InvRoundtrip", "InvInjective", "Case"], consts=dict(Full=True), workers=8)
    cases = [({"k": "hdr", "op": c["c"]["op"], "a": c["c"]}, c["e"]) for c in r.cases]
    ctx.replay(cases, differ, "headers of the specification")
    for i in (0, len(cases) // 2, len(cases) - 1): ctx.sample(dict(request=cases[i][0], specified=cases[i][1]))

    # built and read back with random values
    traces, reqs, R = [], [], ctx.rng
    u32 = lambda: [R.getrandbits(16), R.getrandbits(16)]
    ids = lambda: [R.getrandbits(8) for _ in range(4)]
    types = sorted({c["c"]["type"] for c in r.cases if "type" in c["c"]})
    for _ in range(ctx.pick(4000, 40000)):
        op = R.choice(["mkstd", "mksto", "mkext"])
        if op == "mkstd": a = dict(flags=[R.random() < 0.5 for _ in range(5)], version=R.randrange(8), counter=R.getrandbits(8), length=R.getrandbits(16))
        elif op == "mksto": a = dict(pattern=ids(), secs=u32(), usecs=u32(), ecu=ids())
        else: a = dict(verbose=R.random() < 0.5, type=R.choice(types), noar=R.getrandbits(8), apid=ids(), ctid=ids())
        reqs.append({"k": "hdr", "op": op, "a": dict(a, op=op)})
    for req, a in zip(reqs, ctx.run_harness(reqs)):
        if "r" not in a: ctx.violation("building a header does not return", request=req, answer=a)
        else: traces.append(dict(c=req["a"], e=a["r"]))
    ctx.validate("TraceHeaders", traces, "recorded headers with random values", chunk=1000)
    return ctx.finish(exhaustive=True, assumptions=["the values of 16 and 32 bit fields are sampled; flags, versions, types and bytes are exhaustive"])
