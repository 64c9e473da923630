"""Buffers with long runs of zeros (Stretch.tla): what is recorded for them, up to several GiB long, is moved to the short
buffer without the runs, and decided there."""
from vf.common import *

LENGTHS = [1, 2, 3, 15, 16, 31, 63, 64, 255, 256, 4095, 4096, 16384, 65519, 65534, 65535, 65536, 65547, 65550, 65551, 65552, 65555, 65600, 131071, 131072, 200000, 1000000]


def closed(t, s):
    """Nothing in s needs bytes from behind it."""
    if t == "mini":
        return all(p + 3 <= len(s) and (not 1 <= s[p + 2] <= 3 or p + 2 + s[p + 2] <= len(s)) for p in range(len(s)) if s[p:p + 2] == b"\1\2") and s[-1:] != b"\1"
    for p in range(len(s)):
        if s[p:p + 4] == gen.MARK:
            if p + 20 > len(s): return False
            n = s[p + 18] * 256 + s[p + 19]
            if n >= 4 and p + 16 + n > len(s): return False
    return True


class Wide:
    """A short buffer b, and the long one with gaps (position in b, length)."""
    def __init__(self, b, gaps):
        self.b, self.gaps = b, gaps
        self.long = len(b) + sum(n for _, n in gaps)

    def up(self, p):
        return p + sum(n for g, n in self.gaps if g < p)

    def down(self, p):
        for g, n in self.gaps:
            if p <= g: return p
            if p <= g + n: return g
            p -= n
        return p

    def offset(self, R):
        """Any offset in the long buffer, more often where something is."""
        k = R.random()
        if k < 0.6 or not self.gaps: return self.up(R.randrange(len(self.b) + 1))
        g, n = R.choice(self.gaps)
        s = self.up(g)
        return R.choice([s, s + 1, s + n, s + n - 1, s + R.randrange(n + 1), s + min(n, R.choice(LENGTHS))])


def make(R, t, target=0, piece=None):
    """With a target: messages lie around this position of the long buffer."""
    def seg():
        while True:
            s = piece(R) if piece else gen.dlt(R, R.choice([1, 2, 3])) if t == "dlt" else gen.mini(R, R.randrange(2, 9))
            if s and closed(t, s): return s
    k = R.choice([2, 2, 3, 4])
    b, gaps, total = b"", [], 0
    for i in range(k - 1):
        b += seg()
        gaps.append([len(b), R.choice(LENGTHS)])
        b += b"\0" * R.choice([1, 1, 2, 5])
    last = seg() if R.random() < 0.5 else (piece(R) if piece else gen.dlt(R, 3) if t == "dlt" else gen.mini(R, 8))
    if target:
        w = Wide(b, gaps)
        i = R.randrange(len(gaps))
        # the segment behind gap i starts a little before the target, or at or behind it
        gaps[i][1] = max(1, target - R.choice([0, 1, 4, 10, 16, 19, 20, 25, len(last) // 2, -1, -5]) - (w.up(gaps[i][0]) + 1) - sum(1 for _ in range(1)))
    return Wide(b + last, [tuple(g) for g in gaps])


def buffers(ctx, t, n, huge, piece=None):
    """n buffers, and `huge` of more than 2 or 4 GiB."""
    R = ctx.rng
    return [make(R, t, piece=piece) for _ in range(n)] + [make(R, t, R.choice([2 ** 31, 2 ** 32]), piece) for _ in range(huge)]


def ask(ctx, t, ws, ops, limit=120):
    """Answers to the operations ops(w) for every buffer; what does not return is a violation."""
    reqs = [dict(buf(t, w.b, ops(w)), gaps=w.gaps) for w in ws]
    out = [None] * len(ws)
    for ids, procs in (([i for i, w in enumerate(ws) if w.long < 2 ** 30], None), ([i for i, w in enumerate(ws) if w.long >= 2 ** 30], 4)):
        for i, a in zip(ids, ctx.run_harness([reqs[i] for i in ids], limit=limit, procs=procs) if ids else []):
            if "r" in a: out[i] = a["r"]
            elif "skipped" not in a: ctx.violation("a long buffer: the code under test does not return", request=reqs[i], answer=a)
    return [(w, r, a) for w, r, a in zip(ws, reqs, out) if a is not None]


def moved(ctx, w, req, ms, what="message"):
    """Recorded <<position, ..>> in the short buffer."""
    for m in ms:
        if w.up(w.down(m[0])) != m[0]: ctx.violation("a %s at %d, in a run of zeros" % (what, m[0]), request=req, answer=m)
    return [[w.down(m[0])] + m[1:] for m in ms]


def lemma(ctx, invariants, n=5):
    k = dict(MinN=1, MaxN=ctx.pick(n, n + 1), MaxK=3, Pats={1, 4, 6})
    return [ctx.bg_model("MCStretch", label="MCStretch " + t, subst=SUBST[t], consts=dict(k, MaxRec=MAXREC[t], Alphabet={0, 1, 2, 3}), invariants=invariants) for t in ("mini",)]
