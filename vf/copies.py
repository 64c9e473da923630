"""Buffers in which a block is repeated many times (Copies.tla): what is recorded for them has to be the same in all copies, and is
decided in the short buffer with two copies."""
from vf.common import *
from vf.wide import closed

MANY = [2, 3, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000]
MORE = [10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072]


class Copies:
    """b: the short buffer with copies at e - n and e; the second one is there k times in the long buffer."""
    def __init__(self, b, e, n, k):
        self.b, self.e, self.n, self.k = b, e, n, k
        self.add = (k - 1) * n
        self.long = len(b) + self.add

    def down(self, p):
        """A position of the long buffer, and how far it is moved."""
        e, n = self.e, self.n
        q = p if p <= e + n else p - self.add if p >= e + self.k * n else e + (p - e) % n
        return q, p - q

    def fold(self, items, move=None):
        """Items <<position, ..>>, ascending or descending, as those of the short buffer; None if copies differ."""
        move = move or (lambda x, d: [x[0] - d] + x[1:])
        e, n, k = self.e, self.n, self.k
        part = {}
        for x in items: part.setdefault(0 if x[0] < e else k + 1 if x[0] >= e + k * n else 1 + (x[0] - e) // n, []).append(x)
        first = [move(x, 0) for x in part.get(1, [])]
        for j in range(2, k + 1):
            if [move(x, (j - 1) * n) for x in part.get(j, [])] != first: return None
        if items not in (sorted(items), sorted(items, reverse=True)): return None
        out = part.get(0, []) + first + [move(x, self.add) for x in part.get(k + 1, [])]
        return sorted(out) if items == sorted(items) else sorted(out, reverse=True)


def join_free(t, parts):
    """No marker lies over a border."""
    m = gen.MARK if t == "dlt" else b"\1\2"
    at, s = 0, b"".join(parts)
    for p in parts[:-1]:
        at += len(p)
        if any(s[q:q + len(m)] == m for q in range(max(0, at - len(m) + 1), at)): return False
    return True


def make(R, t, k, piece=None):
    def seg(n):
        while True:
            s = piece(R, n) if piece else gen.dlt(R, n) if t == "dlt" else gen.mini(R, n * 3)
            if s and closed(t, s): return s
    while True:
        x = seg(R.choice([1, 1, 2, 3]))
        # blocks in which nothing, or nothing but damaged messages, can be read
        if R.random() < 0.25:
            x = R.choice([gen.storage(R) + bytes([32, 1, 0, R.choice([0, 1, 3])]), gen.message(R, htyp=3, length=9, payload=b""), b"\0", b"DL", gen.MARK[:3] + gen.storage(R) + b"\x20\1\0\2"]) \
                if t == "dlt" else R.choice([b"\1\2\0", b"\1\2\4", b"\0", b"\1\3", b"\1\2\1", b"\3"])
        a = seg(R.choice([1, 2])) if R.random() < 0.5 else b""
        z = (piece(R, 2) if piece else gen.dlt(R, 2) if t == "dlt" else gen.mini(R, 6)) if R.random() < 0.7 else b""
        if closed(t, x) and join_free(t, [a, x, x, z]): return Copies(a + x + x + z, len(a) + len(x), len(x), k)


def buffers(ctx, t, n, more, piece=None, most=10 ** 7):
    """n buffers with up to some thousand copies, and some with more."""
    R = ctx.rng
    out = [make(R, t, R.choice(MANY), piece) for _ in range(n)]
    while more > 0:
        c = make(R, t, R.choice(MORE), piece)
        if c.long > most: continue
        out.append(c)
        more -= 1
    return out


def ask(ctx, t, cs, ops, limit=60):
    """Answers to the operations ops(c) for every buffer; what does not return is a violation."""
    reqs = [dict(buf(t, c.b, ops(c)), copies=[c.e, c.n, c.k]) for c in cs]
    out = []
    for c, r, a in zip(cs, reqs, ctx.run_harness(reqs, limit=limit)):
        if "r" in a: out.append((c, r, a["r"]))
        elif "skipped" not in a: ctx.violation("many copies of a block: the code under test does not return", request=r, answer=a)
    return out


def differ_(ctx, what, req, items):
    ctx.violation("%s: copies of a block are not treated in the same way" % what, request=req, items=len(items), answer=items[:20])


def lemma(ctx, invariants, block=4):
    return [ctx.bg_model("MCCopies", label="MCCopies mini", subst=SUBST["mini"], invariants=invariants,
                         consts=dict(MaxRec=5, Alphabet={0, 1, 2, 3}, MaxPre=ctx.pick(0, 1), MaxBlock=block, MaxPost=2, MaxK=ctx.pick(3, 4), Pats={1, 4, 6}))]
