"""Parts that several checks use."""
import os
from .core import *
from . import gen

MINI = {"Marker": "MiniMarker", "RecLen": "MiniLen"}
TICK = {"Marker": "TickMarker", "RecLen": "TickLen"}
DLT = {"Marker": "DltMarker", "RecLen": "DltLen"}
TRIO = {"Marker": "TrioMarker", "RecLen": "TrioLen"}
WORD = {"Marker": "WordMarker", "RecLen": "WordLen"}
MAXREC = {"mini": 5, "tick": 3, "dlt": 65551, "trio": 6, "word": 209}
SUBST = {"mini": MINI, "tick": TICK, "dlt": DLT, "trio": TRIO, "word": WORD}


def buf(t, b, ops):
    return {"k": "buf", "t": t, "b": bytes(b).hex(), "ops": ops}


def differ(req, exp, got):
    """None if all operations gave what is expected."""
    if got == exp: return None
    if isinstance(exp, list) and isinstance(got, list) and len(exp) == len(got) and "ops" in req:
        i = [i for i in range(len(exp)) if exp[i] != got[i]][0]
        return "%s gives %s, specified is %s" % (req["ops"][i], str(got[i])[:300], str(exp[i])[:300])
    return "%s instead of %s" % (str(got)[:300], str(exp)[:300])


def repo_files():
    """The recorded DLT files of the repository."""
    d = os.path.join(REPO, "test")
    return [open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if f.endswith(".dlt")]


def random_buffers(ctx, t, n):
    r = ctx.rng
    out = []
    for i in range(n):
        if t == "dlt": out.append(gen.dlt(r, r.choice([1, 2, 3, 5, 8, 12])))
        elif t == "mini": out.append(gen.mini(r, r.choice([3, 7, 12, 20, 40, 80])))
        elif t == "trio": out.append(gen.trio(r, r.choice([3, 7, 12, 20, 40, 80])))
        elif t == "word": out.append(gen.word(r, r.choice([1, 2, 4, 8, 12])))
        else: out.append(bytes(r.choice([0, 1, 1, 2, 3]) for _ in range(r.randrange(40))))
    return out


def large_buffers(ctx):
    """Messages of the largest sizes, complete and cut."""
    r = ctx.rng
    def big(n): return gen.message(r, htyp=0x20, payload=bytes((i * 7) % 251 for i in range(n - 4)))
    tail = gen.message(r, htyp=0x20, payload=b"x")
    return [b"\0" + big(65535) + tail, big(65535)[:-1] + tail[:3], big(32768) + tail, tail + big(33000) + b"DLT" + tail]
