"""ripdlt completes every report on every file: Ripdlt.tla."""
from vf.rip import *
IDS = [b"\xff\xfe\x80\x81", b"\xc3\xa4\xc3", b"\0\0\0\0", b"\n\r\t\x1b", b"{}%s", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80A", b"A\xe2\x82B"]


def run(ctx):
    rn = Runner(ctx)
    try:
        T = ctx.thorough
        R = ctx.rng
        inv = ["InvExact", "InvTotal", "InvLeftOut", "Case"]
        ms = [ctx.bg_model("MCShort", label="MCShort, one", subst=dict(DLT, HTyps="LowTypes", Lens="LensAll"), invariants=inv, consts=dict(MaxRec=65551, Twice=False)),
              ctx.bg_model("MCShort", label="MCShort, more", subst=dict(DLT, HTyps="LowTypes", **({"Lens": "LensAll"} if T else {})), invariants=inv,
                           consts=dict(MaxRec=65551, Twice=True, **({} if T else {"Lens": {4, 7, 8, 11, 15, 17, 25}})))]
        lay = ctx.bg_model("MCDltScan", subst=dict(DLT, Pieces="AllPieces"), invariants=["Case"], consts=dict(MaxRec=65551, MaxPieces=ctx.pick(2, 3), Froms={0}))
        # arbitrary bytes, damaged messages, ids that are not text
        files = [b"", b"D", b"DLT\x01", b"\0" * 100, bytes(range(256))]
        files += [bytes(R.getrandbits(8) for _ in range(R.randrange(300))) for _ in range(ctx.pick(30, 300))]
        files += [gen.dlt(R, R.randrange(1, 9)) for _ in range(ctx.pick(120, 1500))]
        files += [b"".join(gen.message(R, ecu=R.choice(IDS), ecuid=R.choice(IDS), info=R.getrandbits(8)) for _ in range(R.randrange(1, 6))) for _ in range(ctx.pick(60, 500))]
        for b in repo_files():
            x = bytearray(b[:1500])
            for _ in range(30): x[R.randrange(len(x))] = R.getrandbits(8)
            files.append(bytes(x))
        spec = ctx.bg(specified, ctx, files)
        for i, f in enumerate(ms):
            cases = f.result().cases
            rn.compare("reports on files with short messages", [(c["b"], c["r"]) for c in cases])
            some = cases if T else [c for k, c in enumerate(cases) if k % 9 == 4]
            rn.compare("other reports on files with short messages", [(c["b"], None) for c in some], PAR + ["itertools"])
            ctx.sample(dict(file=bytes(cases[-1]["b"]).hex(), specified=cases[-1]["r"]))
        # every report completes, whatever the bytes are
        rn.compare("all reports on files of the specification", [(c["b"], None) for c in lay.result().cases if T or R.random() < 0.5], ALL)
        s = spec.result()
        rn.compare("reports on random files", list(zip(files, s)))
        rn.compare("other reports on random files", [(f, None) for f in files], PAR + ["itertools"])
        large = large_buffers(ctx) + [gen.MARK * 50000, (gen.storage(R) + b"\x3d\0\0\x07abc") * 20000, (gen.storage(R) + b"\x3d\0\xff\xff") * 20000,
                                      bytes(R.getrandbits(8) for _ in range(1000000)), gen.message(R, htyp=0x20, payload=b"H", secs=5, ecu=b"ECU1") * 30000 + b" World"]
        large += [b[:k] for b in repo_files() for k in (None, len(b) - 1, len(b) // 2)]
        rn.compare("all reports on large files", [(f, None) for f in large], ALL)
    finally:
        rn.close()
    return ctx.finish(assumptions=["reports complete within 60 s on files of a few MB"])
