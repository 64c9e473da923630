"""Invocations of the tools: Invoke.tla."""
from vf.rip import *
from vf.dd import DdRunner, events, headers, compose


def run(ctx):
    rn, dd = Runner(ctx), DdRunner(ctx)
    try:
        m = ctx.model("MCInvoke", consts=dict(Total=3), invariants=["InvNothing", "InvFails", "InvComplete", "InvUsage", "Case"], properties=["Ends"])
        setup(ctx, rn)
        # the end of an invocation is decided by its arguments, unless the output is lost
        ends = {}
        for c in m.cases:
            if not (c["exit"] == "failure" and usable(c["i"])): ends.setdefault(json.dumps(c["i"], sort_keys=True), set()).add((c["items"] > 0, c["usage"], c["exit"]))
        invocations(ctx, rn, dd, ends)
        lost(ctx, rn, dd)
    finally:
        rn.close()
        dd.close()
    return ctx.finish(assumptions=["what a call returned is what the preloaded library logged", "errors other than EBADF, which the standard library hides"])


def usable(i):
    if i["args"] == "few": return False
    if i["tool"] == "ripdlt": return (i["method"], i["report"], i["file"]) == ("known", "known", "readable")
    return i["size"] == "carried" and (i["input"] == "short" or (i["ecu"], i["app"]) == ("four", "four"))


def setup(ctx, rn):
    R = ctx.rng
    msgs = [gen.message(R, htyp=0x35, payload=b"Hello World %d" % k, secs=k) for k in range(20)]
    rn.good = rn.file(0, b"".join(msgs))
    rn.shim = build_shim()
    os.makedirs(os.path.join(rn.dir, "dir.dlt"))
    with open(os.path.join(rn.dir, "dir.dlt", "x.dlt"), "wb") as f: f.write(msgs[0])
    os.symlink(os.path.join(rn.dir, "nowhere"), os.path.join(rn.dir, "dangling.dlt"))
    os.symlink(os.path.join(rn.dir, "loop.dlt"), os.path.join(rn.dir, "loop.dlt"))
    rn.missing = [os.path.join(rn.dir, x) for x in ("none.dlt", "dangling.dlt", "loop.dlt", "f0.dlt/x", "x" * 300, "F0.dlt", "f0.dlt ")] + [""]


BADREPORTS = ["", "unknown", "Count", "coun", "counts", "count ", " count", "par_", "par_iter_", "histogram", "iter\t", "ITER", "--help", "mmap", "par-count", "par_histogram_hello_world", "0"]
BADMETHODS = ["", "unknown", "MMAP", "Read", "rea", "reads", "mmap ", "mmap,read", "-", "count", "map", "write"]
NOSIZES = ["", "x", "1x", " 1", "1 ", "1.0", "0x10", "-1", "1e2", "ten", "--", "\u0661", "1_0", "99999999999999999999"]
UNCARRIED = ["0", "65518", "65519", "65535", "65536", "131073", "4294967297", "00", "18446744073709551617"]
OTHERIDS = ["", "E", "ECU", "ECU12", "ECU1ECU1", "\u00e9\u00e9\u00e9", "a\u20acb", "\U0001f600x"]
FOURIDS = ["ECU1", "APID", "\u00e9\u00e9", "\U0001f600", "-abc", "    "]


def invocations(ctx, rn, dd, ends):
    R = ctx.rng
    jobs = []
    for key, end in sorted(ends.items()):
        i = json.loads(key)
        for _ in range(ctx.pick(12, 60) if i["tool"] == "ripdlt" else ctx.pick(16, 80)): jobs.append((i, end))
    # every unusable name at least once in an invocation that is usable otherwise
    base = dict(tool="ripdlt", args="all", method="known", report="known", file="readable")
    fail = {(False, False, "failure")}
    jobs += [(dict(base, report="unknown", use=["mmap", r, rn.good]), fail) for r in BADREPORTS + [r.upper() for r in ALL] + [r + "s" for r in ALL] + [r[:-1] for r in ALL if r[:-1] not in ALL]]
    jobs += [(dict(base, method="unknown", use=[m, r, rn.good]), fail) for m in BADMETHODS for r in ("count", "iter")]
    jobs += [(dict(base, file="missing", use=[m, r, p]), fail) for m in ("mmap", "read") for r in ("count", "par_count", "histogram_timestamp") for p in rn.missing + [os.path.join(rn.dir, "dir.dlt")]]
    dbase = dict(tool="dd_dlt", args="all", size="carried", ecu="four", app="four", input="chunks")
    jobs += [(dict(dbase, size="nonumber", use=["ECU1", "APID", s, b"abc" * 30000]), fail) for s in NOSIZES]
    jobs += [(dict(dbase, size="uncarried", use=["ECU1", "APID", s, b"abc" * 50000]), fail) for s in UNCARRIED]
    jobs += [(dict(dbase, ecu="other", use=[x, "APID", "3", b"abc"]), fail) for x in OTHERIDS] + [(dict(dbase, app="other", use=["ECU1", x, "3", b"abc"]), fail) for x in OTHERIDS]

    def call(cmd, data=b"", **env):
        e = dict(os.environ, RUST_BACKTRACE="0", **env)
        try:
            p = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
        except subprocess.TimeoutExpired:
            return "hang", b"", b""
        return p.returncode, p.stdout, p.stderr

    def job(j):
        i, end = j
        env, data = {}, b""
        if i["tool"] == "ripdlt":
            args = i.get("use") or [R.choice(["mmap", "read"]) if i["method"] == "known" else R.choice(BADMETHODS), R.choice(ALL) if i["report"] == "known" else R.choice(BADREPORTS),
                                    {"readable": rn.good, "missing": R.choice(rn.missing), "directory": os.path.join(rn.dir, "dir.dlt"), "broken": rn.good}[i["file"]]]
            if i["file"] == "broken":
                # it can be opened, but not read to its end
                env = dict(LD_PRELOAD=rn.shim, SHIM_PATH=rn.good, **(R.choice([dict(SHIM_OPEN="e13"), dict(SHIM_OPEN="e24"), dict(SHIM_MMAP="*e12")]) if args[0] == "mmap" else
                                                                    R.choice([dict(SHIM_OPEN="e13"), dict(SHIM_READ="e5"), dict(SHIM_READ="33,e5"), dict(SHIM_READ="*e21")])))
            cmd = [rn.exe] + args
        else:
            args = i.get("use")
            if args: args, data = args[:3], args[3]
            else:
                size = {"carried": R.choice(["1", "2", "7", "1000", "65517"]), "uncarried": R.choice(UNCARRIED), "nonumber": R.choice(NOSIZES)}[i["size"]]
                n = int(size) if i["size"] == "carried" else 3
                data = b"d" * (R.choice([n, n + 1, 3 * n]) if i["input"] == "chunks" else R.randrange(n))
                args = [R.choice(FOURIDS if i["ecu"] == "four" else OTHERIDS), R.choice(FOURIDS if i["app"] == "four" else OTHERIDS), size]
            cmd = [dd.exe] + args
        if i["args"] == "few": cmd = cmd[:R.randrange(1, 4)]
        rc, out, err = call(cmd, data, **env)
        result = bool(lines(out)) if i["tool"] == "ripdlt" else bool(out)
        shown = b"usage" in (out + err).lower() and i["args"] == "few"
        if i["args"] == "few" and i["tool"] == "ripdlt":
            # the explanation may be on either output; a report of the file would be part of a result
            result = any(re.search(rb"\d+ (messages|hello|raw|lifecycles)", l) for l in out.split(b"\n"))
        got = (result, shown, "success" if rc == 0 else "failure" if isinstance(rc, int) and rc > 0 else str(rc))
        if got not in end:
            ctx.violation("an invocation ends with %s, specified is %s" % (got, sorted(end)), command=[c[:80] for c in cmd], class_={k: v for k, v in i.items() if k != "use"}, input=len(data), env=env, stdout=out[:300].decode("utf-8", "replace"), stderr=err[-300:].decode("utf-8", "replace"))
        return cmd[1:], got
    rs = list(rn.pool.map(job, jobs))
    for r in rs[100:104]: ctx.sample(dict(arguments=[x[-60:] for x in r[0]], result=r[1][0], usage=r[1][1], exit=r[1][2]))
    ctx.validated += len(jobs)
    ctx.counts["invocations"] = len(jobs)


def lost(ctx, rn, dd):
    """A result that cannot be written is no success; what was written is the beginning of it."""
    R = ctx.rng
    whole = {}
    for r in ALL:
        rc, out, err = rn.run("mmap", r, rn.good, cores=1)      # parallel reports print in any order
        if rc != 0: ctx.violation("%s ends with %s" % (r, rc), stderr=err[-300:].decode("utf-8", "replace"))
        whole[r] = out
    jobs = [(r, ["-"] * k + [e]) for r in ALL for k in range(5) for e in R.sample(["e28", "e5", "e32", "e11"], ctx.pick(2, 4))]
    jobs += [(r, [R.choice(["1", "2", "i", "5", "-"]) for _ in range(R.randrange(8))] + R.choice([["e28"], [], ["*1"], ["*3"]])) for r in ALL for _ in range(ctx.pick(3, 20))]

    def job(k):
        r, script = jobs[k]
        log = os.path.join(rn.dir, "log%d" % k)
        rc, out, err = rn.run("mmap", r, rn.good, cores=1, env=dict(LD_PRELOAD=rn.shim, SHIM_OUT="1", SHIM_LOG=log, SHIM_WRITE=",".join(script)))
        ev = events(log)
        failed = any(e[0] == "write" and e[2] < 0 and e[3] != 4 for e in ev)
        where = dict(report=r, writes=script, exit=rc, output=out.decode("utf-8", "replace")[-300:], calls=len(ev))
        if not isinstance(rc, int) or rc < 0 or (rc == 0) == failed: ctx.violation("a report ends with %s, and %s" % (rc, "a write failed" if failed else "no write failed"), **where)
        elif not whole[r].startswith(out) or (rc == 0 and out != whole[r]): ctx.violation("output of a report is not its beginning", **where)
        return failed
    n = sum(rn.pool.map(job, range(len(jobs))))
    if n < len(ALL): raise ToolError("only %d lost outputs" % n)
    with open("/dev/full", "wb") as full:
        for r in ALL:
            p = subprocess.run([rn.exe, "mmap", r, rn.good], stdout=full, stderr=subprocess.DEVNULL, timeout=60)
            if p.returncode <= 0: ctx.violation("%s on a full device ends with %s" % (r, p.returncode))
    ctx.validated += len(jobs) + len(ALL)
    ctx.counts["outputs that are cut or lost"] = len(jobs) + len(ALL)
