"""Runs ripdlt, and compares its reports with those of Ripdlt.tla."""
import re, shutil, tempfile
from collections import Counter
from vf.common import *

TYPES = {"LogFatal": "DltTypeLog(DltLogFatal)", "LogError": "DltTypeLog(DltLogDltError)", "LogWarn": "DltTypeLog(DltLogWarn)", "LogInfo": "DltTypeLog(DltLogInfo)",
         "LogDebug": "DltTypeLog(DltLogDebug)", "LogVerbose": "DltTypeLog(DltLogVerbose)", "TraceVariable": "DltTypeAppTrace(DltTraceVariable)",
         "TraceFunctionIn": "DltTypeAppTrace(DltTraceFunctionIn)", "TraceFunctionOut": "DltTypeAppTrace(DltTraceFunctionOut)", "TraceState": "DltTypeAppTrace(DltTraceState)",
         "TraceVfb": "DltTypeAppTrace(DltTraceVfb)", "NwIpc": "DltTypeNwTrace(DltNwTraceIpc)", "NwCan": "DltTypeNwTrace(DltNwTraceCan)", "NwFlexray": "DltTypeNwTrace(DltNwTraceFlexray)",
         "NwMost": "DltTypeNwTrace(DltNwTraceMost)", "NwEthernet": "DltTypeNwTrace(DltNwTraceEthernet)", "NwSomeip": "DltTypeNwTrace(DltNwTraceSomeip)",
         "ControlRequest": "DltTypeControl(DltControlRequest)", "ControlResponse": "DltTypeControl(DltControlResponse)"}
SEQ = ["count", "count_hello_world", "count_hello_world_raw", "count_hello_world_grepit", "histogram_hello_world", "histogram_lifecycles", "split_lifecycles",
       "split_timestamp", "histogram_timestamp", "histogram_message_type", "histogram_payload_size", "histogram_message_size", "iter", "itertools"]
PAR = ["par_count", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit", "par_iter", "par_split_timestamp", "par_histogram_timestamp"]
ALL = SEQ + PAR


def num(p): return p[0] * 65536 + p[1]


def debug_map(pairs): return "{" + ", ".join("%d: %d" % tuple(p) for p in sorted(pairs)) + "}"


def sizes(pairs, unit):
    lines, total = [], 0
    for k, v in pairs:
        lines.append("%db: %d, overall: %d kB" % (k, v, k * v // 1024))
        total += k * v
    return lines + ["%s in total: %d kB" % (unit, total // 1024)]


def name(ecu): return bytes(ecu).decode("utf-8", "replace")


def expected(r, report, shift=0):
    """The lines of a report, in any order; None if it is not specified for the file."""
    if report == "count": return ["%d messages" % r["count"]]
    if report == "count_hello_world": return ["%d hello world messages" % r["hello"]]
    if report == "count_hello_world_raw": return ["%d raw hello world matches" % r["raw"]]
    if report == "count_hello_world_grepit": return ["%d hello world messages" % len(r["hits"][0])] if r["hits"] else None
    if report == "histogram_hello_world":
        if not r["hits"]: return None
        c = Counter(h[0] // 100000000 for h in r["hits"][0])
        return ["Offset %dM-%dM: %d" % (k * 100, (k + 1) * 100, v) for k, v in c.items()]
    if report == "histogram_lifecycles": return ["%d-%d secs: %d" % (k, k + 1, v) for k, v in r["byIds"]]
    if report == "histogram_timestamp": return ["%d-%d secs: %d" % (num(k), num(k) + 1, v) for k, v in r["spans"]]
    if report == "split_lifecycles": return ["%s #lifecycles: (%s, %d)" % (name(e), debug_map(m), n) for e, m, n in r["lifeEcus"]]
    if report == "split_timestamp": return ["%s #lifecycles: (%s, %d)" % (name(e), debug_map([(num(k), v) for k, v in m]), n) for e, m, n in r["secsEcus"]]
    if report == "histogram_message_type":
        return ["(%s, %s): %d" % ("true" if k[0] else "false", "Some(%s)" % TYPES[k[1][0]] if k[1] else "None", v) for k, v in r["types"]]
    if report == "histogram_payload_size": return sizes(r["pays"], "Payload")
    if report == "histogram_message_size": return sizes(r["sizes"], "DLT messages")
    if report in ("iter", "itertools"): return ["%d lifecycles >= 1800s" % r["long"]]
    raise KeyError(report)


# the first line repeats the command line, other titles are free text
TITLE = re.compile(r"^(Distribution of .*:|Durations of periods .*:|\(verbose, message type\): # dlt messages)$")


def lines(out):
    return [l for l in out.decode("utf-8", "surrogateescape").split("\n")[1:] if l and not TITLE.match(l)]


class Runner:
    """A scratch directory with files, and the processes that read them."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe, self.dd = build_cli()
        self.dir = tempfile.mkdtemp(prefix="rip-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.pool = ThreadPoolExecutor(CORES + 2)

    def disk(self):
        """A directory for sparse files, which are mapped."""
        if not hasattr(self, "sparse"): self.sparse = tempfile.mkdtemp(prefix="rip-")
        return self.sparse

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if hasattr(self, "sparse"): shutil.rmtree(self.sparse, ignore_errors=True)

    def file(self, i, b):
        path = os.path.join(self.dir, "f%d.dlt" % i)
        with open(path, "wb") as f: f.write(bytes(b))
        return path

    def run(self, method, report, path, env=None, cores=None, limit=60):
        e = dict(os.environ, RUST_BACKTRACE="0")
        e.update(env or {})
        cmd = [self.exe, method, report, path]
        if cores: cmd = ["taskset", "-c", "0-%d" % (cores - 1)] + cmd
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=limit)
        except subprocess.TimeoutExpired:
            return "hang", b"", b""
        return p.returncode, p.stdout, p.stderr

    def compare(self, what, files, reports=SEQ, methods=("mmap", "read")):
        """files: list of (bytes, reports of the specification, both)."""
        jobs = []
        for i, (b, r) in enumerate(files):
            path = self.file(i, b)
            for k, rep in enumerate(reports):
                # each report with each method for some files, with one of them for all
                ms = methods if len(methods) < 2 or (i + k) % 8 == 0 or len(files) < 150 else (methods[(i + k) % len(methods)],)
                jobs += [(i, path, rep, m) for m in ms]
        bad = [0]

        def job(j):
            i, path, rep, m = j
            if bad[0] > 20: return
            rc, out, err = self.run(m, rep, path)
            where = dict(file=bytes(files[i][0]).hex(), report=rep, method=m)
            if rc != 0:
                bad[0] += 1
                self.ctx.violation("%s: %s ends with %s" % (what, rep, rc), stderr=err.decode("utf-8", "replace")[-500:], **where)
                return
            if files[i][1] is None or rep not in SEQ: return
            exp = expected(files[i][1], rep)
            if exp is None: return
            got = lines(out)
            exp = [l for l in "\n".join(exp).split("\n") if l]       # an id may contain a line feed
            if sorted(got) != sorted(exp):
                bad[0] += 1
                self.ctx.violation("%s: %s differs" % (what, rep), expected=sorted(exp)[:20], answer=sorted(got)[:20], **where)
        list(self.pool.map(job, jobs))
        with self.ctx.lock:
            self.ctx.validated += len(jobs)
            self.ctx.counts[what] = self.ctx.counts.get(what, 0) + len(jobs)


def specified(ctx, files, label="files", many=False):
    """The reports of the specification for the given files (bytes); many: files with many messages."""
    out = [None] * len(files)
    size = 1 if many else 150

    def part(base):
        os.makedirs(os.path.join(BUILD, "traces"), exist_ok=True)
        path = os.path.join(BUILD, "traces", "%s-files-%d-%d-%d.json" % (ctx.prop, os.getpid(), size, base))
        with open(path, "w") as f: json.dump([{"b": list(b)} for b in files[base:base + size]], f)
        r = ctx.model("FileLarge" if many else "FileReports", label="FileReports (%d %s)" % (len(files[base:base + size]), label), subst=DLT, consts=dict(MaxRec=65551),
                      invariants=["InvTotal", "Case"], workers=1 if many else 2, env={"TRACES": path}, view="Where" if many else None)
        for c in r.cases: out[base + c["t"] - 1] = c["r"]
        os.unlink(path)
    list(ThreadPoolExecutor(4).map(part, range(0, len(files), size)))
    missing = [i for i, r in enumerate(out) if r is None]
    if missing: raise ToolError("no reports for files %s" % missing[:5])
    return out
