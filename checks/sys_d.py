"""C32: the collector's log, decided by GcLog (of which ClaraGc, the model of the collector, is an implementation)."""
import json, os, random, re
from clara import *
from common import *
from core import *
from gen import *
from lib_a import heap_files

ICONS = {"\u2705": "new", "\U0001f197": "again", "\U0001f510": "ro", "\U0001f9ef": "ro"}


SEG = re.compile("\u2500{20,} GC \n(?P<gc>.*?)\n\u2500{20,}\n|\U0001f6a7\n(?P<al>[^\n]*)\n\u2500{20,} MALLOC \n", re.S)


def parse_log(o):
    """-> (output of the program, events).  The collector runs no other code: what stands between its rules is all its own"""
    ev, keep, at = [], [], 0
    t = o.decode("utf-8", "surrogateescape")
    for m in SEG.finditer(t):
        keep.append(t[at:m.start()])
        at = m.end()
        if m.group("al") is not None:
            x = re.match(r" - .* \(Id=\d+, Size=\d+, Addr=0x([0-9a-f]+)\)$", m.group("al"))
            ev.append(["alloc", x.group(1).lstrip("0")] if x else ["unknown", m.group("al")])
            continue
        ev.append(["gc", ""])
        for l in m.group("gc").split("\n"):
            x = re.match(r" - \(0x([0-9a-f]+)\) ([^ ']+) *'.*'$", l)
            y = re.match(r"  - \(0x([0-9a-f]+)\) \U0001f525$", l)
            if x and x.group(2) in ICONS: ev.append([ICONS[x.group(2)], x.group(1).lstrip("0")])
            elif y: ev.append(["free", y.group(1).lstrip("0")])
        ev.append(["end", ""])
    keep.append(t[at:])
    return "".join(keep).encode("utf-8", "surrogateescape"), ev


def c32(ctx):
    r = random.Random(ctx.seed * 7919 + 32)
    res = tlc(ctx, "ClaraGc", "SPECIFICATION Spec\nINVARIANT Safe\nINVARIANT Exact\nINVARIANT Log\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Addr = {1,2,3}\n MaxRefs = %d\n" % ctx.scale(1, 2))
    need_ok(res)
    files = []
    ARGV = [["-g"], ["--gc.debug"], ["x", "-g"], ["-g", "y"], ["-q", "--gc.debug", "z"], ["--", "-g"], []]
    for k in range(ctx.scale(21, 200)):
        f = general_file(r, cases=3, generics=.4, closures=.5, structs=.5, enums=.5, arrays=.4, strings=.4, bytes=.2, ext=.1, blocks=2, funcs=4)
        f.argv = ARGV[k % len(ARGV)] if k % 9 else ["-g"]
        files.append(f)
    for f in heap_files(ctx, r, 120, 800, cyc=(40, 200)):
        f.argv = ["-g"]
        files.append(f)
    logs, where = [], []

    def split(j, rc, o):
        """the log goes to GcLog, the rest of the output is the program's"""
        f, c, i, en, fi = j
        if rc in (153, "timeout") or len(o) >= (8 << 20) - 1:
            ctx.count("log_too_long")
            return None
        if f.argv == [] or f.argv[0] == "--": return o
        keep, ev = parse_log(o)
        logs.append(ev)
        where.append((f, i, en, o))
        return keep
    check_core(ctx, files, what="running with the collector's log", split=split)
    if ctx.too_many(): return
    if not any(logs): ctx.violation("no program wrote a log", {"prog.clara": files[0].src})
    names = {}
    small = [[[k, names.setdefault(a, len(names) + 1) if a else 0] for k, a in ev] for ev in logs]
    ctx.count("events", sum(len(x) for x in small))
    fn = os.path.join(ctx.sub("gl"), "d.json")
    json.dump({"logs": small}, open(fn, "w"))
    res = tlc(ctx, "GcLogTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Chunk = 400\n", env={"GC_JSON": fn}, mem="10g")
    need_ok(res)
    got = {int(a): (b, int(k)) for a, b, k in re.findall(r'"VERDICT (\d+) (\S+) (\d+)"', res.text)}
    for k, (f, i, en, o) in enumerate(where, 1):
        if k not in got: raise CheckError("no verdict for log %d\n%s" % (k, tail(res.text)))
        v, at = got[k]
        ctx.count("logs")
        if v == "ok" and logs[k - 1]:
            ctx.validated += 1
            continue
        ctx.violation("case %s: the log is not one of a correct collector: %s at event %d: %s" % (en, v if logs[k - 1] else "nothing logged", at, logs[k - 1][max(0, at - 6):at + 1]),
                      {"prog.clara": f.src, "case.txt": "VCASE=%d %s\n" % (i, f.argv), "output.txt": o})
        if ctx.too_many(): return
