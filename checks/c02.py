"""Every public read answers."""
from aai import decode
from aai import reads as R
from aai.values import *
from core import Finding
from . import corpus
from .c03 import BODY, TAFS
from .spec import *

METHOD = ("Abstract interpretation of report construction and of every public read (found in the classes of the source, through all objects and lists "
          "reached) over symbolic texts; every partition of a read that ends in an exception is reported with a text that reaches it.")
RULE = ("no accessor, description, length, iteration, item inside the length, dictionary or JSON export raises, on the reports of every text of the "
        "corpus: each kind of group and its near misses, symbolic over their characters, in bodies, trends and changes, and texts that are no reports")
ASSUMES = ["an index beyond the end of a list raises the package's range error or IndexError"]
FRAMES = [("Metar", "{w}", "lead"), ("Metar", "METAR {w} 9999", "lead"), ("Metar", "METAR ZZZZ 100000Z 0800 {w} FG Q1013", "body"), ("Metar", "METAR ZZZZ 100000Z 9999 BECMG {w} RMK AO2", "trend"),
          ("Taf", "TAF {w}", "lead"), ("Taf", "TAF ZZZZ 100500Z 1006/1112 {w} NSC", "tbody"), ("Taf", "TAF ZZZZ 100500Z 1006/1112 9999 TEMPO 1010/1012 {w}", "change")]
EXTRA = [("Metar", "METAR {w} 100000Z", "stations"), ("Taf", "TAF {w}", "stations"), ("Taf", "TAF ZZZZ 100500Z {w} TX12/1012Z", "valid"), ("Taf", "TAF ZZZZ 100500Z {w}", "head"),
         ("Metar", "METAR ZZZZ 100000Z TEMPO {w} 4000", "period"), ("Taf", "TAF ZZZZ 100500Z 1006/1112 9999 {w} 4000", "change")]


def allowed(e, out):
    return (e.endswith("[99]") or e[-1] == "]" and e[-2].isdigit()) and decode._cn(out.cls) in ("RangeError", "IndexError")


def reads(ctx, text, p):
    """Reads of one partition that raise."""
    D = ctx.D
    es, lists = R.enumerate_reads(D, p.S, p.val)
    beyond = {"%s[%d]" % (L, int(n)) for L in lists for n in [length(D, p, L)] if n is not None} | {"%s[99]" % L for L in lists}
    found = []
    for e in es:
        for kind, v, S in R.ev(D, p.S, p.val, e):
            if kind == "ok" or e in beyond and allowed(e, v):
                continue
            w = D.witness(S)
            if w is None:
                continue
            t = text
            for k, x in w.items():
                t = t.replace("{%s}" % (k,), x)
            found.append((e, v, t))
            break
    D.stats["observations"] += len(es)
    return found


def length(D, p, L):
    n = R.ev(D, p.S, p.val, "len(%s)" % L)
    return n[0][1] if len(n) == 1 and n[0][0] == "ok" and type(n[0][1]) is int else None


def run(ctx, jobs):
    D = ctx.D
    out = []
    n = {"texts": len(jobs), "reports": 0}
    for cls, text, fields, kw in jobs:
        lists = "weather_trends" if cls == "Metar" else "changes_forecasted"
        e = "sum([len(s.unparsed_groups) for s in [r] + [x for x in r.%s]])" % lists
        rest = {}
        for p in D.construct(cls, text, fields, **kw):
            if p.kind != "ok":
                continue
            u = R.ev(D, p.S, p.val, e)
            k = u[0][1] if len(u) == 1 and u[0][0] == "ok" and type(u[0][1]) is int else -1
            if k > 0 and fields:
                # groups not decoded leave the rest of the report alone: a few of these are read
                rest[k] = rest.get(k, 0) + 1
                if rest[k] > 3:
                    continue
            n["reports"] += 1
            for e2, v, t in reads(ctx, text, p)[:2]:
                out.append(Finding("%s raises %s" % (e2.replace("r.", "report.", 1), decode._cn(v.cls)), v.site,
                                   "%s(%r%s): %s raises %s" % (cls, t, "".join(", %s=%r" % x for x in kw.items()), e2.replace("r.", "report.", 1), decode._cn(v.cls)),
                                   [str(x) for x in v.trace or []]))
            if len(out) > 2:
                return out, n
    return out, n


def build(ctx):
    M = corpus.MONTHS[0]
    js = []
    for cls, frame, k in EXTRA:
        js.append((k + " in " + frame, [(cls, frame, dict(w=corpus.GROUPS[k]), M)]))
    for cls, frame, sec in FRAMES:
        for k in corpus.SECTION[sec]:
            for kw in corpus.MONTHS if ctx.thorough and k in ("valid", "time", "extreme", "period") else [M]:
                js.append((k + " in " + frame, [(cls, frame, dict(w=corpus.GROUPS[k]), kw)]))
    odd = [(cls, t, {}, kw) for t in corpus.ODD + BODY + TAFS for cls in ("Metar", "Taf") for kw in ({}, dict(year=2021, month=2))
           if kw or not t.startswith(("TAF AMD SVMC", "METAR COR SVMC"))]
    odd += [("Taf", t, {}, kw) for t in corpus.LATE for kw in corpus.MONTHS]
    for i in range(0, len(odd), 20):
        js.append(("odd texts", odd[i:i + 20]))
    for name, j in sorted(js, key=lambda x: not any(k in x[0] for k in ("stations in", "range in", "valid in", "extreme in", "state in", "wind in", "odd"))):
        ctx.job(name, lambda c, j=j: run(c, j))
