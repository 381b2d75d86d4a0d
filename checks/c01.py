"""Construction raises nothing but the documented error."""
from aai import decode
from core import Finding
from . import corpus
from .spec import *

METHOD = ("Abstract interpretation of report construction over symbolic texts; every partition that ends in an exception is reported with a text "
          "that reaches it.")
RULE = ("construction from every text of the corpus (each kind of group and its near misses, symbolic over their characters, wherever groups stand; "
        "texts that are no reports) ends without an exception, with truncation enabled at most with the package's parser error")
ASSUMES = ["the month is given as 1-12 and the year as 1-9998, or they are not given", "the text is not empty"]


def outcomes(ctx, cls, text, fields, kw):
    D = ctx.D
    found = []
    paths = D.construct(cls, text, fields, **kw)
    for p in paths:
        if p.kind == "ok":
            continue
        name = decode._cn(p.val.cls)
        if kw.get("truncate") and name == "ParserError":
            continue
        w = D.witness(p.S)
        if w is None:
            continue
        t = text
        for k, v in w.items():
            t = t.replace("{%s}" % (k,), v)
        found.append(Finding("construction fails with %s" % name, p.val.site,
                             "%s(%r%s) raises %s" % (cls, t, "".join(", %s=%r" % x for x in kw.items()), name), [str(x) for x in p.val.trace or []]))
    return found


def run(ctx, jobs):
    found = []
    for cls, text, fields, kw in jobs:
        found += outcomes(ctx, cls, text, fields, kw)[:3]
        if len(found) > 3:
            break
    return found, {"texts": len(jobs)}


UNDATED = ("wind", "vis", "weather", "cloud", "indicator", "head")
DATED = ("time", "valid", "change", "extreme", "period")


def jobs(thorough):
    n = 0
    for cls, frame, k, lang in corpus.texts():
        kws = [corpus.MONTHS[0]]
        if k in DATED:
            kws = corpus.MONTHS if thorough else [corpus.MONTHS[0], corpus.MONTHS[1 + n % (len(corpus.MONTHS) - 1)]]
        if k in ("head", "cloud", "miles", "windshear", "marks") and ("FEW020" in frame or "TEMPO" in frame):
            kws = kws + [dict(corpus.MONTHS[0], truncate=True)]
        if k in UNDATED and ("100000Z" in frame or "1006/1112 {w}" in frame):
            kws = kws + [{}]
        n += 1
        for kw in kws:
            yield k + " in " + frame, [(cls, frame, dict(w=lang), kw)]
    odd = [(cls, t, {}, kw) for t in corpus.ODD for cls in ("Metar", "Taf") for kw in ({}, dict(year=2021, month=2), dict(year=2021), dict(month=2), dict(year=2021, month=12, truncate=True))]
    odd += [("Taf", t, {}, kw) for t in corpus.LATE for kw in corpus.MONTHS]
    for i in range(0, len(odd), 40):
        yield "odd texts", odd[i:i + 40]


def build(ctx):
    for name, js in sorted(jobs(ctx.thorough), key=lambda x: not any(k in x[0] for k in ("range in", "valid in", "extreme in", "state in", "stations in", "wind in"))):
        ctx.job(name, lambda c, js=js: run(c, js))
