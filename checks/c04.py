"""No outside effects; results from the text and the arguments only."""
from aai import effects, reads as R
from core import Finding, REPO
from . import c03, ref
from .c03 import BODY, TAFS, build_one, describe, only, shapes, shot, show
from .c28 import exact

METHOD = ("Effect analysis of every call of the package (a query over its syntax tree) and of every call met on the paths of the abstract interpretation; "
          "data flow of the clock, a set of unknown numbers, into every read and every branch; every read with sets iterated in either order.")
RULE = ("no call of a primitive outside effect in any function or module body; with year and month given, no read holds and no branch compares a value of "
        "the clock; without them, the reads which do not depend on the year and month are the same and do not depend on the clock; "
        "no read depends on the order in which sets are iterated")
ASSUMES = ["library functions outside the list in aai/effects.py have no outside effects"]
KWS = [dict(year=2021, month=3), dict(year=2020, month=2), dict(year=2019, month=2)]


def source(ctx):
    hits, funcs, calls, files = effects.scan(REPO)
    return ([Finding("outside effect", where, "%s is called" % what) for what, where in hits],
            dict(functions_scanned=funcs, calls_scanned=calls, files_scanned=files))


def clocked(x):
    return "clock" in repr(x)


def several(ctx, texts):
    n = dict(reports=0, reads=0, date_free_reads=0)
    for t in texts:
        f = one(ctx, t, n)
        if f:
            return f, n
    return [], n


def one(ctx, text, n):
    D, I = ctx.D, ctx.I
    I.events.clear()
    shots = []
    n["reports"] += 1
    for kw in KWS:
        I.set_reverse = False
        paths = build_one(ctx, text, kw=kw)
        p = only(paths, text)
        if p is None:
            return []
        if any(clocked(f) for f in p.S.facts):
            return [Finding("a branch depends on the clock", "construction", describe(text, kw))]
        es, _ = R.enumerate_reads(D, p.S, p.val)
        n["reads"] += len(es)
        a = {}
        for e in es:
            rs = R.ev(D, p.S, p.val, e)
            a[e] = tuple(R.snap(D, o) for o in rs)
            if clocked(a[e]) or any(clocked(f) for o in rs for f in o[2].facts):
                return [Finding("a value depends on the clock", e.replace("r.", "report.", 1), "%s: %s is %s though year and month are given"
                                % (describe(text, kw), e, show(a[e])))]
        shots.append(a)
        if kw is KWS[0]:
            I.set_reverse = True
            try:
                q = only(build_one(ctx, text, kw=kw), text)
                b = shot(D, q.S, q.val, es) if q is not None else {}
            finally:
                I.set_reverse = False
            for e in c03.diff(a, b)[:1] if b else ():
                return [Finding("a value depends on the order of a set", e.replace("r.", "report.", 1), "%s: %s is %s or %s" % (describe(text, kw), e, show(a[e]), show(b[e])))]
    free = [e for e in shots[0] if all(e in s and repr(s[e]) == repr(shots[0][e]) for s in shots)]
    n["date_free_reads"] += len(free)
    for kw in (dict(), dict(year=2021), dict(month=3)):
        for p in build_one(ctx, text, kw=kw):
            if p.kind != "ok":
                continue            # C01 and C21 judge these
            for e in free:
                x = tuple(R.snap(D, o) for o in R.ev(D, p.S, p.val, e))
                if clocked(x) or {repr(y) for y in x} != {repr(y) for y in shots[0][e]}:
                    return [Finding("a value depends on the clock", e.replace("r.", "report.", 1), "%s: %s is %s, with year and month given %s"
                                    % (describe(text, kw), e, show(x), show(shots[0][e])))]
    for kind, what, where in sorted(I.events):
        if kind == "effect":
            return [Finding("outside effect", where, "%s is called when %s is decoded or read" % (what, describe(text, KWS[0])))]
    return []


def build(ctx):
    ctx.D = exact(ctx)
    ctx.I = ctx.D.I
    ctx.job("calls of the package", source)
    texts = [t for t in BODY + TAFS]
    for k, t in c03.PLACES:
        ws = shapes(ref.WORDS[k][0].replace("METAR|SPECI", "METAR|SPECI|XXX").replace("_", " "), 40 if ctx.thorough else 5)
        texts += [t.replace("{x}", w) for w in ws]
    texts += ["METAR %s 100000Z" % s for s in c03.PAIRS]
    for i in range(0, len(texts), 3):
        ctx.job("reports " + texts[i][:50], lambda c, ts=texts[i:i + 3]: several(c, ts))
