"""Reads change nothing."""
import time

from aai import reads as R
from aai.decode import field_boxes
from aai.values import Undecided, mask_chars
from core import Finding
from .c28 import exact
from . import ref

METHOD = ("Abstract interpretation of construction and of every public read (found in the classes of the source) over concrete and symbolic reports; "
          "the heap reachable from the report and the package's own objects are compared before and after each read, and where a read did "
          "write, the closure of heap states over all reads is computed and every read is compared in every state.")
RULE = ("for every report of the corpus and every read e: heap after e equals heap before e, or every read gives the same value in every "
        "state that sequences of reads can reach; building and reading one report leaves the package's objects and every other report as they were")
ASSUMES = ["a caller does not assign to the objects it receives"]
KW = dict(year=2021, month=3)

BODY = ["METAR ZZZZ 100000Z 18005KT 9999 FEW020 10/08 Q1013",
        "METAR COR SVMC 271000Z AUTO 18005G25KT 150V210 1 1/2SM 0800N R12/0800 R13L/P0900V1200FTU -RA FG VCSH BKN010 OVC020 FEW030CB SCT005 10/M08 Q1013 A2992 "
        "RERA WS R12 WS RWY14 W15/S3 R12/010203 XXX TEMPO FM0010 TL0100 20005KT 3000 -RA BR BKN010 OVC020CB 1A1 BECMG AT1130 CAVOK NSW RMK A B",
        "SPECI KJFK 282359Z VRB02MPS CAVOK M00/M01 A2992 NOSIG",
        "METAR ZZZZ 100000Z NIL", "METAR", "XXX", "METAR ZZZZ 100000Z /////KT //// ////// /////// ///// Q////",
        "METAR EGLL 010000Z 36010P49KT 0050NE VV001 00/00 WS ALL RWY WM01/H25 R/SNOCLO BECMG 9999",
        "METAR ZZZZ 100000Z 18005KT 5000 SCT030 BKN012 OVC004 10/08 Q1013 TEMPO 1000 OVC001 BKN003 BECMG 8000 BKN030 FEW001"]
TAFS = ["TAF ZZZZ 100000Z 1000/1106 18005KT 9999 FEW020", "TAF",
        "TAF AMD SVMC 282300Z 0100/0206 18005G25KT 1 1/2SM -RA FG BKN010 OVC020 SCT003 TX10/0112Z TNM01/0202Z TX12/0113Z XXX TEMPO 0101/0103 4000 SHRA OVC003 BKN001 "
        "FM010600 20005KT 0800 OVC002 FEW001 PROB30 TEMPO 0108/0110 TS SCT010CB 1A1 BECMG 0112/0114 CAVOK PROB40 0115/0116 FG VV001",
        "TAF ZZZZ 100000Z NIL", "TAF COR ZZZZ 100000Z 1000/1106 CNL", "TAF ZZZZ 100000Z 1000/1024 VRB02KT CAVOK FM100300 27010KT FM100600 9999 OVC001 FM101200 OVC010"]
# stations whose rows stand at both ends and in the middle of the table, and codes near them which it lacks
PAIRS = ["SVMC", "SVMZ", "KJFK", "KJF0", "EGLL", "EGLZ", "ZZZZ", "AGGH", "AGGQ", "UUEE", "LEMD", "LEMZ", "SVMI"]
OTHER = [("leap February", dict(year=2020, month=2)), ("December", dict(year=2019, month=12)), ("truncated", dict(year=2021, month=3, truncate=True))]
LIMIT = 40
PLACES = [("type", "{x} ZZZZ 100000Z"), ("modifier", "METAR ZZZZ 100000Z {x} 9999"), ("wind", "METAR ZZZZ 100000Z {x} 150V210 9999"),
          ("variation", "METAR ZZZZ 100000Z 18005KT {x} 9999"), ("vis", "METAR ZZZZ 100000Z {x} 0800N BKN010"), ("minimum", "METAR ZZZZ 100000Z 5000 {x} BKN010"),
          ("range", "METAR ZZZZ 100000Z 0500 {x} R13/0800"), ("weather", "METAR ZZZZ 100000Z 0500 RA {x} BKN010"),
          ("temperatures", "METAR ZZZZ 100000Z {x} Q1013"), ("pressure", "METAR ZZZZ 100000Z 10/08 {x} A2992"), ("recent", "METAR ZZZZ 100000Z 10/08 {x}"),
          ("sea", "METAR ZZZZ 100000Z {x}"), ("state", "METAR ZZZZ 100000Z {x}"), ("indicator", "METAR ZZZZ 100000Z 9999 {x} 4000 {x} BKN003"),
          ("tafwind", "TAF ZZZZ 100000Z 1000/1106 {x} 9999 TEMPO 1003/1005 20010KT"), ("tafvis", "TAF ZZZZ 100000Z 1000/1106 {x} BKN010 FM100300 CAVOK"),
          ("nil", "TAF ZZZZ 100000Z {x}"), ("cnl", "TAF ZZZZ 100000Z 1000/1106 {x}")]


def describe(text, kw):
    return "%s(%r%s)" % ("Taf" if text.startswith("TAF") else "Metar", text, "".join(", %s=%s" % x for x in kw.items()))


def build_one(ctx, text, fields=None, kw=KW, S=None):
    cls = "Taf" if text.startswith("TAF") else "Metar"
    D, I = ctx.D, ctx.I
    base = D.base
    if S is not None:
        D.base = S
    try:
        return D.construct(cls, text, fields or {}, blur=False, **kw)
    finally:
        D.base = base


def only(paths, what):
    if len(paths) != 1:
        raise Undecided("%d partitions of %s" % (len(paths), what))
    return paths[0] if paths[0].kind == "ok" else None


def shot(D, S, root, es):
    out = {}
    for e in es:
        rs = R.ev(D, S, root, e)
        out[e] = tuple(R.snap(D, o) for o in rs)
        D.stats["observations"] += 1
    return out


def diff(a, b):
    return [e for e in a if repr(a[e]) != repr(b[e])]


def interleave(lists):
    """(interleaved iteration, the same items read plainly)"""
    for L in lists:
        yield ("[[str(x), str(y)] for x in %s for y in %s]" % (L, L), "[[x, y] for x in [str(a) for a in %s] for y in [str(b) for b in %s]]" % (L, L))
        yield ("[(lambda i: [str(a) for a in [next(i)] + list(%s) + list(i)])(iter(%s))] if len(%s) else []" % (L, L, L),
               "[(lambda s: s[:1] + s + s[1:])([str(a) for a in %s])] if len(%s) else []" % (L, L))


def closure(ctx, text, kw, S, root, where):
    """Findings over all sequences of reads from S."""
    D = ctx.D
    es, lists = R.enumerate_reads(D, S, root)
    pairs = list(interleave(lists))
    steps = es + [p for p, _ in pairs] + ["next(iter(%s), None)" % L for L in lists]
    n = dict(reads=len(es), states=0, transitions=0, interleaved=len(pairs))
    fp, _ = R.fingerprint(D, S, root)
    first = None
    seen = {fp}
    todo = [(S, ())]
    found = []
    while todo and n["states"] < LIMIT:
        st, hist = todo.pop(0)
        n["states"] += 1
        if first is None and (hist or False):
            first = shot(D, S, root, es)
        if hist:
            now = shot(D, st, root, es)
            for e in diff(first, now)[:1]:
                found.append(Finding("a read changed the report", e.replace("r.", "report.", 1),
                                     "%s: after reading %s, %s is %s, before %s" % (describe(text, kw), ", ".join(hist), e, show(now[e]), show(first[e])), where))
                return found, n
        for p, q in pairs:
            a, b = (tuple(R.snap(D, o) for o in R.ev(D, st, root, x)) for x in (p, q))
            if repr(a) != repr(b):
                found.append(Finding("interleaved reads disturb each other", p.replace("r.", "report.", 1),
                                     "%s: %s is %s, read one after the other %s" % (describe(text, kw), p, show(a), show(b)), where))
                return found, n
        for e in steps:
            for kind, v, S2 in R.ev(D, st, root, e):
                n["transitions"] += 1
                f2, ch = R.fingerprint(D, S2, root)
                if f2 not in seen:
                    seen.add(f2)
                    todo.append((S2, hist + (e,)))
    n["writes"] = len(seen) - 1
    return found, n


def show(x):
    return repr(x[0] if len(x) == 1 else x)[:160]


def one(ctx, text, kw):
    D = ctx.D
    p = only(build_one(ctx, text, kw=kw), text)
    if p is None:
        return [], {}
    found, n = closure(ctx, text, kw, p.S, p.val, [])
    return found, n


def variants(text):
    """The report with each of its words replaced by others of the same kind."""
    ws = text.split()
    out = []
    for i, w in enumerate(ws):
        for k, (a, b) in ref.RX.items():
            if a.match(w):
                alt = [x for x in shapes(ref.WORDS[k][0], 6) if x != w and "_" not in x][:6]
                out += [" ".join(ws[:i] + [x] + ws[i + 1:]) for x in alt]
                break
    return out


def two(ctx, a, others, kw):
    """Building and reading a leaves every other report as it is."""
    D = ctx.D
    found = []
    n = dict(pairs=0, shared_writes=0)
    p = only(build_one(ctx, a, kw=kw), a)
    if p is None:
        return [], n
    es, lists = R.enumerate_reads(D, p.S, p.val)
    states = []
    st = p.S
    ch = R.changed(D, st)
    if ch:
        states.append((st, "building"))
    last = R.fingerprint(D, st, None)[0]
    wrote = []
    for e in es:
        S2 = R.ev(D, st, p.val, e)[0][2]
        f = R.fingerprint(D, S2, None)[0]
        if f != last:
            st, last = S2, f
            wrote.append(e)
    if wrote:
        states.append((st, "building and reading %s of" % ", ".join(wrote[:5])))
    mine = shot(D, p.S, p.val, es) if states else None
    n["shared_writes"] = len(states)
    n["pairs"] += len(others)
    alone = {}
    t0 = time.time()
    for S1, what in reversed(states):
        for b, kwb in others + ([(a, k) for _, k in OTHER] + [(t, kw) for t in variants(a)] if states else []):
            if time.time() - t0 > (600 if ctx.thorough else 120):
                n["cut"] = 1
                break
            n["compared"] = n.get("compared", 0) + 1
            key = (b, tuple(kwb.items()))
            if key not in alone:
                x = only(build_one(ctx, b, kw=kwb), b)
                if x is not None:
                    eb, _ = R.enumerate_reads(D, x.S, x.val)
                    x = (eb, shot(D, x.S, x.val, eb))
                alone[key] = x
            x = alone[key]
            y = only(build_one(ctx, b, kw=kwb, S=S1), b)
            if (x is None) != (y is None):
                found.append(Finding("reports share state", "construction", "%s after %s %s" % (describe(b, kwb), what, describe(a, kw))))
                return found, n
            if x is None:
                continue
            eb, dx = x
            dy = shot(D, y.S, y.val, eb)
            for e in diff(dx, dy)[:1]:
                found.append(Finding("reports share state", e.replace("r.", "report.", 1), "%s: after %s %s, %s is %s, alone %s"
                                     % (describe(b, kwb), what, describe(a, kw), e, show(dy[e]), show(dx[e])), ["%s" % (o,) for o in R.changed(D, S1)]))
                return found, n
            now = shot(D, y.S, p.val, es)
            for e in diff(mine, now)[:1]:
                found.append(Finding("reports share state", e.replace("r.", "report.", 1), "%s: after building %s, %s is %s, before %s"
                                     % (describe(a, kw), describe(b, kwb), e, show(now[e]), show(mine[e]))))
                return found, n
            # and once more after the second
            z = only(build_one(ctx, b, kw=kwb, S=y.S), b)
            if z is not None:
                dz = shot(D, z.S, z.val, eb)
                for e in diff(dx, dz)[:1]:
                    found.append(Finding("reports share state", e.replace("r.", "report.", 1), "%s: built again, %s is %s, at first %s"
                                         % (describe(b, kwb), e, show(dz[e]), show(dx[e]))))
                    return found, n
    return found, n


def shapes(pattern, most):
    """Words of a language, of every shape where there are not too many, from each box of characters its first and last."""
    ws = []
    for b in field_boxes(pattern):
        cs = [mask_chars(x) for x in b]
        ws += ["".join(c[0] for c in cs), "".join(c[-1] for c in cs)]
    ws = list(dict.fromkeys(ws))
    k = max(1, len(ws) // most)
    return ws[::k]


def several(ctx, texts, kw):
    total = {}
    for t in texts:
        f, n = one(ctx, t, kw)
        for k, v in n.items():
            total[k] = total.get(k, 0) + v
        if f:
            return f, total
    return [], total


def build(ctx):
    ctx.D = exact(ctx)
    ctx.I = ctx.D.I
    for t in BODY + TAFS:
        ctx.job("reads of " + t[:60], lambda c, t=t: one(c, t, KW))
    short = [BODY[0], BODY[1], TAFS[0], TAFS[2]] + ["METAR %s 100000Z" % s for s in PAIRS]
    more = [(t, KW) for t in short] + [(t, k) for t in short[:4] for _, k in OTHER]
    for t in short:
        ctx.job("reports after " + t[:60], lambda c, t=t: two(c, t, more, KW))
    for t in BODY + TAFS:
        if t not in short:
            ctx.job("reports after " + t[:60], lambda c, t=t: two(c, t, [(x, KW) for x in BODY + TAFS], KW))
    cov = "(FEW|SCT|BKN|OVC|VV)(000|002|015|016|040|///)(CB)?"
    for k, t in PLACES:
        ws = shapes(ref.WORDS[k][0].replace("_", " "), 60 if ctx.thorough else 12)
        for i in range(0, len(ws), 6):
            ctx.job("reads of any %s" % k, lambda c, t=t, ws=ws[i:i + 6]: several(c, [t.replace("{x}", w) for w in ws], KW))
    for t in ("METAR ZZZZ 100000Z 5000 {x} {y} SKC Q1013 TEMPO {x} {y}", "TAF ZZZZ 100000Z 1000/1106 9999 {x} {y} FM100300 CAVOK TEMPO 1003/1005 {y} BKN010"):
        ws = shapes(cov, 30) if ctx.thorough else ["FEW016", "SCT000CB", "BKN015", "OVC///", "VV002", "OVC002"]
        for x in ws:
            ctx.job("reads of any clouds of " + t[:5], lambda c, t=t, x=x: several(c, [t.replace("{x}", x).replace("{y}", y) for y in ws], KW))
