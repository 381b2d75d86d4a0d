"""Conservation of groups."""
from . import ref
from .spec import *
from aai.decode import SKIP

METHOD = ("Abstract interpretation of report construction over reports with symbolic words at every place; what each field decoded and what was left "
          "is compared with a reference grammar of the section, for every value of the words.")
RULE = ("an unknown word at every place of a report with every kind of group; two unknown words at every pair of places; every "
        "subset of the groups; every sequence of three groups of any kind; more groups than a list takes; groups repeated")
ASSUMES = ["groups stand in the order of FM 15 and FM 51; a group out of its place is left",
           "irregular forms of groups (checks/ref.py) are not specified"]
KW = dict(year=2021, month=3)


def family(order, root, pre, head, text):
    """Observation of a section whose words contain fields, and its specification."""
    ex, sp = ref.observed(order, root)
    names = [p[1] for p in __import__("string").Formatter().parse(text) if p[1]]
    names = list(dict.fromkeys(names))
    memo = {}

    def check(ws):
        if ws not in memo:
            t = text.format(**dict(zip(names, ws)))
            h = len(" ".join(head).split())
            try:
                if any(w.startswith(ref.CUT[order]) for w in t.split()[h:]):
                    raise ref.Unspecified
                memo[ws] = sp(t.replace("=", ""))
            except ref.Unspecified:
                memo[ws] = SKIP
        return memo[ws]
    spec = eval("lambda %s: check((%s,))" % (", ".join(names), ", ".join(names)) if names else "lambda: check(())", dict(check=check))
    return ex, spec


def put(ctx, name, sec, words, fields, kw=KW):
    order, cls, pre, head, _, root = sec
    text = " ".join(head + words)
    ex, spec = family(order, root, pre, head, text)
    ctx.case("%s of %s" % (name, order), cls, pre + text, fields, {ex: spec}, kw)


def build(ctx):
    U = r"[QX][A-Z0-9/][A-Z]"
    for sec in ref.SECTIONS:
        order, full = sec[0], sec[4]
        n = len(full)
        for i in range(n + 1):
            put(ctx, "unknown word at %d" % i, sec, full[:i] + ["{u}"] + full[i:], dict(u=U))
        pairs = [(i, j) for i in range(n + 1) for j in range(i, n + 1)]
        for i, j in pairs:
            if ctx.thorough or j - i in (0, 1, n // 2):
                put(ctx, "unknown words at %d and %d" % (i, j), sec, full[:i] + ["{u}"] + full[i:j] + ["{v}"] + full[j:],
                    dict(u="XXX|1A1|=Q9", v="QQ7|XXX"))
        put(ctx, "unknown words everywhere", sec, [w for f in full for w in ("{u}", f)] + ["{v}", "{u}"], dict(u="XXX|1A1|Q9", v="QQ7|XXX"))
        # subsets, at most ten optional groups at a time
        step = 10 if ctx.thorough else 7
        for i in range(0, n, step):
            part = list(range(i, min(n, i + step)))
            f = {"abcdefghijkl"[k]: "|" + full[x] for k, x in enumerate(part)}
            ws = full[:i] + ["{%s}" % "abcdefghijkl"[k] for k in range(len(part))] + full[i + step:]
            put(ctx, "subsets of groups %d to %d" % (i, i + len(part) - 1), sec, ws, f)
        # any three groups
        toks = [t for t in full if order != "METAR" or t not in ("R13/0900", "OVC020", "A2992", "FG")]
        if order == "TAF":
            toks = ["NIL", "CNL"] + toks
        alt = "|".join(t.replace("+", r"\+") for t in toks)
        for t in toks:
            put(ctx, "sequences starting with %s" % t, sec, [t, "{a}", "{b}"], dict(a=alt, b=alt))
            put(ctx, "sequences ending with %s" % t, sec, ["{a}", "XXX", "{b}", t], dict(a=alt, b=alt))
        # capacity and repetition
        for k, few in (("RA", ["RA", "FG", "-SN", "HZ", "TS", "DZ"]), ("sky", ["FEW010", "SCT020", "BKN030", "OVC040", "VV001", "FEW050"])):
            for m in range(1, 7):
                put(ctx, "%d groups like %s" % (m, k), sec, (full[:1] if order == "CHANGE" else []) + few[:m] + ["{u}"] + few[:2], dict(u=U))
        if order == "METAR":
            for m in range(1, 6):
                put(ctx, "%d ranges" % m, sec, ["R%02d/0800" % x for x in range(m)] + ["{u}", "RA"], dict(u=U))
                put(ctx, "%d windshears" % m, sec, ["Q1013"] + ["WS R%02d" % x for x in range(m)] + ["{u}", "W15/S3"], dict(u=U))
                put(ctx, "%d pressures" % m, sec, ["10/08"] + ["Q10%02d" % x for x in range(m)] + ["{u}", "RERA"], dict(u=U))
        for t in toks:
            put(ctx, "repeated %s" % t, sec, [t, "{u}", t, "XXX", t, "{u}"], dict(u=U))
    # groups left in the body, in trends or changes and in further ones, in the order of the text
    left = lambda *ws: list(ws)
    ctx.case("left in body and trends", "Metar", "METAR ZZZZ 100000Z {u} 9999 {v} TEMPO {v} RA {u} BECMG {w} FG {v} RMK {w} XX", dict(u=U, v="QQ7|XXX", w="XXX|YYYY"),
             {"r.unparsed_groups": lambda u, v, w: [u, v, v, u, w, v]}, KW)
    ctx.case("left in body and changes", "Taf", "TAF ZZZZ 100000Z {u} 9999 {v} TEMPO 1000/1002 {v} RA {u} FM100600 {w} FG {v} PROB30 1000/1002 {w} XX",
             dict(u=U, v="QQ7|XXX", w="XXX|YYYY"), {"r.unparsed_groups": lambda u, v, w: [u, v, v, u, w, v, w, "XX"]}, KW)
    for m in range(1, 11):
        ch = ["TEMPO 10%02d/10%02d 4000 X%02d {u}" % (x, x + 1, x) for x in range(m)]
        ctx.case("%d changes" % m, "Taf", "TAF ZZZZ 100000Z 1000/1106 " + " ".join(ch), dict(u="XXX|QQ7"),
                 {"r.unparsed_groups": lambda u, ch=ch: [w for c in ch[:8] for w in (c.split()[3], u)] + " ".join(ch[8:]).replace("{u}", u).split(),
                  "[x.code for x in r.changes_forecasted]": lambda u, ch=ch: [c.replace("{u}", u) for c in ch[:8]]}, KW)
    # words that hold several keywords of the grammar never swallow their neighbours
    for w in ("1 1/2SM{x}", "0800 1/2SM", "1 1/2SM 1/2SM", "1 1/2 SM", "{x}1 1/2SM"):
        for t, r in (("METAR ZZZZ 100000Z 18005KT %s RA Q1013", "r"), ("TAF ZZZZ 100000Z 1000/1106 18005KT %s RA BKN010", "r")):
            cls = t[0] == "M" and "Metar" or "Taf"
            put(ctx, "words like miles in %s" % cls, (cls.upper(), cls, "", [], [], "r"), [t % w], dict(x="[A-Z/]|XX") if "{x}" in w else {})
    for w in ("WS R12{x}", "WS ALL RWY{x}", "{x}WS R12", "{x}WS ALL RWY", "WS RWY12{x}", "WS {x}", "WS ALL {x}", "WS R12L{x}", "WS"):
        put(ctx, "words like %s" % w, ref.SECTIONS[0], ["18005KT", "RA", "10/08", w, "W15/S3"], dict(x="[A-KM-QS-Z/0-9]|XX") if "{x}" in w else {})
