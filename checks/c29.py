"""Sections of the reports."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of the section accessors, over texts with symbolic words and spaces."
RULE = ("body, trend or changes and remark in each combination and number, with symbolic words in each, every kind of space between words "
        "and the end mark; words that only look like the keywords")
ASSUMES = ["a trend starts at a word beginning with NOSIG, TEMPO or BECMG, a remark at RMK, a change at FM, TEMPO, BECMG or PROB (after the station)"]


def metar(text):
    """[body, trend, remark] of the words."""
    out = [[], [], []]
    k = 0
    for w in text.split():
        if w.startswith(("NOSIG", "TEMPO", "BECMG")):
            k = 1
        elif w.startswith("RMK"):
            k = 2
        out[k].append(w)
    return [" ".join(x) for x in out]


def build(ctx):
    def fill(t, d):
        for k, v in d.items():
            t = t.replace("{%s}" % k, v)
        return t
    kw = dict(year=2021, month=3)
    M = "METAR ZZZZ 100000Z "
    W3 = r"[A-Z][A-Z0-9][A-Z]"
    texts = ["{a} 9999", "{a} NOSIG", "9999 {a} TEMPO RA", "BECMG {a} RMK AO2", "TEMPO {a} FG BECMG RA RMK A1 B2", "9999 RMK {a} TEMPO",
             "9999 RMK {a} NOSIG", "RA NOSIG RMK {a}", "RMK {a} BECMG RA RMK XX {a}", "{a} RMK {a} RMK {a}", "TEMPO {a} TEMPO RA {a}",
             "TEMPO FM0010 3000 {a} BECMG TL0100 9999 {a} RMK {a}", "{a}", "9999 NOSIG {a}"]
    for t in texts:
        for a, nm in ((W3, "words"), (r"TEMPX|XTEMPO|RMKS|XRMK|RM|NOSI|ANOSIG|BECM|TEMP|BECMX|\+RA|-TSRA|VCSH|FM|FM0010|PROB30|R/K|R\|K", "like keywords")):
            T = M + t

            def sec(a, k, T=T):
                return metar(T.replace("{a}", a))[k]
            ctx.case("METAR %s of %s" % (nm, t), "Metar", T, dict(a=a),
                     {"r.body": lambda a, sec=sec: sec(a, 0), "r.trend": lambda a, sec=sec: sec(a, 1), "r.remark": lambda a, sec=sec: sec(a, 2),
                      "r.raw_code": lambda a, T=T: T.replace("{a}", a),
                      "r.sections": lambda a, sec=sec: [sec(a, 0), sec(a, 1), sec(a, 2)]}, kw)
    for cls, t in (("Metar", "METAR ZZZZ{a}100000Z{b}9999{c}NOSIG{b}RMK{a}A{b}B{c}"), ("Metar", "{a}SPECI{b}ZZZZ{b}100000Z{a}FG{c}BECMG{c}RA{a}"),
                   ("Taf", "TAF{a}ZZZZ{b}100500Z{c}1006/1112{a}18005KT{b}TEMPO{c}1008/1010{a}RA{b}"), ("Taf", "{b}TAF{a}AMD{b}ZZZZ{c}100500Z")):
        norm = lambda t=t: " ".join(t.replace("{a}", " ").replace("{b}", " ").replace("{c}", " ").split())
        f = {k: ["", " ", "\n", "\t", "  ", " \n", "\n ", "\t ", " \n \n", "   "][1:] for k in "abc"}
        f = {k: v for k, v in f.items() if "{%s}" % k in t}
        o = {"r.raw_code": lambda norm=norm: norm()}
        if cls == "Metar":
            for k, n in enumerate(("body", "trend", "remark")):
                o["r." + n] = lambda k=k, norm=norm: metar(norm())[k]
        ctx.case("spaces in %s" % t, cls, t, f, o, kw)
    for cls, t in (("Metar", M + "9999 NOSIG RMK A{e}"), ("Metar", M + "9999 {e}"), ("Taf", "TAF ZZZZ 100500Z 1006/1112 9999 TEMPO 1008/1010 RA{e}")):
        ctx.case("end mark of " + t, cls, t, dict(e=["=", "=="]),
                 {"r.raw_code": lambda t=t: t.replace("{e}", ""), "r.unparsed_groups": lambda: []}, kw)
    # TAFs; a word FM not followed by a time is unspecified
    W3 = r"[A-EG-Z][A-Z0-9][A-Z]"
    T = "TAF ZZZZ 100500Z 1006/1112 "
    KW = ["FM101000", "TEMPO 1008/1010", "BECMG 1008/1010", "PROB30 1008/1010", "PROB40 TEMPO 1008/1010"]
    for i, k1 in enumerate(KW):
        k2 = KW[(i + 1) % len(KW)]
        ctx.case("TAF changes %s" % k1, "Taf", T + "{a} " + k1 + " {b} " + k2 + " {a} " + k1 + " {c}", dict(a="RA|CAVOK|XYZ|QQ", b=W3, c="FG|BKN010|X"),
                 {"r.body": lambda a: T + a, "len(r.changes_forecasted)": lambda: 3,
                  "r.sections": lambda a, b, c, k1=k1, k2=k2: [T + a, "%s %s %s %s %s %s" % (k1, b, k2, a, k1, c)],
                  "r.weather_changes": lambda a, b, c, k1=k1, k2=k2: "%s %s %s %s %s %s" % (k1, b, k2, a, k1, c)}, kw)
        ctx.case("one TAF change %s" % k1, "Taf", T + "9999 " + k1 + " {b}", dict(b=W3),
                 {"r.body": lambda: T + "9999", "len(r.changes_forecasted)": lambda: 1,
                  "r.weather_changes": lambda b, k1=k1: k1 + " " + b}, kw)
    for a in (W3, r"XFM|XTEMPO|APROB30|1FM|BECM|TEMP|PRO|TAFX|TAF|AMD|CNL|\+RA|X\|Y"):
        ctx.case("TAF body word %s" % a[:12], "Taf", T + "{a} 9999", dict(a=a), {"r.body": lambda a: T + a + " 9999", "r.weather_changes": lambda: "",
                                                                                 "len(r.changes_forecasted)": lambda: 0}, kw)
    for h in ("TAF ", "TAF AMD ", "TAF COR ", "AMD ", ""):
        ctx.case("station like a change after %r" % h, "Taf", h + "{s} 100500Z 1006/1112 9999 TEMPO 1008/1010 RA", dict(s=r"FM[A-Z]{2}|PROB|ZZZZ"),
                 {"r.body": lambda s, h=h: h + s + " 100500Z 1006/1112 9999", "r.station.code": lambda s: s, "len(r.changes_forecasted)": lambda: 1,
                  "r.unparsed_groups": lambda: []}, kw)
