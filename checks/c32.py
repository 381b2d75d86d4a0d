"""Descriptions of groups and reports."""
from aai.decode import SKIP
from .spec import *
from . import c19, c20

METHOD = "Abstract interpretation of report construction and of the descriptions (str) of every group and of the report, over symbolic groups."
RULE = ("the description of every kind of group states the values decoded (zero included), in the words and units of the documentation; lists join "
        "theirs in order; the report's is made of those of its groups, in order of appearance")
ASSUMES = ["line breaks at the end of a change's description are not specified",
           "the wording of a layer whose height is not given is only specified without cloud type",
           "the direction of VRB and the wording of a missing wind direction follow the existing tests"]
DIR = r"(0[1-9]|[12]\d|3[0-6])0"
LIMIT = {"": "", "M": "below of ", "P": "above of "}


def compass(d):
    return "%s (%.1f°)" % (rose(float(d)), float(d))


def speed(s, u="KT"):
    return "%.1f kt" % (float(s) * (3600 / 1852.0 if u == "MPS" else 1.0))


def wind(d, s, g="", u="KT"):
    t = "variable wind" if d == "VRB" else "" if d == "///" else compass(d)
    if s.isdigit():
        t += " " + speed(s, u)
    return t.strip() + (" gust of " + speed(g[1:], u) if g else "")


def km(v):
    return "%.1f km" % (metres(v) / 1000)


def to(d):
    return " to %s (%.1f°)" % (d, POINTS[d]) if d else ""


POINTS = {"N": 360.0, "NE": 45.0, "E": 90.0, "SE": 135.0, "S": 180.0, "SW": 225.0, "W": 270.0, "NW": 315.0}
PTS = words(*POINTS)


def weather(i, d, *ph):
    ps = [p for p in ph if p]
    pr = [PRECIP[p] for p in ps if p in PRECIP]
    ob = [OBSC[p] for p in ps if p in OBSC]
    ot = [OTHER[p] for p in ps if p in OTHER]
    return " ".join(x for x in [INTENSITY[i], DESCRIPTOR[d]] + pr + ob + ot if x)


def layer(c, h, t=""):
    if h == "///" and t not in ("", "///"):
        return SKIP
    if h in ("", "///"):
        return COVER[c] if c in ("SKC", "NSC", "NCD", "VV", "CLR", "///") else COVER[c] + " at undefined height"
    return "%s at %.1f feet" % (COVER[c], float(h) * 100) + (" of " + CTYPE[t] if CTYPE[t] else "")


def temp(s, v):
    return "%.1f°C" % (-float(v) if s else float(v)) if v.isdigit() else None


def pair(s, a, q, b):
    x, y = temp(s, a), temp(q, b)
    if x is None and y is None:
        return ""
    return (("temperature: " + x) if x else "no temperature") + " | " + (("dewpoint: " + y) if y else "no dewpoint")


def range_(n, p, v, u="", w="", t=""):
    def one(l, x):
        return LIMIT[l] + "%.1f m" % (10000.0 if x == "9999" else float(x) * (0.3048 if u else 1.0))
    return ("runway %s %s" % (runway(n), one(p, v)) + (" varying to " + one("", w) if w else "")
            + {"": "", "N": ", no change", "U": ", increasing", "D": ", decreasing"}[t])


def inches(p):
    x = float(p) / 100 * 33.86389
    return SKIP if abs(x * 10 % 1 - 0.5) < 0.01 else "%.1f hPa" % x


def shear(n):
    return n if len(n) == 2 else runway(n)


def surface(n, d, c, e, f):
    deposit = c20.DEP[d]
    if d == "/":
        dep = ("%s and %s" if e in ("99", "//") else "depth of %s but %s") % (c20.depth(e), deposit)
    else:
        dep = ("%s of %s" if e in ("99", "//") else "deposits of %s of %s") % (c20.depth(e), deposit)
    fr = c20.fric(f)
    if f.isdigit() and int(f) <= 90:
        fr = "estimated surface friction " + fr
    return "%s, %s, contamination %s, %s" % (runway(n), dep, c20.ext(c), fr)


def build(ctx):
    ok = {"r.unparsed_groups": lambda: []}
    for nm, cls, text, at in WIND_AT:
        taf = cls == "Taf"
        s = "str(%s)" % at
        ctx.case("wind direction in " + nm, cls, text % "{d}05{u}", dict(d=DIR + "|VRB" + ("" if taf else "|///"), u="KT|MPS"),
                 dict(ok, **{s: lambda d, u: wind(d, "05", "", u)}))
        ctx.case("wind speed in " + nm, cls, text % "{d}{s}{u}", dict(d="040|VRB", s=r"\d\d|100", u="KT|MPS"),
                 dict(ok, **{s: lambda d, s, u: wind(d, s, "", u)}))
        ctx.case("gust in " + nm, cls, text % "{d}07{g}{u}", dict(d="360|VRB", g=r"(G[1-9][0-9]|G105)?", u="KT|MPS"),
                 dict(ok, **{s: lambda d, g, u: wind(d, "07", g, u)}))
    M = "METAR ZZZZ 100000Z 00000KT "
    ctx.case("calm wind", "Metar", "METAR ZZZZ 100000Z {w}", dict(w="00000KT"), {"str(r.wind)": lambda: "N (0.0°) 0.0 kt"})
    ctx.case("wind variation", "Metar", "METAR ZZZZ 100000Z 18010KT {d}V{e} 9999", dict(d=DIR, e=DIR),
             dict(ok, **{"str(r.wind_variation)": lambda d, e: "from %s to %s" % (compass(d), compass(e))}))
    for nm, cls, text, at in SKY_AT:
        s = "str(%s.prevailing_visibility)" % at
        ctx.case("visibility in " + nm, cls, text % "{v}", dict(v=r"\d\d00|9999|CAVOK"),
                 dict(ok, **{s: lambda v: "Ceiling and Visibility OK" if v == "CAVOK" else km(v)}))
        if "trend" not in nm and cls == "Metar":
            ctx.case("visibility with direction in " + nm, cls, text % "{v}{d}", dict(v=r"[01]\d00|9999", d=PTS),
                     dict(ok, **{s: lambda v, d: km(v) + to(d)}))
        ctx.case("visibility in miles in " + nm, cls, text % "{v}SM", dict(v=r"[1-9]|10|1[1-9]"),
                 dict(ok, **{s: lambda v: "%.1f km" % (float(v) * 1.852)}))
    ctx.case("minimum visibility", "Metar", M + "5000 {v}{d} RA", dict(v=r"[0-4][1-9]00", d=PTS),
             dict(ok, **{"str(r.minimum_visibility)": lambda v, d: km(v) + to(d)}))
    RNG = "METAR ZZZZ 100000Z 00000KT 0800 "
    for nm, pre, post, i in (("first", "", "", 0), ("second", "R01/0500 ", " FG", 1), ("third", "R01/0500 R02/M0050V1000D ", " OVC001", 2)):
        s = "str(r.runway_ranges[%d])" % i
        ctx.case("runway and tendency of %s range" % nm, "Metar", RNG + pre + "R{n}/{p}0600{t}" + post, dict(n=r"\d\d[RLC]?", p="[MP]?", t="[NUD]?"),
                 {s: lambda n, p, t: range_(n, p, "0600", "", "", t)})
        ctx.case("range of %s range" % nm, "Metar", RNG + pre + "R12L/{v}{u}{t}" + post, dict(v=r"0\d00|1[0-5]\d0", u="(FT)?", t="D?"),
                 {s: lambda v, u, t: range_("12L", "", v, u, "", t)})
        ctx.case("variable range of %s range" % nm, "Metar", RNG + pre + "R12L/0300V{w}{u}{t}" + post, dict(w=r"0[1-9]00|1[0-5]\d0", u="(FT)?", t="[UD]?"),
                 {s: lambda w, u, t: range_("12L", "", "0300", u, w, t)})
    ctx.case("list of ranges", "Metar", RNG + "R01/0500{t} R02/M0050 BR", dict(t="[NUD]?"),
             {"str(r.runway_ranges)": lambda t: range_("01", "", "0500", "", "", t) + " | " + range_("02", "M", "0050")})
    for nm, cls, text, at in LIST_AT:
        s = "str(%s.weathers)" % at
        sp = "str(%s.weathers[0])" % at
        ctx.case("weather in " + nm, cls, text % "{i}{p} BR", dict(i=words("", "-", "+", "VC"), p="|".join(p for p in PHEN if p != "BR")),
                 dict(ok, **{sp: lambda i, p: weather(i, "", p), s: lambda i, p: weather(i, "", p) + " | mist"}))
        ctx.case("described weather in " + nm, cls, text % "{i}{d}{p}", dict(i=words("", "-", "+"), d="SH|TS|FZ|BL|DR", p="RA|SN|GR"),
                 dict(ok, **{sp: lambda i, d, p: weather(i, d, p), s: lambda i, d, p: weather(i, d, p)}))
        s = "str(%s.clouds)" % at
        sp = "str(%s.clouds[%%d])" % at
        ctx.case("cloud height in " + nm, cls, text % "{c}{h}{t}", dict(c="FEW|SCT|BKN|OVC", h=r"[0-4]\d\d|///", t="(CB|TCU|///)?"),
                 {sp % 0: lambda c, h, t: layer(c, h, t), s: lambda c, h, t: layer(c, h, t)})
        ctx.case("second cloud in " + nm, cls, text % "FEW012CB {c}{h}", dict(c="SCT|BKN|OVC", h=r"0\d[05]|[1-4]00"),
                 dict(ok, **{sp % 0: lambda: layer("FEW", "012", "CB"), sp % 1: layer,
                             s: lambda c, h: layer("FEW", "012", "CB") + " | " + layer(c, h)}))
        ctx.case("vertical visibility in " + nm, cls, text % "VV{h}", dict(h=r"0\d\d|///"), dict(ok, **{sp % 0: lambda h: layer("VV", h)}))
        ctx.case("no cloud in " + nm, cls, text % "{c}", dict(c="NSC|NCD|SKC|CLR" if cls == "Metar" else "NSC|SKC"), dict(ok, **{sp % 0: lambda c: layer(c, "")}))
    T = "METAR ZZZZ 100000Z 00000KT 9999 FEW010 "
    ctx.case("temperatures", "Metar", T + "{s}{a}/{q}{b} Q1013", dict(s="M?", a=r"\d[05]|//|XX", q="M?", b=r"[0-3]\d|//|XX"),
             dict(ok, **{"str(r.temperatures)": lambda s, a, q, b: SKIP if (s and not a.isdigit()) or (q and not b.isdigit()) else pair(s, a, q, b)}))
    ctx.case("pressure", "Metar", T + "10/08 Q{p}", dict(p=r"0[89]\d\d|10\d\d"), dict(ok, **{"str(r.pressure)": lambda p: "%.1f hPa" % float(p)}))
    ctx.case("pressure in inches", "Metar", T + "10/08 A{p}", dict(p=r"2[7-9]\d\d|30\d\d"),
             dict(ok, **{"str(r.pressure)": inches}))
    P = c20.BASE
    ctx.case("recent weather", "Metar", P + "RE{d}{p}", dict(d="(SH|TS|FZ|BL)?", p="RA|SN|GR|DZ|SS|FG"),
             dict(ok, **{"str(r.recent_weather)": lambda d, p: weather("", d, p)}))
    ctx.case("windshear", "Metar", P + "WS R{n} WS R{m}", dict(n=r"\d\d[RLC]?", m=r"[0-3]\d[RLC]?"),
             {"str(r.windshears[0])": lambda n: shear(n), "str(r.windshears[1])": lambda m: shear(m),
              "str(r.windshears)": lambda n, m: shear(n) + " | " + shear(m)})
    ctx.case("windshear on all runways", "Metar", P + "{w}", dict(w="WS ALL RWY"),
             {"str(r.windshears)": lambda: "all runways", "str(r.windshears[0])": lambda: "all"})
    ctx.case("sea state", "Metar", P + "W{s}{t}/S{n}", dict(s="M?", t=r"\d\d", n=r"\d"),
             dict(ok, **{"str(r.sea_state)": lambda s, t, n: "temperature %s, no significant wave height, %s" % (temp(s, t), c19.STATE[int(n)])}))
    ctx.case("wave height", "Metar", P + "W{s}{t}/H{h}", dict(s="M?", t=r"0\d|2[0-9]", h=r"0\d\d|1[0-2]\d"),
             dict(ok, **{"str(r.sea_state)": lambda s, t, h: "temperature %s, significant wave height %.1f m, no sea state" % (temp(s, t), float(h) / 10)}))
    S = "str(r.runway_state)"
    ctx.case("runway and deposit", "Metar", P + "R{n}/{d}1{e}35", dict(n=r"\d\d[RLC]?", d=r"\d|/", e="90|92|//"),
             dict(ok, **{S: lambda n, d, e: surface(n, d, "1", e, "35")}))
    ctx.case("deposit and depth", "Metar", P + "R24/{d}2{e}93", dict(d=r"\d|/", e=r"\d\d|//"), dict(ok, **{S: lambda d, e: surface("24", d, "2", e, "93")}))
    ctx.case("extent and friction", "Metar", P + "R24/3{c}12{f}", dict(c=r"\d|/", f=r"\d\d|//"), dict(ok, **{S: lambda c, f: surface("24", "3", c, "12", f)}))
    ctx.case("closed by snow", "Metar", P + "R{n}/SNOCLO", dict(n=r"(\d\d[RLC]?)?"), dict(ok, **{S: lambda: "aerodrome is closed due to extreme deposit of snow"}))
    ctx.case("cleared", "Metar", P + "R{n}/CLRD//", dict(n=r"\d\d[RLC]?"), dict(ok, **{S: lambda n: c20.clrd(n)}))
    kw = dict(year=2021, month=2)
    ctx.case("report time", "Metar", "METAR ZZZZ {d}{h}{m}Z 00000KT", dict(d="0[1-9]|1[0-9]|2[0-8]", h=r"[01]\d|2[0-3]", m="00|07|59"),
             {"str(r.time)": lambda d, h, m: "2021-02-%s %s:%s:00" % (d, h, m)}, kw)
    ctx.case("trends", "Metar", "METAR ZZZZ 102330Z 00000KT 9999 10/08 Q1013 {k} {p}{h}{m} RA", dict(k="BECMG|TEMPO", p="AT|FM|TL", h="00", m=r"[0-5]\d"),
             {"str(r.weather_trends[0].trend_indicator)": lambda k, p, h, m: {"BECMG": "becoming", "TEMPO": "temporary"}[k] + {
                 "AT": " at 2021-02-11 00:%s:00", "FM": " from 2021-02-11 00:%s:00 until 2021-02-11 01:30:00",
                 "TL": " from 2021-02-10 23:30:00 until 2021-02-11 00:%s:00"}[p] % m}, kw)
    ctx.case("no trend", "Metar", "METAR ZZZZ 102330Z 00000KT 9999 10/08 Q1013 {k}", dict(k="NOSIG"),
             {"str(r.weather_trends[0].trend_indicator)": lambda: "no significant changes from 2021-02-10 23:30:00 until 2021-02-11 01:30:00"}, kw)
    V = "TAF ZZZZ 270500Z 27{h}/{e}{f} 18010KT 9999"
    span = lambda h, e, f: "from 2021-02-27 %s:00:00 until %s:00:00" % (h, {"28": "2021-02-28 ", "01": "2021-03-01 "}[e] + f)
    ctx.case("validity", "Taf", V, dict(h="0[6-9]|1[0-8]", e="28|01", f=r"[01]\d|2[0-3]"), {"str(r.valid)": span}, kw)
    X = "TAF ZZZZ 270500Z 2706/2806 18010KT 9999 "
    for x, n in (("TX", "max"), ("TN", "min")):
        a = "r.%s_temperatures" % n
        ctx.case("%s temperature" % n, "Taf", X + x + "{s}{t}/{d}{h}Z", dict(s="M?", t=r"\d\d", d="27", h=r"0[6-9]|1\d"),
                 {"str(%s[0])" % a: lambda s, t, h: "%s at 2021-02-27 %s:00:00" % (temp(s, t), h),
                  "str(%s)" % a: lambda s, t, h: "%s at 2021-02-27 %s:00:00" % (temp(s, t), h)}, kw)
    ind = {"BECMG": "becoming", "TEMPO": "temporary", "PROB30": "probability 30%", "PROB40": "probability 40%", "PROB30 TEMPO": "probability 30% temporary"}
    A = "str(r.changes_forecasted[%d]).strip()"
    ctx.case("changes", "Taf", X + "{k} 2708/2712 4000 {i} 28{h}/2804 {p}", dict(k=words("BECMG", "TEMPO", "PROB30"), i="BECMG|TEMPO", h="0[0-3]", p="RA|BR"),
             {A % 0: lambda k: ind[k] + " from 2021-02-27 08:00:00 until 2021-02-27 12:00:00",
              A % 1: lambda i, h: ind[i] + " from 2021-02-28 %s:00:00 until 2021-02-28 04:00:00" % h}, kw, blur=False)
    H = {"METAR": "Meteorological Aerodrome Report (METAR)", "SPECI": "Special Aerodrome Report (SPECI)", "TAF": "Terminal Aerodrome Forecast (TAF)"}
    MOD = {"COR": "correction", "CORR": "correction", "AMD": "amendment", "AUTO": "automatic report", "NIL": "missing report", "TEST": "testing report",
           "FINO": "missing report"}
    ctx.case("type and modifier", "Metar", "{t} ZZZZ 100000Z {m} 18010KT", dict(t="METAR|SPECI", m=words(*MOD)),
             {"str(r.type_)": lambda t: H[t], "str(r.modifier)": lambda m: MOD[m]})
    ctx.case("TAF type and modifier", "Taf", "TAF {m} ZZZZ 100500Z 1006/1112 18010KT", dict(m="AMD|COR"),
             {"str(r.type_)": lambda: H["TAF"], "str(r.modifier)": lambda m: MOD[m], "str(r.missing)": lambda: "", "str(r.cancelled)": lambda: ""})
    ctx.case("missing TAF", "Taf", "TAF ZZZZ 100500Z {m}", dict(m="NIL"), {"str(r.missing)": lambda: "missing report"})
    ctx.case("cancelled TAF", "Taf", "TAF ZZZZ 100500Z 1006/1112 {m}", dict(m="CNL"), {"str(r.cancelled)": lambda: "cancelled"})
    none = {"str(r.%s)" % x: lambda: "" for x in ("modifier", "wind", "wind_variation", "prevailing_visibility", "minimum_visibility", "runway_ranges", "weathers",
                                               "clouds", "temperatures", "pressure", "recent_weather", "windshears", "sea_state", "runway_state", "weather_trends")}
    ctx.case("absent groups", "Metar", "{t} ZZZZ 100000Z", dict(t="METAR|SPECI"), none)
    none = {"str(r.%s)" % x: lambda: "" for x in ("modifier", "wind", "prevailing_visibility", "weathers", "clouds", "max_temperatures", "min_temperatures",
                                               "changes_forecasted")}
    ctx.case("absent groups of a TAF", "Taf", "TAF {s} 100500Z 1006/1112", dict(s="ZZZZ|XXXX"), none)
    whole(ctx, kw)


LINES = r'''[x for x in str(r).split("\n") if x and not x.startswith('Name:')]'''
# groups of a METAR with, for each, the variants taken and their description
BODY = [
    ("18010{v}KT", "(G2[0-9])?", lambda v: "S (180.0°) 10.0 kt" + (" gust of %.1f kt" % float(v[1:]) if v else "")),
    ("150V{v}", "[12]90", lambda v: "from SSE (150.0°) to " + compass(v)),
    ("{v}00", "[3-5]0", lambda v: "%.1f km" % (float(v) / 10)),
    ("2{v}00NE", r"\d", lambda v: "2.%s km to NE (45.0°)" % v),
    ("R12/0800{v}", "[NUD]", lambda v: range_("12", "", "0800", "", "", v)),
    ("R30/{v}", "1000|P1500", lambda v: range_("30", v[:-4], v[-4:])),
    ("{v}RA", words("", "-", "+"), lambda v: weather(v, "", "RA")),
    ("{v}", "BR|FG", lambda v: OBSC[v]),
    ("FEW0{v}", r"\d\d", lambda v: layer("FEW", "0" + v)),
    ("SCT1{v}CB", r"0\d", lambda v: layer("SCT", "1" + v, "CB")),
    ("10/{v}", r"M?0\d", lambda v: pair("", "10", v[:-2], v[-2:])),
    ("Q10{v}", r"\d\d", lambda v: "10%s.0 hPa" % v),
    ("RE{v}", "RA|SN", lambda v: PRECIP[v]),
    ("WS R{v}", "12|07", lambda v: v),
    ("W1{v}/S3", r"\d", lambda v: "temperature 1%s.0°C, no significant wave height, slight" % v),
    ("R12/4215{v}", "94|35", lambda v: surface("12", "4", "2", "15", v)),
]
CH = {"TEMPO": "temporary", "BECMG": "becoming"}


def whole(ctx, kw):
    """The description of the report: those of its groups, in their order."""
    ex = ["", "090", "40", "0", "N", "1000", "", "BR", "10", "02", "M02", "13", "RA", "12", "2", "94"]
    head = ["Meteorological Aerodrome Report (METAR)", "2021-02-10 00:00:00"]
    ex[1] = "190"
    for i, (g, f, d) in enumerate(BODY):
        text = " ".join(h if k == i else h.replace("{v}", ex[k]) for k, (h, _, _) in enumerate(BODY))
        fixed = [e(ex[k]) for k, (_, _, e) in enumerate(BODY)]
        ctx.case("METAR with group " + g.replace("{v}", "_"), "Metar", "METAR ZZZZ 100000Z " + text, dict(v=f),
                 {LINES: lambda v, i=i, d=d, fixed=fixed: head + fixed[:i] + [d(v)] + fixed[i + 1:]}, kw, blur=False)
    ctx.case("METAR with trends", "Metar", "{t} ZZZZ 100000Z AUTO 18010KT 9999 {k} FM0030 3000 {w} BECMG AT0130 {c}",
             dict(t="METAR|SPECI", k="TEMPO", w="BR|-RA", c="NSC|BKN010"),
             {LINES: lambda t, w, c: [{"METAR": head[0], "SPECI": "Special Aerodrome Report (SPECI)"}[t], head[1], "automatic report", "S (180.0°) 10.0 kt", "10.0 km",
                                      "temporary from 2021-02-10 00:30:00 until 2021-02-10 02:00:00", "3.0 km", "mist" if w == "BR" else "light rain",
                                      "becoming at 2021-02-10 01:30:00", "clear" if c == "NSC" else "broken at 1000.0 feet"]}, kw, blur=False)
    ctx.case("TAF with changes", "Taf", "TAF {m} ZZZZ 100500Z 1006/1112 {d}010KT 4000 -RA {c} TX20/1016Z TNM02/1105Z {k} 1008/1010 3000 FG PROB30 TEMPO 1014/1016 CAVOK",
             dict(m="AMD|COR", d="18|09", c="FEW010|BKN020CB", k="TEMPO|BECMG"),
             {LINES: lambda m, d, c, k: ["Terminal Aerodrome Forecast (TAF)", {"AMD": "amendment", "COR": "correction"}[m], "2021-02-10 05:00:00",
                                         "from 2021-02-10 06:00:00 until 2021-02-11 12:00:00", compass(d + "0") + " 10.0 kt", "4.0 km", "light rain",
                                         layer(c[:3], c[3:6], c[6:]), "20.0°C at 2021-02-10 16:00:00", "-2.0°C at 2021-02-11 05:00:00",
                                         CH[k] + " from 2021-02-10 08:00:00 until 2021-02-10 10:00:00",
                                         "probability 30% temporary from 2021-02-10 14:00:00 until 2021-02-10 16:00:00"]}, kw, blur=False)
    ctx.case("missing and cancelled TAF", "Taf", "TAF ZZZZ 100500Z {m}", dict(m="NIL|1006/1112 CNL"),
             {LINES: lambda m: ["Terminal Aerodrome Forecast (TAF)", "2021-02-10 05:00:00"] + (
                 ["missing report"] if m == "NIL" else ["from 2021-02-10 06:00:00 until 2021-02-11 12:00:00", "cancelled"])}, kw, blur=False)
