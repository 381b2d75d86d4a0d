"""Dictionaries mirror the report."""
from aai import decode
from core import Finding
from .spec import *

METHOD = ("Abstract interpretation of report construction, as_dict and to_json: each entry is compared with its accessor on the same abstract "
          "report, and the type of every leaf is checked.")
RULE = "every entry of the dictionaries of METARs and TAFs, with each group in turn symbolic (or absent) among the others fixed"
ASSUMES = ["the code of a pressure and of a TAF temperature in the dictionaries is left unspecified (existing tests pin it)",
           "dictionary names are those of the present version: the tests pin most of them"]
ORD = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth"]


def wind(d, o, root=""):
    return [(d + '["direction"]["cardinal"]', o + ".cardinal_direction"), (d + '["direction"]["variable"]', o + ".variable"),
            (d + '["direction"]["direction"]', o + ".direction_in_degrees"), (d + '["direction"]["units"]', '"degrees"'),
            (d + '["speed"]["speed"]', o + ".speed_in_knot"), (d + '["speed"]["units"]', '"knot"'),
            (d + '["gust"]["speed"]', o + ".gust_in_knot"), (d + '["gust"]["units"]', '"knot"'), (d + '["code"]', o + ".code")]


def angle(d, o):
    return [(d + '["cardinal"]', o + "cardinal_direction"), (d + '["direction"]', o + "in_degrees"), (d + '["units"]', '"degrees"'),
            (d + '["variable"]', "False")]


def variation(d, o):
    return (angle(d + '["from_"]', o + ".from_") + angle(d + '["to"]', o + ".to_") + [(d + '["code"]', o + ".code")])


def visibility(d, o, cavok=True):
    r = [(d + '["visibility"]["distance"]', o + ".in_meters"), (d + '["visibility"]["units"]', '"meters"'),
         (d + '["direction"]["cardinal"]', o + ".cardinal_direction"), (d + '["direction"]["direction"]', o + ".direction_in_degrees"),
         (d + '["code"]', o + ".code")]
    return r + [(d + '["cavok"]', o + ".cavok")] if cavok else r


def plain(d, o, *names):
    return [(d + '["%s"]' % n, o + "." + n) for n in names]


WX = ("intensity", "description", "precipitation", "obscuration", "other", "code")


def layer(d, o):
    return plain(d, o, "cover", "oktas", "code") + [(d + '["type"]', o + ".cloud_type"), (d + '["height"]', o + ".height_in_meters"),
                                                   (d + '["height_units"]', '"meters"')]


def many(d, o, n, one, label=True):
    r = [("len(%s)" % d, "len(%s)" % o), ("len(%s)" % d, str(n))]
    for i in range(n):
        r += one(d + ('["%s"]' % ORD[i] if label else "[%d]" % i), o + "[%d]" % i)
    return r


def rvr(d, o):
    return (plain(d, o, "name", "trend", "code") + [(d + '["low_range"]["distance"]', o + ".low_in_meters"),
            (d + '["low_range"]["units"]', '"meters"'), (d + '["high_range"]["distance"]', o + ".high_in_meters"),
            (d + '["high_range"]["units"]', '"meters"')])


def time(d, o):
    return [(d + '["datetime"]', "str(%s.time)" % o), (d + '["code"]', o + ".code")]


def forecast(d, o, nw, nc):
    return (wind(d + '["wind"]', o + ".wind") + visibility(d + '["prevailing_visibility"]', o + ".prevailing_visibility")
            + many(d + '["weathers"]', o + ".weathers", nw, lambda a, b: plain(a, b, *WX), label=False)
            + many(d + '["clouds"]', o + ".clouds", nc, layer, label=False) + plain(d, o, "flight_rules", "code"))


def trend(nw, nc):
    def one(d, o):
        t, i = d + '["trend_indicator"]', o + ".trend_indicator"
        return (forecast(d, o, nw, nc) + time(t + '["forecast_period"]["init"]', i + ".forecast_period[0]")
                + time(t + '["forecast_period"]["end"]', i + ".forecast_period[1]") + time(t + '["from_"]', i + ".period_from")
                + time(t + '["until"]', i + ".period_until") + plain(t, i, "translation", "code"))
    return one


def valid(d, o):
    return time(d + '["from_"]', o + ".period_from") + time(d + '["until"]', o + ".period_until") + plain(d, o, "code")


def change(nw, nc):
    def one(d, o):
        t, i = d + '["change_indicator"]', o + ".change_indicator"
        return forecast(d, o, nw, nc) + valid(t + '["valid"]', i + ".valid") + plain(t, i, "translation", "code")
    return one


ST = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country", "code")
HEAD = ([('D["code"]', "r.raw_code"), ('D["sections"]', "r.sections"), ('D["unparsed_groups"]', "r.unparsed_groups"),
         ('D["type_"]["type"]', "r.type_.type_"), ('D["type_"]["code"]', "r.type_.code"),
         ('D["modifier"]["modifier"]', "r.modifier.description"), ('D["modifier"]["code"]', "r.modifier.code"),
         ('D["flight_rules"]', "r.flight_rules")] + plain('D["station"]', "r.station", *ST) + time('D["time"]', "r.time"))
METAR = {
    "wind": wind('D["wind"]', "r.wind"), "variation": variation('D["wind_variation"]', "r.wind_variation"),
    "visibility": visibility('D["prevailing_visibility"]', "r.prevailing_visibility"),
    "minimum": visibility('D["minimum_visibility"]', "r.minimum_visibility", False),
    "temperatures": [('D["temperatures"]["temperature"]["temperature"]', "r.temperatures.temperature_in_celsius"),
                     ('D["temperatures"]["dewpoint"]["temperature"]', "r.temperatures.dewpoint_in_celsius"),
                     ('D["temperatures"]["temperature"]["units"]', '"celsius"'), ('D["temperatures"]["code"]', "r.temperatures.code")],
    "pressure": [('D["pressure"]["pressure"]', "r.pressure.in_hPa"), ('D["pressure"]["units"]', '"hectopascals"')],
    "recent": plain('D["recent_weather"]', "r.recent_weather", *WX[1:]),
    "sea": [('D["sea_state"]["state"]', "r.sea_state.state"), ('D["sea_state"]["code"]', "r.sea_state.code"),
            ('D["sea_state"]["temperature"]["temperature"]', "r.sea_state.temperature_in_celsius"),
            ('D["sea_state"]["height"]["distance"]', "r.sea_state.height_in_meters")],
    "runway": plain('D["runway_state"]', "r.runway_state", "name", "deposits", "contamination", "deposits_depth", "surface_friction",
                    "snoclo", "clrd", "code"),
    "head": HEAD, "remark": [('D["remark"]', "r.remark")],
}
RV = lambda n: many('D["runway_ranges"]', "r.runway_ranges", n, rvr)
WS = lambda n: many('D["windshears"]', "r.windshears", n, lambda a, b: plain(a, b, "name", "code") + [(a + '["all"]', b + ".all_")])
WE = lambda n: many('D["weathers"]', "r.weathers", n, lambda a, b: plain(a, b, *WX))
CL = lambda n: many('D["clouds"]', "r.clouds", n, layer)
TR = lambda n, nw=0, nc=0: many('D["weather_trends"]', "r.weather_trends", n, trend(nw, nc))
TXD = lambda n, k, nm: many('D["%s"]' % nm, "r." + nm, n, lambda a, b: [(a + '["temperature"]', b + ".in_celsius"), (a + '["units"]', '"celsius"'),
                                                                      (a + '["datetime"]', "str(%s.time.time)" % b)])
CH = lambda n, nw=0, nc=0: many('D["changes_forecasted"]', "r.changes_forecasted", n, change(nw, nc))
TAF = {"wind": METAR["wind"], "visibility": METAR["visibility"], "head": HEAD,
       "missing": [('D["missing"]["is_missing"]', "r.missing.is_missing"), ('D["missing"]["code"]', "r.missing.code")],
       "cancelled": [('D["cancelled"]["is_cancelled"]', "r.cancelled.is_cancelled"), ('D["cancelled"]["code"]', "r.cancelled.code")],
       "valid": valid('D["valid"]', "r.valid")}


def mirror(ctx, name, cls, text, fields, pairs):
    D = ctx.D
    paths = D.construct(cls, text, fields, year=2021, month=3)
    found, good = [], []
    for p in paths:
        if p.kind == "ok":
            good.append(p)
        elif D.witness(p.S) is not None:
            found.append(Finding("construction fails with %s" % p.val.cls, p.val.site, text))
    n = 25
    for k in range(0, len(pairs), n):
        part = pairs[k:k + n]
        e = "(lambda D: [i for i, ok in enumerate([%s]) if not ok])(r.as_dict())" % ", ".join("(%s) == (%s)" % p for p in part)
        for f in D.check(good, e, lambda: [])[:3]:
            bad = [part[i] for i in f.got] if isinstance(f.got, list) else []
            t = text
            for q, v in f.words.items():
                t = t.replace("{%s}" % (q,), v)
            site = f.got.site if isinstance(f.got, decode.Exc) else ", ".join(d for d, o in bad)
            found.append(Finding(name, site, "%s(%r): %s" % (cls, t, "; ".join("%s differs from %s" % (d.replace("D[", "as_dict()["), o) for d, o in bad) or f.got), f.calls))
    for f in D.check(good, "type(r.to_json()) is str", lambda: True)[:2]:
        found.append(Finding(name + ": to_json", f.got.site if isinstance(f.got, decode.Exc) else "to_json", "%s(%r) with %s: %r" % (cls, text, f.words, f.got)))
    return found, {"entries": len(pairs)}


M_PARTS = ["type_", "modifier", "station", "time", "wind", "wind_variation", "prevailing_visibility", "minimum_visibility", "runway_ranges", "weathers", "clouds",
           "temperatures", "pressure", "recent_weather", "windshears", "sea_state", "runway_state", "weather_trends"]
T_PARTS = ["type_", "modifier", "station", "time", "missing", "cancelled", "valid", "wind", "prevailing_visibility", "weathers", "clouds", "max_temperatures",
           "min_temperatures", "changes_forecasted"]


def parts_json(ctx, cls, text, fields, parts):
    """to_json of every group is the JSON of its dictionary."""
    D = ctx.D
    found = []
    paths = D.construct(cls, text, fields, year=2021, month=3)
    e = "(lambda J: [i for i, x in enumerate([%s]) if x.to_json() != J.dumps(x.as_dict())])(__import__('json'))" % ", ".join(parts)
    for f in D.check(paths, e, lambda: [])[:3]:
        site = f.got.site if isinstance(f.got, decode.Exc) else ", ".join(parts[i] for i in f.got) if isinstance(f.got, list) else "to_json"
        found.append(Finding("to_json of the groups of %s" % text, site, "%s(%r) with %s: to_json is not the JSON of as_dict in %s" % (cls, text, f.words, site), f.calls))
    return found, {"groups": len(parts)}


def build(ctx):
    def groups(cls, text, fields, parts, more=()):
        parts = ["r." + x for x in parts] + list(more)
        ctx.job("to_json of groups of " + text, lambda c: parts_json(c, cls, text, fields, parts))
    FULL = ("{t} LEZL 100000Z AUTO 18005G{g}KT 150V210 8000 2000NE R12/0800 RA FEW010 10/{d} Q1013 RERA WS R11 W12/S3 R12/421594 BECMG FM0010 TL0130 09004G15KT 0800 "
            "FG VV002 TEMPO AT0020 RA FEW020 RMK A B")
    W0, W1 = "r.weather_trends[0].", "r.weather_trends[1]."
    groups("Metar", FULL, dict(t="METAR|SPECI", g=r"2\d", d=r"M?0\d"), M_PARTS, ["r.runway_ranges[0]", "r.weathers[0]", "r.clouds[0]", "r.windshears[0]"] + [
        W0[:-1], W1[:-1]] + [w + x for w in (W0, W1) for x in ("trend_indicator", "wind", "prevailing_visibility", "weathers", "clouds", "weathers[0]", "clouds[0]")] + [
            W0 + "trend_indicator.period_from", W0 + "trend_indicator.period_until"])
    groups("Metar", "{t} ZZZZ 100000Z", dict(t="METAR|SPECI"), M_PARTS)
    groups("Taf", "TAF {m} LEZL 100500Z 1006/1112 18010G{g}KT 6000 RA FEW010 TX15/1012Z TN08/1106Z TEMPO 1010/1012 09010KT 0800 FG VV001 FM101800 18010KT 9999 -RA BKN020CB",
           dict(m="AMD|COR", g=r"2\d"), T_PARTS, ["r.weathers[0]", "r.clouds[0]", "r.max_temperatures[0]", "r.min_temperatures[0]", "r.valid.period_from"] + [
               "r.changes_forecasted[%d]%s" % (k, x) for k in (0, 1) for x in ("", ".change_indicator", ".change_indicator.valid", ".wind", ".prevailing_visibility",
                                                                               ".weathers", ".clouds", ".weathers[0]", ".clouds[0]")])
    groups("Taf", "TAF {s} 100500Z 1006/1112", dict(s="ZZZZ|XXXX"), T_PARTS)
    groups("Taf", "TAF ZZZZ 100500Z {m}", dict(m="NIL|1006/1112 CNL"), T_PARTS[:6])

    def case(name, cls, text, fields, pairs):
        uniq = list(dict.fromkeys(pairs))
        ctx.job(name, lambda c: mirror(c, name, cls, text, fields, uniq))
    allm = []
    for v in METAR.values():
        allm += v
    F = "METAR LEZL 100000Z 18005KT 150V210 8000 2000NE R12/0800 RA FEW010 10/08 Q1013 RERA"
    case("METAR with every group", "Metar", F.replace("METAR", "SPECI").replace("100000Z", "100000Z COR")
         + " WS R11 W12/S3 R12/421594 BECMG FM0010 TL0130 09004G15KT 0800 FG VV002 TEMPO AT0020 RA FEW020 RMK A B", {},
         allm + RV(1) + WE(1) + CL(1) + WS(1) + many('D["weather_trends"]', "r.weather_trends", 2, trend(1, 1)))
    case("bare METAR", "Metar", "METAR ZZZZ", {}, allm + RV(0) + WE(0) + CL(0) + WS(0) + TR(0))
    case("METAR unparsed", "Metar", F + " XYZ ABC NOSIG RMK XX", {}, METAR["head"] + METAR["remark"] + TR(1))
    R = "METAR ZZZZ 100000Z "
    case("wind", "Metar", R + "{d}{s}{g}{u}", dict(d=r"([0-2]\d|3[0-6])0|VRB|///", s=r"\d\d|//", g=r"|G\d\d", u="KT|MPS"), METAR["wind"])
    case("wind variation", "Metar", R + "09005KT {a}V{b}", dict(a=r"(0[1-9]|[12]\d|3[0-6])0", b=r"(0[1-9]|[12]\d|3[0-6])0"), METAR["variation"])
    case("visibility", "Metar", R + "{v}{d}", dict(v=r"\d{4}", d="|N|NE|E|SE|S|SW|W|NW|NDV"), METAR["visibility"] + METAR["minimum"])
    case("CAVOK", "Metar", R + "{v}", dict(v="CAVOK|10SM|1/2SM|M1/4SM|8KM|////"), METAR["visibility"])
    case("minimum visibility", "Metar", R + "9999 {v}{d}", dict(v=r"\d{4}", d="N|NE|E|SE|S|SW|W|NW"), METAR["visibility"] + METAR["minimum"])
    case("runway ranges", "Metar", R + "9999 R{n}/{l}{a}{u}{t} R14L/0500V1000FTD", dict(n=r"\d\d[RLC]?", l="|M|P", a=r"\d{4}", u="|FT", t="|U|N|D"), RV(2))
    case("variable runway range", "Metar", R + "9999 R{n}/0500V{l}{a}{u}", dict(n=r"\d\d[RLC]?", l="|M|P", a=r"\d{4}", u="|FT"), RV(1))
    W = dict(i=r"|-|\+|VC", d="|" + words(*[k for k in DESCRIPTOR if k]), p=words("RA", "SN", "FG", "BR", "SQ", "FC", "UP"))
    LIM = {"": None, "M": "below of", "P": "above of"}
    X = 'r.as_dict()["runway_ranges"]["second"]'
    ctx.case("limits of a runway range", "Metar", R + "9999 R01/0500 R{n}/{l}0500V{k}1000", dict(n="12|27L", l="|M|P", k="|M|P"),
             {X + '["rvr_low"]': lambda l: LIM[l], X + '["rvr_high"]': lambda k: LIM[k]})
    case("weathers", "Metar", R + "9999 {i}{d}{p} BR {d}{p}", W, WE(3))
    C = dict(c="FEW|SCT|BKN|OVC|VV|///", h=r"\d{3}|///", t="|CB|TCU|///")
    case("clouds", "Metar", R + "9999 {c}{h}{t} BKN010 NSC FEW020CB", C, CL(4))
    case("temperatures", "Metar", R + "9999 {a}{t}/{b}{d}", dict(a="|M", b="|M", t=r"\d\d|//", d=r"\d\d|//"), METAR["temperatures"])
    case("pressure", "Metar", R + "9999 {q}{p}", dict(q="|Q|A", p=r"\d{4}|////"), METAR["pressure"])
    case("recent weather", "Metar", R + "9999 RE{d}{p}", dict(d="|MI|BL|SH|TS|FZ", p="RA|SN|FG|SA|SQ|DS"), METAR["recent"])
    case("windshears", "Metar", R + "9999 {w} WS R09", dict(w=r"WS (R|RWY)\d\d[RLC]?|WS ALL RWY".replace("(R|RWY)", "R")), WS(2))
    case("sea state", "Metar", R + "9999 W{a}{t}/{s}", dict(a="|M", t=r"\d\d|//", s=r"S\d|H\d\d\d|H\d"), METAR["sea"])
    case("runway state", "Metar", R + "9999 R{n}/{d}", dict(n="08|24L|88|99", d=r"[\d/]{2}3595|42\d\d95|4215\d\d|CLRD70|SNOCLO|CLRD//"), METAR["runway"])
    case("remark", "Metar", R + "9999 {w} RMK {w} AO2 PK WND", dict(w="XYZ|RA|AO1"), METAR["head"] + METAR["remark"])
    case("modifier", "Metar", "{t} LEZL 100000Z {m} 00000KT", dict(t="METAR|SPECI", m="AUTO|COR|CORR|NIL|CCA|TEST|FINO"), METAR["head"])
    case("trend", "Metar", R + "9999 {k} {f}0010 {d}05KT {v} RA {c}020", dict(k="BECMG|TEMPO", f="FM|TL|AT", d=r"\d{2}0|VRB", v="0800|9999|CAVOK", c="BKN|SCT"), TR(1, 1, 1))
    case("trends", "Metar", R + "9999 TEMPO {v} RA {c}020 BECMG FM0050 TL0120 {v} FG {c}020", dict(v="0800|9999|CAVOK", c="BKN|SCT"), TR(2, 1, 1))
    AT = 'D["weather_trends"]["first"]["trend_indicator"]["at"]'
    at = [("(%s is None)" % AT, "(r.weather_trends[0].trend_indicator.period_at is None)")] + time(AT, "r.weather_trends[0].trend_indicator.period_at")
    IND = [p for p in TR(1) if "trend_indicator" in p[0]]
    for w, f in (("AT{h}{m}", dict(h="00|01", m=r"[0-5]\d")), ("FM{h}{m} TL{g}00", dict(h="00|01", m="00|30", g="01|02"))):
        case("trend times " + w, "Metar", R + "9999 {k} " + w + " RA", dict(f, k="BECMG|TEMPO"), IND + (at if "AT" in w else [(AT, "None")]))
    Z = dict(k="BECMG|TEMPO", d="000|090|VRB", s="00|05", g="|G00|G20", v="0000|0100|////", c="FEW|OVC|VV|///", h="000|001|///")
    case("zeros of a trend", "Metar", R + "9999 {k} {d}{s}{g}KT {v} FG {c}{h}", Z, TR(1, 1, 1))
    case("trend at", "Metar", R + "9999 BECMG AT0010 RA", {}, time('D["weather_trends"]["first"]["trend_indicator"]["at"]', "r.weather_trends[0].trend_indicator.period_at"))
    case("trend whole", "Metar", R + "9999 {w}", dict(w="NOSIG"), TR(1) + [('D["weather_trends"]["first"]["trend_indicator"]["at"]', "None")])
    allt = []
    for v in TAF.values():
        allt += v
    G = "TAF AMD LEZL 100500Z 1006/1112 18010G20KT 6000 RA FEW010 TX15/1012Z TN08/1106Z"
    case("TAF with every group", "Taf", G + " TEMPO 1010/1012 09010KT 0800 FG VV001 FM101800 18010KT 9999 -RA BKN020CB", {},
         allt + WE(1) + CL(1) + TXD(1, 0, "max_temperatures") + TXD(1, 0, "min_temperatures") + CH(2, 1, 1))
    case("bare TAF", "Taf", "TAF ZZZZ", {}, [p for p in allt if p not in TAF["valid"]] + WE(0) + CL(0) + TXD(0, 0, "max_temperatures") + CH(0))
    case("missing TAF", "Taf", "TAF LEZL 100500Z NIL", {}, allt)
    case("cancelled TAF", "Taf", "TAF {m} LEZL 100500Z 1006/1112 CNL", dict(m="AMD|COR"), allt)
    Q = "TAF ZZZZ 100500Z 1006/1112 "
    case("TAF wind", "Taf", Q + "{d}{s}{g}{u}", dict(d=r"([0-2]\d|3[0-6])0|VRB|///", s=r"\d\d", g=r"|G\d\d", u="KT|MPS"), TAF["wind"])
    case("TAF visibility", "Taf", Q + "{v}", dict(v=r"\d{4}|CAVOK|P6SM|1/2SM"), TAF["visibility"])
    case("TAF weathers", "Taf", Q + "9999 {i}{d}{p} BR", W, WE(2))
    case("TAF clouds", "Taf", Q + "9999 {c}{h}{t} BKN010", C, CL(2))
    case("TAF temperatures", "Taf", Q + "9999 TX{a}{t}/1012Z TX20/1112Z TN{a}{t}/1106Z", dict(a="|M", t=r"\d\d"),
         TXD(2, 0, "max_temperatures") + TXD(1, 0, "min_temperatures"))
    case("TAF change", "Taf", Q + "9999 {k} 10{a}/1024 {d}05KT {v} RA {c}020", dict(k="BECMG|TEMPO|PROB30|PROB40 TEMPO", a="08|12|23", d=r"\d{2}0|VRB", v="0800|9999|CAVOK", c="BKN|SCT"), CH(1, 1, 1))
    Z = dict(Z, k="BECMG|TEMPO|PROB30 TEMPO")
    case("zeros of a TAF change", "Taf", Q + "9999 {k} 1010/1012 {d}{s}{g}KT {v} FG {c}{h}", Z, CH(1, 1, 1))
    case("TAF changes", "Taf", Q + "9999 FM10{a}30 VRB03KT {v} RA {c}020 TEMPO 1014/1016 {v} FG {c}001 BECMG 1015/1018 CAVOK RA {c}030",
         dict(a="08|12", v="0800|9999", c="BKN|SCT"), CH(3, 1, 1))
    case("eight changes", "Taf", Q + "9999 " + " ".join("TEMPO 10%02d/10%02d {v}" % (h, h + 1) for h in range(8, 16)), dict(v="0800|9999"), CH(8))
