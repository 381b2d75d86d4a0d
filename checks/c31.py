"""Header groups and absent groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every accessor, over symbolic headers and reports lacking groups."
RULE = ("every type with every modifier; each group of METARs, trends, TAFs and changes absent in turn, all absent, and each alone: the absent "
        "ones read as empty, the others as encoded")
TYPES = {"METAR": "Meteorological Aerodrome Report", "SPECI": "Special Aerodrome Report", "TAF": "Terminal Aerodrome Forecast"}
MODS = {"COR": "Correction", "CORR": "Correction", "AMD": "Amendment", "NIL": "Missing report", "AUTO": "Automatic report", "TEST": "Testing report",
        "FINO": "Missing report"}


def nothing(root, names):
    return {root + n: lambda: None for n in names}


SP = ["in_knot", "in_mps", "in_kph", "in_miph"]
WIND0 = ["code", "cardinal_direction", "gust_in_knot", "gust_in_mps", "speed_in_knot", "speed_in_mps", "direction_in_degrees", "direction_in_radians"]
VIS0 = ["code", "in_meters", "in_feet", "in_kilometers", "in_sea_miles", "cardinal_direction", "direction_in_degrees"]
WX0 = ["code", "description", "precipitation", "obscuration", "other"]


def group(text, code, value, empty, lists=(), false=(), also=None):
    """text; accessor of its code and value; accessors that are None, empty lists or False without it."""
    d = nothing("", empty)
    d.update({"len(%s)" % x: (lambda: 0) for x in lists})
    d.update({x: (lambda: False) for x in false})
    d.update(also or {})
    here = {code: lambda: value}
    if code.endswith(".code"):
        here["len(%s)" % code[:-5]] = lambda: len(value)
        d["len(%s)" % code[:-5]] = lambda: 0
    return text, here, d


def pre(root, names):
    return [root + n for n in names]


def body(r):
    """Groups of a METAR body."""
    return [
        group("18010G20KT", r + "wind.code", "18010G20KT", pre(r + "wind.", WIND0), false=[r + "wind.variable"]),
        group("150V210", r + "wind_variation.code", "150V210",
              pre(r + "wind_variation.", ["code", "from_in_degrees", "to_in_degrees", "from_cardinal_direction", "to_cardinal_direction", "from_in_radians", "to_in_gradians"])),
        group("4000", r + "prevailing_visibility.code", "4000", pre(r + "prevailing_visibility.", VIS0), false=[r + "prevailing_visibility.cavok"]),
        group("2000NE", r + "minimum_visibility.code", "2000NE", pre(r + "minimum_visibility.", VIS0)),
        group("R12/0800 R30/1000", r + "runway_ranges.codes", ["R12/0800", "R30/1000"], [], lists=[r + "runway_ranges"]),
        group("-RA BR", r + "weathers.codes", ["-RA", "BR"], [], lists=[r + "weathers"]),
        group("FEW010 SCT020", r + "clouds.codes", ["FEW010", "SCT020"], [], lists=[r + "clouds"], false=[r + "clouds.ceiling"]),
        group("10/M02", r + "temperatures.code", "10/M02",
              pre(r + "temperatures.", ["code", "temperature_in_celsius", "dewpoint_in_celsius", "temperature_in_kelvin", "dewpoint_in_fahrenheit", "temperature_in_rankine"])),
        group("Q1013", r + "pressure.in_hPa", 1013.0, pre(r + "pressure.", PRES)),
        group("RERA", r + "recent_weather.code", "RERA", pre(r + "recent_weather.", WX0)),
        group("WS R12 WS R30", r + "windshears.names", ["12", "30"], [], lists=[r + "windshears"], false=[r + "windshears.all_runways"]),
        group("W12/S3", r + "sea_state.code", "W12/S3", pre(r + "sea_state.", ["code", "state", "temperature_in_celsius", "height_in_meters", "height_in_feet"])),
        group("R12/421594", r + "runway_state.code", "R12/421594",
              pre(r + "runway_state.", ["code", "name", "deposits", "contamination", "deposits_depth", "surface_friction", "clrd"]), false=[r + "runway_state.snoclo"]),
    ]


def forecast(r):
    b = body(r)
    return [b[0], b[2], b[5], b[6]]


def subsets(ctx, nm, cls, head, groups, tail="", common=None, required=()):
    n = len(groups)
    pats = [set(range(n)) - {i} for i in range(n)] + [{i} for i in range(n)] + [set(), set(range(n)), set(range(0, n, 2)), set(range(1, n, 2))]
    if ctx.thorough:
        pats += [set(range(n)) - {i, j} for i in range(n) for j in range(i)]
    seen = []
    for p in pats:
        p = p | set(required)
        if p in seen:
            continue
        seen.append(p)
        obs = {}
        for i, (t, here, empty) in enumerate(groups):
            obs.update(here if i in p else empty)
        obs.update(common or {})
        text = " ".join([head] + [groups[i][0] for i in sorted(p)] + [tail]).strip()
        ctx.case("%s with groups %s" % (nm, sorted(p)), cls, text, {}, obs)


def build(ctx):
    T = words(*[k for k in TYPES if k != "TAF"])
    for st in ("ZZZZ 100000Z ", ""):
        ctx.case("type and modifier %r" % st, "Metar", "{t} " + st + "{m} 18010KT", dict(t=T, m=words(*MODS)) if st else dict(t=T, m="AMD|NIL|COR"),
                 {"r.type_.type_": lambda t: TYPES[t], "r.type_.code": lambda t: t, "r.modifier.description": lambda m: MODS[m],
                  "r.modifier.code": lambda m: m, "r.wind.code": lambda: "18010KT", "r.unparsed_groups": lambda: []})
    ctx.case("no modifier", "Metar", "{t} ZZZZ 100000Z 18010KT", dict(t=T),
             {"r.type_.type_": lambda t: TYPES[t], "r.modifier.description": lambda: None, "r.modifier.code": lambda: None})
    ctx.case("no type", "Metar", "{s} 100000Z 18010KT", dict(s="ZZZZ|XXXX"),
             {"r.type_.type_": lambda: TYPES["METAR"], "r.type_.code": lambda: "METAR", "r.station.code": lambda s: s, "r.unparsed_groups": lambda: []})
    ctx.case("TAF type and modifier", "Taf", "TAF {m} ZZZZ 100500Z 1006/1112 18010KT", dict(m="AMD|COR"),
             {"r.type_.type_": lambda: TYPES["TAF"], "r.modifier.description": lambda m: MODS[m], "r.modifier.code": lambda m: m,
              "r.missing.is_missing": lambda: False, "r.missing.code": lambda: None, "r.cancelled.is_cancelled": lambda: False,
              "r.cancelled.code": lambda: None, "r.missing.description": lambda: None, "r.unparsed_groups": lambda: []})
    ctx.case("no TAF type", "Taf", "{s} 100500Z 1006/1112 18010KT", dict(s="ZZZZ|XXXX"),
             {"r.type_.type_": lambda: TYPES["TAF"], "r.type_.code": lambda: "TAF", "r.modifier.description": lambda: None, "r.station.code": lambda s: s,
              "r.unparsed_groups": lambda: []})
    for m in ("", "AMD ", "COR "):
        ctx.case("missing TAF after %r" % m, "Taf", "TAF %sZZZZ 100500Z {n}" % m, dict(n="NIL"),
                 {"r.missing.is_missing": lambda: True, "r.missing.code": lambda: "NIL", "r.missing.description": lambda: "Missing report",
                  "r.cancelled.is_cancelled": lambda: False, "r.modifier.code": lambda m=m: m.strip() or None, "r.unparsed_groups": lambda: [],
                  "r.wind.code": lambda: None})
        ctx.case("cancelled TAF after %r" % m, "Taf", "TAF %sZZZZ 100500Z 1006/1112 {n}" % m, dict(n="CNL"),
                 {"r.cancelled.is_cancelled": lambda: True, "r.cancelled.code": lambda: "CNL", "r.missing.is_missing": lambda: False,
                  "r.valid.code": lambda: "1006/1112", "r.unparsed_groups": lambda: [], "r.wind.code": lambda: None})
    st0 = {"r.station." + a: (lambda: None) for a in ("code", "name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country")}
    ctx.case("type alone", "Metar", "{t}", dict(t=T), {**st0, "r.time.code": lambda: None, "r.unparsed_groups": lambda: [], "r.sections": lambda t: [t, "", ""],
                                                     "r.type_.code": lambda t: t, "r.trend": lambda: "", "r.remark": lambda: "", "r.body": lambda t: t})
    ctx.case("TAF alone", "Taf", "TAF", {}, {**st0, "r.time.code": lambda: None, "r.unparsed_groups": lambda: [], "r.sections": lambda: ["TAF", ""],
                                           "r.body": lambda: "TAF", "r.weather_changes": lambda: "", "r.valid.code": lambda: None})
    ok = {"r.unparsed_groups": lambda: []}
    # the second visibility is only a minimum visibility after the first
    gs = body("r.")
    nomin = [g for i, g in enumerate(gs) if i != 3]
    subsets(ctx, "METAR", "Metar", "METAR ZZZZ 100000Z", nomin, "NOSIG", {**ok, **gs[3][2], "len(r.weather_trends)": lambda: 1})
    subsets(ctx, "METAR with both visibilities", "Metar", "SPECI ZZZZ 100000Z AUTO", gs, "RMK AO2", {**ok, "len(r.weather_trends)": lambda: 0, "r.modifier.code": lambda: "AUTO"},
            required=(2, 3))
    t = "r.weather_trends[0]."
    subsets(ctx, "METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 NSC TEMPO FM0010", forecast(t), "",
            {**ok, "r.wind.code": lambda: "00000KT", "len(r.weathers)": lambda: 0, "r.clouds.codes": lambda: ["NSC"], "r.prevailing_visibility.code": lambda: "9999",
             t + "trend_indicator.code": lambda: "TEMPO FM0010", t + "unparsed_groups": lambda: []})
    tx = group("TX15/1012Z", "r.max_temperatures[0].in_celsius", 15.0, [], lists=["r.max_temperatures"])
    tn = group("TNM05/1106Z", "r.min_temperatures[0].in_celsius", -5.0, [], lists=["r.min_temperatures"])
    subsets(ctx, "TAF", "Taf", "TAF ZZZZ 100500Z 1006/1112", forecast("r.") + [tx, tn], "", {**ok, "len(r.changes_forecasted)": lambda: 0})
    subsets(ctx, "TAF with a change", "Taf", "TAF ZZZZ 100500Z 1006/1112", forecast("r.") + [tx, tn], "BECMG 1010/1012 09005KT",
            {**ok, "len(r.changes_forecasted)": lambda: 1, "r.changes_forecasted[0].wind.code": lambda: "09005KT"})
    for k in ("TEMPO 1008/1010", "FM101200", "PROB40 TEMPO 1100/1104"):
        c = "r.changes_forecasted[0]."
        subsets(ctx, "change " + k, "Taf", "TAF ZZZZ 100500Z 1006/1112 00000KT 9999 NSC " + k, forecast(c), "",
                {**ok, "r.wind.code": lambda: "00000KT", "len(r.weathers)": lambda: 0, "r.clouds.codes": lambda: ["NSC"], "r.prevailing_visibility.code": lambda: "9999",
                 c + "unparsed_groups": lambda: []})
