"""Temperatures, dew points, and TAF temperatures."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every temperature accessor, over symbolic groups."
RULE = "every sign and value (00-99, missing) of both parts of the group; every extreme temperature of a TAF"


def val(s, a):
    return (-float(a) if s else float(a)) if a.isdigit() else None


def build(ctx):
    T = "r.temperatures."
    for nm, text in (("bare", "METAR ZZZZ 100000Z 00000KT 9999 FEW010 %s"),
                     ("with pressure", "METAR ZZZZ 100000Z 00000KT CAVOK %s Q1013 NOSIG"),
                     ("in AUTO", "SPECI ZZZZ 100000Z AUTO %s A2992 RMK AO2")):
        ctx_fields = dict(s="M?|-", a=r"\d\d|//|XX|MM", q="M?|-", b=r"\d\d|//|XX|MM")
        obs = {T + "code": lambda s, a, b: s + a + "/" + b}
        obs2 = {T + "code": lambda a, q, b: a + "/" + q + b}
        for u, f in TEMP.items():
            obs[T + "temperature_" + u] = (lambda s, a, f=f: None if val(s, a) is None else f(val(s, a))), 1e-6
            obs[T + "dewpoint_" + u] = (lambda b, f=f: None if val("", b) is None else f(val("", b))), 1e-6
            obs2[T + "temperature_" + u] = (lambda a, f=f: None if val("", a) is None else f(val("", a))), 1e-6
            obs2[T + "dewpoint_" + u] = (lambda q, b, f=f: None if val(q, b) is None else f(val(q, b))), 1e-6
        for o in (obs, obs2):
            o["r.unparsed_groups"] = lambda: []
        k = {x: ctx_fields[x] for x in "sab"}
        ctx.case("temperature " + nm, "Metar", text % "{s}{a}/{b}", k, obs)
        k = {x: ctx_fields[x] for x in "aqb"}
        ctx.case("dew point " + nm, "Metar", text % "{a}/{q}{b}", k, obs2)
        ctx.case("both negative " + nm, "Metar", text % "{s}{a}/{q}{b}", dict(ctx_fields, s="M", q="M", a=r"\d\d", b=r"\d\d"),
                 {T + "temperature_in_celsius": lambda a: -float(a), T + "dewpoint_in_celsius": lambda b: -float(b)})
    obs = {T + p + u: lambda: None for p in ("temperature_", "dewpoint_") for u in TEMP}
    obs[T + "code"] = lambda: None
    ctx.case("no temperatures", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 {c}", dict(c="FEW010|Q1013|NSC"), obs)
    for x, lst in (("X", "max_temperatures"), ("N", "min_temperatures")):
        other = "min_temperatures" if x == "X" else "max_temperatures"
        for pos, before, after in ((0, "", ""), (1, "T%s10/1012Z " % x, ""), (0, "T%s01/1104Z " % ("N" if x == "X" else "X"), ""),
                                   (0, "FEW010 ", " T%s01/1104Z" % ("N" if x == "X" else "X")), (0, "", " TEMPO 1000/1004 RA")):
            A = "r.%s[%d]." % (lst, pos)
            m = before.count("T" + ("N" if x == "X" else "X")) + after.count("T" + ("N" if x == "X" else "X"))
            obs = {"r.unparsed_groups": lambda: [], "len(r.%s)" % lst: lambda n=pos + 1: n,
                   "len(r.%s)" % other: lambda n=m: n, A + "code": lambda s, a, x=x: "T%s%s%s/1018Z" % (x, s, a)}
            for u, f in TEMP.items():
                obs[A + u] = (lambda s, a, f=f: f(val(s, a))), 1e-6
            ctx.case("T%s %d %r" % (x, pos, before + after), "Taf",
                     "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 %sT%s{s}{a}/1018Z%s" % (before, x, after),
                     dict(s="M?", a=r"\d\d"), obs)
    ctx.case("no TAF temperatures", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT {v}", dict(v=r"\d{4}"),
             {"len(r.max_temperatures)": lambda: 0, "len(r.min_temperatures)": lambda: 0})
