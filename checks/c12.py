"""Visibility groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every visibility accessor, over symbolic groups."
RULE = ("every four digit value with every direction, every whole/fractional value in statute miles (also written as "
        "two words), every value in kilometres, CAVOK and missing, in each place of a report a visibility can stand")
AT = [("METAR body", "Metar", "METAR ZZZZ 100000Z %s", "r.prevailing_visibility"),
      ("METAR body after wind", "Metar", "METAR ZZZZ 100000Z 09012KT %s FEW030 10/08", "r.prevailing_visibility"),
      ("METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 BECMG %s", "r.weather_trends[0].prevailing_visibility"),
      ("second METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 TEMPO TL0100 4000 BECMG AT0130 %s",
       "r.weather_trends[1].prevailing_visibility"),
      ("TAF body", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT %s", "r.prevailing_visibility"),
      ("TAF change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 PROB30 TEMPO 1000/1006 %s",
       "r.changes_forecasted[0].prevailing_visibility"),
      ("TAF FM change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 FM100800 09005KT %s BKN030",
       "r.changes_forecasted[0].prevailing_visibility")]
CARD = {"": None, "N": 360.0, "NE": 45.0, "E": 90.0, "SE": 135.0, "S": 180.0, "SW": 225.0, "W": 270.0, "NW": 315.0}
DIR = "([NS][EW]?|[EW])?"
SM = 1852.0


def metres(v):
    return None if v == "////" else 10000.0 if v == "9999" else float(v)


def reads(at, f, tol=1e-6):
    out = {}
    import inspect
    ps = list(inspect.signature(f).parameters)
    for u, k in DIST.items():
        src = "lambda %s: scaled(f(%s), k)" % (", ".join(ps), ", ".join(ps))
        out["%s.%s" % (at, u)] = eval(src, dict(f=f, k=k, scaled=scaled)), tol
    return out


def build(ctx):
    for nm, cls, text, at in AT:
        V = r"\d{4}|////" if "TAF body" != nm else r"\d{4}"
        one = text.endswith("%s")
        obs = reads(at, lambda v: metres(v))
        obs.update({at + ".cavok": lambda: False, at + ".code": lambda v, d: v + d,
                    at + ".cardinal_direction": lambda d: d or None, "r.unparsed_groups": lambda: []})
        for u, k in ANGLE.items():
            # directions are held in whole degrees
            obs[at + ".direction_" + u] = (lambda d, k=k: scaled(CARD[d], k)), 1e-6
        ctx.case("metres in " + nm, cls, text % "{v}{d}", dict(v=V, d=DIR), obs)
        obs = reads(at, lambda v: float(v) * SM)
        obs.update({at + ".cavok": lambda: False, at + ".code": lambda p, v: p + v + "SM",
                    at + ".cardinal_direction": lambda: None, "r.unparsed_groups": lambda: []})
        ctx.case("statute miles in " + nm, cls, text % "{p}{v}SM", dict(v=r"\d{1,2}", p="[PM]?"), obs)
        obs = reads(at, lambda n, m: int(n) / int(m) * SM)
        obs["r.unparsed_groups"] = lambda: []
        ctx.case("fraction in " + nm, cls, text % "{p}{n}/{m}SM", dict(n=r"\d", m="[1-9]", p="[PM]?"), obs)
        obs = reads(at, lambda v, n, m: (int(v) + int(n) / int(m)) * SM)
        obs["r.unparsed_groups"] = lambda: []
        obs[at + ".code"] = lambda v, n, m: "%s %s/%sSM" % (v, n, m)
        ctx.case("whole and fraction in " + nm, cls, text % "{v} {n}/{m}SM", dict(v=r"\d{1,2}", n="[1-7]", m="[2-8]"), obs)
        obs = reads(at, lambda v: float(v) * 1000)
        obs.update({at + ".cavok": lambda: False, "r.unparsed_groups": lambda: []})
        ctx.case("kilometres in " + nm, cls, text % "{v}KM", dict(v=r"\d{1,2}"), obs)
        obs = reads(at, lambda: 10000.0)
        obs.update({at + ".cavok": lambda: True, "r.unparsed_groups": lambda: [], at + ".code": lambda: "CAVOK"})
        ctx.case("CAVOK in " + nm, cls, text % "CAVOK", {}, obs)
    at = "r.minimum_visibility"
    for nm, text in (("after prevailing", "METAR ZZZZ 100000Z 09012KT 9999 %s"),
                     ("before runway range", "METAR ZZZZ 100000Z 09012KT 4000 %s R12/1000 BR")):
        obs = reads(at, lambda v: metres(v))
        obs.update({at + ".code": lambda v, d: v + d, at + ".cardinal_direction": lambda d: d or None,
                    "r.unparsed_groups": lambda: [], "r.prevailing_visibility.cardinal_direction": lambda: None})
        for u, k in ANGLE.items():
            obs[at + ".direction_" + u] = (lambda d, k=k: scaled(CARD[d], k)), 1e-6
        ctx.case("minimum visibility " + nm, "Metar", text % "{v}{d}", dict(v=r"\d{4}|////", d=DIR), obs)
    obs = reads(at, lambda: None)
    obs[at + ".code"] = lambda: None
    ctx.case("no minimum visibility", "Metar", "METAR ZZZZ 100000Z 09012KT {v} FEW010", dict(v=r"\d{4}"), obs)
    obs = reads("r.prevailing_visibility", lambda: None)
    obs.update({"r.prevailing_visibility.code": lambda: None, "r.prevailing_visibility.cavok": lambda: False})
    for cls, text in (("Metar", "METAR ZZZZ 100000Z 09012KT {c}"), ("Taf", "TAF ZZZZ 100000Z 1000/1106 09012KT {c}")):
        ctx.case("no visibility in " + cls, cls, text, dict(c=r"(FEW|BKN)\d{3}"), obs)
    # visibilities in several places of one report: each keeps its own
    mile = lambda v, n, m: (int(v) + int(n) / int(m)) * SM
    for nm, cls, text, ats in (
            ("a METAR and its trends", "Metar", "METAR ZZZZ 100000Z 09012KT {v} {n}/2SM RA TEMPO {w} 3/{m}SM BR BECMG 1 1/4SM", ("r", "r.weather_trends[0]", "r.weather_trends[1]")),
            ("the trends of a METAR", "Metar", "METAR ZZZZ 100000Z 09012KT 1 1/4SM BECMG {v} {n}/2SM RA TEMPO {w} 3/{m}SM BR", ("r.weather_trends[0]", "r.weather_trends[1]", "r")),
            ("a TAF and its changes", "Taf", "TAF ZZZZ 100000Z 1000/1106 09012KT {v} {n}/2SM BECMG 1002/1004 {w} 3/{m}SM BR FM100500 09005KT 1 1/4SM",
             ("r", "r.changes_forecasted[0]", "r.changes_forecasted[1]")),
            ("the changes of a TAF", "Taf", "TAF ZZZZ 100000Z 1000/1106 09012KT 1 1/4SM TEMPO 1002/1004 {v} {n}/2SM BR FM100500 09005KT {w} 3/{m}SM TEMPO 1008/1010 4000",
             ("r.changes_forecasted[0]", "r.changes_forecasted[1]", "r"))):
        a, b, c = [x + ".prevailing_visibility" for x in ats]
        ctx.case("whole and fraction in " + nm, cls, text, dict(v="[1-9]|1[0-9]", n="[13]", w="[1-9]|1[0-9]", m="[48]"),
                 {a + ".in_meters": (lambda v, n: mile(v, n, 2), 1e-6), b + ".in_meters": (lambda w, m: mile(w, 3, m), 1e-6),
                  c + ".in_meters": (lambda: 1.25 * SM, 1e-6), a + ".code": lambda v, n: "%s %s/2SM" % (v, n), b + ".code": lambda w, m: "%s 3/%sSM" % (w, m),
                  c + ".code": lambda: "1 1/4SM", "r.unparsed_groups": lambda: []})
    for nm, cls, text in (("a METAR", "Metar", "METAR ZZZZ 100000Z 09012KT {v} {n}/2SM RA {w} 3/{m}SM BKN010"), ("a TAF", "Taf", "TAF ZZZZ 100000Z 1000/1106 09012KT {v} {n}/2SM {w} 3/{m}SM"),
                          ("a change", "Taf", "TAF ZZZZ 100000Z 1000/1106 09012KT 9999 TEMPO 1000/1004 {v} {n}/2SM RA {w} 3/{m}SM")):
        at = ("r.changes_forecasted[0]" if nm == "a change" else "r") + ".prevailing_visibility"
        ctx.case("second visibility in " + nm, cls, text, dict(v="[1-9]", n="[13]", w="[2-8]", m="[48]"),
                 {at + ".in_meters": (lambda v, n: mile(v, n, 2), 1e-6), "r.unparsed_groups": lambda w, m: [w, "3/%sSM" % m]})
