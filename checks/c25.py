"""Flight rules."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of flight_rules, over symbolic visibilities and cloud layers."
RULE = ("every four digit visibility with ceilings on both sides of each boundary, every ceiling height with visibilities on both sides "
        "of each boundary, every pair and triple of covers with heights, missing parts, in each place of a report")
ASSUMES = ["boundaries as documented: VLIFR below 60 m or 800 m, LIFR 150 m or 1600 m, IFR 300 m or 5000 m, MVFR 900 m or 8000 m",
           "a ceiling is the first broken, overcast or obscured layer; when its height is missing the ceiling is unknown"]
TABLE = [("VLIFR", 60.0, 800.0), ("LIFR", 150.0, 1600.0), ("IFR", 300.0, 5000.0), ("MVFR", 900.0, 8000.0)]
SKY = words("FEW", "SCT", "BKN", "OVC", "VV", "///")
CEIL = ("BKN", "OVC", "VV")


def rules(vis, layers):
    """layers: [(cover, height digits)]; vis in metres."""
    ceil = None
    for c, h in layers:
        if c in CEIL:
            ceil = float(h) * 30.48 if h.isdigit() else None
            break
    if vis is None and ceil is None:
        return None
    for nm, a, b in TABLE:
        if ceil is not None and ceil < a or vis is not None and vis < b:
            return nm
    return "VFR"


def build(ctx):
    bounds = "0000|0799|0800|1599|1600|4999|5000|7999|8000|9999"
    heights = "000|001|002|004|005|009|010|029|030|100|///"
    for nm, cls, text, root in SKY_AT:
        R = root + ".flight_rules"
        v4 = r"\d{3}0|\d[0-5]99|9999" if not ctx.thorough else r"\d{4}"
        ctx.case("visibility in " + nm, cls, text % "{v}", dict(v=r"\d{4}"), {R: lambda v: rules(metres(v), [])})
        ctx.case("visibility with a layer in " + nm, cls, text % "{v} {c}{h}", dict(v=v4, c="SCT|BKN|OVC|VV", h="001|004|009|029|050"),
                 {R: lambda v, c, h: rules(metres(v), [(c, h)])})
        ctx.case("height with a visibility in " + nm, cls, text % "{v} {c}{h}", dict(v=bounds, c=SKY, h=r"\d{3}|///"),
                 {R: lambda v, c, h: rules(metres(v), [(c, h)])})
        ctx.case("layer without visibility in " + nm, cls, text % "{c}{h}", dict(c=SKY, h=r"\d{3}|///"),
                 {R: lambda c, h: rules(None, [(c, h)])})
        ctx.case("unknown visibility in " + nm, cls, text % "//// {c}{h}", dict(c=SKY, h=r"\d{3}|///"),
                 {R: lambda c, h: rules(None, [(c, h)])})
        ctx.case("two layers in " + nm, cls, text % "{v} {c}{h} {d}{g}",
                 dict(v="0500|1500|4000|7000|9999", c=SKY, h=heights, d=SKY, g=heights),
                 {R: lambda v, c, h, d, g: rules(metres(v), [(c, h), (d, g)])})
        ctx.case("three layers in " + nm, cls, text % "9999 {c}001 {d}006 {e}{g}", dict(c=SKY, d=SKY, e=SKY, g=heights),
                 {R: lambda c, d, e, g: rules(10000.0, [(c, "001"), (d, "006"), (e, g)])})
        ctx.case("four layers in " + nm, cls, text % "9999 FEW001 SCT002 {d}006{t} {e}{g}", dict(d="FEW|SCT|BKN|VV", t="|CB|TCU", e=SKY, g=heights),
                 {R: lambda d, e, g: rules(10000.0, [(d, "006"), (e, g)])})
        ctx.case("no cloud in " + nm, cls, text % "{v} {c}", dict(v=bounds, c="SKC|CLR|NSC|NCD|///"),
                 {R: lambda v: rules(metres(v), [])})
        ctx.case("CAVOK in " + nm, cls, text % "CAVOK", {}, {R: lambda: "VFR"})
        ctx.case("kilometres in " + nm, cls, text % "{k}KM {c}{h}", dict(k=r"\d{1,2}", c="SCT|BKN|OVC", h=heights),
                 {R: lambda k, c, h: rules(int(k) * 1000.0, [(c, h)])})
        ctx.case("statute miles in " + nm, cls, text % "{k}SM {c}{h}", dict(k=r"\d\d?", c="SCT|BKN|OVC", h=heights),
                 {R: lambda k, c, h: rules(int(k) * 1852.0, [(c, h)])})
        if nm != "TAF body":
            ctx.case("nothing known in " + nm, cls, text % "{w}", dict(w="RA|FG|TS"), {R: lambda: None})
