"""Runway state groups."""
from aai.decode import SKIP
from .spec import *

METHOD = "Abstract interpretation of report construction and of every runway-state accessor, over symbolic groups."
RULE = "every runway, deposit, extent, depth and friction code (tables 0919, 0519, 1079, 0366), SNOCLO and CLRD"
BASE = "METAR ZZZZ 100000Z 00000KT 9999 10/08 Q1013 "
DEP = {"0": "clear and dry", "1": "damp", "2": "wet and water patches",
       "3": "rime and frost covered (depth normally less than 1 mm)", "4": "dry snow", "5": "wet snow", "6": "slush",
       "7": "ice", "8": "compacted or rolled snow", "9": "frozen ruts or ridges",
       "/": "type of deposit not reported (e.g. due to runway clearance in progress)"}
EXT = {"0": None, "1": "less than 10% of runway", "2": "11%-25% of runway", "5": "26%-50% of runway",
       "9": "51%-100% of runway", "/": "not reported"}
DEPTH = {"00": "less than 1 mm", "91": "reserved", "92": "10 cm", "93": "15 cm", "94": "20 cm", "95": "25 cm",
         "96": "30 cm", "97": "35 cm", "98": "40 cm or more",
         "99": "runway(s) non-operational due to snow, slush, ice, large drifts or runway clearance, but depth not reported",
         "//": "depth of deposit operationally not significant or not measurable"}
FRIC = {"91": "breaking action poor", "92": "breaking action medium/poor", "93": "breaking action medium",
        "94": "breaking action medium/good", "95": "breaking action good", "96": "reserved", "97": "reserved",
        "98": "reserved", "99": "breaking action unreliable",
        "//": "breaking conditions not reported and/or runway not operational"}
depth = lambda d: DEPTH.get(d) or "%d mm" % int(d)
fric = lambda f: FRIC.get(f) or "0." + f
ext = lambda c: EXT.get(c, "reserved")
NAME = r"(\d\d[RLC]?)?"


def clrd(n):
    t = "contaminations have ceased to exists on "
    if not n:
        return SKIP
    return t + ("previous runway" if n == "99" else "all runways" if n == "88" else "runway " + runway(n))


def build(ctx):
    A = "r.runway_state."
    name = lambda n: runway(n) if n else None
    for nm, text in (("bare", BASE + "%s"), ("after sea state", BASE + "RERA WS R12 W10/S2 %s"), ("before trend", BASE + "%s NOSIG")):
        ok = {"r.unparsed_groups": lambda: [], A + "snoclo": lambda: False, A + "clrd": lambda: None}
        ctx.case("name and deposit " + nm, "Metar", text % "R{n}/{d}19035", dict(n=NAME, d=r"\d|/"),
                 dict(ok, **{A + "name": name, A + "deposits": lambda d: DEP[d], A + "contamination": lambda: "less than 10% of runway",
                             A + "deposits_depth": lambda: "90 mm", A + "surface_friction": lambda: "0.35",
                             A + "code": lambda n, d: "R%s/%s19035" % (n, d)}))
        ctx.case("extent and depth " + nm, "Metar", text % "R24/3{c}{e}70", dict(c=r"\d|/", e=r"\d\d|//"),
                 dict(ok, **{A + "name": lambda: "24", A + "deposits": lambda: DEP["3"], A + "contamination": lambda c: ext(c),
                             A + "deposits_depth": lambda e: depth(e), A + "surface_friction": lambda: "0.70"}))
        ctx.case("extent and friction " + nm, "Metar", text % "R24/3{c}12{f}", dict(c=r"\d|/", f=r"\d\d|//"),
                 dict(ok, **{A + "contamination": lambda c: ext(c), A + "deposits_depth": lambda: "12 mm",
                             A + "surface_friction": lambda f: fric(f)}))
        ctx.case("deposit and friction " + nm, "Metar", text % "R24R/{d}591{f}", dict(d=r"\d|/", f=r"\d\d|//"),
                 dict(ok, **{A + "deposits": lambda d: DEP[d], A + "deposits_depth": lambda: "reserved",
                             A + "surface_friction": lambda f: fric(f)}))
        none = {A + x: lambda: None for x in ("deposits", "contamination", "deposits_depth", "surface_friction")}
        ctx.case("closed by snow " + nm, "Metar", text % "R{n}/SNOCLO", dict(n=NAME),
                 dict(none, **{A + "name": name, A + "snoclo": lambda: True, A + "clrd": lambda: None, "r.unparsed_groups": lambda: []}))
        ctx.case("cleared " + nm, "Metar", text % "R{n}/CLRD//", dict(n=NAME),
                 dict(none, **{A + "name": name, A + "snoclo": lambda: False, A + "clrd": lambda n: clrd(n), "r.unparsed_groups": lambda: []}))
    none = {A + x: lambda: None for x in ("deposits", "contamination", "deposits_depth", "surface_friction", "name", "code")}
    ctx.case("no runway state", "Metar", BASE + "{w}", dict(w="RERA|WS R12|W10/S1"),
             dict(none, **{A + "snoclo": lambda: False, A + "clrd": lambda: None}))
