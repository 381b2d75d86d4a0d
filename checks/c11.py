"""Wind direction variation groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every wind-variation accessor, over symbolic groups."
RULE = "every pair of directions 010-360 by tens, after winds of each kind"
DIR = r"(0[1-9]|[12]\d|3[0-6])0"


def build(ctx):
    for nm, text in (("body", "METAR ZZZZ 100000Z 00000KT {a}V{b}"),
                     ("body without wind", "METAR ZZZZ 100000Z {a}V{b} 9999 FEW030"),
                     ("SPECI body", "SPECI ZZZZ 100000Z AUTO VRB03KT {a}V{b} CAVOK 10/08 Q1013 NOSIG")):
        at = "r.wind_variation."
        obs = {at + "from_cardinal_direction": lambda a: rose(float(a)),
               at + "to_cardinal_direction": lambda b: rose(float(b)),
               at + "code": lambda a, b: a + "V" + b}
        if not nm.startswith("SPECI"):
            obs["r.unparsed_groups"] = lambda: []
        for u, k in ANGLE.items():
            obs[at + "from_" + u] = (lambda a, k=k: float(a) * k), 1e-6
            obs[at + "to_" + u] = (lambda b, k=k: float(b) * k), 1e-6
        ctx.case("wind variation in " + nm, "Metar", text, dict(a=DIR, b=DIR), obs)
    none = {"r.wind_variation." + s + x: lambda: None for s in ("from_", "to_")
            for x in ("cardinal_direction", "in_degrees", "in_radians", "in_gradians")}
    none["r.wind_variation.code"] = lambda: None
    ctx.case("no wind variation", "Metar", "METAR ZZZZ 100000Z {d}{s}KT 9999", dict(d=DIR, s=r"\d\d"), none)
