"""Sea state groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every sea-state accessor, over symbolic groups."
RULE = "every temperature, every state of table 3700 and every wave height"
STATE = ["calm (glassy)", "calm (rippled)", "smooth (wavelets)", "slight", "moderate", "rough", "very rough", "high",
         "very high", "phenomenal"]
BASE = "METAR ZZZZ 100000Z 00000KT 9999 10/08 Q1013 "
HT = dict(in_meters=1.0, in_decimeters=10.0, in_centimeters=100.0, in_feet=1 / 0.3048, in_inches=1 / 0.0254)


def build(ctx):
    A = "r.sea_state."
    for nm, text in (("bare", BASE + "%s"), ("after windshear", BASE + "RERA WS R12 %s"),
                     ("before runway state", BASE + "%s R12/010070 NOSIG")):
        obs = {A + "state": lambda n: STATE[int(n)], "r.unparsed_groups": lambda: [],
               A + "code": lambda s, t, n: "W%s%s/S%s" % (s, t, n)}
        for u in HT:
            obs[A + "height_" + u] = lambda: None
        for u, f in TEMP.items():
            obs[A + "temperature_" + u] = (lambda s, t, f=f: f(-float(t) if s else float(t))), 1e-6
        ctx.case("state " + nm, "Metar", text % "W{s}{t}/S{n}", dict(s="M?", t=r"\d\d", n=r"\d"), obs)
        obs = {A + "state": lambda: None, "r.unparsed_groups": lambda: [],
               A + "code": lambda s, t, h: "W%s%s/H%s" % (s, t, h)}
        for u, k in HT.items():
            obs[A + "height_" + u] = (lambda h, k=k: float(h) / 10 * k), 1e-5
        for u, f in TEMP.items():
            obs[A + "temperature_" + u] = (lambda s, t, f=f: f(-float(t) if s else float(t))), 1e-6
        ctx.case("height " + nm, "Metar", text % "W{s}{t}/H{h}", dict(s="M?", t=r"\d\d", h=r"\d{3}"), obs)
    obs = {A + "height_" + u: lambda: None for u in HT}
    obs.update({A + "temperature_" + u: lambda: None for u in TEMP})
    obs[A + "state"] = obs[A + "code"] = lambda: None
    ctx.case("no sea state", "Metar", BASE + "{w}", dict(w="RERA|WS R12|R12/010070"), obs)
