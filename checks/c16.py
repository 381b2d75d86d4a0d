"""Pressure groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every pressure accessor, over symbolic groups."
RULE = "every four digit pressure with every unit and without unit, alone or as one of two groups, and missing"


def build(ctx):
    P = "r.pressure."

    def reads(f):
        out = {}
        for u, k in PRES.items():
            out[P + u] = (lambda a, k=k, f=f: None if f(a) is None else f(a) * k), 2e-5
        return out
    num = lambda a: float(a) if a.isdigit() else None
    inch = lambda a: float(a) / 100 * 33.86389 if a.isdigit() else None
    free = lambda a: None if not a.isdigit() else inch(a) if float(a) > 2500 else num(a)
    for nm, text in (("alone", "METAR ZZZZ 100000Z 00000KT 9999 FEW010 10/08 %s"),
                     ("without temperatures", "METAR ZZZZ 100000Z 00000KT 9999 FEW010 %s NOSIG"),
                     ("before recent weather", "SPECI ZZZZ 100000Z AUTO 00000KT CAVOK 10/08 %s RERA WS R12 RMK X"),):
        for u, f in (("Q", num), ("QNH", num), ("A", inch), ("", free)):
            obs = reads(f)
            obs.update({"r.unparsed_groups": lambda: [], P + "code": lambda a, u=u: u + a})
            ctx.case("%s pressure %s" % (u or "unit-less", nm), "Metar", text % (u + "{a}"),
                     dict(a=r"\d{4}" + ("|////" if u else "")), obs)
        obs = reads(inch)
        ctx.case("QNH in inches " + nm, "Metar", text % "{u}{a}INS", dict(a=r"\d{4}", u="QNH|"), obs)
    for u, f in (("Q", num), ("A", inch)):
        obs = reads(f)
        obs["r.unparsed_groups"] = lambda: []
        ctx.case("second pressure " + u, "Metar", "METAR ZZZZ 100000Z 00000KT 9999 10/08 %s %s{a}" %
                 ("A2992" if u == "Q" else "Q1013", u), dict(a=r"\d{4}"), obs)
    obs = {P + u: lambda: None for u in PRES}
    obs[P + "code"] = lambda: None
    ctx.case("no pressure", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 {a}/08", dict(a=r"\d\d"), obs)
