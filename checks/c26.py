"""CAVOK conditions."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of should_be_cavok, over symbolic visibility, weather and clouds."
RULE = ("every visibility, every single weather, every cover, height and type of one layer, every combination of covers "
        "and types with boundary heights over two to four layers, in each place of a report")
ASSUMES = ["without visibility or without cloud groups there is no data for the verdict: False (docstring)",
           "the limit of cloud height is 5000 ft"]
SKY = words("FEW", "SCT", "BKN", "OVC")
CLEAR = ("SKC", "CLR", "NSC", "NCD")


def build(ctx):
    hs = "000|015|016|049|050|051|300|///"
    for nm, cls, text, root in SKY_AT:
        R = root + ".should_be_cavok()"
        ok = lambda c, h, t: c != "VV" and t not in ("CB", "TCU") and not (h.isdigit() and int(h) < 50)
        # the first group of weather makes it false, whatever it is
        for vis, good in (("9999", True), ("CAVOK", True), ("////", False), ("", False)):
            pre = vis + " " if vis else ""
            ctx.case("layer after %s in %s" % (vis or "no visibility", nm), cls, text % (pre + "{c}{h}{t}"),
                     dict(c=SKY + "|VV|///", h=r"\d{3}|///", t="|CB|TCU"),
                     {R: lambda c, h, t, g=good, ok=ok: g and ok(c, h, t)})
            ctx.case("clear sky after %s in %s" % (vis or "no visibility", nm), cls, text % (pre + "{c}"), dict(c=words(*CLEAR)),
                     {R: lambda g=good: g})
        ctx.case("visibility in " + nm, cls, text % "{v} {c}", dict(v=r"\d{4}", c="NSC|SKC|FEW060|BKN020|OVC050|FEW080CB"),
                 {R: lambda v, c: metres(v) >= 10000 and c not in ("BKN020", "FEW080CB")})
        ctx.case("kilometres in " + nm, cls, text % "{v}KM {c}", dict(v=r"\d\d?", c="NSC|SKC|FEW060"), {R: lambda v: int(v) >= 10})
        ctx.case("statute miles in " + nm, cls, text % "{v}SM {c}", dict(v=r"\d\d?", c="NSC|SKC|FEW060"),
                 {R: lambda v: int(v) * 1852 >= 10000})
        ctx.case("weather in " + nm, cls, text % "9999 {i}{d}{p} {c}", dict(i=r"|-|\+|VC", d="|SH|TS|FZ|BL", p="RA|SN|FG|HZ|SQ|PO", c="NSC|FEW060"),
                 {R: lambda: False})
        ctx.case("clouds missing in " + nm, cls, text % "{v}", dict(v="9999|CAVOK|0500"), {R: lambda: False})
        lay = SKY + "|VV"
        ctx.case("two layers in " + nm, cls, text % "9999 {c}{h}{t} {d}{g}{u}",
                 dict(c=lay, h=hs, t="|CB|TCU", d=lay, g=hs, u="|CB|TCU"),
                 {R: lambda c, h, t, d, g, u, ok=ok: ok(c, h, t) and ok(d, g, u)})
        ctx.case("three layers in " + nm, cls, text % "9999 {c}060 {d}{g} {e}080{t}", dict(c=lay, d=lay, e=lay, g=hs, t="|CB|TCU"),
                 {R: lambda c, d, e, g, t, ok=ok: ok(c, "060", "") and ok(d, g, "") and ok(e, "080", t)})
        ctx.case("four layers in " + nm, cls, text % "9999 FEW060 SCT080 {d}{g} {e}{h}{t}", dict(d=lay, e=lay, g=hs, h=hs, t="|CB|TCU"),
                 {R: lambda d, e, g, h, t, ok=ok: ok(d, g, "") and ok(e, h, t)})
