"""Cloud groups and the ceiling."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every cloud accessor, over symbolic cloud groups."
RULE = ("every cover, height (000-999, missing) and type, as each of the four layers of each place of a report; "
        "the ceiling for every pair of covers and heights")
C = words(*[c for c in COVER if c != "0VC"])
ASSUMES = ["the boundary of the ceiling (exactly 1500 ft) is judged as documented: a ceiling"]


def build(ctx):
    for nm, cls, text, root in LIST_AT:
        for pos, before, after in ((0, "", ""), (1, "FEW010 ", ""), (2, "FEW010 SCT020CB ", " OVC090"),
                                   (3, "RA FEW010 SCT020 BKN030 ", "")):
            at = "%s.clouds[%d]" % (root, pos)
            n = pos + 1 + len(after.split())
            obs = {"r.unparsed_groups": lambda: [], "len(%s.clouds)" % root: lambda n=n: n,
                   at + ".cover": lambda c: COVER[c], at + ".oktas": lambda c: OKTAS[c],
                   at + ".cloud_type": lambda t: CTYPE[t], at + ".code": lambda c, t: c + "014" + t,
                   at + ".height_in_feet": (lambda: 1400.0, 1e-6)}
            ctx.case("cover and type of layer %d in %s" % (pos, nm), cls, text % (before + "{c}014{t}" + after),
                     dict(c=C, t=words(*CTYPE)), obs)
            obs = {"r.unparsed_groups": lambda: [], "len(%s.clouds)" % root: lambda n=n: n,
                   at + ".cover": lambda c: COVER[c], at + ".oktas": lambda c: OKTAS[c],
                   at + ".cloud_type": lambda: None, at + ".code": lambda c, h: c + h}
            for u, k in DIST.items():
                obs[at + ".height_" + u] = (lambda h, k=k: float(h) * 30.48 * k if h.isdigit() else None), 1e-6
            ctx.case("cover and height of layer %d in %s" % (pos, nm), cls, text % (before + "{c}{h}" + after),
                     dict(c=words("FEW", "SCT", "BKN", "OVC", "VV", "///"), h=r"\d{3}|///"), obs)
        at = root + ".clouds[0]"
        obs = {at + ".cover": lambda c: COVER[c], at + ".oktas": lambda c: OKTAS[c], at + ".code": lambda c: c,
               "r.unparsed_groups": lambda: [], "%s.clouds.ceiling" % root: lambda: False, at + ".cloud_type": lambda: None}
        for u in DIST:
            obs[at + ".height_" + u] = lambda: None
        ctx.case("layer without height in " + nm, cls, text % "{c}", dict(c=words("SKC", "CLR", "NSC", "NCD", "///")), obs)
        ctx.case("overcast with a zero in " + nm, cls, text % "0VC{h}", dict(h=r"\d{3}"),
                 {at + ".cover": lambda: "overcast", at + ".oktas": lambda: "8",
                  root + ".clouds.ceiling": lambda h: int(h) <= 15})
        sky = words("FEW", "SCT", "BKN", "OVC", "VV", "///")
        ceil = lambda c, h: c in ("BKN", "OVC") and h.isdigit() and int(h) <= 15
        ctx.case("ceiling of one layer in " + nm, cls, text % "{c}{h}", dict(c=sky, h=r"\d{3}|///"),
                 {root + ".clouds.ceiling": ceil})
        ctx.case("ceiling of two layers in " + nm, cls, text % "{c}{h} {d}020", dict(c=sky, h=r"\d{3}|///", d="BKN|OVC"),
                 {root + ".clouds.ceiling": ceil})
        ctx.case("ceiling of the last layer in " + nm, cls, text % "FEW008 SCT012 {d}{g}{t}",
                 dict(d=sky, g=r"\d{3}|///", t="|CB|TCU"),
                 {root + ".clouds.ceiling": lambda d, g: d in ("BKN", "OVC") and g.isdigit() and int(g) <= 15})
        ctx.case("ceiling of unknown and known layers in " + nm, cls, text % "{c}/// {d}{g}", dict(c=sky, d=sky, g=r"0[01]\d"),
                 {root + ".clouds.ceiling": lambda d, g: d in ("BKN", "OVC") and int(g) <= 15})
        ctx.case("no clouds in " + nm, cls, text % "{w}", dict(w="RA|TS|FZFG"),
                 {"len(%s.clouds)" % root: lambda: 0, root + ".clouds.ceiling": lambda: False,
                  root + ".clouds.codes": lambda: []})
