"""Present and recent weather groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every weather accessor, over symbolic weather groups."
RULE = ("every intensity, descriptor and phenomenon in each pairwise combination with the third at each of its values, "
        "as first, second and third group of each place of a report; every recent-weather descriptor and phenomenon")
I = words("", "-", r"\+", "-VC", r"\+VC", "VC").replace("\\\\", "\\")
D = words(*DESCRIPTOR)
P = words(*PHEN)


def reads(at, ie, de, pe):
    return {at + ".intensity": ie, at + ".description": de,
            at + ".precipitation": pe(PRECIP), at + ".obscuration": pe(OBSC), at + ".other": pe(OTHER)}


def build(ctx):
    places = LIST_AT
    for nm, cls, text, root in places:
        for pos, before, after in ((0, "", ""), (1, "TS ", ""), (2, "-DZ FZFG ", ""), (0, "", " HZ PO"), (1, "SQ ", " BR")):
            if pos == 0 and after and not ctx.thorough:
                continue
            at = "%s.weathers[%d]" % (root, pos)
            n = pos + 1 + len(after.split())
            base = {"r.unparsed_groups": lambda: [], "len(%s.weathers)" % root: lambda n=n: n}
            obs = dict(base)
            obs.update(reads(at, lambda i: INTENSITY[i], lambda: None, lambda T: lambda p, T=T: T.get(p)))
            obs[at + ".code"] = lambda i, p: i + p
            ctx.case("intensity and phenomenon %d in %s" % (pos, nm), cls, text % (before + "{i}{p}" + after),
                     dict(i=I, p=P), obs)
            obs = dict(base)
            obs.update(reads(at, lambda: None, lambda d: DESCRIPTOR[d], lambda T: lambda p, T=T: T.get(p)))
            obs[at + ".code"] = lambda d, p: d + p
            ctx.case("descriptor and phenomenon %d in %s" % (pos, nm), cls, text % (before + "{d}{p}" + after),
                     dict(d=D, p=P), obs)
            obs = dict(base)
            obs.update(reads(at, lambda i: INTENSITY[i], lambda d: DESCRIPTOR[d], lambda T: lambda: T.get("RA")))
            obs[at + ".code"] = lambda i, d: i + d + "RA"
            ctx.case("intensity and descriptor %d in %s" % (pos, nm), cls, text % (before + "{i}{d}RA" + after),
                     dict(i=I, d=D), obs)
        at = root + ".weathers[0]"
        obs = reads(at, lambda i: INTENSITY[i], lambda d: DESCRIPTOR[d], lambda T: lambda p, T=T: T.get(p))
        obs.update({"r.unparsed_groups": lambda: [], at + ".code": lambda i, d, p: i + d + p})
        for pp in (PRECIP, OBSC, OTHER):
            ctx.case("every group like %s in %s" % (list(pp)[0], nm), cls, text % "{i}{d}{p}", dict(i=I, d=D, p=words(*pp)), obs)
        obs = reads(at, lambda i: INTENSITY[i], lambda d: DESCRIPTOR[d], lambda T: lambda: None)
        obs.update({"r.unparsed_groups": lambda: [], at + ".code": lambda i, d: i + d})
        ctx.case("descriptor alone in " + nm, cls, text % "{i}{d}", dict(i=I, d="TS|SH|BC"), obs)
        obs = reads(at, lambda: None, lambda: None, lambda T: lambda: None)
        obs.update({at + ".other": lambda: "nil significant weather", "r.unparsed_groups": lambda: []})
        ctx.case("no significant weather in " + nm, cls, text % "NSW", {}, obs)
        obs = {"len(%s.weathers)" % root: lambda: 0, "%s.weathers.codes" % root: lambda: []}
        ctx.case("no weather in " + nm, cls, text % "FEW{h}", dict(h=r"\d{3}"), obs)
    R = "r.recent_weather."
    for nm, text in (("after pressure", "METAR ZZZZ 100000Z 00000KT 9999 10/08 Q1013 %s"),
                     ("before windshear", "METAR ZZZZ 100000Z 9999 RA FEW010 %s WS R03")):
        for pp in (PRECIP, OBSC, OTHER):
            ph = [p for p in pp if p != "FU"]
            obs = {R + "description": lambda d: DESCRIPTOR[d],
                   R + "precipitation": lambda p: PRECIP.get(p), R + "obscuration": lambda p: OBSC.get(p),
                   R + "other": lambda p: OTHER.get(p), R + "code": lambda d, p: "RE" + d + p,
                   "r.unparsed_groups": lambda: []}
            ctx.case("recent %s %s" % (ph[0], nm), "Metar", text % "RE{d}{p}", dict(d=D, p=words(*ph)), obs)
    ctx.case("recent combination", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 10/08 Q1013 RE{p}{o}{x}",
             dict(p=words(*PRECIP), o="|BR|FG|VA", x="|SQ|FC"),
             {R + "description": lambda: None, R + "precipitation": lambda p: PRECIP.get(p),
              R + "obscuration": lambda o: OBSC.get(o), R + "other": lambda x: OTHER.get(x)})
    ctx.case("no recent weather", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 {w}", dict(w="RA|-SN|TSRA"),
             {R + x: lambda: None for x in ("code", "description", "precipitation", "obscuration", "other")})
