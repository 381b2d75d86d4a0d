"""Windshear groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every windshear accessor, over symbolic groups."
RULE = "every runway in each of the three groups, in both spellings (R and RWY), and all runways"
NAME = r"\d\d[RLC]?"
BASE = "METAR ZZZZ 100000Z 00000KT 9999 10/08 Q1013 "
# a single runway keeps its plain two digit name
nm = lambda n: n if len(n) == 2 else runway(n)


def build(ctx):
    for tail in ("", " W10/S2", " NOSIG", " R12/010070"):
        ok = {"r.unparsed_groups": lambda: []}
        for sp in ("R", "RWY"):
            for before in ("", "RERA "):
                obs = dict(ok)
                obs.update({"r.windshears.names": lambda n: [nm(n)], "r.windshears[0].name": lambda n: nm(n),
                            "r.windshears.all_runways": lambda: False, "r.windshears[0].all_": lambda: False,
                            "len(r.windshears)": lambda: 1})
                if sp == "R":
                    obs["r.windshears[0].code"] = lambda n: "WS R" + n
                    obs["r.windshears.codes"] = lambda n: ["WS R" + n]
                ctx.case("one %s%s%s" % (before, sp, tail), "Metar", BASE + before + "WS " + sp + "{n}" + tail, dict(n=NAME), obs)
            for sq in ("R", "RWY"):
                obs = dict(ok)
                obs.update({"r.windshears.names": lambda n, m: [nm(n), nm(m)], "r.windshears[0].name": lambda n: nm(n),
                            "r.windshears[1].name": lambda m: nm(m), "r.windshears.all_runways": lambda: False})
                ctx.case("two %s %s%s" % (sp, sq, tail), "Metar", BASE + "WS %s{n} WS %s{m}%s" % (sp, sq, tail),
                         dict(n=NAME, m=NAME), obs)
                obs = dict(ok)
                obs.update({"r.windshears.names": lambda n, m: ["07", nm(n), nm(m)], "r.windshears[2].name": lambda m: nm(m),
                            "r.windshears[1].name": lambda n: nm(n), "len(r.windshears)": lambda: 3})
                ctx.case("three %s %s%s" % (sp, sq, tail), "Metar", BASE + "WS R07 WS %s{n} WS %s{m}%s" % (sp, sq, tail),
                         dict(n=NAME, m=NAME), obs)
        obs = dict(ok)
        obs.update({"r.windshears.names": lambda: [], "r.windshears.all_runways": lambda: True, "r.windshears[0].all_": lambda: True,
                    "r.windshears[0].name": lambda: None, "r.windshears[0].code": lambda: "WS ALL RWY", "len(r.windshears)": lambda: 1})
        ctx.case("all" + tail, "Metar", BASE + "WS ALL RWY" + tail, {}, obs)
    ctx.case("none", "Metar", BASE + "{w}", dict(w="RERA|W10/S3|RMK"),
             {"len(r.windshears)": lambda: 0, "r.windshears.names": lambda: [], "r.windshears.all_runways": lambda: False})
