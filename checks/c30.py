"""Lists of groups."""
from aai.decode import Raises
from .spec import *

METHOD = "Abstract interpretation of report construction and of every operation of the lists, over symbolic groups."
RULE = ("each list of METARs, trends, TAFs and changes with none to two more than its capacity of symbolic groups: length, indexing, repeated and nested "
        "iteration, codes, items, dictionary, and what is left unparsed")
ASSUMES = ["indexes beyond the capacity raise the package's range error, other indexes beyond the length IndexError",
           "at most two METAR trends of each indicator are told apart (a METAR has no more than two)"]
ORD = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "nineth", "tenth"]


def build(ctx):
    A = "METAR ZZZZ 100000Z 00000KT 9999 "
    B = "TAF ZZZZ 100500Z 1006/1112 00000KT 9999 "
    lists = [("runway ranges", "Metar", A + "%s RA 10/08", "r.runway_ranges", 3, ["R01/0500", "R12L/P1500", "R24/0300V0700", "R36C/M0050FT", "R09/1000N"], r"R1[24]/0[56]00|R30R/P1500"),
             ("weathers", "Metar", A + "%s FEW010 10/08", "r.weathers", 3, ["RA", "-TSRA", "BR", "VCSH", "+SN"][:3] + ["FG", "DS"], r"RA|\+TSRA|FG|-SN"),
             ("clouds", "Metar", A + "%s 10/08 Q1013", "r.clouds", 4, ["FEW010", "SCT020CB", "BKN030", "OVC040", "BKN050", "OVC060"], r"SCT0[1-3]0|BKN090TCU|VV001|NSC"),
             ("windshears", "Metar", A + "10/08 Q1013 %s", "r.windshears", 3, ["WS R01", "WS R12L", "WS R24", "WS R36C", "WS R09"], None),
             ("trend weathers", "Metar", A + "TEMPO FM0010 2000 %s BKN010", "r.weather_trends[0].weathers", 3, ["RA", "-TSRA", "BR", "FG", "DS"], r"RA|\+TSRA|FG"),
             ("trend clouds", "Metar", A + "BECMG 2000 RA %s", "r.weather_trends[0].clouds", 4, ["FEW010", "SCT020CB", "BKN030", "OVC040", "BKN050", "OVC060"], r"SCT0[1-3]0|BKN090TCU|VV001"),
             ("TAF weathers", "Taf", B + "%s FEW010", "r.weathers", 3, ["RA", "-TSRA", "BR", "FG", "DS"], r"RA|\+TSRA|FG|-SN"),
             ("TAF clouds", "Taf", B + "RA %s TX10/1012Z", "r.clouds", 4, ["FEW010", "SCT020CB", "BKN030", "OVC040", "BKN050", "OVC060"], r"SCT0[1-3]0|BKN090TCU|VV001"),
             ("maximum temperatures", "Taf", B + "NSC %s TN02/1106Z", "r.max_temperatures", 2, ["TX10/1012Z", "TX12/1112Z", "TX15/1015Z"], r"TX[01]5/1014Z|TXM02/1111Z"),
             ("minimum temperatures", "Taf", B + "NSC TX20/1012Z %s", "r.min_temperatures", 2, ["TN10/1012Z", "TN12/1112Z", "TN15/1015Z"], r"TN[01]5/1014Z|TNM02/1111Z"),
             ("change weathers", "Taf", B + "TEMPO 1008/1010 2000 %s BKN010", "r.changes_forecasted[0].weathers", 3, ["RA", "-TSRA", "BR", "FG", "DS"], r"RA|\+TSRA|FG"),
             ("change clouds", "Taf", B + "FM101200 09005KT 2000 RA %s", "r.changes_forecasted[0].clouds", 4, ["FEW010", "SCT020CB", "BKN030", "OVC040", "BKN050", "OVC060"], r"SCT0[1-3]0|BKN090TCU|VV001"),
             ("trends", "Metar", A + "%s", "r.weather_trends", 2, ["BECMG 3000 RA", "TEMPO FM0010 0800 FG", "BECMG 9999 BKN010"], None),
             ("changes", "Taf", B + "%s", "r.changes_forecasted", 8,
              ["TEMPO 1008/1010 RA", "BECMG 1010/1012 09010KT", "FM101300 9999", "PROB30 1014/1016 TS", "TEMPO 1014/1018 FG", "FM101900 NSC",
               "BECMG 1021/1023 3000", "TEMPO 1100/1102 DZ", "FM110300 CAVOK", "TEMPO 1104/1106 RA"], None)]
    for nm, cls, text, L, cap, groups, sym in lists:
        for n in range(len(groups) + 1):
            for pos in ([None] if sym is None or n == 0 else sorted({0, min(n, cap) - 1, n - 1})):
                gs = list(groups[:n])
                fields = {}
                if pos is not None:
                    gs[pos] = "{g}"
                    fields["g"] = sym

                def cs(g="", gs=gs, cap=cap):
                    return [x.replace("{g}", g) for x in gs]
                code = text.replace(" %s", "" if not gs else " " + " ".join(gs))
                # accessors print the code of a windshear with its underscores removed
                kept = lambda g="", cs=cs, cap=cap: cs(g)[:cap]
                m = min(n, cap)

                def sp(f, has=bool(fields)):
                    return (lambda g: f(g)) if has else (lambda: f(""))
                obs = {"len(%s)" % L: lambda m=m: m, L + ".codes": sp(lambda g, kept=kept: kept(g)),
                       "[x.code for x in %s]" % L: sp(lambda g, kept=kept: kept(g)),
                       "[x.code for x in %s.items]" % L: sp(lambda g, kept=kept: kept(g)),
                       "([x.code for x in %s], [x.code for x in %s])[1]" % (L, L): sp(lambda g, kept=kept: kept(g)),
                       "[y.code for x in %s for y in %s]" % (L, L): sp(lambda g, kept=kept, m=m: kept(g) * m),
                       "list(%s.as_dict())" % L: lambda m=m: ORD[:m],
                       "' '.join(r.unparsed_groups)": sp(lambda g, cs=cs, cap=cap: " ".join(cs(g)[cap:])),
                       "bool(%s)" % L: lambda m=m: m > 0}
                for i in range(cap + 2):
                    if i < m:
                        obs["%s[%d].code" % (L, i)] = sp(lambda g, kept=kept, i=i: kept(g)[i])
                        if nm != "maximum temperatures" and nm != "minimum temperatures":
                            obs["%s.as_dict()[%r]['code']" % (L, ORD[i])] = sp(lambda g, kept=kept, i=i: kept(g)[i])
                    else:
                        obs["%s[%d]" % (L, i)] = lambda i=i, cap=cap: Raises("RangeError") if i >= cap else Raises("IndexError")
                ctx.case("%d %s, %s" % (n, nm, "none symbolic" if pos is None else "symbolic %d" % pos), cls, code, fields, obs)
