"""Runway visual range groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every runway-range accessor, over symbolic groups."
RULE = "every runway name, limit, range (2-4 digits, metres and feet), variable range and tendency, as each of three groups"
LIM = {"": None, "M": "below of", "P": "above of"}
TR = {"": None, "N": "no change", "U": "increasing", "D": "decreasing"}
NAME = r"\d\d[RLC]?"
ASSUMES = ["a range of 9999 is left unspecified (the package reads it as 10 km, as in a visibility)"]


def rng(v, u):
    return float(v) * (0.3048 if u else 1.0)


def text_of(lim, v, u):
    return (LIM[lim] + " " if lim else "") + "%.1f m" % rng(v, u)


def build(ctx):
    base = "METAR ZZZZ 100000Z 00000KT 0800 %s"
    R2 = r"\d{2,3}|\d{4}"
    for pos, before, after in ((0, "", ""), (1, "R01/0500 ", ""), (2, "R01/0500 R02/M0050V1000D ", " FG"),
                               (0, "0500E ", " R22/1500 BR VV001")):
        A = "r.runway_ranges[%d]." % pos
        n = before.count("R0") + 1 + after.count("R22")
        common = {"r.unparsed_groups": lambda: [], "len(r.runway_ranges)": lambda n=n: n}
        obs = dict(common)
        obs.update({A + "name": lambda n: runway(n), A + "trend": lambda t: TR[t], A + "low_in_meters": lambda: 600.0,
                    A + "high_in_meters": lambda: None, A + "code": lambda n, t: "R" + n + "/0600" + t,
                    A + "low_range": lambda: "600.0 m", A + "high_range": lambda: ""})
        ctx.case("name and tendency %d %r" % (pos, before + after), "Metar", base % (before + "R{n}/0600{t}" + after),
                 dict(n=NAME, t="[NUD]?"), obs)
        for u in ("", "FT"):
            for f in ("v", "lim"):
                fields = dict(v=R2, t="[NUD]?") if f == "v" else dict(p="[MP]?", v=r"[01][1-9]00")
                tpl = "R12/{v}%s{t}" % u if f == "v" else "R12/{p}{v}%s" % u
                obs = dict(common)
                for x, k in DIST.items():
                    obs[A + "low_" + x] = (lambda v, k=k, u=u: ctx_skip(v) or rng(v, u) * k), 1e-6
                    obs[A + "high_" + x] = lambda: None
                if f == "v":
                    obs[A + "trend"] = lambda t: TR[t]
                else:
                    obs[A + "low_range"] = lambda p, v, u=u: text_of(p, v, u)
                    obs[A + "as_dict()['rvr_low']"] = lambda p: LIM[p]
                    obs[A + "as_dict()['rvr_high']"] = lambda: None
                ctx.case("low range %s%s %d %r" % (f, u, pos, before + after), "Metar", base % (before + tpl + after),
                         fields, obs)
                fields = dict(v=R2, t="[NUD]?") if f == "v" else dict(p="[MP]?", q="[MP]?", v=r"1\d00|10\d\d")
                tpl = "R12L/0300V{v}%s{t}" % u if f == "v" else "R12L/{p}0300V{q}{v}%s" % u
                obs = dict(common)
                for x, k in DIST.items():
                    obs[A + "high_" + x] = (lambda v, k=k, u=u: ctx_skip(v) or rng(v, u) * k), 1e-6
                    obs[A + "low_" + x] = (lambda k=k, u=u: rng("0300", u) * k), 1e-6
                if f == "v":
                    obs[A + "trend"] = lambda t: TR[t]
                    obs[A + "name"] = lambda: "12 left"
                else:
                    obs[A + "high_range"] = lambda q, v, u=u: text_of(q, v, u)
                    obs[A + "low_range"] = lambda p, u=u: text_of(p, "0300", u)
                    obs[A + "as_dict()['rvr_low']"] = lambda p: LIM[p]
                    obs[A + "as_dict()['rvr_high']"] = lambda q: LIM[q]
                ctx.case("high range %s%s %d %r" % (f, u, pos, before + after), "Metar", base % (before + tpl + after),
                         fields, obs)
    ctx.case("no ranges", "Metar", base % "{w}", dict(w="FG|BR|VV001"),
             {"len(r.runway_ranges)": lambda: 0, "r.runway_ranges.codes": lambda: []})


def ctx_skip(v):
    from aai.decode import SKIP
    return SKIP if v == "9999" else None
