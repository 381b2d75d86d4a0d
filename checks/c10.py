"""Wind groups."""
from .spec import *

METHOD = "Abstract interpretation of report construction and of every wind accessor, over symbolic wind groups."
RULE = ("every direction (000-360 by tens, VRB, ///), every two or three digit speed and gust and both units, "
        "in each place of a report a wind group can stand, partition by partition")
DIR = r"([0-2]\d|3[0-6])0|VRB|///"
DIRT = r"([0-2]\d|3[0-6])0|VRB"


def deg(d):
    return float(d) if d.isdigit() else None


def kt(s, u):
    if s is None or not s.isdigit():
        return None
    return float(s) * (3600 / 1852.0 if u == "MPS" else 1.0)


def build(ctx):
    for nm, cls, text, at in WIND_AT:
        D = DIRT if cls == "Taf" else DIR
        obs = {at + ".variable": lambda d: d == "VRB",
               at + ".cardinal_direction": lambda d: rose(float(d)) if d.isdigit() else None,
               at + ".code": lambda d: d + "05KT", "r.unparsed_groups": lambda: []}
        for u, k in ANGLE.items():
            obs[at + ".direction_" + u] = (lambda d, k=k: scaled(deg(d), k)), 1e-6
        ctx.case("direction in " + nm, cls, text % "{d}05KT", dict(d=D), obs)
        sp = r"\d{2,3}" + ("" if cls == "Taf" else "|//|///")
        obs = {at + ".gust_" + u: lambda: None for u in KT}
        obs["r.unparsed_groups"] = lambda: []
        for u, k in KT.items():
            obs[at + ".speed_" + u] = (lambda s, t, k=k: scaled(kt(s, t), k)), 1e-5
        ctx.case("speed in " + nm, cls, text % "180{s}{t}", dict(s=sp, t="KT|MPS"), obs)
        obs = {"r.unparsed_groups": lambda: [], at + ".direction_in_degrees": lambda: 180.0}
        for u, k in KT.items():
            obs[at + ".gust_" + u] = (lambda g, t, k=k: scaled(kt(g, t), k)), 1e-5
            obs[at + ".speed_" + u] = (lambda t, k=k: scaled(kt("07", t), k)), 1e-5
        ctx.case("gust in " + nm, cls, text % "18007G{g}{t}", dict(g=r"\d{2,3}", t="KT|MPS"), obs)
        obs = {"r.unparsed_groups": lambda: [], at + ".direction_in_degrees": lambda d: deg(d),
               at + ".speed_in_knot": lambda s: float(s), at + ".gust_in_knot": lambda g: float(g)}
        ctx.case("wind above scale in " + nm, cls, text % "{d}P{s}GP{g}KT", dict(d="240|VRB|360", s=r"99|1\d\d",
                                                                               g=r"99|2\d\d"), obs)
