"""Periods of METAR trends."""
import calendar
import datetime

from aai.decode import SKIP
from .spec import *

METHOD = "Abstract interpretation of METAR construction and of the trend-period accessors, over symbolic report and trend times."
RULE = ("every hour and minute of the report with every FM, TL and AT within the two hours that follow, on every day of "
        "months of each length and across the year's end; both trends of a report")
ASSUMES = ["times before the report or more than two hours after it are unspecified"]
MIN = datetime.timedelta(minutes=1)
HOUR = r"[01]\d|2[0-3]"
IND = {"BECMG": "becoming", "TEMPO": "temporary"}


def within(t, hh, mm):
    """The moment with that hour and minute in the two hours after t."""
    c = t.replace(hour=0, minute=0) + (int(hh) % 24 * 60 + int(mm)) * MIN
    if c < t:
        c += 1440 * MIN
    return c if c - t <= 120 * MIN else SKIP


def build(ctx):
    months = [(2021, 2), (2020, 2), (2021, 12)] + ([(2021, 4), (2021, 1), (1999, 12), (2000, 2), (1900, 2)] if ctx.thorough else [])
    for y, mo in months:
        n = calendar.monthrange(y, mo)[1]
        kw = dict(year=y, month=mo)
        tag = " %04d-%02d" % (y, mo)
        T = "r.weather_trends[%d]."
        I = T + "trend_indicator."
        A = I % 0

        def t(d, h, m, y=y, mo=mo):
            return datetime.datetime(y, mo, int(d), int(h), int(m))
        BODY = "METAR ZZZZ {d}{h}{m}Z 00000KT 9999 10/08 Q1013 "
        quiet = {"r.unparsed_groups": lambda: [], "len(r.weather_trends)": lambda: 1, (T % 0) + "unparsed_groups": lambda: []}
        plain = dict(quiet)
        plain.update({A + "forecast_period[0].time": lambda d, h, m, t=t: t(d, h, m),
                      A + "forecast_period[1].time": lambda d, h, m, t=t: t(d, h, m) + 120 * MIN,
                      A + "period_from.time": lambda d, h, m, t=t: t(d, h, m),
                      A + "period_until.time": lambda d, h, m, t=t: t(d, h, m) + 120 * MIN,
                      A + "period_at": lambda: None})
        days = "|".join("%02d" % d for d in range(1, n + 1))
        for ind, tr in list(IND.items()) + [("NOSIG", "no significant changes")]:
            o = dict(plain)
            o.update({A + "translation": lambda tr=tr: tr, A + "code": lambda ind=ind: ind})
            ctx.case("%s whole%s" % (ind, tag), "Metar", BODY + ind + ("" if ind == "NOSIG" else " RA"),
                     dict(d=days, h=HOUR, m="00|07|59"), o, kw)
        none = {A + "period_at": lambda: None}
        cases = [
            ("FM", {A + "period_from.time": lambda d, h, m, a, b, t=t: within(t(d, h, m), a, b),
                    A + "period_until.time": lambda d, h, m, t=t: t(d, h, m) + 120 * MIN, **none}),
            ("TL", {A + "period_until.time": lambda d, h, m, a, b, t=t: within(t(d, h, m), a, b),
                    A + "period_from.time": lambda d, h, m, t=t: t(d, h, m), **none}),
            ("AT", {A + "period_at.time": lambda d, h, m, a, b, t=t: within(t(d, h, m), a, b)})]
        for px, o in cases:
            for nm, fields in (("day", dict(d=days, h="22|23", m="00|30", a="22|23|24|00|01", b="00|10|30|59")),
                               ("hour", dict(d="14|%02d" % n, h=HOUR, m="00|25|59", a=r"[01]\d|2[0-4]", b="00|25|40")),
                               ("minute", dict(d="%02d" % n, h="09|22|23", m=r"[0-5]\d", a="09|10|11|22|23|24|00|01", b=r"[0-5]\d"))):
                if nm == "minute" and (y, mo) != months[2] and not ctx.thorough:
                    continue
                q = dict(o)
                q.update(quiet)
                q[A + "code"] = lambda a, b, px=px: "BECMG %s%s%s" % (px, a, b)
                ctx.case("%s %s%s" % (px, nm, tag), "Metar", BODY + "BECMG %s{a}{b} 3000" % px, fields, q, kw)
        # both ends, in either order of the report's trends
        two = dict(quiet)
        two.update({A + "period_from.time": lambda d, h, m, a, b, t=t: within(t(d, h, m), a, b),
                    A + "period_until.time": lambda d, h, m, e, t=t: within(t(d, h, m), e, "45"), **none,
                    (T % 0) + "prevailing_visibility.in_meters": lambda: 3000.0,
                    A + "code": lambda a, b, e: "TEMPO FM%s%s TL%s45" % (a, b, e), A + "translation": lambda: "temporary"})
        f2 = dict(d="%02d" % n, h=HOUR, m="00|50", a=r"[01]\d|2[0-4]", b="00|55", e=r"[01]\d|2[0-4]")
        ctx.case("FM and TL" + tag, "Metar", BODY + "TEMPO FM{a}{b} TL{e}45 3000", f2, two, kw)
        B = I % 1
        two = {"len(r.weather_trends)": lambda: 2, "r.unparsed_groups": lambda: [],
               A + "translation": lambda: "becoming", B + "translation": lambda: "temporary",
               A + "period_at.time": lambda d, h, m, a, b, t=t: within(t(d, h, m), a, b),
               B + "period_from.time": lambda d, h, m, t=t: t(d, h, m), B + "period_at": lambda: None,
               B + "period_until.time": lambda d, h, m, e, t=t: within(t(d, h, m), e, "45"),
               (T % 0) + "prevailing_visibility.in_meters": lambda: 3000.0,
               (T % 1) + "weathers.codes": lambda: ["RA"]}
        ctx.case("two trends" + tag, "Metar", BODY + "BECMG AT{a}{b} 3000 TEMPO TL{e}45 RA", f2, two, kw)
        for m in ("00", "05"):
            W = BODY.format(d="%02d" % n, h="23", m=m)
            t0 = t(n, 23, m)
            for a in ("23", "24", "00"):
                w = within(t0, a, 10)
                ctx.case("words %s%s" % (a, tag), "Metar", W + "BECMG FM%s10 TL0100 3000" % a, {},
                         {"str(%s)" % A[:-1]: lambda w=w, t0=t0: "becoming from %s until %s" % (w, within(t0, 1, 0))}, kw, blur=False)
                ctx.case("words at %s%s" % (a, tag), "Metar", W + "TEMPO AT%s10 3000" % a, {},
                         {"str(%s)" % A[:-1]: lambda w=w: "temporary at %s" % w}, kw, blur=False)
    # an hour of 24 only with minute 00 is usual, and others are complete words too
    ctx.case("impossible minute", "Metar", "METAR ZZZZ 101200Z 00000KT 9999 BECMG {p}12{b} 3000", dict(p="FM|TL|AT", b=r"[6-9]\d"),
             {"r.unparsed_groups": lambda p, b: [p + "12" + b], "r.weather_trends[0].prevailing_visibility.in_meters": lambda: 3000.0})
    ctx.case("impossible hour", "Metar", "METAR ZZZZ 101200Z 00000KT 9999 BECMG {p}{b}00 3000", dict(p="FM|TL|AT", b=r"2[5-9]|[3-9]\d"),
             {"r.unparsed_groups": lambda p, b: [p + b + "00"], "r.weather_trends[0].prevailing_visibility.in_meters": lambda: 3000.0})
