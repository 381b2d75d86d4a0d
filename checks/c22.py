"""Validity of a TAF and times of its temperatures."""
import calendar
import datetime

from aai.decode import SKIP
from .spec import *

METHOD = ("Abstract interpretation of TAF construction and of the validity, duration and temperature-time accessors, "
          "over symbolic issue times, validity groups and temperature groups.")
RULE = ("every issue day with every first and last day of validity, every hour (24 included), for months of 28 to 31 days "
        "and across the year's end; the first matching day on or after the issue (the start) is the one meant")
ASSUMES = ["dates are on or after the day of issue (what a TAF can mean); minutes of the validity are zero"]
DAY = r"0[1-9]|[12]\d|3[01]"
H1 = datetime.timedelta(hours=1)


def upto(t, day):
    while t.day != day:
        t += datetime.timedelta(days=1)
    return t


def at(t, day, hour):
    t = upto(t.replace(hour=0, minute=0), day)
    return t + datetime.timedelta(hours=hour)


def build(ctx):
    months = [(2021, 2), (2020, 2), (2021, 12), (2021, 4)] + ([(2021, 1), (2021, 6), (2000, 2), (1999, 12), (2022, 10)] if ctx.thorough else [])
    for y, mo in months:
        n = calendar.monthrange(y, mo)[1]
        kw = dict(year=y, month=mo)
        days = "|".join("%02d" % d for d in range(1, n + 1))
        V = "r.valid."
        issue = lambda d, h="11": datetime.datetime(y_, mo_, int(d), int(h), 0)

        def mk(y=y, mo=mo):
            iss = lambda d, h=11: datetime.datetime(y, mo, int(d), int(h))
            frm = lambda d, a, b=12: at(iss(d), int(a), int(b))
            til = lambda d, a, e, b=12, f=12: at(frm(d, a, b), int(e), int(f))
            return iss, frm, til
        iss, frm, til = mk()
        tag = " %04d-%02d" % (y, mo)
        ctx.case("start day" + tag, "Taf", "TAF ZZZZ {d}1100Z {a}12/{a}18 00000KT", dict(d=days, a=DAY),
                 {V + "period_from.time": lambda d, a, frm=frm: frm(d, a),
                  V + "period_until.time": lambda d, a, til=til: til(d, a, a, 12, 18),
                  V + "duration": lambda: 6 * H1, V + "code": lambda a: "%s12/%s18" % (a, a),
                  "r.unparsed_groups": lambda: []}, kw)
        few = "|".join("%02d" % d for d in (1, 9, n - 1, n))
        ctx.case("end day" + tag, "Taf", "TAF ZZZZ {d}2330Z {a}00/{e}06 00000KT", dict(d=few, a="|".join("%02d" % x for x in (1, 2, 10, n)), e=DAY),
                 {V + "period_until.time": lambda d, a, e, til=til: til(d, a, e, 0, 6),
                  V + "period_from.time": lambda d, a, frm=frm: frm(d, a, 0)}, kw)
        ctx.case("hours" + tag, "Taf", "TAF ZZZZ {d}1740Z {d}{b}/{e}{f} 00000KT",
                 dict(d="%02d" % n, b=r"1[89]|2[0-3]", e="01|02", f=r"[01]\d|2[0-4]"),
                 {V + "period_from.time": lambda d, b, frm=frm: frm(d, d, b), V + "period_from.minute": lambda: 0,
                  V + "period_from.hour": lambda b: int(b), V + "period_until.hour": lambda f: int(f) % 24,
                  V + "period_until.time": lambda d, b, e, f, til=til: til(d, d, e, b, f),
                  V + "duration": lambda d, b, e, f, til=til, frm=frm: til(d, d, e, b, f) - frm(d, d, b)}, kw)
        ctx.case("same day" + tag, "Taf", "TAF ZZZZ {d}0{m}Z {d}06/{d}{f} 00000KT",
                 dict(d=days, m=r"500|520|559", f=r"0[6-9]|1\d|2[0-4]"),
                 {V + "period_from.time": lambda d, frm=frm: frm(d, d, 6),
                  V + "period_until.time": lambda d, f, til=til: til(d, d, d, 6, f)}, kw)
        ctx.case("no validity" + tag, "Taf", "TAF ZZZZ {d}{h}{m}Z 00000KT", dict(d=days, h=r"[01]\d|2[0-3]", m="00|30"),
                 {V + "code": lambda: None, V + "duration": lambda: 24 * H1,
                  V + "period_from.time": lambda d, h, iss=iss: iss(d, h) + H1}, kw)
        ctx.case("missing TAF" + tag, "Taf", "TAF ZZZZ {d}1200Z NIL", dict(d=days),
                 {V + "period_from.time": lambda d, iss=iss: iss(d, 13), "r.missing.is_missing": lambda: True}, kw)
        ctx.case("cancelled TAF" + tag, "Taf", "TAF AMD ZZZZ {d}1200Z {a}12/{a}18 CNL", dict(d=few, a=DAY),
                 {V + "period_from.time": lambda d, a, frm=frm: frm(d, a), "r.cancelled.is_cancelled": lambda: True,
                  "r.missing.is_missing": lambda: False}, kw)
        for x, lst in (("X", "max_temperatures"), ("N", "min_temperatures")):
            A = "r.%s[0]." % lst
            ctx.case("T%s day%s" % (x, tag), "Taf", "TAF ZZZZ {d}0530Z {d}06/%s 9999 T%s10/{a}18Z" % ("{e}06", x),
                     dict(d=few, e="%02d" % 2, a=DAY),
                     {A + "time.time": lambda d, a, iss=iss: at(iss(d), int(a), 18), A + "time.minute": lambda: 0}, kw)
            ctx.case("T%s hour%s" % (x, tag), "Taf", "TAF ZZZZ {d}0530Z 9999 T%s10/{a}{h}Z" % x,
                     dict(d=few, a="01|%02d" % n, h=r"[01]\d|2[0-3]"),
                     {A + "time.time": lambda d, a, h, iss=iss: at(iss(d), int(a), int(h)),
                      A + "time.hour": lambda h: int(h), A + "time.day": lambda a: int(a)}, kw)
