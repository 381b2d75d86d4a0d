"""Report time."""
import datetime
import calendar

from aai.decode import SKIP
from .spec import *

METHOD = "Abstract interpretation of report construction and of the time accessors, over symbolic time groups."
RULE = ("every day, hour and minute of every month kind (28, 29, 30 and 31 days, first and last month of the year) given "
        "by year and month; days 1-28 when they are not given; times that do not exist stay unparsed")
MONTHS = [(2021, 1), (2021, 2), (2020, 2), (2021, 4), (2021, 12), (1999, 12), (2000, 2), (1900, 2), (2024, 7)]
DAY = r"0[1-9]|[12]\d|3[01]"


def build(ctx):
    for cls, pre, post in (("Metar", "METAR ZZZZ ", " 00000KT 9999"), ("Metar", "SPECI ZZZZ ", " AUTO 00000KT CAVOK NOSIG"),
                           ("Taf", "TAF ZZZZ ", " 00000KT 9999"), ("Taf", "TAF AMD ZZZZ ", " NIL")):
        months = MONTHS if cls == "Metar" and "AUTO" not in post or ctx.thorough else MONTHS[1:3]
        for y, mo in months:
            last = calendar.monthrange(y, mo)[1]
            text = pre + "{d}{h}{m}Z" + post

            def t(d, h, m, y=y, mo=mo, last=last):
                if int(d) > last:
                    return datetime.datetime(y, mo, 1)
                return datetime.datetime(y, mo, int(d), int(h), int(m))
            ok = lambda d, last=last: int(d) <= last
            obs = {"r.time.year": lambda y=y: y, "r.time.month": lambda mo=mo: mo,
                   "r.time.day": lambda d, ok=ok: int(d) if ok(d) else 1,
                   "r.unparsed_groups": lambda d, h, m, ok=ok: [] if ok(d) else [d + h + m + "Z"]}
            kw = dict(year=y, month=mo)
            ctx.case("days %s %s %04d-%02d" % (cls, pre, y, mo), cls, text, dict(d=DAY, h="0[05]|1[29]|23", m="00|37"),
                     dict(obs, **{"r.time.time": t}), kw)
            obs = {"r.time.hour": lambda h: int(h), "r.time.minute": lambda m: int(m),
                   "r.time.time": lambda h, m, y=y, mo=mo: datetime.datetime(y, mo, 28, int(h), int(m)),
                   "r.time.code": lambda h, m: "28%s%sZ" % (h, m)}
            ctx.case("hours %s %s %04d-%02d" % (cls, pre, y, mo), cls, pre + "28{h}{m}Z" + post,
                     dict(h=r"[01]\d|2[0-3]", m=r"[0-5]\d"), obs, kw)
            ctx.case("no time %s %s %04d-%02d" % (cls, pre, y, mo), cls, pre + "{w}" + post, dict(w="AUTO|COR|NIL|280000|280060Z|282500Z|002000Z|321200Z"),
                     {"r.time.time": lambda y=y, mo=mo: datetime.datetime(y, mo, 1), "r.time.code": lambda: None}, kw)
        obs = {"r.time.day": lambda d: int(d), "r.time.hour": lambda h: int(h), "r.time.minute": lambda m: int(m),
               "r.time.code": lambda d, h, m: d + h + m + "Z"}
        fields = dict(d=r"0[1-9]|1\d|2[0-8]", h=r"[01]\d|2[0-3]", m="00|15|59")
        ctx.case("current month %s %s" % (cls, pre), cls, pre + "{d}{h}{m}Z" + post, fields, obs, {})
        ctx.case("current month of a year %s %s" % (cls, pre), cls, pre + "{d}{h}{m}Z" + post, fields,
                 dict(obs, **{"r.time.year": lambda: 2018}), dict(year=2018))
        ctx.case("month of the current year %s %s" % (cls, pre), cls, pre + "{d}{h}{m}Z" + post, fields,
                 dict(obs, **{"r.time.month": lambda: 11}), dict(month=11))
