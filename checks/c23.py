"""Change groups of a TAF: kind, period, and how FM periods chain."""
import calendar
import datetime

from aai.decode import SKIP
from .spec import *
from .c22 import upto, at

METHOD = ("Abstract interpretation of TAF construction and of the change-period accessors, over symbolic indicators and "
          "period groups, alone and in sequences.")
RULE = ("every kind of change with every period, FM at every time, and sequences of up to four changes in which FM and "
        "BECMG end the FM before them whatever TEMPO and PROB stand between")
ASSUMES = ["a period's day is the first such day on or after the start of the TAF's validity",
           "an FM period lasts until one hour before the next FM or BECMG begins, else until the TAF ends (docstrings)"]
H1 = datetime.timedelta(hours=1)
KIND = {"TEMPO": "temporary", "BECMG": "becoming", "PROB30": "probability 30%", "PROB40": "probability 40%",
        "PROB30 TEMPO": "probability 30% temporary", "PROB40 TEMPO": "probability 40% temporary"}


def build(ctx):
    months = [(2021, 2), (2021, 12)] + ([(2020, 2), (2021, 4), (2021, 1), (1999, 12)] if ctx.thorough else [])
    for y, mo in months:
        n = calendar.monthrange(y, mo)[1]
        kw = dict(year=y, month=mo)
        L = "%02d" % n
        tag = " %04d-%02d" % (y, mo)
        C = "r.changes_forecasted[%d]."
        I = C + "change_indicator."
        for issue, first in ((n, n), (15, 16)):
            start = datetime.datetime(y, mo, first, 12)
            d2 = (start + 24 * H1).day
            end = start + 30 * H1
            head = "TAF ZZZZ %02d0530Z %02d12/%02d18 18010KT 9999 " % (issue, first, d2)
            f = lambda a, h, start=start: at(start, int(a), int(h))
            for kind, tr in KIND.items():
                A = I % 0
                days = "%02d|%02d" % (first, d2)
                ctx.case("%s period%s %d" % (kind, tag, issue), "Taf", head + kind + " {a}{b}/{c}{d} RA",
                         dict(a=days, b="12|13|17|23", c="%02d" % d2, d=r"[01]\d|2[0-4]"),
                         {A + "valid.period_from.time": lambda a, b, f=f: f(a, b),
                          A + "valid.period_until.time": lambda a, b, c, d, f=f: at(f(a, b), int(c), int(d)),
                          A + "valid.duration": lambda a, b, c, d, f=f: at(f(a, b), int(c), int(d)) - f(a, b),
                          A + "valid.code": lambda a, b, c, d: "%s%s/%s%s" % (a, b, c, d),
                          A + "code": lambda a, b, c, d, k=kind: "%s %s%s/%s%s" % (k, a, b, c, d),
                          "r.unparsed_groups": lambda: [], "len(r.changes_forecasted)": lambda: 1,
                          (C % 0) + "weathers.codes": lambda: ["RA"]}, kw)
                ctx.case("%s words%s %d" % (kind, tag, issue), "Taf", head + kind + " {a}{b}/{c}{d} RA",
                         dict(a=days, b="12|13|23", c="%02d" % d2, d="00|09|24"),
                         {A + "translation": lambda a, b, c, d, f=f, t=tr: "%s from %s until %s" % (t, f(a, b), at(f(a, b), int(c), int(d)))},
                         kw, blur=False)
                ctx.case("%s start hour%s %d" % (kind, tag, issue), "Taf", head + kind + " {a}{b}/{a}24 RA",
                         dict(a="%02d" % d2, b=r"[01]\d|2[0-3]"),
                         {A + "valid.period_from.time": lambda a, b, f=f: f(a, b),
                          A + "valid.period_until.time": lambda a, f=f: f(a, 24)}, kw)
            A = I % 0
            ctx.case("FM" + tag + " %d" % issue, "Taf", head + "FM{a}{h}{m} 09005KT",
                     dict(a="%02d|%02d" % (first, d2), h=r"[01]\d|2[0-3]", m=r"[0-5]\d"),
                     {A + "valid.period_from.time": lambda a, h, m, f=f: f(a, h) + int(m) * H1 / 60,
                      A + "valid.period_until.time": lambda end=end: end, A + "code": lambda a, h, m: "FM" + a + h + m,
                      "r.unparsed_groups": lambda: [], "len(r.changes_forecasted)": lambda: 1,
                      (C % 0) + "wind.speed_in_knot": lambda: 5.0}, kw)
            ctx.case("FM words" + tag + " %d" % issue, "Taf", head + "FM{a}{h}{m} 09005KT",
                     dict(a="%02d|%02d" % (first, d2), h="00|12|23", m="00|59"),
                     {A + "translation": lambda a, h, m, f=f, end=end: "from %s until %s" % (f(a, h) + int(m) * H1 / 60, end)},
                     kw, blur=False)
            D2 = "%02d" % d2
            fm = lambda d, h, m="00", f=f: f(d, h) + int(m) * H1 / 60
            T = "TEMPO %02d14/%02d16 RA " % (first, first)
            P = "PROB30 %02d15/%02d16 TS " % (first, first)
            PT = "PROB40 TEMPO %02d15/%02d16 TSRA " % (first, first)
            ba = "FM%02d1300 10010KT " % first
            b0 = f(first, 13)
            for nm, mid, k in (("", "", 1), ("TEMPO", T, 2), ("PROB", P, 2), ("PROB TEMPO", PT, 2), ("two TEMPO", T + T, 3),
                               ("TEMPO and PROB", T + PT, 3), ("three", P + T + PT, 4)):
                for nxt in ("FM{a}{h}{m} 00000KT", "BECMG {a}{h}/{a}24 00000KT"):
                    fields = dict(a=D2, h=r"[01]\d|2[0-3]")
                    is_fm = nxt.startswith("FM")
                    if is_fm:
                        fields["m"] = "00|30|59"
                    tm = (lambda a, h, m, f=f: f(a, h) + int(m) * H1 / 60) if is_fm else (lambda a, h, f=f: f(a, h))
                    if is_fm:
                        o = {(I % 0) + "valid.period_until.time": lambda a, h, m, tm=tm: tm(a, h, m) - H1,
                             (I % k) + "valid.period_from.time": lambda a, h, m, tm=tm: tm(a, h, m),
                             (I % k) + "valid.period_until.time": lambda end=end: end}
                        ctx.case("FM, %s, words%s %d" % (nm, tag, issue), "Taf", head + ba + mid + nxt,
                                 dict(a=D2, h="01|13", m="00|59"),
                                 {(I % 0) + "translation": lambda a, h, m, tm=tm, b0=b0: "from %s until %s" % (b0, tm(a, h, m) - H1)},
                                 kw, blur=False)
                    else:
                        o = {(I % 0) + "valid.period_until.time": lambda a, h, tm=tm: tm(a, h) - H1,
                             (I % k) + "valid.period_from.time": lambda a, h, tm=tm: tm(a, h),
                             (I % k) + "valid.period_until.time": lambda a, f=f: f(a, 24)}
                    o.update({(I % 0) + "valid.period_from.time": lambda b0=b0: b0, "len(r.changes_forecasted)": lambda k=k: k + 1,
                              "r.unparsed_groups": lambda: []})
                    for j in range(1, k):
                        lo, hi = ((14, 16) if mid.split("RA ")[0] and (mid.startswith("TEMPO") and j == 1 or nm == "two TEMPO"
                                                                    or nm == "three" and j == 2) else (15, 16))
                        o[(I % j) + "valid.period_from.time"] = lambda f=f, lo=lo, first=first: f(first, lo)
                        o[(I % j) + "valid.period_until.time"] = lambda f=f, hi=hi, first=first: f(first, hi)
                    ctx.case("FM, %s, %s%s %d" % (nm, nxt[:2], tag, issue), "Taf", head + ba + mid + nxt, fields, o, kw)
            # longer chains
            ctx.case("FM FM FM%s %d" % (tag, issue), "Taf", head + ba + "FM%02d1500 20010KT FM{a}{h}30 00000KT" % first,
                     dict(a=D2, h=r"[01]\d|2[0-3]"),
                     {(I % 0) + "valid.period_until.time": lambda f=f, first=first: f(first, 14),
                      (I % 1) + "valid.period_from.time": lambda f=f, first=first: f(first, 15),
                      (I % 1) + "valid.period_until.time": lambda a, h, f=f: f(a, h) - H1 / 2,
                      (I % 2) + "valid.period_until.time": lambda end=end: end}, kw)
            ctx.case("FM BECMG FM%s %d" % (tag, issue), "Taf", head + ba + "BECMG %02d15/%02d17 20010KT FM{a}{h}30 00000KT" % (first, first),
                     dict(a=D2, h=r"[01]\d|2[0-3]"),
                     {(I % 0) + "valid.period_until.time": lambda f=f, first=first: f(first, 14),
                      (I % 1) + "valid.period_from.time": lambda f=f, first=first: f(first, 15),
                      (I % 1) + "valid.period_until.time": lambda f=f, first=first: f(first, 17),
                      (I % 2) + "valid.period_from.time": lambda a, h, f=f: f(a, h) + H1 / 2,
                      (I % 2) + "valid.period_until.time": lambda end=end: end}, kw)
            ctx.case("TEMPO FM TEMPO%s %d" % (tag, issue), "Taf", head + T + "FM{a}{h}30 00000KT TEMPO {a}20/{a}22 RA",
                     dict(a=D2, h=r"0\d"),
                     {(I % 0) + "valid.period_until.time": lambda f=f, first=first: f(first, 16),
                      (I % 1) + "valid.period_from.time": lambda a, h, f=f: f(a, h) + H1 / 2,
                      (I % 1) + "valid.period_until.time": lambda end=end: end,
                      (I % 2) + "valid.period_from.time": lambda a, f=f: f(a, 20)}, kw)
