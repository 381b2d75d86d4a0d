"""Calendar values."""
import datetime as _dt

from .values import *
from .state import *
from .nums import *
from .strs import *

ANY = ("any",)


def t_int(lo, hi):
    return TNum(lo, hi, True, fresh_id())


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(I, y, m):
    """Number of days of month (y, m); splits when it is not determined."""
    y, m = simp(I.S, y), simp(I.S, m)
    if type(m) is int:
        if m != 2:
            return 30 if m in (4, 6, 9, 11) else 31
        if type(y) is int:
            return 29 if is_leap(y) else 28
    key = ("mlen", y, m)
    opts = (28, 29) if m == 2 else (31, 30, 28, 29)
    p = I.S.picks.get(key)
    if p is None:
        p = I.choose(len(opts))
        I.S.picks[key] = p
    return opts[p]


def next_month(I, y, m, d=1):
    if type(m) is int:
        return (y, m + 1) if m < 12 else (n_add(y, 1), 1)
    key = ("dec", y, m)
    p = I.S.picks.get(key)
    if p is None:
        p = I.choose(2)
        I.S.picks[key] = p
    return (y, n_add(m, 1)) if p == 0 else (n_add(y, 1), 1)


def prev_month(I, y, m):
    if type(m) is int:
        return (y, m - 1) if m > 1 else (n_sub(y, 1), 12)
    key = ("jan", y, m)
    p = I.S.picks.get(key)
    if p is None:
        p = I.choose(2)
        I.S.picks[key] = p
    return (y, n_sub(m, 1)) if p == 0 else (n_sub(y, 1), 12)


def mk_date(I, y, m, d, validate=True):
    """A date from numbers; ValueError outside the calendar."""
    S = I.S
    y, m, d = [simp(S, x) for x in (y, m, d)]
    for x in (y, m, d):
        if not (is_num(x)):
            I.throw(TypeError, "an integer is required")
        if type(x) is float:
            I.throw(TypeError, "integer argument expected, got float")
    if all(type(x) is int for x in (y, m, d)):
        try:
            _dt.date(y, m, d)
        except (ValueError, OverflowError) as e:
            I.throw(type(e), str(e))
        return ADate(("date", y, m, d), 0)
    if validate:
        for x, lo, hi, nm in ((y, 1, 9999, "year"), (m, 1, 12, "month")):
            if num_compare(I, "Lt", x, lo) or num_compare(I, "Gt", x, hi):
                I.throw(ValueError, "%s is out of range" % nm)
        if num_compare(I, "Lt", d, 1) or num_compare(I, "Gt", d, 31):
            I.throw(ValueError, "day is out of range for month")
        lo, hi = num_iv(I, d)
        if hi > 28:
            if any(type(x) in (TNum, LenV) for x in (y, m, d)):
                if I.choose(2):
                    I.throw(ValueError, "day is out of range for month")
            else:
                if num_compare(I, "Gt", d, 28):
                    ml = month_len(I, y, m)
                    if num_compare(I, "Gt", d, ml):
                        I.throw(ValueError, "day is out of range for month")
    if any(type(x) in (TNum, LenV) for x in (y, m, d)):
        return ADate(ANY, 0)
    y, m, d = [simp(S, x) for x in (y, m, d)]
    return ADate(("date", y, m, d), 0)


def mk_dt(I, y, m, d, h=0, mi=0, s=0):
    date = mk_date(I, y, m, d)
    for x, hi, nm in ((h, 23, "hour"), (mi, 59, "minute"), (s, 59, "second")):
        if not is_num(x) or type(x) is float:
            I.throw(TypeError, "an integer is required")
        if num_compare(I, "Lt", x, 0) or num_compare(I, "Gt", x, hi):
            I.throw(ValueError, "%s must be in 0..%d" % (nm, hi))
    return DT(date, simp(I.S, h), simp(I.S, mi), simp(I.S, s))


def civil(I, ad):
    """(year, month, day) of an abstract date."""
    base, off = ad.base, simp(I.S, ad.off)
    if base == ANY or base[0] != "date" or type(off) is not int:
        lo, hi = num_iv(I, off) if is_num(off) else (0, 0)
        return t_int(1, 9999), t_int(1, 12), t_int(1, 31)
    _, y, m, d = base
    y, m, d = [simp(I.S, x) for x in (y, m, d)]
    if all(type(x) is int for x in (y, m, d)):
        try:
            r = _dt.date(y, m, d) + _dt.timedelta(days=off)
        except OverflowError:
            I.throw(OverflowError, "date value out of range")
        return r.year, r.month, r.day
    t = n_add(d, off)
    n = 0
    if off > 0:
        while True:
            if num_compare(I, "LtE", t, 28):
                break
            ml = month_len(I, y, m)
            if num_compare(I, "LtE", t, ml):
                break
            t = n_sub(t, ml)
            y, m = next_month(I, y, m)
            n += 1
            if n > 24:
                raise Undecided("date far from its base")
    elif off < 0:
        while num_compare(I, "Lt", t, 1):
            y, m = prev_month(I, y, m)
            t = n_add(t, month_len(I, y, m))
            n += 1
            if n > 24:
                raise Undecided("date far from its base")
    return y, m, simp(I.S, t)


def date_diff(I, a, b):
    """Days from b to a."""
    if a.base == b.base and a.base != ANY:
        return num_binop(I, "Sub", a.off, b.off)
    if a.base[0] == "date" and b.base[0] == "date":
        _, y1, m1, d1 = a.base
        _, y2, m2, d2 = b.base
        y1, m1, d1, y2, m2, d2 = [simp(I.S, x) for x in (y1, m1, d1, y2, m2, d2)]
        dd = num_binop(I, "Sub", num_binop(I, "Add", d1, a.off), num_binop(I, "Add", d2, b.off))
        if (y1, m1) == (y2, m2):
            return dd
        if all(type(x) is int for x in (y1, m1, y2, m2)):
            k = _dt.date(y1, m1, 1).toordinal() - _dt.date(y2, m2, 1).toordinal()
            return num_binop(I, "Add", dd, k)
    return t_int(-INF, INF)


def minutes_of(I, t):
    return num_binop(I, "Add", num_binop(I, "Mult", t.hour, 60), t.minute)


def dt_diff(I, a, b):
    """a - b in minutes."""
    dd = date_diff(I, a.date, b.date)
    r = num_binop(I, "Add", num_binop(I, "Mult", dd, 1440),
                  num_binop(I, "Sub", minutes_of(I, a), minutes_of(I, b)))
    ds = num_binop(I, "Sub", a.second, b.second)
    if ds != 0:
        r = num_binop(I, "Add", r, num_binop(I, "Div", ds, 60))
    return r


def dt_compare(I, op, a, b):
    return num_compare(I, op, dt_diff(I, a, b), 0)


def date_compare(I, op, a, b):
    return num_compare(I, op, date_diff(I, a, b), 0)


def dt_add(I, t, minutes):
    """t + minutes, with the carry into days made explicit."""
    S = I.S
    minutes = simp(S, minutes)
    if type(minutes) in (TNum, LenV):
        lo, hi = num_iv(I, minutes)
        off = t.date.off
        return DT(ADate(t.date.base if t.date.base == ANY else ANY, 0), t_int(0, 23), t_int(0, 59),
                  t.second)
    isint = v_isint(minutes)
    if not isint:
        if type(minutes) is float and minutes == int(minutes):
            minutes = int(minutes)
        elif type(minutes) is Num:
            minutes = num_int(I, minutes)
    if type(minutes) is float:
        sec = round(minutes * 60)
        return DT(ADate(ANY, 0), t_int(0, 23), t_int(0, 59), t_int(0, 59))
    if type(t.hour) in (TNum, LenV) or type(t.minute) in (TNum, LenV):
        days = None
        if type(minutes) is int and minutes % 1440 == 0:
            days = minutes // 1440
            return DT(ADate(t.date.base, num_binop(I, "Add", t.date.off, days)), t.hour, t.minute, t.second)
        base = t.date.base
        if type(minutes) is int and base != ANY:
            d0, d1 = minutes // 1440, -(-minutes // 1440)
            off = num_binop(I, "Add", t.date.off, t_int(d0, d1))
            return DT(ADate(base, off), t_int(0, 23), t_int(0, 59), t.second)
        return DT(ADate(ANY, 0), t_int(0, 23), t_int(0, 59), t.second)
    # whole days, whole hours, minutes
    if type(minutes) is int:
        days, rest = divmod(minutes, 1440)
        hh, mm = divmod(rest, 60)
    else:
        days, hh, mm = split_minutes(I, minutes)
    mi = num_binop(I, "Add", t.minute, mm)
    h = num_binop(I, "Add", t.hour, hh)
    if mm != 0:
        while num_compare(I, "GtE", mi, 60):
            mi = simp(S, n_sub(mi, 60))
            h = n_add(h, 1)
        while num_compare(I, "Lt", mi, 0):
            mi = simp(S, n_add(mi, 60))
            h = n_sub(h, 1)
    off = num_binop(I, "Add", t.date.off, days)
    if hh != 0 or mm != 0:
        n = 0
        while num_compare(I, "GtE", h, 24):
            h = simp(S, n_sub(h, 24))
            off = n_add(off, 1)
            n += 1
            if n > 100:
                raise Undecided("long duration")
        n = 0
        while num_compare(I, "Lt", h, 0):
            h = simp(S, n_add(h, 24))
            off = n_sub(off, 1)
            n += 1
            if n > 100:
                raise Undecided("long duration")
    return DT(ADate(t.date.base, simp(S, off)), simp(S, h), simp(S, mi), t.second)


def split_minutes(I, v):
    """v = 1440*days + 60*hours + minutes by coefficients."""
    d, h, m = {}, {}, {}
    for mono, c in v.terms:
        if c != int(c):
            return 0, 0, v
        c = int(c)
        if c % 1440 == 0:
            d[mono] = c // 1440
        elif c % 60 == 0:
            h[mono] = c // 60
        else:
            m[mono] = c
    return num_from(d, True), num_from(h, True), num_from(m, True)


def td_make(I, args, kw):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    vals = dict(zip(names, args))
    vals.update(kw)
    unit = {"days": 1440, "minutes": 1, "hours": 60, "weeks": 10080}
    tot = 0
    for k, v in vals.items():
        v = I.force(v)
        if k not in names:
            I.throw(TypeError, "unexpected keyword %r" % k)
        if not is_num(v) and type(v) is not bool:
            I.throw(TypeError, "unsupported type for timedelta %s component" % k)
        if k in unit:
            tot = num_binop(I, "Add", tot, num_binop(I, "Mult", v, unit[k]))
        elif k == "seconds":
            v = simp(I.S, v)
            if type(v) is int and v % 60 == 0:
                tot = num_binop(I, "Add", tot, v // 60)
            else:
                tot = num_binop(I, "Add", tot, num_binop(I, "Div", v, 60))
        elif v != 0:
            tot = num_binop(I, "Add", tot, num_binop(I, "Div", v, 60000 if k == "milliseconds" else 6e7))
    return TD(tot)


def dt_replace(I, t, args, kw):
    y, m, d = None, None, None
    names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
    vals = dict(zip(names, args))
    vals.update(kw)
    for k in vals:
        if k not in names and k != "fold":
            I.throw(TypeError, "unexpected keyword %r" % k)
    vals = {k: I.force(v) for k, v in vals.items()}
    for k, v in vals.items():
        if k in names[:6] and not is_num(v):
            I.throw(TypeError, "an integer is required (got type %s)" % type_name(I, v))
    if any(k in vals for k in ("year", "month", "day")):
        cy, cm, cd = civil(I, t.date)
        date = mk_date(I, vals.get("year", cy), vals.get("month", cm), vals.get("day", cd))
    else:
        date = t.date
    h, mi, s = vals.get("hour", t.hour), vals.get("minute", t.minute), vals.get("second", t.second)
    for nm, x, hi in (("hour", h, 23), ("minute", mi, 59), ("second", s, 59)):
        if nm in vals:
            if num_compare(I, "Lt", x, 0) or num_compare(I, "Gt", x, hi):
                I.throw(ValueError, "%s must be in 0..%d" % (nm, hi))
    return DT(date, simp(I.S, h), simp(I.S, mi), simp(I.S, s))


def now(I, what):
    I.event("clock", what)
    S = I.S
    for a, r in ((("clockyear",), (1000, 9998)), (("clockmonth",), (1, 12)), (("clockday",), (1, 31)),
                 (("clockhour",), (0, 23)), (("clockminute",), (0, 59)), (("clocksecond",), (0, 59))):
        S.atoms[a] = r
    base = ("date", atom(("clockyear",)), atom(("clockmonth",)), atom(("clockday",)))
    return DT(ADate(base, 0), atom(("clockhour",)), atom(("clockminute",)), atom(("clocksecond",)))


WIDTH = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "y": 2, "j": 3}


def strptime(I, v, fmt):
    v, fmt = I.force(v), I.force(fmt)
    if not is_str(v) or not is_str(fmt):
        I.throw(TypeError, "strptime() argument must be str")
    v, fmt = sn(I, v), sn(I, fmt)
    if type(fmt) is not str:
        raise Undecided("computed format")

    def bad():
        I.throw(ValueError, "time data does not match format %r" % fmt)
    if type(v) is str:
        try:
            r = _dt.datetime.strptime(v, fmt)
        except ValueError as e:
            I.throw(ValueError, str(e))
        return DT(ADate(("date", r.year, r.month, r.day), 0), r.hour, r.minute, r.second)
    if type(v) is TStr:
        if I.choose(2):
            bad()
        return DT(ADate(ANY, 0), t_int(0, 23), t_int(0, 59), t_int(0, 59))
    cs = cells(I, v)
    vals = {"Y": 1900, "m": 1, "d": 1, "H": 0, "M": 0, "S": 0}
    i = j = 0
    while j < len(fmt):
        if fmt[j] != "%":
            if i >= len(cs) or not test_cell(I, cs[i], cmask(fmt[j])):
                bad()
            i += 1
            j += 1
            continue
        k = fmt[j + 1]
        j += 2
        if k not in WIDTH:
            raise Undecided("strptime %%%s" % k)
        w = WIDTH[k]
        if i >= len(cs):
            bad()
        c = cs[i]
        if type(c) is FN:
            lo, hi = num_iv(I, c.num)
            l, h = fn_len(I, c)
            if k == "Y" and (lo < 1000 or hi > 9999) or k != "Y" and not (l == h == w):
                if type(c.num) is TNum or I.mode == "join":
                    return loose(I, bad)
                if k == "Y" or l != h:
                    raise Undecided("strptime field width")
            vals[k] = c.num
            i += 1
            continue
        if any(type(x) in (SV, BL, FN) for x in cs[i:i + w]) or len(cs) < i + w:
            if any(type(x) in (SV, BL, FN) for x in cs):
                return loose(I, bad)
            # shorter text: fields may be one digit; only decided on constants
            if len(cs) < i + 1:
                bad()
            raise Undecided("strptime of short text")
        fld = cs[i:i + w]
        for x in fld:
            if not test_cell(I, x, DIGITS):
                bad()
        vals[k] = parse_num(I, mk_str(fld), True)
        i += w
    if i != len(cs):
        bad()
    if "y" in vals:
        raise Undecided("strptime %y")
    for k, lo, hi in (("m", 1, 12), ("d", 1, 31), ("H", 0, 23), ("M", 0, 59), ("S", 0, 61), ("Y", 1, 9999)):
        x = vals[k]
        if num_compare(I, "Lt", x, lo) or num_compare(I, "Gt", x, hi):
            bad()
    return mk_dt(I, vals["Y"], vals["m"], vals["d"], vals["H"], vals["M"], vals["S"])


def loose(I, bad):
    if I.choose(2):
        bad()
    return DT(ADate(ANY, 0), t_int(0, 23), t_int(0, 59), t_int(0, 59))


def dt_attr(I, t, name):
    if name in ("year", "month", "day"):
        y, m, d = civil(I, t.date)
        return {"year": y, "month": m, "day": d}[name]
    if name == "hour":
        return simp(I.S, t.hour)
    if name == "minute":
        return simp(I.S, t.minute)
    if name == "second":
        return simp(I.S, t.second)
    if name == "microsecond":
        return 0
    if name == "tzinfo":
        return None
    return UNB


def dt_method(I, t, name, args, kw):
    if name == "replace":
        return dt_replace(I, t, args, kw)
    if name == "strftime":
        f = I.force(args[0])
        if not is_str(f):
            I.throw(TypeError, "strftime() argument 1 must be str")
        return TStr(fresh_id()) if I.mode == "join" else strftime(I, t, sn(I, f))
    if name in ("isoformat", "ctime", "__str__"):
        return TStr(fresh_id()) if I.mode == "join" else AStr((SV(It("strftime", (t, name))),))
    if name == "date":
        return t.date
    if name in ("time", "timetz", "utctimetuple", "timetuple"):
        return Opaque("time")
    if name == "timestamp":
        return TNum(-INF, INF, False, fresh_id())
    if name in ("weekday", "isoweekday"):
        return t_int(0, 7)
    if name == "toordinal":
        return t_int(1, 3652059)
    if name == "astimezone":
        return t
    return UNB


def strftime(I, t, fmt):
    if type(fmt) is not str:
        return TStr(fresh_id())
    parts = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            k = fmt[i + 1]
            i += 2
            nm = {"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}.get(k)
            if k == "%":
                parts.append("%")
            elif nm is None:
                return AStr((SV(It("strftime", (t, fmt))),))
            else:
                parts.append(py_format(I, dt_attr(I, t, nm), "04d" if k == "Y" else "02d"))
        else:
            parts.append(fmt[i])
            i += 1
    return concat(I, parts)
