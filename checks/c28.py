"""Stations and countries."""
import re

from aai import conts, decode, harness
from aai.values import Undecided
from core import Finding
from .iso import ISO

METHOD = ("Abstract interpretation of report construction and of the station accessors over the package's whole table, the station group "
          "symbolic; plus a structural check of every row of the table found in the analysed heap.")
RULE = ("every station group with a given two character prefix, known or unknown, against the row of that code; every row's columns well formed, "
        "codes unique, countries of ISO 3166-1")
NOTE = ("Quick decides the groups of every fourth prefix, thorough of all 936 prefixes, each for every accessor. Trusts the analyser and the ISO 3166-1 "
        "table in checks/iso.py. Whether a row describes its real airport is not decided.")
ASSUMES = ["the table's own rows are the truth about stations", "rows without ICAO code ('None') are never the station of a report"]
COLS = ["name", "icao", "iata", "synop", "latitude", "longitude", "elevation"]
SHAPE = [r".+", r"[A-Z][A-Z0-9]{3}|None", r"[A-Z0-9]{3}|None", r"\d{5}|None", r"\d\d\.[0-5]\d[NS]", r"\d\d\d?\.[0-5]\d[EW]", r"-?\d{1,4}", r"[A-Z]{2}"]
_exact = {}


def exact(ctx):
    """An interpreter that keeps the rows of the tables one by one."""
    if "D" not in _exact:
        keep = conts.summarise_tables
        conts.summarise_tables = lambda I, limit=400: None
        try:
            from core import REPO
            _exact["D"] = decode.Decoder(harness.load(REPO))
        finally:
            conts.summarise_tables = keep
    return _exact["D"]


def tables(I):
    out = [t["rows"] for t in I.tables.values() if t["rows"] and len(t["rows"][0]) == 8 and len(t["rows"]) > 1000
           and type(t["rows"][0]) is tuple]
    if len(out) != 1:
        raise Undecided("no table of stations found in the package")
    return out[0]


def integrity(ctx):
    rows = tables(ctx.I)
    found = []
    seen = {}
    for r in rows:
        for k, (v, p) in enumerate(zip(r, SHAPE)):
            if not re.fullmatch(p, v):
                found.append(Finding("malformed column %d of the stations" % k, r[1] + " " + r[0], "%r in %r" % (v, r)))
        if float(re.sub("[^0-9.]", "", r[4]) or 0) > 90 or float(re.sub("[^0-9.]", "", r[5]).lstrip(".") or 0) > 180:
            found.append(Finding("impossible coordinates", r[1], repr(r)))
        if r[1] != "None" and seen.setdefault(r[1], r) != r:
            found.append(Finding("repeated code", r[1], "%r and %r" % (seen[r[1]], r)))
        if r[7] not in ISO:
            found.append(Finding("country code not in ISO 3166-1", r[1] + " " + r[7], repr(r)))
    return found, {"rows": len(rows)}


def lookup(ctx, cls, text, field, rows):
    D = exact(ctx)
    for k in D.stats:
        D.stats[k] = 0
    D.I.calls_seen = set()
    found = []
    paths = D.construct(cls, text, dict(s=field), year=2021, month=3)
    for p in paths:
        if p.kind != "ok" and D.witness(p.S) is not None:
            found.append(Finding("construction fails with %s" % p.val.cls, p.val.site, text))
    paths = [p for p in paths if p.kind == "ok"]
    names = ["r.station." + c for c in COLS] + ["r.station.country", "r.station.code"]

    def spec(s):
        row = rows.get(s)
        if row is None:
            return (None,) * 8 + (s,)
        # the country of these rows is reported by the check of the rows
        return tuple(row[:7]) + (ISO.get(row[7]), s)
    e = "(%s)" % ", ".join(names)
    for f in D.check(paths, e, spec)[:2]:
        bad = [n for n, a, b in zip(names, f.got, f.exp) if a != b] if isinstance(f.got, tuple) else []
        site = f.got.site if isinstance(f.got, decode.Exc) else ", ".join(bad) or "r.station"
        found.append(Finding("station of %s" % text, site, "%s(%r) with %s: %r, specified %r" % (cls, text, f.words, f.got, f.exp), f.calls))
    if text.find("METAR"):
        def said(s):
            row = rows.get(s)
            return decode.SKIP if row is None else "Name: %s | Coordinates: %s %s | Elevation: %s m MSL | Country: %s" % (
                row[0], row[4], row[5], row[6], ISO.get(row[7]))
        for f in D.check(paths, "str(r.station)", said)[:2]:
            found.append(Finding("description of the station of %s" % text, "str(r.station)", "%s(%r) with %s: %r, specified %r" % (
                cls, text, f.words, f.got, f.exp), f.calls))
    ctx.D.stats.update({k: ctx.D.stats.get(k, 0) + v for k, v in D.stats.items()})
    ctx.I.calls_seen |= D.I.calls_seen
    return found, {}


def build(ctx):
    rows = {r[1]: r for r in tables(ctx.I) if r[1] != "None"}
    allr = tables(ctx.I)
    ctx.job("rows", integrity)
    AZ = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    pre = [a + b for a in AZ for b in AZ + "0123456789"]
    ends = {r[1][:2] for r in (allr[0], allr[-1], allr[1], allr[-2], allr[len(allr) // 2])}
    n = 0
    for k, p in enumerate(pre):
        if ctx.thorough or k % 4 == 1 or p in ends:
            n += 1
            ctx.job("METAR " + p, lambda c, p=p: lookup(c, "Metar", "METAR {s} 100000Z", p + "[A-Z0-9]{2}", rows))
    for p in ("SPQ", "LEZ", "MRO", "PAD", "NCR", "XXX", "K00", "ZZZ"):
        ctx.job("TAF " + p, lambda c, p=p: lookup(c, "Taf", "TAF {s} 100000Z 1000/1024", p + "[A-Z0-9]", rows))
        ctx.job("SPECI " + p, lambda c, p=p: lookup(c, "Metar", "SPECI {s} 100000Z AUTO", p + "[A-Z0-9]", rows))
        ctx.job("no type " + p, lambda c, p=p: lookup(c, "Taf", "TAF AMD {s} 100000Z NIL", p + "[A-Z0-9]", rows))
    ctx.notes["prefixes"] = n
