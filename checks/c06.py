"""Truncation."""
from . import ref
from .spec import *
from .c05 import family, KW
from aai.decode import SKIP, Exc, _cn
import core

METHOD = ("Abstract interpretation of report construction with truncation enabled, over reports with symbolic words at every place; each way out of "
          "the constructor (a report or an exception) is compared with what a reference grammar leaves of the text, for every value of the words.")
RULE = ("the constructor with truncation raises ParserError exactly for the texts that leave groups, and otherwise decodes the same groups: unknown "
        "words at every place of a report, in trends, in changes and beyond their number, in remarks, and near misses of each kind of group")
ASSUMES = ["irregular forms of groups (checks/ref.py) are not specified"]


def add(ctx, name, cls, template, fields, spec, same=(), kw=KW):
    """spec(fields...) -> the groups left."""
    def run(ctx):
        D = ctx.D
        paths = D.construct(cls, template, fields, truncate=True, **kw)
        found, ok = [], []
        import inspect
        params = [k for k, q in inspect.signature(spec).parameters.items() if q.default is q.empty]
        ns = dict(spec=spec, SKIP=SKIP)
        outcome = eval("lambda %s: (lambda v: SKIP if v is SKIP else 'raises ParserError' if v else 'a report')(spec(%s))"
                       % (", ".join(params), ", ".join(params)), ns)
        for p in paths:
            got = "a report" if p.kind == "ok" else "raises " + _cn(p.val.cls)
            f = D.judge(p.S, got, outcome, params, 1e-7)
            D.stats["cells"] += 1
            if f is not None:
                w = D.word(p.S, p.S.doms)
                w.update(f.words)
                text = template
                for k, v in w.items():
                    text = text.replace("{%s}" % (k,), v)
                site = p.val.site if p.kind != "ok" else "%s.__init__" % cls
                found.append(core.Finding("%s: truncation" % name, site, "%s(%r, truncate=True) gives %s, specified %s"
                                          % (cls, text, got, f.exp)))
            if p.kind == "ok":
                ok.append(p)
        for e0, sp in same:
            for f in D.check(ok, e0, sp)[:1]:
                e, f.got, f.exp = core.part(e0, f.got, f.exp)
                text = template
                for k, v in f.words.items():
                    text = text.replace("{%s}" % (k,), v)
                found.append(core.Finding("%s: %s" % (name, e), e, "%s(%r, truncate=True): %s is %r, specified %r" % (cls, text, e, f.got, f.exp), f.calls))
        return found[:3], {}
    ctx.job(name, run)


def section(ctx, name, sec, words, fields, kw=KW):
    order, cls, pre, head, _, root = sec
    text = " ".join(head + words)
    ex, sp = family(order, root, pre, head, text)
    import string
    names = list(dict.fromkeys(p[1] for p in string.Formatter().parse(text) if p[1]))
    left = eval("lambda %s: last(sp(%s))" % (", ".join(names), ", ".join(names)), dict(sp=sp, last=lambda v: v if v is SKIP else v[-1]))
    add(ctx, "%s of %s" % (name, order), cls, pre + text, fields, left, [(ex, sp)], kw)


def build(ctx):
    U = r"[QX][A-Z0-9/][A-Z]"
    for sec in ref.SECTIONS:
        order, full = sec[0], sec[4]
        n = len(full)
        for i in range(n + 1):
            section(ctx, "unknown word at %d" % i, sec, full[:i] + ["{u}"] + full[i:], dict(u=["", "XXX", "Q9Z", "=", "X=X", "1A1"]))
        step = 6
        for i in range(0, n, step):
            part = list(range(i, min(n, i + step)))
            f = {"abcdefgh"[k]: "|" + full[x] for k, x in enumerate(part)}
            f["u"] = "|XXX"
            section(ctx, "subsets of groups %d to %d" % (i, i + len(part) - 1), sec,
                    full[:i] + ["{%s}" % "abcdefgh"[k] for k in range(len(part))] + ["{u}"] + full[i + step:], f)
        toks = full if order != "TAF" else ["NIL", "CNL"] + full
        alt = "|".join(t.replace("+", r"\+") for t in toks)
        for t in toks:
            section(ctx, "sequences starting with %s" % t, sec, [t, "{a}", "{b}"], dict(a=alt, b=alt))
        for k, few in (("RA", ["RA", "FG", "-SN", "HZ", "TS"]), ("sky", ["FEW010", "SCT020", "BKN030", "OVC040", "VV001", "FEW050"])):
            for m in range(1, len(few) + 1):
                section(ctx, "%d groups like %s" % (m, k), sec, few[:m] + ["{u}"], dict(u="|XXX"))
        from .c07 import TOKENS, place, ANY
        for tok in TOKENS[order]:
            before, after = place(order, tok)
            if order == "TAF" and before[:2] != ["ZZZZ", "100000Z"]:
                before = ["ZZZZ", "100000Z"] if tok not in ("AMD", "COR") else []
            section(ctx, "near misses after %s" % tok, sec, before + [tok + "{x}"] + after[:3], dict(x=ANY))
            section(ctx, "near misses before %s" % tok, sec, before + ["{x}" + tok] + after[:3], dict(x=ANY))
    kw = dict(KW)
    # the whole text counts, not only the body
    nz = lambda *ws: [w for w in ws if w]
    ctx_words = dict(u="|XXX", v="|QQ7")
    add(ctx, "body and trends", "Metar", "METAR ZZZZ 100000Z 18005KT 9999 {u} TEMPO RA BECMG FG {v}", ctx_words, lambda u, v: nz(u, v))
    add(ctx, "first trend and remark", "Metar", "METAR ZZZZ 100000Z 18005KT 9999 TEMPO RA {u} BECMG FG RMK {v} ZZZ", ctx_words, lambda u, v: nz(u))
    add(ctx, "after NOSIG", "Metar", "METAR ZZZZ 100000Z 18005KT 9999 NOSIG {u}", dict(u="|XXX"), lambda u: nz(u))
    add(ctx, "TAF body and changes", "Taf", "TAF ZZZZ 100000Z 1000/1106 18005KT 9999 {u} TEMPO 1000/1002 RA {v} FM100600 FG", ctx_words, lambda u, v: nz(u, v))
    add(ctx, "last TAF change", "Taf", "TAF ZZZZ 100000Z 1000/1106 18005KT 9999 TEMPO 1000/1002 RA FM100600 FG {u} PROB30 1008/1010 RA {v}", ctx_words, lambda u, v: nz(u, v))
    for m in range(7, 11):
        ch = " ".join("TEMPO 10%02d/10%02d 4000" % (x, x + 1) for x in range(m))
        add(ctx, "%d changes" % m, "Taf", "TAF ZZZZ 100000Z 1000/1106 18005KT 9999 {u} " + ch, dict(u="|XXX"), lambda u, m=m: nz(u) + ["TEMPO"] * (m > 8))
    for t in ("METAR ZZZZ 3{d}0000Z 18005KT 9999", "METAR ZZZZ {d}0000Z 18005KT 9999"):
        for y, mo, last in ((2021, 2, 28), (2020, 2, 29), (2021, 4, 30), (2021, 12, 31)):
            add(ctx, "day of the month %d-%02d %s" % (y, mo, t), "Metar", t, dict(d=r"\d" if "3{" in t else r"\d\d"),
                lambda d, last=last, t=t: nz("" if 1 <= int(("3" if "3{" in t else "") + d) <= last else "Z"), (), dict(year=y, month=mo))
