"""Transfer functions of the re module."""
import re as _re

from .values import *
from .state import *
from .nums import *
from .strs import *
from .conts import *
from . import rx


class Subj:
    """Cells as a matching subject; may=True answers without splitting."""

    def __init__(self, I, cs, may=False):
        self.I, self.cs, self.n, self.may = I, cs, len(cs), may

    def test(self, i, mask):
        c = self.cs[i]
        if type(c) is FN:
            m = FNMASK
        else:
            m = cell_mask(self.I, c)
        if self.may:
            return bool(m & mask)
        if not m & mask:
            return False
        if not m & ~mask:
            return True
        if type(c) is not SC:
            raise Undecided("match on %r" % (c,))
        return test_cell(self.I, c, mask)


def has_neg(node):
    if node[0] == "look":
        return True
    if node[0] == "at" and node[1] in ("b", "nb"):
        return True
    for x in node[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and has_neg(x):
            return True
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str) and has_neg(y):
                    return True
    return False


def may_match(I, R, cs, pos, full=False):
    if not hasattr(R, "neg"):
        R.neg = has_neg(R.node)
    if R.neg:
        return True
    return R.match_at(Subj(I, cs, True), pos, full) is not None


# ---------------------------------------------------------------- anchored words
def box_inter(e1, e2):
    out = []
    for a, b in zip(e1, e2):
        m = a & b
        if not m:
            return None
        out.append(m)
    return tuple(out)


def fixed_words(R):
    """The words of a pattern anchored at both ends as fixed-length boxes."""
    if hasattr(R, "_fw"):
        return R._fw
    R._fw = None
    ws = R.words()
    if ws and all(z and all(type(e) is int for e in el) for el, sp, a, z in ws):
        R._fw = [(el, tuple(sorted(sp.items()))) for el, sp, a, z in ws]
    return R._fw


def box_minus(b, w):
    """Fixed boxes covering b without box w (same length)."""
    out = []
    pre = ()
    for i, (x, y) in enumerate(zip(b, w)):
        m = x & ~y
        if m:
            out.append(pre + (m,) + b[i + 1:])
        if not x & y:
            return [b]
        pre += (x & y,)
    return out


def match_words(I, R, v, cs):
    """Match fixed words against cells.  Returns (handled, result)."""
    fw = fixed_words(R)
    if fw is None:
        return False, None
    n = len(cs)
    if any(type(c) not in (str, SC) for c in cs):
        return False, None
    masks = tuple(cell_mask(I, c) for c in cs)
    cand = []
    for el, sp in fw:
        if len(el) != n:
            continue
        b = box_inter(el, masks)
        if b is not None:
            cand.append((el, sp))
    if not cand:
        return True, None
    S = I.S
    syms = {c.sym for c in cs if type(c) is SC}
    if not syms:
        return True, cand[0][1]
    if len(syms) > 1:
        return match_multi(I, cs, masks, cand, syms)
    sym = next(iter(syms))
    # partition the symbol's boxes by the first word that accepts them
    classes = {}
    order = []
    rest = list(S.doms[sym])
    at = [(i, c.i) for i, c in enumerate(cs) if type(c) is SC]
    for el, sp in cand:
        if any(type(c) is str and not cmask(c) & el[i] for i, c in enumerate(cs)):
            continue
        new = []
        for b in rest:
            if any(k >= len(b) or type(b[k]) is not int for _, k in at):
                new.append(b)
                continue
            nb = list(b)
            ok = True
            for i, k in at:
                nb[k] &= el[i]
                if not nb[k]:
                    ok = False
                    break
            if not ok:
                new.append(b)
                continue
            if sp not in classes:
                classes[sp] = []
                order.append(sp)
            classes[sp].append(tuple(nb))
            pre = list(b)
            for i, k in at:
                m = pre[k] & ~el[i]
                if m:
                    z = list(pre)
                    z[k] = m
                    new.append(tuple(z))
                pre[k] &= el[i]
                if not pre[k]:
                    break
        rest = new
        if not rest:
            break
    opts = [(sp, classes[sp]) for sp in order]
    if rest:
        opts.append((None, rest))
    i = I.choose(len(opts))
    sp, boxes = opts[i]
    S.doms[sym] = tuple(dict.fromkeys(boxes))
    return True, sp


def match_multi(I, cs, masks, cand, syms):
    """Several symbols: split the product space by whole candidate words."""
    S = I.S
    merged = {}
    # merge words with the same spans that differ in one position only
    pieces = [masks]
    opts = []
    for el, sp in cand:
        new = []
        for p in pieces:
            x = box_inter(p, el)
            if x is None:
                new.append(p)
                continue
            opts.append((sp, x))
            new += box_minus(p, el)
        pieces = new
        if not pieces:
            break
    by = {}
    for sp, x in opts:
        by.setdefault(sp, []).append(x)
    opts = []
    for sp, xs in by.items():
        xs = merge_boxes(xs)
        opts += [(sp, x) for x in xs]
    opts += [(None, p) for p in merge_boxes(pieces)]
    # drop options impossible for the symbols' own domains
    good = []
    for sp, x in opts:
        if feasible(S, cs, x, syms):
            good.append((sp, x))
    i = I.choose(len(good))
    sp, x = good[i]
    for s in syms:
        out = []
        for b in S.doms[s]:
            nb = list(b)
            ok = True
            for c, m in zip(cs, x):
                if type(c) is SC and c.sym == s:
                    if c.i >= len(nb):
                        ok = False
                        break
                    nb[c.i] &= m
                    if not nb[c.i]:
                        ok = False
                        break
            if ok:
                out.append(tuple(nb))
        if not out:
            raise I.Infeasible()
        S.doms[s] = tuple(dict.fromkeys(out))
    return True, sp


def feasible(S, cs, x, syms):
    for s in syms:
        ok = False
        for b in S.doms[s]:
            if all(type(c) is not SC or c.sym != s or (c.i < len(b) and b[c.i] & m)
                   for c, m in zip(cs, x)):
                ok = True
                break
        if not ok:
            return False
    return True


def merge_boxes(xs):
    xs = list(dict.fromkeys(xs))
    changed = True
    while changed:
        changed = False
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                d = [k for k in range(len(xs[i])) if xs[i][k] != xs[j][k]]
                if len(d) == 1:
                    k = d[0]
                    m = xs[i][:k] + (xs[i][k] | xs[j][k],) + xs[i][k + 1:]
                    xs[i] = m
                    del xs[j]
                    changed = True
                    break
            if changed:
                break
    return xs


# ---------------------------------------------------------------- matching
def need_str(I, v, what="expected string or bytes-like object"):
    v = I.force(v)
    if not is_str(v):
        I.throw(TypeError, "%s, got %s" % (what, type_name(I, v)))
    return sn(I, v)


def compile_pat(I, p, flags=0):
    p = I.force(p)
    if type(p) is Pat:
        return p
    flags = I.rv(flags)
    if not is_str(p):
        I.throw(TypeError, "first argument must be string or compiled pattern")
    p = sn(I, p)
    if type(p) is not str:
        raise Undecided("computed pattern at %s" % I.where())
    try:
        rx.get(p, int(flags))
    except _re.error as e:
        I.throw(I.lib.RE_ERROR, str(e))
    return Pat(p, int(flags))


def mk_match(I, pat, subj, spans, end, start, mode):
    sp = tuple(spans) + ((0, (start, end)),)
    return Ref(I.alloc("match", None, MatchD(pat, subj, sp, end, None, None, mode), mtag(pat)))


def do_match(I, pat, v, mode, pos=0):
    R = rx.get(pat.pattern, pat.flags)
    v = need_str(I, v)
    if type(v) is TStr:
        kn = I.S.picks.get(("is", v.tag)) if v.tag != "" else None
        if kn is None:
            return match_unknown(I, R, pat, v, mode)
        v = kn
    try:
        return match_cells(I, R, pat, v, mode, pos)
    except Undecided:
        if I.mode != "join":
            raise
        return match_unknown(I, R, pat, TStr(fresh_id()), mode)


def match_cells(I, R, pat, v, mode, pos=0):
    if type(v) is str:
        rxo = _re.compile(pat.pattern, pat.flags)
        m = getattr(rxo, mode)(v, pos)
        if m is None:
            return None
        sp = [(g, m.span(g)) for g in range(1, R.ngroups + 1) if m.span(g) != (-1, -1)]
        return mk_match(I, pat, v, sp, m.end(), m.start(), mode)
    if type(v) is WVal:
        # symbols none of whose shapes can match
        if not sym_may(I, R, v.sym, mode):
            return None
    cs = cells(I, v)
    sv = mk_str(cs)
    if mode == "fullmatch":
        if not may_match(I, R, cs, 0, True):
            return None
        r = R.match_at(Subj(I, cs), 0, True)
        return None if r is None else mk_match(I, pat, v, sorted(r[1].items()), r[0], 0, mode)
    if mode == "match" or (fixed_words(R) is not None and all(
            a for _, _, a, _ in R.words())):
        if not may_match(I, R, cs, pos):
            return None
        if pos == 0:
            ok, r = match_words(I, R, v, cs)
            if ok:
                return None if r is None else mk_match(I, pat, v, r, len(cs), 0, mode)
        r = R.match_at(Subj(I, cs), pos)
        return None if r is None else mk_match(I, pat, v, sorted(r[1].items()), r[0], pos, mode)
    for i in range(pos, len(cs) + 1):
        if not may_match(I, R, cs, i):
            continue
        r = R.match_at(Subj(I, cs), i)
        if r is not None:
            return mk_match(I, pat, v, sorted(r[1].items()), r[0], i, mode)
    return None


def sym_may(I, R, sym, mode):
    for b in I.S.doms[sym]:
        cs = []
        for i, e in enumerate(b):
            cs.append(BL("x", e[1], e[2]) if type(e) is tuple else _M(e))
        if any(type(c) is BL for c in cs):
            return True
        s = _MS(cs)
        if not hasattr(R, "neg"):
            R.neg = has_neg(R.node)
        if R.neg:
            return True
        for p in ([0] if mode != "search" else range(len(cs) + 1)):
            if R.match_at(s, p, mode == "fullmatch") is not None:
                return True
    return False


class _M:
    def __init__(self, m):
        self.m = m


class _MS:
    def __init__(self, cs):
        self.cs, self.n = cs, len(cs)

    def test(self, i, mask):
        return bool(self.cs[i].m & mask)


def match_unknown(I, R, pat, v, mode):
    """Match on unknown text: fails, or succeeds with one of the pattern's words."""
    ws = R.words()
    key = ("match", v.tag, pat.pattern, mode) if v.tag != "" else None
    if key is not None:
        for (k, neg) in I.S.picks.items():
            pass
    r = remember(I, key) if key is not None else I.choose(2) == 0
    if not r:
        return None
    if ws is None:
        return Ref(I.alloc("match", None, MatchD(pat, v, None, None, None, None, mode), mtag(pat)))
    return Ref(I.alloc("match", None,
                       MatchD(pat, v, None, None, tuple(range(len(ws))), None, mode), mtag(pat)))


# ---------------------------------------------------------------- match objects
def group_no(I, R, g):
    g = I.force(g)
    if type(g) is bool:
        g = int(g)
    if type(g) is int:
        if not 0 <= g <= R.ngroups:
            I.throw(IndexError, "no such group")
        return g
    if type(g) is str:
        if g not in R.groupindex:
            I.throw(IndexError, "no such group")
        return R.groupindex[g]
    if is_str(g):
        raise Undecided("computed group name")
    I.throw(IndexError, "no such group")


def span_of(sp, g):
    for k, s in sp:
        if k == g:
            return s
    return None


def mandatory(node, g):
    """Does every match of node set group g?"""
    t = node[0]
    if t == "seq":
        return any(mandatory(n, g) for n in node[1])
    if t == "alt":
        return all(mandatory(n, g) for n in node[1])
    if t == "grp":
        return node[1] == g or mandatory(node[2], g)
    if t == "rep":
        return node[2] > 0 and mandatory(node[1], g)
    return False


def group(I, ref, g, default=None):
    o = I.S.get(ref.oid)
    d = o.d
    R = rx.get(d.pat.pattern, d.pat.flags)
    g = group_no(I, R, g)
    if d.spans is not None:
        s = span_of(d.spans, g)
        if s is None:
            return default
        cs = cells(I, d.subj)
        if s == (0, len(cs)):
            return sn(I, d.subj)
        return mk_str(cs[s[0]:s[1]])
    if d.words is None:
        if g != 0 and not mandatory(R.node, g):
            if not remember(I, ("grp", ref.oid, g)):
                return default
        return TStr(("g", ref.oid, g))
    ws = R.words()
    if g == 0:
        if all(a and z for _, _, a, z in ws):
            return whole(I, ref, d, ws)
        return TStr(("g0", ref.oid))
    have = [i for i in d.words if g in ws[i][1]]
    miss = [i for i in d.words if g not in ws[i][1]]
    if have and miss:
        if o.weak:
            r = I.choose(2) == 0
        else:
            r = I.choose(2) == 0
            I.S.own(ref.oid).d = MatchD(d.pat, d.subj, None, None, tuple(have if r else miss), d.sym, d.mode)
    elif have:
        r = True
    else:
        r = False
    if not r:
        return default
    boxes = {}
    for i in have:
        el, sp = ws[i][0], ws[i][1]
        a, b = sp[g]
        boxes[el[a:b]] = None
    sym = (ref.oid, g)
    if o.weak:
        sym = (ref.oid, g, fresh_id())
    if sym not in I.S.doms:
        I.S.doms[sym] = tuple(boxes)
    else:
        # keep what is already known about the group
        cur = [b for b in I.S.doms[sym] if any(len(b) == len(w) for w in boxes)
               or any(type(e) is tuple for e in b)]
        if not cur:
            raise I.Infeasible()
        I.S.doms[sym] = tuple(cur)
    return WVal(sym)


def whole(I, ref, d, ws):
    sym = (ref.oid, 0)
    if I.S.get(ref.oid).weak:
        sym = (ref.oid, 0, fresh_id())
    if sym not in I.S.doms:
        boxes = {}
        for i in d.words:
            boxes[ws[i][0]] = None
        if len(boxes) > 60:
            return d.subj if type(d.subj) is TStr and d.subj.tag != "" else TStr(("g0", ref.oid))
        I.S.doms[sym] = tuple(boxes)
    return WVal(sym)


def match_string(I, ref):
    d = I.S.get(ref.oid).d
    if d.spans is not None:
        return d.subj
    return d.subj


def match_method(I, ref, name, args, kw):
    o = I.S.get(ref.oid)
    d = o.d
    R = rx.get(d.pat.pattern, d.pat.flags)
    if name == "group":
        if not args:
            return group(I, ref, 0)
        if len(args) == 1:
            return group(I, ref, args[0])
        return Tup(tuple(group(I, ref, a) for a in args))
    if name == "groups":
        df = args[0] if args else kw.get("default")
        return Tup(tuple(group(I, ref, g, df) for g in range(1, R.ngroups + 1)))
    if name == "groupdict":
        df = args[0] if args else kw.get("default")
        return I.new_dict([(n, group(I, ref, g, df)) for n, g in R.groupindex.items()])
    if name in ("start", "end", "span"):
        g = group_no(I, R, args[0]) if args else 0
        if d.spans is not None:
            s = span_of(d.spans, g) or (-1, -1)
        else:
            a = TNum(-1, INF, True, fresh_id())
            s = (a, TNum(-1, INF, True, fresh_id()))
            if d.mode == "match" and g == 0:
                s = (0, TNum(0, INF, True, fresh_id()))
        return s[0] if name == "start" else s[1] if name == "end" else Tup(s)
    if name == "expand":
        return TStr(fresh_id())
    raise Undecided("Match.%s" % name)


# ---------------------------------------------------------------- substitution
def template(I, pat, repl):
    """Replacement template as parts: str or group number."""
    if "\\" not in repl:
        return [repl]
    try:
        t = _re._parser.parse_template(repl, _re.compile(pat.pattern, pat.flags))
    except (_re.error, IndexError) as e:
        I.throw(I.lib.RE_ERROR if isinstance(e, _re.error) else IndexError, str(e))
    if isinstance(t, list):
        return t
    groups, lits = t
    out = list(lits)
    for i, g in groups:
        out[i] = g
    return [x for x in out if x is not None]


def do_sub(I, pat, repl, v, count=0, subn=False):
    R = rx.get(pat.pattern, pat.flags)
    v = need_str(I, v)
    repl = I.force(repl)
    count = I.rv(count)
    if not is_str(repl) and not type(repl) in (Func, BoundM, Builtin, ClassV, BType):
        I.throw(TypeError, "decoding to str: need a bytes-like object, %s found" % type_name(I, repl))

    def out(x, n):
        return Tup((x, n)) if subn else x
    if type(v) is TStr:
        if not is_str(repl):
            if I.choose(2) == 0:
                m = Ref(I.alloc("match", None, MatchD(pat, v, None, None, None, None, "search"), mtag(pat)))
                I.call(repl, (m,), {})
        return out(TStr(fresh_id()), TNum(0, INF, True, fresh_id()))
    if is_str(repl):
        repl = sn(I, repl)
        parts = template(I, pat, repl) if type(repl) is str else [repl]
        if type(repl) is str and type(v) is str:
            s, n = _re.subn(pat.pattern, repl, v, count=count, flags=pat.flags)
            return out(s, n)
        if type(repl) is TStr:
            return out(TStr(fresh_id()), TNum(0, INF, True, fresh_id()))
    else:
        parts = None
    if type(v) is WVal and not sym_may(I, R, v.sym, "search"):
        return out(v, 0)
    cs0 = v.cells if type(v) is AStr else cells(I, v)
    cs = []
    for c in cs0:
        if type(c) is SV and type(c.val) is WVal:
            if sub_inert(I, R, c.val):
                cs.append(c)
            else:
                cs += expand(I, c.val)
        else:
            cs.append(c)
    res = []
    i = n = 0
    last = -1
    while i <= len(cs):
        if count and n >= count:
            break
        m = None
        if i < len(cs) or True:
            if may_match(I, R, cs, i):
                m = R.match_at(Subj(I, cs), i)
        if m is None or (m[0] == i and i == last):
            if i < len(cs):
                res.append(mk_str([cs[i]]))
            i += 1
            continue
        e, gs = m
        n += 1
        if parts is None:
            mo = mk_match(I, pat, mk_str(cs), sorted(gs.items()), e, i, "search")
            r = I.force(I.call(repl, (mo,), {}))
            if not is_str(r):
                I.throw(TypeError, "expected str instance")
            res.append(r)
        else:
            for p in parts:
                if type(p) is int:
                    if p == 0:
                        res.append(mk_str(cs[i:e]))
                    elif p in gs:
                        res.append(mk_str(cs[gs[p][0]:gs[p][1]]))
                else:
                    res.append(p)
        if e == i:
            if i < len(cs):
                res.append(mk_str([cs[i]]))
            i += 1
        else:
            i = e
        last = e
    for c in cs[i:]:
        res.append(mk_str([c]))
    return out(concat(I, [_unwrap(x) for x in res]) if res else "", n)


def _unwrap(x):
    if type(x) is AStr and len(x.cells) == 1 and type(x.cells[0]) is SV and type(x.cells[0].val) is WVal:
        return x.cells[0].val
    return x


def sub_inert(I, R, w):
    """No match can involve any character of the symbol."""
    if any(not b for b in I.S.doms[w.sym]):
        return False
    m = 0
    for b in I.S.doms[w.sym]:
        for e in b:
            m |= e if type(e) is int else e[1]
    return not (m & alphabet(R.node))


def alphabet(node):
    t = node[0]
    if t == "ch":
        return node[1]
    if t in ("seq", "alt"):
        m = 0
        for n in node[1]:
            m |= alphabet(n)
        return m
    if t == "grp":
        return alphabet(node[2])
    if t == "rep":
        return alphabet(node[1])
    if t == "at":
        return 0 if node[1] in ("bos", "eos", "end") else ALL
    return ALL


def do_split(I, pat, v, maxsplit=0):
    R = rx.get(pat.pattern, pat.flags)
    v = need_str(I, v)
    if type(v) is TStr:
        return Ref(I.alloc("list", None, ListD((), TStr(), 1, INF), "split"))
    if type(v) is str:
        return wrap_py(I, _re.compile(pat.pattern, pat.flags).split(v, maxsplit))
    cs = cells(I, v)
    out = []
    start = i = 0
    while i <= len(cs):
        if maxsplit and len(out) >= maxsplit:
            break
        m = R.match_at(Subj(I, cs), i) if may_match(I, R, cs, i) else None
        if m is None or m[0] == i:
            i += 1
            continue
        out.append(mk_str(cs[start:i]))
        for g in range(1, R.ngroups + 1):
            out.append(mk_str(cs[m[1][g][0]:m[1][g][1]]) if g in m[1] else None)
        start = i = m[0]
    out.append(mk_str(cs[start:]))
    return I.new_list(out)


def do_findall(I, pat, v, it=False):
    R = rx.get(pat.pattern, pat.flags)
    v = need_str(I, v)
    if type(v) is TStr:
        if it:
            m = Ref(I.alloc("match", None, MatchD(pat, v, None, None, None, None, "search"), mtag(pat)))
            return Ref(I.alloc("list", None, ListD((), m, 0, INF), "fi"))
        el = TStr() if R.ngroups < 2 else Tup((TStr(),) * R.ngroups)
        return Ref(I.alloc("list", None, ListD((), el, 0, INF), "fa"))
    cs = cells(I, v)
    out = []
    i = 0
    while i <= len(cs):
        m = R.match_at(Subj(I, cs), i) if may_match(I, R, cs, i) else None
        if m is None:
            i += 1
            continue
        e, gs = m
        if it:
            out.append(mk_match(I, pat, mk_str(cs), sorted(gs.items()), e, i, "search"))
        elif R.ngroups == 0:
            out.append(mk_str(cs[i:e]))
        else:
            t = tuple(mk_str(cs[gs[g][0]:gs[g][1]]) if g in gs else "" for g in range(1, R.ngroups + 1))
            out.append(t[0] if len(t) == 1 else Tup(t))
        i = e if e > i else i + 1
    return I.new_list(out)


_tags = {}


def mtag(pat):
    """Matches of different patterns are different allocation sites."""
    k = (pat.pattern, pat.flags)
    if k not in _tags:
        _tags[k] = "m%d" % len(_tags)
    return _tags[k]
