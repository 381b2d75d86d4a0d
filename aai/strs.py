"""Abstract strings: cells, symbols, equality, methods, formatting."""
import datetime
import itertools

from .values import *
from .state import *
from .nums import *

FNMASK = cmask("0123456789.-einfa")     # characters of a printed number
NUMCH = cmask("0123456789.-+eE")
MAXWORDS = 3000


def is_str(v):
    return type(v) in (str, AStr, TStr, WVal)


def shape(box):
    return tuple(e if type(e) is tuple else None for e in box)


def sym_cells(sym, box):
    out = []
    for i, e in enumerate(box):
        if type(e) is tuple:
            out.append(BL("%s#%d" % (sym, i), e[1], e[2]))
        elif is_single(e):
            out.append(chr(e.bit_length() - 1))
        else:
            out.append(SC(sym, i))
    return out


def narrow_cell(S, c):
    if type(c) is SC:
        m = S.digit_mask(("d", c.sym, c.i))
        if is_single(m):
            return chr(m.bit_length() - 1)
    return c


def sn(I, v):
    """Normal form of a string under the current knowledge."""
    t = type(v)
    if t is str or t is TStr:
        return v
    S = I.S
    if t is WVal:
        dom = S.doms[v.sym]
        if not dom:
            raise I.Infeasible()
        sh = {shape(b) for b in dom}
        if len(sh) == 1:
            b0 = next(iter(sh))
            cells = []
            for i, e in enumerate(b0):
                if e is not None:
                    cells.append(BL("%s#%d" % (v.sym, i), e[1], e[2]))
                else:
                    cells.append(narrow_cell(S, SC(v.sym, i)))
            return mk_str(cells)
        return v
    cells = [narrow_cell(S, c) for c in v.cells]
    return mk_str(cells)


def expand(I, v):
    """The cells of a WVal, choosing its shape."""
    S = I.S
    dom = S.doms[v.sym]
    shapes = []
    for b in dom:
        s = shape(b)
        if s not in shapes:
            shapes.append(s)
    i = I.choose(len(shapes))
    sh = shapes[i]
    S.doms[v.sym] = tuple(b for b in dom if shape(b) == sh)
    cells = []
    for i, e in enumerate(sh):
        if e is not None:
            cells.append(BL("%s#%d" % (v.sym, i), e[1], e[2]))
        else:
            cells.append(narrow_cell(S, SC(v.sym, i)))
    return cells


def cells(I, v):
    """List of cells of a (non-TStr) string; WVals are expanded."""
    v = sn(I, v)
    if type(v) is str:
        return list(v)
    if type(v) is WVal:
        return expand(I, v)
    if type(v) is TStr:
        raise Undecided("cells of an unknown string at %s" % I.where())
    out = []
    for c in v.cells:
        if type(c) is SV and type(c.val) is WVal:
            out += expand(I, c.val)
        else:
            out.append(c)
    return out


def cell_mask(I, c):
    if type(c) is str:
        return cmask(c)
    if type(c) is SC:
        return I.S.digit_mask(("d", c.sym, c.i))
    if type(c) is BL:
        return c.mask
    if type(c) is FN:
        return NUMCH if c.num is not None else ALL
    if type(c) is SV and type(c.val) is WVal:
        m = 0
        for b in I.S.doms[c.val.sym]:
            for e in b:
                m |= e if type(e) is int else e[1]
        return m
    return ALL


def refine_cell(I, c, mask):
    S = I.S
    out = []
    for b in S.doms[c.sym]:
        if c.i < len(b) and type(b[c.i]) is int:
            m = b[c.i] & mask
            if m == b[c.i]:
                out.append(b)
            elif m:
                out.append(b[:c.i] + (m,) + b[c.i + 1:])
    if not out:
        raise I.Infeasible()
    S.doms[c.sym] = tuple(dict.fromkeys(out))


def test_cell(I, c, mask):
    """Is the character in mask?  Splits the symbol's domain when undecided."""
    m = cell_mask(I, c)
    if not m & ~mask:
        return True
    if not m & mask:
        return False
    if type(c) is not SC:
        raise Undecided("test of %r at %s" % (c, I.where()))
    r = I.choose(2) == 0
    refine_cell(I, c, mask if r else ~mask & ALL)
    return r


# ---------------------------------------------------------------- words
def box_words(box):
    opts = []
    n = 1
    for e in box:
        if type(e) is tuple:
            return None
        cs = mask_chars(e)
        n *= len(cs)
        if n > MAXWORDS:
            return None
        opts.append(cs)
    return ["".join(t) for t in itertools.product(*opts)]


def dom_words(dom):
    out = {}
    for b in dom:
        w = box_words(b)
        if w is None:
            return None
        for x in w:
            out[x] = None
        if len(out) > MAXWORDS:
            return None
    return list(out)


def word_in_box(w, b):
    """True if the word is covered by a box without unbounded runs; None: maybe."""
    if any(type(e) is tuple for e in b):
        return _word_in_star(w, b)
    return len(w) == len(b) and all(cmask(c) & e for c, e in zip(w, b))


def _word_in_star(w, b):
    if not b:
        return not w
    e = b[0]
    if type(e) is int:
        return bool(w) and bool(cmask(w[0]) & e) and _word_in_star(w[1:], b[1:])
    n = 0
    while True:
        if n >= e[2] and _word_in_star(w[n:], b[1:]):
            return True
        if n >= len(w) or not cmask(w[n]) & e[1]:
            return False
        n += 1


def sub_word(b, w):
    """Boxes covering box b without word w."""
    if any(type(e) is tuple for e in b):
        return [b]
    out = []
    pre = ()
    for i, (c, e) in enumerate(zip(w, b)):
        m = e & ~cmask(c)
        if m:
            out.append(pre + (m,) + b[i + 1:])
        pre += (cmask(c),)
    return out


def word_box(w):
    return tuple(cmask(c) for c in w)


def eq_sym_const(I, sym, w):
    S = I.S
    dom = S.doms[sym]
    hit = [b for b in dom if word_in_box(w, b)]
    if not hit:
        return False
    rest = []
    for b in dom:
        if word_in_box(w, b):
            rest += sub_word(b, w)
        else:
            rest.append(b)
    if not rest:
        return True
    r = I.choose(2) == 0
    if r:
        S.doms[sym] = (word_box(w),)
        if sym[0] == "row":
            row_narrow(I, sym, w)
    else:
        S.doms[sym] = tuple(dict.fromkeys(rest))
    return r


def row_narrow(I, sym, w):
    """A column of a table's row is known: the other columns are those of such rows."""
    _, oid, n, c = sym
    info = I.tables[oid]
    by = info.setdefault("by", {})
    if c not in by:
        by[c] = {}
        for row in info["rows"]:
            by[c].setdefault(row[c], []).append(row)
    rows = by[c].get(w, ())
    if not rows or len(rows) > 64:
        return
    for k in range(len(rows[0])):
        s = ("row", oid, n, k)
        if k != c:
            ws = [r[k] for r in rows if any(word_in_box(r[k], b) for b in I.S.doms[s])]
            if not ws:
                from .interp import Infeasible
                raise Infeasible()
            I.S.doms[s] = tuple(word_box(x) for x in dict.fromkeys(ws))


def single_sym(v):
    """The symbol whose complete text v is (cells 0..n-1 in order), or None."""
    if type(v) is WVal:
        return v.sym
    return None


def eq_str(I, a, b):
    a, b = sn(I, a), sn(I, b)
    if type(a) is str and type(b) is str:
        return a == b
    if type(a) is TStr or type(b) is TStr:
        return eq_unknown(I, a, b)
    if type(b) is WVal and type(a) is str:
        a, b = b, a
    if type(a) is WVal and type(b) is str:
        return eq_sym_const(I, a.sym, b)
    if type(a) is WVal and type(b) is WVal and a.sym == b.sym:
        return True
    la, ha = len_iv_str(I, a)
    lb, hb = len_iv_str(I, b)
    if la > hb or lb > ha:
        return False
    ca, cb = cells(I, a), cells(I, b)
    if any(type(c) in (FN, SV, BL) for c in ca + cb):
        return eq_blocks(I, ca, cb)
    if len(ca) != len(cb):
        return False
    # all symbolic cells of one symbol against constants: one split
    pairs = [(x, y) for x, y in zip(ca, cb) if not (type(x) is type(y) and x == y)]
    if any(type(x) is str and type(y) is str for x, y in pairs):
        return False
    syms = {c.sym for p in pairs for c in p if type(c) is SC}
    if len(syms) == 1 and all((type(x) is str) != (type(y) is str) for x, y in pairs):
        sym = next(iter(syms))
        want = {}
        for x, y in pairs:
            c, k = (x, y) if type(x) is SC else (y, x)
            if want.setdefault(c.i, k) != k:
                return False
        S = I.S
        yes, no = [], []
        for b in S.doms[sym]:
            if all(i < len(b) and cmask(k) & b[i] for i, k in want.items()):
                nb = list(b)
                pre = list(b)
                for i, k in want.items():
                    m = pre[i] & ~cmask(k)
                    if m:
                        z = list(pre)
                        z[i] = m
                        no.append(tuple(z))
                    pre[i] = cmask(k)
                    nb[i] = cmask(k)
                yes.append(tuple(nb))
            else:
                no.append(b)
        if not yes:
            return False
        if not no:
            return True
        r = I.choose(2) == 0
        S.doms[sym] = tuple(dict.fromkeys(yes if r else no))
        if r and sym[0] == "row" and len(S.doms[sym]) == 1:
            ws = [mask_chars(x) if type(x) is int else () for x in S.doms[sym][0]]
            if all(len(x) == 1 for x in ws):
                row_narrow(I, sym, "".join(x[0] for x in ws))
        return r
    for x, y in pairs:
        if type(x) is str:
            x, y = y, x
        x = narrow_cell(I.S, x)
        y = narrow_cell(I.S, y)
        if type(x) is str and type(y) is str:
            if x != y:
                return False
            continue
        if type(x) is str:
            x, y = y, x
        if type(y) is str:
            if not test_cell(I, x, cmask(y)):
                return False
            continue
        # two symbolic characters: equality of the pair
        mx, my = cell_mask(I, x), cell_mask(I, y)
        if not mx & my:
            return False
        key = ("ceq", x, y)
        if key in I.S.picks:
            r = I.S.picks[key] == 0
        else:
            r = I.choose(2) == 0
            I.S.picks[key] = 0 if r else 1
        if r:
            refine_cell(I, x, my)
            refine_cell(I, y, mx)
        else:
            return False
    return True


def eq_blocks(I, ca, cb):
    """Equality with number blocks or unknown text on one side."""
    if ca == cb:
        return True
    for xs, ys in ((ca, cb), (cb, ca)):
        fns = [c for c in xs if type(c) is FN]
        if fns and all(type(c) is str for c in ys):
            y = "".join(ys)
            # constant prefix before the first block must agree
            i = 0
            while i < len(xs) and type(xs[i]) is str:
                if i >= len(y) or xs[i] != y[i]:
                    return False
                i += 1
            if len(xs) == 1 or all(type(c) in (FN, str) for c in xs):
                # every character beyond the constants must be a number character
                k = [c for c in xs if type(c) is str]
                rest = [c for c in y if c not in k]
                if any(not cmask(c) & NUMCH for c in rest):
                    return False
                if len(y) < len(k) + sum(fn_len(I, c)[0] for c in fns):
                    return False
                if len(xs) == 1 and not any(ch.isdigit() for ch in y):
                    return False
                if len(xs) == 1 and not xs[0].spec and not v_isint(xs[0].num) and \
                        "." not in y and "e" not in y:
                    return False
                if len(xs) == 1 and type(xs[0].num) is Num:
                    r = eq_printed(I, xs[0], y)
                    if r is not None:
                        return r
        if not ys and any(type(c) is str or type(c) in (SC, FN) or (type(c) is BL and c.lo > 0)
                          for c in xs):
            return False
    # provably different first or last literal characters
    for pick in (0, -1):
        if ca and cb:
            x, y = ca[pick], cb[pick]
            if type(x) in (str, SC) and type(y) in (str, SC):
                if not cell_mask(I, x) & cell_mask(I, y):
                    return False
    if not ca or not cb:
        z = ca or cb
        if all(type(c) in (BL, SV) and (type(c) is SV or c.lo == 0) for c in z):
            pass
        else:
            return False
    return remember(I, ("eqb", tuple(ca), tuple(cb)))


def eq_printed(I, c, y):
    """Is this number printed as the text y?  (None: not decided here.)"""
    isint = v_isint(c.num)
    try:
        n = int(y) if isint and "." not in y else float(y)
        if n != n or n in (INF, -INF):
            return None
        spec = c.spec
        if (format(n, spec) if spec else str(n)) != y:
            return False
    except (ValueError, OverflowError):
        return False
    if not isint and spec:
        return None
    return num_compare(I, "Eq", c.num, n)


def remember(I, key):
    p = I.S.picks.get(key)
    if p is None:
        p = I.choose(2)
        I.S.picks[key] = p
    return p == 0


def eq_unknown(I, a, b):
    if type(a) is not TStr:
        a, b = b, a
    if type(a) is TStr and a.tag == "" and not (type(b) is TStr and b.tag):
        return I.choose(2) == 0
    if type(b) is TStr and type(a) is TStr and a.tag == b.tag and a.tag != "":
        return True
    S = I.S
    if type(b) is str:
        known = S.picks.get(("is", a.tag))
        if known is not None:
            return known == b
        key = ("eq", a.tag, b)
        if key in S.picks:
            return S.picks[key] == 0
        if b == "" and S.picks.get(("nonempty", a.tag)):
            return False
        r = I.choose(2) == 0
        S.picks[key] = 0 if r else 1
        if r:
            S.picks[("is", a.tag)] = b
        return r
    if type(b) is TStr:
        return remember(I, ("eq2",) + tuple(sorted((repr(a.tag), repr(b.tag)))))
    return remember(I, ("eq3", a.tag, b))


# ---------------------------------------------------------------- lengths
def fn_len(I, c):
    """Length bounds of a printed number."""
    spec = c.spec
    n = c.num
    if n is None:
        return 0, INF
    w = 0
    s = spec.lstrip("0") if spec.startswith("0") else spec
    num = ""
    for ch in s:
        if ch.isdigit():
            num += ch
        else:
            break
    if num:
        w = int(num)
    lo, hi = I.S.num_iv(n)
    if spec.endswith("f"):
        prec = 6
        if "." in spec:
            prec = int(spec[spec.index(".") + 1:-1] or 0)
        mn = 1 + (1 + prec if prec else 0)
        if lo >= 0 and hi < INF:
            il = len(str(int(hi + 1))) + (1 + prec if prec else 0)
            return max(w, mn), max(w, il)
        return max(w, mn), INF
    if v_isint(n) or (type(n) is TNum and n.isint):
        if lo >= 0 and hi < INF:
            return max(w, len(str(int(lo)))), max(w, len(str(int(hi))))
        return max(w, 1), INF
    return max(w, 3 if not spec else 1), INF


def cell_len(I, c):
    if type(c) in (str, SC):
        return 1, 1
    if type(c) is FN:
        return fn_len(I, c)
    if type(c) is BL:
        return c.lo, INF
    if type(c) is SV and type(c.val) is WVal:
        return len_iv_str(I, c.val)
    return 0, INF


def len_iv_str(I, v):
    v = sn(I, v)
    if type(v) is str:
        return len(v), len(v)
    if type(v) is WVal:
        lo, hi = INF, 0
        for b in I.S.doms[v.sym]:
            l = sum(1 if type(e) is int else e[2] for e in b)
            h = INF if any(type(e) is tuple for e in b) else len(b)
            lo, hi = min(lo, l), max(hi, h)
        return lo, hi
    if type(v) is TStr:
        return 0, INF
    lo = hi = 0
    for c in v.cells:
        l, h = cell_len(I, c)
        lo, hi = lo + l, hi + h
    return lo, hi


def str_len(I, v):
    v = sn(I, v)
    lo, hi = len_iv_str(I, v)
    if lo == hi:
        return lo
    if type(v) is WVal:
        if hi == INF:
            return TNum(lo, hi, True, ("len", v.sym))
        cs = expand(I, v)
        if all(type(c) in (str, SC) for c in cs):
            return len(cs)
        return TNum(lo, hi, True, ("len", v.sym))
    if type(v) is AStr and any(type(c) is SV and type(c.val) is WVal for c in v.cells):
        return str_len(I, mk_str(cells(I, v)))
    tid = ("len", v.tag) if type(v) is TStr and v.tag != "" else fresh_id()
    return TNum(lo, hi, True, tid)


def str_truth(I, v):
    v = sn(I, v)
    lo, hi = len_iv_str(I, v)
    if lo > 0:
        return True
    if hi == 0:
        return False
    if type(v) is WVal:
        S = I.S
        e = [b for b in S.doms[v.sym] if not b]
        n = [b for b in S.doms[v.sym] if b]
        stars = [b for b in n if all(type(x) is tuple and x[2] == 0 for x in b)]
        r = I.choose(2) == 0
        if r:
            S.doms[v.sym] = tuple(n)
        else:
            S.doms[v.sym] = tuple(e + stars)
            if not (e or stars):
                raise I.Infeasible()
        return r
    if type(v) is TStr:
        r = not eq_unknown(I, v, "")
        return r
    if type(v) is AStr and any(type(c) is SV and type(c.val) is WVal for c in v.cells):
        return str_truth(I, mk_str(cells(I, v)))
    return remember(I, ("ne", v))


# ---------------------------------------------------------------- building
def concat(I, parts):
    out = []
    if I.mode == "join":
        n = 1
        for p in parts:
            if type(p) is Union:
                n *= len(p.alts)
        if n > 8:
            for p in parts:
                for x in (p.alts if type(p) is Union else ()):
                    if not is_str(x):
                        I.merged(lambda: py_str(I, p))
                        break
            return TStr(fresh_id())
    for p in parts:
        p = I.rv(p)
        if not is_str(p):
            p = py_str(I, p)
        p = sn(I, p)
        if type(p) is TStr:
            return TStr(fresh_id())
        if type(p) is str:
            out += p
        elif type(p) is WVal:
            if I.mode == "join":
                return TStr(fresh_id())
            out.append(SV(p))
        else:
            out += p.cells
    if I.mode == "join" and not all(type(c) is str for c in out):
        if len(out) > 24:
            return TStr(fresh_id())
    return mk_str(out)


def digits_cells(num, n):
    """Cells printing num with n digits when num is exactly those digits."""
    if not isinstance(num, Num) or not num.isint:
        return None
    pos = {}
    const = 0
    for m, c in num.terms:
        if m == ():
            const = c
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0][0] != "d":
            return None
        k = 0
        x = c
        while x > 1 and x % 10 == 0:
            x //= 10
            k += 1
        if x != 1 or k >= n or k in pos:
            return None
        pos[k] = SC(m[0][0][1], m[0][0][2])
    if const < 0 or const != int(const):
        return None
    cs = "%0*d" % (n, const)
    if len(cs) > n:
        return None
    out = []
    for k in range(n - 1, -1, -1):
        ch = cs[n - 1 - k]
        if k in pos:
            if ch != "0":
                return None
            out.append(pos[k])
        else:
            out.append(ch)
    return out


def py_str(I, v):
    v = I.force(v)
    if is_str(v):
        return sn(I, v)
    t = type(v)
    if v is None or t is bool or t is int or t is float:
        return str(v)
    if t in (Num, TNum, LenV):
        v = simp(I.S, v)
        if type(v) in (int, float):
            return str(v)
        if I.mode == "join":
            return TStr(fresh_id())
        if isinstance(v, Num):
            return AStr((FN(v, ""),))
        return TStr(fresh_id())
    if t is Ref:
        o = I.S.get(v.oid)
        if o.kind == "inst":
            if isinstance(o.cls, ClassV):
                for nm in ("__str__", "__repr__"):
                    m = I.class_attr(o.cls, nm)
                    if m is not None:
                        if I.blur and I.mode == "split" and not I.loading:
                            r = blurred(I, lambda: I.force(I.call(I.bind(m, v, o.cls), (), {})))
                        else:
                            r = I.force(I.call(I.bind(m, v, o.cls), (), {}))
                        if not is_str(r):
                            I.throw(TypeError, "__str__ returned non-string")
                        return r
            if "args" in o.d and (isinstance(o.cls, ExcT) or o.cls.exc is not None):
                a = I.rv(o.d["args"])
                if isinstance(a, Tup) and len(a.items) == 1:
                    return py_str(I, a.items[0])
                if isinstance(a, Tup) and not a.items:
                    return ""
            return TStr(fresh_id())
        if I.mode == "join":
            _walk_str(I, v)
            return TStr(fresh_id())
        return AStr((SV(I.lib.snapshot(I, v)),))
    if t in (DT, TD, ADate):
        if I.mode == "join":
            return TStr(fresh_id())
        c = plain_date(I, v)
        return str(c) if c is not None else AStr((SV(v),))
    if t is Tup:
        for x in v.items:
            py_str(I, x)
        if I.mode == "join":
            return TStr(fresh_id())
        return AStr((SV(I.lib.snapshot(I, v)),))
    return TStr(fresh_id())


def plain_date(I, v):
    """The Python date of a DT or ADate all of whose parts are constants, or None."""
    d = v.date if type(v) is DT else v
    parts = [I.rv(x) for x in ((v.hour, v.minute, v.second) if type(v) is DT else ())]
    off = I.rv(d.off)
    if d.base[0] != "date" or any(type(x) is not int for x in parts + [off] + list(d.base[1:])):
        return None
    try:
        c = datetime.date(*d.base[1:]) + datetime.timedelta(days=off)
        return datetime.datetime(c.year, c.month, c.day, *parts) if type(v) is DT else c
    except (ValueError, OverflowError):
        return None


def blurred(I, thunk):
    """The text of an object as opaque text, when producing it changes nothing: the
    case split of the rendering code is not carried on.  Exceptions are."""
    from .interp import PyExc

    def compute():
        base = I.S
        outs = I.explore(thunk)
        res = []
        merged = False
        for k, v, s in outs:
            new = s.objs
            pure = all(base.objs.get(o) is ob for o, ob in new.items() if o in base.objs or o in base.base)
            if k == "ok" and type(v) is str and len(outs) == 1:
                return [(k, v, base.fork())]
            if k == "ok" and pure and is_str(v):
                if not merged:
                    merged = True
                    res.append(("ok", TStr(fresh_id()), base.fork()))
            else:
                res.append((k, v, s))
        return res
    k, v, s = I.lazy(compute)
    I.S = s.fork()
    if k != "ok":
        if isinstance(v, PyExc):
            e = PyExc(v.ref, v.cls, v.site)
            e.trace = v.trace
            raise e
        raise v
    return v


def _walk_str(I, v):
    """str() of a container calls repr of its elements."""
    o = I.S.get(v.oid)
    if o.kind == "list":
        for x in o.d.tail:
            py_repr(I, x)


def py_repr(I, v):
    v = I.force(v)
    if is_str(v):
        v = sn(I, v)
        if type(v) is str:
            return repr(v)
        if type(v) is TStr:
            return TStr(fresh_id())
        return concat(I, ["'", v, "'"])
    if type(v) is Ref:
        o = I.S.get(v.oid)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__repr__")
            if m is not None:
                return I.rv(I.call(I.bind(m, v, o.cls), (), {}))
            return TStr(fresh_id())
    return py_str(I, v)


def py_format(I, v, spec):
    v = I.force(v)
    if spec == "":
        return py_str(I, v)
    spec = I.rv(spec)
    if type(spec) is not str:
        return TStr(fresh_id())
    t = type(v)
    if t in (Num, TNum, LenV):
        v = simp(I.S, v)
        t = type(v)
    if t in (bool, int, float):
        try:
            return format(v, spec)
        except ValueError as e:
            I.throw(ValueError, str(e))
    if t in (Num, TNum, LenV):
        isint = t is LenV or v.isint
        try:
            format(1 if isint else 1.5, spec)
        except ValueError as e:
            I.throw(ValueError, str(e))
        if t is not Num or I.mode == "join":
            if t is TNum and I.mode != "join":
                return TStr(fresh_id())
            return AStr((FN(to_t(I, v), spec),)) if I.mode == "join" else TStr(fresh_id())
        s = spec[:-1] if spec.endswith("d") else spec
        if isint and s.isdigit() and s.startswith("0") and len(s) > 1:
            cs = digits_cells(v, int(s))
            if cs is not None:
                return mk_str(cs)
        return AStr((FN(v, spec),))
    if is_str(v):
        v = sn(I, v)
        if spec[-1:] in "dfeEgGbcoxXn%" and spec[-1:]:
            I.throw(ValueError, "Unknown format code %r for object of type 'str'" % spec[-1])
        if type(v) is str:
            try:
                return format(v, spec)
            except ValueError as e:
                I.throw(ValueError, str(e))
        lo, hi = len_iv_str(I, v)
        if lo == hi and spec.lstrip("<>^").isdigit() and lo >= int(spec.lstrip("<>^")):
            return v
        return TStr(fresh_id())
    if t in (DT, ADate):
        if I.mode == "join":
            return TStr(fresh_id())
        c = plain_date(I, v)
        return format(c, spec) if c is not None else AStr((SV(It("strftime", (v, spec))),))
    if v is None or t in (Tup, Ref, TD, Opaque, ClassV):
        I.throw(TypeError, "unsupported format string passed to %s.__format__" % type_name(I, v))
    raise Undecided("format of %r" % (v,))


def type_name(I, v):
    if v is None:
        return "NoneType"
    if type(v) is Ref:
        o = I.S.get(v.oid)
        return o.cls.name if isinstance(o.cls, ClassV) else o.kind
    return type(v).__name__


# ---------------------------------------------------------------- numbers from text
def strip_cells(I, cs, mask, left=True, right=True):
    cs = list(cs)
    if left:
        while cs and type(cs[0]) in (str, SC) and test_cell(I, cs[0], mask):
            cs.pop(0)
    if right:
        while cs and type(cs[-1]) in (str, SC) and test_cell(I, cs[-1], mask):
            cs.pop()
    for e, on in ((0, left), (-1, right)):
        if on and cs:
            if type(cs[e]) is BL and cs[e].mask & mask:
                raise Undecided("strip of %r" % (cs[e],))
            if type(cs[e]) is SV:
                x = cs[e].val
                if not (isinstance(x, Tup) and x.items[:1] == ("<strip>",)):
                    cs[e] = SV(Tup(("<strip>", x)))
    return cs


def parse_num(I, v, isint):
    """int(text) or float(text)."""
    v = sn(I, v)
    what = "int()" if isint else "float()"

    def bad():
        I.throw(ValueError, "invalid literal for %s" % what)
    if type(v) is str:
        try:
            return int(v) if isint else float(v)
        except ValueError:
            bad()
    if type(v) is TStr:
        if not remember(I, ("num", what, v.tag)) if v.tag != "" else I.choose(2):
            bad()
        return TNum(-INF, INF, isint, ("numof", what, v.tag) if v.tag != "" else fresh_id())
    if type(v) is WVal:
        r = parse_words(I, v, isint, bad)
        if r is not None:
            return r
    cs = cells(I, v)
    fns = [c for c in cs if type(c) is FN]
    if fns:
        if len(cs) == 1:
            c = fns[0]
            n = c.num
            if isint:
                if v_isint(n) or (type(n) is TNum and n.isint):
                    return n
                bad()
            if type(n) is TNum:
                return TNum(n.lo, n.hi, False, fresh_id())
            if not c.spec:
                return num_float(I, n)
            return Num(n.terms, False, ("fmt", c.spec, n.ex))
        return TNum(-INF, INF, isint, fresh_id())
    if any(type(c) in (SV, BL) for c in cs):
        if all(type(c) in (str, SC) or (type(c) is BL and not c.mask & ~DIGITS and c.lo > 0)
               for c in cs) and isint:
            if all(not cell_mask(I, c) & ~DIGITS for c in cs):
                return TNum(0, INF, True, fresh_id())
        if I.choose(2):
            bad()
        return TNum(-INF, INF, isint, fresh_id())
    cs = strip_cells(I, cs, SPACE)
    neg = False
    if cs and test_cell(I, cs[0], cmask("+-")):
        neg = test_cell(I, cs[0], cmask("-"))
        cs = cs[1:]
    if not cs:
        bad()
    whole, frac = [], None
    for c in cs:
        if test_cell(I, c, DIGITS):
            (whole if frac is None else frac).append(c)
        elif not isint and frac is None and test_cell(I, c, cmask(".")):
            frac = []
        else:
            if test_cell(I, c, cmask("_eEinfaINFAtyTYN")) and not isint:
                # exponent, inf, nan, underscores: decided on constants only
                k = [narrow_cell(I.S, x) for x in cs]
                if all(type(x) is str for x in k):
                    try:
                        r = float("".join(k))
                    except ValueError:
                        bad()
                    return -r if neg else r
                if not _floatish(I, cs):
                    bad()
                raise Undecided("float of %r" % (v,))
            bad()
    if not whole and not frac:
        bad()
    d = {}
    isn = 0
    n = len(whole)
    digs = [(c, n - 1 - i) for i, c in enumerate(whole)] + [
        (c, -1 - i) for i, c in enumerate(frac or [])]
    exact = True
    for c, e in digs:
        c = narrow_cell(I.S, c)
        k = 10 ** e if e >= 0 else 1 / 10 ** -e
        if type(c) is str:
            d[()] = d.get((), 0) + int(c) * k
        else:
            m = ((("d", c.sym, c.i), 1),)
            d[m] = d.get(m, 0) + k
    num = num_from(d, isint or frac is None)
    if not isint:
        num = num_float(I, num) if v_isint(num) else num
    if neg:
        num = num_neg(I, num)
    return num


def _floatish(I, cs):
    """Could the text be inf/nan/exponent form for some of its words?"""
    for t in ("inf", "infinity", "nan"):
        if len(cs) == len(t) and all(cell_mask(I, c) & cmask(a + a.upper()) for c, a in zip(cs, t)):
            return True
    has_e = any(cell_mask(I, c) & cmask("eE") for c in cs[1:-1])
    und = any(cell_mask(I, c) & cmask("_") for c in cs[1:-1])
    first = bool(cell_mask(I, cs[0]) & (DIGITS | cmask(".")))
    return first and (has_e or und)


def parse_words(I, v, isint, bad):
    """Numbers from a symbol of several shapes: one split number / not a number,
    then one per shape."""
    S = I.S
    good, rest = [], []
    ok = DIGITS | cmask("+-._") | SPACE
    for b in S.doms[v.sym]:
        if b and all(type(e) is int and not e & ~DIGITS for e in b):
            good.append(b)
        elif any(type(e) is tuple for e in b):
            return None
        elif any(not e & ok for e in b) and not (
                not isint and _boxfloat(b)):
            rest.append(b)
        elif not b:
            rest.append(b)
        else:
            return None
    if rest:
        if not good or I.choose(2):
            S.doms[v.sym] = tuple(rest)
            bad()
        S.doms[v.sym] = tuple(good)
    return None


def _boxfloat(b):
    for t in ("inf", "infinity", "nan"):
        if len(b) == len(t) and all(e & cmask(a + a.upper()) for e, a in zip(b, t)):
            return True
    return bool(b[0] & (DIGITS | cmask(".+-"))) and any(e & cmask("eE") for e in b)


# ---------------------------------------------------------------- substring search
def find_at(I, cs, sub, i):
    """Does sub (str) occur at i?"""
    if i + len(sub) > len(cs):
        return False
    for c, k in zip(cs[i:], sub):
        if type(c) in (FN, BL, SV):
            if not cell_mask(I, c) & cmask(k):
                return False
            raise Undecided("search in %r" % (cs,))
        if not cell_mask(I, c) & cmask(k):
            return False
    for c, k in zip(cs[i:], sub):
        if not test_cell(I, c, cmask(k)):
            return False
    return True


def find_cells(I, cs, sub, start=0):
    if sub == "":
        return start if start <= len(cs) else -1
    for i in range(start, len(cs) - len(sub) + 1):
        if find_at(I, cs, sub, i):
            return i
    return -1


def split_cells(I, cs, sep, maxsplit=-1):
    out = []
    if sep is None:
        cur = []
        for c in cs:
            if type(c) in (str, SC) and test_cell(I, c, SPACE):
                if cur:
                    out.append(cur)
                cur = []
            else:
                if type(c) is BL and c.mask & SPACE or type(c) is SV:
                    raise Undecided("split of %r" % (c,))
                cur.append(c)
        if cur:
            out.append(cur)
        return out
    i = 0
    cur = []
    while i < len(cs):
        if (maxsplit < 0 or len(out) < maxsplit) and find_at(I, cs, sep, i):
            out.append(cur)
            cur = []
            i += len(sep)
        else:
            cur.append(cs[i])
            i += 1
    out.append(cur)
    return out


PURE0 = {"upper", "lower", "capitalize", "title", "isdigit", "isdecimal", "isnumeric", "isalpha",
         "isalnum", "isupper", "islower", "isspace", "zfill", "ljust", "rjust", "center",
         "casefold", "swapcase", "expandtabs", "isidentifier", "isascii", "isprintable"}
BOOLM = {"isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isupper", "islower",
         "isspace", "isidentifier", "isascii", "isprintable", "startswith", "endswith"}
CLS = {"isdigit": DIGITS, "isdecimal": DIGITS, "isnumeric": DIGITS,
       "isalpha": UPPER | LOWER | OTHER, "isalnum": UPPER | LOWER | OTHER | DIGITS,
       "isspace": SPACE}
METHODS = PURE0 | BOOLM | {
    "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "replace", "join", "find",
    "rfind", "index", "rindex", "count", "partition", "rpartition", "removeprefix",
    "removesuffix", "format", "encode", "translate", "format_map"}


def str_method(I, v, name, args, kw):
    v = sn(I, v)
    if name == "format" and I.mode == "join":
        return str_format(I, v, args, kw)
    args = tuple(I.rv(a) for a in args)
    if name == "join":
        items = I.lib.to_items_or_none(I, args[0])
        if items is None:
            return TStr(fresh_id())
        parts = []
        for i, x in enumerate(items):
            x = I.force(x)
            if not is_str(x):
                I.throw(TypeError, "sequence item %d: expected str instance" % i)
            if i:
                parts.append(v)
            parts.append(x)
        return concat(I, parts) if parts else ""
    if name == "format":
        return str_format(I, v, args, kw)
    if name == "format_map":
        return str_format(I, v, (), dict(I.lib.dict_exact_items(I, args[0])))
    for a in args:
        if a is None and name in ("replace", "startswith", "endswith", "find", "index", "count"):
            I.throw(TypeError, "%s: argument must be str, not None" % name)
    if name == "encode":
        return Opaque("bytes")
    if name in ("startswith", "endswith") and isinstance(args[0], Tup):
        for x in args[0].items:
            if I.truth(str_method(I, v, name, (x,) + args[1:], kw)):
                return True
        return False
    consts = type(v) is str and all(type(a) in (str, int, bool) or a is None for a in args) and not kw
    if consts:
        try:
            r = getattr(v, name)(*args)
        except (ValueError, TypeError, IndexError, AttributeError) as e:
            I.throw(type(e), str(e))
        return wrap_py(I, r)
    if name == "split" and kw:
        sep = kw.get("sep", args[0] if args else None)
        mx = kw.get("maxsplit", args[1] if len(args) > 1 else -1)
        args = (sep, mx)
    args = tuple(sn(I, a) if is_str(a) else a for a in args)
    if type(v) is TStr or any(type(a) is TStr for a in args):
        return unknown_method(I, v, name, args)
    try:
        return cell_method(I, v, name, args)
    except Undecided:
        if I.mode != "join":
            raise
        return unknown_method(I, v, name, args)


def wrap_py(I, r):
    if isinstance(r, list):
        return I.new_list([wrap_py(I, x) for x in r])
    if isinstance(r, tuple):
        return Tup(tuple(wrap_py(I, x) for x in r))
    return r


def unknown_method(I, v, name, args):
    """Result of a method on (or with) unknown text."""
    if name in BOOLM:
        tag = v.tag if type(v) is TStr else v
        if type(v) is TStr and v.tag != "" and all(type(a) is str for a in args):
            return remember(I, ("m", name, tag, args))
        return I.choose(2) == 0
    if name in ("split", "rsplit", "splitlines"):
        sep = args[0] if args else None
        hi = INF
        if len(args) > 1 and type(args[1]) is int and args[1] >= 0:
            hi = args[1] + 1
        lo = 1 if sep is not None and name != "splitlines" else 0
        oid = I.alloc("list", None, ListD((), TStr(), lo, hi), "split")
        return Ref(oid)
    if name in ("find", "rfind"):
        return TNum(-1, INF, True, fresh_id())
    if name == "count":
        return TNum(0, INF, True, fresh_id())
    if name in ("index", "rindex"):
        if I.choose(2):
            I.throw(ValueError, "substring not found")
        return TNum(0, INF, True, fresh_id())
    if name in ("partition", "rpartition"):
        if I.choose(2):
            return Tup((v, "", "")) if name == "partition" else Tup(("", "", v))
        return Tup((TStr(fresh_id()), args[0], TStr(fresh_id())))
    return TStr(fresh_id())


def replace_cells(I, v, old, new):
    """Replace a text holding unknown parts, where these are the very same parts."""
    vs, os_ = list(v.cells), list(old.cells)
    if type(os_[0]) is not str:
        raise Undecided("replace of %r" % (old,))
    out, run, i = [], [], 0
    while i < len(vs):
        if vs[i:i + len(os_)] == os_:
            out += [mk_cells(run), new]
            run = []
            i += len(os_)
            continue
        for x, y in zip(vs[i:i + len(os_)], os_):
            if type(x) is str and type(y) is str:
                if x != y:
                    break
                continue
            if type(x) is SV and type(x.val) is DT and type(y) is str and y not in "0123456789-: .":
                break
            raise Undecided("replace of %r" % (old,))
        run.append(vs[i])
        i += 1
    return concat(I, out + [mk_cells(run)])


def cell_method(I, v, name, args):
    if name in ("strip", "lstrip", "rstrip"):
        mask = SPACE if not args or args[0] is None else 0
        if not mask:
            for c in cells(I, args[0]):
                mask |= cell_mask(I, c) if type(c) is str else _und("strip set")
        if type(v) is WVal and all(not (e if type(e) is int else e[1]) & mask
                                   for b in I.S.doms[v.sym] for e in b):
            return v
        if type(v) is AStr and v.cells and all(
                _no(I, c, mask) for c in (v.cells[:1] if name != "rstrip" else ()) +
                (v.cells[-1:] if name != "lstrip" else ())):
            return v
        return mk_str(strip_cells(I, cells(I, v), mask, name != "rstrip", name != "lstrip"))
    if name in ("upper", "lower", "casefold", "capitalize", "title", "swapcase"):
        low, up = LOWER | OTHER, UPPER | OTHER
        if name == "upper" and _none(I, v, low) or name in ("lower", "casefold") and _none(I, v, up):
            return v
        cs = cells(I, v)
        if all(not cell_mask(I, c) & (LOWER | UPPER | OTHER) for c in cs if type(c) in (SC, BL)) \
                and not any(type(c) is SV for c in cs):
            k = [c if type(c) is str else "\0" for c in cs]
            out = getattr("".join(k), name)()
            return mk_str([o if o != "\0" else c for o, c in zip(out, cs)])
        raise Undecided("case mapping of %r" % (v,))
    if name in CLS:
        if type(v) is WVal:
            m = CLS[name]
            S = I.S
            yes = [b for b in S.doms[v.sym] if b and all(type(e) is int and not e & ~m for e in b)]
            no = [b for b in S.doms[v.sym] if not b or any(type(e) is int and not e & m for e in b)]
            if len(yes) + len(no) == len(S.doms[v.sym]):
                if not yes:
                    return False
                if not no:
                    return True
                r = I.choose(2) == 0
                S.doms[v.sym] = tuple(yes if r else no)
                return r
        cs = cells(I, v)
        if not cs:
            return False
        for c in cs:
            if not test_cell(I, c, CLS[name]):
                return False
        return True
    if name in ("isupper", "islower"):
        good, badm = (UPPER, LOWER) if name == "isupper" else (LOWER, UPPER)
        some = False
        for c in cells(I, v):
            if test_cell(I, c, badm):
                return False
            if test_cell(I, c, good):
                some = True
        return some
    if name in ("startswith", "endswith"):
        p = args[0]
        if type(v) is WVal and type(p) is str:
            return affix_words(I, v, p, name == "startswith")
        a, b = cells(I, v), cells(I, p)
        if len(b) > len(a) and not any(type(c) in (FN, BL, SV) for c in a):
            return False
        if name == "startswith":
            part = a[:len(b)]
        else:
            part = a[len(a) - len(b):]
        if any(type(c) in (FN, BL, SV) for c in part):
            x, y = (part[0], b[0]) if name == "startswith" else (part[-1], b[-1])
            if not cell_mask(I, x) & cell_mask(I, y):
                return False
            raise Undecided("%s on %r" % (name, v))
        return eq_str(I, mk_str(part), mk_str(b))
    if name in ("removeprefix", "removesuffix"):
        p = args[0]
        if I.truth(cell_method(I, v, "startswith" if name == "removeprefix" else "endswith", args)):
            a, n = cells(I, v), len(cells(I, p))
            return mk_str(a[n:] if name == "removeprefix" else a[:len(a) - n])
        return v
    if name in ("split", "rsplit"):
        sep = args[0] if args else None
        mx = args[1] if len(args) > 1 else -1
        if sep is not None and type(sep) is not str:
            raise Undecided("split by %r" % (sep,))
        if sep == "":
            I.throw(ValueError, "empty separator")
        # keep whole symbols that cannot contain the separator
        if type(v) is WVal:
            smask = SPACE if sep is None else cmask(sep[0])
            if _none(I, v, smask) and (sep is not None or all(b for b in I.S.doms[v.sym])):
                return I.new_list([v])
        cs = v.cells if type(v) is AStr else cells(I, v)
        if mx != -1 and (sep is None or name == "rsplit"):
            if name == "rsplit" and sep is not None:
                rs = split_cells(I, list(reversed(_protect(I, cs, sep))), sep[::-1], mx)
                return I.new_list([mk_cells(list(reversed(x))) for x in reversed(rs)])
            raise Undecided("split with maxsplit")
        cs = _protect(I, cs, sep)
        return I.new_list([mk_cells(x) for x in split_cells(I, cs, sep, mx)])
    if name == "replace":
        old, new = args[0], args[1]
        cnt = args[2] if len(args) > 2 else -1
        if type(old) is AStr and type(v) is AStr and cnt == -1:
            return replace_cells(I, v, old, new)
        if type(old) is not str or old == "":
            raise Undecided("replace of %r" % (old,))
        if all(_none(I, x, cmask(old[0])) for x in (v,)):
            return v
        cs = _protect(I, v.cells if type(v) is AStr else cells(I, v), old)
        segs = split_cells(I, cs, old, cnt)
        out = []
        for i, s in enumerate(segs):
            if i:
                out.append(new)
            out.append(mk_cells(s))
        return concat(I, out)
    if name in ("find", "index", "count", "rfind", "rindex"):
        cs = cells(I, v)
        p = args[0]
        if type(p) is not str:
            raise Undecided("find %r" % (p,))
        if name == "count":
            return len(split_cells(I, cs, p)) - 1
        st = args[1] if len(args) > 1 else 0
        if name in ("find", "index"):
            r = find_cells(I, cs, p, st)
        else:
            r = -1
            for i in range(len(cs) - len(p), -1, -1):
                if find_at(I, cs, p, i):
                    r = i
                    break
        if r < 0 and name in ("index", "rindex"):
            I.throw(ValueError, "substring not found")
        return r
    if name in ("partition", "rpartition"):
        cs = cells(I, v)
        p = args[0]
        if name == "partition":
            i = find_cells(I, cs, p)
        else:
            i = -1
            for k in range(len(cs) - len(p), -1, -1):
                if find_at(I, cs, p, k):
                    i = k
                    break
        if i < 0:
            return Tup((v, "", "")) if name == "partition" else Tup(("", "", v))
        return Tup((mk_str(cs[:i]), p, mk_str(cs[i + len(p):])))
    if name in ("zfill", "ljust", "rjust", "center"):
        w = args[0]
        cs = cells(I, v)
        if any(type(c) in (FN, BL, SV) for c in cs):
            raise Undecided("padding of %r" % (v,))
        fill = args[1] if len(args) > 1 else ("0" if name == "zfill" else " ")
        n = w - len(cs)
        if n <= 0:
            return mk_str(cs)
        if name == "zfill":
            if cs and test_cell(I, cs[0], cmask("+-")):
                return mk_str([cs[0]] + ["0"] * n + cs[1:])
            return mk_str(["0"] * n + cs)
        if name == "rjust":
            return mk_str([fill] * n + cs)
        if name == "ljust":
            return mk_str(cs + [fill] * n)
    raise Undecided("str.%s" % name)


def mk_cells(cs):
    """A string from cells, giving back a whole symbol when it is just that."""
    if len(cs) == 1 and type(cs[0]) is SV and type(cs[0].val) is WVal:
        return cs[0].val
    return mk_str(cs)


def _und(what):
    raise Undecided(what)


def _no(I, c, mask):
    if type(c) in (str, SC):
        return not cell_mask(I, c) & mask
    if type(c) is SV and type(c.val) is WVal:
        return _none(I, c.val, mask) and all(b for b in I.S.doms[c.val.sym])
    if type(c) is FN:
        return not NUMCH & mask
    if type(c) is BL:
        return not c.mask & mask and c.lo > 0
    return False


def _none(I, v, mask):
    """No character of v can be in mask."""
    if type(v) is str:
        return not any(cmask(c) & mask for c in v)
    if type(v) is WVal:
        return all(not (e if type(e) is int else e[1]) & mask
                   for b in I.S.doms[v.sym] for e in b)
    if type(v) is TStr:
        return False
    for c in v.cells:
        if type(c) is SV:
            if type(c.val) is not WVal or not _none(I, c.val, mask):
                return False
        elif cell_mask(I, c) & mask:
            return False
    return True


def _protect(I, cs, sep):
    """Expand whole-symbol cells only when they may contain the separator."""
    out = []
    mask = SPACE if sep is None else cmask(sep[0])
    for c in cs:
        if type(c) is SV and type(c.val) is WVal:
            if _none(I, c.val, mask) and (sep is not None or all(b for b in I.S.doms[c.val.sym])):
                dom = I.S.doms[c.val.sym]
                out.append(c)
            else:
                out += expand(I, c.val)
        else:
            out.append(c)
    return [(_Opq(c) if type(c) is SV and type(c.val) is WVal else c) for c in out] if False else out


def affix_words(I, v, p, start):
    S = I.S
    yes, no = [], []
    for b in S.doms[v.sym]:
        if any(type(e) is tuple for e in b):
            if start and len(b) >= len(p) and all(type(e) is int for e in b[:len(p)]) and p:
                pass
            else:
                if start and p and type(b[0]) is int and not b[0] & cmask(p[0]):
                    no.append(b)
                    continue
                raise Undecided("affix of %r" % (v,))
        if len(b) < len(p):
            no.append(b)
            continue
        off = 0 if start else len(b) - len(p)
        nb = list(b)
        pre = list(b)
        ok = True
        for i, k in enumerate(p):
            if not b[off + i] & cmask(k):
                ok = False
                break
        if not ok:
            no.append(b)
            continue
        for i, k in enumerate(p):
            m = pre[off + i] & ~cmask(k)
            if m:
                z = list(pre)
                z[off + i] = m
                no.append(tuple(z))
            pre[off + i] = cmask(k)
            nb[off + i] = cmask(k)
        yes.append(tuple(nb))
    if not yes:
        return False
    if not no:
        return True
    r = I.choose(2) == 0
    S.doms[v.sym] = tuple(dict.fromkeys(yes if r else no))
    return r


def str_format(I, fmt, args, kw):
    import string
    fmt = sn(I, fmt)
    if type(fmt) is not str:
        return TStr(fresh_id())
    parts = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError as e:
        I.throw(ValueError, str(e))
    for lit, fname, spec, conv in fields:
        if lit:
            parts.append(lit)
        if fname is None:
            continue
        head = fname
        rest = ""
        for i, ch in enumerate(fname):
            if ch in ".[":
                head, rest = fname[:i], fname[i:]
                break
        if head == "":
            if auto >= len(args):
                I.throw(IndexError, "Replacement index %d out of range" % auto)
            val = args[auto]
            auto += 1
        elif head.isdigit():
            if int(head) >= len(args):
                I.throw(IndexError, "Replacement index out of range")
            val = args[int(head)]
        else:
            if head not in kw:
                I.throw(KeyError, head)
            val = kw[head]
        while rest:
            if rest[0] == ".":
                j = 1
                while j < len(rest) and rest[j] not in ".[":
                    j += 1
                val = I.getattr(I.rv(val), rest[1:j])
                rest = rest[j:]
            else:
                j = rest.index("]")
                k = rest[1:j]
                val = I.getitem(I.rv(val), int(k) if k.isdigit() else k)
                rest = rest[j + 1:]
        if "{" in (spec or ""):
            spec = str_format(I, spec, args[auto:], kw)
        if conv == "r":
            val = py_repr(I, val)
        elif conv == "s":
            val = py_str(I, val)
        parts.append(I.merged(lambda: py_format(I, val, spec or "")))
    return concat(I, parts)


def percent(I, fmt, arg):
    """fmt % arg"""
    import re as _re
    fmt = sn(I, fmt)
    if type(fmt) is not str:
        return TStr(fresh_id())
    args = list(arg.items) if isinstance(arg, Tup) else [arg]
    mapping = None
    if type(arg) is Ref and I.S.get(arg.oid).kind == "dict":
        mapping = arg
    parts = []
    pos = 0
    for m in _re.finditer(r"%(?:\((\w+)\))?([-+ 0#]*)(\d*|\*)(?:\.(\d+))?([sdrifgeExX%])", fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            parts.append("%")
            continue
        if m.group(1):
            v = I.getitem(mapping, m.group(1))
        else:
            if not args:
                I.throw(TypeError, "not enough arguments for format string")
            v = args.pop(0)
        v = I.force(v)
        k = m.group(5)
        flags, w, pr = m.group(2), m.group(3), m.group(4)
        if k == "s":
            s = I.merged(lambda: py_str(I, v))
            if w or pr:
                s = py_format(I, s, ("<" if "-" in flags else ">") + w) if type(s) is str else TStr(fresh_id())
            parts.append(s)
        elif k == "r":
            parts.append(py_repr(I, v))
        else:
            if not (is_num(v) or type(v) is bool):
                I.throw(TypeError, "%%%s format: a number is required" % k)
            if k in "di":
                v = num_int(I, v)
                k = "d"
            spec = ("0" if "0" in flags else "") + w + ("." + pr if pr else "") + k
            parts.append(py_format(I, v, spec))
    parts.append(fmt[pos:])
    if args and mapping is None:
        I.throw(TypeError, "not all arguments converted during string formatting")
    return concat(I, parts)


# ---------------------------------------------------------------- indexing
def str_index(I, v, i):
    v = sn(I, v)
    i = I.rv(i)
    if type(v) is TStr:
        if I.choose(2):
            I.throw(IndexError, "string index out of range")
        return TStr(fresh_id())
    cs = cells(I, v)
    if type(i) is not int:
        if is_num(i):
            if I.choose(2):
                I.throw(IndexError, "string index out of range")
            return TStr(fresh_id())
        I.throw(TypeError, "string indices must be integers")
    if any(type(c) in (FN, BL, SV) for c in cs):
        pre = cs[:i + 1] if i >= 0 else cs[i:]
        if len(pre) == (i + 1 if i >= 0 else -i) and all(type(c) in (str, SC) for c in pre):
            return mk_str([cs[i]])
        return TStr(fresh_id())
    if not -len(cs) <= i < len(cs):
        I.throw(IndexError, "string index out of range")
    return mk_str([cs[i]])


def str_slice(I, v, lo, hi, step):
    v = sn(I, v)
    if type(v) is TStr:
        return TStr(fresh_id())
    if (lo in (None, 0)) and hi is None and step in (None, 1):
        return v
    if type(v) is str and all(x is None or type(x) is int for x in (lo, hi, step)):
        return v[lo:hi:step]
    cs = cells(I, v)
    if not all(x is None or type(x) is int for x in (lo, hi, step)):
        return TStr(fresh_id())
    if any(type(c) in (FN, BL, SV) for c in cs):
        k = min(i for i, c in enumerate(cs) if type(c) in (FN, BL, SV))
        k2 = len(cs) - max(i for i, c in enumerate(cs) if type(c) in (FN, BL, SV)) - 1
        if step in (None, 1):
            okl = lo is None or (0 <= lo <= k) or (lo < 0 and -lo <= k2)
            okh = hi is None or (0 <= hi <= k) or (hi < 0 and -hi <= k2)
            if okl and okh:
                return mk_str(cs[lo:hi])
        return TStr(fresh_id())
    return mk_str(cs[lo:hi:step])
