"""Abstract heap states: copy-on-write objects, symbol domains, facts; joins, GC."""
from dataclasses import dataclass
from typing import Any, Tuple
import itertools

from .values import *

UNB = Opaque("unbound")
_counter = itertools.count(1)


def fresh_id():
    return next(_counter)


@dataclass(frozen=True)
class ListD:
    """pre: join of the elements of an unknown prefix of lo..hi elements (None:
    no prefix); tail: the exactly known last elements."""
    tail: Tuple = ()
    pre: Any = None
    lo: int = 0
    hi: float = 0

    @property
    def exact(self):
        return self.pre is None


@dataclass(frozen=True)
class DictD:
    """items: ((key, value, definite), ...) in insertion order; rest: (key, value)
    abstracting any number of further entries, or None."""
    items: Tuple = ()
    rest: Any = None


@dataclass(frozen=True)
class SetD:
    items: Tuple = ()
    rest: Any = None
    frozen: bool = False


@dataclass(frozen=True)
class IterD:
    """A live iterator.  src: oid of a list (live) or None; items: exact rest."""
    items: Tuple = ()
    pos: int = 0
    rest: Any = None     # (elem, lo, hi) after items when abstract
    src: Any = None


@dataclass(frozen=True)
class GenD:
    func: Any
    env: Any
    state: str = "new"
    count: int = 0


@dataclass(frozen=True)
class MatchD:
    pat: Pat
    subj: Any
    spans: Any = None       # exact: ((g, (s, e)), ...) over the cells of subj
    end: Any = None
    words: Any = None       # abstract: candidate word indices
    sym: Any = None
    mode: str = "match"


class Obj:
    __slots__ = ("kind", "cls", "d", "weak")

    def __init__(self, kind, cls, d, weak=False):
        self.kind, self.cls, self.d, self.weak = kind, cls, d, weak

    def same(self, o):
        return (self.kind == o.kind and self.cls is o.cls and self.weak == o.weak
                and self.d == o.d)

    def __repr__(self):
        return "Obj(%s,%r,%r%s)" % (self.kind, self.cls, self.d, ",weak" if self.weak else "")


DICTKINDS = ("inst", "env", "mod", "cls")


class State:
    __slots__ = ("base", "objs", "owned", "doms", "nums", "facts", "picks", "atoms")

    def __init__(self, base=None):
        self.base = base if base is not None else {}
        self.objs = {}
        self.owned = set()
        self.doms = {}
        self.nums = {}
        self.facts = {}
        self.picks = {}
        self.atoms = {}

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.doms = dict(self.doms)
        s.nums = dict(self.nums)
        s.facts = dict(self.facts)
        s.picks = dict(self.picks)
        s.atoms = dict(self.atoms)
        return s

    def get(self, oid):
        o = self.objs.get(oid)
        return o if o is not None else self.base[oid]

    def has(self, oid):
        return oid in self.objs or oid in self.base

    def put(self, oid, obj):
        self.objs[oid] = obj
        self.owned.add(oid)

    def own(self, oid):
        """A privately owned copy of a dict-like object."""
        if oid in self.owned:
            return self.objs[oid]
        o = self.get(oid)
        n = Obj(o.kind, o.cls, dict(o.d) if o.kind in DICTKINDS else o.d, o.weak)
        self.objs[oid] = n
        self.owned.add(oid)
        return n

    def setd(self, oid, d):
        o = self.own(oid)
        o.d = d

    def freeze(self):
        """Make the current heap the shared base (after module loading)."""
        b = dict(self.base)
        b.update(self.objs)
        s = State(b)
        s.doms, s.nums, s.facts = dict(self.doms), dict(self.nums), dict(self.facts)
        s.picks, s.atoms = dict(self.picks), dict(self.atoms)
        return s

    def digit_mask(self, a):
        """Set of possible digits of the digit atom ('d', sym, i)."""
        m = 0
        for box in self.doms[a[1]]:
            if a[2] < len(box):
                m |= box[a[2]]
        return m

    def atom_iv(self, a):
        if isinstance(a, tuple) and a[0] == "d":
            if a[1] in self.doms:
                ds = [int(c) for c in mask_chars(self.digit_mask(a) & DIGITS)]
                if ds:
                    return min(ds), max(ds)
            return 0, 9
        r = self.atoms.get(a)
        if r is not None:
            return r
        if isinstance(a, tuple) and a[0] in ("int", "round", "floor"):
            lo, hi = self.num_iv(a[1])
            return lo - 1, hi + 1
        return -INF, INF

    def num_iv(self, v):
        if isinstance(v, bool):
            return int(v), int(v)
        if isinstance(v, (int, float)):
            return v, v
        if isinstance(v, TNum):
            lo, hi = v.lo, v.hi
            if v.tid is not None and v.tid in self.nums:
                l2, h2 = self.nums[v.tid]
                lo, hi = max(lo, l2), min(hi, h2)
            return lo, hi
        if isinstance(v, LenV):
            return v.lo, v.hi
        if not isinstance(v, Num):
            return -INF, INF
        lo = hi = 0
        for m, c in v.terms:
            l, h = 1, 1
            for a, e in m:
                al, ah = self.atom_iv(a)
                for _ in range(abs(e)):
                    if e > 0:
                        xs = [_m(l, al), _m(l, ah), _m(h, al), _m(h, ah)]
                    else:
                        if al <= 0 <= ah:
                            xs = [-INF, INF]
                        else:
                            xs = [l / al, l / ah, h / al, h / ah]
                    l, h = min(xs), max(xs)
            a1, a2 = _m(c, l), _m(c, h)
            lo, hi = lo + min(a1, a2), hi + max(a1, a2)
        return lo, hi


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


# ---------------------------------------------------------------- traversal
def refs_of(v, acc, syms=None):
    """Object ids (and symbols) directly mentioned by value v."""
    t = type(v)
    if t is Ref:
        acc.add(v.oid)
    elif t is Tup:
        for x in v.items:
            refs_of(x, acc, syms)
    elif t is Union:
        for x in v.alts:
            refs_of(x, acc, syms)
    elif t is It:
        for x in v.args:
            refs_of(x, acc, syms)
    elif t is BoundM:
        refs_of(v.func, acc, syms)
        refs_of(v.self_, acc, syms)
    elif t is Func:
        if v.closure is not None:
            acc.add(v.closure)
        for x in v.defaults:
            refs_of(x, acc, syms)
        for x in v.kwdefaults.values():
            refs_of(x, acc, syms)
        for x in v.attrs.values():
            refs_of(x, acc, syms)
    elif t is PropV:
        refs_of(v.fget, acc, syms)
        if v.fset is not None:
            refs_of(v.fset, acc, syms)
    elif t in (StaticM, ClassM):
        refs_of(v.f, acc, syms)
    elif t is SuperV:
        refs_of(v.obj, acc, syms)
    elif t is ClassV:
        acc.add(v.oid)
    elif t is GRow:
        acc.add(v.oid)
    elif t is ModV:
        if v.oid is not None:
            acc.add(v.oid)
    elif t is DT:
        for x in (v.date.off, v.hour, v.minute, v.second):
            refs_of(x, acc, syms)
        for x in (v.date.base if isinstance(v.date.base, tuple) else ()):
            if isinstance(x, Num):
                refs_of(x, acc, syms)
    elif t is TD:
        refs_of(v.minutes, acc, syms)
    elif syms is not None:
        if t is AStr:
            for c in v.cells:
                tc = type(c)
                if tc is SC:
                    syms.add(c.sym)
                elif tc is FN:
                    refs_of(c.num, acc, syms)
                elif tc is SV:
                    refs_of(c.val, acc, syms)
        elif t is WVal:
            syms.add(v.sym)
        elif t is Num:
            for a in v.atoms():
                if isinstance(a, tuple) and a[0] == "d":
                    syms.add(a[1])
                elif isinstance(a, tuple) and isinstance(a[1], Num):
                    refs_of(a[1], acc, syms)
        elif t is LenV:
            acc.add(v.oid)


def obj_refs(o, acc, syms=None):
    k = o.kind
    d = o.d
    if k in DICTKINDS:
        for x in d.values():
            refs_of(x, acc, syms)
        if k == "env" and o.cls is not None:
            acc.add(o.cls)
        elif k == "inst" and isinstance(o.cls, ClassV):
            acc.add(o.cls.oid)
    elif k in ("list",):
        for x in d.tail:
            refs_of(x, acc, syms)
        if d.pre is not None:
            refs_of(d.pre, acc, syms)
    elif k == "dict":
        for kk, x, _ in d.items:
            refs_of(kk, acc, syms)
            refs_of(x, acc, syms)
        if d.rest is not None:
            refs_of(d.rest[0], acc, syms)
            refs_of(d.rest[1], acc, syms)
    elif k == "set":
        for x in d.items:
            refs_of(x, acc, syms)
        if d.rest is not None:
            refs_of(d.rest, acc, syms)
    elif k == "iter":
        for x in d.items:
            refs_of(x, acc, syms)
        if d.rest is not None:
            refs_of(d.rest[0], acc, syms)
        if d.src is not None:
            acc.add(d.src)
    elif k == "gen":
        acc.add(d.env)
        refs_of(d.func, acc, syms)
    elif k == "match":
        refs_of(d.subj, acc, syms)
        if syms is not None and d.sym is not None:
            syms.add(d.sym)
    elif k == "exc":
        for x in d["args"].items if isinstance(d["args"], Tup) else ():
            refs_of(x, acc, syms)
        for kk, x in d.items():
            refs_of(x, acc, syms)


def reach(S, roots, stop=None):
    """Oids reachable from roots (a set of oids); stop: do not expand these."""
    seen = set()
    work = list(roots)
    while work:
        o = work.pop()
        if o in seen:
            continue
        seen.add(o)
        if stop is not None and o in stop:
            continue
        ob = S.objs.get(o)
        if ob is None:
            continue        # base objects never point to new ones unless written
        acc = set()
        obj_refs(ob, acc)
        for x in acc:
            if x not in seen:
                work.append(x)
    return seen


def map_val(v, f):
    """Rebuild v with f applied to leaves (f returns a replacement or v itself)."""
    t = type(v)
    if t is Tup:
        return Tup(tuple(map_val(x, f) for x in v.items), v.cls)
    if t is Union:
        return mk_union([map_val(x, f) for x in v.alts], v.cid)
    if t is It:
        return It(v.kind, tuple(map_val(x, f) for x in v.args))
    if t is BoundM:
        return BoundM(map_val(v.func, f), map_val(v.self_, f))
    if t is SuperV:
        return SuperV(v.cls, map_val(v.obj, f))
    if t is DT:
        base = v.date.base
        nb = f(v)
        if nb is not v:
            return nb
        return v
    return f(v)


def map_obj(o, f):
    k, d = o.kind, o.d
    if k in DICTKINDS or k == "exc":
        nd = {n: map_val(x, f) for n, x in d.items()}
    elif k == "list":
        nd = ListD(tuple(map_val(x, f) for x in d.tail),
                   None if d.pre is None else map_val(d.pre, f), d.lo, d.hi)
    elif k == "dict":
        nd = DictD(tuple((map_val(a, f), map_val(b, f), c) for a, b, c in d.items),
                   None if d.rest is None else (map_val(d.rest[0], f), map_val(d.rest[1], f)))
    elif k == "set":
        nd = SetD(tuple(map_val(x, f) for x in d.items),
                  None if d.rest is None else map_val(d.rest, f), d.frozen)
    elif k == "iter":
        nd = IterD(tuple(map_val(x, f) for x in d.items), d.pos,
                   None if d.rest is None else (map_val(d.rest[0], f),) + tuple(d.rest[1:]),
                   d.src)
    elif k == "match":
        nd = MatchD(d.pat, map_val(d.subj, f), d.spans, d.end, d.words, d.sym, d.mode)
    else:
        nd = d
    return Obj(k, o.cls, nd, o.weak)


# ---------------------------------------------------------------- joins
def is_num(v):
    t = type(v)
    return t in (int, float, Num, TNum, LenV)


def is_strv(v):
    t = type(v)
    return t in (str, AStr, TStr, WVal)


MAXS = 40


def mk_union(alts, cid=None):
    flat = []
    for a in alts:
        for x in (a.alts if type(a) is Union else (a,)):
            for y in flat:
                if y is x or (type(y) is type(x) and y == x):
                    break
            else:
                flat.append(x)
    if len(flat) == 1:
        return flat[0]
    return Union(tuple(flat), cid if cid is not None else fresh_id())


def join_alts(alts, iv):
    """Normalise alternatives (a list): merge numbers, cap strings.  iv(v) gives
    the numeric interval of v."""
    nums, strs, tups, others = [], [], [], []
    for a in alts:
        t = type(a)
        lst = others
        if t is bool or a is None:
            pass
        elif is_num(a):
            lst = nums
        elif is_strv(a):
            lst = strs
        elif t is Tup:
            lst = tups
        for y in lst:
            if y is a or (type(y) is type(a) and y == a):
                break
        else:
            lst.append(a)
    out = list(others)
    dts = [o for o in others if type(o) is DT]
    if len(dts) > 1:
        out = [o for o in out if type(o) is not DT] + [join_dt(dts, iv)]
    tds = [o for o in others if type(o) is TD]
    if len(tds) > 1:
        out = [o for o in out if type(o) is not TD] + [TD(TNum(tid=fresh_id()))]
    if len(nums) > 1:
        if len(nums) <= 4 and all(type(n) in (int,) for n in nums):
            out += nums
        else:
            ivs = [iv(n) for n in nums]
            out.append(TNum(min(i[0] for i in ivs), max(i[1] for i in ivs),
                            all(v_isint(n) or (type(n) is TNum and n.isint)
                                or type(n) is LenV for n in nums), fresh_id()))
    else:
        out += nums
    if len(strs) > 1:
        tops = [s for s in strs if type(s) is TStr]
        consts = [s for s in strs if type(s) is str]
        rest = [s for s in strs if type(s) in (AStr, WVal)]
        if tops:
            out.append(tops[0] if len(tops) == 1 and len(strs) == 1 else TStr())
        elif len(consts) > MAXS or len(rest) > 6:
            out.append(TStr())
        else:
            out += consts + rest
    else:
        out += strs
    if len(tups) > 8:
        n = {(len(t.items), t.cls) for t in tups}
        if len(n) == 1:
            items = []
            for i in range(len(tups[0].items)):
                items.append(mk_union(join_alts(_flat([t.items[i] for t in tups]), iv)))
            out.append(Tup(tuple(items), tups[0].cls))
        else:
            out += tups
    else:
        out += tups
    return out


def _flat(vs):
    out = []
    for v in vs:
        if type(v) is Union:
            out += v.alts
        else:
            out.append(v)
    return out


def join_dt(dts, iv):
    d0 = dts[0]
    hs = [iv(d.hour) for d in dts]
    ms = [iv(d.minute) for d in dts]
    ss = [iv(d.second) for d in dts]

    def hull(xs, vals):
        if all(v == vals[0] for v in vals):
            return vals[0]
        return TNum(min(x[0] for x in xs), max(x[1] for x in xs), True, fresh_id())
    if all(d.date == d0.date for d in dts):
        date = d0.date
    elif all(d.date.base == d0.date.base for d in dts) and d0.date.base != ("any",):
        offs = [iv(d.date.off) for d in dts]
        date = ADate(d0.date.base, TNum(min(o[0] for o in offs), max(o[1] for o in offs),
                                        True, fresh_id()))
    else:
        date = ADate(("any",), 0)
    return DT(date, hull(hs, [d.hour for d in dts]), hull(ms, [d.minute for d in dts]),
              hull(ss, [d.second for d in dts]))


def val_eq(a, b):
    """Structural equality that ignores unknown-names."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is Union:
        if len(a.alts) != len(b.alts):
            return False
        return all(any(val_eq(x, y) for y in b.alts) for x in a.alts)
    if ta is Tup:
        return (a.cls is b.cls and len(a.items) == len(b.items)
                and all(val_eq(x, y) for x, y in zip(a.items, b.items)))
    if ta is TStr:
        return True
    if ta is DT:
        return (a.date == b.date and val_eq(a.hour, b.hour)
                and val_eq(a.minute, b.minute) and val_eq(a.second, b.second))
    return a == b


def leq(a, b, iv1, iv2):
    """a (in state 1) is covered by b (in state 2), conservatively."""
    if a is b:
        return True
    alts_b = b.alts if type(b) is Union else (b,)
    for x in (a.alts if type(a) is Union else (a,)):
        ok = False
        for y in alts_b:
            tx, ty = type(x), type(y)
            if tx is ty and (x is y or val_eq(x, y)):
                ok = True
            elif ty is TStr and is_strv(x):
                ok = True
            elif ty is TNum and is_num(x):
                l, h = iv1(x)
                isint = type(x) is int or type(x) is LenV or (
                    type(x) in (TNum, Num) and x.isint)
                ok = y.lo <= l and h <= y.hi and (isint or not y.isint)
            elif tx is DT and ty is DT:
                ok = ((y.date == x.date or y.date.base == ("any",)
                       or (y.date.base == x.date.base and type(y.date.off) is TNum
                           and leq(x.date.off, y.date.off, iv1, iv2)))
                      and leq(x.hour, y.hour, iv1, iv2)
                      and leq(x.minute, y.minute, iv1, iv2)
                      and leq(x.second, y.second, iv1, iv2))
            elif tx is TD and ty is TD:
                ok = type(y.minutes) is TNum and y.minutes.lo == -INF
            elif tx is Tup and ty is Tup and len(x.items) == len(y.items):
                ok = all(leq(p, q, iv1, iv2) for p, q in zip(x.items, y.items))
            if ok:
                break
        if not ok:
            return False
    return True


def join_val(a, b, S1, S2, widen=False):
    """Join; returns a itself when b adds nothing."""
    if a is b:
        return a
    if leq(b, a, S2.num_iv, S1.num_iv):
        return a

    def iv(v):
        l1, h1 = S1.num_iv(v)
        l2, h2 = S2.num_iv(v)
        return min(l1, l2), max(h1, h2)
    alts = join_alts(_flat([a, b]), iv)
    if widen:
        new = []
        for x in alts:
            if type(x) is DT and type(x.date.off) is TNum:
                lo0 = min([S1.num_iv(y.date.off)[0] for y in _flat([a]) if type(y) is DT]
                          or [-INF])
                o = x.date.off
                x = DT(ADate(x.date.base, TNum(o.lo if o.lo >= lo0 else -INF, INF, True,
                                               fresh_id())), x.hour, x.minute, x.second)
            if type(x) is TNum and is_num_any(a):
                l0, h0 = hull_any(a, S1)
                lo = x.lo if x.lo >= l0 else (0 if x.lo >= 0 else -INF)
                hi = x.hi if x.hi <= h0 else INF
                x = TNum(lo, hi, x.isint, fresh_id())
            new.append(x)
        ints = [x for x in new if type(x) is int]
        if len(ints) > 1:
            new = [x for x in new if type(x) is not int]
            new.append(TNum(min(ints) if min(ints) >= 0 else -INF, INF, True, fresh_id()))
        alts = new
    return mk_union(alts)


def is_num_any(a):
    return any(is_num(x) for x in (a.alts if type(a) is Union else (a,)))


def hull_any(a, S):
    ivs = [S.num_iv(x) for x in (a.alts if type(a) is Union else (a,)) if is_num(x)]
    return min(i[0] for i in ivs), max(i[1] for i in ivs)


def join_obj(o1, o2, S1, S2, widen):
    if o1 is o2:
        return o1
    if o1.kind != o2.kind or (o1.kind == "inst" and o1.cls != o2.cls):
        raise Undecided("join of different objects %s %s/%s %s" % (o1.kind, o1.cls, o2.kind, o2.cls))
    k = o1.kind
    jv = lambda a, b: join_val(a, b, S1, S2, widen)
    if k in DICTKINDS or k == "exc":
        d = {}
        ch = False
        for n in o1.d:
            if n in o2.d:
                v = jv(o1.d[n], o2.d[n])
            else:
                v = jv(o1.d[n], UNB)
            d[n] = v
            ch = ch or v is not o1.d[n]
        for n in o2.d:
            if n not in o1.d:
                d[n] = jv(UNB, o2.d[n])
                ch = True
        if not ch and o1.weak == (o1.weak or o2.weak):
            return o1
        return Obj(k, o1.cls, d, o1.weak or o2.weak)
    if k == "list":
        d = join_list(o1.d, o2.d, jv, widen)
    elif k == "dict":
        d = join_dict(o1.d, o2.d, jv)
    elif k == "set":
        a, b = o1.d, o2.d
        if a == b:
            d = a
        else:
            el = a.rest
            for x in a.items + b.items + ((b.rest,) if b.rest is not None else ()):
                el = x if el is None else jv(el, x)
            d = SetD((), el, a.frozen)
            if a.rest is not None and not a.items and val_eq(a.rest, el):
                d = a
    elif k == "iter":
        a, b = o1.d, o2.d
        if a == b:
            d = a
        else:
            el, lo, hi = None, 0, 0
            for z in (a, b):
                r = z.items[z.pos:]
                for x in r:
                    el = x if el is None else jv(el, x)
                h = len(r)
                if z.rest is not None:
                    el = z.rest[0] if el is None else jv(el, z.rest[0])
                    h += z.rest[2]
                hi = max(hi, h)
            d = IterD((), 0, (el, 0, INF if widen else hi), None)
            if a.rest is not None and not a.items and val_eq(a.rest[0], el) and (
                    a.rest[1] <= 0 and a.rest[2] >= hi):
                d = a
    elif k == "match":
        a, b = o1.d, o2.d
        if a == b:
            d = a
        elif a.pat == b.pat and a.words is not None and b.words is not None:
            w = tuple(sorted(set(a.words) | set(b.words)))
            if w == a.words and val_eq(a.subj, b.subj):
                d = a
            else:
                d = MatchD(a.pat, jv(a.subj, b.subj), None, None, w, a.sym, a.mode)
        else:
            raise Undecided("join of two concrete matches %r %r" % (a, b))
    elif k == "gen":
        if o1.d == o2.d:
            d = o1.d
        else:
            raise Undecided("join of generators")
    else:
        raise Undecided("join of %s" % k)
    if d is o1.d and (o1.weak or not o2.weak):
        return o1
    return Obj(k, o1.cls, d, o1.weak or o2.weak)


def join_list(a, b, jv, widen):
    if a == b:
        return a
    if a.exact and b.exact and len(a.tail) == len(b.tail):
        t = tuple(jv(x, y) for x, y in zip(a.tail, b.tail))
        if all(x is y for x, y in zip(t, a.tail)):
            return a
        return ListD(t)
    el = None
    for z in (a, b):
        if z.pre is not None:
            el = z.pre if el is None else jv(el, z.pre)
    if not a.exact and not b.exact and len(a.tail) == len(b.tail):
        t = tuple(jv(x, y) for x, y in zip(a.tail, b.tail))
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    else:
        for z in (a, b):
            for x in z.tail:
                el = x if el is None else jv(el, x)
        t = ()
        lo = min(a.lo + len(a.tail), b.lo + len(b.tail))
        hi = max(a.hi + len(a.tail), b.hi + len(b.tail))
    ahi = a.hi + len(a.tail) - len(t)
    alo = a.lo + len(a.tail) - len(t)
    if widen:
        if hi > ahi:
            hi = INF
        if lo < alo:
            lo = 0
    if el is None:
        # both empty prefixes of different length cannot happen
        el = UNB
    if (a.pre is not None and len(t) == len(a.tail) and el is a.pre and lo == a.lo
            and hi == a.hi and all(x is y for x, y in zip(t, a.tail))):
        return a
    return ListD(t, el, lo, hi)


def join_dict(a, b, jv):
    if a == b:
        return a
    bd = {k: (v, df) for k, v, df in b.items}
    items = []
    ch = False
    for k, v, df in a.items:
        if k in bd:
            v2, df2 = bd.pop(k)
            nv = jv(v, v2)
            nd = df and df2
        else:
            nv, nd = v, False
        ch = ch or nv is not v or nd != df
        items.append((k, nv, nd))
    for k, v, df in b.items:
        if k in bd:
            items.append((k, v, False))
            ch = True
    rest = a.rest
    if b.rest is not None:
        if rest is None:
            rest = b.rest
            ch = True
        else:
            r0, r1 = jv(rest[0], b.rest[0]), jv(rest[1], b.rest[1])
            if r0 is not rest[0] or r1 is not rest[1]:
                rest = (r0, r1)
                ch = True
    if len(items) > 64:
        pass
    if not ch:
        return a
    return DictD(tuple(items), rest)


def join_boxes(x, y):
    if x == y:
        return x
    out = list(x)
    for b in y:
        if b not in out and not any(box_leq(b, c) for c in out):
            out.append(b)
    if len(out) == len(x):
        return x
    if len(out) > 400:
        by = {}
        for b in out:
            k = tuple(type(e) is tuple for e in b)
            if k in by:
                by[k] = tuple(e | f if isinstance(e, int) else ("*", e[1] | f[1], min(e[2], f[2]))
                              for e, f in zip(by[k], b))
            else:
                by[k] = b
        out = list(by.values())
    return tuple(out)


def box_leq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, int) != isinstance(y, int):
            return False
        if isinstance(x, int):
            if x & ~y:
                return False
        elif x[1] & ~y[1] or x[2] < y[2]:
            return False
    return True


def join_states(S1, S2, widen=False):
    """Returns (joined, changed) relative to S1."""
    out = State(S1.base)
    changed = False
    o = dict(S1.objs)
    for oid, ob in S2.objs.items():
        a = o.get(oid)
        if a is None:
            b = S1.base.get(oid)
            if b is None:
                o[oid] = ob
                changed = True
                continue
            a = b
        if a is ob:
            continue
        j = join_obj(a, ob, S1, S2, widen)
        if j is not a:
            changed = True
            o[oid] = j
    for oid, a in S1.objs.items():
        if oid not in S2.objs and oid in S1.base:
            j = join_obj(a, S1.base[oid], S1, S2, widen)
            if j is not a:
                changed = True
                o[oid] = j
    out.objs = o
    d = dict(S1.doms)
    for s, bx in S2.doms.items():
        if s in d:
            j = join_boxes(d[s], bx)
            if j is not d[s]:
                d[s] = j
                changed = True
        else:
            d[s] = bx
    out.doms = d
    for t, (lo, hi) in S1.nums.items():
        if t in S2.nums:
            l2, h2 = S2.nums[t]
            out.nums[t] = (min(lo, l2), max(hi, h2))
    for t, (lo, hi) in S1.atoms.items():
        if t in S2.atoms:
            l2, h2 = S2.atoms[t]
            lo, hi = min(lo, l2), max(hi, h2)
        out.atoms[t] = (lo, hi)
    for t, r in S2.atoms.items():
        if t not in out.atoms:
            out.atoms[t] = r
    for f, sg in S1.facts.items():
        if f in S2.facts:
            out.facts[f] = sg | S2.facts[f]
    for c, i in S1.picks.items():
        if S2.picks.get(c) == i:
            out.picks[c] = i
    return out, changed
