"""Containers: lists, dictionaries, sets, iteration."""
from .values import *
from .state import *
from .nums import *
from .strs import *

_dict_index = {}


def is_ref(I, v, kind):
    return type(v) is Ref and I.S.get(v.oid).kind == kind


def get_list(I, oid):
    return I.S.get(oid).d


# ---------------------------------------------------------------- generic rows
def fresh_elem(I, v):
    """An element read from a summary: new identity for its unknowns."""
    t = type(v)
    if t is GRow:
        return new_row(I, v)
    if t is TStr:
        return TStr(fresh_id())
    if t is Tup:
        return Tup(tuple(fresh_elem(I, x) for x in v.items), v.cls)
    return I.unsure(v)


def new_row(I, g):
    info = I.tables[g.oid]
    S = I.S
    n = 0
    while ("row", g.oid, n, 0) in S.doms:
        n += 1
    syms = []
    for c, dom in enumerate(info["doms"]):
        s = ("row", g.oid, n, c)
        S.doms[s] = dom
        syms.append(WVal(s))
    if info["kind"] == "tuple":
        return Tup(tuple(syms))
    return Ref(I.alloc("list", None, ListD(tuple(syms)), "row"))


def table_dom(words):
    return tuple(word_box(w) for w in dict.fromkeys(words))


def summarise_tables(I, limit=400):
    """Replace the rows of big constant tables by one generic row; the rows stay
    available as data in I.tables."""
    S = I.S
    for oid, ob in list(S.objs.items()):
        rows = None
        if ob.kind == "list" and ob.d.exact and len(ob.d.tail) > limit:
            rows = ob.d.tail
        if rows is None:
            continue
        data = []
        kind = None
        for r in rows:
            if type(r) is Ref and S.has(r.oid) and S.get(r.oid).kind == "list" and S.get(r.oid).d.exact:
                k, items = "list", S.get(r.oid).d.tail
            elif type(r) is Tup:
                k, items = "tuple", r.items
            else:
                k = None
            if k is None or (kind not in (None, k)) or not all(type(x) is str for x in items):
                kind = None
                break
            kind = k
            data.append(tuple(items))
        if kind is None or len({len(d) for d in data}) != 1:
            I.tables[oid] = {"rows": data, "doms": None, "kind": None, "oids": rows}
            continue
        doms = [table_dom([d[c] for d in data]) for c in range(len(data[0]))]
        I.tables[oid] = {"rows": data, "doms": doms, "kind": kind}
        S.own(oid).d = ListD((), GRow(oid), len(data), len(data))


# ---------------------------------------------------------------- len
def len_iv(I, v):
    if I.S.has(v.oid):
        d = I.S.get(v.oid).d
        if type(d) is ListD and v.d is not None and d.pre is v.d.pre and d.tail == v.d.tail:
            n = len(d.tail)
            if d.lo + n >= v.lo and d.hi + n <= v.hi:
                return d.lo + n, d.hi + n
    return v.lo, v.hi


def refine_len(I, v, lo, hi):
    if not I.S.has(v.oid):
        return
    o = I.S.get(v.oid)
    d = o.d
    l0, h0 = len_iv(I, v)
    nl, nh = max(l0, lo), min(h0, hi)
    if nl > nh:
        raise I.Infeasible()
    if o.weak or type(d) is not ListD:
        return
    if v.d is not None and d.pre is v.d.pre and d.tail == v.d.tail and d.pre is not None:
        n = len(d.tail)
        if nh - n <= 0:
            nd = ListD(d.tail)
        else:
            nd = ListD(d.tail, d.pre, max(0, nl - n), nh - n)
        I.S.own(v.oid).d = nd


def list_len(I, oid):
    o = I.S.get(oid)
    d = o.d
    if o.weak:
        if d.exact:
            return len(d.tail)
        return TNum(d.lo + len(d.tail), d.hi + len(d.tail), True, fresh_id())
    if d.exact:
        return len(d.tail)
    if d.lo == d.hi:
        return d.lo + len(d.tail)
    return LenV(oid, d.lo + len(d.tail), d.hi + len(d.tail), d)


# ---------------------------------------------------------------- list methods
def list_append(I, oid, v):
    o = I.S.get(oid)
    d = o.d
    if o.weak:
        el = v if d.pre is None else join_val(d.pre, v, I.S, I.S)
        for x in d.tail:
            el = join_val(el, x, I.S, I.S)
        I.note_write(oid)
        I.S.own(oid).d = ListD((), el, 0, INF)
        return
    I.note_write(oid)
    I.S.own(oid).d = ListD(d.tail + (v,), d.pre, d.lo, d.hi)


def all_elems(d):
    return d.tail + (() if d.pre is None else (d.pre,))


def join_many(I, vals):
    out = None
    for v in vals:
        out = v if out is None else join_val(out, v, I.S, I.S)
    return out


def as_abstract(I, d):
    el = join_many(I, all_elems(d))
    n = len(d.tail)
    return ListD((), el, d.lo + n, d.hi + n)


def list_extend(I, oid, v):
    items = to_items_or_none(I, v)
    if items is not None:
        for x in items:
            list_append(I, oid, x)
        return
    el, lo, hi = abstract_seq(I, v)
    d = get_list(I, oid)
    a = as_abstract(I, d) if (d.tail or d.pre is not None) else ListD((), el, 0, 0)
    el2 = el if a.pre is None else join_val(a.pre, el, I.S, I.S)
    I.setd(oid, ListD((), el2, a.lo + lo, a.hi + hi))


def list_pop(I, ref, args):
    oid = ref.oid
    d = get_list(I, oid)
    i = I.rv(args[0]) if args else -1
    i = simp(I.S, i) if type(i) in (Num, TNum) else i
    if d.exact:
        n = len(d.tail)
        if n == 0:
            I.throw(IndexError, "pop from empty list")
        if type(i) is not int:
            if is_num(i):
                raise Undecided("pop of unknown index")
            I.throw(TypeError, "integer index expected")
        if not -n <= i < n:
            I.throw(IndexError, "pop index out of range")
        x = d.tail[i]
        t = list(d.tail)
        del t[i]
        I.setd(oid, ListD(tuple(t)))
        return x
    if i == -1 and d.tail:
        x = d.tail[-1]
        I.setd(oid, ListD(d.tail[:-1], d.pre, d.lo, d.hi))
        return x
    if d.lo + len(d.tail) == 0:
        if I.choose(2):
            I.throw(IndexError, "pop from empty list")
    a = as_abstract(I, d)
    if i == 0 and not d.tail:
        a = d
    x = fresh_elem(I, a.pre)
    lo, hi = max(0, a.lo - 1), a.hi - 1
    I.setd(oid, ListD((), a.pre, lo, hi) if hi > 0 else ListD())
    return x


def list_remove(I, ref, x):
    oid = ref.oid
    d = get_list(I, oid)
    if d.exact:
        for i, y in enumerate(d.tail):
            if I.truth(py_eq(I, x, y)):
                t = list(d.tail)
                del t[i]
                I.setd(oid, ListD(tuple(t)))
                return None
        I.throw(ValueError, "list.remove(x): x not in list")
    for i in range(len(d.tail) - 1, -1, -1):
        y = d.tail[i]
        if same_value(x, y):
            t = list(d.tail)
            del t[i]
            I.setd(oid, ListD(tuple(t), d.pre, d.lo, d.hi))
            return None
    if I.choose(2):
        I.throw(ValueError, "list.remove(x): x not in list")
    a = as_abstract(I, d)
    lo, hi = max(0, a.lo - 1), a.hi - 1
    if hi < 0:
        raise I.Infeasible()
    I.setd(oid, ListD((), a.pre, lo, hi) if hi > 0 else ListD())
    return None


def same_value(x, y):
    """Certainly the same value."""
    if type(x) is not type(y):
        return False
    if type(x) is TStr:
        return x.tag != "" and x.tag == y.tag
    if type(x) in (str, int, float, WVal, AStr, Ref):
        return x == y
    return False


def list_index(I, ref, x):
    d = get_list(I, ref.oid)
    if d.exact:
        for i, y in enumerate(d.tail):
            if I.truth(py_eq(I, x, y)):
                return i
        I.throw(ValueError, "x not in list")
    if I.choose(2):
        I.throw(ValueError, "x not in list")
    return TNum(0, d.hi + len(d.tail), True, fresh_id())


def list_insert(I, ref, i, x):
    d = get_list(I, ref.oid)
    i = I.rv(i)
    if d.exact and type(i) is int:
        t = list(d.tail)
        t.insert(i, x)
        I.setd(ref.oid, ListD(tuple(t)))
    else:
        a = as_abstract(I, d)
        I.setd(ref.oid, ListD((), join_val(a.pre, x, I.S, I.S), a.lo + 1, a.hi + 1))


def list_get(I, ref, i):
    d = get_list(I, ref.oid)
    if d.exact:
        return seq_get(I, d.tail, i, "list")
    i = simp(I.S, i) if type(i) in (Num, TNum) else i
    n = len(d.tail)
    if type(i) is int and i < 0 and -i <= n:
        return d.tail[i]
    if type(i) is int:
        need = i + 1 if i >= 0 else -i
        if need > d.hi + n:
            I.throw(IndexError, "list index out of range")
        if need > d.lo + n:
            if I.choose(2):
                I.throw(IndexError, "list index out of range")
            if not I.S.get(ref.oid).weak:
                lo = need - n
                if lo > d.hi:
                    raise I.Infeasible()
                if lo > d.lo:
                    I.S.own(ref.oid).d = ListD(d.tail, d.pre, lo, d.hi)
    elif is_num(i):
        lo, hi = num_iv(I, i)
        if not (lo >= 0 and hi < d.lo + n):
            if I.choose(2):
                I.throw(IndexError, "list index out of range")
    else:
        I.throw(TypeError, "list indices must be integers or slices, not %s" % type_name(I, i))
    return fresh_elem(I, join_many(I, all_elems(d)))


def seq_get(I, items, i, what):
    i = I.force(i)
    if type(i) in (Num, TNum, LenV):
        i = simp(I.S, i)
    if type(i) is bool:
        i = int(i)
    n = len(items)
    if type(i) is int:
        if not -n <= i < n:
            I.throw(IndexError, "%s index out of range" % what)
        return items[i]
    if type(i) in (Num, TNum, LenV):
        lo, hi = num_iv(I, i)
        for k in range(n):
            if lo <= k <= hi and num_compare(I, "Eq", i, k):
                return items[k]
        for k in range(-n, 0):
            if lo <= k <= hi and num_compare(I, "Eq", i, k):
                return items[k]
        I.throw(IndexError, "%s index out of range" % what)
    I.throw(TypeError, "%s indices must be integers or slices, not %s" % (what, type_name(I, i)))


def slice_seq(I, items, sl):
    lo, hi, st = [simp(I.S, x) if type(x) in (Num, TNum) else x for x in sl.args]
    if all(x is None or type(x) is int for x in (lo, hi, st)):
        return items[lo:hi:st]
    return None


def list_slice(I, ref, sl):
    d = get_list(I, ref.oid)
    if d.exact:
        r = slice_seq(I, d.tail, sl)
        if r is not None:
            return I.new_list(r)
        if not d.tail:
            return I.new_list(())
        return Ref(I.alloc("list", None, ListD((), join_many(I, d.tail), 0, len(d.tail)), "sl"))
    lo, hi, st = sl.args
    a = as_abstract(I, d)
    if lo in (None, 0) and hi is None and st in (None, 1, -1):
        if st != -1:
            return Ref(I.alloc("list", None, d, "sl"))
        return Ref(I.alloc("list", None, a, "sl"))
    l2, h2 = 0, a.hi
    if type(hi) is int and hi >= 0:
        h2 = min(h2, hi)
        if lo in (None, 0):
            l2 = min(a.lo, hi)
    if lo is not None and type(lo) is int and lo >= 0 and hi is None:
        l2, h2 = max(0, a.lo - lo), max(0, a.hi - lo)
    if h2 <= 0:
        return I.new_list(())
    return Ref(I.alloc("list", None, ListD((), a.pre, l2, h2), "sl"))


# ---------------------------------------------------------------- equality
def py_eq(I, a, b):
    """a == b as True/False (splitting) or a value for user-defined __eq__."""
    a, b = I.rv(a), I.rv(b)
    ta, tb = type(a), type(b)
    if ta is Fn or tb is Fn:
        a, b = I.force(a), I.force(b)
        ta, tb = type(a), type(b)
    if is_str(a) and is_str(b):
        return eq_str(I, a, b)
    na = is_num(a) or ta is bool
    nb = is_num(b) or tb is bool
    if na and nb:
        return num_compare(I, "Eq", int(a) if ta is bool else a, int(b) if tb is bool else b)
    if ta is Ref:
        o = I.S.get(a.oid)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__eq__")
            if m is not None:
                r = I.rv(I.call(I.bind(m, a, o.cls), (b,), {}))
                if r is not NOTIMPL:
                    return r
    if tb is Ref and ta is not Ref:
        o = I.S.get(b.oid)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__eq__")
            if m is not None:
                r = I.rv(I.call(I.bind(m, b, o.cls), (a,), {}))
                if r is not NOTIMPL:
                    return r
    if a is None or b is None:
        return a is b
    if na or nb or is_str(a) or is_str(b):
        return False
    if ta is Tup and tb is Tup:
        if len(a.items) != len(b.items):
            return False
        for x, y in zip(a.items, b.items):
            if not I.truth(py_eq(I, x, y)):
                return False
        return True
    if ta is Ref and tb is Ref:
        if a.oid == b.oid and not I.S.get(a.oid).weak:
            return True
        oa, ob = I.S.get(a.oid), I.S.get(b.oid)
        if oa.kind != ob.kind:
            return False
        if oa.kind == "list":
            da, db = oa.d, ob.d
            if da.exact and db.exact:
                if len(da.tail) != len(db.tail):
                    return False
                for x, y in zip(da.tail, db.tail):
                    if not I.truth(py_eq(I, x, y)):
                        return False
                return True
            if da.exact and not da.tail or db.exact and not db.tail:
                z = db if da.exact else da
                ref = b if da.exact else a
                if z.lo + len(z.tail) > 0:
                    return False
                return num_compare(I, "Eq", list_len(I, ref.oid), 0)
            return I.choose(2) == 0
        if oa.kind == "dict":
            da, db = oa.d, ob.d
            if da.rest is None and db.rest is None and all(x[2] for x in da.items + db.items):
                if len(da.items) != len(db.items):
                    return False
                for k, v, _ in da.items:
                    f, w = dict_lookup(I, b.oid, k)
                    if not f or not I.truth(py_eq(I, v, w)):
                        return False
                return True
            return I.choose(2) == 0
        if oa.kind == "set":
            return set_rel(I, oa.d, ob.d)
        return False
    if ta is DT and tb is DT:
        return I.lib.dt_compare(I, "Eq", a, b)
    if ta is TD and tb is TD:
        return num_compare(I, "Eq", a.minutes, b.minutes)
    if ta is ADate and tb is ADate:
        return I.lib.date_compare(I, "Eq", a, b)
    if ta is tb and ta in (ExcT, Pat, BoundM, ClassV, BType, Func, ModV, Opaque):
        return a == b
    return False


def set_rel(I, a, b):
    if a.rest is None and b.rest is None:
        return len(a.items) == len(b.items) and all(
            any(I.truth(py_eq(I, x, y)) for y in b.items) for x in a.items)
    return I.choose(2) == 0


# ---------------------------------------------------------------- dictionaries
def hashable(I, k):
    if type(k) is Ref and I.S.get(k.oid).kind in ("list", "dict", "set") and not (
            I.S.get(k.oid).kind == "set" and I.S.get(k.oid).d.frozen):
        I.throw(TypeError, "unhashable type: %r" % I.S.get(k.oid).kind)


def dict_index(d):
    k = id(d.items)
    r = _dict_index.get(k)
    if r is None or r[0] is not d.items:
        idx = {}
        other = []
        for i, (kk, v, df) in enumerate(d.items):
            if type(kk) in (str, int, float, bool) or kk is None:
                idx[(type(kk) is str, kk)] = i
            else:
                other.append(i)
        r = _dict_index[k] = (d.items, idx, other)
        if len(_dict_index) > 4000:
            _dict_index.clear()
    return r[1], r[2]


def dict_lookup(I, oid, k):
    """(found, value); splits on undecided keys."""
    k = I.rv(k)
    if type(k) is Fn:
        k = I.force(k)
    hashable(I, k)
    o = I.S.get(oid)
    d = o.d
    if is_str(k):
        k = sn(I, k)
        if type(k) is AStr:
            k = whole_symbol(I, k)
    elif type(k) in (Num, TNum):
        k = simp(I.S, k)
    idx, other = dict_index(d)
    const = type(k) in (str, int, float, bool) or k is None
    if const:
        if type(k) is float and k == int(k) if type(k) is float and abs(k) < 1e15 else False:
            k2 = int(k)
        else:
            k2 = k
        i = idx.get((type(k) is str, k2))
        if i is not None:
            return present(I, oid, i)
        cand = other
    elif type(k) is WVal and not other and d.rest is None:
        r = table_lookup(I, oid, k, d, idx)
        if r is not None:
            return r
        cand = range(len(d.items))
    elif type(k) is TStr and not other:
        return unknown_lookup(I, oid, k, d)
    else:
        cand = range(len(d.items))
    for i in cand:
        if not compatible(I, k, d.items[i][0]):
            continue
        if I.truth(py_eq(I, k, d.items[i][0])):
            return present(I, oid, i)
    if d.rest is not None:
        if compatible(I, k, d.rest[0]) and I.choose(2) == 0:
            return True, fresh_elem(I, d.rest[1])
    return False, None


def whole_symbol(I, v):
    """The symbol a text spells from its first character to its last, or the text."""
    c = v.cells[0] if v.cells else None
    if type(c) is not SC or c.i != 0:
        return v
    for i, x in enumerate(v.cells):
        if type(x) is not SC or x.sym != c.sym or x.i != i:
            return v
    return WVal(c.sym) if all(len(b) == len(v.cells) for b in I.S.doms[c.sym]) else v


def compatible(I, a, b):
    if is_str(a) or is_str(b):
        return (is_str(a) or type(a) is Union) and (is_str(b) or type(b) is Union)
    return True


def present(I, oid, i):
    o = I.S.get(oid)
    k, v, df = o.d.items[i]
    if not df:
        if o.weak:
            if I.choose(2):
                return False, None
            return True, v
        if I.choose(2):
            I.S.own(oid).d = DictD(o.d.items[:i] + o.d.items[i + 1:], o.d.rest)
            return False, None
        I.S.own(oid).d = DictD(o.d.items[:i] + ((k, v, True),) + o.d.items[i + 1:], o.d.rest)
    return True, v


def table_lookup(I, oid, k, d, idx):
    S = I.S
    words = dom_words(S.doms[k.sym])
    if words is None:
        return None
    if not all(x[2] for x in d.items):
        return None
    hit = [w for w in words if (True, w) in idx]
    miss = len(hit) < len(words)
    if not hit:
        return False, None
    if miss:
        r = I.choose(2) == 0
        if not r:
            hs = set(hit)
            S.doms[k.sym] = tuple(word_box(w) for w in words if w not in hs)
            return False, None
        S.doms[k.sym] = tuple(word_box(w) for w in hit)
    vals = {}
    const = True
    for w in hit:
        v = d.items[idx[(True, w)]][1]
        if type(v) not in (str, int, float, bool) and v is not None:
            const = False
        key = (type(v).__name__, v)
        vals.setdefault(key, (v, []))[1].append(w)
    if len(vals) == 1:
        return True, next(iter(vals.values()))[0]
    if const and I.mode != "join" and len(vals) > 3:
        return True, Fn(k.sym, tuple((w, d.items[idx[(True, w)]][1]) for w in hit))
    if I.mode == "join" and len(vals) > 3 and const:
        return True, mk_union(join_alts([v for v, _ in vals.values()], S.num_iv))
    vl = list(vals.values())
    i = I.choose(len(vl))
    S.doms[k.sym] = tuple(word_box(w) for w in vl[i][1])
    return True, vl[i][0]


def unknown_lookup(I, oid, k, d):
    S = I.S
    if k.tag != "":
        kn = S.picks.get(("is", k.tag))
        if kn is not None:
            return dict_lookup(I, oid, kn)
    vals = [v for kk, v, _ in d.items if is_str(kk) or type(kk) is Union]
    if d.rest is not None:
        vals.append(d.rest[1])
    if not vals:
        return False, None
    key = ("in", k.tag, oid) if k.tag != "" else None
    r = remember(I, key) if key else I.choose(2) == 0
    if not r:
        return False, None
    v = mk_union(join_alts(flat(vals), S.num_iv))
    return True, I.unsure(v)


def flat(vs):
    out = []
    for v in vs:
        if type(v) is Union:
            out += v.alts
        else:
            out.append(v)
    return out


def dict_set(I, oid, k, v):
    k = I.rv(k)
    if type(k) is Fn:
        k = I.force(k)
    hashable(I, k)
    if is_str(k):
        k = sn(I, k)
    o = I.S.get(oid)
    d = o.d
    I.note_write(oid)
    const = type(k) in (str, int, float, bool) or k is None
    if const:
        idx, other = dict_index(d)
        i = idx.get((type(k) is str, k))
        if i is not None:
            if o.weak:
                v = join_val(d.items[i][1], v, I.S, I.S)
            I.S.own(oid).d = DictD(d.items[:i] + ((d.items[i][0], v, d.items[i][2] or not o.weak),)
                                   + d.items[i + 1:], d.rest)
            return
        if not other:
            I.S.own(oid).d = DictD(d.items + ((k, v, not o.weak),), d.rest)
            return
        cand = other
    else:
        cand = range(len(d.items))
    if I.mode == "join" and not const:
        # weak insertion under an unknown key
        r = d.rest
        r = (k, v) if r is None else (join_val(r[0], k, I.S, I.S), join_val(r[1], v, I.S, I.S))
        items = tuple((kk, join_val(vv, v, I.S, I.S) if compatible(I, k, kk) else vv, df)
                      for kk, vv, df in d.items)
        I.S.own(oid).d = DictD(items, r)
        return
    for i in cand:
        if compatible(I, k, d.items[i][0]) and I.truth(py_eq(I, k, d.items[i][0])):
            d = I.S.get(oid).d
            I.S.own(oid).d = DictD(d.items[:i] + ((d.items[i][0], v, True),) + d.items[i + 1:],
                                   d.rest)
            return
    d = I.S.get(oid).d
    I.S.own(oid).d = DictD(d.items + ((k, v, True),), d.rest)


def dict_del(I, oid, k, default=UNB):
    f, v = dict_lookup(I, oid, k)
    if not f:
        if default is not UNB:
            return default
        I.throw(KeyError, "key")
    k = I.rv(k)
    o = I.S.get(oid)
    I.note_write(oid)
    kk = sn(I, k) if is_str(k) else k
    items = tuple(x for x in o.d.items if not (type(x[0]) is type(kk) and x[0] == kk))
    I.S.own(oid).d = DictD(items, o.d.rest)
    return v


def dict_exact_items(I, v):
    """[(key, value)] of an exact dictionary; decides possible entries."""
    oid = v.oid
    o = I.S.get(oid)
    if o.kind != "dict":
        raise Undecided("expected a dictionary")
    if o.d.rest is not None:
        raise Undecided("dictionary of unknown size at %s" % I.where())
    out = []
    i = 0
    while i < len(I.S.get(oid).d.items):
        k, vv, df = I.S.get(oid).d.items[i]
        if not df:
            f, vv = present(I, oid, i)
            if not f:
                if I.S.get(oid).weak:
                    i += 1
                continue
        out.append((k, vv))
        i += 1
    return out


def dict_update(I, ref, v):
    v = I.rv(v)
    if type(v) is Ref and I.S.get(v.oid).kind == "dict":
        d = I.S.get(v.oid).d
        t = I.S.get(ref.oid).d
        if d.rest is None and all(x[2] for x in d.items):
            for k, vv, _ in d.items:
                dict_set(I, ref.oid, k, vv)
            return
        # possible entries: weak update
        for k, vv, df in d.items:
            if df:
                dict_set(I, ref.oid, k, vv)
            else:
                t = I.S.get(ref.oid).d
                idx, other = dict_index(t)
                i = idx.get((type(k) is str, k)) if type(k) in (str, int) else None
                I.note_write(ref.oid)
                if i is None:
                    I.S.own(ref.oid).d = DictD(t.items + ((k, vv, False),), t.rest)
                else:
                    kk, ov, odf = t.items[i]
                    I.S.own(ref.oid).d = DictD(
                        t.items[:i] + ((kk, join_val(ov, vv, I.S, I.S), odf),) + t.items[i + 1:], t.rest)
        if d.rest is not None:
            t = I.S.get(ref.oid).d
            r = d.rest if t.rest is None else (join_val(t.rest[0], d.rest[0], I.S, I.S),
                                               join_val(t.rest[1], d.rest[1], I.S, I.S))
            items = tuple((kk, join_val(vv, d.rest[1], I.S, I.S) if compatible(I, d.rest[0], kk) else vv, df)
                          for kk, vv, df in t.items)
            I.note_write(ref.oid)
            I.S.own(ref.oid).d = DictD(items, r)
        return
    for p in to_items(I, v):
        kv = to_items(I, p, want=2)
        if len(kv) != 2:
            I.throw(ValueError, "dictionary update sequence element has wrong length")
        dict_set(I, ref.oid, kv[0], kv[1])


def dict_len(I, oid):
    d = I.S.get(oid).d
    n = sum(1 for x in d.items if x[2])
    if d.rest is None and n == len(d.items):
        return n
    if d.rest is None and I.mode != "join":
        return len(dict_exact_items(I, Ref(oid)))
    hi = INF if d.rest is not None else len(d.items)
    return TNum(n if n or not d.items else 0, hi, True, fresh_id())


# ---------------------------------------------------------------- sets
def set_add(I, oid, v):
    hashable(I, I.rv(v))
    o = I.S.get(oid)
    d = o.d
    v = I.rv(v)
    if d.rest is not None or o.weak or I.mode == "join" and type(v) in (TStr, WVal, AStr):
        if any(val_eq(v, x) for x in d.items):
            return
        r = v if d.rest is None else join_val(d.rest, v, I.S, I.S)
        I.setd(oid, SetD(d.items, r, d.frozen))
        return
    for x in d.items:
        if compatible(I, v, x) and I.truth(py_eq(I, v, x)):
            return
    d = I.S.get(oid).d
    I.setd(oid, SetD(d.items + (v,), d.rest, d.frozen))


def set_contains(I, oid, v):
    d = I.S.get(oid).d
    v = I.rv(v)
    if type(v) is Fn:
        v = I.force(v)
    hashable(I, v)
    return in_items(I, v, d.items, d.rest, oid)


def in_items(I, v, items, rest, oid=None):
    v = I.force(v)
    if type(v) is WVal and rest is None and all(type(x) in (str, int, float) or x is None for x in items):
        S = I.S
        ws = [x for x in items if type(x) is str]
        yes, no = [], list(S.doms[v.sym])
        ok = True
        for w in dict.fromkeys(ws):
            new = []
            hit = False
            for b in no:
                if any(type(e) is tuple for e in b) and word_in_box(w, b):
                    ok = False
                    break
                if word_in_box(w, b):
                    hit = True
                    new += sub_word(b, w)
                else:
                    new.append(b)
            if not ok:
                break
            no = new
            if hit:
                yes.append(word_box(w))
        if ok:
            if not yes:
                return False
            if not no:
                return True
            r = I.choose(2) == 0
            S.doms[v.sym] = tuple(yes if r else dict.fromkeys(no))
            return r
    if type(v) is TStr and v.tag != "" and all(type(x) is str for x in items) and rest is None:
        kn = I.S.picks.get(("is", v.tag))
        if kn is not None:
            return kn in items
        return remember(I, ("inset", v.tag, tuple(sorted(items))))
    for x in items:
        if compatible(I, v, I.rv(x)) and I.truth(py_eq(I, v, x)):
            return True
    if rest is not None:
        return I.choose(2) == 0
    return False


# ---------------------------------------------------------------- iteration
def collect(I, v, node=None):
    """All values of an iterable, gathered into a fresh list object."""
    r = Ref(I.alloc("list", None, ListD(), "collect"))
    I.pins.append(r)
    try:
        def cb(x):
            list_append(I, r.oid, x)
            return None
        iterate(I, v, cb, node)
    finally:
        I.pins.pop()
    return r


def to_items_or_none(I, v):
    """The exact items of an iterable, or None when only a summary is known."""
    v = I.rv(v)
    t = type(v)
    if t is Tup:
        return list(v.items)
    if t is Fn:
        v = I.force(v)
        t = type(v)
    if is_str(v):
        v = sn(I, v)
        if type(v) is TStr:
            return None
        cs = cells(I, v)
        if any(type(c) in (FN, BL, SV) for c in cs):
            return None
        return [mk_str([c]) for c in cs]
    if t is Ref:
        o = I.S.get(v.oid)
        if o.kind == "list":
            return list(o.d.tail) if o.d.exact else None
        if o.kind == "dict":
            if o.d.rest is not None:
                return None
            if I.mode == "join" and not all(x[2] for x in o.d.items):
                return None
            return [k for k, _ in dict_exact_items(I, v)]
        if o.kind == "set":
            if o.d.rest is not None:
                return None
            return list(reversed(o.d.items) if I.set_reverse else o.d.items)
        if o.kind == "iter":
            d = o.d
            if d.src is not None:
                l = I.S.get(d.src).d
                if not l.exact:
                    return None
                its = list(l.tail[d.pos:])
            elif d.rest is None:
                its = list(d.items[d.pos:])
            else:
                return None
            I.S.own(v.oid).d = IterD((), 0, None, None)
            return its
        if o.kind == "gen" or o.kind == "inst":
            r = collect(I, v)
            d = I.S.get(r.oid).d
            return list(d.tail) if d.exact else None
        if o.kind == "match":
            I.throw(TypeError, "'re.Match' object is not iterable")
    if t is It:
        return it_items(I, v)
    if t is ClassV and v.meta.get("enum"):
        return list(v.meta["enum"])
    if v is None or t in (int, float, bool, Num, TNum, DT, TD, Func, Builtin, ClassV):
        I.throw(TypeError, "'%s' object is not iterable" % type_name(I, v))
    raise Undecided("iteration over %r at %s" % (v, I.where()))


def it_items(I, v):
    k, a = v.kind, v.args
    if k == "range":
        lo, hi, st = [simp(I.S, x) if type(x) in (Num, TNum) else x for x in a]
        if type(hi) is LenV:
            l, h = len_iv(I, hi)
            if l == h:
                hi = l
        if all(type(x) is int for x in (lo, hi, st)):
            if st == 0:
                I.throw(ValueError, "range() arg 3 must not be zero")
            if len(range(lo, hi, st)) > 20000:
                raise Undecided("long range")
            return list(range(lo, hi, st))
        return None
    if k in ("keys", "values", "items"):
        d = I.S.get(a[0].oid).d
        if d.rest is not None:
            return None
        if I.mode == "join" and not all(x[2] for x in d.items):
            return None
        its = dict_exact_items(I, a[0])
        if k == "keys":
            return [x for x, _ in its]
        if k == "values":
            return [x for _, x in its]
        return [Tup((x, y)) for x, y in its]
    if k == "enumerate":
        its = to_items_or_none(I, a[0])
        if its is None or type(a[1]) is not int:
            return None
        return [Tup((i + a[1], x)) for i, x in enumerate(its)]
    if k == "zip":
        ls = [to_items_or_none(I, x) for x in a]
        if any(l is None for l in ls):
            return None
        return [Tup(t) for t in zip(*ls)]
    if k == "reversed":
        its = to_items_or_none(I, a[0])
        return None if its is None else its[::-1]
    if k == "map":
        ls = [to_items_or_none(I, x) for x in a[1:]]
        if any(l is None for l in ls):
            return None
        return [I.call(a[0], t, {}) for t in zip(*ls)]
    if k == "filter":
        its = to_items_or_none(I, a[1])
        if its is None:
            return None
        out = []
        for x in its:
            if a[0] is None:
                if I.truth(x):
                    out.append(x)
            elif I.truth(I.call(a[0], (x,), {})):
                out.append(x)
        return out
    if k == "chain":
        out = []
        for x in a:
            its = to_items_or_none(I, x)
            if its is None:
                return None
            out += its
        return out
    if k == "seq":
        return list(a)
    if k == "list":
        return to_items_or_none(I, a[0])
    raise Undecided("iteration over %s" % k)


def abstract_seq(I, v):
    """(element, lo, hi) of an iterable whose length is not known."""
    v = I.rv(v)
    t = type(v)
    if is_str(v):
        return TStr(), 0, INF
    if t is Tup:
        if not v.items:
            return UNB, 0, 0
        return join_many(I, v.items), len(v.items), len(v.items)
    if t is Ref:
        o = I.S.get(v.oid)
        if o.kind == "list":
            d = as_abstract(I, o.d)
            return d.pre, d.lo, d.hi
        if o.kind == "dict":
            ks = [x[0] for x in o.d.items] + ([o.d.rest[0]] if o.d.rest else [])
            n = sum(1 for x in o.d.items if x[2])
            return join_many(I, ks), n, INF if o.d.rest else len(o.d.items)
        if o.kind == "set":
            ks = list(o.d.items) + ([o.d.rest] if o.d.rest is not None else [])
            return join_many(I, ks), 1 if o.d.items else 0, INF if o.d.rest is not None else len(o.d.items)
        if o.kind == "iter":
            d = o.d
            if d.src is not None:
                l = as_abstract(I, I.S.get(d.src).d)
                return l.pre, max(0, l.lo - d.pos), l.hi
            if d.rest is not None:
                el = join_many(I, d.items[d.pos:] + (d.rest[0],))
                return el, d.rest[1], d.rest[2] + len(d.items) - d.pos
            return join_many(I, d.items[d.pos:]), len(d.items) - d.pos, len(d.items) - d.pos
        if o.kind in ("gen", "inst"):
            r = collect(I, v)
            return abstract_seq(I, r)
    if t is It:
        k, a = v.kind, v.args
        if k == "range":
            lo, hi, st = a
            l1, h1 = num_iv(I, lo)
            l2, h2 = num_iv(I, hi)
            if type(st) is int and st > 0:
                n = INF if h2 == INF else max(0, -(-(h2 - l1) // st))
                return TNum(l1, h2 - 1, True, fresh_id()), 0, n
            return TNum(l2 + 1, h1, True, fresh_id()), 0, INF
        if k in ("keys", "values", "items"):
            d = I.S.get(a[0].oid).d
            els = []
            for kk, vv, _ in d.items:
                els.append(kk if k == "keys" else vv if k == "values" else Tup((kk, vv)))
            if d.rest:
                kk, vv = d.rest
                els.append(kk if k == "keys" else vv if k == "values" else Tup((kk, vv)))
            n = sum(1 for x in d.items if x[2])
            return join_many(I, els), n, INF if d.rest else len(d.items)
        if k == "enumerate":
            el, lo, hi = abstract_seq(I, a[0])
            s = a[1] if type(a[1]) is int else 0
            return Tup((TNum(s, s + hi - 1, True, fresh_id()), el)), lo, hi
        if k == "zip":
            rs = [abstract_seq(I, x) for x in a]
            return (Tup(tuple(r[0] for r in rs)), min(r[1] for r in rs), min(r[2] for r in rs))
        if k in ("reversed", "list"):
            return abstract_seq(I, a[0])
        if k == "chain":
            rs = [abstract_seq(I, x) for x in a]
            rs = [r for r in rs if r[2] > 0]
            return join_many(I, [r[0] for r in rs]), sum(r[1] for r in rs), sum(r[2] for r in rs)
    raise Undecided("summary of %r" % (v,))


def to_items(I, v, want=None):
    its = to_items_or_none(I, v)
    if its is not None:
        return its
    el, lo, hi = abstract_seq(I, v)
    if want is not None:
        if not lo <= want <= hi:
            I.throw(ValueError, "wrong number of values to unpack")
        if lo != hi and I.choose(2):
            I.throw(ValueError, "wrong number of values to unpack")
        return [fresh_elem(I, el) for _ in range(want)]
    raise Undecided("items of a sequence of unknown length at %s" % I.where())


def iterate(I, it, cb, node=None):
    it = I.rv(it)
    t = type(it)
    if t is Ref:
        o = I.S.get(it.oid)
        if o.kind == "gen":
            return I.run_gen(it, cb)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__iter__")
            if m is None:
                g = I.class_attr(o.cls, "__getitem__")
                if g is None:
                    I.throw(TypeError, "%r object is not iterable" % o.cls.name)
                return iter_getitem(I, it, o.cls, g, cb, node)
            r = I.rv(I.call(I.bind(m, it, o.cls), (), {}))
            if type(r) is Ref and I.S.get(r.oid).kind == "inst":
                return iter_next(I, r, cb, node)
            return iterate(I, r, cb, node)
        if o.kind == "iter":
            return run_iter(I, it, cb, node)
    if t is It and it.kind in ("map", "filter", "enumerate", "zip"):
        src = it.args[1] if it.kind in ("map", "filter") else it.args[0]
        src = I.rv(src) if src is not None or it.kind != "filter" else src
        multi = it.kind == "map" and len(it.args) > 2 or it.kind == "zip"
        lazy = not multi and (it.kind in ("map", "filter") or (
            type(src) is Ref and I.S.get(src.oid).kind in ("gen", "inst")) or type(src) is It)
        if lazy and it.kind == "map":
            return iterate(I, src, lambda x: cb(I.call(it.args[0], (x,), {})), node)
        if lazy and it.kind == "filter":
            def fcb(x):
                x = I.rv(x)
                ok = I.truth(x) if it.args[0] is None else I.truth(I.call(it.args[0], (x,), {}))
                return cb(x) if ok else None
            return iterate(I, src, fcb, node)
        if lazy and it.kind == "enumerate":
            its = to_items_or_none(I, src)
            if its is None:
                el, lo, hi = abstract_seq(I, src)
                s = it.args[1] if type(it.args[1]) is int else 0
                return iter_abs(I, Tup((TNum(s, s + hi - 1, True, fresh_id()), el)), lo, hi, cb, node)
            it = It("enumerate", (Tup(tuple(its)), it.args[1]))
    if t is Ref and I.S.get(it.oid).kind == "list" and not I.S.get(it.oid).weak:
        if I.S.get(it.oid).d.exact:
            if I.mode == "join" and not I.loading:
                oid = I.alloc("iter", None, IterD((), 0, None, it.oid), "it")
                return run_iter(I, Ref(oid), cb, node)
            i = 0
            n0 = len(I.S.get(it.oid).d.tail)
            while True:
                d = I.S.get(it.oid).d
                if not d.exact:
                    break
                if i >= len(d.tail):
                    return None
                if i > n0 + 5000:
                    raise Undecided("list grows while iterated")
                r = cb(d.tail[i])
                i += 1
                if r is not None:
                    return r
            el, lo, hi = abstract_seq(I, it)
            return iter_abs(I, el, 0, hi, cb, node)
    its = to_items_or_none(I, it)
    if its is not None:
        if I.mode == "join" and not I.loading and len(its) > 1:
            oid = I.alloc("iter", None, IterD(tuple(its), 0, None, None), "it")
            return run_iter(I, Ref(oid), cb, node)
        for x in its:
            r = cb(x)
            if r is not None:
                return r
        return None
    el, lo, hi = abstract_seq(I, it)
    return iter_abs(I, el, lo, hi, cb, node)


def iter_abs(I, el, lo, hi, cb, node):
    oid = I.alloc("iter", None, IterD((), 0, (el, lo, hi), None), "it")
    return run_iter(I, Ref(oid), cb, node)


def hide(I, ref, node):
    """Keep a loop's iterator reachable from the frame while the loop runs."""
    env = I.frame.env
    name = " it%s:%s:%d" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(I.pins))
    I.S.own(env).d[name] = ref
    return env, name


def run_iter(I, ref, cb, node):
    env, name = hide(I, ref, node)
    fr = I.frame
    oid = ref.oid

    def step():
        I.frame = fr
        r = I.S.get(env).d.get(name)
        f, x = iter_next_val(I, r)
        if not f:
            return ("sig", "exit")
        return cb(x)
    I.pins.append(ref)
    d0 = I.S.get(oid).d
    try:
        r = (I.fix if d0.rest is not None and d0.rest[2] > 50 else I.loop)(step, node)
    finally:
        I.pins.pop()
    I.frame = fr
    if I.S.has(env):
        I.S.own(env).d.pop(name, None)
    if r == ("sig", "exit"):
        return None
    return r


def iter_next_val(I, ref):
    """(more, value) of a live iterator object."""
    o = I.S.get(ref.oid)
    d = o.d
    if d.src is not None:
        l = I.S.get(d.src).d
        if l.exact:
            if type(d.pos) is int:
                if d.pos < len(l.tail):
                    I.S.own(ref.oid).d = IterD((), d.pos + 1, None, d.src)
                    return True, l.tail[d.pos]
                return False, None
        el, lo, hi = abstract_seq(I, Ref(d.src))
        if I.choose(2):
            return False, None
        return True, fresh_elem(I, el)
    if d.pos < len(d.items):
        x = d.items[d.pos]
        I.S.own(ref.oid).d = IterD(d.items, d.pos + 1, d.rest, None)
        return True, x
    if d.rest is None:
        return False, None
    el, lo, hi = d.rest
    if hi <= 0:
        return False, None
    if lo <= 0 and I.choose(2):
        I.S.own(ref.oid).d = IterD((), 0, None, None)
        return False, None
    I.S.own(ref.oid).d = IterD((), 0, (el, max(0, lo - 1), hi - 1), None)
    return True, fresh_elem(I, el)


def iter_next(I, ref, cb, node):
    """Protocol __next__ on an instance."""
    o = I.S.get(ref.oid)
    m = I.class_attr(o.cls, "__next__")
    if m is None:
        I.throw(TypeError, "iter() returned non-iterator")
    env, name = hide(I, ref, node)
    fr = I.frame
    from .interp import PyExc

    def step():
        I.frame = fr
        nf, dp = len(I.frames), I.depth
        try:
            x = I.call(I.bind(m, ref, o.cls), (), {})
        except PyExc as e:
            if I.exc_isinstance(e.cls, ExcT(StopIteration)):
                I.frame = fr
                del I.frames[nf:]
                I.depth = dp
                return ("sig", "exit")
            raise
        return cb(x)
    r = I.loop(step, node)
    I.frame = fr
    I.S.own(env).d.pop(name, None)
    return None if r == ("sig", "exit") else r


def iter_getitem(I, ref, cls, m, cb, node):
    from .interp import PyExc
    env, name = hide(I, 0, node)
    fr = I.frame

    def step():
        I.frame = fr
        i = I.S.get(env).d[name]
        nf, dp = len(I.frames), I.depth
        try:
            x = I.call(I.bind(m, ref, cls), (i,), {})
        except PyExc as e:
            if I.exc_isinstance(e.cls, ExcT(IndexError)):
                I.frame = fr
                del I.frames[nf:]
                I.depth = dp
                return ("sig", "exit")
            raise
        I.S.own(env).d[name] = num_binop(I, "Add", i, 1)
        return cb(x)
    r = I.loop(step, node)
    I.frame = fr
    I.S.own(env).d.pop(name, None)
    return None if r == ("sig", "exit") else r


def make_iter(I, v):
    v = I.rv(v)
    if type(v) is Ref:
        o = I.S.get(v.oid)
        if o.kind in ("iter", "gen"):
            return v
        if o.kind == "list":
            return Ref(I.alloc("iter", None, IterD((), 0, None, v.oid)))
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__iter__")
            if m is not None:
                return I.call(I.bind(m, v, o.cls), (), {})
            I.throw(TypeError, "object is not iterable")
    its = to_items_or_none(I, v)
    if its is not None:
        return Ref(I.alloc("iter", None, IterD(tuple(its), 0, None, None)))
    el, lo, hi = abstract_seq(I, v)
    return Ref(I.alloc("iter", None, IterD((), 0, (el, lo, hi), None)))


def py_next(I, ref, default=UNB):
    ref = I.rv(ref)
    if type(ref) is It:
        ref = make_iter(I, ref)
    o = I.S.get(ref.oid) if type(ref) is Ref else None
    if o is None:
        I.throw(TypeError, "object is not an iterator")
    if o.kind == "gen":
        d = o.d
        if d.state == "done":
            f, x = False, None
        else:
            f, x = gen_first(I, ref)
    elif o.kind == "iter":
        f, x = iter_next_val(I, ref)
    elif o.kind == "inst":
        m = I.class_attr(o.cls, "__next__")
        if m is None:
            I.throw(TypeError, "object is not an iterator")
        if default is UNB:
            return I.call(I.bind(m, ref, o.cls), (), {})
        from .interp import PyExc
        fr, nf, dp = I.frame, len(I.frames), I.depth
        try:
            return I.call(I.bind(m, ref, o.cls), (), {})
        except PyExc as e:
            if I.exc_isinstance(e.cls, ExcT(StopIteration)):
                I.frame = fr
                del I.frames[nf:]
                I.depth = dp
                return default
            raise
    else:
        I.throw(TypeError, "object is not an iterator")
    if f:
        return x
    if default is not UNB:
        return default
    I.throw(StopIteration)


def gen_first(I, ref):
    """The next value of a generator.  A fresh generator is run to its next value;
    the rest of it is only usable again when it is a generator expression."""
    d = I.S.get(ref.oid).d
    if d.count:
        raise Undecided("generator resumed at %s" % I.where())
    hold = I.alloc("env", None, {}, "next")
    I.pins.append(Ref(hold))
    fr = I.frame
    try:
        def cb(x):
            I.S.own(hold).d["v"] = x
            return ("sig", "got")
        r = I.run_gen(ref, cb)
    finally:
        I.pins.pop()
    I.frame = fr
    if r == ("sig", "got"):
        dd = I.S.get(ref.oid).d
        I.S.setd(ref.oid, GenD(dd.func, dd.env, "part", 1))
        return True, I.S.get(hold).d["v"]
    return False, None
