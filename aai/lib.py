"""Builtins, attributes, operators and the modelled standard library."""
import math
import re as _re

from .values import *
from .state import *
from .nums import *
from .strs import *
from .conts import *
from .dates import *
from . import rex, rx
from .rex import compile_pat, do_match, do_sub, do_split, do_findall, match_method, group

T = {n: BType(n) for n in (
    "str", "int", "float", "bool", "list", "dict", "tuple", "set", "frozenset", "object", "type",
    "datetime", "date", "time", "timedelta", "timezone", "Match", "Pattern", "NoneType",
    "bytes", "function", "range", "property", "staticmethod", "classmethod", "enumerate", "zip",
    "map", "filter", "reversed", "super", "generator", "complex", "slice", "deque",
    "defaultdict", "OrderedDict", "Counter", "ModuleType", "cached_property", "Enum", "NamedTuple",
    "ABC", "Protocol", "Generic", "MappingProxyType", "IntEnum")}
RE_ERROR = ExcT(_re.error)


def B(name, fn):
    return Builtin(name, fn)


# ---------------------------------------------------------------- truth
def truth(I, v):
    v = I.rv(v)
    if v is True or v is False:
        return v
    if v is None:
        return False
    if type(v) is Fn:
        v = I.force(v)
        return truth(I, v)
    t = type(v)
    if is_str(v):
        return str_truth(I, v)
    if t in (int, float):
        return v != 0
    if t in (Num, TNum, LenV):
        return num_compare(I, "NotEq", v, 0)
    if t is Tup:
        return bool(v.items)
    if t is Ref:
        o = I.S.get(v.oid)
        if o.kind == "list":
            n = list_len(I, v.oid)
            return n != 0 if type(n) is int else num_compare(I, "NotEq", n, 0)
        if o.kind == "dict":
            n = dict_len(I, v.oid)
            return n != 0 if type(n) is int else num_compare(I, "NotEq", n, 0)
        if o.kind == "set":
            return bool(o.d.items) or (o.d.rest is not None and I.choose(2) == 0)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__bool__")
            if m is not None:
                return truth(I, I.call(I.bind(m, v, o.cls), (), {}))
            m = I.class_attr(o.cls, "__len__")
            if m is not None:
                return truth(I, I.call(I.bind(m, v, o.cls), (), {}))
        return True
    if t is TD:
        return num_compare(I, "NotEq", v.minutes, 0)
    if t is It:
        if v.kind in ("keys", "values", "items"):
            return truth(I, v.args[0])
        if v.kind == "range":
            its = to_items_or_none(I, v)
            return bool(its) if its is not None else I.choose(2) == 0
        return True
    return True


def force(I, v):
    """Resolve choices and table lookups to one value."""
    v = I.rv(v)
    while type(v) is Fn:
        S = I.S
        doms = S.doms[v.sym]
        by = {}
        for w, x in v.table:
            if any(word_in_box(w, b) for b in doms):
                by.setdefault((type(x).__name__, x), (x, []))[1].append(w)
        opts = list(by.values())
        if not opts:
            raise I.Infeasible()
        i = I.choose(len(opts)) if len(opts) > 1 else 0
        if len(opts) > 1:
            S.doms[v.sym] = tuple(word_box(w) for w in opts[i][1])
        v = I.rv(opts[i][0])
    return v


# ---------------------------------------------------------------- operators
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
          "Mod": "mod", "Pow": "pow", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
          "LShift": "lshift", "RShift": "rshift", "MatMult": "matmul"}


def binop(I, op, a, b, inplace=False):
    a, b = I.force(a), I.force(b)
    ta, tb = type(a), type(b)
    na = is_num(a) or ta is bool
    nb = is_num(b) or tb is bool
    if na and nb:
        if ta is bool and tb is bool and op in ("BitAnd", "BitOr", "BitXor"):
            return PYOP[op](a, b)
        return num_binop(I, op, a, b)
    if ta is Ref:
        o = I.S.get(a.oid)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            names = (["__i%s__" % DUNDER[op]] if inplace else []) + ["__%s__" % DUNDER[op]]
            for nm in names:
                m = I.class_attr(o.cls, nm)
                if m is not None:
                    r = I.rv(I.call(I.bind(m, a, o.cls), (b,), {}))
                    if r is not NOTIMPL:
                        return r
    if tb is Ref:
        o = I.S.get(b.oid)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__r%s__" % DUNDER[op])
            if m is not None:
                r = I.rv(I.call(I.bind(m, b, o.cls), (a,), {}))
                if r is not NOTIMPL:
                    return r
    if op == "Mod" and is_str(a):
        return percent(I, a, b)
    if op == "Add":
        if is_str(a) and is_str(b):
            return concat(I, [a, b])
        if ta is Tup and tb is Tup:
            return Tup(a.items + b.items)
        if is_ref(I, a, "list"):
            if inplace:
                list_extend(I, a.oid, b)
                return a
            if is_ref(I, b, "list"):
                da, db = I.S.get(a.oid).d, I.S.get(b.oid).d
                if db.exact:
                    return Ref(I.alloc("list", None, ListD(da.tail + db.tail, da.pre, da.lo, da.hi)))
                x, y = as_abstract(I, da), as_abstract(I, db)
                el = y.pre if x.pre is None else join_val(x.pre, y.pre, I.S, I.S)
                return Ref(I.alloc("list", None, ListD((), el, x.lo + y.lo, x.hi + y.hi)))
        if ta is DT and tb is TD:
            return dt_add(I, a, b.minutes)
        if ta is TD and tb is DT:
            return dt_add(I, b, a.minutes)
        if ta is TD and tb is TD:
            return TD(num_binop(I, "Add", a.minutes, b.minutes))
        if ta is ADate and tb is TD:
            return add_date(I, a, b.minutes)
    if op == "Sub":
        if ta is DT and tb is TD:
            return dt_add(I, a, num_neg(I, b.minutes))
        if ta is DT and tb is DT:
            return TD(dt_diff(I, a, b))
        if ta is TD and tb is TD:
            return TD(num_binop(I, "Sub", a.minutes, b.minutes))
        if ta is ADate and tb is ADate:
            return TD(num_binop(I, "Mult", date_diff(I, a, b), 1440))
        if ta is ADate and tb is TD:
            return add_date(I, a, num_neg(I, b.minutes))
    if op == "Mult":
        if nb and not na:
            a, b, ta, tb, na, nb = b, a, tb, ta, nb, na
        if na and tb is TD:
            return TD(num_binop(I, "Mult", a, b.minutes))
        if na and is_str(b):
            a = simp(I.S, a)
            if type(a) in (int, bool):
                if type(sn(I, b)) is str:
                    return sn(I, b) * a
                return concat(I, [b] * max(0, a)) if a else ""
            if type(a) is float:
                I.throw(TypeError, "can't multiply sequence by non-int of type 'float'")
            return TStr(fresh_id())
        if na and (tb is Tup or is_ref(I, b, "list")):
            a = simp(I.S, a)
            if type(a) in (int, bool):
                if tb is Tup:
                    return Tup(b.items * a)
                d = I.S.get(b.oid).d
                if d.exact:
                    return I.new_list(d.tail * a)
            if type(a) is float:
                I.throw(TypeError, "can't multiply sequence by non-int of type 'float'")
            raise Undecided("sequence repetition")
    if ta is TD:
        if op in ("Div", "FloorDiv") and tb is TD:
            return num_binop(I, op, a.minutes, b.minutes)
        if op in ("Div", "FloorDiv") and nb:
            return TD(num_binop(I, "Div", a.minutes, b))
        if op == "Mod" and tb is TD:
            return TD(num_binop(I, op, a.minutes, b.minutes))
    if op == "BitOr":
        if is_ref(I, a, "dict") and is_ref(I, b, "dict"):
            if inplace:
                dict_update(I, a, b)
                return a
            r = I.new_dict(())
            dict_update(I, r, a)
            dict_update(I, r, b)
            return r
        if ta in (Opaque, ClassV, BType, ExcT) or tb in (Opaque, ClassV, BType, ExcT):
            return Opaque("union")
        if ta is Tup and tb is Tup or a is None or b is None:
            if ta in (ClassV, BType) or tb in (ClassV, BType):
                return Opaque("union")
    if op in ("BitOr", "BitAnd", "Sub", "BitXor") and is_ref(I, a, "set") and (
            is_ref(I, b, "set") or type(b) is It):
        return set_op(I, op, a, b)
    I.throw(TypeError, "unsupported operand type(s) for %s: %s and %s"
            % (op, type_name(I, a), type_name(I, b)))


def add_date(I, d, minutes):
    minutes = simp(I.S, minutes)
    if type(minutes) is int:
        return ADate(d.base, num_binop(I, "Add", d.off, minutes // 1440))
    if type(minutes) is Num and all(c % 1440 == 0 for _, c in minutes.terms):
        return ADate(d.base, num_binop(I, "Add", d.off, num_from(
            {m: c // 1440 for m, c in minutes.terms}, True)))
    return ADate(ANY, 0)


def set_op(I, op, a, b):
    x = to_items_or_none(I, a)
    y = to_items_or_none(I, b)
    if x is None or y is None:
        el, _, _ = abstract_seq(I, a)
        el2, _, _ = abstract_seq(I, b)
        return Ref(I.alloc("set", None, SetD((), join_val(el, el2, I.S, I.S))))
    inb = lambda z: any(compatible(I, z, w) and I.truth(py_eq(I, z, w)) for w in y)
    if op == "BitAnd":
        return I.new_set([z for z in x if inb(z)])
    if op == "Sub":
        return I.new_set([z for z in x if not inb(z)])
    if op == "BitOr":
        r = I.new_set(x)
        for z in y:
            set_add(I, r.oid, z)
        return r
    ina = lambda z: any(compatible(I, z, w) and I.truth(py_eq(I, z, w)) for w in x)
    return I.new_set([z for z in x if not inb(z)] + [z for z in y if not ina(z)])


def unary(I, op, v):
    v = I.force(v)
    if op == "Not":
        return not truth(I, v)
    if type(v) is TD and op == "USub":
        return TD(num_neg(I, v.minutes))
    if is_num(v) or type(v) is bool:
        if type(v) is bool:
            v = int(v)
        if op == "USub":
            return num_neg(I, v)
        if op == "UAdd":
            return v
        if op == "Invert" and type(v) is int:
            return ~v
    if type(v) is Ref:
        o = I.S.get(v.oid)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            m = I.class_attr(o.cls, nm)
            if m is not None:
                return I.call(I.bind(m, v, o.cls), (), {})
    I.throw(TypeError, "bad operand type for unary %s: %s" % (op, type_name(I, v)))


def is_same(I, a, b):
    a, b = I.rv(a), I.rv(b)
    if type(a) is Fn or type(b) is Fn:
        x, y = (a, b) if type(a) is Fn else (b, a)
        # only None is compared by identity in practice: split by None-ness
        if y is None or type(y) is bool:
            S = I.S
            yes = [w for w, z in x.table if z is y]
            no = [w for w, z in x.table if z is not y]
            dy = [w for w in yes if any(word_in_box(w, q) for q in S.doms[x.sym])]
            dn = [w for w in no if any(word_in_box(w, q) for q in S.doms[x.sym])]
            if not dy:
                return False
            if not dn:
                return True
            r = I.choose(2) == 0
            S.doms[x.sym] = tuple(word_box(w) for w in (dy if r else dn))
            return r
        a, b = I.force(a), I.force(b)
    if a is None or b is None:
        return a is b
    if type(a) is bool or type(b) is bool:
        return a is b
    if type(a) is Ref and type(b) is Ref:
        if a.oid == b.oid:
            return True if not I.S.get(a.oid).weak else I.choose(2) == 0
        return False
    if is_str(a) and is_str(b):
        if type(a) is str and type(b) is str:
            if a != b:
                return False
            if len(a) <= 1:
                return True
            return I.choose(2) == 0
        if not I.truth(eq_str(I, a, b)):
            return False
        return I.choose(2) == 0
    if is_num(a) and is_num(b):
        if not num_compare(I, "Eq", a, b):
            return False
        if type(a) is int and -5 <= a <= 256 and type(b) is int:
            return True
        return I.choose(2) == 0
    if type(a) is not type(b):
        return False
    if type(a) in (ClassV, BType, ExcT, Opaque, Func, ModV, Builtin):
        return a is b or (type(a) is ExcT and a == b)
    if type(a) is Tup:
        if not a.items and not b.items:
            return True
        return I.choose(2) == 0 if len(a.items) == len(b.items) else False
    return I.choose(2) == 0


def contains(I, c, x):
    c = I.force(c)
    t = type(c)
    if is_str(c):
        x = I.force(x)
        if not is_str(x):
            I.throw(TypeError, "'in <string>' requires string as left operand, not %s" % type_name(I, x))
        c, x = sn(I, c), sn(I, x)
        if type(c) is str and type(x) is str:
            return x in c
        if type(c) is TStr or type(x) is TStr:
            if type(c) is TStr and c.tag != "" and type(x) is str:
                return remember(I, ("sub", c.tag, x))
            return I.choose(2) == 0
        if type(x) is str:
            if x and rex_none(I, c, x):
                return False
            cs = cells(I, c)
            return find_cells(I, cs, x) >= 0
        if type(c) is str and type(x) is WVal:
            ws = dom_words(I.S.doms[x.sym])
            if ws is not None:
                yes = [w for w in ws if w in c]
                no = [w for w in ws if w not in c]
                if not yes:
                    return False
                if not no:
                    return True
                r = I.choose(2) == 0
                I.S.doms[x.sym] = tuple(word_box(w) for w in (yes if r else no))
                return r
        xs = cells(I, x)
        cs = cells(I, c)
        if len(xs) == 1 and all(type(z) is str for z in cs):
            m = 0
            for z in cs:
                m |= cmask(z)
            return test_cell(I, xs[0], m)
        for i in range(len(cs) - len(xs) + 1):
            if I.truth(eq_str(I, mk_str(cs[i:i + len(xs)]), mk_str(xs))):
                return True
        return False
    if t is Tup:
        return in_items(I, x, c.items, None)
    if t is Ref:
        o = I.S.get(c.oid)
        if o.kind == "list":
            d = o.d
            if d.exact:
                return in_items(I, x, d.tail, None)
            for y in d.tail:
                if same_value(x, y):
                    return True
            return I.choose(2) == 0
        if o.kind == "dict":
            return dict_lookup(I, c.oid, x)[0]
        if o.kind == "set":
            return set_contains(I, c.oid, x)
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__contains__")
            if m is not None:
                return truth(I, I.call(I.bind(m, c, o.cls), (x,), {}))
        def cb(y):
            if I.truth(py_eq(I, x, y)):
                return ("sig", "brk")
            return None
        return iterate(I, c, cb) == ("sig", "brk")
    if t is It:
        if c.kind == "keys":
            return dict_lookup(I, c.args[0].oid, x)[0]
        if c.kind == "range":
            lo, hi, st = c.args
            x = I.force(x)
            if not is_num(x):
                return False
            if st == 1:
                if v_isint(x) if type(x) is not TNum else x.isint:
                    return num_compare(I, "GtE", x, lo) and num_compare(I, "Lt", x, hi)
            its = to_items_or_none(I, c)
            if its is not None:
                return in_items(I, x, tuple(its), None)
            return I.choose(2) == 0
        its = to_items_or_none(I, c)
        if its is not None:
            return in_items(I, x, tuple(its), None)
        return I.choose(2) == 0
    I.throw(TypeError, "argument of type '%s' is not iterable" % type_name(I, c))


def rex_none(I, c, x):
    from .strs import _none
    return _none(I, c, cmask(x[0]))


CMPD = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
SWAP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(I, a, b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(I, b, I.rv(a))
        return r if op == "In" else not r
    if op == "Eq":
        return py_eq(I, a, b)
    if op == "NotEq":
        a = I.rv(a)
        if type(a) is Ref:
            o = I.S.get(a.oid)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                m = I.class_attr(o.cls, "__ne__")
                if m is not None:
                    return I.call(I.bind(m, a, o.cls), (b,), {})
        r = py_eq(I, a, b)
        return not truth(I, r)
    a, b = I.force(a), I.force(b)
    ta, tb = type(a), type(b)
    na = is_num(a) or ta is bool
    nb = is_num(b) or tb is bool
    if na and nb:
        return num_compare(I, op, int(a) if ta is bool else a, int(b) if tb is bool else b)
    if ta is DT and tb is DT:
        return dt_compare(I, op, a, b)
    if ta is TD and tb is TD:
        return num_compare(I, op, a.minutes, b.minutes)
    if ta is ADate and tb is ADate:
        return date_compare(I, op, a, b)
    if is_str(a) and is_str(b):
        a, b = sn(I, a), sn(I, b)
        if type(a) is str and type(b) is str:
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        return str_order(I, op, a, b)
    if ta is Tup and tb is Tup:
        for x, y in zip(a.items, b.items):
            if not truth(I, py_eq(I, x, y)):
                return compare(I, op, x, y)
        n, m = len(a.items), len(b.items)
        return {"Lt": n < m, "LtE": n <= m, "Gt": n > m, "GtE": n >= m}[op]
    for x, y, nm in ((a, b, CMPD[op]), (b, a, CMPD[SWAP[op]])):
        if type(x) is Ref:
            o = I.S.get(x.oid)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                m = I.class_attr(o.cls, nm)
                if m is not None:
                    r = I.rv(I.call(I.bind(m, x, o.cls), (y,), {}))
                    if r is not NOTIMPL:
                        return r
    if is_ref(I, a, "list") and is_ref(I, b, "list") or is_ref(I, a, "set") and is_ref(I, b, "set"):
        return I.choose(2) == 0
    I.throw(TypeError, "'%s' not supported between instances of '%s' and '%s'"
            % (op, type_name(I, a), type_name(I, b)))


def str_order(I, op, a, b):
    if type(a) is TStr or type(b) is TStr:
        return remember(I, ("ord", op, a, b))
    ca, cb = cells(I, a), cells(I, b)
    for x, y in zip(ca, cb):
        x, y = narrow_cell(I.S, x), narrow_cell(I.S, y)
        if type(x) is str and type(y) is str:
            if x == y:
                continue
            return {"Lt": x < y, "LtE": x < y, "Gt": x > y, "GtE": x > y}[op]
        if type(x) is SC and type(y) is str:
            c, k, o = x, ord(y), op
        elif type(x) is str and type(y) is SC:
            c, k, o = y, ord(x), SWAP[op]
        else:
            return remember(I, ("ord", op, a, b))
        lt = (1 << k) - 1
        eq = 1 << k
        gt = ALL & ~(lt | eq)
        m = cell_mask(I, c)
        opts = [z for z in (lt, eq, gt) if m & z]
        z = opts[I.choose(len(opts))] if len(opts) > 1 else opts[0]
        refine_cell(I, c, z)
        if z == eq:
            continue
        return (z == lt) == (o in ("Lt", "LtE"))
    n, m = len(ca), len(cb)
    return {"Lt": n < m, "LtE": n <= m, "Gt": n > m, "GtE": n >= m}[op]


# ---------------------------------------------------------------- subscripts
def getitem(I, o, k):
    o = I.force(o)
    t = type(o)
    if t is Ref:
        ob = I.S.get(o.oid)
        if ob.kind == "list":
            k = I.force(k)
            if type(k) is It and k.kind == "slice":
                return list_slice(I, o, k)
            return list_get(I, o, k)
        if ob.kind == "dict":
            f, v = dict_lookup(I, o.oid, k)
            if f:
                return v
            df = ob.cls
            if df is not None and isinstance(df, tuple) and df[0] == "defaultdict":
                v = I.call(df[1], (), {})
                dict_set(I, o.oid, k, v)
                return v
            I.throw(KeyError, I.rv(k) if type(I.rv(k)) is str else "key")
        if ob.kind == "match":
            return group(I, o, k)
        if ob.kind == "inst" and isinstance(ob.cls, ClassV):
            m = I.class_attr(ob.cls, "__getitem__")
            if m is not None:
                return I.call(I.bind(m, o, ob.cls), (k,), {})
            if ob.cls.meta.get("namedtuple"):
                pass
        I.throw(TypeError, "object is not subscriptable")
    k = I.force(k)
    if is_str(o):
        if type(k) is It and k.kind == "slice":
            lo, hi, st = [simp(I.S, x) if type(x) in (Num, TNum) else x for x in k.args]
            return str_slice(I, o, lo, hi, st)
        return str_index(I, o, k)
    if t is Tup:
        if type(k) is It and k.kind == "slice":
            r = slice_seq(I, o.items, k)
            if r is None:
                raise Undecided("tuple slice")
            return Tup(tuple(r))
        return seq_get(I, o.items, k, "tuple")
    if t is ClassV:
        if o.meta.get("enum_members") is not None and is_str(k):
            f = o.meta["enum_members"].get(k) if type(k) is str else None
            if f is None:
                I.throw(KeyError, "enum")
            return f
        return o
    if t in (BType, Opaque, ExcT):
        return o if t is not Opaque else Opaque(o.name + "[]")
    if t is It and o.kind in ("range", "list"):
        its = to_items_or_none(I, o)
        if its is not None and type(k) is not It:
            return seq_get(I, tuple(its), k, "range")
    I.throw(TypeError, "'%s' object is not subscriptable" % type_name(I, o))


def setitem(I, o, k, v):
    o = I.force(o)
    if type(o) is Ref:
        ob = I.S.get(o.oid)
        if ob.kind == "dict":
            dict_set(I, o.oid, k, v)
            return
        if ob.kind == "list":
            k = I.force(k)
            d = ob.d
            if type(k) is It:
                its = to_items_or_none(I, v)
                if d.exact and its is not None and all(x is None or type(x) is int for x in k.args):
                    t = list(d.tail)
                    t[slice(*k.args)] = its
                    I.setd(o.oid, ListD(tuple(t)))
                    return
                raise Undecided("slice assignment")
            if type(k) is TNum or type(k) is Num:
                k = simp(I.S, k)
            if d.exact and type(k) is int:
                n = len(d.tail)
                if not -n <= k < n:
                    I.throw(IndexError, "list assignment index out of range")
                t = list(d.tail)
                t[k] = v
                I.setd(o.oid, ListD(tuple(t)))
                return
            if type(k) is int and k < 0 and -k <= len(d.tail):
                t = list(d.tail)
                t[k] = v
                I.setd(o.oid, ListD(tuple(t), d.pre, d.lo, d.hi))
                return
            if not is_num(k):
                I.throw(TypeError, "list indices must be integers")
            lo, hi = num_iv(I, k)
            if not (lo >= 0 and hi < d.lo + len(d.tail)) and I.choose(2):
                I.throw(IndexError, "list assignment index out of range")
            a = as_abstract(I, d)
            I.setd(o.oid, ListD((), v if a.pre is None else join_val(a.pre, v, I.S, I.S), a.lo, a.hi))
            return
        if ob.kind == "inst" and isinstance(ob.cls, ClassV):
            m = I.class_attr(ob.cls, "__setitem__")
            if m is not None:
                I.call(I.bind(m, o, ob.cls), (k, v), {})
                return
    I.throw(TypeError, "object does not support item assignment")


def delitem(I, o, k):
    o = I.force(o)
    if type(o) is Ref:
        ob = I.S.get(o.oid)
        if ob.kind == "dict":
            dict_del(I, o.oid, k)
            return
        if ob.kind == "list":
            k = I.force(k)
            if type(k) is It:
                d = ob.d
                if d.exact and all(x is None or type(x) is int for x in k.args):
                    t = list(d.tail)
                    del t[slice(*k.args)]
                    I.setd(o.oid, ListD(tuple(t)))
                    return
                if all(x is None for x in k.args):
                    I.setd(o.oid, ListD())
                    return
                raise Undecided("slice deletion")
            list_pop(I, o, (k,))
            return
        if ob.kind == "inst" and isinstance(ob.cls, ClassV):
            m = I.class_attr(ob.cls, "__delitem__")
            if m is not None:
                I.call(I.bind(m, o, ob.cls), (k,), {})
                return
    I.throw(TypeError, "object doesn't support item deletion")


# ---------------------------------------------------------------- snapshots
def snapshot(I, v, depth=0, seen=()):
    """A heap-free picture of a value."""
    v = I.rv(v)
    t = type(v)
    if is_str(v):
        return sn(I, v)
    if t in (Num, TNum):
        return simp(I.S, v)
    if t is Tup:
        return Tup(tuple(snapshot(I, x, depth + 1, seen) for x in v.items))
    if t is Ref:
        if v.oid in seen or depth > 12:
            return Opaque("cycle")
        seen = seen + (v.oid,)
        o = I.S.get(v.oid)
        if o.kind == "list":
            if not o.d.exact:
                return It("snaplist?", (snapshot(I, o.d.pre, depth + 1, seen) if o.d.pre is not UNB else None,))
            return It("list", tuple(snapshot(I, x, depth + 1, seen) for x in o.d.tail))
        if o.kind == "dict":
            return It("dict", tuple(Tup((snapshot(I, k, depth + 1, seen), snapshot(I, x, depth + 1, seen)))
                                    for k, x in dict_exact_items(I, v)))
        if o.kind == "set":
            return It("set", tuple(snapshot(I, x, depth + 1, seen) for x in o.d.items))
        if o.kind == "inst":
            return It("inst", (o.cls.name if isinstance(o.cls, ClassV) else o.cls,))
        return It(o.kind, ())
    return v


# ---------------------------------------------------------------- json
def json_walk(I, v, seen=()):
    v = I.rv(v)
    t = type(v)
    if v is None or t in (bool, int, float, Num, TNum, LenV, Fn) or is_str(v):
        return
    if t is Tup:
        for x in v.items:
            json_walk(I, x, seen)
        return
    if t is Ref:
        o = I.S.get(v.oid)
        if v.oid in seen:
            if not o.weak and not any(isinstance(s, tuple) and s[-1:] == ("*",) for s in (v.oid,)):
                I.throw(ValueError, "Circular reference detected")
            return
        seen = seen + (v.oid,)
        if o.kind == "list":
            for x in all_elems(o.d):
                if x is not UNB:
                    each(I, x, seen)
            return
        if o.kind == "dict":
            ks = [(k, x) for k, x, _ in o.d.items] + ([o.d.rest] if o.d.rest is not None else [])
            for k, x in ks:
                k = I.rv(k)
                if not (is_str(k) or is_num(k) or k is None or type(k) is bool):
                    I.throw(TypeError, "keys must be str, int, float, bool or None, not %s" % type_name(I, k))
                each(I, x, seen)
            return
    I.throw(TypeError, "Object of type %s is not JSON serializable" % type_name(I, v))


def each(I, x, seen):
    """Walk every alternative without multiplying the paths."""
    if type(x) is Union:
        bad = [a for a in x.alts if not json_plain(a)]
        if not bad:
            return
        json_walk(I, x, seen)
        return
    json_walk(I, x, seen)


def json_plain(a):
    return a is None or type(a) in (bool, int, float, Num, TNum, LenV) or is_str(a)


def json_dumps(I, args, kw):
    v = args[0]
    json_walk(I, v)
    if I.mode == "join":
        return TStr(fresh_id())
    opts = tuple(sorted((k, I.rv(x)) for k, x in kw.items() if k not in ("cls", "default")))
    return AStr((SV(It("json", (snapshot(I, v),) + tuple(Tup((k, x)) for k, x in opts))),))


# ---------------------------------------------------------------- attributes
LISTM = {
    "append": lambda I, r, a, k: list_append(I, r.oid, a[0]),
    "extend": lambda I, r, a, k: list_extend(I, r.oid, a[0]),
    "pop": lambda I, r, a, k: list_pop(I, r, a),
    "popleft": lambda I, r, a, k: list_pop(I, r, (0,)),
    "appendleft": lambda I, r, a, k: list_insert(I, r, 0, a[0]),
    "remove": lambda I, r, a, k: list_remove(I, r, I.rv(a[0])),
    "index": lambda I, r, a, k: list_index(I, r, a[0]),
    "insert": lambda I, r, a, k: list_insert(I, r, a[0], a[1]),
    "clear": lambda I, r, a, k: I.setd(r.oid, ListD()),
    "copy": lambda I, r, a, k: Ref(I.alloc("list", None, I.S.get(r.oid).d, "cp")),
    "reverse": lambda I, r, a, k: list_reverse(I, r),
    "count": lambda I, r, a, k: list_count(I, r, a[0]),
    "sort": lambda I, r, a, k: list_sort(I, r, k),
}


def list_reverse(I, r):
    d = I.S.get(r.oid).d
    if d.exact:
        I.setd(r.oid, ListD(d.tail[::-1]))
    else:
        I.setd(r.oid, as_abstract(I, d))


def list_count(I, r, x):
    d = I.S.get(r.oid).d
    if d.exact:
        return sum(1 for y in d.tail if I.truth(py_eq(I, x, y)))
    return TNum(0, d.hi + len(d.tail), True, fresh_id())


def list_sort(I, r, kw):
    d = I.S.get(r.oid).d
    if d.exact:
        its = sort_items(I, list(d.tail), kw)
        if its is not None:
            I.setd(r.oid, ListD(tuple(its)))
            return
    I.setd(r.oid, as_abstract(I, d) if d.tail or not d.exact else d)


def sort_items(I, its, kw):
    """Insertion sort by abstract comparisons."""
    if len(its) <= 1:
        return its
    if len(its) > 12 and not all(type(x) in (str, int, float) for x in its):
        return None
    key = kw.get("key")
    ks = [I.call(key, (x,), {}) if key is not None else x for x in its]
    rev = I.truth(kw.get("reverse", False))
    out = []
    for k, x in zip(ks, its):
        i = len(out)
        while i > 0 and truth(I, compare(I, "Lt" if not rev else "Gt", k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def d_get(I, r, a, k):
    f, v = dict_lookup(I, r.oid, a[0])
    return v if f else (a[1] if len(a) > 1 else k.get("default"))


def d_setdefault(I, r, a, k):
    f, v = dict_lookup(I, r.oid, a[0])
    if f:
        return v
    v = a[1] if len(a) > 1 else None
    dict_set(I, r.oid, a[0], v)
    return v


def d_update(I, r, a, k):
    if a:
        dict_update(I, r, a[0])
    for kk, v in k.items():
        dict_set(I, r.oid, kk, v)


def d_popitem(I, r, a, k):
    its = dict_exact_items(I, r)
    if not its:
        I.throw(KeyError, "popitem(): dictionary is empty")
    kk, v = its[-1]
    dict_del(I, r.oid, kk)
    return Tup((kk, v))


DICTM = {
    "get": d_get, "setdefault": d_setdefault, "update": d_update, "popitem": d_popitem,
    "keys": lambda I, r, a, k: It("keys", (r,)),
    "values": lambda I, r, a, k: It("values", (r,)),
    "items": lambda I, r, a, k: It("items", (r,)),
    "pop": lambda I, r, a, k: dict_del(I, r.oid, a[0], a[1] if len(a) > 1 else UNB),
    "copy": lambda I, r, a, k: Ref(I.alloc("dict", I.S.get(r.oid).cls, I.S.get(r.oid).d, "cp")),
    "clear": lambda I, r, a, k: I.setd(r.oid, DictD()),
    "move_to_end": lambda I, r, a, k: None,
}


def s_discard(I, r, a, k):
    d = I.S.get(r.oid).d
    out = []
    for x in d.items:
        if not (compatible(I, a[0], x) and I.truth(py_eq(I, a[0], x))):
            out.append(x)
    I.setd(r.oid, SetD(tuple(out), d.rest, d.frozen))


def s_remove(I, r, a, k):
    if not set_contains(I, r.oid, a[0]):
        I.throw(KeyError, "set")
    s_discard(I, r, a, k)


def s_update(I, r, a, k):
    for x in a:
        for y in to_items(I, x):
            set_add(I, r.oid, y)


def s_mk(op):
    def f(I, r, a, k):
        o = I.rv(a[0])
        if not is_ref(I, o, "set"):
            o = I.new_set(to_items(I, o))
        return set_op(I, op, r, o)
    return f


SETM = {
    "add": lambda I, r, a, k: set_add(I, r.oid, a[0]), "discard": s_discard, "remove": s_remove,
    "update": s_update, "union": s_mk("BitOr"), "intersection": s_mk("BitAnd"),
    "difference": s_mk("Sub"), "symmetric_difference": s_mk("BitXor"),
    "issubset": lambda I, r, a, k: all(contains(I, a[0], x) for x in to_items(I, r)),
    "issuperset": lambda I, r, a, k: all(contains(I, r, x) for x in to_items(I, a[0])),
    "isdisjoint": lambda I, r, a, k: not any(contains(I, r, x) for x in to_items(I, a[0])),
    "copy": lambda I, r, a, k: Ref(I.alloc("set", None, I.S.get(r.oid).d, "cp")),
    "clear": lambda I, r, a, k: I.setd(r.oid, SetD()),
    "pop": lambda I, r, a, k: (_ for _ in ()).throw(Undecided("set.pop")),
}
TABLES = {"list": LISTM, "dict": DICTM, "set": SETM}


def method(name, fn, ref):
    return Builtin(name, lambda I, a, k, f=fn, r=ref: f(I, r, a, k))


PATM = {"match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer"}


def pat_call(I, p, name, a, k):
    if name in ("match", "search", "fullmatch"):
        v = a[0] if a else k["string"]
        pos = a[1] if len(a) > 1 else k.get("pos", 0)
        return do_match(I, p, v, name, pos if type(pos) is int else 0)
    if name in ("sub", "subn"):
        repl = a[0] if a else k["repl"]
        s = a[1] if len(a) > 1 else k["string"]
        c = a[2] if len(a) > 2 else k.get("count", 0)
        return do_sub(I, p, repl, s, c, name == "subn")
    if name == "split":
        return do_split(I, p, a[0] if a else k["string"], a[1] if len(a) > 1 else k.get("maxsplit", 0))
    r = do_findall(I, p, a[0] if a else k["string"], name == "finditer")
    return make_iter(I, r) if name == "finditer" else r


def re_call(name):
    def f(I, a, k):
        k = dict(k)
        names = {"sub": ["pattern", "repl", "string", "count", "flags"],
                 "subn": ["pattern", "repl", "string", "count", "flags"],
                 "split": ["pattern", "string", "maxsplit", "flags"]}.get(
            name, ["pattern", "string", "flags"])
        for n, v in zip(names, a):
            k[n] = v
        p = compile_pat(I, k.pop("pattern"), k.pop("flags", 0))
        return pat_call(I, p, name, (), k)
    return B("re." + name, f)


def getattr_(I, o, name):
    t = type(o)
    if t is Fn:
        o = I.force(o)
        t = type(o)
    if t is Ref:
        ob = I.S.get(o.oid)
        k = ob.kind
        if k == "inst":
            return inst_attr(I, o, ob, name)
        if k in TABLES:
            f = TABLES[k].get(name)
            if f is not None:
                return method(k + "." + name, f, o)
            d = {"__len__": lambda I, r, a, kw: py_len(I, r),
                 "__contains__": lambda I, r, a, kw: contains(I, r, a[0]),
                 "__getitem__": lambda I, r, a, kw: getitem(I, r, a[0]),
                 "__setitem__": lambda I, r, a, kw: setitem(I, r, a[0], a[1]),
                 "__delitem__": lambda I, r, a, kw: delitem(I, r, a[0]),
                 "__iter__": lambda I, r, a, kw: make_iter(I, r)}.get(name)
            if d is not None:
                return method(k + "." + name, d, o)
            if name == "__class__":
                return T[k]
        elif k == "match":
            if name in ("group", "groups", "groupdict", "start", "end", "span", "expand"):
                return Builtin("match." + name, lambda I, a, kw: match_method(I, o, name, a, kw))
            if name == "string":
                return rex.match_string(I, o)
            if name == "re":
                return ob.d.pat
            if name == "pos":
                return 0
            if name == "endpos":
                return py_len(I, rex.match_string(I, o))
            if name in ("lastgroup", "lastindex"):
                d = ob.d
                if d.spans is None:
                    return None if I.choose(2) else TStr(fresh_id()) if name == "lastgroup" else t_int(1, 50)
                R = rx.get(d.pat.pattern, d.pat.flags)
                best = max([g for g, s in d.spans if g] or [0], key=lambda g: (rex.span_of(d.spans, g) or (0, 0))[1] if g else 0)
                nm = {v: n for n, v in R.groupindex.items()}
                return (best or None) if name == "lastindex" else nm.get(best)
            if name == "__getitem__":
                return Builtin("match.__getitem__", lambda I, a, kw: group(I, o, a[0]))
        elif k in ("iter", "gen"):
            if name == "__next__":
                return Builtin("next", lambda I, a, kw: py_next(I, o))
            if name == "__iter__":
                return Builtin("iter", lambda I, a, kw: o)
            if name in ("close",):
                return Builtin("close", lambda I, a, kw: None)
        I.throw(AttributeError, "'%s' object has no attribute '%s'" % (k, name))
    if is_str(o):
        if name in METHODS:
            return Builtin("str." + name, lambda I, a, kw: str_method(I, o, name, a, kw))
        if name in ("__len__",):
            return Builtin("len", lambda I, a, kw: str_len(I, o))
        if name == "__class__":
            return T["str"]
        if name == "__contains__":
            return Builtin("in", lambda I, a, kw: contains(I, o, a[0]))
        if name == "__eq__":
            return Builtin("eq", lambda I, a, kw: py_eq(I, o, a[0]))
        if name == "__str__":
            return Builtin("str", lambda I, a, kw: o)
        I.throw(AttributeError, "'str' object has no attribute '%s'" % name)
    if t is ClassV:
        return class_getattr(I, o, name)
    if t is ModV:
        return mod_attr(I, o, name)
    if t is SuperV:
        return super_attr(I, o, name)
    if t is Pat:
        if name in PATM:
            return Builtin("pat." + name, lambda I, a, kw: pat_call(I, o, name, a, kw))
        if name == "pattern":
            return o.pattern
        if name == "flags":
            return o.flags
        R = rx.get(o.pattern, o.flags)
        if name == "groups":
            return R.ngroups
        if name == "groupindex":
            return I.new_dict(list(R.groupindex.items()))
        I.throw(AttributeError, name)
    if t is DT or t is ADate:
        d = o if t is DT else DT(o, 0, 0, 0)
        if t is ADate and name in ("hour", "minute", "second"):
            I.throw(AttributeError, name)
        r = dt_attr(I, d, name)
        if r is not UNB:
            return r
        if name in ("replace", "strftime", "isoformat", "ctime", "date", "time", "timetz", "timestamp",
                    "weekday", "isoweekday", "toordinal", "astimezone", "timetuple", "utctimetuple", "__str__"):
            if t is ADate and name == "replace":
                return Builtin("date.replace", lambda I, a, kw: dt_replace(I, d, a, kw).date)
            return Builtin("dt." + name, lambda I, a, kw: dt_method(I, d, name, a, kw))
        if name in ("now", "utcnow", "today", "strptime", "combine", "min", "max", "fromtimestamp"):
            return btype_attr(I, T["datetime"], name)
        I.throw(AttributeError, "'datetime.datetime' object has no attribute '%s'" % name)
    if t is TD:
        m = simp(I.S, o.minutes)
        if name == "total_seconds":
            return Builtin("td", lambda I, a, kw: num_float(I, num_binop(I, "Mult", m, 60)))
        if name == "days":
            return num_binop(I, "FloorDiv", m, 1440) if type(m) is not TNum else TNum(-INF, INF, True, fresh_id())
        if name == "seconds":
            return num_binop(I, "Mult", num_binop(I, "Mod", m, 1440), 60)
        if name == "microseconds":
            return 0
        I.throw(AttributeError, name)
    if t is Tup:
        if o.cls is not None:
            fs = o.cls.ntfields
            if name in fs:
                return o.items[fs.index(name)]
            m = I.class_attr(o.cls, name)
            if m is not None:
                return I.bind(m, o, o.cls)
            if name == "_asdict":
                return Builtin("asdict", lambda I, a, kw: I.new_dict(list(zip(fs, o.items))))
            if name == "_replace":
                return Builtin("replace", lambda I, a, kw: Tup(tuple(kw.get(f, x) for f, x in zip(fs, o.items)), o.cls))
            if name == "_fields":
                return Tup(tuple(fs))
        if name == "index":
            def idx(I, a, kw):
                for i, y in enumerate(o.items):
                    if I.truth(py_eq(I, a[0], y)):
                        return i
                I.throw(ValueError, "tuple.index(x): x not in tuple")
            return Builtin("tuple.index", idx)
        if name == "count":
            return Builtin("tuple.count", lambda I, a, kw: sum(1 for y in o.items if I.truth(py_eq(I, a[0], y))))
        I.throw(AttributeError, "'tuple' object has no attribute '%s'" % name)
    if t is BType:
        return btype_attr(I, o, name)
    if t in (Func, BoundM):
        f = o if t is Func else o.func
        if type(f) is Func:
            if name in f.attrs:
                return f.attrs[name]
            if name in ("__name__", "__qualname__"):
                return f.name
            if name == "__doc__":
                return None
            if name == "__isabstractmethod__":
                return bool(f.attrs.get("__abstract__"))
            if name == "__func__":
                return f
            if name == "__self__" and t is BoundM:
                return o.self_
            if name == "__module__":
                return f.genv[1]
            if name == "__call__":
                return o
            if name == "cache_clear":
                return Builtin("cache_clear", lambda I, a, kw: None)
        I.throw(AttributeError, "function has no attribute %r" % name)
    if t is PropV:
        if name == "setter":
            return Builtin("setter", lambda I, a, kw: PropV(o.fget, a[0]))
        if name in ("getter", "deleter"):
            return Builtin("getter", lambda I, a, kw: PropV(a[0] if name == "getter" else o.fget, o.fset))
        if name == "fget":
            return o.fget
        if name == "fset":
            return o.fset
        if name == "__doc__":
            return None
    if t is Opaque:
        return Opaque(o.name + "." + name)
    if t is ExcT:
        if name in ("__name__", "__qualname__"):
            return o.cls.__name__
        if name == "__init__":
            return Builtin("exc.__init__", lambda I, a, kw: exc_init(I, a))
    if o is None:
        if name == "__class__":
            return T["NoneType"]
        I.throw(AttributeError, "'NoneType' object has no attribute '%s'" % name)
    if is_num(o) or t is bool:
        if name == "is_integer":
            def isint(I, a, kw):
                v = simp(I.S, o)
                if type(v) is float:
                    return v.is_integer()
                return True if v_isint(v) else I.choose(2) == 0
            return Builtin("is_integer", isint)
        if name in ("real", "numerator"):
            return o
        if name == "__class__":
            return type_of(I, o)
        if name in ("__float__",):
            return Builtin("float", lambda I, a, kw: num_float(I, o))
        if name in ("__int__", "__trunc__"):
            return Builtin("int", lambda I, a, kw: num_int(I, o))
        I.throw(AttributeError, "'%s' object has no attribute '%s'" % ("int", name))
    if t is It:
        if o.kind in ("keys", "items", "values"):
            I.throw(AttributeError, "dict view has no attribute %r" % name)
        if name == "__iter__":
            return Builtin("iter", lambda I, a, kw: make_iter(I, o))
        I.throw(AttributeError, "iterator has no attribute %r" % name)
    if t is Builtin:
        if name == "from_iterable":
            return B("chain.from_iterable", lambda I, a, kw: It("chain", tuple(to_items(I, a[0]))))
        if name == "__name__":
            return o.name
        if name == "fromkeys":
            return btype_attr(I, T["dict"], name)
        return Opaque(o.name + "." + name)
    if t in (StaticM, ClassM):
        if name == "__func__":
            return o.f
    raise Undecided("attribute %r of %r at %s" % (name, o, I.where()))


getattr = getattr_


def exc_init(I, a):
    if a and type(I.rv(a[0])) is Ref:
        I.S.own(I.rv(a[0]).oid).d["args"] = Tup(tuple(a[1:]))
    return None


def inst_attr(I, o, ob, name):
    cls = ob.cls
    if isinstance(cls, ExcT):
        if name in ob.d:
            return ob.d[name]
        if name == "__class__":
            return cls
        if name in ("with_traceback", "add_note"):
            return Builtin(name, lambda I, a, kw: o)
        if name == "__traceback__":
            return None
        if name == "value" and cls.cls is StopIteration:
            return None
        I.throw(AttributeError, "exception has no attribute %r" % name)
    c = I.class_attr(cls, name)
    if type(c) is PropV and not c.cached:
        return I.call(c.fget, (o,), {})
    v = ob.d.get(name, UNB)
    if type(v) is Union and UNB in v.alts:
        v = I.rv(v)
    if v is not UNB:
        if ob.weak:
            return I.unsure(v)
        return v
    if type(c) is PropV:
        v = I.call(c.fget, (o,), {})
        I.set_attr_obj(o.oid, name, v)
        return v
    if c is not None:
        return I.bind(c, o, cls)
    if name == "__class__":
        return cls
    if name == "__dict__":
        return Ref(I.alloc("dict", None, DictD(tuple((k, v, True) for k, v in ob.d.items()))))
    if name in ("__str__", "__repr__"):
        return Builtin("object.__str__", lambda I, a, kw: TStr(fresh_id()) if name == "__repr__" else py_str(I, o))
    if name == "__doc__" or name == "__traceback__":
        return None
    if name == "__module__":
        return cls.path
    if name == "__init__":
        return Builtin("object.__init__", lambda I, a, kw: None)
    if name in ("__eq__", "__ne__"):
        return Builtin(name, lambda I, a, kw: is_same(I, o, a[0]) == (name == "__eq__"))
    if name == "__hash__":
        return Builtin(name, lambda I, a, kw: TNum(-INF, INF, True, fresh_id()))
    if cls.exc is not None and name in ("with_traceback", "add_note"):
        return Builtin(name, lambda I, a, kw: o)
    ga = I.class_attr(cls, "__getattr__")
    if ga is not None:
        return I.call(I.bind(ga, o, cls), (name,), {})
    I.throw(AttributeError, "'%s' object has no attribute '%s'" % (cls.name, name))


def class_getattr(I, cls, name):
    v = I.class_attr(cls, name)
    if v is not None:
        if type(v) is StaticM:
            return v.f
        if type(v) is ClassM:
            return BoundM(v.f, cls)
        return v
    if I.S.get(cls.oid).d.get(name, UNB) is None:
        return None
    for c in cls.mro:
        if isinstance(c, ClassV) and name in I.S.get(c.oid).d:
            return None
    if name in ("__name__", "__qualname__"):
        return cls.name
    if name == "__module__":
        return cls.path
    if name == "__doc__":
        return None
    if name == "__mro__":
        return Tup(tuple(cls.mro))
    if name == "__members__":
        return I.new_dict(list(cls.meta.get("enum_members", {}).items()))
    if name == "__subclasses__":
        return Builtin("subclasses", lambda I, a, kw: I.new_list(()))
    if name == "__dict__":
        return Ref(I.alloc("dict", None, DictD(tuple((k, v, True) for k, v in I.S.get(cls.oid).d.items()))))
    if cls.ntfields is not None:
        if name == "_make":
            return Builtin("_make", lambda I, a, kw: Tup(tuple(to_items(I, a[0])), cls))
        if name == "_fields":
            return Tup(tuple(cls.ntfields))
    if name == "__init__":
        if cls.exc is not None:
            return Builtin("exc.__init__", lambda I, a, kw: exc_init(I, a))
        return Builtin("object.__init__", lambda I, a, kw: None)
    if name == "__new__":
        return Builtin("object.__new__", lambda I, a, kw: Ref(I.alloc("inst", I.rv(a[0]), {}, "new")))
    if name == "__annotations__":
        return I.new_dict(())
    if name == "register":
        return Builtin("register", lambda I, a, kw: a[0])
    I.throw(AttributeError, "type object '%s' has no attribute '%s'" % (cls.name, name))


def super_attr(I, s, name):
    obj = s.obj
    if type(obj) is ClassV:
        cls = obj
    else:
        cls = I.S.get(obj.oid).cls
    v = I.class_attr(cls, name, after=s.cls)
    if v is not None:
        if type(obj) is ClassV:
            if type(v) is ClassM:
                return BoundM(v.f, obj)
            return v.f if type(v) is StaticM else v
        return I.bind(v, obj, cls)
    if name in ("__init__", "__init_subclass__", "__post_init__", "__enter__", "__exit__", "__setattr__"):
        if cls.exc is not None and name == "__init__":
            return Builtin("exc.__init__", lambda I, a, kw: exc_init(I, (obj,) + tuple(a)))
        if name == "__setattr__":
            return Builtin("setattr", lambda I, a, kw: I.set_attr_obj(obj.oid, a[0], a[1]))
        if name == "__init__":
            def oi(I, a, kw):
                if a or kw:
                    I.throw(TypeError, "object.__init__() takes exactly one argument")
            return Builtin("object.__init__", oi)
        return Builtin("object." + name, lambda I, a, kw: None)
    if name == "__new__":
        return Builtin("object.__new__", lambda I, a, kw: Ref(I.alloc("inst", I.rv(a[0]), {}, "new")))
    if name in ("__str__", "__repr__"):
        return Builtin("object.__str__", lambda I, a, kw: TStr(fresh_id()))
    if name == "__eq__":
        return Builtin("object.__eq__", lambda I, a, kw: is_same(I, obj, a[0]))
    if name == "__hash__":
        return Builtin("object.__hash__", lambda I, a, kw: TNum(-INF, INF, True, fresh_id()))
    I.throw(AttributeError, "'super' object has no attribute '%s'" % name)


def mod_attr(I, m, name):
    if m.oid is not None:
        d = I.S.get(m.oid).d
        if name in d:
            return d[name]
        p, _ = I.module_path(m.name + "." + name)
        if p is not None and (m.name + "." + name) in I.modules:
            return I.modules[m.name + "." + name]
        g = d.get("__getattr__")
        if g is not None:
            return I.call(g, (name,), {})
        I.throw(AttributeError, "module %r has no attribute %r" % (m.name, name))
    if m.table is not None and name in m.table:
        return m.table[name]
    if m.name in EFFECT_MODULES:
        return Builtin("%s.%s" % (m.name, name), effect("%s.%s" % (m.name, name)))
    if m.name in ("typing", "typing_extensions", "collections.abc", "types", "abc"):
        return Opaque(name)
    sub = m.name + "." + name
    if sub in KNOWN_SUB:
        return I.import_module(sub)
    raise Undecided("%s.%s is not modelled" % (m.name, name))


def effect(what):
    def f(I, a, kw):
        I.event("effect", what)
        return Opaque(what + "()")
    return f


EFFECT_MODULES = {"os", "sys", "io", "logging", "warnings", "random", "time", "socket", "subprocess",
                  "urllib", "urllib.request", "requests", "shutil", "pathlib", "tempfile", "threading",
                  "os.path", "secrets", "uuid", "locale", "http.client", "pickle", "sqlite3", "ctypes",
                  "builtins", "atexit", "signal", "asyncio", "multiprocessing", "gc", "importlib"}
KNOWN_SUB = {"os.path", "collections.abc", "urllib.request", "importlib.metadata"}


# ---------------------------------------------------------------- types
def type_of(I, v):
    v = I.force(v)
    t = type(v)
    if is_str(v):
        return T["str"]
    if t is bool:
        return T["bool"]
    if is_num(v):
        return T["int"] if (t is LenV or t is int or (t in (Num, TNum) and v.isint)) else T["float"]
    if v is None:
        return T["NoneType"]
    if t is Tup:
        return v.cls or T["tuple"]
    if t is Ref:
        o = I.S.get(v.oid)
        if o.kind == "inst":
            return o.cls
        return {"list": T["list"], "dict": T["dict"], "set": T["set"], "match": T["Match"],
                "iter": Opaque("iterator"), "gen": T["generator"]}[o.kind]
    return {DT: T["datetime"], ADate: T["date"], TD: T["timedelta"], Pat: T["Pattern"], Func: T["function"],
            BoundM: T["function"], Builtin: T["function"], ClassV: T["type"], BType: T["type"],
            ExcT: T["type"], It: T.get(getattr_kind(v), T["range"])}.get(t, Opaque("type"))


def getattr_kind(v):
    return v.kind if type(v) is It else ""


SUB = {"bool": ("int",), "datetime": ("date",), "defaultdict": ("dict",), "OrderedDict": ("dict",)}
NUMABC = {"Number", "Real", "Complex"}


def isinstance_(I, v, cls):
    v, cls = I.force(v), I.rv(cls)
    if type(cls) is Tup:
        return any(isinstance_(I, v, c) for c in cls.items)
    t = type_of(I, v)
    if type(cls) is BType:
        if cls.name == "object":
            return True
        if type(t) is BType:
            return t.name == cls.name or cls.name in SUB.get(t.name, ()) or (
                cls.name == "type" and t.name == "type")
        if type(t) is ClassV:
            return cls in t.mro or (t.ntfields is not None and cls.name == "tuple")
        return False
    if type(cls) is ClassV:
        return type(t) is ClassV and cls in t.mro
    if type(cls) is ExcT:
        if isinstance(t, ExcT):
            return issubclass(t.cls, cls.cls)
        return type(t) is ClassV and t.exc is not None and issubclass(t.exc, cls.cls)
    if type(cls) is Opaque:
        n = cls.name.split(".")[-1].split("[")[0]
        if n in ("Callable",):
            return type(v) in (Func, BoundM, Builtin, ClassV, BType)
        if n in ("Iterable", "Sequence", "Mapping", "Sized", "Collection", "Iterator", "Hashable"):
            k = t.name if type(t) is BType else ""
            return {"Iterable": k in ("str", "list", "dict", "tuple", "set", "generator"),
                    "Sequence": k in ("str", "list", "tuple"), "Mapping": k == "dict",
                    "Collection": k in ("str", "list", "dict", "tuple", "set"),
                    "Sized": k in ("str", "list", "dict", "tuple", "set"),
                    "Iterator": k == "generator", "Hashable": k not in ("list", "dict", "set")}[n]
        if n in NUMABC:
            return is_num(v)
        if n in ("Pattern",):
            return type(v) is Pat
        if n in ("Match",):
            return is_ref(I, v, "match")
        return I.choose(2) == 0
    I.throw(TypeError, "isinstance() arg 2 must be a type")


def py_len(I, v):
    v = I.force(v)
    t = type(v)
    if is_str(v):
        return str_len(I, v)
    if t is Tup:
        return len(v.items)
    if t is Ref:
        o = I.S.get(v.oid)
        if o.kind == "list":
            return list_len(I, v.oid)
        if o.kind == "dict":
            return dict_len(I, v.oid)
        if o.kind == "set":
            if o.d.rest is None:
                return len(o.d.items)
            return TNum(len(o.d.items), INF, True, fresh_id())
        if o.kind == "inst" and isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, "__len__")
            if m is not None:
                r = I.rv(I.call(I.bind(m, v, o.cls), (), {}))
                if not is_num(r) and type(r) is not bool:
                    I.throw(TypeError, "'%s' object cannot be interpreted as an integer" % type_name(I, r))
                return r
    if t is It:
        if v.kind in ("keys", "values", "items"):
            return dict_len(I, v.args[0].oid)
        if v.kind == "range":
            its = to_items_or_none(I, v)
            return len(its) if its is not None else TNum(0, INF, True, fresh_id())
    if t is ClassV and v.meta.get("enum"):
        return len(v.meta["enum"])
    I.throw(TypeError, "object of type '%s' has no len()" % type_name(I, v))


def call_type(I, bt, args, kw):
    n = bt.name
    args = tuple(args)
    a = [I.rv(x) for x in args]
    if n == "str":
        if not a:
            return ""
        return py_str(I, a[0])
    if n in ("int", "float"):
        if not a:
            return 0 if n == "int" else 0.0
        v = I.force(a[0])
        base = a[1] if len(a) > 1 else kw.get("base")
        if is_str(v):
            if base not in (None, 10):
                v = sn(I, v)
                if type(v) is str:
                    try:
                        return int(v, base)
                    except ValueError as e:
                        I.throw(ValueError, str(e))
                return TNum(0, INF, True, fresh_id())
            return parse_num(I, v, n == "int")
        if is_num(v) or type(v) is bool:
            if n == "int":
                lo, hi = num_iv(I, v) if type(v) is not bool else (0, 1)
                return num_int(I, v)
            return num_float(I, v)
        if type(v) is Ref:
            o = I.S.get(v.oid)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                m = I.class_attr(o.cls, "__int__" if n == "int" else "__float__")
                if m is not None:
                    return I.call(I.bind(m, v, o.cls), (), {})
        I.throw(TypeError, "%s() argument must be a string or a real number, not %s" % (n, type_name(I, v)))
    if n == "bool":
        return truth(I, args[0]) if args else False
    if n in ("list", "tuple", "set", "frozenset", "deque"):
        if not a:
            return Tup(()) if n == "tuple" else I.new_list(()) if n in ("list", "deque") else I.new_set((), n == "frozenset")
        its = to_items_or_none(I, a[0])
        if its is None:
            el, lo, hi = abstract_seq(I, a[0])
            if n == "tuple":
                if lo == hi and hi < 50:
                    return Tup(tuple(fresh_elem(I, el) for _ in range(lo)))
                return Ref(I.alloc("list", None, ListD((), el, lo, hi)))
            if n in ("list", "deque"):
                return Ref(I.alloc("list", None, ListD((), el, lo, hi)))
            return Ref(I.alloc("set", None, SetD((), el, n == "frozenset")))
        if n == "tuple":
            return Tup(tuple(its))
        if n in ("list", "deque"):
            return I.new_list(its)
        r = I.new_set((), n == "frozenset")
        for x in its:
            set_add(I, r.oid, x)
        return r
    if n in ("dict", "OrderedDict"):
        r = I.new_dict(())
        if a:
            dict_update(I, r, a[0])
        for k, v in kw.items():
            dict_set(I, r.oid, k, v)
        return r
    if n == "MappingProxyType":
        return a[0]
    if n == "defaultdict":
        oid = I.alloc("dict", ("defaultdict", a[0]) if a and a[0] is not None else None, DictD(), "dd")
        if len(a) > 1:
            dict_update(I, Ref(oid), a[1])
        return Ref(oid)
    if n == "object":
        return Ref(I.alloc("inst", OBJ, {}, "object"))
    if n == "type":
        if len(a) == 1:
            return type_of(I, a[0])
        raise Undecided("type() with three arguments")
    if n == "datetime":
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
        v = dict(zip(names, a))
        v.update({k: I.force(x) for k, x in kw.items()})
        for k in ("year", "month", "day"):
            if k not in v:
                I.throw(TypeError, "function missing required argument %r" % k)
        return mk_dt(I, v["year"], v["month"], v["day"], v.get("hour", 0), v.get("minute", 0), v.get("second", 0))
    if n == "date":
        v = dict(zip(["year", "month", "day"], a))
        v.update({k: I.force(x) for k, x in kw.items()})
        return mk_date(I, v["year"], v["month"], v["day"])
    if n == "timedelta":
        return td_make(I, a, kw)
    if n in ("timezone", "time"):
        return Opaque(n)
    if n == "range":
        for x in a:
            if not is_num(x) or type(x) is float:
                I.throw(TypeError, "'%s' object cannot be interpreted as an integer" % type_name(I, x))
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return It("range", (lo, hi, st))
    if n == "property":
        return PropV(a[0] if a else kw.get("fget"), a[1] if len(a) > 1 else kw.get("fset"))
    if n == "cached_property":
        return PropV(a[0], None, True)
    if n == "staticmethod":
        return StaticM(a[0])
    if n == "classmethod":
        return ClassM(a[0])
    if n == "enumerate":
        return It("enumerate", (a[0], a[1] if len(a) > 1 else I.rv(kw.get("start", 0))))
    if n == "zip":
        return It("zip", tuple(a))
    if n == "map":
        return It("map", tuple(a))
    if n == "filter":
        return It("filter", tuple(a))
    if n == "reversed":
        v = a[0]
        if type(v) is Ref and I.S.get(v.oid).kind == "list":
            d = I.S.get(v.oid).d
            if d.exact:
                return It("seq", tuple(reversed(d.tail)))
        if type(v) is Tup:
            return It("seq", tuple(reversed(v.items)))
        return It("reversed", (v,))
    if n == "super":
        if len(a) == 2:
            return SuperV(a[0], a[1])
    if n == "slice":
        return It("slice", tuple((list(a) + [None, None])[:3]) if len(a) > 1 else (None, a[0], None))
    if n == "bytes":
        return Opaque("bytes")
    if n == "NamedTuple":
        raise Undecided("functional NamedTuple")
    if n == "NoneType":
        return None
    raise Undecided("call of type %s" % n)


OBJ = ClassV("object", (), ("class", "builtins", "object"), "builtins")
OBJ.mro = [OBJ]


def btype_attr(I, bt, name):
    n = bt.name
    if n in ("datetime", "date"):
        if name in ("now", "utcnow", "today"):
            def f(I, a, kw):
                r = now(I, "%s.%s" % (n, name))
                return r if n == "datetime" else r.date
            return B("%s.%s" % (n, name), f)
        if name == "strptime":
            return B("strptime", lambda I, a, kw: strptime(I, a[0] if a else kw["date_string"],
                                                           a[1] if len(a) > 1 else kw["format"]))
        if name == "combine":
            def comb(I, a, kw):
                raise Undecided("datetime.combine")
            return B("combine", comb)
        if name == "fromisoformat":
            def fi(I, a, kw):
                raise Undecided("fromisoformat")
            return B("fromisoformat", fi)
        if name in ("min", "max"):
            return DT(ADate(("date", 1 if name == "min" else 9999, 1 if name == "min" else 12,
                             1 if name == "min" else 31), 0), 0, 0, 0)
        if name in ("replace", "strftime", "isoformat", "date", "weekday"):
            return B("dt." + name, lambda I, a, kw: dt_method(I, I.rv(a[0]), name, a[1:], kw))
    if n == "dict" and name == "fromkeys":
        def fk(I, a, kw):
            r = I.new_dict(())
            for x in to_items(I, a[0]):
                dict_set(I, r.oid, x, a[1] if len(a) > 1 else None)
            return r
        return B("fromkeys", fk)
    if n == "str":
        if name in METHODS:
            return B("str." + name, lambda I, a, kw: str_method(I, need_self(I, a), name, a[1:], kw))
        if name == "maketrans":
            return B("maketrans", lambda I, a, kw: Opaque("trans"))
    if n in TABLES and name in TABLES[n]:
        return B("%s.%s" % (n, name), lambda I, a, kw: TABLES[n][name](I, I.rv(a[0]), a[1:], kw))
    if n == "timezone" and name == "utc":
        return Opaque("utc")
    if name in ("__name__", "__qualname__"):
        return n
    if n == "object":
        if name == "__new__":
            return B("object.__new__", lambda I, a, kw: Ref(I.alloc("inst", I.rv(a[0]), {}, "new")))
        if name == "__init__":
            return B("object.__init__", lambda I, a, kw: None)
        if name == "__setattr__":
            return B("object.__setattr__", lambda I, a, kw: I.set_attr_obj(I.rv(a[0]).oid, I.rv(a[1]), a[2]))
    if name == "__len__":
        return B("len", lambda I, a, kw: py_len(I, a[0]))
    if n == "float" and name == "fromhex":
        return Opaque("fromhex")
    if n == "type" and name == "__name__":
        return "type"
    raise Undecided("%s.%s" % (n, name))


def need_self(I, a):
    v = I.force(a[0])
    if not is_str(v):
        I.throw(TypeError, "descriptor requires a 'str' object")
    return v


# ---------------------------------------------------------------- classes
def finish_class(I, cls):
    S = I.S
    bases = []
    d = S.own(cls.oid).d
    for b in cls.bases:
        if isinstance(b, ClassV):
            bases.append(b)
            if b.exc is not None and cls.exc is None:
                cls.exc = b.exc
            for k in ("dataclass", "frozen"):
                if b.meta.get(k):
                    cls.meta.setdefault("parent_" + k, True)
            if b.meta.get("enumbase") or b.meta.get("enum") is not None:
                cls.meta["enumbase"] = True
            if b.ntfields is not None and cls.ntfields is None:
                cls.ntfields = b.ntfields
                cls.meta.setdefault("ntdefaults", b.meta.get("ntdefaults", {}))
        elif isinstance(b, ExcT):
            cls.exc = b.cls
        elif isinstance(b, BType):
            if b.name in ("Enum", "IntEnum"):
                cls.meta["enumbase"] = True
            elif b.name == "NamedTuple":
                cls.meta["nt"] = True
            elif b.name in ("object", "ABC", "Protocol", "Generic"):
                pass
            else:
                bases.append(b)
    # C3 linearisation
    seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in bases] + [list(bases)]
    mro = [cls]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            I.throw(TypeError, "Cannot create a consistent method resolution order")
        mro.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    cls.mro = mro
    # abstract methods
    ab = set()
    for c in reversed(mro):
        if not isinstance(c, ClassV):
            continue
        for n, v in S.get(c.oid).d.items():
            if is_abstract(v):
                ab.add(n)
            else:
                ab.discard(n)
    cls.meta["abstract"] = ab
    anns = d.get("__annotations__names__", ())
    if cls.meta.get("nt"):
        cls.ntfields = tuple(anns)
        cls.meta["ntdefaults"] = {n: d[n] for n in anns if n in d}
        for n in anns:
            d.pop(n, None)
    if cls.meta.get("enumbase"):
        mem = {}
        n = 0
        for k, v in list(d.items()):
            if k.startswith("_") or type(v) in (Func, PropV, StaticM, ClassM, ClassV):
                continue
            if isinstance(v, Opaque) and v.name == "auto()":
                n += 1
                v = n
            oid = ("enum", cls.oid, k)
            S.put(oid, Obj("inst", cls, {"value": v, "name": k, "_value_": v, "_name_": k}))
            d[k] = Ref(oid)
            mem[k] = Ref(oid)
        if mem:
            cls.meta["enum_members"] = mem
            cls.meta["enum"] = list(mem.values())
    for n, v in d.items():
        pass
    hook = None
    for c in mro[1:]:
        if isinstance(c, ClassV) and "__init_subclass__" in S.get(c.oid).d:
            hook = S.get(c.oid).d["__init_subclass__"]
            break
    if hook is not None:
        I.call(hook.f if type(hook) is ClassM else hook, (cls,), {})
    for n, v in list(d.items()):
        if type(v) is Ref and S.get(v.oid).kind == "inst" and isinstance(S.get(v.oid).cls, ClassV):
            m = I.class_attr(S.get(v.oid).cls, "__get__")
            if m is not None:
                raise Undecided("user-defined descriptor")


def is_abstract(v):
    if type(v) is Func:
        return bool(v.attrs.get("__abstract__"))
    if type(v) is PropV:
        return is_abstract(v.fget) if v.fget is not None else False
    if type(v) in (StaticM, ClassM):
        return is_abstract(v.f)
    return False


def dc_fields(I, cls):
    out = []
    for c in reversed(cls.mro):
        if isinstance(c, ClassV) and c.meta.get("dataclass"):
            d = I.S.get(c.oid).d
            for n in d.get("__annotations__names__", ()):
                out = [x for x in out if x[0] != n]
                out.append((n, d.get(n, UNB)))
    return out


def special_new(I, cls, args, kw):
    if cls.ntfields is not None:
        fs = cls.ntfields
        if len(args) > len(fs):
            I.throw(TypeError, "too many arguments for %s" % cls.name)
        vals = dict(zip(fs, args))
        for k, v in kw.items():
            if k not in fs or k in vals:
                I.throw(TypeError, "unexpected keyword argument %r" % k)
            vals[k] = v
        df = cls.meta.get("ntdefaults", {})
        for f in fs:
            if f not in vals:
                if f not in df:
                    I.throw(TypeError, "missing argument %r" % f)
                vals[f] = df[f]
        return Tup(tuple(vals[f] for f in fs), cls)
    if cls.meta.get("enum") is not None and args:
        for m in cls.meta["enum"]:
            if I.truth(py_eq(I, I.S.get(m.oid).d["value"], args[0])):
                return m
        I.throw(ValueError, "not a valid %s" % cls.name)
    new = I.class_attr(cls, "__new__")
    if new is not None:
        f = new.f if type(new) is StaticM else new
        r = I.rv(I.call(f, (cls,) + tuple(args), kw))
        if type(r) is Ref and I.S.get(r.oid).kind == "inst" and I.S.get(r.oid).cls is cls:
            init = I.class_attr(cls, "__init__")
            if init is not None:
                I.call(I.bind(init, r, cls), args, kw)
        return r
    if cls.meta.get("dataclass") or cls.meta.get("parent_dataclass"):
        own = I.S.get(cls.oid).d
        if I.class_attr(cls, "__init__") is not None:
            return None
        fields = dc_fields(I, cls)
        oid = I.alloc("inst", cls, {}, ":" + cls.name)
        ref = Ref(oid)
        vals = {}
        names = [f for f, _ in fields]
        if len(args) > len(names):
            I.throw(TypeError, "too many arguments")
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in names or k in vals:
                I.throw(TypeError, "unexpected keyword argument %r" % k)
            vals[k] = v
        for n, df in fields:
            if n not in vals:
                if df is UNB:
                    I.throw(TypeError, "missing argument %r" % n)
                if type(df) is It and df.kind == "field":
                    k = dict(df.args)
                    if "default_factory" in k:
                        vals[n] = I.call(k["default_factory"], (), {})
                    elif "default" in k:
                        vals[n] = k["default"]
                    else:
                        I.throw(TypeError, "missing argument %r" % n)
                else:
                    vals[n] = df
        I.S.own(oid).d.update({n: vals[n] for n in names})
        pi = I.class_attr(cls, "__post_init__")
        if pi is not None:
            I.call(I.bind(pi, ref, cls), (), {})
        return ref
    return None


# ---------------------------------------------------------------- builtins
def b_print(I, a, kw):
    I.event("effect", "print")
    for x in a:
        py_str(I, x)
    return None


def b_minmax(name):
    def f(I, a, kw):
        its = to_items_or_none(I, a[0]) if len(a) == 1 else list(a)
        if its is None:
            el, lo, hi = abstract_seq(I, a[0])
            if lo == 0 and "default" not in kw and I.choose(2):
                I.throw(ValueError, "%s() arg is an empty sequence" % name)
            return fresh_elem(I, el)
        if not its:
            if "default" in kw:
                return kw["default"]
            I.throw(ValueError, "%s() arg is an empty sequence" % name)
        key = kw.get("key")
        best = its[0]
        bk = I.call(key, (best,), {}) if key is not None else best
        for x in its[1:]:
            k = I.call(key, (x,), {}) if key is not None else x
            if truth(I, compare(I, "Lt" if name == "min" else "Gt", k, bk)):
                best, bk = x, k
        return best
    return f


def b_sum(I, a, kw):
    its = to_items_or_none(I, a[0])
    s = a[1] if len(a) > 1 else kw.get("start", 0)
    if its is None:
        el, lo, hi = abstract_seq(I, a[0])
        el = I.rv(el)
        if not is_num(el):
            I.throw(TypeError, "unsupported operand type(s) for +")
        return TNum(-INF, INF, _isint_any(el), fresh_id())
    for x in its:
        s = binop(I, "Add", s, x)
    return s


def _isint_any(v):
    return v_isint(v) if type(v) is not TNum else v.isint


def b_anyall(name):
    def f(I, a, kw):
        want = name == "any"

        def cb(x):
            if truth(I, x) == want:
                return ("sig", "brk")
            return None
        r = iterate(I, a[0], cb)
        return (r == ("sig", "brk")) == want
    return f


def b_getattr(I, a, kw):
    from .interp import PyExc
    name = I.force(a[1])
    if type(name) is not str:
        raise Undecided("getattr with computed name at %s" % I.where())
    if len(a) == 2:
        return getattr_(I, I.rv(a[0]), name)
    fr, nf, dp = I.frame, len(I.frames), I.depth
    try:
        return getattr_(I, I.rv(a[0]), name)
    except PyExc as e:
        if I.exc_isinstance(e.cls, ExcT(AttributeError)):
            I.frame = fr
            del I.frames[nf:]
            I.depth = dp
            return a[2]
        raise


def b_hasattr(I, a, kw):
    r = b_getattr(I, (a[0], a[1], UNB), kw)
    return r is not UNB


def b_setattr(I, a, kw):
    name = I.force(a[1])
    if type(name) is not str:
        raise Undecided("setattr with computed name")
    I.setattr(I.rv(a[0]), name, a[2])


def b_sorted(I, a, kw):
    its = to_items_or_none(I, a[0])
    if its is not None:
        r = sort_items(I, its, kw)
        if r is not None:
            return I.new_list(r)
        return Ref(I.alloc("list", None, ListD((), join_many(I, its), len(its), len(its))))
    el, lo, hi = abstract_seq(I, a[0])
    return Ref(I.alloc("list", None, ListD((), el, lo, hi)))


def b_round(I, a, kw):
    v = I.force(a[0])
    n = I.rv(a[1]) if len(a) > 1 else I.rv(kw.get("ndigits"))
    if not is_num(v) and type(v) is not bool:
        I.throw(TypeError, "type %s doesn't define __round__ method" % type_name(I, v))
    return num_round(I, v, n)


def b_abs(I, a, kw):
    v = I.force(a[0])
    if type(v) is TD:
        return TD(num_abs(I, v.minutes))
    if not is_num(v) and type(v) is not bool:
        I.throw(TypeError, "bad operand type for abs(): %s" % type_name(I, v))
    return num_abs(I, v)


def b_divmod(I, a, kw):
    x, y = I.force(a[0]), I.force(a[1])
    return Tup((binop(I, "FloorDiv", x, y), binop(I, "Mod", x, y)))


def b_chr(I, a, kw):
    v = I.force(a[0])
    v = simp(I.S, v)
    return chr(v) if type(v) is int else TStr(fresh_id())


def b_ord(I, a, kw):
    v = sn(I, I.force(a[0]))
    if type(v) is str and len(v) == 1:
        return ord(v)
    return TNum(0, 0x10FFFF, True, fresh_id())


def b_iter(I, a, kw):
    if len(a) == 2:
        raise Undecided("two-argument iter")
    return make_iter(I, a[0])


def make_builtins(I):
    d = {
        "len": B("len", lambda I, a, k: py_len(I, a[0])),
        "print": B("print", b_print),
        "isinstance": B("isinstance", lambda I, a, k: isinstance_(I, a[0], a[1])),
        "issubclass": B("issubclass", b_issubclass),
        "getattr": B("getattr", b_getattr), "hasattr": B("hasattr", b_hasattr),
        "setattr": B("setattr", b_setattr),
        "delattr": B("delattr", lambda I, a, k: I.S.own(I.rv(a[0]).oid).d.pop(I.rv(a[1]), None)),
        "min": B("min", b_minmax("min")), "max": B("max", b_minmax("max")),
        "sum": B("sum", b_sum), "any": B("any", b_anyall("any")), "all": B("all", b_anyall("all")),
        "sorted": B("sorted", b_sorted), "round": B("round", b_round), "abs": B("abs", b_abs),
        "divmod": B("divmod", b_divmod), "chr": B("chr", b_chr), "ord": B("ord", b_ord),
        "pow": B("pow", lambda I, a, k: binop(I, "Pow", a[0], a[1])),
        "iter": B("iter", b_iter),
        "next": B("next", lambda I, a, k: py_next(I, a[0], a[1] if len(a) > 1 else UNB)),
        "repr": B("repr", lambda I, a, k: py_repr(I, a[0])),
        "format": B("format", lambda I, a, k: py_format(I, a[0], a[1] if len(a) > 1 else "")),
        "callable": B("callable", lambda I, a, k: type(I.rv(a[0])) in (Func, BoundM, Builtin, ClassV, BType, ExcT)),
        "id": B("id", lambda I, a, k: TNum(0, INF, True, fresh_id())),
        "hash": B("hash", lambda I, a, k: TNum(-INF, INF, True, fresh_id())),
        "vars": B("vars", lambda I, a, k: getattr_(I, I.rv(a[0]), "__dict__")),
        "super": B("super", lambda I, a, k: SuperV(I.rv(a[0]), I.rv(a[1]))),
        "NotImplemented": NOTIMPL, "Ellipsis": ELLIPSIS, "__name__": "__module__", "__debug__": True,
        "__import__": B("__import__", lambda I, a, k: I.import_module(I.rv(a[0]))),
    }
    for n in ("open", "input", "exec", "eval", "compile", "globals", "locals", "breakpoint", "exit", "quit"):
        d[n] = B(n, effect(n))
    for n in ("str", "int", "float", "bool", "list", "dict", "tuple", "set", "frozenset", "object",
              "type", "range", "property", "staticmethod", "classmethod", "enumerate", "zip", "map",
              "filter", "reversed", "bytes", "complex", "slice"):
        d[n] = T[n]
    import builtins as bi
    for n in dir(bi):
        o = vars(bi)[n]
        if isinstance(o, type) and issubclass(o, BaseException):
            d[n] = ExcT(o)
    return d


def b_issubclass(I, a, kw):
    c, p = I.rv(a[0]), I.rv(a[1])
    ps = p.items if type(p) is Tup else (p,)
    for p in ps:
        if type(c) is ClassV and (p in c.mro or (isinstance(p, ExcT) and c.exc is not None
                                                and issubclass(c.exc, p.cls))):
            return True
        if type(c) is ExcT and type(p) is ExcT and issubclass(c.cls, p.cls):
            return True
        if type(c) is BType and type(p) is BType and (c.name == p.name or p.name in SUB.get(c.name, ())):
            return True
    return False


# ---------------------------------------------------------------- modules
def nt_make(I, a, kw):
    name = I.rv(a[0])
    fs = I.rv(a[1]) if len(a) > 1 else I.rv(kw["field_names"])
    if type(fs) is str:
        fs = fs.replace(",", " ").split()
    else:
        fs = [I.rv(x) for x in to_items(I, fs)]
    oid = ("class", "nt", name, I.frame_site())
    cls = ClassV(name, (), oid, I.frame.path)
    I.S.put(oid, Obj("cls", cls, {}))
    cls.mro = [cls]
    cls.ntfields = tuple(fs)
    df = kw.get("defaults")
    if df is not None:
        ds = to_items(I, df)
        cls.meta["ntdefaults"] = dict(zip(fs[len(fs) - len(ds):], ds))
    return cls


def deco_id(name):
    return B(name, lambda I, a, k: a[0])


def abstractmethod(I, a, kw):
    f = I.rv(a[0])
    if type(f) is Func:
        f.attrs["__abstract__"] = True
    elif type(f) is PropV and type(f.fget) is Func:
        f.fget.attrs["__abstract__"] = True
    return f


def dataclass(I, a, kw):
    def deco(c):
        c.meta["dataclass"] = True
        if kw.get("frozen"):
            c.meta["frozen"] = True
        if kw.get("order") or kw.get("eq", True):
            d = I.S.own(c.oid).d
            if "__eq__" not in d:
                def eq(I, aa, k):
                    x, y = I.rv(aa[0]), I.rv(aa[1])
                    if not (type(y) is Ref and I.S.get(y.oid).kind == "inst"
                            and I.S.get(y.oid).cls is I.S.get(x.oid).cls):
                        return NOTIMPL
                    return all(I.truth(py_eq(I, getattr_(I, x, f), getattr_(I, y, f))) for f, _ in dc_fields(I, c))
                d["__eq__"] = B("method:__eq__", eq)
        return c
    if a:
        return deco(I.rv(a[0]))
    return B("dataclass()", lambda I, aa, k: deco(I.rv(aa[0])))


def lru_cache(I, a, kw):
    """Memoisation does not change results of pure functions; the cached object
    itself is shared between calls."""
    if a and type(I.rv(a[0])) in (Func, BoundM):
        return memo(I, I.rv(a[0]))
    return B("lru_cache()", lambda I, aa, k: memo(I, I.rv(aa[0])))


def memo(I, f):
    f.attrs["__memo__"] = True
    return f


def partial(I, a, kw):
    f, pa, pk = a[0], tuple(a[1:]), dict(kw)
    return B("partial", lambda I, aa, k: I.call(f, pa + tuple(aa), {**pk, **k}))


def reduce_(I, a, kw):
    its = to_items(I, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not its:
            I.throw(TypeError, "reduce() of empty iterable with no initial value")
        acc, its = its[0], its[1:]
    for x in its:
        acc = I.call(a[0], (acc, x), {})
    return acc


def attrgetter(I, a, kw):
    names = [I.rv(x) for x in a]

    def g(I, aa, k):
        out = []
        for n in names:
            v = aa[0]
            for p in n.split("."):
                v = getattr_(I, I.rv(v), p)
            out.append(v)
        return out[0] if len(out) == 1 else Tup(tuple(out))
    return B("attrgetter", g)


def itemgetter(I, a, kw):
    def g(I, aa, k):
        out = [getitem(I, I.rv(aa[0]), x) for x in a]
        return out[0] if len(out) == 1 else Tup(tuple(out))
    return B("itemgetter", g)


def methodcaller(I, a, kw):
    return B("methodcaller", lambda I, aa, k: I.call(getattr_(I, I.rv(aa[0]), I.rv(a[0])), tuple(a[1:]), kw))


def islice(I, a, kw):
    its = to_items_or_none(I, a[0])
    sl = a[1:]
    lo, hi, st = (0, sl[0], 1) if len(sl) == 1 else (sl[0] or 0, sl[1], sl[2] if len(sl) > 2 else 1)
    lo, hi, st = I.rv(lo), I.rv(hi), I.rv(st)
    if its is not None and all(x is None or type(x) is int for x in (lo, hi, st)):
        return It("seq", tuple(its[lo:hi:st]))
    el, l, h = abstract_seq(I, a[0])
    r = Ref(I.alloc("list", None, ListD((), el, 0, min(h, hi) if type(hi) is int else h)))
    return It("list", (r,))


def math_fn(name):
    def f(I, a, kw):
        vs = [I.force(x) for x in a]
        for v in vs:
            if not is_num(v) and type(v) is not bool:
                I.throw(TypeError, "must be real number, not %s" % type_name(I, v))
        vs = [simp(I.S, v) for v in vs]
        if all(type(v) in (int, float, bool) for v in vs):
            try:
                return vars(math)[name](*vs)
            except (ValueError, OverflowError) as e:
                I.throw(type(e), str(e))
        v = vs[0]
        if name in ("floor", "ceil", "trunc"):
            if v_isint(v) if type(v) is not TNum and type(v) is not LenV else _isint_any(v) if type(v) is TNum else True:
                return v
            if type(v) is Num:
                return atom((name if name != "trunc" else "int", v), True)
            lo, hi = num_iv(I, v)
            return TNum(math.floor(lo) if lo > -INF else lo, math.ceil(hi) if hi < INF else hi, True, fresh_id())
        if name == "fabs":
            return num_float(I, num_abs(I, v))
        if name in ("isnan", "isinf"):
            return False
        if name == "isclose":
            return I.choose(2) == 0
        if name == "radians":
            return num_binop(I, "Mult", v, math.pi / 180)
        if name == "degrees":
            return num_binop(I, "Mult", v, 180 / math.pi)
        if type(v) is Num and len(vs) == 1 and name in ("sqrt", "exp", "log", "sin", "cos", "tan"):
            if name in ("sqrt", "log"):
                if num_compare(I, "Lt" if name == "sqrt" else "LtE", v, 0):
                    I.throw(ValueError, "math domain error")
            return atom(("math", name, v), False)
        return TNum(-INF, INF, False, fresh_id())
    return B("math." + name, f)


def suppress(I, a, kw):
    return It("suppress", tuple(a))


def deepcopy(I, a, kw, memo=None):
    memo = {} if memo is None else memo
    v = I.rv(a[0])

    def cp(v):
        v = I.rv(v)
        if type(v) is Tup:
            return Tup(tuple(cp(x) for x in v.items), v.cls)
        if type(v) is Ref:
            if v.oid in memo:
                return Ref(memo[v.oid])
            o = I.S.get(v.oid)
            if o.kind not in ("inst", "list", "dict", "set"):
                return v
            if o.kind == "inst":
                oid = I.alloc("inst", o.cls, {}, "dc")
                memo[v.oid] = oid
                d = {k: cp(x) for k, x in o.d.items()}
                I.S.own(oid).d.update(d)
            elif o.kind == "list":
                oid = I.alloc("list", None, ListD(), "dc")
                memo[v.oid] = oid
                I.S.own(oid).d = ListD(tuple(cp(x) for x in o.d.tail), o.d.pre if o.d.pre is None else cp(o.d.pre),
                                       o.d.lo, o.d.hi)
            elif o.kind == "dict":
                oid = I.alloc("dict", o.cls, DictD(), "dc")
                memo[v.oid] = oid
                I.S.own(oid).d = DictD(tuple((k, cp(x), df) for k, x, df in o.d.items), o.d.rest)
            else:
                oid = I.alloc("set", None, o.d, "dc")
            return Ref(oid)
        return v
    return cp(v)


def shallow(I, a, kw):
    v = I.rv(a[0])
    if type(v) is Ref:
        o = I.S.get(v.oid)
        if o.kind in ("inst", "list", "dict", "set"):
            return Ref(I.alloc(o.kind, o.cls, dict(o.d) if o.kind == "inst" else o.d, "cp"))
    return v


def ctxmgr(I, a, kw):
    raise Undecided("contextmanager")


def re_escape(I, a, kw):
    v = sn(I, I.force(a[0]))
    return _re.escape(v) if type(v) is str else TStr(fresh_id())


def stdlib_module(I, name):
    ty = {n: Opaque(n) for n in (
        "Any", "Dict", "List", "Optional", "Union", "Tuple", "Callable", "Type", "Set", "Iterable",
        "Iterator", "Generator", "Sequence", "Mapping", "ClassVar", "Literal", "Final", "Match",
        "Pattern", "FrozenSet", "MutableMapping", "TypedDict", "Annotated", "Self", "TypeAlias",
        "DefaultDict", "Deque", "Hashable", "SupportsFloat", "NoReturn", "Text", "ContextManager",
        "ParamSpec", "Concatenate", "Awaitable", "Collection", "Reversible", "Container", "Sized",
        "MutableSequence", "Counter", "OrderedDict", "AnyStr", "Never", "Required", "NotRequired", "IO")}
    ty.update({
        "TypeVar": B("TypeVar", lambda I, a, k: Opaque("TypeVar")),
        "NewType": B("NewType", lambda I, a, k: B("NewType()", lambda I, aa, kk: aa[0])),
        "cast": B("cast", lambda I, a, k: a[1]),
        "overload": deco_id("overload"), "final": deco_id("final"), "no_type_check": deco_id("ntc"),
        "runtime_checkable": deco_id("runtime_checkable"), "override": deco_id("override"),
        "TYPE_CHECKING": False, "NamedTuple": T["NamedTuple"], "Protocol": T["Protocol"],
        "Generic": T["Generic"], "get_type_hints": B("gth", lambda I, a, k: I.new_dict(())),
        "assert_never": B("assert_never", lambda I, a, k: I.throw(AssertionError, "unreachable")),
    })
    if name in ("typing", "typing_extensions"):
        return ModV(name, None, ty)
    if name == "__future__":
        return ModV(name, None, {n: Opaque(n) for n in ("annotations", "division", "print_function")})
    if name == "collections.abc":
        return ModV(name, None, ty)
    if name == "abc":
        return ModV(name, None, {"ABCMeta": Opaque("ABCMeta"), "ABC": T["ABC"],
                                 "abstractmethod": B("abstractmethod", abstractmethod),
                                 "abstractproperty": B("abstractproperty", lambda I, a, k: PropV(abstractmethod(I, a, k)))})
    if name == "types":
        return ModV(name, None, {"MappingProxyType": T["MappingProxyType"], "FunctionType": T["function"],
                                 "NoneType": T["NoneType"], "GeneratorType": T["generator"],
                                 "SimpleNamespace": Opaque("SimpleNamespace"), "MethodType": T["function"]})
    if name == "collections":
        return ModV(name, None, {
            "namedtuple": B("namedtuple", nt_make), "OrderedDict": T["OrderedDict"], "deque": T["deque"],
            "defaultdict": T["defaultdict"], "abc": I.import_module("collections.abc"),
            "ChainMap": Opaque("ChainMap"), "Counter": T["Counter"]})
    if name == "re":
        t = {n: re_call(n) for n in PATM}
        t.update({"compile": B("re.compile", lambda I, a, k: compile_pat(
            I, a[0] if a else k["pattern"], a[1] if len(a) > 1 else k.get("flags", 0))),
            "escape": B("re.escape", re_escape), "Match": T["Match"], "Pattern": T["Pattern"],
            "error": RE_ERROR, "purge": B("purge", lambda I, a, k: None)})
        for n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE"):
            t[n] = int(vars(_re)[n])
        return ModV(name, None, t)
    if name == "json":
        return ModV(name, None, {
            "dumps": B("json.dumps", lambda I, a, k: json_dumps(I, a, k)),
            "dump": B("json.dump", effect("json.dump")),
            "loads": B("json.loads", lambda I, a, k: Opaque("json.loads")),
            "load": B("json.load", effect("json.load")),
            "JSONEncoder": Opaque("JSONEncoder"), "JSONDecodeError": ExcT(ValueError)})
    if name == "datetime":
        return ModV(name, None, {"datetime": T["datetime"], "date": T["date"], "time": T["time"],
                                 "timedelta": T["timedelta"], "timezone": T["timezone"], "UTC": Opaque("UTC"),
                                 "MINYEAR": 1, "MAXYEAR": 9999, "tzinfo": Opaque("tzinfo")})
    if name == "math":
        t = {n: math_fn(n) for n in ("floor", "ceil", "trunc", "sqrt", "fabs", "isnan", "isinf", "isclose",
                                     "exp", "log", "log10", "sin", "cos", "tan", "radians", "degrees", "pow",
                                     "fmod", "hypot", "atan2", "gcd", "fsum", "prod", "copysign", "isfinite")}
        t.update({"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan, "tau": math.tau})
        return ModV(name, None, t)
    if name == "functools":
        return ModV(name, None, {
            "lru_cache": B("lru_cache", lru_cache), "cache": B("cache", lru_cache),
            "cached_property": T["cached_property"], "partial": B("partial", partial),
            "reduce": B("reduce", reduce_), "total_ordering": deco_id("total_ordering"),
            "wraps": B("wraps", lambda I, a, k: deco_id("wraps()")),
            "cmp_to_key": Opaque("cmp_to_key"), "singledispatch": Opaque("singledispatch"),
            "update_wrapper": B("update_wrapper", lambda I, a, k: a[0])})
    if name == "itertools":
        return ModV(name, None, {
            "chain": B("chain", lambda I, a, k: It("chain", tuple(I.rv(x) for x in a))),
            "islice": B("islice", islice),
            "zip_longest": B("zip_longest", zip_longest),
            "count": B("count", lambda I, a, k: It("range", (a[0] if a else 0, TNum(0, INF, True, fresh_id()), 1))),
            "takewhile": B("takewhile", takewhile), "dropwhile": B("dropwhile", dropwhile),
            "product": B("product", product_), "starmap": B("starmap", lambda I, a, k: It("seq", tuple(
                I.call(a[0], tuple(to_items(I, x)), {}) for x in to_items(I, a[1])))),
            "repeat": B("repeat", lambda I, a, k: It("seq", (a[0],) * a[1]) if len(a) > 1 else _und("repeat")),
            "accumulate": Opaque("accumulate"), "groupby": Opaque("groupby"),
            "filterfalse": B("filterfalse", lambda I, a, k: It("seq", tuple(
                x for x in to_items(I, a[1]) if not I.truth(I.call(a[0], (x,), {}))))),
            "pairwise": B("pairwise", lambda I, a, k: (lambda z: It("seq", tuple(
                Tup(p) for p in zip(z, z[1:]))))(to_items(I, a[0])))})
    if name == "operator":
        t = {"attrgetter": B("attrgetter", attrgetter), "itemgetter": B("itemgetter", itemgetter),
             "methodcaller": B("methodcaller", methodcaller), "not_": B("not_", lambda I, a, k: not truth(I, a[0])),
             "truth": B("truth", lambda I, a, k: truth(I, a[0])),
             "is_": B("is_", lambda I, a, k: is_same(I, a[0], a[1])),
             "contains": B("contains", lambda I, a, k: contains(I, a[0], a[1])),
             "getitem": B("getitem", lambda I, a, k: getitem(I, I.rv(a[0]), a[1])),
             "neg": B("neg", lambda I, a, k: unary(I, "USub", a[0]))}
        for n, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("mod", "Mod"),
                      ("floordiv", "FloorDiv")):
            t[n] = B(n, lambda I, a, k, op=op: binop(I, op, a[0], a[1]))
        for n, op in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
            t[n] = B(n, lambda I, a, k, op=op: compare(I, op, a[0], a[1]))
        return ModV(name, None, t)
    if name == "enum":
        return ModV(name, None, {"Enum": T["Enum"], "IntEnum": T["IntEnum"], "unique": deco_id("unique"),
                                 "auto": B("auto", lambda I, a, k: Opaque("auto()"))})
    if name == "dataclasses":
        return ModV(name, None, {
            "dataclass": B("dataclass", dataclass),
            "field": B("field", lambda I, a, k: It("field", tuple(sorted(k.items())))),
            "asdict": B("asdict", lambda I, a, k: _asdict(I, a[0])),
            "replace": B("replace", lambda I, a, k: I.call(I.S.get(I.rv(a[0]).oid).cls, (), {
                **{f: getattr_(I, I.rv(a[0]), f) for f, _ in dc_fields(I, I.S.get(I.rv(a[0]).oid).cls)}, **k})),
            "fields": Opaque("fields")})
    if name == "contextlib":
        return ModV(name, None, {"suppress": B("suppress", suppress), "contextmanager": B("contextmanager", ctxmgr)})
    if name == "copy":
        return ModV(name, None, {"copy": B("copy", shallow), "deepcopy": B("deepcopy", deepcopy)})
    if name == "string":
        import string
        return ModV(name, None, {n: vars(string)[n] for n in (
            "ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "punctuation", "whitespace",
            "hexdigits", "printable")})
    if name == "numbers":
        return ModV(name, None, {n: Opaque(n) for n in ("Number", "Real", "Integral")})
    if name == "fractions":
        return ModV(name, None, {"Fraction": B("Fraction", fraction)})
    if name == "decimal":
        return ModV(name, None, {"Decimal": Opaque("Decimal")})
    if name == "bisect":
        return ModV(name, None, {n: B(n, bisect_fn(n)) for n in ("bisect", "bisect_left", "bisect_right")})
    if name == "calendar":
        return ModV(name, None, {
            "monthrange": B("monthrange", lambda I, a, k: Tup((t_int(0, 6), month_len(I, I.force(a[0]), I.force(a[1]))))),
            "isleap": B("isleap", lambda I, a, k: month_len(I, I.force(a[0]), 2) == 29)})
    if name in EFFECT_MODULES:
        return ModV(name, None, {"environ": Opaque("environ"), "argv": Opaque("argv"), "path": Opaque("path"),
                                 "version_info": Tup((3, 12, 3)), "maxsize": 2 ** 63 - 1,
                                 "platform": "linux", "modules": Opaque("modules")}
                    if name in ("os", "sys") else {})
    if name == "importlib.metadata":
        return ModV(name, None, {"version": B("version", lambda I, a, k: TStr(fresh_id()))})
    return ModV(name, None, {})


def fraction(I, a, kw):
    vs = [I.force(x) for x in a]
    if len(vs) == 2:
        return num_binop(I, "Div", vs[0], vs[1])
    v = vs[0]
    if is_num(v):
        return v
    v = sn(I, v)
    p = rex.group
    parts = I.S.get(str_method(I, v, "split", ("/",), {}).oid).d
    if not parts.exact or len(parts.tail) > 2:
        raise Undecided("Fraction of text")
    ns = [parse_num(I, x, True) for x in parts.tail]
    return ns[0] if len(ns) == 1 else num_binop(I, "Div", ns[0], ns[1])


def bisect_fn(name):
    def f(I, a, kw):
        its = to_items(I, a[0])
        x = I.force(a[1])
        i = 0
        while i < len(its):
            if name == "bisect_left":
                go = truth(I, compare(I, "Lt", its[i], x))
            else:
                go = not truth(I, compare(I, "Lt", x, its[i]))
            if not go:
                break
            i += 1
        return i
    return f


def zip_longest(I, a, kw):
    ls = [to_items(I, x) for x in a]
    n = max([len(l) for l in ls] or [0])
    fv = kw.get("fillvalue")
    return It("seq", tuple(Tup(tuple(l[i] if i < len(l) else fv for l in ls)) for i in range(n)))


def takewhile(I, a, kw):
    its = to_items_or_none(I, a[1])
    if its is None:
        el, lo, hi = abstract_seq(I, a[1])
        return It("list", (Ref(I.alloc("list", None, ListD((), el, 0, hi))),))
    out = []
    for x in its:
        if not I.truth(I.call(a[0], (x,), {})):
            break
        out.append(x)
    return It("seq", tuple(out))


def dropwhile(I, a, kw):
    its = to_items(I, a[1])
    i = 0
    while i < len(its) and I.truth(I.call(a[0], (its[i],), {})):
        i += 1
    return It("seq", tuple(its[i:]))


def product_(I, a, kw):
    import itertools
    ls = [to_items(I, x) for x in a]
    return It("seq", tuple(Tup(t) for t in itertools.product(*ls)))


def _asdict(I, v):
    v = I.rv(v)
    if type(v) is Ref:
        o = I.S.get(v.oid)
        if o.kind == "inst" and (o.cls.meta.get("dataclass") or o.cls.meta.get("parent_dataclass")):
            return I.new_dict([(f, _asdict(I, getattr_(I, v, f))) for f, _ in dc_fields(I, o.cls)])
        if o.kind == "list" and o.d.exact:
            return I.new_list([_asdict(I, x) for x in o.d.tail])
        if o.kind == "dict":
            return I.new_dict([(k, _asdict(I, x)) for k, x in dict_exact_items(I, v)])
    return v


# ---------------------------------------------------------------- match statement
def x_match(I, st):
    import ast
    subj = I.eval(st.subject)
    subj = I.rv(subj)
    for case in st.cases:
        if pmatch(I, case.pattern, subj):
            if case.guard is not None and not truth(I, I.eval(case.guard)):
                continue
            return I.exec_block(case.body)
    return None


def pmatch(I, p, v):
    import ast
    v = I.rv(v)
    if isinstance(p, ast.MatchValue):
        return truth(I, py_eq(I, v, I.eval(p.value)))
    if isinstance(p, ast.MatchSingleton):
        return is_same(I, v, p.value)
    if isinstance(p, ast.MatchOr):
        return any(pmatch(I, q, v) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not pmatch(I, p.pattern, v):
            return False
        if p.name:
            I.store_name(p.name, v)
        return True
    if isinstance(p, ast.MatchSequence):
        if not (type(v) is Tup or is_ref(I, v, "list")):
            return False
        its = to_items(I, v)
        star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        if not star:
            return len(its) == len(p.patterns) and all(pmatch(I, q, x) for q, x in zip(p.patterns, its))
        i = star[0]
        after = len(p.patterns) - i - 1
        if len(its) < len(p.patterns) - 1:
            return False
        if not all(pmatch(I, q, x) for q, x in zip(p.patterns[:i], its)):
            return False
        if p.patterns[i].name:
            I.store_name(p.patterns[i].name, I.new_list(its[i:len(its) - after]))
        return all(pmatch(I, q, x) for q, x in zip(p.patterns[i + 1:], its[len(its) - after:]))
    if isinstance(p, ast.MatchClass):
        if not isinstance_(I, v, I.eval(p.cls)):
            return False
        if p.patterns:
            if len(p.patterns) == 1 and type(I.rv(I.eval(p.cls))) is BType:
                return pmatch(I, p.patterns[0], v)
            raise Undecided("positional class pattern")
        return all(pmatch(I, q, getattr_(I, v, n)) for n, q in zip(p.kwd_attrs, p.kwd_patterns))
    if isinstance(p, ast.MatchMapping):
        if not is_ref(I, v, "dict"):
            return False
        for k, q in zip(p.keys, p.patterns):
            f, x = dict_lookup(I, v.oid, I.eval(k))
            if not f or not pmatch(I, q, x):
                return False
        return True
    raise Undecided("pattern %s" % type(p).__name__)
