"""Public reads of an object graph, found in the analysed source; heap fingerprints."""
from .values import *
from .state import *
from . import lib, conts
from .interp import PyExc

SKIPPED = ("__init__",)


def public(I, S, v):
    """(properties, methods without arguments, special reads) of an instance's class, in the source."""
    o = S.get(v.oid)
    props, meths, special = [], [], set()
    seen = set()
    for c in o.cls.mro:
        if not isinstance(c, ClassV):
            continue
        for n, m in S.get(c.oid).d.items():
            if n in seen:
                continue
            seen.add(n)
            if n.startswith("_"):
                if n in ("__str__", "__repr__", "__len__", "__iter__", "__getitem__", "__bool__", "__hash__", "__eq__", "__format__"):
                    special.add(n)
                continue
            if type(m) is PropV:
                props.append(n)
            elif type(m) is Func:
                a = m.node.args
                k = len(a.posonlyargs) + len(a.args)
                if k == 1 + len(a.defaults) and all(d is not None for d in a.kw_defaults):
                    meths.append(n)
            elif type(m) in (StaticM, ClassM):
                continue
            else:
                props.append(n)
    for n in o.d:
        if not n.startswith("_") and n not in seen:
            props.append(n)
    return sorted(props), sorted(meths), special


def instance(I, S, v):
    return type(v) is Ref and S.has(v.oid) and S.get(v.oid).kind == "inst"


def ev(D, S, root, e, names=None):
    """Outcomes of evaluating e with r bound to root from S."""
    I = D.I
    node = D.expr(e)
    I.S = S.fork()
    d = I.S.own(I.frame.env).d
    d["r"] = root
    for n, v in (names or {}).items():
        d[n] = v

    def thunk():
        return I.rv(I.eval(node))
    try:
        return I.explore(thunk)
    finally:
        I.S = D.base


def snap(D, out):
    """Comparable picture of one outcome."""
    I = D.I
    kind, v, S = out
    if kind == "exc":
        return ("raises", v.cls.cls.__name__ if isinstance(v.cls, ExcT) else v.cls.name)
    I.S = S.fork()
    try:
        outs = I.explore(lambda: lib.snapshot(I, v))
    finally:
        I.S = D.base
    if len(outs) != 1:
        raise Undecided("ambiguous picture of a value")
    return outs[0][1] if outs[0][0] == "ok" else ("raises", "?")


def enumerate_reads(D, S, root, depth=5, limit=2500):
    """Expressions of every public read reachable from the root: [(expr, groups?)]."""
    out, lists = [], []
    queue = [("r", root, 0, S)]
    seen = set()
    while queue:
        e, v, k, st = queue.pop(0)
        I = D.I
        if instance(I, st, v):
            key = v.oid
            if key in seen and st is S:
                continue
            if st is S:
                seen.add(key)
            if k > depth:
                continue
            props, meths, special = public(I, st, v)
            reads = ["%s.%s" % (e, n) for n in props] + ["%s.%s()" % (e, n) for n in meths]
            if "__str__" in special:
                out.append("str(%s)" % e)
            if "__repr__" in special:
                out.append("repr(%s)" % e)
            if "__len__" in special:
                out.append("len(%s)" % e)
            out.append("bool(%s)" % e)
            if "__iter__" in special or "__getitem__" in special and "__len__" in special:
                lists.append(e)
                out.append("[x for x in %s]" % e)
                n = ev(D, st, root, "len(%s)" % e) if "__len__" in special else []
                n = n[0][1] if n and n[0][0] == "ok" and type(n[0][1]) is int else 0
                if "__getitem__" in special:
                    reads += ["%s[%d]" % (e, i) for i in range(n)] + ["%s[%d]" % (e, n), "%s[99]" % e]
            for x in reads:
                out.append(x)
                if len(out) > limit:
                    return out, lists
                if x.endswith("to_json()"):
                    continue
                res = ev(D, st, root, x)
                res = [o for o in res if o[0] == "ok"]
                if not res:
                    continue
                w, st2 = res[0][1], res[0][2]
                if instance(I, st2, w):
                    queue.append((x, w, k + 1, S if S.has(w.oid) else st2))
                elif type(w) is Ref and st2.get(w.oid).kind == "list" and st2.get(w.oid).d.exact:
                    for i, y in enumerate(st2.get(w.oid).d.tail[:12]):
                        if instance(I, st2, y):
                            queue.append(("%s[%d]" % (x, i), y, k + 1, S if S.has(y.oid) else st2))
                elif type(w) is Tup:
                    for i, y in enumerate(w.items):
                        if instance(I, st2, y):
                            queue.append(("%s[%d]" % (x, i), y, k + 1, S if S.has(y.oid) else st2))
    return list(dict.fromkeys(out)), lists


# ------------------------------------------------------------- fingerprints
def changed(D, S):
    """Objects of the loaded package which this state holds differently."""
    out = []
    env = D.I.frame.env
    for oid in S.objs:
        if oid in D.base.base and oid != env and not S.objs[oid].same(D.base.base[oid]):
            out.append(oid)
    return sorted(out, key=repr)


def fingerprint(D, S, root):
    """The heap reachable from the root and from the changed objects of the package, names of new objects forgotten."""
    num = {}
    out = []
    base = D.base.base
    todo = []

    def name(oid):
        if oid in base:
            return ("base", oid)
        if oid not in num:
            num[oid] = len(num)
            todo.append(oid)
        return ("new", num[oid])

    def val(v, d=0):
        t = type(v)
        if t is Ref:
            return ("ref", name(v.oid))
        if t is Tup:
            return ("tup", v.cls) + tuple(val(x, d + 1) for x in v.items)
        if t is It:
            return ("it", v.kind) + tuple(val(x, d + 1) for x in v.args)
        if t is Union:
            return ("union",) + tuple(val(x, d + 1) for x in v.alts)
        if t is BoundM:
            return ("bound", val(v.func), val(v.self_))
        if t is Func:
            return ("func", id(v.node), None if v.closure is None else name(v.closure), tuple(val(x) for x in v.defaults))
        if t is tuple:
            return ("t",) + tuple(val(x, d + 1) for x in v)
        if t in (PropV, StaticM, ClassM, ClassV, Builtin, ModV, BType, Opaque):
            return ("id", id(v))
        return v

    def obj(o):
        k, d = o.kind, o.d
        if k in DICTKINDS or k == "exc":
            return (k, id(o.cls) if isinstance(o.cls, ClassV) else (name(o.cls) if k == "env" and o.cls is not None else None),
                    tuple((n, val(d[n])) for n in sorted(d, key=repr)))
        if k == "list":
            return (k, tuple(val(x) for x in d.tail), val(d.pre), d.lo, d.hi)
        if k == "dict":
            return (k, tuple((val(a), val(b), c) for a, b, c in d.items), val(d.rest))
        if k == "set":
            return (k, tuple(val(x) for x in d.items), val(d.rest), d.frozen)
        if k == "iter":
            return (k, tuple(val(x) for x in d.items), d.pos, val(d.rest), None if d.src is None else name(d.src))
        if k == "gen":
            return (k, val(d.func), name(d.env), d.state, d.count)
        return (k, repr(d))

    ch = changed(D, S)
    out.append(val(root))
    for oid in ch:
        out.append((oid, obj(S.get(oid))))
    while todo:
        oid = todo.pop(0)
        out.append(obj(S.get(oid)))
    return repr(out), ch
