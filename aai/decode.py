"""Decode obligations: analyse one construction of a report whose text contains
symbols, then compare each public accessor with a specification, cell by cell of
the partition the analysis produced."""
import ast
import datetime
import inspect
import itertools
import math

from .values import *
from .state import *
from .interp import PyExc, Infeasible
from . import lib, rx, rex
from .nums import eval_num, base_atoms, SEnv
from .strs import word_box, box_words, shape, sn, expand

ENUM_LIMIT = 300000


def field_boxes(f):
    """A field is a regular expression without unbounded repetition, or words."""
    if isinstance(f, str):
        ws = rex.fixed_words(rx.get("^(?:%s)$" % f))
        if ws is None:
            raise Undecided("field %r is not a finite language" % f)
        out = []
        for el, _ in ws:
            if tuple(el) not in out:
                out.append(tuple(el))
        return tuple(disjoint(out))
    return tuple(word_box(w) for w in dict.fromkeys(f))


def word_boxes(w):
    return (tuple(word_box(w)),)


def disjoint(boxes):
    out = []
    for b in boxes:
        todo = [b]
        for o in out:
            nxt = []
            for t in todo:
                nxt += rex.box_minus(t, o) if len(t) == len(o) else [t]
            todo = nxt
        out += todo
    return out


class Path:
    def __init__(self, kind, val, S):
        self.kind, self.val, self.S = kind, val, S


class Exc:
    """An exception outcome; equal to nothing the specification can say, except
    Raises(name)."""
    def __init__(self, name, site, trace):
        self.name, self.site, self.trace = name, site, trace

    def __repr__(self):
        return "raises %s at %s" % (self.name, self.site)


class Raises:
    def __init__(self, *names):
        self.names = names

    def __repr__(self):
        return "raises %s" % "/".join(self.names)


class Decoder:
    def __init__(self, I):
        self.I = I
        self.base = I.S
        self.exprs = {}
        self.memo = {}
        self.frame = I.frame
        self.stats = dict(constructions=0, partitions=0, observations=0, cells=0, values=0)

    def cls(self, name):
        m = self.base.get(("mod", self.I.pkg)).d
        if name not in m:
            raise Undecided("anchor vanished: %s.%s" % (self.I.pkg, name))
        return m[name]

    # -------------------------------------------------------- construction
    def text(self, template, fields):
        """Cells of the template, choosing the shape of each field."""
        I = self.I
        S = I.S
        for n, f in fields.items():
            S.doms[n] = f if isinstance(f, tuple) else field_boxes(f)
        cells = []
        i = 0
        while i < len(template):
            c = template[i]
            if c == "{":
                j = template.index("}", i)
                cells += expand(I, WVal(template[i + 1:j]))
                i = j + 1
            else:
                cells.append(c)
                i += 1
        return mk_str(cells)

    def run(self, thunk):
        I = self.I
        I.S = self.base.fork()
        try:
            outs = I.explore(thunk)
        finally:
            I.S = self.base
        self.stats["constructions"] += 1
        self.stats["partitions"] += len(outs)
        return [Path(*o) for o in outs]

    def construct(self, cls, template, fields=None, blur=True, **kw):
        fields = {n: field_boxes(f) for n, f in (fields or {}).items()}
        c = self.cls(cls)

        def thunk():
            return self.I.call(c, (self.text(template, fields),), dict(kw))
        self.I.blur = blur
        try:
            return self.run(thunk)
        finally:
            self.I.blur = False

    # -------------------------------------------------------- observation
    def expr(self, e):
        if e not in self.exprs:
            self.exprs[e] = ast.parse(e, mode="eval").body
        return self.exprs[e]

    def observe(self, path, e, names=None, snap=True):
        """Outcomes (kind, value, state) of a public read of the report."""
        I = self.I
        node = self.expr(e)
        I.S = path.S.fork()
        env = I.frame.env
        I.S.own(env).d["r"] = path.val
        for n, v in (names or {}).items():
            I.S.own(env).d[n] = v

        def thunk():
            v = I.eval(node)
            return lib.snapshot(I, v) if snap else v
        try:
            outs = I.explore(thunk)
        finally:
            I.S = self.base
        self.stats["observations"] += 1
        return outs

    # -------------------------------------------------------- judgement
    def check(self, paths, e, spec, tol=1e-7, extra=None):
        """All ways in which reading e differs from spec(fields...)."""
        I = self.I
        params = [k for k, q in inspect.signature(spec).parameters.items() if q.default is q.empty]
        bad = []
        for p in paths:
            if p.kind != "ok":
                bad.append(Failure(self.word(p.S, params), Exc(_cn(p.val.cls), p.val.site, p.val.trace),
                                   None, "construction"))
                continue
            seen0 = I.calls_seen
            I.calls_seen = set()
            try:
                outs = self.observe(p, e)
                calls = sorted("%s:%s" % c for c in I.calls_seen)
            finally:
                I.calls_seen = seen0 | I.calls_seen
            for kind, v, S in outs:
                self.stats["cells"] += 1
                if kind == "exc":
                    v = Exc(_cn(v.cls), v.site, v.trace)
                f = self.judge(S, v, spec, params, tol)
                if f is not None:
                    f.expr = e
                    w = self.word(S, S.doms)
                    w.update(f.words)
                    f.words = w
                    f.calls = calls
                    bad.append(f)
        return bad

    def word(self, S, syms):
        out = {}
        for s in syms:
            if s in S.doms:
                b = S.doms[s][0]
                out[s] = "".join((mask_chars(x) or ["?"])[0] if type(x) is int else "*" for x in b)
        return out

    def witness(self, S, limit=200000):
        """Field words satisfying everything this partition assumed; None if none do."""
        syms = set()
        for f in S.facts:
            syms |= {a[1] for m, _ in f for a, _e in m if isinstance(a, tuple) and a[0] == "d" and a[1] in S.doms}
        w = self.word(S, S.doms)
        syms = sorted(syms, key=repr)
        per = []
        n = 1
        for s in syms:
            ws = []
            for b in S.doms[s]:
                if any(type(e) is tuple for e in b):
                    return w
                ws += ["".join(t) for t in itertools.islice(itertools.product(*[mask_chars(e) for e in b]), limit)]
            n *= len(ws)
            per.append(ws)
        if n > limit:
            return w
        for combo in itertools.product(*per):
            ws = dict(zip(syms, combo))
            try:
                if all(fact_holds(S, f, sg, ws) for f, sg in S.facts.items()
                       if all(a[1] in ws for m, _ in f for a, _e in m if isinstance(a, tuple) and a[0] == "d")):
                    w.update(ws)
                    return w
            except Exception:
                return w
        return None

    def extends(self, S, ws):
        """Can the other symbols be chosen so that all the partition assumed holds?"""
        if not S.facts:
            return True
        S2 = S.fork()
        for s, w in ws.items():
            if type(w) is int:
                S2.atoms[s] = (w, w)
            else:
                S2.doms[s] = word_boxes(w)
        return self.witness(S2) is not None

    def judge(self, S, v, spec, params, tol):
        syms = set(params) | {s for s in val_syms(v)}
        clock = {s for s in syms if s not in S.doms and s in S.atoms and "clock" in s[0]}
        syms -= clock
        unknown = [s for s in syms if s not in S.doms]
        if unknown:
            raise Undecided("symbols without a domain: %s" % unknown)
        if clock:
            # every moment the clock may show: all of them tied together by what was assumed
            clock |= {a for f in S.facts for m, _ in f for a, _e in m if a in S.atoms and "clock" in repr(a[0])}
        facts = []
        for f, sg in S.facts.items():
            fs = {a[1] for m, _ in f for a, _e in m if isinstance(a, tuple) and a[0] == "d"}
            if fs and fs <= syms:
                facts.append((f, sg))
            elif fs & syms:
                syms |= {x for x in fs if x in S.doms}
                facts.append((f, sg))
        syms = sorted(syms, key=repr)
        key = None
        try:
            key = (v, tuple(S.doms[x] for x in syms), tuple(facts))
            if key in self.memo.get(spec, ()):
                return None
        except TypeError:
            pass
        per = []
        n = 1
        for s in syms:
            ws = []
            for b in S.doms[s]:
                if any(type(e) is tuple for e in b):
                    raise Undecided("symbol %s is not enumerable" % (s,))
                k = 1
                for e in b:
                    k *= max(1, mask_size(e))
                if k > 30000:
                    raise Undecided("symbol %s has %d values" % (s, k))
                ws += ["".join(t) for t in itertools.product(*[mask_chars(e) for e in b])]
            ws = list(dict.fromkeys(ws))
            n *= len(ws)
            per.append(ws)
        for a in sorted(clock):
            lo, hi = S.atoms[a]
            ws = [y for y in YEARS if lo <= y <= hi] or [lo] if a == ("clockyear",) else list(range(lo, hi + 1))
            n *= len(ws)
            per.append(ws)
            syms.append(a)
        facts += [(f, sg) for f, sg in S.facts.items() if (f, sg) not in facts and any(a in clock for m, _ in f for a, _e in m)
                  and all(a in clock or a[0] == "d" and a[1] in syms for m, _ in f for a, _e in m)]
        if n > ENUM_LIMIT:
            raise Undecided("%d combinations of %s" % (n, syms))
        for combo in itertools.product(*per):
            ws = dict(zip(syms, combo))
            if facts and not all(fact_holds(S, f, sg, ws) for f, sg in facts):
                continue
            self.stats["values"] += 1
            exp = spec(**{p: ws[p] for p in params})
            if exp is SKIP:
                continue
            got = conc(S, v, ws)
            if not same(got, exp, tol) and self.extends(S, ws):
                return Failure({k if type(w) is str else k[0]: str(w) for k, w in ws.items()}, got, exp, None)
        if key is not None:
            self.memo.setdefault(spec, set()).add(key)
        return None


YEARS = (1999, 2000, 2020, 2021, 2023)


class _Skip:
    def __repr__(self):
        return "<unspecified>"


SKIP = _Skip()


class Failure:
    def __init__(self, words, got, exp, where):
        self.words, self.got, self.exp, self.where = words, got, exp, where
        self.expr = None
        self.calls = []

    def __repr__(self):
        return "%s with %s: got %r, specified %r" % (self.expr or self.where, self.words, self.got, self.exp)


def _cn(c):
    return c.cls.__name__ if isinstance(c, ExcT) else c.name


def val_syms(v, acc=None):
    acc = set() if acc is None else acc
    t = type(v)
    if t is AStr:
        for c in v.cells:
            if type(c) is SC:
                acc.add(c.sym)
            elif type(c) is FN:
                val_syms(c.num, acc)
            elif type(c) is SV:
                val_syms(c.val, acc)
            elif type(c) is BL:
                raise Undecided("unknown text in an observed value")
    elif t is WVal:
        acc.add(v.sym)
    elif t is Num:
        for a in base_atoms(v):
            if isinstance(a, tuple) and a[0] == "d":
                acc.add(a[1])
            elif "clock" in repr(a):
                acc.add(a)
            else:
                raise Undecided("value depends on %r" % (a,))
    elif t is Fn:
        acc.add(v.sym)
    elif t is DT:
        if v.date.base[0] != "date":
            acc.add(("clock",))
        for x in (v.date.off, v.hour, v.minute, v.second) + tuple(v.date.base[1:]):
            val_syms(x, acc)
    elif t is TD:
        val_syms(v.minutes, acc)
    elif t is Tup:
        for x in v.items:
            val_syms(x, acc)
    elif t is It:
        for x in v.args:
            val_syms(x, acc)
    elif t in (TNum, TStr, Top, Union):
        raise Undecided("observed value is not exact: %r" % (v,))
    return acc


def fact_holds(S, terms, sg, ws):
    env = Env(S, ws)
    from .nums import eval_terms, sign
    return bool(sign(eval_terms(terms, env)) & sg)


class Env(SEnv):
    """Digit atoms from words."""
    __slots__ = ("ws",)

    def __init__(self, S, ws):
        super().__init__(S)
        self.ws = ws

    def _known(self, a):
        if a in self.ws:
            return self.ws[a]
        if isinstance(a, tuple) and a[0] == "d" and a[1] in self.ws and a[2] < len(self.ws[a[1]]):
            return int(self.ws[a[1]][a[2]])
        return SEnv._known(self, a)


def conc(S, v, ws):
    """The concrete value denoted by v when the symbols spell ws."""
    t = type(v)
    if t in (Num,):
        try:
            return eval_num(v, Env(S, ws))
        except ZeroDivisionError:
            return Exc("ZeroDivisionError", "?", [])
    if t is AStr:
        out = []
        for c in v.cells:
            if type(c) is str:
                out.append(c)
            elif type(c) is SC:
                out.append(ws[c.sym][c.i] if c.i < len(ws[c.sym]) else "?")
            elif type(c) is FN:
                out.append(format(conc(S, c.num, ws), c.spec))
            elif type(c) is SV:
                x = conc(S, c.val, ws)
                if isinstance(x, tuple) and x[:1] == ("<strip>",):
                    x = str(x[1]).strip()
                out.append(str(x))
        return "".join(out)
    if t is WVal:
        return ws[v.sym]
    if t is Fn:
        d = dict(v.table)
        return d.get(ws[v.sym])
    if t is DT:
        b = v.date.base
        y, m, d = (int(conc(S, x, ws)) for x in b[1:4])
        try:
            x = datetime.datetime(y, m, d, int(conc(S, v.hour, ws)), int(conc(S, v.minute, ws)), int(conc(S, v.second, ws)))
            return x + datetime.timedelta(days=int(conc(S, v.date.off, ws)))
        except ValueError:
            return Exc("ValueError", "?", [])
    if t is TD:
        return datetime.timedelta(minutes=conc(S, v.minutes, ws))
    if t is Tup:
        return tuple(conc(S, x, ws) for x in v.items)
    if t is It:
        if v.kind == "list":
            return [conc(S, x, ws) for x in v.args]
        if v.kind == "dict":
            return {conc(S, k.items[0], ws): conc(S, k.items[1], ws) for k in v.args}
        if v.kind == "set":
            return {conc(S, x, ws) for x in v.args}
        return v
    return v


def same(a, b, tol):
    if isinstance(b, Raises):
        return isinstance(a, Exc) and (not b.names or a.name in b.names)
    if isinstance(a, Exc):
        return False
    if isinstance(b, bool) or isinstance(a, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    return type(a) is type(b) and a == b or (a is None and b is None)
