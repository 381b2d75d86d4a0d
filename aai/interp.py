"""Abstract interpreter over Python syntax trees.

Nothing of the analysed package is imported or executed: every construct is given
an abstract transfer function over the value domain of values.py and the heap
states of state.py.  Undecided tests partition the state (choose); partitions are
enumerated by explore and, in join mode, merged again at calls and loop heads."""
import ast
import os

from .values import *
from .state import *
from . import rx
from .live import Live


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, ref, cls, site):
        self.ref, self.cls, self.site = ref, cls, site
        self.trace = [site]


class Infeasible(Exception):
    """The current partition is empty."""


class Trail:
    __slots__ = ("e", "pos")

    def __init__(self):
        self.e = []
        self.pos = 0


class FInfo:
    __slots__ = ("locals", "globals", "nonlocals", "is_gen", "uses_class")


def _scan(node):
    """Names bound in a function/lambda/comprehension body."""
    fi = FInfo()
    fi.locals, fi.globals, fi.nonlocals, fi.is_gen = set(), set(), set(), False

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                fi.locals.add(n.id)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            fi.locals.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            # walrus targets escape; iterables are evaluated here
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    fi.locals.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            fi.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            fi.locals.add(n.id)
        elif isinstance(n, ast.Global):
            fi.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            fi.nonlocals.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                fi.locals.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            fi.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            fi.locals.add(x.arg)
        if a.vararg:
            fi.locals.add(a.vararg.arg)
        if a.kwarg:
            fi.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            visit(s)
    fi.locals -= fi.globals
    fi.locals -= fi.nonlocals
    return fi


class Interp:
    def __init__(self, root, pkg):
        self.root, self.pkg = root, pkg
        self.mode = "split"
        self.set_reverse = False    # the order sets are iterated in
        self.S = State()
        self.trail = Trail()
        self.modules = {}
        self.loading = True
        self.frame = None
        self.frames = []
        self.events = set()
        self.steps = 0
        self.max_paths = 6000
        self.nexplore = 0
        self.npaths = 0
        self.finfo = {}
        self.nodes = {}
        self.sid_of = {}
        self.unroll = 3
        self.cur = None          # current node
        self.calls_seen = set()  # function names analysed
        self.override = {}       # (module, name) -> value replacing a module global
        self.depth = 0
        self.pins = []           # extra GC roots
        self.loop_limit = 100
        self.fold_at = 2
        self.blur = False
        self.wide = set()
        self.lives = {}
        self.exits_cap = 400
        from . import lib
        self.lib = lib
        self.Infeasible = Infeasible
        self.tables = {}
        self.rowcount = 0
        self.builtins = lib.make_builtins(self)

    # ------------------------------------------------------------ choices
    def choose(self, n):
        if n <= 1:
            if n == 0:
                raise Infeasible()
            return 0
        t = self.trail
        if t.pos < len(t.e):
            ent = t.e[t.pos]
        else:
            ent = [None, 0, n]
            t.e.append(ent)
        t.pos += 1
        return ent[1]

    def lazy(self, fn):
        t = self.trail
        if t.pos < len(t.e):
            ent = t.e[t.pos]
        else:
            p = fn()
            if not p:
                raise Infeasible()
            ent = [p, 0, len(p)]
            t.e.append(ent)
        t.pos += 1
        return ent[0][ent[1]]

    def explore(self, thunk, cap=None):
        """All (kind, value, state) outcomes of thunk from the current state."""
        base = self.S
        saved, self.trail = self.trail, Trail()
        frame, frames, depth, cur = self.frame, self.frames, self.depth, self.cur
        outs = []
        self.nexplore += 1
        cap = cap or self.max_paths
        try:
            while True:
                self.S = base.fork()
                self.frame, self.frames, self.depth = frame, list(frames), depth
                self.cur = cur
                t = self.trail
                t.pos = 0
                self.npaths += 1
                try:
                    v = thunk()
                    outs.append(("ok", v, self.S))
                except PyExc as e:
                    outs.append(("exc", e, self.S))
                except Infeasible:
                    pass
                except GenStop as g:
                    outs.append(("stop", g, self.S))
                while t.e and t.e[-1][1] + 1 >= t.e[-1][2]:
                    t.e.pop()
                if not t.e:
                    break
                t.e[-1][1] += 1
                if len(outs) > cap:
                    raise TooMany("more than %d partitions at %s" % (cap, self.where()))
        finally:
            self.trail = saved
            self.S = base
            self.frame, self.frames, self.depth = frame, frames, depth
            self.cur = cur
        return outs

    def where(self, node=None):
        n = node or self.cur
        fr = self.frame
        path = fr.path if fr else "?"
        fn = fr.name if fr else "?"
        return "%s:%s:%s" % (path, getattr(n, "lineno", "?"), fn)

    # ------------------------------------------------------------ outcomes of a call
    def outcomes(self, thunk, cap=None):
        base = self.S
        outs = self.explore(thunk, cap)
        if self.mode != "join" or self.loading:
            if len(outs) > 1 or self.nexplore % 16 == 0:
                for k, v, s in outs:
                    if len(s.objs) - len(base.objs) > 60:
                        self.gc(s, base.objs, v)
            return outs
        return self.merge(outs, base)

    def merged(self, thunk):
        """Evaluate with the partitions of the evaluation merged again (join mode)."""
        if self.mode != "join" or self.loading:
            return thunk()
        fr, nf, dp = self.frame, len(self.frames), self.depth
        k, v, s = self.lazy(lambda: self.outcomes(thunk))
        self.S = s.fork()
        self.frame, self.depth = fr, dp
        del self.frames[nf:]
        if k != "ok":
            raise v
        return v

    @staticmethod
    def _gkey(k, v):
        if k == "exc":
            return ("exc", v.cls if isinstance(v.cls, ExcT) else v.cls.name, v.site)
        if k == "stop":
            return ("stop", v.frame.env) + Interp._gkey("ok", v.sig)
        if v is None or v is True or v is False:
            return ("ok", v)
        if type(v) is tuple and v and v[0] in ("ret", "sig"):
            return v[:1] + Interp._gkey("ok", v[1]) if v[0] == "ret" else v
        return ("ok", "val")

    def merge(self, outs, base):
        if len(outs) == 1:
            k, v, s = outs[0]
            self.gc(s, base.objs, v)
            return outs
        groups = {}
        for o in outs:
            groups.setdefault(self._gkey(o[0], o[1]), []).append(o)
        res = []
        for key, os_ in groups.items():
            for k, v, s in os_:
                self.gc(s, base.objs, v)
            k, v, s = os_[0]
            for k2, v2, s2 in os_[1:]:
                if k == "ok":
                    v = self.join_ret(v, v2, s, s2)
                elif k == "stop":
                    v = GenStop(v.frame, self.join_ret(v.sig, v2.sig, s, s2))
                s, _ = join_states(s, s2)
            res.append((k, v, s))
        return res

    def join_ret(self, v, w, s1, s2):
        if type(v) is tuple and v and v[0] == "ret":
            return ("ret", join_val(v[1], w[1], s1, s2))
        if type(v) is tuple:
            return v
        return join_val(v, w, s1, s2)

    def gc(self, S, keep, ret):
        new = [o for o in S.objs if o not in keep]
        if not new:
            return
        acc = set()
        self._refs(ret, acc)
        for p in self.pins:
            self._refs(p, acc)
        for oid, ob in S.objs.items():
            if oid in keep and keep[oid] is not ob:
                obj_refs(ob, acc)
        newset = set(new)
        seen = set()
        work = [o for o in acc if o in newset]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            a = set()
            obj_refs(S.objs[o], a)
            for x in a:
                if x in newset and x not in seen:
                    work.append(x)
        for o in new:
            if o not in seen:
                del S.objs[o]
                S.owned.discard(o)

    def _refs(self, ret, acc):
        if isinstance(ret, PyExc):
            refs_of(ret.ref, acc)
        elif isinstance(ret, GenStop):
            self._refs(ret.sig, acc)
        elif type(ret) is tuple:
            for x in ret:
                if x is not None and not isinstance(x, str):
                    self._refs(x, acc)
        else:
            refs_of(ret, acc)

    # ------------------------------------------------------------ values
    def rv(self, v):
        """Resolve a Union to one alternative."""
        while type(v) is Union:
            S = self.S
            i = S.picks.get(v.cid) if v.cid is not None else None
            if i is None or i >= len(v.alts):
                i = self.choose(len(v.alts))
                if v.cid is not None:
                    S.picks[v.cid] = i
            v = v.alts[i]
        return v

    def force(self, v):
        return self.lib.force(self, v)

    def unsure(self, v):
        """Give a fresh identity to the unknowns of a value read from a summary."""
        t = type(v)
        if t is Union:
            return Union(tuple(self.unsure(a) for a in v.alts), fresh_id())
        if t is TNum:
            return TNum(v.lo, v.hi, v.isint, fresh_id())
        if t is Tup:
            return Tup(tuple(self.unsure(a) for a in v.items), v.cls)
        return v

    # ------------------------------------------------------------ heap
    def site(self):
        return id_of(self.cur)

    def alloc(self, kind, cls, d, tag=""):
        k = "%s%s@%s" % (kind, tag, self.frame_site())
        n = 0
        S = self.S
        while (k, n) in S.objs or (k, n) in S.base:
            n += 1
        oid = (k, n)
        S.put(oid, Obj(kind, cls, d))
        return oid

    def frame_site(self):
        c = self.cur
        return "%s:%s:%s" % (self.frame.path if self.frame else "", getattr(c, "lineno", 0),
                             getattr(c, "col_offset", 0))

    def new_list(self, items, tag=""):
        return Ref(self.alloc("list", None, ListD(tuple(items)), tag))

    def new_dict(self, pairs):
        return Ref(self.alloc("dict", None, DictD(tuple((k, v, True) for k, v in pairs))))

    def new_set(self, items, frozen=False):
        out = []
        for x in items:
            if not any(val_eq(x, y) for y in out):
                out.append(x)
        return Ref(self.alloc("set", None, SetD(tuple(out), None, frozen)))

    def event(self, kind, detail):
        self.events.add((kind, detail, self.where()))

    def note_write(self, oid):
        if oid in self.S.base and not self.loading:
            o = self.S.get(oid)
            self.event("global-write", "%s %s" % (o.kind, _name_of(o, oid)))

    def set_attr_obj(self, oid, name, v):
        self.note_write(oid)
        o = self.S.get(oid)
        if o.weak:
            old = o.d.get(name, UNB)
            nv = join_val(old, v, self.S, self.S)
            self.S.own(oid).d[name] = nv
        else:
            self.S.own(oid).d[name] = v

    def setd(self, oid, d):
        self.note_write(oid)
        o = self.S.get(oid)
        if o.weak:
            n = Obj(o.kind, o.cls, d, True)
            j = join_obj(o, n, self.S, self.S, False)
            self.S.put(oid, j)
        else:
            self.S.setd(oid, d)

    # ------------------------------------------------------------ exceptions
    def throw(self, cls, msg=""):
        if not isinstance(cls, (ExcT, ClassV)):
            cls = ExcT(cls)
        oid = self.alloc("inst", cls, {"args": Tup((msg,) if msg != "" else ())}, "exc")
        raise PyExc(Ref(oid), cls, self.where())

    def exc_isinstance(self, cls, handler):
        """cls: ExcT|ClassV; handler: the same."""
        if isinstance(handler, ClassV):
            return isinstance(cls, ClassV) and handler in cls.mro
        if isinstance(handler, ExcT):
            c = cls.cls if isinstance(cls, ExcT) else cls.exc
            return c is not None and issubclass(c, handler.cls)
        if isinstance(handler, BType):
            return False
        raise Undecided("except handler %r" % (handler,))

    # ------------------------------------------------------------ modules
    def load_source(self, path):
        with open(path, encoding="utf-8") as f:
            return ast.parse(f.read(), path)

    def module_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            i = os.path.join(p, "__init__.py")
            return (i if os.path.exists(i) else None), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split(".")[0] != self.pkg:
            m = self.lib.stdlib_module(self, name)
            self.modules[name] = m
            return m
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.module_path(name)
        if path is None:
            self.throw(ModuleNotFoundError, "No module named %r" % name)
        oid = ("mod", name)
        rel = os.path.relpath(path, self.root)
        self.S.put(oid, Obj("mod", None, {"__name__": name, "__file__": rel}))
        m = ModV(name, oid)
        self.modules[name] = m
        tree = self.load_source(path)
        fr = Frame(oid, None, None, rel, "<module>", None)
        fr.pkgname = name if is_pkg else name.rpartition(".")[0]
        sf, self.frame = self.frame, fr
        try:
            self.exec_block(tree.body)
        finally:
            self.frame = sf
        if "." in name:
            par, _, leaf = name.rpartition(".")
            self.S.own(("mod", par)).d.setdefault(leaf, m)
        return m

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.frame
        S = self.S
        if fr.fi is None:                       # module or class body
            o = S.get(fr.env)
            if name in o.d:
                return self._unb(o.d[name], name)
            e = fr.closure if fr.kind in ("class", "comp") else None
        else:
            if name in fr.fi.locals:
                o = S.get(fr.env)
                if name in o.d:
                    v = o.d[name]
                    return v if type(v) is not Union else self._unb(v, name)
                self.throw(UnboundLocalError, "cannot access local variable %r" % name)
            if name == "__class__":
                return fr.func.cls
            e = fr.closure if name not in fr.fi.globals else None
        while e is not None:
            o = S.get(e)
            if name in o.d:
                return self._unb(o.d[name], name)
            e = o.cls
        g = S.get(fr.genv)
        if name in g.d:
            return g.d[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw(NameError, "name %r is not defined" % name)

    def _unb(self, v, name):
        if v is UNB:
            self.throw(UnboundLocalError, "unbound %s" % name)
        if type(v) is Union and UNB in v.alts:
            v = self.rv(v)
            if v is UNB:
                self.throw(UnboundLocalError, "unbound %s" % name)
        return v

    def store_name(self, name, v):
        fr = self.frame
        if fr.fi is not None:
            if name in fr.fi.globals:
                self.note_write(fr.genv)
                self.S.own(fr.genv).d[name] = v
                return
            if name in fr.fi.nonlocals or name not in fr.fi.locals:
                e = fr.closure
                while e is not None:
                    o = self.S.get(e)
                    if name in o.d:
                        self.S.own(e).d[name] = v
                        return
                    e = o.cls
        if fr.kind == "module" and (fr.genv, name) in self.override:
            v = self.override[(fr.genv, name)]
        self.S.own(fr.env).d[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            if self.frame.merge and self.mode == "join":
                r = self.merged(lambda: self.exec(st))
            else:
                r = self.exec(st)
            if r is not None:
                return r
        return None

    def exec(self, st):
        self.steps += 1
        self.cur = st
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Undecided("statement %s at %s" % (type(st).__name__, self.where(st)))
        return m(st)

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value)

    def x_Pass(self, st):
        return None

    def x_Global(self, st):
        return None

    x_Nonlocal = x_Global

    def x_Return(self, st):
        return ("ret", self.eval(st.value) if st.value is not None else None)

    def x_Break(self, st):
        return ("sig", "brk")

    def x_Continue(self, st):
        return ("sig", "cont")

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if self.frame.kind == "class" and isinstance(st.target, ast.Name):
            o = self.S.own(self.frame.env)
            ann = o.d.get("__annotations__names__", ())
            o.d["__annotations__names__"] = ann + (st.target.id,)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def x_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            v = self.binop(st.op, old, self.eval(st.value), inplace=True)
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.rv(self.eval(t.value))
            old = self.getattr(o, t.attr)
            v = self.binop(st.op, old, self.eval(st.value), inplace=True)
            self.cur = st
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.rv(self.eval(t.value))
            k = self.eval(t.slice)
            old = self.getitem(o, k)
            v = self.binop(st.op, old, self.eval(st.value), inplace=True)
            self.setitem(o, k, v)
        else:
            raise Undecided("augmented target")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.rv(self.eval(t.value))
            self.cur = t
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.rv(self.eval(t.value))
            k = self.eval(t.slice)
            self.cur = t
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.lib.to_items(self, v)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, "not enough values to unpack")
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y)
                self.assign(t.elts[i].value, self.new_list(items[i:len(items) - after]))
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y)
                return
            items = self.lib.to_items(self, v, want=len(t.elts))
            if len(items) != len(t.elts):
                self.throw(ValueError, "wrong number of values to unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target %s" % type(t).__name__)

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.S.own(self.frame.env).d.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.rv(self.eval(t.value))
                self.note_write(o.oid)
                d = self.S.own(o.oid).d
                if t.attr not in d:
                    self.throw(AttributeError, t.attr)
                del d[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.rv(self.eval(t.value))
                self.lib.delitem(self, o, self.eval(t.slice))

    def x_If(self, st):
        if self.truth(self.eval(st.test)):
            return self.exec_block(st.body)
        return self.exec_block(st.orelse)

    def x_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            self.throw(AssertionError, self.eval(st.msg) if st.msg is not None else "")

    def x_Raise(self, st):
        if st.exc is None:
            if self.frame.handling:
                raise self.frame.handling[-1]
            self.throw(RuntimeError, "No active exception to reraise")
        v = self.rv(self.eval(st.exc))
        if st.cause is not None:
            self.eval(st.cause)
        if isinstance(v, (ExcT, ClassV)):
            v = self.call(v, (), {})
        self.cur = st
        if isinstance(v, Ref):
            o = self.S.get(v.oid)
            raise PyExc(v, o.cls, self.where())
        self.throw(TypeError, "exceptions must derive from BaseException")

    def x_Try(self, st):
        fr = self.frame
        hl = len(fr.handling)
        nf = len(self.frames)
        dp = self.depth
        sig = None
        pend = None
        try:
            try:
                sig = self.exec_block(st.body)
            except PyExc as e:
                self.frame = fr
                del self.frames[nf:]
                self.depth = dp
                h = self.find_handler(st.handlers, e)
                if h is None:
                    raise
                if h.name:
                    self.store_name(h.name, e.ref)
                fr.handling.append(e)
                try:
                    sig = self.exec_block(h.body)
                finally:
                    del fr.handling[hl:]
                if h.name and not (type(sig) is tuple and sig[0] == "ret"):
                    self.S.own(fr.env).d.pop(h.name, None)
            else:
                if sig is None:
                    sig = self.exec_block(st.orelse)
        except PyExc as e:
            if not st.finalbody:
                raise
            pend = e
        if st.finalbody:
            self.frame = fr
            del self.frames[nf:]
            self.depth = dp
            s2 = self.exec_block(st.finalbody)
            if s2 is not None:
                return s2
            if pend is not None:
                raise pend
        return sig

    def find_handler(self, handlers, e):
        for h in handlers:
            if h.type is None:
                return h
            t = self.rv(self.eval(h.type))
            ts = t.items if isinstance(t, Tup) else (t,)
            for x in ts:
                if self.exc_isinstance(e.cls, self.rv(x)):
                    return h
        return None

    def x_With(self, st):
        return self._with(st, 0)

    def _with(self, st, i):
        if i == len(st.items):
            return self.exec_block(st.body)
        it = st.items[i]
        cm = self.rv(self.eval(it.context_expr))
        if isinstance(cm, It) and cm.kind == "suppress":
            fr, nf, dp = self.frame, len(self.frames), self.depth
            try:
                return self._with(st, i + 1)
            except PyExc as e:
                self.frame = fr
                del self.frames[nf:]
                self.depth = dp
                if any(self.exc_isinstance(e.cls, self.rv(x)) for x in cm.args):
                    return None
                raise
        ent = self.call(self.getattr(cm, "__enter__"), (), {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent)
        fr, nf, dp = self.frame, len(self.frames), self.depth
        try:
            r = self._with(st, i + 1)
        except PyExc as e:
            self.frame = fr
            del self.frames[nf:]
            self.depth = dp
            if self.truth(self.call(self.getattr(cm, "__exit__"), (e.cls, e.ref, None), {})):
                return None
            raise
        self.call(self.getattr(cm, "__exit__"), (None, None, None), {})
        return r

    def x_Import(self, st):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                self.store_name(a.name.split(".")[0], self.import_module(a.name.split(".")[0]))

    def x_ImportFrom(self, st):
        if st.level:
            base = self.frame_pkg()
            for _ in range(st.level - 1):
                base = base.rpartition(".")[0]
            name = base + ("." + st.module if st.module else "")
        else:
            name = st.module
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                self.import_star(m)
                continue
            if m.oid is not None:
                d = self.S.get(m.oid).d
                if a.name in d:
                    v = d[a.name]
                else:
                    p, _ = self.module_path(m.name + "." + a.name)
                    if p is None:
                        self.throw(ImportError, "cannot import name %r from %r" % (a.name, m.name))
                    v = self.import_module(m.name + "." + a.name)
            else:
                v = self.getattr(m, a.name)
            self.store_name(a.asname or a.name, v)

    def frame_pkg(self):
        return self._pkgof(self.frame.genv)

    def _pkgof(self, genv):
        name = genv[1]
        path, is_pkg = self.module_path(name)
        return name if is_pkg else name.rpartition(".")[0]

    def import_star(self, m):
        if m.oid is None:
            raise Undecided("import * from %s" % m.name)
        d = self.S.get(m.oid).d
        if "__all__" in d:
            names = [x for x in self.lib.to_items(self, d["__all__"])]
        else:
            names = [n for n in d if not n.startswith("_")]
        for n in names:
            self.store_name(n, d[n])

    def x_FunctionDef(self, st):
        f = self.make_func(st, st.name)
        for d in reversed(st.decorator_list):
            dec = self.rv(self.eval(d))
            f = self.call(dec, (f,), {})
        self.store_name(st.name, f)

    def make_func(self, node, name):
        fr = self.frame
        a = node.args
        defaults = tuple(self.eval(x) for x in a.defaults)
        kwd = {x.arg: self.eval(y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}
        if fr.kind == "module":
            clo = None
        elif fr.kind == "class":
            clo = fr.closure
        else:
            clo = fr.env
        f = Func(node, fr.genv, clo, defaults, kwd, name, None, fr.path)
        f.is_gen = self.info(node).is_gen
        if fr.kind == "class":
            f.attrs["__owner__"] = None
            fr.pending.append(f)
        elif fr.func is not None:
            f.cls = fr.func.cls
        return f

    def info(self, node):
        k = id(node)
        fi = self.finfo.get(k)
        if fi is None:
            fi = self.finfo[k] = _scan(node)
            self.nodes[k] = node
        return fi

    def x_ClassDef(self, st):
        fr = self.frame
        bases = []
        for b in st.bases:
            bases.append(self.rv(self.eval(b)))
        for k in st.keywords:
            self.eval(k.value)
        oid = ("class", fr.path, st.name, st.lineno)
        n = 0
        while self.S.has(oid):
            n += 1
            oid = ("class", fr.path, st.name, st.lineno, n)
        qual = st.name
        cls = ClassV(st.name, tuple(bases), oid, fr.path)
        self.S.put(oid, Obj("cls", cls, {"__name__": st.name, "__qualname__": qual}))
        clo = fr.env if fr.kind == "func" else fr.closure
        sub = Frame(oid, clo, None, fr.path, st.name, None)
        sub.genv = fr.genv
        sub.kind = "class"
        sub.pending = []
        sf, self.frame = self.frame, sub
        try:
            self.exec_block(st.body)
        finally:
            self.frame = sf
        for f in sub.pending:
            f.cls = cls
        self.lib.finish_class(self, cls)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.rv(self.eval(d)), (v,), {})
        self.store_name(st.name, v)

    # ------------------------------------------------------------ loops
    def x_For(self, st):
        it = self.eval(st.iter)
        fr = self.frame

        def body(v):
            self.frame = fr
            self.assign(st.target, v)
            r = self.exec_block(st.body)
            if r == ("sig", "cont"):
                return None
            return r
        r = self.iterate(it, body, st)
        if r == ("sig", "brk"):
            return None
        if r is not None:
            return r
        self.frame = fr
        return self.exec_block(st.orelse)

    def x_While(self, st):
        fr = self.frame

        def step():
            self.frame = fr
            if not self.truth(self.eval(st.test)):
                return ("sig", "exit")
            r = self.exec_block(st.body)
            if r == ("sig", "cont"):
                return None
            return r
        r = self.loop(step, st)
        if r == ("sig", "exit"):
            self.frame = fr
            return self.exec_block(st.orelse)
        if r == ("sig", "brk"):
            return None
        return r

    def loop(self, step, node):
        """Unroll while the head changes in a known way; then take a fixpoint."""
        if self.mode == "join":
            return self.fix(step, node)
        same = n = 0
        last = None
        while True:
            pos = self.trail.pos
            r = step()
            if r is not None:
                return r
            n += 1
            undecided = any(e[2] > 1 for e in self.trail.e[pos:self.trail.pos])
            key = (self.head_key(self.S, {}, ()), self.date_key())
            if undecided and key == last:
                same += 1
            last = key
            if same >= self.unroll or (undecided and n >= 400) or n > 12000:
                return self.fix(step, node)

    def date_key(self):
        """The dates held by locals whose offset from their base is known."""
        env = self.S.get(self.frame.env)
        return tuple((n, v.date) for n, v in env.d.items()
                     if type(v) is DT and isinstance(v.date.off, int)) if env.kind == "env" else ()

    def iterate(self, it, cb, node=None):
        """Call cb(element) for each element; cb returns None or a stop signal."""
        return self.lib.iterate(self, self.rv(it), cb, node)

    def kill_dead(self, S, node):
        """Drop the locals that no path from this loop head reads again."""
        fr = self.frame
        f = fr.func
        if not isinstance(f, Func) or isinstance(f.node, ast.Lambda) or fr.kind != "func":
            return
        lv = self.lives.get(id(f.node))
        if lv is None:
            lv = self.lives[id(f.node)] = Live(f.node)
        head = lv.heads.get(id(node))
        if head is None:
            return
        env = S.get(fr.env)
        dead = [n for n in env.d if n[0] != " " and n not in head and n not in lv.always]
        if dead:
            d = S.own(fr.env).d
            for n in dead:
                del d[n]

    def head_key(self, S, entry, dropped):
        """Partition key of a loop head: the known integers and shrinking exact
        sequences of the current frame."""
        key = []
        env = S.get(self.frame.env)
        if env.kind not in ("env",):
            return ()
        for n, v in env.d.items():
            if n in dropped:
                continue
            if type(v) is int or type(v) is bool:
                key.append((n, v))
            elif type(v) is Ref:
                o = S.get(v.oid)
                if o.kind == "list" and o.d.exact:
                    e = entry.get(n)
                    if e is not None and len(o.d.tail) <= e:
                        key.append((n, "len", len(o.d.tail)))
                elif o.kind == "iter" and o.d.rest is None and type(o.d.pos) is int and (
                        o.d.src is None or (S.has(o.d.src) and S.get(o.d.src).d.exact
                                            and len(S.get(o.d.src).d.tail) < 60)):
                    key.append((n, "it", o.d.pos))
            elif type(v) is Tup and v.cls is None:
                e = entry.get(n)
                if e is not None and len(v.items) <= e:
                    key.append((n, "len", len(v.items)))
        return tuple(sorted(key, key=repr))

    def fix(self, step, node, extra_roots=()):
        """Fixpoint of an abstract loop.  step() runs one iteration from the head
        and returns None (back to the head) or a signal (leave the loop)."""
        id0 = fresh_id()

        def compute():
            self.kill_dead(self.S, node)
            entry = {}
            env = self.S.get(self.frame.env)
            if env.kind == "env":
                for n, v in env.d.items():
                    if type(v) is Ref:
                        o = self.S.get(v.oid)
                        if o.kind == "list" and o.d.exact:
                            entry[n] = len(o.d.tail)
                    elif type(v) is Tup:
                        entry[n] = len(v.items)
            dropped = set()
            while True:
                r = self._fix(step, entry, dropped, id0, node)
                if r is not None:
                    return r
        kind, v, s = self.lazy(compute)
        self.S = s.fork()
        if kind != "ok":
            raise v
        return v

    def _fix(self, step, entry, dropped, id0, node=None):
        base = self.S
        heads = {}
        rounds = {}
        exits = {}
        vals = {}
        k0 = self.head_key(base, entry, dropped)
        heads[k0] = base.fork()
        work = [k0]
        while work:
            key = work.pop(0)
            self.S = heads[key].fork()
            outs = self.explore(step)
            self.S = base
            per = {}
            for kind, v, s in outs:
                if kind == "ok" and v is None:
                    self.kill_dead(s, node)
                self.gc(s, base.objs, v)
                if kind == "ok" and v is None:
                    self.coarsen(s, base, id0)
                    k = self.head_key(s, entry, dropped)
                    per.setdefault(k, []).append(s)
                else:
                    g = self._gkey(kind, v)
                    if type(v) is tuple and v[0] == "sig":
                        g = v
                    if self.mode != "join":
                        exits[(key, fresh_id())] = (kind, v, s)
                        continue
                    if g in exits:
                        k1, v1, s1 = exits[g]
                        if kind == "ok":
                            v1 = self.join_ret(v1, v, s1, s)
                        elif kind == "stop":
                            v1 = GenStop(v1.frame, self.join_ret(v1.sig, v.sig, s1, s))
                        s1, _ = join_states(s1, s)
                        exits[g] = (k1, v1, s1)
                    else:
                        exits[g] = (kind, v, s)
            for k, ss in per.items():
                for n, x in [(a[0], a[1:]) for a in k]:
                    vals.setdefault(n, set()).add(x)
                    if len(vals[n]) > 40:
                        dropped.add(n)
                        return None
                j = ss[0]
                for s2 in ss[1:]:
                    j, _ = join_states(j, s2)
                if k not in heads:
                    heads[k] = j
                    if k not in work:
                        work.append(k)
                else:
                    rounds[k] = rounds.get(k, 0) + 1
                    if rounds[k] > self.loop_limit:
                        raise Undecided("loop does not stabilise at %s" % self.where())
                    nj, ch = join_states(heads[k], j, widen=rounds[k] > 12)
                    if ch:
                        if self.trace_heads and rounds[k] > 8:
                            self.head_diff(heads[k], nj)
                        heads[k] = nj
                        if self.mode != "join":
                            # exits found from the smaller head are subsumed later
                            for e in [e for e in exits if e[0] == k]:
                                del exits[e]
                        if k not in work:
                            work.append(k)
        return list(exits.values())

    trace_heads = False

    def head_diff(self, a, b):
        print("HEAD", self.where())
        for oid, ob in b.objs.items():
            if a.objs.get(oid) is not ob:
                print("   ", oid, "\n        ", a.objs.get(oid), "\n        ", ob)
        for s, d in b.doms.items():
            if a.doms.get(s) is not d:
                print("    dom", s, len(a.doms.get(s, ())), len(d))

    def coarsen(self, S, base, id0=0):
        """At a loop head: forget loop-local identities, fold surplus objects."""
        sites = {}
        for oid in S.objs:
            if oid not in base.objs:
                sites.setdefault(oid[0], []).append(oid)
        fold = {}
        for k, ids in sites.items():
            if not isinstance(k, str):
                continue
            ids = [i for i in ids if isinstance(i[1], int)]
            ids.sort(key=lambda i: i[1])
            if k.startswith("env"):
                continue
            n = 0
            for j, i in enumerate(ids):
                if j >= self.fold_at:
                    fold[i] = (k, "*")
                    continue
                while (k, n) in base.objs or (k, n) in base.base:
                    n += 1
                if i != (k, n):
                    fold[i] = (k, n)
                n += 1
        if fold:
            def f(v):
                if type(v) is Ref and v.oid in fold:
                    return Ref(fold[v.oid])
                return v
            new = {}
            for oid, ob in S.objs.items():
                if oid in base.objs and base.objs[oid] is ob:
                    new[oid] = ob
                    continue
                nb = map_obj(ob, f)
                t = fold.get(oid, oid)
                if isinstance(t, tuple) and t[1] == "*":
                    nb = Obj(nb.kind, nb.cls, nb.d, True)
                if t in new:
                    new[t] = join_obj(new[t], nb, S, S, False)
                    new[t].weak = True
                else:
                    new[t] = nb
            S.objs = new
            S.owned = set()
        syms = {s for s in S.doms if s not in base.doms}
        live = set()
        if syms or self.mode == "join":
            # symbols kept by live match objects stay; other mentions are smashed
            keepm = set()
            for oid, ob in S.objs.items():
                if ob.kind == "match" and oid not in base.objs:
                    keepm.add(oid)

            def g(v):
                t = type(v)
                if t is TStr and isinstance(v.tag, int) and v.tag > id0:
                    return TStr()
                if t is AStr or t is WVal:
                    acc = set()
                    refs_of(v, set(), acc)
                    if acc & syms:
                        return TStr()
                elif t is Num:
                    acc = set()
                    refs_of(v, set(), acc)
                    if acc & syms:
                        lo, hi = S.num_iv(v)
                        return TNum(lo, hi, v.isint, fresh_id())
                elif t is DT:
                    return DT(v.date, g(v.hour), g(v.minute), g(v.second)) if not _dt_syms(v, syms) else DT(
                        ADate(("any",), 0), _hourof(g(v.hour), 23), _hourof(g(v.minute), 59), _hourof(g(v.second), 59))
                elif t is TD:
                    return TD(g(v.minutes))
                return v
            for oid in list(S.objs):
                ob = S.objs[oid]
                if oid in base.objs and base.objs[oid] is ob:
                    continue
                if ob.kind == "match":
                    d = ob.d
                    nd = MatchD(d.pat, g(d.subj), d.spans, d.end, d.words, d.sym, d.mode)
                    S.objs[oid] = Obj("match", ob.cls, nd, ob.weak)
                else:
                    S.objs[oid] = map_obj(ob, g)
            S.owned = set()
            mids = {oid for oid, ob in S.objs.items() if ob.kind == "match"}
            for s in list(S.doms):
                if s in syms and not (isinstance(s, tuple) and s[0] in mids):
                    del S.doms[s]
            for fct in list(S.facts):
                acc = set()
                for mono, _ in fct:
                    for a, _e in mono:
                        if isinstance(a, tuple) and a[0] == "d":
                            acc.add(a[1])
                if acc & syms:
                    del S.facts[fct]
        for t in [t for t in S.nums if t not in base.nums]:
            del S.nums[t]
        for c in [c for c in S.picks if c not in base.picks]:
            del S.picks[c]

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        self.cur = n
        m = self._ev.get(type(n))
        if m is None:
            raise Undecided("expression %s at %s" % (type(n).__name__, self.where(n)))
        return m(self, n)

    def e_Constant(self, n):
        v = n.value
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, (bytes, complex)):
            return Opaque("const")
        return v

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Attribute(self, n):
        o = self.eval(n.value)
        self.cur = n
        return self.getattr(self.rv(o), n.attr)

    def e_Tuple(self, n):
        return Tup(tuple(self._elts(n.elts)))

    def _elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.lib.to_items(self, self.eval(e.value))
            else:
                out.append(self.eval(e))
        return out

    def e_List(self, n):
        if len(n.elts) > 400 and self.loading:
            items = []
            for e in n.elts:
                items.append(self.eval(e))
            self.cur = n
            r = self.new_list(items)
            return r
        items = self._elts(n.elts)
        self.cur = n
        return self.new_list(items)

    def e_Set(self, n):
        items = self._elts(n.elts)
        self.cur = n
        return self.new_set(items)

    def e_Dict(self, n):
        r = self.new_dict(())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, r, self.rv(self.eval(v)))
            else:
                kk = self.eval(k)
                vv = self.eval(v)
                self.lib.dict_set(self, r.oid, kk, vv)
        return r

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        self.cur = n
        return self.binop(n.op, a, b)

    def binop(self, op, a, b, inplace=False):
        return self.lib.binop(self, type(op).__name__, a, b, inplace)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        self.cur = n
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.lib.unary(self, type(n.op).__name__, self.rv(v))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values[:-1]:
            v = self.eval(x)
            v = self.rv(v) if type(v) is Union else v
            t = self.truth(v)
            if t != isand:
                return v
        return self.eval(n.values[-1])

    def e_IfExp(self, n):
        if self.truth(self.eval(n.test)):
            return self.eval(n.body)
        return self.eval(n.orelse)

    def e_Compare(self, n):
        a = self.eval(n.left)
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.eval(c)
            self.cur = n
            r = self.lib.compare(self, type(op).__name__, a, b)
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return r
            a = b

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        fr = self.frame
        # comprehension frames bind in the enclosing function
        f = fr
        name = n.target.id
        if fr.kind == "comp":
            e = fr.closure
            while e is not None:
                o = self.S.get(e)
                if o.d.get("__comp__") is None:
                    self.S.own(e).d[name] = v
                    return v
                e = o.cls
            self.S.own(fr.genv).d[name] = v
            return v
        self.store_name(name, v)
        return v

    def e_Subscript(self, n):
        o = self.rv(self.eval(n.value))
        k = self.eval(n.slice)
        self.cur = n
        return self.getitem(o, k)

    def e_Slice(self, n):
        return It("slice", tuple(self.rv(self.eval(x)) if x is not None else None
                                 for x in (n.lower, n.upper, n.step)))

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.merged(lambda: self.e_FormattedValue(v)))
        self.cur = n
        return self.lib.concat(self, parts)

    def e_FormattedValue(self, n):
        v = self.eval(n.value)
        spec = ""
        if n.format_spec is not None:
            spec = self.eval(n.format_spec)
            if not isinstance(spec, str):
                raise Undecided("computed format spec")
        self.cur = n
        if n.conversion == 114:
            v = self.lib.py_repr(self, v)
        elif n.conversion == 115:
            v = self.lib.py_str(self, v)
        return self.lib.py_format(self, v, spec)

    def e_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def e_Starred(self, n):
        raise Undecided("starred expression")

    def e_Await(self, n):
        raise Undecided("await")

    def comp_frame(self):
        fr = self.frame
        clo = fr.env if fr.kind in ("func", "comp") else (fr.closure if fr.kind == "class" else None)
        env = self.alloc("env", clo, {"__comp__": True})
        f = Frame(env, clo, fr.genv, fr.path, fr.name, fr.func)
        f.kind = "comp"
        f.fi = None
        return f

    def _comp(self, n, emit):
        first = self.eval(n.generators[0].iter)
        self.cur = n
        outer = self.frame
        fr = self.comp_frame()
        if outer.kind == "class":
            # class-level names are visible only through the first iterable
            fr.closure = outer.closure

        def run(i, itv):
            g = n.generators[i]

            def body(v):
                self.frame = fr
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.truth(self.eval(c)):
                        return None
                if i + 1 < len(n.generators):
                    return run(i + 1, self.eval(n.generators[i + 1].iter))
                return emit(fr)
            return self.iterate(itv, body, n)
        sf = self.frame
        self.frame = fr
        try:
            return run(0, first)
        finally:
            self.frame = sf

    def e_ListComp(self, n):
        self.cur = n
        r = self.new_list(())
        self.pins.append(r)
        try:
            def emit(fr):
                v = self.eval(n.elt)
                self.frame = fr
                self.lib.list_append(self, r.oid, v)
            self._comp(n, emit)
        finally:
            self.pins.pop()
        return r

    def e_SetComp(self, n):
        self.cur = n
        r = self.new_set(())
        self.pins.append(r)
        try:
            def emit(fr):
                v = self.eval(n.elt)
                self.lib.set_add(self, r.oid, v)
            self._comp(n, emit)
        finally:
            self.pins.pop()
        return r

    def e_DictComp(self, n):
        self.cur = n
        r = self.new_dict(())
        self.pins.append(r)
        try:
            def emit(fr):
                k = self.eval(n.key)
                v = self.eval(n.value)
                self.lib.dict_set(self, r.oid, k, v)
            self._comp(n, emit)
        finally:
            self.pins.pop()
        return r

    def e_GeneratorExp(self, n):
        first = self.eval(n.generators[0].iter)
        self.cur = n
        fr = self.frame
        holder = self.alloc("env", None, {"first": first, "__comp__": True}, "gx")
        return Ref(self.alloc("gen", None, GenD(GExp(n, fr), holder)))

    def run_genexp(self, d, cb):
        n, outer = d.func.node, d.func.frame
        first = self.S.get(d.env).d["first"]
        sf = self.frame
        self.frame = outer
        fr = self.comp_frame()
        consumer = sf

        def run(i, itv):
            g = n.generators[i]

            def body(v):
                self.frame = fr
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.truth(self.eval(c)):
                        return None
                if i + 1 < len(n.generators):
                    return run(i + 1, self.eval(n.generators[i + 1].iter))
                x = self.eval(n.elt)
                self.frame = consumer
                r = cb(x)
                self.frame = fr
                return r
            return self.iterate(itv, body, n)
        self.frame = fr
        try:
            return run(0, first)
        finally:
            self.frame = sf

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        return self._yield(v)

    def _yield(self, v):
        fr = self.frame
        cb = fr.yield_cb
        sf = self.frame
        self.frame = fr.consumer
        r = cb(v)
        self.frame = sf
        if r is not None:
            raise GenStop(fr, r)
        return None

    def e_YieldFrom(self, n):
        it = self.eval(n.value)
        fr = self.frame

        def body(v):
            self.frame = fr
            self._yield(v)
            return None
        self.iterate(it, body, n)
        return None

    def e_Call(self, n):
        f = self.eval(n.func)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.lib.to_items(self, self.eval(a.value))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.lib.dict_exact_items(self, self.rv(self.eval(k.value))):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value)
        self.cur = n
        f = self.rv(f)
        if isinstance(f, Builtin) and f.name == "super" and not args:
            fr = self.frame
            while fr.kind == "comp":
                raise Undecided("super() in comprehension")
            a0 = fr.func.node.args
            first = (a0.posonlyargs + a0.args)[0].arg
            return SuperV(fr.func.cls, self.rv(self.S.get(fr.env).d[first]))
        return self.call(f, tuple(args), kw)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.rv(f)
        t = type(f)
        if t is BoundM:
            if type(f.func) is Func:
                return self.call_func(f.func, (f.self_,) + tuple(args), kw)
            return self.call(f.func, (f.self_,) + tuple(args), kw)
        if t is Func:
            return self.call_func(f, tuple(args), kw)
        if t is Builtin:
            return f.fn(self, tuple(args), kw)
        if t is ClassV:
            return self.instantiate(f, tuple(args), kw)
        if t is BType:
            return self.lib.call_type(self, f, tuple(args), kw)
        if t is ExcT:
            oid = self.alloc("inst", f, {"args": Tup(tuple(args))}, "exc")
            return Ref(oid)
        if t is StaticM or t is ClassM:
            return self.call(f.f, args, kw)
        if t is Ref:
            o = self.S.get(f.oid)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                m = self.class_attr(o.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, f, o.cls), args, kw)
        if t is Opaque:
            return Opaque(f.name + "()")
        if f is None or t in (int, float, str, AStr, Tup, bool, Num, TNum, TStr, WVal, Ref, DT, TD):
            self.throw(TypeError, "object is not callable")
        raise Undecided("call of %r at %s" % (f, self.where()))

    def bind_args(self, f, args, kw):
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        if len(args) > len(names) and not a.vararg:
            self.throw(TypeError, "%s() takes %d positional arguments but %d were given"
                       % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            d[n] = v
        if a.vararg:
            d[a.vararg.arg] = Tup(tuple(args[len(names):]))
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in d:
                    self.throw(TypeError, "multiple values for argument %r" % k)
                d[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw(TypeError, "%s() got an unexpected keyword argument %r" % (f.name, k))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j >= 0:
                    d[n] = f.defaults[j]
                else:
                    self.throw(TypeError, "%s() missing argument %r" % (f.name, n))
        for n in kwn:
            if n not in d:
                if n in f.kwdefaults:
                    d[n] = f.kwdefaults[n]
                else:
                    self.throw(TypeError, "%s() missing keyword argument %r" % (f.name, n))
        return d, (a.kwarg.arg if a.kwarg else None), extra

    def call_func(self, f, args, kw):
        if self.depth > 60:
            raise Undecided("recursion at %s" % self.where())
        d, kwname, extra = self.bind_args(f, args, kw)
        if kwname:
            d[kwname] = self.new_dict(list(extra.items()))
        self.calls_seen.add((f.path, f.cls.name + "." + f.name if f.cls else f.name))
        if f.is_gen:
            env = self.alloc("env", f.closure, d, f.name)
            return Ref(self.alloc("gen", None, GenD(f, env)))
        caller = self.frame
        node = f.node
        cur = self.cur

        def thunk():
            self.cur = cur
            env = self.alloc("env", f.closure, dict(d), f.name)
            fr = Frame(env, f.closure, f.genv, f.path, f.name, f)
            fr.merge = merge[0]
            fr.fi = self.info(node)
            fr.kind = "func"
            fr.caller = caller
            self.frame = fr
            self.frames.append(fr)
            self.depth += 1
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
            else:
                r = self.exec_block(node.body)
                v = r[1] if r is not None else None
            self.frames.pop()
            self.depth -= 1
            self.frame = caller
            if type(v) is LenV:
                pass
            if env not in self.captured(v):
                pass
            return v
        merge = [False]

        def compute():
            if self.mode == "join" and not self.loading:
                if id(node) not in self.wide:
                    try:
                        return self.outcomes(thunk, 120)
                    except TooMany:
                        self.wide.add(id(node))
                merge[0] = True
            try:
                return self.outcomes(thunk)
            except TooMany as e:
                raise Undecided(str(e))
        kind, v, s = self.lazy(compute)
        self.S = s.fork()
        self.frame = caller
        self.cur = cur
        if kind == "stop":
            raise v
        if kind == "exc":
            e = PyExc(v.ref, v.cls, v.site)
            e.trace = v.trace + [self.where()]
            raise e
        return v

    def captured(self, v):
        return ()

    def run_gen(self, ref, cb):
        """Drive generator object ref, calling cb for each value."""
        o = self.S.get(ref.oid)
        d = o.d
        if d.state == "done":
            return None
        if d.count and d.state == "part":
            skip = [d.count]
        else:
            skip = [0]
        if isinstance(d.func, GExp):
            seen = [0]

            def cb2(v):
                seen[0] += 1
                if seen[0] <= skip[0]:
                    return None
                return cb(v)
            r = self.run_genexp(d, cb2)
            if r is None:
                self.S.setd(ref.oid, GenD(d.func, d.env, "done", 0))
            return r
        f = d.func
        consumer = self.frame
        fr = Frame(d.env, f.closure, f.genv, f.path, f.name, f)
        fr.fi = self.info(f.node)
        fr.kind = "func"
        fr.consumer = consumer
        seen = [0]

        def cb3(v):
            seen[0] += 1
            if seen[0] <= skip[0]:
                return None
            return cb(v)
        fr.yield_cb = cb3
        if skip[0]:
            raise Undecided("resumed generator at %s" % self.where())
        self.frame = fr
        try:
            self.exec_block(f.node.body)
        except GenStop as g:
            if g.frame.env != fr.env:
                raise
            self.frame = consumer
            return g.sig
        finally:
            self.frame = consumer
        self.S.setd(ref.oid, GenD(d.func, d.env, "done", 0))
        return None

    def instantiate(self, cls, args, kw):
        new = self.lib.special_new(self, cls, args, kw)
        if new is not None:
            return new
        for b in cls.mro:
            if isinstance(b, BType) and b.name not in ("object",):
                raise Undecided("instance of a subclass of %s" % b.name)
        ab = cls.meta.get("abstract")
        if ab:
            self.throw(TypeError, "Can't instantiate abstract class %s with abstract methods %s"
                       % (cls.name, ", ".join(sorted(ab))))
        oid = self.alloc("inst", cls, {}, ":" + cls.name)
        if cls.exc is not None:
            self.S.own(oid).d["args"] = Tup(tuple(args))
        ref = Ref(oid)
        init = self.class_attr(cls, "__init__")
        self.pins.append(ref)
        try:
            if init is not None:
                self.call(self.bind(init, ref, cls), args, kw)
            elif (args or kw) and cls.exc is None:
                self.throw(TypeError, "%s() takes no arguments" % cls.name)
        finally:
            self.pins.pop()
        return ref

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            i = mro.index(after)
            mro = mro[i + 1:]
        for c in mro:
            if isinstance(c, ClassV):
                d = self.S.get(c.oid).d
                if name in d:
                    return d[name]
        return None

    def bind(self, v, ref, cls):
        t = type(v)
        if t is Func:
            return BoundM(v, ref)
        if t is StaticM:
            return v.f
        if t is ClassM:
            return BoundM(v.f, cls)
        if t is PropV:
            return self.call(v.fget, (ref,), {})
        if t is Builtin and v.name.startswith("method:"):
            return BoundM(v, ref)
        return v

    def getattr(self, o, name, default=None):
        r = self.lib.getattr(self, o, name)
        return r

    def setattr(self, o, name, v):
        t = type(o)
        if t is Ref:
            ob = self.S.get(o.oid)
            if ob.kind == "inst":
                if isinstance(ob.cls, ClassV):
                    c = self.class_attr(ob.cls, name)
                    if type(c) is PropV and not c.cached:
                        if c.fset is None:
                            self.throw(AttributeError, "property %r has no setter" % name)
                        self.call(c.fset, (o, v), {})
                        return
                    sa = self.class_attr(ob.cls, "__setattr__")
                    if sa is not None:
                        raise Undecided("__setattr__")
                    if ob.cls.meta.get("frozen") and not self.frame.name == "__init__":
                        self.throw(AttributeError, "cannot assign to field %r" % name)
                self.set_attr_obj(o.oid, name, v)
                return
            self.throw(AttributeError, "object has no attribute %r" % name)
        if t is ClassV:
            self.note_write(o.oid)
            self.S.own(o.oid).d[name] = v
            return
        if t is Func:
            f = o
            f.attrs[name] = v
            return
        if t is ModV and o.oid is not None:
            self.note_write(o.oid)
            self.S.own(o.oid).d[name] = v
            return
        if t is SuperV:
            raise Undecided("assignment through super()")
        self.throw(AttributeError, "object has no attribute %r" % name)

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(self, o, k, v)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        return self.lib.truth(self, v)

    def x_Match(self, st):
        return self.lib.x_match(self, st)


class GenStop(Exception):
    def __init__(self, frame, sig):
        self.frame, self.sig = frame, sig


class GExp:
    __slots__ = ("node", "frame")

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Frame:
    __slots__ = ("env", "closure", "genv", "path", "name", "func", "fi", "kind", "handling",
                 "pending", "caller", "yield_cb", "consumer", "pkgname", "merge")

    def __init__(self, env, closure, genv, path, name, func):
        self.env, self.closure = env, closure
        self.genv = genv if genv is not None else env
        self.path, self.name, self.func = path, name, func
        self.fi = None
        self.kind = "module"
        self.handling = []
        self.pending = None
        self.caller = None
        self.yield_cb = None
        self.consumer = None
        self.pkgname = None
        self.merge = False


ALL_LOCAL = None


def _name_of(o, oid):
    if o.kind == "cls":
        return o.cls.name
    return str(oid)


def id_of(n):
    return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))


def _dt_syms(v, syms):
    acc = set()
    for x in (v.date.off,):
        refs_of(x, set(), acc)
    for x in (v.date.base if isinstance(v.date.base, tuple) else ()):
        if isinstance(x, Num):
            refs_of(x, set(), acc)
    return bool(acc & syms)


def _hourof(v, hi):
    if type(v) is Num:
        return TNum(0, hi, True, fresh_id())
    return v


Interp._ev = {getattr(ast, k[2:]): v for k, v in vars(Interp).items()
              if k.startswith("e_") and hasattr(ast, k[2:])}
