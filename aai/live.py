"""Live local variables at loop heads (backward may-analysis on the syntax tree)."""
import ast


def loads(n):
    """Names read anywhere inside n (including nested scopes)."""
    if n is None:
        return frozenset()
    if isinstance(n, list):
        out = set()
        for x in n:
            out |= loads(x)
        return frozenset(out)
    return frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)))


def stores(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Live:
    def __init__(self, func):
        self.heads = {}
        self.always = set()
        for n in ast.walk(func):
            if n is func:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                              ast.ListComp, ast.SetComp, ast.DictComp)):
                self.always |= loads(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "locals", "vars", "eval", "exec", "super", "dir"):
                self.always |= {x.id for x in ast.walk(func) if isinstance(x, ast.Name)}
                self.always |= {a.arg for a in ast.walk(func) if isinstance(a, ast.arg)}
        body = func.body if isinstance(func.body, list) else []
        self.block(body, frozenset(), None, None, frozenset(), frozenset())

    def block(self, stmts, out, brk, cont, exc, ret):
        for st in reversed(stmts):
            out = frozenset(self.stmt(st, out, brk, cont, exc, ret) | exc)
        return out

    def stmt(self, st, out, brk, cont, exc, ret):
        if isinstance(st, ast.Assign):
            k = set()
            u = loads(st.value)
            for t in st.targets:
                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    k |= stores(t)
                u |= loads(t)
            return (out - k) | u
        if isinstance(st, ast.AnnAssign):
            k = stores(st.target) if isinstance(st.target, ast.Name) and st.value is not None else set()
            return (out - k) | loads(st.value) | loads(st.target)
        if isinstance(st, ast.AugAssign):
            return out | loads(st.value) | loads(st.target) | stores(st.target)
        if isinstance(st, ast.If):
            a = self.block(st.body, out, brk, cont, exc, ret)
            b = self.block(st.orelse, out, brk, cont, exc, ret)
            return a | b | loads(st.test)
        if isinstance(st, (ast.While, ast.For, ast.AsyncFor)):
            after = self.block(st.orelse, out, brk, cont, exc, ret)
            isfor = not isinstance(st, ast.While)
            head = after | (frozenset() if isfor else loads(st.test))
            while True:
                b = self.block(st.body, head, out, head, exc, ret)
                if isfor:
                    b = (b - stores(st.target)) | loads(st.target)
                n = head | b
                if n == head:
                    break
                head = n
            self.heads[id(st)] = self.heads.get(id(st), frozenset()) | head
            return head | (loads(st.iter) if isfor else frozenset())
        if isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
            fin = self.block(st.finalbody, out | (brk or frozenset()) | (cont or frozenset()) | ret | exc,
                             brk, cont, exc, ret) if st.finalbody else out
            fx = fin if st.finalbody else exc
            nb = fin if st.finalbody else brk
            nc = fin if st.finalbody else cont
            nr = fin if st.finalbody else ret
            h = frozenset()
            for x in st.handlers:
                h |= self.block(x.body, fin, nb, nc, fx, nr) | loads(x.type)
            e = self.block(st.orelse, fin, nb, nc, fx, nr)
            return self.block(st.body, e, nb, nc, fx | h, nr) | h
        if isinstance(st, (ast.With, ast.AsyncWith)):
            u = loads([i.context_expr for i in st.items])
            return self.block(st.body, out, brk, cont, exc | out, ret) | u
        if isinstance(st, ast.Return):
            return loads(st.value) | ret
        if isinstance(st, ast.Raise):
            return loads(st.exc) | loads(st.cause) | exc
        if isinstance(st, ast.Break):
            return brk if brk is not None else out
        if isinstance(st, ast.Continue):
            return cont if cont is not None else out
        if isinstance(st, ast.Match):
            u = loads(st)
            o = out
            for c in st.cases:
                o = o | self.block(c.body, out, brk, cont, exc, ret)
            return o | u
        return out | loads(st)
