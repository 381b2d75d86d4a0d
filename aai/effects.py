"""Primitive effects in the source: every call of the package that reaches outside it."""
import ast
import os

BUILTIN = {"print", "open", "input", "exec", "eval", "compile", "breakpoint", "exit", "quit", "__import__"}
PURE = {"io.StringIO", "io.BytesIO", "sys.intern", "sys.getrecursionlimit", "sys.getsizeof", "logging.getLogger", "logging.NullHandler",
        "threading.Lock", "threading.RLock", "threading.local", "importlib.import_module", "importlib.metadata.version", "pathlib.PurePath",
        "pathlib.PurePosixPath", "uuid.UUID", "uuid.uuid5", "uuid.uuid3"}
MODULES = {"os", "sys", "io", "logging", "warnings", "random", "time", "socket", "subprocess", "urllib", "requests", "shutil", "pathlib", "tempfile",
           "threading", "secrets", "uuid", "locale", "http", "sqlite3", "ctypes", "atexit", "signal", "asyncio", "multiprocessing",
           "gc", "webbrowser", "getpass", "platform", "fileinput", "glob", "resource", "syslog", "smtplib", "ftplib", "ssl", "select", "pty", "fcntl",
           "curses", "readline", "pdb", "faulthandler", "traceback", "mmap", "dbm", "shelve"}
PURE_MODULES = {"os.path", "posixpath", "ntpath"}
PURE_OSPATH = {"join", "split", "splitext", "basename", "dirname", "normpath", "isabs"}
VALUES = {"os.environ", "sys.argv", "sys.stdin", "sys.stdout", "sys.stderr"}
LOGS = {"warning", "error", "critical", "exception", "warn"}
LIBRARY = {"print_exc", "pprint"}


class Scan(ast.NodeVisitor):
    def __init__(self, rel):
        self.rel, self.names, self.mods, self.logs = rel, {}, {}, set()
        self.where, self.local, self.out = [], [set()], []
        self.calls = self.funcs = 0

    def dotted(self, n):
        if isinstance(n, ast.Name):
            if any(n.id in s for s in self.local[1:]):
                return None
            return self.names.get(n.id)
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return b and b + "." + n.attr
        return None

    def visit_Import(self, n):
        for a in n.names:
            self.names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]

    def visit_ImportFrom(self, n):
        if not n.level:
            for a in n.names:
                self.names[a.asname or a.name] = "%s.%s" % (n.module, a.name)

    def func(self, n):
        self.funcs += 1
        names = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        names |= {x.id for b in (n.body if isinstance(n.body, list) else [n.body]) for x in ast.walk(b)
                  if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for d in getattr(n, "decorator_list", []) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        self.where.append(getattr(n, "name", "<lambda>"))
        self.local.append(names)
        for b in n.body if isinstance(n.body, list) else [n.body]:
            self.visit(b)
        self.where.pop()
        self.local.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = func

    def visit_ClassDef(self, n):
        self.where.append(n.name)
        self.generic_visit(n)
        self.where.pop()

    def visit_If(self, n):
        t = ast.unparse(n.test)
        if "__name__" in t and "__main__" in t or t in ("TYPE_CHECKING", "typing.TYPE_CHECKING"):
            for b in n.orelse:
                self.visit(b)
            return
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and self.dotted(n.value.func) == "logging.getLogger":
            self.logs |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        self.generic_visit(n)

    def hit(self, n, what):
        self.out.append((what, "%s:%d:%s" % (self.rel, n.lineno, ".".join(self.where) or "<module>")))

    def outside(self, d):
        """Is the dotted library name an effect?"""
        if d in PURE or d in VALUES:
            return d in VALUES
        head = d.split(".")[0]
        if d.startswith("os.path."):
            return d.split(".")[2] not in PURE_OSPATH
        if head == "logging":
            return d.split(".")[-1] in LOGS | {"basicConfig", "log"}
        return head in MODULES

    def visit_Call(self, n):
        self.calls += 1
        f = n.func
        if isinstance(f, ast.Name) and f.id in BUILTIN and f.id not in self.names and not any(f.id in s for s in self.local):
            self.hit(n, f.id)
        d = self.dotted(f)
        if d and self.outside(d):
            self.hit(n, d)
        if isinstance(f, ast.Attribute) and f.attr in LOGS and isinstance(f.value, ast.Name) and f.value.id in self.logs:
            self.hit(n, "logging." + f.attr)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        d = self.dotted(n)
        if d in VALUES:
            self.hit(n, d)
        self.generic_visit(n)


def scan(root, pkg="aeromet_py"):
    """([(effect, where)], functions, calls, files)"""
    out, fs, cs, files = [], 0, 0, 0
    for dp, dn, fn in sorted(os.walk(os.path.join(root, pkg))):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith(".py") or f == "__main__.py":       # the script is there to print
                continue
            p = os.path.join(dp, f)
            with open(p, encoding="utf-8") as h:
                t = ast.parse(h.read(), p)
            s = Scan(os.path.relpath(p, root))
            s.local = [{x.id for b in t.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                        and isinstance(b, (ast.Assign, ast.AnnAssign))}
                       | {b.name for b in t.body if isinstance(b, (ast.FunctionDef, ast.ClassDef))}]
            for x in ast.walk(t):
                if isinstance(x, ast.Import):
                    s.visit_Import(x)
                elif isinstance(x, ast.ImportFrom):
                    s.visit_ImportFrom(x)
            s.visit(t)
            out += s.out
            fs += s.funcs
            cs += s.calls
            files += 1
    return out, fs, cs, files
