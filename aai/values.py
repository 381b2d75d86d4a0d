"""Abstract value domain."""
import math
from dataclasses import dataclass, field
from typing import Any, Tuple

INF = math.inf


class Undecided(Exception):
    """The analysis met something it has no abstract transfer function for."""


class TooMany(Undecided):
    """Too many partitions."""


# ---------------------------------------------------------------- charsets
# bit i (i<128): ASCII char i.  bit 128: any non-ASCII character.
OTHER = 1 << 128
ALL = (1 << 129) - 1


def cmask(chars):
    m = 0
    for c in chars:
        o = ord(c)
        m |= (1 << o) if o < 128 else OTHER
    return m


DIGITS = cmask("0123456789")
SPACE = cmask(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")
WORD = cmask("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") | OTHER
NONSPACE = ALL & ~SPACE
UPPER = cmask("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER = cmask("abcdefghijklmnopqrstuvwxyz")


def mask_chars(m):
    """The ASCII characters of a mask (OTHER is shown as U+FFFD)."""
    out = []
    i = 0
    mm = m & ((1 << 128) - 1)
    while mm:
        b = mm & -mm
        out.append(chr(b.bit_length() - 1))
        mm ^= b
    if m & OTHER:
        out.append("\ufffd")
    return out


def is_single(m):
    return m != 0 and (m & (m - 1)) == 0 and m != OTHER


def mask_size(m):
    return bin(m).count("1")


# ---------------------------------------------------------------- numbers
def _clean(c):
    if isinstance(c, float) and c == int(c) and abs(c) < 1e15 and False:
        return int(c)
    return c


class Num:
    """Laurent polynomial over atoms.  terms: tuple of (monomial, coef);
    monomial: tuple of (atom, exp) sorted by repr; () is the constant term."""

    __slots__ = ("terms", "isint", "_h", "ex")

    def __init__(self, terms, isint, ex=None):
        self.terms = terms
        self.isint = isint
        self.ex = ex if ex is not None else ("poly", terms)
        self._h = hash((terms, isint))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Num) and self.terms == o.terms and self.isint == o.isint

    def __repr__(self):
        def mono(m):
            return "*".join(
                _atom_name(a) + ("" if e == 1 else "^%d" % e) for a, e in m
            )

        s = " + ".join(
            ("%.10g" % c if not m else ("%.10g*" % c if c != 1 else "") + mono(m))
            for m, c in self.terms
        )
        return "<" + (s or "0") + (":i" if self.isint else ":f") + ">"

    def atoms(self):
        s = set()
        for m, _ in self.terms:
            for a, _e in m:
                s.add(a)
        return s


def _atom_name(a):
    if isinstance(a, tuple):
        if a[0] == "d":
            return "%s[%d]" % (a[1], a[2])
        return "/".join(str(x) for x in a)
    return str(a)


def num_from(d, isint, ex=None):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return 0 if isint else 0.0
    if len(items) == 1 and items[0][0] == ():
        c = items[0][1]
        return c if isint else float(c)
    items.sort(key=lambda mc: repr(mc[0]))
    return Num(tuple(items), isint, ex)


def atom(a, isint=True):
    return Num(((((a, 1),), 1),), isint)


def as_terms(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)):
        return {(): v} if v != 0 else {}
    return dict(v.terms)


def v_isint(v):
    if isinstance(v, Num):
        return v.isint
    return isinstance(v, int)


def ex_of(v):
    return v.ex if isinstance(v, Num) else ("c", v)


def n_add(a, b, sign=1):
    d = as_terms(a)
    for m, c in as_terms(b).items():
        nc = d.get(m, 0) + sign * c
        if isinstance(nc, float) and abs(nc) < 1e-9 * max(1.0, abs(c)):
            nc = 0
        d[m] = nc
    return num_from(d, v_isint(a) and v_isint(b),
                    ("+" if sign > 0 else "-", ex_of(a), ex_of(b)))


def n_sub(a, b):
    return n_add(a, b, -1)


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))


def n_mul(a, b):
    d = {}
    for m1, c1 in as_terms(a).items():
        for m2, c2 in as_terms(b).items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return num_from(d, v_isint(a) and v_isint(b), ("*", ex_of(a), ex_of(b)))


def n_div(a, b):
    """b is known non-zero.  True division."""
    bt = as_terms(b)
    if len(bt) == 1:
        (m, c), = bt.items()
        inv = tuple((x, -e) for x, e in m)
        d = {}
        for m1, c1 in as_terms(a).items():
            mm = _mono_mul(m1, inv)
            d[mm] = d.get(mm, 0) + c1 / c
        return num_from(d, False, ("/", ex_of(a), ex_of(b)))
    inv = atom(("inv", b), False)
    return n_mul(a, inv)


@dataclass(frozen=True)
class TNum:
    """Any number in [lo, hi]; tid names the unknown so that tests refine it."""
    lo: float = -INF
    hi: float = INF
    isint: bool = False
    tid: Any = field(default=None, compare=False)


@dataclass(frozen=True)
class LenV:
    """len() of an abstract list, tied to the list object and its version."""
    oid: Any
    lo: int
    hi: float
    d: Any = field(default=None, compare=False)


# ---------------------------------------------------------------- strings
@dataclass(frozen=True)
class SC:
    """Character i of symbol sym."""
    sym: Any
    i: int


@dataclass(frozen=True)
class FN:
    num: Any
    spec: str


@dataclass(frozen=True)
class SV:
    val: Any


@dataclass(frozen=True)
class BL:
    """Unknown text over the characters of mask, at least lo characters."""
    name: str
    mask: int
    lo: int = 1


@dataclass(frozen=True)
class AStr:
    cells: Tuple

    def __repr__(self):
        out = []
        for c in self.cells:
            if isinstance(c, str):
                out.append(c)
            elif isinstance(c, SC):
                out.append("{%s.%d}" % (c.sym, c.i))
            elif isinstance(c, FN):
                out.append("{%r:%s}" % (c.num, c.spec))
            elif isinstance(c, SV):
                out.append("{str %r}" % (c.val,))
            else:
                out.append("{%s}" % c.name)
        return "s'" + "".join(out) + "'"


def mk_str(cells):
    cells = tuple(cells)
    if all(isinstance(c, str) for c in cells):
        return "".join(cells)
    return AStr(cells)


@dataclass(frozen=True)
class TStr:
    """Any string."""
    tag: str = ""


@dataclass(frozen=True)
class WVal:
    """The whole value of a symbol, possibly of undecided length."""
    sym: Any


@dataclass(frozen=True)
class Pat:
    """A compiled regular expression."""
    pattern: str
    flags: int = 0


# ---------------------------------------------------------------- calendar
@dataclass(frozen=True)
class ADate:
    base: Any          # ('date', year, month, day) | ('clock',) | ('gen', name)
    off: Any = 0       # days: int | Num


@dataclass(frozen=True)
class DT:
    date: ADate
    hour: Any
    minute: Any
    second: Any = 0


@dataclass(frozen=True)
class TD:
    minutes: Any


# ---------------------------------------------------------------- others
@dataclass(frozen=True)
class Ref:
    oid: Any

    def __repr__(self):
        return "&%s" % (self.oid,)


@dataclass(frozen=True)
class Tup:
    items: Tuple
    cls: Any = None    # namedtuple class id


@dataclass(frozen=True)
class Union:
    """One of alts; cid names the unknown choice so that it is made once."""
    alts: Tuple
    cid: Any = field(default=None, compare=False)


@dataclass(frozen=True)
class It:
    """A lazy iterator adaptor: enumerate, zip, map, filter, reversed, range, views."""
    kind: str
    args: Tuple


@dataclass(frozen=True)
class Top:
    why: str = ""


@dataclass(frozen=True)
class Fn:
    """table[sym] for a table with many keys, all of them possible."""
    sym: Any
    table: Any


@dataclass(frozen=True)
class GRow:
    """An arbitrary element of a large constant list, not yet instantiated."""
    oid: Any


@dataclass(frozen=True)
class FrozenSet:
    items: Tuple


class Func:
    __slots__ = ("node", "genv", "closure", "defaults", "kwdefaults", "name", "cls",
                 "is_gen", "path", "attrs")

    def __init__(self, node, genv, closure, defaults, kwdefaults, name, cls, path):
        self.node, self.genv, self.closure = node, genv, closure
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.cls, self.path = cls, path
        self.is_gen = None
        self.attrs = {}

    def __repr__(self):
        return "<func %s>" % self.name


@dataclass(frozen=True)
class BoundM:
    func: Any
    self_: Any


class PropV:
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassV:
    __slots__ = ("name", "bases", "oid", "mro", "exc", "ntfields", "path", "meta")

    def __init__(self, name, bases, oid, path):
        self.name, self.bases, self.oid, self.path = name, bases, oid, path
        self.mro = None
        self.exc = None       # nearest real builtin exception class
        self.ntfields = None  # namedtuple fields
        self.meta = {}

    def __repr__(self):
        return "<class %s>" % self.name


class BType:
    """A modelled builtin type (str, int, dict, datetime, ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class ExcT:
    """A builtin exception class."""
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ExcT) and o.cls is self.cls

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return "<exc %s>" % self.cls.__name__


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque:
    """typing constructs and similar objects without run-time meaning here."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class ModV:
    __slots__ = ("name", "oid", "table")

    def __init__(self, name, oid=None, table=None):
        self.name, self.oid, self.table = name, oid, table

    def __repr__(self):
        return "<module %s>" % self.name


NOTIMPL = Opaque("NotImplemented")
ELLIPSIS = Opaque("Ellipsis")
