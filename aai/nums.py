"""Numbers: affine/Laurent forms over digit atoms, intervals, relational facts."""
import itertools
import math

from .values import *
from .state import *

LIMIT = 20000


class SEnv(dict):
    """Digits given explicitly, else those the state has pinned down."""
    __slots__ = ("S",)

    def __init__(self, S, d=()):
        super().__init__(d)
        self.S = S

    def _known(self, a):
        if isinstance(a, tuple) and a[0] == "d" and a[1] in self.S.doms:
            m = self.S.digit_mask(a)
            if is_single(m):
                c = mask_chars(m)[0]
                if c.isdigit():
                    return int(c)
        r = self.S.atoms.get(a)
        if r is not None and r[0] == r[1]:
            return r[0]
        return None

    def __contains__(self, a):
        return dict.__contains__(self, a) or self._known(a) is not None

    def __missing__(self, a):
        k = self._known(a)
        if k is None:
            raise KeyError(a)
        return k


def eval_atom(a, env):
    k = a[0] if isinstance(a, tuple) else a
    if a in env:
        return env[a]
    if k == "round":
        v = eval_num(a[1], env)
        return round(v, a[2]) if a[2] is not None else round(v)
    if k == "int":
        return int(eval_num(a[1], env))
    if k == "floor":
        return math.floor(eval_num(a[1], env))
    if k == "ceil":
        return math.ceil(eval_num(a[1], env))
    if k == "abs":
        return abs(eval_num(a[1], env))
    if k == "inv":
        return 1 / eval_num(a[1], env)
    if k == "mod":
        return eval_num(a[1], env) % eval_num(a[2], env)
    if k == "fdiv":
        return eval_num(a[1], env) // eval_num(a[2], env)
    if k == "math":
        return getattr(math, a[1])(eval_num(a[2], env))
    raise KeyError(a)


def eval_terms(terms, env):
    s = 0
    for m, c in terms:
        p = c
        for a, e in m:
            p = p * eval_atom(a, env) ** e
        s = s + p
    return s


def eval_ex(ex, env):
    k = ex[0]
    if k == "c":
        return ex[1]
    if k == "poly":
        return eval_terms(ex[1], env)
    if k == "fmt":
        return float(format(eval_ex(ex[2], env), ex[1]))
    if k == "int":
        return int(eval_ex(ex[1], env))
    if k == "float":
        return float(eval_ex(ex[1], env))
    if k == "neg":
        return -eval_ex(ex[1], env)
    a, b = eval_ex(ex[1], env), eval_ex(ex[2], env)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        return a / b
    raise Undecided("expression %s" % k)


def eval_num(v, env):
    """Concrete value of a number for an assignment of digits to atoms."""
    if isinstance(v, (int, float)):
        return v
    r = eval_ex(v.ex, env)
    return int(r) if v.isint else float(r)


def base_atoms(v, acc=None):
    """Elementary atoms below derived ones."""
    acc = set() if acc is None else acc
    if isinstance(v, Num):
        for a in v.atoms():
            if isinstance(a, tuple) and a[0] in ("round", "int", "floor", "ceil", "abs", "inv", "mod",
                                                 "fdiv", "math"):
                for x in a[1:]:
                    base_atoms(x, acc)
            else:
                acc.add(a)
    return acc


def digit_env(S, atoms):
    """Known values of digit atoms, or None when some is undetermined."""
    env = SEnv(S)
    for a in atoms:
        if isinstance(a, tuple) and a[0] == "d":
            m = S.digit_mask(a)
            if not is_single(m):
                return None
            c = mask_chars(m)[0]
            if not c.isdigit():
                return None
            env[a] = int(c)
        else:
            return None
    return env


def simp(S, v):
    """Use what is known about the digits of v."""
    if type(v) is TNum:
        lo, hi = S.num_iv(v)
        if lo == hi and lo not in (INF, -INF) and v.isint:
            return int(lo)
        return v
    if type(v) is not Num:
        return v
    atoms = base_atoms(v)
    env = digit_env(S, atoms)
    if env is not None:
        return eval_num(v, env)
    known = {}
    for a in v.atoms():
        if isinstance(a, tuple) and a[0] == "d" and a[1] in S.doms:
            m = S.digit_mask(a)
            if is_single(m) and mask_chars(m)[0].isdigit():
                known[a] = int(mask_chars(m)[0])
        elif a in S.atoms and S.atoms[a][0] == S.atoms[a][1]:
            known[a] = S.atoms[a][0]
    if not known:
        return v
    d = {}
    for m, c in v.terms:
        nm = []
        for a, e in m:
            if a in known:
                if known[a] == 0 and e < 0:
                    return v
                c = c * known[a] ** e
            else:
                nm.append((a, e))
        nm = tuple(nm)
        d[nm] = d.get(nm, 0) + c
    return num_from(d, v.isint, v.ex)


def syms_of(v):
    return {a[1] for a in base_atoms(v) if isinstance(a, tuple) and a[0] == "d"}


def assignments(S, atoms):
    """Iterate all digit assignments of atoms (None if too many or unknown)."""
    bysym = {}
    for a in atoms:
        if not (isinstance(a, tuple) and a[0] == "d" and a[1] in S.doms):
            return None
        bysym.setdefault(a[1], []).append(a)
    per = []
    n = 1
    for s, ats in bysym.items():
        ats.sort(key=lambda a: a[2])
        seen = {}
        for box in S.doms[s]:
            opts = []
            for a in ats:
                e = box[a[2]] if a[2] < len(box) else 0
                if not isinstance(e, int):
                    return None
                opts.append([int(c) for c in mask_chars(e & DIGITS)])
            cnt = 1
            for o in opts:
                cnt *= len(o)
            if cnt > LIMIT:
                return None
            for t in itertools.product(*opts):
                seen[t] = None
        per.append((ats, list(seen)))
        n *= len(seen)
        if n > LIMIT:
            return None
    return per


def compress(tuples):
    """A set of digit tuples as few boxes of digit sets."""
    if not tuples:
        return []
    n = len(tuples[0])
    groups = {t[:-1]: set() for t in tuples}
    for t in tuples:
        groups[t[:-1]].add(t[-1])
    rows = [(p, (frozenset(s),)) for p, s in groups.items()]
    for i in range(n - 2, -1, -1):
        g = {}
        for p, suf in rows:
            g.setdefault((p[:-1], suf), set()).add(p[-1])
        rows = [(p, (frozenset(s),) + suf) for (p, suf), s in g.items()]
    return [suf for _, suf in rows]


def restrict(S, ats, tuples):
    """Restrict the domain of the symbol of ats to the given digit tuples."""
    sym = ats[0][1]
    boxes = compress(sorted(set(tuples)))
    out = []
    for box in S.doms[sym]:
        for b in boxes:
            nb = list(box)
            ok = True
            for a, ds in zip(ats, b):
                if a[2] >= len(nb):
                    ok = False
                    break
                m = 0
                for d in ds:
                    m |= 1 << (48 + d)
                nb[a[2]] &= m
                if not nb[a[2]]:
                    ok = False
                    break
            if ok:
                out.append(tuple(nb))
    S.doms[sym] = tuple(dict.fromkeys(out))


def norm_terms(terms):
    """Canonical sign: first coefficient positive.  Returns (key, flipped)."""
    if not terms:
        return terms, False
    c = terms[0][1]
    if c < 0:
        return tuple((m, -x) for m, x in terms), True
    return terms, False


NEG, ZERO, POS = 1, 2, 4
OPS = {"Lt": NEG, "LtE": NEG | ZERO, "Gt": POS, "GtE": POS | ZERO, "Eq": ZERO, "NotEq": NEG | POS}
FLIP = {NEG: POS, POS: NEG, ZERO: ZERO}


def flip(s):
    return (POS if s & NEG else 0) | (ZERO if s & ZERO else 0) | (NEG if s & POS else 0)


def sign(x):
    return NEG if x < 0 else (POS if x > 0 else ZERO)


def possible(lo, hi):
    s = 0
    if lo < 0:
        s |= NEG
    if hi > 0:
        s |= POS
    if lo <= 0 <= hi:
        s |= ZERO
    return s


def close0(x, scale):
    return abs(x) <= 1e-9 * max(1.0, scale)


_FA = {}


def fact_atoms(key):
    r = _FA.get(key)
    if r is None:
        r = _FA[key] = frozenset(a for m, _ in key for a, _e in m)
    return r


def pinned(S, a):
    """Is this digit the same in every word of its symbol?"""
    if not (isinstance(a, tuple) and a[0] == "d" and a[1] in S.doms):
        return False
    got = set()
    for box in S.doms[a[1]]:
        e = box[a[2]] if a[2] < len(box) else 0
        if not isinstance(e, int):
            return False
        got.add(e)
    return len(got) == 1 and bin(got.pop()).count("1") == 1


def num_compare(I, op, a, b):
    S = I.S
    a, b = simp(S, a), simp(S, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b,
                "NotEq": a != b}[op]
    want = OPS[op]
    # lengths of abstract lists
    if type(a) is LenV or type(b) is LenV or type(a) is TNum or type(b) is TNum:
        return iv_compare(I, op, a, b)
    d = n_sub(a, b)
    if not isinstance(d, Num):
        return bool(sign(d) & want)
    lo, hi = S.num_iv(d)
    poss = possible(lo, hi)
    key, fl = norm_terms(d.terms)
    f = S.facts.get(key)
    if f is not None:
        poss &= flip(f) if fl else f
    if not poss & want:
        return False
    if not poss & ~want:
        return True
    atoms = base_atoms(d)
    per = assignments(S, atoms)
    if per is not None:
        ev = ("-", ex_of(a), ex_of(b))
        yes, no = {}, {}
        ny = nn = 0
        have = {at for ats, _ in per for at in ats}
        rel = [(fk, sg) for fk, sg in S.facts.items()
               if fact_atoms(fk) & have and all(at in have or pinned(S, at) for at in fact_atoms(fk))]
        for combo in itertools.product(*[p[1] for p in per]):
            env = SEnv(S)
            for (ats, _), t in zip(per, combo):
                for at, x in zip(ats, t):
                    env[at] = x
            if rel and not all(sign(eval_terms(fk, env)) & sg for fk, sg in rel):
                continue
            va, vb = eval_num(a, env), eval_num(b, env)
            s = NEG if va < vb else (POS if va > vb else ZERO)
            if not s & poss:
                continue
            if s & want:
                ny += 1
                for i, t in enumerate(combo):
                    yes.setdefault(i, set()).add(t)
            else:
                nn += 1
                for i, t in enumerate(combo):
                    no.setdefault(i, set()).add(t)
        if not ny and not nn:
            raise I.Infeasible()
        if not ny:
            return False
        if not nn:
            return True
        r = I.choose(2) == 0
        sel = yes if r else no
        for i, (ats, allt) in enumerate(per):
            if len(sel[i]) < len(allt):
                restrict(S, ats, sel[i])
        if len(per) > 1:
            _fact(S, key, fl, poss & (want if r else ~want))
        return r
    r = I.choose(2) == 0
    _fact(S, key, fl, poss & (want if r else ~want))
    return r


def _fact(S, key, fl, s):
    s = flip(s) if fl else s
    S.facts[key] = S.facts.get(key, 7) & s


def set_iv(I, v, lo, hi, strict_lo=False, strict_hi=False):
    S = I.S
    if type(v) is LenV:
        I.lib.refine_len(I, v, lo, hi)
    elif type(v) is TNum and v.tid is not None:
        l0, h0 = S.num_iv(v)
        if v.isint:
            if lo > -INF:
                lo = math.ceil(lo)
            if hi < INF:
                hi = math.floor(hi)
        l, h = max(l0, lo), min(h0, hi)
        if l > h:
            raise I.Infeasible()
        S.nums[v.tid] = (l, h)


def iv_compare(I, op, a, b):
    S = I.S
    la, ha = num_iv(I, a)
    lb, hb = num_iv(I, b)
    want = OPS[op]
    poss = 0
    if la < hb:
        poss |= NEG
    if ha > lb:
        poss |= POS
    if la <= hb and lb <= ha:
        poss |= ZERO
    if type(a) is TNum and type(b) is TNum and a.tid is not None and a.tid == b.tid:
        poss = ZERO
    # facts between two unknown numbers
    fk = None
    if type(a) is TNum and type(b) is TNum and a.tid is not None and b.tid is not None:
        fk = ("t", min(a.tid, b.tid), max(a.tid, b.tid))
        f = S.picks.get(fk, 7)
        poss &= f if a.tid < b.tid else flip(f)
    if not poss & want:
        return False
    if not poss & ~want:
        return True
    r = I.choose(2) == 0
    s = poss & (want if r else ~want)
    if fk is not None:
        S.picks[fk] = s if a.tid < b.tid else flip(s)
    ia = _isint(a) and _isint(b)
    e = 1 if ia else 0
    if s == NEG:
        set_iv(I, a, -INF, hb - e)
        set_iv(I, b, la + e, INF)
    elif s == POS:
        set_iv(I, a, lb + e, INF)
        set_iv(I, b, -INF, ha - e)
    elif s == ZERO:
        set_iv(I, a, lb, hb)
        set_iv(I, b, la, ha)
    elif s == NEG | ZERO:
        set_iv(I, a, -INF, hb)
        set_iv(I, b, la, INF)
    elif s == POS | ZERO:
        set_iv(I, a, lb, INF)
        set_iv(I, b, -INF, ha)
    elif s == NEG | POS and ia:
        for x, (lx, hx), (l, h) in ((a, (la, ha), (lb, hb)), (b, (lb, hb), (la, ha))):
            if l == h:
                if lx == l:
                    set_iv(I, x, lx + 1, hx)
                elif hx == l:
                    set_iv(I, x, lx, hx - 1)
    return r


def _isint(v):
    return type(v) is LenV or (type(v) in (TNum, Num) and v.isint) or type(v) in (int, bool)


def num_iv(I, v):
    if type(v) is LenV:
        return I.lib.len_iv(I, v)
    return I.S.num_iv(v)


def to_t(I, v):
    """As an interval number."""
    lo, hi = num_iv(I, v)
    return TNum(lo, hi, _isint(v), fresh_id())


def is_zero(I, v):
    return num_compare(I, "Eq", v, 0)


def num_binop(I, op, a, b):
    S = I.S
    a, b = simp(S, a), simp(S, b)
    if type(a) is bool:
        a = int(a)
    if type(b) is bool:
        b = int(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return PYOP[op](a, b)
        except ZeroDivisionError:
            I.throw(ZeroDivisionError, "division by zero")
        except (OverflowError, ValueError) as e:
            I.throw(type(e), str(e))
    if op in ("Div", "FloorDiv", "Mod"):
        if is_zero(I, b):
            I.throw(ZeroDivisionError, "division by zero")
        a, b = simp(S, a), simp(S, b)
    if type(a) in (TNum, LenV) or type(b) in (TNum, LenV):
        return iv_binop(I, op, a, b)
    if op == "Add":
        return n_add(a, b)
    if op == "Sub":
        return n_sub(a, b)
    if op == "Mult":
        return n_mul(a, b)
    if op == "Div":
        return n_div(a, b)
    if op in ("FloorDiv", "Mod"):
        lo, hi = S.num_iv(a)
        if isinstance(b, (int, float)) and b > 0 and lo > -INF and hi < INF:
            q0, q1 = math.floor(lo / b), math.floor(hi / b)
            if q0 == q1:
                q = q0
            elif q1 - q0 <= 64 and a.isint and isinstance(b, int):
                q = q0
                while q < q1 and num_compare(I, "GtE", a, (q + 1) * b):
                    q += 1
            else:
                return atom(("fdiv" if op == "FloorDiv" else "mod", a, b), v_isint(a) and v_isint(b))
            if op == "FloorDiv":
                return q if v_isint(a) and v_isint(b) else float(q)
            return n_sub(a, q * b)
        return atom(("fdiv" if op == "FloorDiv" else "mod", a, b), v_isint(a) and v_isint(b))
    if op == "Pow":
        if isinstance(b, int) and 0 <= b <= 6:
            r = 1
            for _ in range(b):
                r = n_mul(r, a) if r != 1 else a
            return r
        return TNum(-INF, INF, False, fresh_id())
    raise Undecided("operator %s on numbers" % op)


PYOP = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
    "Pow": lambda a, b: a ** b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
    "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b,
}


def _mm(a, b):
    return 0 if a == 0 or b == 0 else a * b


def iv_binop(I, op, a, b):
    la, ha = num_iv(I, a)
    lb, hb = num_iv(I, b)
    isint = _isint(a) and _isint(b)
    if op == "Add":
        return TNum(la + lb, ha + hb, isint, fresh_id())
    if op == "Sub":
        return TNum(la - hb, ha - lb, isint, fresh_id())
    if op == "Mult":
        xs = [_mm(la, lb), _mm(la, hb), _mm(ha, lb), _mm(ha, hb)]
        return TNum(min(xs), max(xs), isint, fresh_id())
    if op == "Div":
        if lb > 0 or hb < 0:
            xs = []
            for x in (la, ha):
                for y in (lb, hb):
                    xs.append(x / y if abs(y) != INF and abs(x) != INF else (
                        0 if abs(y) == INF else (x if y > 0 else -x)))
            return TNum(min(xs), max(xs), False, fresh_id())
        return TNum(-INF, INF, False, fresh_id())
    if op == "Mod":
        if lb == hb and 0 < lb < INF:
            return TNum(0, lb - 1 if isint else lb, isint, fresh_id())
        return TNum(-INF, INF, isint, fresh_id())
    if op == "FloorDiv":
        if lb == hb and 0 < lb < INF:
            return TNum(math.floor(la / lb) if la > -INF else la,
                        math.floor(ha / lb) if ha < INF else ha, isint, fresh_id())
        return TNum(-INF, INF, isint, fresh_id())
    return TNum(-INF, INF, isint and op != "Pow", fresh_id())


def num_neg(I, v):
    v = simp(I.S, v)
    if type(v) in (TNum, LenV):
        lo, hi = num_iv(I, v)
        return TNum(-hi, -lo, _isint(v), fresh_id())
    if isinstance(v, (int, float)):
        return -v
    return Num(tuple((m, -c) for m, c in v.terms), v.isint, ("neg", v.ex))


def num_abs(I, v):
    v = simp(I.S, v)
    if isinstance(v, (int, float)):
        return abs(v)
    if type(v) in (TNum, LenV):
        lo, hi = num_iv(I, v)
        l = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return TNum(l, max(abs(lo), abs(hi)), _isint(v), fresh_id())
    if num_compare(I, "GtE", v, 0):
        return v
    return num_neg(I, v)


def num_round(I, v, n=None):
    v = simp(I.S, v)
    if isinstance(v, (int, float)):
        return round(v, n) if n is not None else round(v)
    if type(v) in (TNum, LenV):
        lo, hi = num_iv(I, v)
        if n is None:
            return TNum(round(lo) if lo > -INF else lo, round(hi) if hi < INF else hi, True, fresh_id())
        return TNum(lo - 1, hi + 1, v.isint if type(v) is TNum else True, fresh_id())
    if v.isint and (n is None or n >= 0):
        return v
    return atom(("round", v, n), n is None)


def num_int(I, v):
    """int(v) for a number."""
    v = simp(I.S, v)
    if type(v) is bool:
        return int(v)
    if isinstance(v, (int, float)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            I.throw(type(e), str(e))
    if type(v) is LenV:
        return v
    if type(v) is TNum:
        if v.isint:
            return v
        lo, hi = num_iv(I, v)
        return TNum(math.floor(lo) if lo > -INF else lo, math.ceil(hi) if hi < INF else hi, True,
                    fresh_id())
    if v.isint:
        return v
    if all(isinstance(c, int) or c == int(c) for _, c in v.terms) and all(
            e > 0 for m, _ in v.terms for _, e in m) and _int_atoms(v):
        return Num(tuple((m, int(c)) for m, c in v.terms), True, ("int", v.ex))
    return atom(("int", v), True)


def _int_atoms(v):
    return all(isinstance(a, tuple) and a[0] in ("d", "int", "floor") for a in v.atoms())


def num_float(I, v):
    v = simp(I.S, v)
    if isinstance(v, (int, float)):
        return float(v)
    if type(v) in (TNum, LenV):
        lo, hi = num_iv(I, v)
        return TNum(lo, hi, False, fresh_id())
    return Num(v.terms, False, ("float", v.ex)) if v.isint else v
