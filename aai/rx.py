"""Regular expressions as data: parsing, languages, matching over abstract cells.

The pattern constants of the analysed source are parsed with the standard
library's own regular-expression parser; nothing of the analysed program runs."""
import re
import re._parser as _sp
import re._constants as _c
from .values import (ALL, DIGITS, SPACE, WORD, OTHER, cmask, Undecided)

_CATS = {
    _c.CATEGORY_DIGIT: DIGITS, _c.CATEGORY_NOT_DIGIT: ALL & ~DIGITS,
    _c.CATEGORY_SPACE: SPACE, _c.CATEGORY_NOT_SPACE: ALL & ~SPACE,
    _c.CATEGORY_WORD: WORD, _c.CATEGORY_NOT_WORD: ALL & ~WORD,
}
NL = cmask("\n")


class TooBig(Exception):
    pass


def _fold(m):
    out = m
    for i in range(26):
        u, l = 1 << (65 + i), 1 << (97 + i)
        if m & (u | l):
            out |= u | l
    return out


def _lit(o):
    return (1 << o) if o < 128 else OTHER


def _inset(items):
    m, neg = 0, False
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            m |= _lit(av)
        elif op is _c.RANGE:
            lo, hi = av
            for o in range(lo, min(hi, 127) + 1):
                m |= 1 << o
            if hi > 127:
                m |= OTHER
        elif op is _c.CATEGORY:
            m |= _CATS[av]
        else:
            raise Undecided("regex class item %s" % op)
    return (ALL & ~m) if neg else m


class RX:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        p = _sp.parse(pattern, flags)
        self.flags = p.state.flags
        self.ic = bool(self.flags & re.I)
        self.groupindex = dict(p.state.groupdict)
        self.ngroups = p.state.groups - 1
        self.node = self._seq(p)
        self._words = None

    def _seq(self, sub):
        return ("seq", tuple(self._node(op, av) for op, av in sub))

    def _ch(self, m):
        return ("ch", _fold(m) if self.ic else m)

    def _node(self, op, av):
        if op is _c.LITERAL:
            return self._ch(_lit(av))
        if op is _c.NOT_LITERAL:
            return self._ch(ALL & ~_lit(av))
        if op is _c.ANY:
            return ("ch", ALL if self.flags & re.S else ALL & ~NL)
        if op is _c.IN:
            return self._ch(_inset(av))
        if op is _c.BRANCH:
            return ("alt", tuple(self._seq(b) for b in av[1]))
        if op is _c.SUBPATTERN:
            g, add, dele, sub = av
            n = self._seq(sub)
            return n if g is None else ("grp", g, n)
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            return ("rep", self._seq(sub), lo, None if hi is _c.MAXREPEAT else hi,
                    op is not _c.MIN_REPEAT)
        if op is _c.AT:
            return ("at", {
                _c.AT_BEGINNING: "bol" if self.flags & re.M else "bos",
                _c.AT_BEGINNING_STRING: "bos",
                _c.AT_END: "eol" if self.flags & re.M else "end",
                _c.AT_END_STRING: "eos", _c.AT_BOUNDARY: "b",
                _c.AT_NON_BOUNDARY: "nb"}[av])
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            d, sub = av
            return ("look", self._seq(sub), op is _c.ASSERT_NOT, d)
        if op is _c.ATOMIC_GROUP:
            return self._seq(av)
        if op is _c.GROUPREF:
            return ("ref", av)
        raise Undecided("regex construct %s" % op)

    # -------------------------------------------------------- matching
    def match_at(self, subj, pos, full=False):
        """subj: object with n (length) and test(i, mask)->bool.  Returns
        (end, {group: (start, end)}) or None.  Greedy backtracking."""
        def m(node, i, gs, k):
            t = node[0]
            if t == "ch":
                if i < subj.n and subj.test(i, node[1]):
                    return k(i + 1, gs)
                return None
            if t == "seq":
                return mseq(node[1], 0, i, gs, k)
            if t == "alt":
                for b in node[1]:
                    r = m(b, i, gs, k)
                    if r is not None:
                        return r
                return None
            if t == "grp":
                g = node[1]

                def k2(j, gs2):
                    d = dict(gs2)
                    d[g] = (i, j)
                    return k(j, d)
                return m(node[2], i, gs, k2)
            if t == "rep":
                return mrep(node, 0, i, gs, k)
            if t == "at":
                w = node[1]
                if w == "bos":
                    ok = i == 0
                elif w == "eos":
                    ok = i == subj.n
                elif w == "end":
                    ok = i == subj.n or (i == subj.n - 1 and subj.test(i, NL))
                elif w == "bol":
                    ok = i == 0 or subj.test(i - 1, NL)
                elif w == "eol":
                    ok = i == subj.n or subj.test(i, NL)
                else:
                    a = i > 0 and subj.test(i - 1, WORD)
                    b = i < subj.n and subj.test(i, WORD)
                    ok = (a != b) == (w == "b")
                return k(i, gs) if ok else None
            if t == "look":
                _, sub, neg, d = node
                if d > 0:
                    r = m(sub, i, gs, lambda j, g2: (j, g2))
                else:
                    r = None
                    for s in range(i, -1, -1):
                        r = m(sub, s, gs, lambda j, g2: (j, g2) if j == i else None)
                        if r is not None:
                            break
                if (r is not None) == neg:
                    return None
                return k(i, gs if neg else r[1])
            raise Undecided("regex node %s" % t)

        def mseq(nodes, x, i, gs, k):
            if x == len(nodes):
                return k(i, gs)
            return m(nodes[x], i, gs, lambda j, g2: mseq(nodes, x + 1, j, g2, k))

        def mrep(node, c, i, gs, k):
            _, sub, lo, hi, greedy = node

            def more():
                if hi is not None and c >= hi:
                    return None
                return m(sub, i, gs,
                         lambda j, g2: mrep(node, c + 1, j, g2, k)
                         if (j > i or c < lo) else None)
            if c < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else k(i, gs)
            r = k(i, gs)
            return r if r is not None else more()

        def fin(j, gs):
            if full and j != subj.n:
                return None
            return (j, gs)
        return m(self.node, pos, {}, fin)

    # -------------------------------------------------------- language
    def words(self):
        """[(elements, spans, at_start, at_end)]: every way to match, as boxes.
        element: mask, or ('*', mask, lo) for an unbounded run."""
        if self._words is None:
            try:
                self._words = self._lang(self.node)
            except TooBig:
                self._words = False
        return self._words or None

    def _lang(self, node):
        t = node[0]
        if t == "ch":
            return [((node[1],), {}, False, False)]
        if t == "seq":
            out = [((), {}, False, False)]
            for n in node[1]:
                part = self._lang(n)
                new = []
                for e1, s1, a1, z1 in out:
                    for e2, s2, a2, z2 in part:
                        if z1 and (e2 or a2):
                            continue   # nothing can follow the end anchor
                        if a2 and e1:
                            continue   # start anchor after characters
                        s = dict(s1)
                        for g, (x, y) in s2.items():
                            s[g] = (x + len(e1), y + len(e1))
                        new.append((e1 + e2, s, a1 or a2, z1 or z2))
                    if len(new) > 6000:
                        raise TooBig()
                out = new
            return out
        if t == "alt":
            out = []
            for b in node[1]:
                out += self._lang(b)
            return out
        if t == "grp":
            out = []
            for e, s, a, z in self._lang(node[2]):
                s = dict(s)
                s[node[1]] = (0, len(e))
                out.append((e, s, a, z))
            return out
        if t == "rep":
            _, sub, lo, hi, _g = node
            part = self._lang(sub)
            if hi is None or hi > 12:
                m = 0
                for e, s, a, z in part:
                    if len(e) != 1 or s or a or z or not isinstance(e[0], int):
                        raise TooBig()
                    m |= e[0]
                return [((("*", m, lo),), {}, False, False)]
            out = []
            for c in range(hi, lo - 1, -1):
                out += self._lang(("seq", (sub,) * c))
            return out
        if t == "at":
            w = node[1]
            if w in ("bos", "bol"):
                return [((), {}, True, False)]
            if w in ("eos", "end", "eol"):
                return [((), {}, False, True)]
            return [((), {}, False, False)]
        if t == "look":
            return [((), {}, False, False)]
        raise TooBig()


_cache = {}


def get(pattern, flags=0):
    k = (pattern, flags)
    if k not in _cache:
        _cache[k] = RX(pattern, flags)
    return _cache[k]
