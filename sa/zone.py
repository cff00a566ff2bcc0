"""Linear terms and a zone (difference bound) domain for the shape analysis."""
from math import gcd

INF = None


def lin(c=0, **syms):
    return (tuple(sorted(syms.items())), c)


def sym(s, c=0):
    return (((s, 1),), c)


def const(c):
    return ((), c)


def add(a, b):
    d = dict(a[0])
    for s, k in b[0]:
        d[s] = d.get(s, 0) + k
        if d[s] == 0:
            del d[s]
    return (tuple(sorted(d.items())), a[1] + b[1])


def scale(a, k):
    if k == 0:
        return const(0)
    return (tuple((s, c * k) for s, c in a[0]), a[1] * k)


def sub(a, b):
    return add(a, scale(b, -1))


def is_const(a):
    return not a[0]


def diffform(a):
    """a = x - y + c with x, y symbols or '0'  ->  (x, y, c) or None"""
    pos = [s for s, k in a[0] if k == 1]
    neg = [s for s, k in a[0] if k == -1]
    if len(pos) + len(neg) != len(a[0]) or len(pos) > 1 or len(neg) > 1:
        return None
    return (pos[0] if pos else "0", neg[0] if neg else "0", a[1])


def show(a):
    out = ""
    for s, k in a[0]:
        out += ("+" if k > 0 and out else "-" if k < 0 else "") + ("" if abs(k) == 1 else str(abs(k))) + s
    if a[1] or not out:
        out += ("+" if a[1] > 0 and out else "") + str(a[1])
    return out


def rename(a, m):
    """substitute symbols by linear terms"""
    r = const(a[1])
    for s, k in a[0]:
        r = add(r, scale(m[s], k) if s in m else (((s, k),), 0))
    return r


def a_pos(t):
    return [(s, k) for s, k in t[0] if k > 0]


def a_neg(t):
    return [(s, k) for s, k in t[0] if k < 0]


class Zone:
    """bounds x - y <= c; always closed; non-zone facts t <= 0 kept as they are"""
    __slots__ = ("b", "syms", "extra")

    def __init__(self):
        self.b, self.syms, self.extra = {}, {"0"}, frozenset()

    def copy(self):
        z = Zone()
        z.b, z.syms, z.extra = dict(self.b), set(self.syms), self.extra
        return z

    def get(self, x, y):
        if x == y:
            return 0
        return self.b.get((x, y), INF)

    def constrain(self, x, y, c):
        """x - y <= c; False if inconsistent"""
        if x == y:
            return c >= 0
        self.syms |= {x, y}
        o = self.get(x, y)
        if o is not INF and o <= c:
            return True
        r = self.get(y, x)
        if r is not INF and r + c < 0:
            return False
        for u in self.syms:
            ux = self.get(u, x)
            if ux is INF:
                continue
            for v in self.syms:
                yv = self.get(y, v)
                if yv is INF or u == v:
                    continue
                n = ux + c + yv
                p = self.get(u, v)
                if p is INF or n < p:
                    self.b[(u, v)] = n
        for u in self.syms:
            for v in self.syms:
                p, q = self.get(u, v), self.get(v, u)
                if p is not INF and q is not INF and p + q < 0:
                    return False
        return True

    def assume_le0(self, t):
        """t <= 0"""
        if is_const(t):
            return t[1] <= 0
        g = gcd(*(k for _, k in t[0]))
        if g > 1:
            t = (tuple((s, k // g) for s, k in t[0]), -(-t[1] // g))
        d = diffform(t)
        if d is None:
            if self.decide_le0(add(scale(t, -1), const(1))) is True:
                return False
            self.extra = self.extra | {t}
            return True
        if not self.constrain(d[0], d[1], -d[2]):
            return False
        for e in self.extra:
            u = self.upper0(scale(e, -1))
            if u is not None and u < 0:
                return False
        return True

    def upper(self, t):
        """least known upper bound of t, or None"""
        best = self.upper0(t)
        if is_const(t):
            return best
        for e in self.extra:
            u = self.upper0(sub(t, e))
            if u is not None and (best is None or u < best):
                best = u
        return best

    def upper0(self, t):
        if is_const(t):
            return t[1]
        d = diffform(t)
        if d is not None:
            u = self.get(d[0], d[1])
            return None if u is INF else u + d[2]
        u = self.pairs([x for x, k in a_pos(t) for _ in range(k)], [x for x, k in a_neg(t) for _ in range(-k)],
                       sum(abs(k) for _, k in t[0]))
        return None if u is None else u + t[1]

    def pairs(self, pos, neg, total):
        """upper bound of a sum by bounding pairs of its symbols"""
        if total != len(pos) + len(neg) or total > 5:
            return None
        if not pos:
            s = 0
            for y in neg:
                u = self.get("0", y)
                if u is INF:
                    return None
                s += u
            return s
        x, best = pos[0], None
        for j in range(-1, len(neg)):
            u = self.get(x, "0" if j < 0 else neg[j])
            if u is INF:
                continue
            r = self.pairs(pos[1:], neg if j < 0 else neg[:j] + neg[j + 1:], total - 1 - (j >= 0))
            if r is not None and (best is None or u + r < best):
                best = u + r
        return best

    def decide_le0(self, t):
        u = self.upper(t)
        if u is not None and u <= 0:
            return True
        l = self.upper(scale(t, -1))
        if l is not None and -l > 0:
            return False
        return None

    def decide_eq0(self, t):
        a, b = self.decide_le0(t), self.decide_le0(scale(t, -1))
        if a is True and b is True:
            return True
        if a is False or b is False:
            return False
        return None

    def value(self, t):
        """the value of t if it is known, or None"""
        a = self.upper(t)
        if a is None:
            return None
        b = self.upper(scale(t, -1))
        return a if b is not None and a == -b else None

    def restrict(self, keep):
        keep = set(keep) | {"0"}
        self.b = {k: v for k, v in self.b.items() if k[0] in keep and k[1] in keep}
        self.syms = {s for s in self.syms if s in keep}
        self.extra = frozenset(e for e in self.extra if all(s in keep for s, _ in e[0]))

    def rename(self, m):
        z = Zone()
        z.b = {(m.get(x, x), m.get(y, y)): c for (x, y), c in self.b.items()}
        z.syms = {m.get(s, s) for s in self.syms}
        z.extra = frozenset((tuple(sorted((m.get(s, s), k) for s, k in e[0])), e[1]) for e in self.extra)
        return z

    def key(self):
        return (tuple(sorted(self.b.items())), tuple(sorted(self.extra)))
