"""Bit-precise abstract domain: 64-bit words whose bits are ordered binary decision diagrams.

Canonical: two words denote the same function of the input bits iff they are the same nodes.  Used for the binary
circuits, where every bit pattern matters."""
from fractions import Fraction as Fr


class BDD:
    def __init__(self, limit=2000000):
        self.unique = {}
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.memo = {}
        self.limit = limit

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.nodes)
            if n > self.limit:
                raise MemoryError("decision diagram limit")
            self.nodes.append(k)
            self.unique[k] = n
        return n

    def var(self, i):
        return self.mk(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.nodes[f], self.nodes[g], self.nodes[h]
        v = min(nf[0], ng[0], nh[0])
        f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
        g0, g1 = (ng[1], ng[2]) if ng[0] == v else (g, g)
        h0, h1 = (nh[1], nh[2]) if nh[0] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def and_(self, f, g):
        return self.ite(f, g, 0) if f <= g else self.ite(g, f, 0)

    def or_(self, f, g):
        return self.ite(f, 1, g)

    def xor(self, f, g):
        if f > g:
            f, g = g, f
        return self.ite(f, self.not_(g), g)

    def sat(self, f):
        """one satisfying assignment of a non-false node"""
        out = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if hi != 0:
                out[v] = 1
                f = hi
            else:
                out[v] = 0
                f = lo
        return out


W = 64


class BV:
    """64-bit two's complement word"""
    __slots__ = ("m", "b")

    def __init__(self, m, bits):
        self.m, self.b = m, tuple(bits)

    @classmethod
    def const(cls, m, v):
        v = int(v) & (2 ** W - 1)
        return cls(m, [(v >> i) & 1 for i in range(W)])

    def lift(self, o):
        if isinstance(o, BV):
            return o
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, Fr):
            if o.denominator != 1:
                raise TypeError("bit operation on a non-integer")
            o = int(o)
        return BV.const(self.m, o)

    def bitop(self, op, o):
        o = self.lift(o)
        f = {"xor": self.m.xor, "band": self.m.and_, "bor": self.m.or_}[op]
        return BV(self.m, [f(x, y) for x, y in zip(self.b, o.b)])

    def shl(self, k):
        k = int(k)
        return BV(self.m, ([0] * k + list(self.b))[:W])

    def shr(self, k):
        k = int(k)
        return BV(self.m, (list(self.b[k:]) + [self.b[-1]] * k)[:W])

    def inv(self):
        return BV(self.m, [self.m.not_(x) for x in self.b])

    def __add__(self, o):
        o = self.lift(o)
        m = self.m
        c = 0
        out = []
        for x, y in zip(self.b, o.b):
            p = m.xor(x, y)
            out.append(m.xor(p, c))
            c = m.ite(p, c, x)
        return BV(m, out)

    __radd__ = __add__

    def __neg__(self):
        return self.inv() + 1

    def __sub__(self, o):
        return self + (-self.lift(o))

    def __rsub__(self, o):
        return self.lift(o) - self

    def __mul__(self, o):
        o = self.lift(o)
        a, b = (self, o) if all(x in (0, 1) for x in o.b) else (o, self)
        r = BV.const(self.m, 0)
        for i, x in enumerate(b.b):
            if x == 0:
                continue
            t = a.shl(i)
            if x != 1:
                t = BV(self.m, [self.m.and_(x, y) for y in t.b])
            r = r + t
        return r

    __rmul__ = __mul__

    def bool_(self, bit):
        return BV(self.m, [bit] + [0] * (W - 1))

    def eqw(self, o):
        o = self.lift(o)
        r = 1
        for x, y in zip(self.b, o.b):
            r = self.m.and_(r, self.m.not_(self.m.xor(x, y)))
        return self.bool_(r)

    def ltw(self, o):
        """signed less-than"""
        o = self.lift(o)
        m = self.m
        lt = 0
        for i, (x, y) in enumerate(zip(self.b, o.b)):
            if i == W - 1:
                x, y = y, x
            d = m.xor(x, y)
            lt = m.ite(d, y, lt)
        return self.bool_(lt)

    def notw(self):
        """logical negation of a 0/1 word"""
        return self.bool_(self.m.not_(self.b[0]))

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return "BV(...)"
