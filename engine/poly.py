"""Sparse multivariate polynomials over Q and rational functions with factored denominators.

A polynomial is (dict packed_exponent -> int, den) with one common positive integer denominator.
"""
from fractions import Fraction
from math import gcd

B = 12
MASK = (1 << B) - 1


class TooBig(Exception):
    pass


LIMIT = [400000]


class P:
    __slots__ = ('d', 'c', '_k')

    def __init__(self, d, c=1):
        self.d = d
        self.c = c
        self._k = None

    def iszero(self):
        return not self.d

    def isconst(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def const(self):
        return Fraction(self.d.get(0, 0), self.c)

    def key(self):
        if self._k is None:
            self.red()
            self._k = (self.c, tuple(sorted(self.d.items())))
        return self._k

    def red(self):
        g = self.c
        if g != 1:
            for v in self.d.values():
                g = gcd(g, v)
                if g == 1:
                    break
            if g != 1:
                self.d = {k: v // g for k, v in self.d.items()}
                self.c //= g
        return self


ZERO = P({})
ONE = P({0: 1})


def pconst(fr):
    fr = Fraction(fr)
    return P({0: fr.numerator}, fr.denominator) if fr else ZERO


def pvar(i):
    return P({1 << (B * i): 1})


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if a.c == b.c:
        if len(a.d) < len(b.d):
            a, b = b, a
        r = dict(a.d)
        for k, v in b.d.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                del r[k]
        return P(r, a.c)
    g = gcd(a.c, b.c)
    fa = b.c // g
    fb = a.c // g
    r = {k: v * fa for k, v in a.d.items()}
    for k, v in b.d.items():
        s = r.get(k, 0) + v * fb
        if s:
            r[k] = s
        else:
            del r[k]
    return P(r, a.c * fa)


def pneg(a):
    return P({k: -v for k, v in a.d.items()}, a.c)


def psub(a, b):
    return padd(a, pneg(b))


def pscale(a, fr):
    if fr == 0:
        return ZERO
    if fr == 1:
        return a
    n, d = fr.numerator, fr.denominator
    g = gcd(n, a.c)
    n //= g
    return P({k: v * n for k, v in a.d.items()}, (a.c // g) * d).red()


def pmul(a, b):
    if not a.d or not b.d:
        return ZERO
    if len(a.d) > len(b.d):
        a, b = b, a
    if len(a.d) == 1:
        (ka, va), = a.d.items()
        if ka == 0 and va == 1 and a.c == 1:
            return b
        r = P({ka + k: va * v for k, v in b.d.items()}, a.c * b.c)
        if r.c != 1:
            r.red()
        return r
    if len(a.d) * len(b.d) > 60 * LIMIT[0]:
        raise TooBig()
    r = {}
    get = r.get
    bi = list(b.d.items())
    for ka, va in a.d.items():
        for kb, vb in bi:
            k = ka + kb
            r[k] = get(k, 0) + va * vb
    r = {k: v for k, v in r.items() if v}
    if len(r) > LIMIT[0]:
        raise TooBig()
    p = P(r, a.c * b.c)
    if p.c != 1:
        p.red()
    return p


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def mono_min(d):
    """componentwise minimum exponent over the monomials (monomial content)"""
    it = iter(d)
    m = next(it)
    for k in it:
        if m == 0:
            return 0
        # componentwise min of m and k
        r = 0
        sh = 0
        x, y = m, k
        while x and y:
            p, q = x & MASK, y & MASK
            r |= (p if p < q else q) << sh
            x >>= B
            y >>= B
            sh += B
        m = r
    return m


def divides_mono(a, b):
    """monomial a divides monomial b"""
    while a:
        if (a & MASK) > (b & MASK):
            return False
        a >>= B
        b >>= B
    return True


def pdivexact(a, b, limit=20000):
    """a / b if exact else None"""
    if not a.d:
        return a
    if len(b.d) == 1:
        (kb, vb), = b.d.items()
        if kb == 0:
            return pscale(a, Fraction(b.c, vb))
        for k in a.d:
            if not divides_mono(kb, k):
                return None
        return pscale(P({k - kb: v for k, v in a.d.items()}, a.c), Fraction(b.c, vb))
    if len(a.d) > limit:
        return None
    lb = max(b.d)
    la = max(a.d)
    if not divides_mono(lb, la):
        return None
    if not divides_mono(min(b.d), min(a.d)):
        return None
    import heapq
    r = {k: Fraction(v, a.c) for k, v in a.d.items()}
    heap = [-k for k in r]
    heapq.heapify(heap)
    bl = [(k, Fraction(v, b.c)) for k, v in b.d.items() if k != lb]
    lc = Fraction(b.d[lb], b.c)
    q = {}
    steps = 0
    while heap:
        k = -heapq.heappop(heap)
        v = r.pop(k, 0)
        if not v:
            continue
        if not divides_mono(lb, k):
            return None
        e = k - lb
        c = v / lc
        q[e] = c
        steps += 1
        if steps > 3000:
            return None
        for kb, vb in bl:
            kk = kb + e
            if kk in r:
                r[kk] -= vb * c
            else:
                r[kk] = -vb * c
                heapq.heappush(heap, -kk)
    den = 1
    for v in q.values():
        den = den * v.denominator // gcd(den, v.denominator)
    return P({k: int(v * den) for k, v in q.items()}, den)


def psqrt(a):
    """exact square root of a perfect square polynomial (positive leading coefficient) or None"""
    if not a.d:
        return a
    import math
    r = {}
    rem = a
    la = max(a.d)
    # leading monomial even?
    x = la
    while x:
        if x & 1:
            return None
        x >>= B
    half = _half(la)
    fr = Fraction(a.d[la], a.c)
    s = _fsqrt(fr)
    if s is None:
        return None
    root = pconst(s)
    root = P({half: s.numerator}, s.denominator)
    rem = psub(a, pmul(root, root))
    lead2 = 2 * s
    n = 0
    while rem.d:
        k = max(rem.d)
        if not divides_mono(half, k):
            return None
        e = k - half
        if e >= half:
            return None
        c = Fraction(rem.d[k], rem.c) / lead2
        t = P({e: c.numerator}, c.denominator)
        # rem -= 2*root*t + t*t
        rem = psub(rem, pmul(t, padd(pscale(root, Fraction(2)), t)))
        root = padd(root, t)
        n += 1
        if n > len(a.d) + 5:
            return None
    return root


def _half(k):
    r = 0
    sh = 0
    while k:
        r |= ((k & MASK) >> 1) << sh
        k >>= B
        sh += B
    return r


def _fsqrt(fr):
    import math
    if fr < 0:
        return None
    n = math.isqrt(fr.numerator)
    d = math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


def vars_of(p):
    r = set()
    for k in p.d:
        i = 0
        while k:
            if k & MASK:
                r.add(i)
            k >>= B
            i += 1
    return r


def mono_items(k):
    i = 0
    out = []
    while k:
        if k & MASK:
            out.append((i, k & MASK))
        k >>= B
        i += 1
    return out
