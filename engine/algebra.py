"""Decision procedure for identities and sign conditions over rational functions extended with square roots,
absolute values, sines/cosines and conditional terms (case analysis on the sign of canonical polynomials)."""
import time
from fractions import Fraction

from . import poly as pl
from .poly import P, padd, psub, pmul, pneg, pscale, pconst, pvar, ppow, ZERO, ONE, TooBig
from . import terms as tm
from .terms import T

S_ALL = frozenset((-1, 0, 1))
S_POS = frozenset((1,))
S_NEG = frozenset((-1,))
S_ZERO = frozenset((0,))
S_NN = frozenset((0, 1))
S_NP = frozenset((0, -1))


class NeedSplit(Exception):
    def __init__(self, kind, x):
        self.kind = kind   # 'sign' (x: P) or 'bool' (x: term)
        self.x = x


class Domain(Exception):
    """term undefined on this case (division by an identically zero polynomial)"""


class Timeout(Exception):
    pass


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


class Ctx:
    """atom and factor registry shared by all cases of one contract"""

    def __init__(self):
        self.atoms = []       # (kind, payload)
        self.aidx = {}
        self.rel = {}         # atom index -> Rat for its square
        self.factors = []
        self.fidx = {}
        self.nonneg = set()   # atoms known >= 0 by construction
        self.deadline = None
        self._rmn = -1
        self._rm = 0

    def atom(self, kind, key, payload=None):
        k = (kind, key)
        i = self.aidx.get(k)
        if i is None:
            i = len(self.atoms)
            self.aidx[k] = i
            self.atoms.append((kind, payload if payload is not None else key))
            if i > 300:
                raise TooBig()
        return i

    def relmask(self):
        if self._rmn != len(self.rel):
            self._rmn = len(self.rel)
            m = 0
            for i in self.rel:
                m |= (pl.MASK & ~1) << (pl.B * i)
            self._rm = m
        return self._rm

    def factor(self, p):
        k = p.key()
        i = self.fidx.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.fidx[k] = i
        return i


class Case:
    def __init__(self, ctx, asg=None, basg=None, vsub=None):
        self.ctx = ctx
        self.asg = dict(asg or {})     # poly key -> frozenset of signs
        self.polys = {}                # poly key -> P
        self.basg = dict(basg or {})   # boolean term id -> 0/1
        self.vsub = dict(vsub or {})   # atom index -> Rat
        self.memo = {}
        self.sqmemo = {}
        self.abst = 0
        self.maxatom = False           # name max/min by an atom instead of expanding them
        self.deadline = None

    def child(self):
        c = Case(self.ctx, self.asg, self.basg, self.vsub)
        c.polys = dict(self.polys)
        c.memo = dict(self.memo)
        c.sqmemo = {k: v for k, v in self.sqmemo.items() if v != S_ALL}
        c.deadline = self.deadline
        c.abst = self.abst
        c.maxatom = self.maxatom
        return c

    # ------------------------------------------------------------- arithmetic on Rat
    def rconst(self, fr):
        return Rat(pconst(fr))

    def den_poly(self, d):
        r = ONE
        for f, e in d.items():
            for _ in range(e):
                r = pmul(r, self.ctx.factors[f])
        return r

    def radd(self, a, b, sgn=1):
        if not a.n.d:
            return b if sgn > 0 else Rat(pneg(b.n), b.d)
        if not b.n.d:
            return a
        if a.d == b.d:
            n = padd(a.n, b.n) if sgn > 0 else psub(a.n, b.n)
            return self.simp(Rat(n, a.d))
        d = dict(a.d)
        for f, e in b.d.items():
            if e > d.get(f, 0):
                d[f] = e
        F = self.ctx.factors
        na = a.n
        for f, e in d.items():
            for _ in range(e - a.d.get(f, 0)):
                na = pmul(na, F[f])
        nb = b.n
        for f, e in d.items():
            for _ in range(e - b.d.get(f, 0)):
                nb = pmul(nb, F[f])
        n = padd(na, nb) if sgn > 0 else psub(na, nb)
        return self.reduce(Rat(n, d))

    def rmul(self, a, b):
        if not a.n.d or not b.n.d:
            return Rat(ZERO)
        # cross-cancel
        an, bn = a.n, b.n
        ad, bd = a.d, b.d
        if ad or bd:
            F = self.ctx.factors
            if bd and not an.isconst():
                bd = dict(bd)
                for f in list(bd):
                    while bd.get(f):
                        q = pl.pdivexact(an, F[f], 3000)
                        if q is None:
                            break
                        an = q
                        bd[f] -= 1
                        if not bd[f]:
                            del bd[f]
            if ad and not bn.isconst():
                ad = dict(ad)
                for f in list(ad):
                    while ad.get(f):
                        q = pl.pdivexact(bn, F[f], 3000)
                        if q is None:
                            break
                        bn = q
                        ad[f] -= 1
                        if not ad[f]:
                            del ad[f]
            d = dict(ad)
            for f, e in bd.items():
                d[f] = d.get(f, 0) + e
        else:
            d = {}
        return self.reduce(Rat(pmul(an, bn), d))

    def simp(self, r):
        if not r.n.d:
            return Rat(ZERO)
        if r.d:
            d = None
            n = r.n
            for f, e in r.d.items():
                while e:
                    q = pl.pdivexact(n, self.ctx.factors[f], 3000)
                    if q is None:
                        break
                    n = q
                    if d is None:
                        d = dict(r.d)
                    e -= 1
                    d[f] = e
            if d is not None:
                return Rat(n, {f: e for f, e in d.items() if e})
        return r

    def reduce(self, r):
        """apply atom relations x^2 -> rel"""
        rel = self.ctx.rel
        if rel:
            guard = 0
            while True:
                rm = self.ctx.relmask()
                acc = 0
                for k in r.n.d:
                    acc |= k
                acc &= rm
                if not acc:
                    break
                hit = (acc.bit_length() - 1) // pl.B
                guard += 1
                if guard > 200:
                    raise TooBig()
                sh = pl.B * hit
                R = rel[hit]
                parts = {}
                for k, v in r.n.d.items():
                    e = (k >> sh) & pl.MASK
                    q = e >> 1
                    kk = k - ((q * 2) << sh)
                    dd = parts.setdefault(q, {})
                    dd[kk] = dd.get(kk, 0) + v
                mx = max(parts)
                D = self.den_poly(R.d)
                tot = ZERO
                powN = [ONE]
                for q in range(mx):
                    powN.append(pmul(powN[-1], R.n))
                for q, dd in parts.items():
                    t = pmul(P({k: v for k, v in dd.items() if v}, r.n.c), powN[q])
                    if R.d:
                        for _ in range(mx - q):
                            t = pmul(t, D)
                    tot = padd(tot, t)
                d = dict(r.d)
                for f, e in R.d.items():
                    d[f] = d.get(f, 0) + e * mx
                r = Rat(tot, d)
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout()
        return self.simp(r)

    def rinv(self, a):
        """1/a ; registers the numerator as a denominator factor"""
        if not a.n.d:
            raise Domain('division by zero')
        num = self.den_poly(a.d)
        n = a.n
        n.red()
        if n.isconst():
            return Rat(pscale(num, 1 / n.const()))
        d = {}
        # monomial content
        m = pl.mono_min(n.d)
        if m:
            for i, e in pl.mono_items(m):
                f = self.ctx.factor(pvar(i))
                d[f] = d.get(f, 0) + e
            n = P({k - m: v for k, v in n.d.items()}, n.c)
        if not n.isconst():
            for f, p in enumerate(self.ctx.factors):
                if len(p.d) > 1:
                    while True:
                        q = pl.pdivexact(n, p, 3000)
                        if q is None or q.iszero():
                            break
                        n = q
                        d[f] = d.get(f, 0) + 1
                        if n.isconst():
                            break
                if n.isconst():
                    break
        n.red()
        if n.isconst():
            return self.reduce(Rat(pscale(num, 1 / n.const()), d))
        # normalise: integer primitive, positive leading coefficient
        from math import gcd
        g = 0
        for v in n.d.values():
            g = gcd(g, v)
        lead = n.d[max(n.d)]
        if lead < 0:
            g = -g
        c = Fraction(g, n.c)
        q = P({k: v // g for k, v in n.d.items()})
        f = self.ctx.factor(q)
        d[f] = d.get(f, 0) + 1
        return self.reduce(Rat(pscale(num, 1 / c), d))

    # ------------------------------------------------------------- signs
    def canon(self, p):
        """primitive with positive leading coefficient; returns (P, sign)"""
        from math import gcd
        g = 0
        for v in p.d.values():
            g = gcd(g, v)
        if p.d[max(p.d)] < 0:
            g = -g
        return P({k: v // g for k, v in p.d.items()}), (1 if g > 0 else -1)

    def varsign(self, i):
        kind, pay = self.ctx.atoms[i]
        if i in self.ctx.nonneg:
            s = S_NN
        else:
            s = S_ALL
        a = self.asg.get(pvar(i).key())
        if a is not None:
            s = s & a
        if kind == 'big' and len(s) > 1:
            s = s & self.rsign(pay)[0]
        return s

    def psign(self, p, depth=0):
        """set of possible signs, using only cheap reasoning"""
        if not p.d:
            return S_ZERO
        if p.isconst():
            return S_POS if p.const() > 0 else S_NEG
        q, s = self.canon(p)
        r = self.asg.get(q.key(), S_ALL)
        if len(r) > 1:
            m = pl.mono_min(q.d)
            if m:
                q2 = P({k - m: v for k, v in q.d.items()})
                sg = self.monosign(m)
                if q2.isconst():
                    s2 = S_POS if q2.const() > 0 else S_NEG
                else:
                    s2 = self.psign(q2, depth + 1)
                r = r & frozenset(a * b for a in sg for b in s2)
            if len(r) > 1:
                pos = True
                strict = False
                allsg = None
                for k, v in q.d.items():
                    sg = self.monosign(k)
                    if v < 0:
                        sg = frozenset(-x for x in sg)
                    if allsg is None:
                        allsg = sg
                        strict = 0 not in sg
                        continue
                    allsg = allsg | sg
                    strict = strict or 0 not in sg
                    if 1 in allsg and -1 in allsg:
                        break
                if not (1 in allsg and -1 in allsg):
                    t = allsg
                    if strict:
                        t = t - S_ZERO
                    r = r & t
            if len(r) > 1 and len(q.d) <= 60:
                sq = pl.psqrt(q)
                if sq is not None:
                    ss = self.psign(sq, depth + 1) if sq.key() != q.key() else S_ALL
                    r = r & frozenset(x * x for x in ss)
        if len(r) > 1 and depth < 6 and 2 <= len(q.d) <= 400:
            t = self.square_sign(q, depth)
            r = r & t
        if len(r) > 1 and depth < 6 and len(q.d) == 2:
            q2 = self.sqdiff(q)
            if q2 is not None:
                r = r & self.psign(q2, depth + 1)
        if s < 0:
            r = frozenset(-x for x in r)
        return r

    def sqdiff(self, q):
        """q = v1 m1 - v2 m2 with both monomials non-negative and containing square roots: has the sign of (v1 m1)^2 - (v2 m2)^2"""
        (k1, v1), (k2, v2) = q.d.items()
        if (v1 > 0) == (v2 > 0):
            return None
        if not all(any(i in self.ctx.rel for i, e in pl.mono_items(k)) for k in (k1, k2)):
            return None
        if not (self.monosign(k1) <= S_NN and self.monosign(k2) <= S_NN):
            return None
        if v1 < 0:
            k1, v1, k2, v2 = k2, v2, k1, v1
        a = P({k1: v1})
        b = P({k2: v2})
        try:
            r = self.radd(self.reduce(Rat(pmul(a, a))), self.reduce(Rat(pmul(b, b))), -1)
        except TooBig:
            return None
        if not r.n.d:
            return ZERO
        p = self.rsign_poly(r)
        if not p.d or p.key() == q.key():
            return None
        m = pl.mono_min(p.d)
        # positive monomial content does not matter
        if m and self.monosign(m) == S_POS:
            p = P({k - m: v for k, v in p.d.items()}, p.c)
        if len(p.d) > 400:
            return None
        return p

    def square_sign(self, q, depth):
        """complete the square in one variable: q = c x^2 + b x + a, 4cq = (2cx+b)^2 + (4ac - b^2)"""
        key = q.key()
        m = self.sqmemo.get(key)
        if m is None:
            key = (q.key(), len(self.asg))
            m = self.sqmemo.get(key)
        if m is not None:
            return m
        self.sqmemo[key] = S_ALL
        res = S_ALL
        for i in pl.vars_of(q):
            sh = pl.B * i
            parts = {}
            ok = True
            for k, v in q.d.items():
                e = (k >> sh) & pl.MASK
                if e > 2:
                    ok = False
                    break
                parts.setdefault(e, {})[k - (e << sh)] = v
            if not ok or 2 not in parts or 0 not in parts or len(parts[2]) > 40:
                continue
            c = P(parts[2])
            sc = self.psign(c, depth + 1)
            if sc != S_POS and sc != S_NEG:
                continue
            a = P(parts[0])
            if 1 not in parts:
                continue
            b = P(parts[1])
            if len(a.d) * len(c.d) > 3000 or len(b.d) > 60:
                continue
            b2 = pl.pdivexact(b, c)
            if b2 is not None:
                # q = c (x + b2/2)^2 + (a - c b2^2/4)
                disc = psub(pscale(a, 4), pmul(c, pmul(b2, b2)))
                if not disc.d:
                    res = res & (sc | S_ZERO)
                    continue
                sd = self.psign(disc, depth + 1)
                if sc == S_NEG:
                    sd = frozenset(-x for x in sd)
            else:
                disc = psub(pscale(pmul(a, c), 4), pmul(b, b))
                sd = self.psign(disc, depth + 1)
            if -1 in sd:
                continue
            if sd == S_POS:
                res = sc
                break
            res = res & (sc | S_ZERO)
            if self.ctx_small(res):
                break
        self.sqmemo[key] = res
        if res != S_ALL:
            self.sqmemo[q.key()] = res
        return res

    def ctx_small(self, r):
        return len(r) == 1

    def monosign(self, k):
        s = S_POS
        for i, e in pl.mono_items(k):
            vs = self.varsign(i)
            if e % 2 == 0:
                vs = frozenset(x * x for x in vs)
            s = frozenset(a * b for a in s for b in vs)
        return s

    def rsign_poly(self, r):
        """polynomial with the same sign as r (all den factors of unknown sign multiplied in)"""
        n = r.n
        neg = 1
        for f, e in r.d.items():
            if e % 2:
                F = self.ctx.factors[f]
                s = self.psign(F)
                if s == S_POS or s == S_NN:
                    continue
                if s == S_NEG or s == S_NP:
                    neg = -neg
                    continue
                n = pmul(n, F)
        rr = self.reduce(Rat(n)) if n is not r.n else Rat(n)
        if rr.d:
            return self.rsign_poly(rr) if neg > 0 else pneg(self.rsign_poly(rr))
        return rr.n if neg > 0 else pneg(rr.n)

    def rsign(self, r):
        if not r.n.d:
            return S_ZERO, None
        p = self.rsign_poly(r)
        return self.psign(p), p

    def assume_sign(self, p, s):
        """record sign(p) in s"""
        if p.isconst():
            return bool(self.psign(p) & s)
        q, g = self.canon(p)
        if len(q.d) == 2:
            q2 = self.sqdiff(q)
            if q2 is not None and q2.d and not q2.isconst() and q2.key() != q.key():
                if not self.assume_sign(q2, s if g > 0 else frozenset(-x for x in s)):
                    return False
        if g < 0:
            s = frozenset(-x for x in s)
        k = q.key()
        cur = self.psign(q)
        n = cur & s
        self.asg[k] = n
        self.polys[k] = q
        # strip a monomial of known sign
        m = pl.mono_min(q.d)
        if m and len(q.d) > 1:
            sg = self.monosign(m)
            if sg == S_POS:
                q2 = P({kk - m: v for kk, v in q.d.items()})
                k2 = q2.key()
                self.asg[k2] = self.psign(q2) & n
                self.polys[k2] = q2
        elif m and len(q.d) == 1 and n == S_POS:
            it = pl.mono_items(m)
            odd = [i for i, e in it if e % 2]
            if len(odd) == 1:
                v = pvar(odd[0])
                self.asg[v.key()] = self.psign(v) & S_POS
                self.polys[v.key()] = v
        return bool(n)

    # ------------------------------------------------------------- boolean conditions
    def cond(self, c):
        """truth value of a boolean term in this case; raises NeedSplit"""
        if type(c) is not T:
            return 1 if c else 0
        op = c.op
        b = self.basg.get(c.id)
        if b is not None:
            return b
        if op == 'not':
            return 1 - self.cond(c.a[0])
        if op == 'and':
            try:
                x = self.cond(c.a[0])
            except NeedSplit:
                try:
                    if self.cond(c.a[1]) == 0:
                        return 0
                except NeedSplit:
                    pass
                raise
            if x == 0:
                return 0
            return self.cond(c.a[1])
        if op == 'or':
            try:
                x = self.cond(c.a[0])
            except NeedSplit:
                try:
                    if self.cond(c.a[1]) == 1:
                        return 1
                except NeedSplit:
                    pass
                raise
            if x == 1:
                return 1
            return self.cond(c.a[1])
        if op == 'xor':
            return self.cond(c.a[0]) ^ self.cond(c.a[1])
        if op in ('lt', 'le', 'eq'):
            r = self.radd(self.norm(c.a[0]), self.norm(c.a[1]), -1)
            s, p = self.rsign(r)
            if op == 'lt':
                if s == S_NEG:
                    return 1
                if -1 not in s:
                    return 0
            elif op == 'le':
                if 1 not in s:
                    return 1
                if s == S_POS:
                    return 0
            else:
                if s == S_ZERO:
                    return 1
                if 0 not in s:
                    return 0
            raise NeedSplit('sign', p)
        raise NeedSplit('bool', c)

    # ------------------------------------------------------------- normal form
    def norm(self, t):
        if type(t) is not T:
            if type(t) is float:
                raise Domain('non-finite constant')
            return Rat(pconst(t))
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            op = x.op
            if op == 'ite':
                c = self.cond(x.a[0])
                ch = x.a[1] if c else x.a[2]
                if type(ch) is T and ch.id not in memo:
                    stack.append(ch)
                    continue
                memo[x.id] = self.norm(ch)
                stack.pop()
                continue
            args = x.a[1:] if op == 'fn' else x.a
            if op in ('var', 'ivar', 'i2r'):
                args = ()
            todo = [y for y in args if type(y) is T and y.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            r = self.norm1(x, op, [self.norm(y) for y in args])
            if self.abst and len(r.n.d) > self.abst:
                r = self.abstract(r)
            memo[x.id] = r
            stack.pop()
        return memo[t.id]

    def abstract(self, r):
        """name a large sub-expression by an atom keyed by its normal form (generalisation of shared sub-terms)"""
        q, g = self.canon(r.n)
        c = Fraction(r.n.d[max(r.n.d)], r.n.c) / Fraction(q.d[max(q.d)])
        i = self.ctx.atom('big', (q.key(), tuple(sorted(r.d.items()))), Rat(q, r.d))
        return Rat(pscale(pvar(i), c))

    def norm1(self, x, op, a):
        if op == 'add':
            return self.radd(a[0], a[1])
        if op == 'sub':
            return self.radd(a[0], a[1], -1)
        if op == 'mul':
            return self.rmul(a[0], a[1])
        if op == 'neg':
            return Rat(pneg(a[0].n), a[0].d)
        if op == 'div':
            return self.rmul(a[0], self.rinv(a[1]))
        if op == 'var':
            i = self.ctx.atom('var', x.a[0], x)
            if i in self.vsub:
                return self.vsub[i]
            return Rat(pvar(i))
        if op == 'i2r':
            i = self.ctx.atom('term', x.id, x)
            if i in self.vsub:
                return self.vsub[i]
            return Rat(pvar(i))
        if op == 'sqrt':
            return self.nsqrt(a[0])
        if op == 'abs':
            return self.nabs(a[0])
        if op in ('max', 'min'):
            df = self.radd(a[0], a[1], -1)
            sg, _ = self.rsign(df)
            if sg <= S_NN:
                return a[0] if op == 'max' else a[1]
            if sg <= S_NP:
                return a[1] if op == 'max' else a[0]
            if self.maxatom:
                ks = tuple(sorted((q.n.key(), tuple(sorted(q.d.items()))) for q in a))
                i = self.ctx.atom(op + 'atom', ks, (a[0], a[1]))
                sa, sb = self.rsign(a[0])[0], self.rsign(a[1])[0]
                if (op == 'max' and (sa <= S_NN or sb <= S_NN)) or (sa <= S_NN and sb <= S_NN):
                    self.ctx.nonneg.add(i)
                return Rat(pvar(i))
            ab = self.nabs(df)
            sm = self.radd(self.radd(a[0], a[1]), ab, 1 if op == 'max' else -1)
            return Rat(pscale(sm.n, Fraction(1, 2)), sm.d)
        if op == 'fn':
            return self.nfn(x.a[0], a, x)
        raise TooBig('op ' + op)

    def nabs(self, r):
        s, p = self.rsign(r)
        if s <= S_NN:
            return r
        if s <= S_NP:
            return Rat(pneg(r.n), r.d)
        # |n/d| = |n| * 1/|d|; canonical up to sign
        q, g = self.canon(r.n)
        key = (q.key(), tuple(sorted(r.d.items())))
        R = Rat(q, r.d)
        i = self.ctx.atom('abs', key, (R, p))
        if i not in self.ctx.rel:
            self.ctx.rel[i] = self.rmul(R, R)
            self.ctx.nonneg.add(i)
        c = abs(Fraction(r.n.d[max(r.n.d)], r.n.c) / Fraction(q.d[max(q.d)]))
        return Rat(pscale(pvar(i), c))

    def nsqrt(self, r):
        if not r.n.d:
            return r
        # sqrt(n/d): even powers of known-positive factors come out
        out = Rat(ONE)
        n = r.n
        odd = {}
        for f, e in r.d.items():
            F = self.ctx.factors[f]
            s = self.psign(F)
            if s <= S_NN:
                ee = (e + 1) // 2
                if e % 2:
                    n = pmul(n, F)
                out = self.rmul(out, Rat(ONE, {f: ee}))
            elif s <= S_NP:
                ee = (e + 1) // 2
                if e % 2:
                    n = pmul(n, F)
                out = self.rmul(out, Rat(pconst(-1) if ee % 2 else ONE, {f: ee}))
            else:
                odd[f] = e
        rr = self.reduce(Rat(n))
        if rr.d:
            odd2 = dict(odd)
            for f, e in rr.d.items():
                odd2[f] = odd2.get(f, 0) + e
            odd = odd2
        n = rr.n
        if not odd:
            # monomial content: even powers of positive variables
            m = pl.mono_min(n.d)
            take = 0
            for i, e in pl.mono_items(m):
                if self.varsign(i) <= S_NN and e >= 2:
                    take += (e // 2) << (pl.B * i)
            if take:
                n = P({k - 2 * take: v for k, v in n.d.items()}, n.c)
                out = self.rmul(out, Rat(P({take: 1})))
            if n.isconst():
                c = pl._fsqrt(n.const())
                if c is not None:
                    return self.rmul(out, Rat(pconst(c)))
            sq = pl.psqrt(n) if len(n.d) <= 2000 else None
            if sq is not None:
                return self.rmul(out, self.nabs(Rat(sq)))
            # square content
            cn = Fraction(1)
            i = self.ctx.atom('sqrt', n.key(), Rat(n))
            if i not in self.ctx.rel:
                self.ctx.rel[i] = Rat(n)
                self.ctx.nonneg.add(i)
            return self.rmul(out, Rat(pvar(i)))
        R = Rat(n, odd)
        i = self.ctx.atom('sqrt', (n.key(), tuple(sorted(odd.items()))), R)
        if i not in self.ctx.rel:
            self.ctx.rel[i] = R
            self.ctx.nonneg.add(i)
        return self.rmul(out, Rat(pvar(i)))

    def nfn(self, name, a, x):
        key = (name,) + tuple((r.n.key(), tuple(sorted(r.d.items()))) for r in a)
        if name in ('sin', 'cos'):
            r = a[0]
            if not r.n.d:
                return Rat(ZERO) if name == 'sin' else Rat(ONE)
            q, g = self.canon(r.n)
            lead = Fraction(r.n.d[max(r.n.d)], r.n.c)
            neg = lead < 0
            arg = Rat(pneg(r.n) if neg else r.n, r.d)
            k2 = (arg.n.key(), tuple(sorted(arg.d.items())))
            s = self.ctx.atom('sin', k2, arg)
            c = self.ctx.atom('cos', k2, arg)
            if c not in self.ctx.rel:
                self.ctx.rel[c] = Rat(psub(ONE, pmul(pvar(s), pvar(s))))
            if name == 'cos':
                return Rat(pvar(c))
            return Rat(pneg(pvar(s)) if neg else pvar(s))
        if name == 'pow' and not a[0].d and a[0].n.d == ONE.d and a[0].n.c == 1:
            return Rat(ONE)
        if name == 'pow' and not a[1].n.d:
            return Rat(ONE)
        if name == 'exp' and not a[0].n.d:
            return Rat(ONE)
        if name in ('tanh', 'sinh', 'atan', 'asin', 'tan') and not a[0].n.d:
            return Rat(ZERO)
        i = self.ctx.atom('fn', key, (name, a))
        if name in ('exp', 'cosh'):
            self.ctx.nonneg.add(i)
        if name == 'pow' and i not in self.ctx.nonneg:
            self.ctx.nonneg.add(i)   # pow(x,y) >= 0 wherever it is used (x >= 0)
        return Rat(pvar(i))

    def substitute_zero(self, p):
        """the case sign(p)=0: solve for a variable occurring linearly with a constant coefficient; returns child"""
        c = self.child()
        best = None
        for i in pl.vars_of(p):
            kind, pay = self.ctx.atoms[i]
            if kind not in ('var',) or i in self.ctx.rel:
                continue
            sh = pl.B * i
            lin = {}
            rest = {}
            for k, v in p.d.items():
                e = (k >> sh) & pl.MASK
                if e == 0:
                    rest[k] = v
                elif e == 1:
                    lin[k - (1 << sh)] = v
                else:
                    lin = None
                    break
            if not lin or len(lin) > 12:
                continue
            lp = P(lin)
            if not lp.isconst() and 0 in self.psign(lp):
                continue
            bad = False
            for j in pl.vars_of(p):
                if j != i and self.atom_has(j, i):
                    bad = True
                    break
            if bad:
                continue
            sc = (len(lin), len(p.d))
            if best is None or sc < best[0]:
                best = (sc, i, lp, P(rest))
        if best is None:
            return None
        _, i, lp, rest = best
        val = Rat(pneg(rest))
        if not rest.d:
            val = Rat(ZERO)
        elif lp.isconst():
            val = Rat(pscale(rest, -1 / lp.const()))
        else:
            val = self.rmul(Rat(pneg(rest)), self.rinv(Rat(lp)))
        c.vsub = {k: c.rsubst(v, i, val) for k, v in c.vsub.items()}
        c.vsub[i] = val
        c.memo = {}
        # re-express the facts of the case
        for k, s in list(c.asg.items()):
            q = c.polys.get(k)
            if q is None or len(q.d) > 200 or i not in pl.vars_of(q):
                continue
            if any(j != i and c.atom_has(j, i) for j in pl.vars_of(q)):
                continue
            r = c.rsubst(Rat(q), i, val)
            pp = c.rsign_poly(r)
            if not pp.d:
                if 0 not in s:
                    c.asg[k] = frozenset()
                continue
            if pp.isconst():
                if not (c.psign(pp) & s):
                    c.asg[k] = frozenset()
                continue
            c.assume_sign(pp, s)
        return c

    def atom_has(self, j, i):
        kind, pay = self.ctx.atoms[j]
        if kind in ('var', 'term'):
            return False
        rs = []

        def walk(o):
            if isinstance(o, Rat):
                rs.append(o.n)
                for f in o.d:
                    rs.append(self.ctx.factors[f])
            elif isinstance(o, P):
                rs.append(o)
            elif isinstance(o, (tuple, list)):
                for q in o:
                    walk(q)
        walk(pay)
        for p in rs:
            for v in pl.vars_of(p):
                if v == i or (v != j and self.atom_has(v, i)):
                    return True
        return False

    def rsubst(self, r, i, val):
        """substitute atom i := val (Rat) in r (Rat)"""
        sh = pl.B * i
        parts = {}
        for k, v in r.n.d.items():
            e = (k >> sh) & pl.MASK
            parts.setdefault(e, {})[k - (e << sh)] = v
        tot = Rat(ZERO)
        for e, dd in parts.items():
            t = Rat(P(dd, r.n.c))
            for _ in range(e):
                t = self.rmul(t, val)
            tot = self.radd(tot, t)
        for f, e in r.d.items():
            F = self.rsubst(Rat(self.ctx.factors[f]), i, val) if (i in pl.vars_of(self.ctx.factors[f])) else None
            for _ in range(e):
                if F is None:
                    tot = self.rmul(tot, Rat(ONE, {f: 1}))
                else:
                    tot = self.rmul(tot, self.rinv(F))
        return tot
