"""Numeric evaluation of terms on a fixed set of sample points (used to find witnesses and refutations only)."""
import math
import random
import zlib
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T

LD = np.longdouble


class Samples:
    def __init__(self, n, seed):
        self.n = n
        self.seed = seed
        self.vals = {}        # var name -> array
        self.decl = {}        # var name -> declaration
        self.cache = {}
        self.rng = {}

    def _r(self, name):
        return random.Random(zlib.crc32(name.encode()) * 1000003 + self.seed)

    def declare_real(self, name, lo, hi):
        if name in self.vals:
            return
        r = self._r(name)
        v = []
        nice = [lo, hi]
        for i in range(self.n):
            k = r.random()
            if k < 0.04:
                v.append(lo)
            elif k < 0.08:
                v.append(hi)
            elif k < 0.16:
                v.append(lo + (hi - lo) * r.randint(0, 4) / 4.0)
            elif lo > 0 and hi / lo > 20 and k < 0.6:
                v.append(math.exp(r.uniform(math.log(lo), math.log(hi))))
            else:
                v.append(r.uniform(lo, hi))
        self.vals[name] = np.array(v, dtype=np.float64).astype(LD)
        self.decl[name] = ('real', lo, hi)

    def declare_int(self, name, lo, hi, w):
        if name in self.vals:
            return
        r = self._r(name)
        m = (1 << w) - 1
        v = []
        for i in range(self.n):
            k = r.random()
            if k < 0.1:
                x = lo
            elif k < 0.2:
                x = hi
            elif k < 0.5:
                x = max(lo, min(hi, lo + r.randint(0, 8)))
            elif k < 0.6:
                x = max(lo, min(hi, r.randint(-8, 8)))
            elif k < 0.8:
                x = int(math.copysign(2 ** r.uniform(0, 62), r.random() - .5))
                x = max(lo, min(hi, x))
            else:
                x = r.randint(lo, hi)
            v.append(x & m)
        self.vals[name] = v
        self.decl[name] = ('int', lo, hi, w)

    def declare_unit(self, names):
        if names[0] in self.vals:
            return
        r = self._r(names[0])
        rows = []
        for i in range(self.n):
            while True:
                u = [r.uniform(-1, 1) for _ in names]
                if r.random() < 0.25:
                    for k in range(len(u)):
                        if r.random() < 0.4:
                            u[k] = 0.0
                s = math.sqrt(sum(x * x for x in u))
                if s > 0.1:
                    break
            u = [LD(x) for x in u]
            s = np.sqrt(sum(x * x for x in u))
            rows.append([x / s for x in u])
        for k, nm in enumerate(names):
            self.vals[nm] = np.array([row[k] for row in rows], dtype=LD)
            self.decl[nm] = ('unit', names)

    def inject(self, j, model):
        for nm, v in model.items():
            if nm in self.vals and v is not None and not isinstance(v, tuple):
                if isinstance(self.vals[nm], list):
                    self.vals[nm] = list(self.vals[nm])
                    self.vals[nm][j] = int(v)
                else:
                    a = self.vals[nm].copy()
                    a[j] = LD(v.numerator) / LD(v.denominator) if abs(v.numerator) < 1 << 1000 and v.denominator < 1 << 1000 else LD(float(v))
                    self.vals[nm] = a
        self.cache.clear()

    def ev(self, t):
        if type(t) is not T:
            if type(t) is Fraction:
                return _ld(t)
            return t
        c = self.cache
        r = c.get(t.id)
        if r is not None:
            return r
        stack = [t]
        with np.errstate(all='ignore'):
            while stack:
                x = stack[-1]
                if x.id in c:
                    stack.pop()
                    continue
                todo = [y for y in x.a if type(y) is T and y.id not in c]
                if todo:
                    stack.extend(todo)
                    continue
                c[x.id] = self.one(x)
                stack.pop()
        return c[t.id]

    def g(self, y):
        if type(y) is T:
            return self.cache[y.id]
        if type(y) is Fraction:
            return _ld(y)
        return y

    def gi(self, y):
        if type(y) is T:
            r = self.cache[y.id]
            if y.s == 'b':
                return [int(b) for b in r]
            return r
        return [y] * self.n

    def gb(self, y):
        if type(y) is T:
            return self.cache[y.id]
        return np.full(self.n, bool(y))

    def one(self, x):
        op, a = x.op, x.a
        g = self.g
        if op == 'var' or op == 'ivar':
            return self.vals[a[0]]
        if op == 'add':
            return g(a[0]) + g(a[1])
        if op == 'sub':
            return g(a[0]) - g(a[1])
        if op == 'mul':
            return g(a[0]) * g(a[1])
        if op == 'div':
            return g(a[0]) / g(a[1])
        if op == 'neg':
            return -g(a[0])
        if op == 'sqrt':
            return np.sqrt(g(a[0]))
        if op == 'abs':
            return np.abs(g(a[0]))
        if op == 'max':
            return np.maximum(g(a[0]), g(a[1]))
        if op == 'min':
            return np.minimum(g(a[0]), g(a[1]))
        if op == 'fn':
            nm = a[0]
            v = [np.broadcast_to(np.asarray(g(y), dtype=LD), (self.n,)) for y in a[1:]]
            if nm == 'pow':
                return np.power(v[0], v[1])
            if nm == 'atan2':
                return np.arctan2(v[0], v[1])
            if nm == 'hypot':
                return np.hypot(v[0], v[1])
            f = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'round': 'rint'}.get(nm, nm)
            if hasattr(np, f):
                return getattr(np, f)(v[0])
            return np.array([getattr(math, nm)(float(z)) for z in v[0]], dtype=LD)
        if op == 'ite':
            return np.where(self.gb(a[0]), g(a[1]), g(a[2]))
        if op == 'lt':
            return np.broadcast_to(g(a[0]) < g(a[1]), (self.n,))
        if op == 'le':
            return np.broadcast_to(g(a[0]) <= g(a[1]), (self.n,))
        if op == 'eq':
            return np.broadcast_to(g(a[0]) == g(a[1]), (self.n,))
        if op == 'not':
            return ~self.gb(a[0])
        if op == 'and':
            return self.gb(a[0]) & self.gb(a[1])
        if op == 'or':
            return self.gb(a[0]) | self.gb(a[1])
        if op == 'xor':
            return self.gb(a[0]) ^ self.gb(a[1])
        if op == 'i2r':
            v = self.gi(a[0])
            w = a[2]
            if a[1]:
                v = [z - (1 << w) if z >> (w - 1) else z for z in v]
            return np.array([LD(z) for z in v], dtype=LD)
        if op in ('i_sel', 'r_sel'):
            idx = self.gi(a[1])
            if op == 'r_sel':
                return np.array([LD(self._r('%s[%d]' % (a[0], z)).uniform(-1, 1)) for z in idx], dtype=LD)
            return [self._r('%s[%d]' % (a[0], z)).randint(0, 20) for z in idx]
        if op.startswith('i_'):
            return self.iop(op[2:], x)
        raise KeyError(op)

    def iop(self, k, x):
        a = x.a
        if k in ('eq', 'slt', 'sle', 'ult', 'ule'):
            w = a[2]
            p, q = self.gi(a[0]), self.gi(a[1])
            if k[0] == 's':
                sb = 1 << (w - 1)
                p = [z ^ sb for z in p]
                q = [z ^ sb for z in q]
            kk = k[1:] if k != 'eq' else k
            if kk == 'eq':
                r = [u == v for u, v in zip(p, q)]
            elif kk == 'lt':
                r = [u < v for u, v in zip(p, q)]
            else:
                r = [u <= v for u, v in zip(p, q)]
            return np.array(r, dtype=bool)
        if k == 'ovf':
            w = a[3]
            p, q = self.gi(a[0]), self.gi(a[1])
            sg = a[2][0] == 's'
            o = a[2][1:]
            out = []
            for u, v in zip(p, q):
                if sg:
                    u = tm._s(u, w)
                    v = tm._s(v, w)
                r = u + v if o == 'add' else u - v if o == 'sub' else u * v
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                out.append(not (lo <= r <= hi))
            return np.array(out, dtype=bool)
        w = x.s
        if k == 'ofbool':
            return [int(b) for b in self.gb(a[0])]
        if k == 'ite':
            c = self.gb(a[0])
            p, q = self.gi(a[1]), self.gi(a[2])
            return [u if z else v for z, u, v in zip(c, p, q)]
        if k in ('trunc', 'zext', 'sext'):
            p = self.gi(a[0])
            fw = a[0].s
            if fw == 'b':
                fw = 1
            return [tm.icast(k, fw, w, u) for u in p]
        p, q = self.gi(a[0]), self.gi(a[1])
        out = []
        for u, v in zip(p, q):
            try:
                out.append(tm.iop(k, w, u, v))
            except ZeroDivisionError:
                out.append(0)
        return out


_ldc = {}


def _ld(f):
    r = _ldc.get(f)
    if r is None:
        n, d = f.numerator, f.denominator
        sh = max(n.bit_length(), d.bit_length()) - 2000
        if sh > 0:
            n >>= sh
            d = max(d >> sh, 1)
        r = LD(n) / LD(d)
        if len(_ldc) > 200000:
            _ldc.clear()
        _ldc[f] = r
    return r
