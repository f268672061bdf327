"""Translation of terms to z3 (reals, booleans, bit-vectors)."""
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, Unsupported

STATS = {'z3_calls': 0, 'z3_time': 0.0}


class Enc:
    def __init__(self):
        self.memo = {}
        self.side = []      # side constraints (sqrt, abs definitions)
        self.vars = {}
        self.opaque = 0
        self.quant = []

    def real(self, t):
        if type(t) is T:
            return self.go(t)
        if type(t) is float:
            raise Unsupported('non-finite constant')
        return z3.RealVal(str(t)) if t.denominator == 1 else z3.Q(t.numerator, t.denominator)

    def bool(self, t):
        if type(t) is T:
            return self.go(t)
        return z3.BoolVal(bool(t))

    def int(self, t, w):
        if type(t) is T:
            r = self.go(t)
            if t.s == 'b':
                r = z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return r
        return z3.BitVecVal(t, w)

    def go(self, t):
        memo = self.memo
        if t.id in memo:
            return memo[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [y for y in x.a if type(y) is T and y.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self.one(x)
            stack.pop()
        return memo[t.id]

    def one(self, x):
        op, a, s = x.op, x.a, x.s
        if op == 'var':
            v = z3.Real(a[0])
            self.vars[a[0]] = v
            return v
        if op == 'ivar':
            v = z3.BitVec(a[0], s)
            self.vars[a[0]] = v
            return v
        if op == 'bvar':
            v = z3.Bool(a[0])
            self.vars[a[0]] = v
            return v
        R = self.real
        if op == 'add':
            return R(a[0]) + R(a[1])
        if op == 'sub':
            return R(a[0]) - R(a[1])
        if op == 'mul':
            return R(a[0]) * R(a[1])
        if op == 'div':
            d = R(a[1])
            return R(a[0]) / d
        if op == 'neg':
            return -R(a[0])
        if op == 'sqrt':
            v = z3.Real('_sqrt%d' % x.id)
            e = R(a[0])
            self.side.append(z3.And(v >= 0, v * v == e))
            return v
        if op == 'abs':
            e = R(a[0])
            return z3.If(e >= 0, e, -e)
        if op in ('max', 'min'):
            e, f = R(a[0]), R(a[1])
            return z3.If(e >= f, e, f) if op == 'max' else z3.If(e <= f, e, f)
        if op == 'fn':
            self.opaque += 1
            f = z3.Function('_fn_' + a[0], *([z3.RealSort()] * (len(a))))
            e = f(*[R(y) for y in a[1:]])
            if a[0] == 'exp':
                self.side.append(e > 0)
            if a[0] == 'floor':
                y = R(a[1])
                self.side.append(z3.And(e <= y, y < e + 1))
            if a[0] == 'ceil':
                y = R(a[1])
                self.side.append(z3.And(e >= y, y > e - 1))
            if a[0] == 'pow':
                self.side.append(z3.Implies(R(a[1]) > 0, e > 0))
            if a[0] in ('sin', 'cos'):
                self.side.append(z3.And(e <= 1, e >= -1))
            return e
        if op == 'ite':
            return z3.If(self.bool(a[0]), R(a[1]), R(a[2]))
        if op == 'lt':
            return R(a[0]) < R(a[1])
        if op == 'le':
            return R(a[0]) <= R(a[1])
        if op == 'eq':
            return R(a[0]) == R(a[1])
        if op == 'not':
            return z3.Not(self.bool(a[0]))
        if op == 'and':
            return z3.And(self.bool(a[0]), self.bool(a[1]))
        if op == 'or':
            return z3.Or(self.bool(a[0]), self.bool(a[1]))
        if op == 'xor':
            return z3.Xor(self.bool(a[0]), self.bool(a[1]))
        if op == 'i2r':
            e = self.int(a[0], a[2])
            return z3.ToReal(z3.BV2Int(e, is_signed=bool(a[1])))
        if op == 'i_sel':
            w = s
            arr = z3.Array(a[0], z3.BitVecSort(64), z3.BitVecSort(w))
            self.vars[a[0]] = arr
            return z3.Select(arr, self.int(a[1], 64))
        if op == 'r_sel':
            arr = z3.Array(a[0], z3.BitVecSort(64), z3.RealSort())
            self.vars[a[0]] = arr
            return z3.Select(arr, self.int(a[1], 64))
        if op.startswith('i_'):
            k = op[2:]
            if k in ('eq', 'slt', 'sle', 'ult', 'ule'):
                w = a[2]
                p, q = self.int(a[0], w), self.int(a[1], w)
                if k == 'eq':
                    return p == q
                if k == 'slt':
                    return p < q
                if k == 'sle':
                    return p <= q
                if k == 'ult':
                    return z3.ULT(p, q)
                return z3.ULE(p, q)
            if k == 'ovf':
                w = a[3]
                p, q = self.int(a[0], w), self.int(a[1], w)
                sg = a[2][0] == 's'
                ext = z3.SignExt if sg else z3.ZeroExt
                o = a[2][1:]
                n = w if o == 'mul' else 1
                P, Q = ext(n, p), ext(n, q)
                full = P + Q if o == 'add' else P - Q if o == 'sub' else P * Q
                part = p + q if o == 'add' else p - q if o == 'sub' else p * q
                return full != ext(n, part)
            if k == 'ofbool':
                return z3.If(self.bool(a[0]), z3.BitVecVal(1, s), z3.BitVecVal(0, s))
            if k == 'ite':
                return z3.If(self.bool(a[0]), self.int(a[1], s), self.int(a[2], s))
            if k in ('trunc', 'zext', 'sext'):
                src = a[0]
                e = self.go(src)
                fw = src.s
                if fw == 'b':
                    e = self.int(src, 1)
                    fw = 1
                if k == 'trunc':
                    return z3.Extract(s - 1, 0, e)
                return z3.ZeroExt(s - fw, e) if k == 'zext' else z3.SignExt(s - fw, e)
            p, q = self.int(a[0], s), self.int(a[1], s)
            return {'add': lambda: p + q, 'sub': lambda: p - q, 'mul': lambda: p * q, 'and': lambda: p & q,
                    'or': lambda: p | q, 'xor': lambda: p ^ q, 'shl': lambda: p << q, 'lshr': lambda: z3.LShR(p, q),
                    'ashr': lambda: p >> q, 'udiv': lambda: z3.UDiv(p, q), 'urem': lambda: z3.URem(p, q),
                    'sdiv': lambda: p / q, 'srem': lambda: z3.SRem(p, q)}[k]()
        raise Unsupported('smt ' + op)


class LinEnc(Enc):
    """Integers as mathematical integers (signed reading) with interval bookkeeping: an operation is only encoded when its exact
    result provably stays inside the machine width, so the encoding agrees with the bit-vectors; otherwise Unsupported."""

    def __init__(self, ranges):
        super().__init__()
        self.ranges = ranges
        self.iv = {}

    @staticmethod
    def sgn(v, w):
        v &= (1 << w) - 1
        return v - (1 << w) if v >> (w - 1) else v

    def num(self, t, w):
        """(z3 Int, lo, hi)"""
        if type(t) is not T:
            v = self.sgn(int(t), w) if w > 1 else int(t) & 1
            return z3.IntVal(v), v, v
        e = self.go(t)
        if t.s == 'b':
            return z3.If(e, z3.IntVal(1), z3.IntVal(0)), 0, 1
        lo, hi = self.iv[t.id]
        return e, lo, hi

    def mk(self, x, e, lo, hi, w):
        if w == 1 or lo < -(1 << (w - 1)) or hi > (1 << (w - 1)) - 1:
            raise Unsupported('range')
        self.iv[x.id] = (lo, hi)
        return e

    def one(self, x):
        op, a, s = x.op, x.a, x.s
        if op == 'ivar':
            r = self.ranges.get(a[0])
            if r is None or s == 1:
                raise Unsupported('unbounded')
            v = z3.Int(a[0])
            self.vars[a[0]] = v
            self.side.append(z3.And(v >= r[0], v <= r[1]))
            return self.mk(x, v, r[0], r[1], s)
        if op == 'i2r':
            e, lo, hi = self.num(a[0], a[2])
            if not a[1] and lo < 0:
                raise Unsupported('unsigned')
            return z3.ToReal(e)
        if op in ('i_sel', 'r_sel'):
            raise Unsupported('array')
        if not op.startswith('i_'):
            return super().one(x)
        k = op[2:]
        if k in ('eq', 'slt', 'sle', 'ult', 'ule'):
            w = a[2]
            (p, pl, ph), (q, ql, qh) = self.num(a[0], w), self.num(a[1], w)
            if k == 'eq':
                return p == q
            if k == 'slt':
                return p < q
            if k == 'sle':
                return p <= q
            if pl < 0:
                p = z3.If(p < 0, p + (1 << w), p)
            if ql < 0:
                q = z3.If(q < 0, q + (1 << w), q)
            return p < q if k == 'ult' else p <= q
        if k == 'ovf':
            w = a[3]
            o = a[2][1:]
            (p, pl, ph), (q, ql, qh) = self.num(a[0], w), self.num(a[1], w)
            if a[2][0] != 's' and (pl < 0 or ql < 0):
                raise Unsupported('unsigned')
            if o == 'mul' and pl != ph and ql != qh:
                raise Unsupported('nonlinear')
            f = p + q if o == 'add' else p - q if o == 'sub' else p * q
            if a[2][0] == 's':
                return z3.Or(f < -(1 << (w - 1)), f > (1 << (w - 1)) - 1)
            return z3.Or(f < 0, f > (1 << w) - 1)
        if k == 'ofbool':
            return self.mk(x, z3.If(self.bool(a[0]), z3.IntVal(1), z3.IntVal(0)), 0, 1, s)
        if k == 'ite':
            (p, pl, ph), (q, ql, qh) = self.num(a[1], s), self.num(a[2], s)
            return self.mk(x, z3.If(self.bool(a[0]), p, q), min(pl, ql), max(ph, qh), s)
        if k in ('trunc', 'zext', 'sext'):
            fw = 1 if a[0].s == 'b' else a[0].s
            p, pl, ph = self.num(a[0], fw)
            if fw == 1:
                return self.mk(x, p if k != 'sext' else -p, 0 if k != 'sext' else -1, 1 if k != 'sext' else 0, s)
            if k == 'zext' and pl < 0:
                return self.mk(x, z3.If(p < 0, p + (1 << fw), p), 0, (1 << fw) - 1, s)
            return self.mk(x, p, pl, ph, s)
        (p, pl, ph), (q, ql, qh) = self.num(a[0], s), self.num(a[1], s)
        if k == 'add':
            return self.mk(x, p + q, pl + ql, ph + qh, s)
        if k == 'sub':
            return self.mk(x, p - q, pl - qh, ph - ql, s)
        if k == 'mul' and (pl == ph or ql == qh):
            c = [pl * ql, pl * qh, ph * ql, ph * qh]
            return self.mk(x, p * q, min(c), max(c), s)
        if ql == qh and ql >= 0:
            if k == 'shl' and ql < s - 1:
                return self.mk(x, p * (1 << ql), pl << ql, ph << ql, s)
            if k == 'ashr' or (k == 'lshr' and pl >= 0):
                return self.mk(x, p / (1 << ql), pl >> ql, ph >> ql, s)
            if k in ('udiv', 'sdiv') and pl >= 0 and ql > 0:
                return self.mk(x, p / ql, pl // ql, ph // ql, s)
            if k in ('urem', 'srem') and pl >= 0 and ql > 0:
                return self.mk(x, p % ql, 0, ql - 1, s)
            if k == 'and' and ql & (ql + 1) == 0:
                return self.mk(x, p % (ql + 1), 0, ql, s)
        raise Unsupported('linear ' + op)


def int_ranges(conds):
    """intervals of integer inputs stated at top level of the conditions"""
    lo, hi = {}, {}
    for c in conds:
        if type(c) is not T or c.op != 'i_sle':
            continue
        p, q, w = c.a
        if type(p) is not T and type(q) is T and q.op == 'ivar':
            lo[q.a[0]] = max(lo.get(q.a[0], LinEnc.sgn(p, w)), LinEnc.sgn(p, w))
        if type(q) is not T and type(p) is T and p.op == 'ivar':
            hi[p.a[0]] = min(hi.get(p.a[0], LinEnc.sgn(q, w)), LinEnc.sgn(q, w))
    return {n: (lo[n], hi[n]) for n in lo if n in hi}


def check_lin(conds, timeout_ms):
    r = int_ranges(conds)
    if not r:
        return 'unknown', None
    t0 = time.time()
    try:
        e = LinEnc(r)
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        for c in conds:
            if type(c) is T:
                s.add(e.bool(c))
        for f in e.side:
            s.add(f)
        STATS['z3_calls'] += 1
        k = s.check()
        if k == z3.unsat:
            return 'unsat', None
        if k == z3.sat and not e.opaque:
            m = s.model()
            d = {}
            for n, v in e.vars.items():
                val = m.eval(v, model_completion=True)
                if z3.is_int_value(val):
                    d[n] = val.as_long() & ((1 << 64) - 1)
                elif z3.is_rational_value(val):
                    d[n] = Fraction(val.numerator_as_long(), val.denominator_as_long())
                elif z3.is_algebraic_value(val):
                    ap = val.approx(40)
                    d[n] = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
                else:
                    d[n] = None
            return 'sat', d
        return 'unknown', None
    except (z3.Z3Exception, Unsupported):
        return 'unknown', None
    finally:
        STATS['z3_time'] += time.time() - t0


def check(conds, timeout_ms, want_model=False, quants=()):
    """conds: list of boolean terms / 0 / 1.  Returns ('sat'|'unsat'|'unknown', model dict)"""
    for c in conds:
        if type(c) is not T and not c:
            return 'unsat', None
    if not quants:
        r, m = check_lin(conds, timeout_ms)
        if r != 'unknown':
            return r, m
    t0 = time.time()
    STATS['z3_calls'] += 1
    try:
        e = Enc()
        fs = []
        for c in conds:
            if type(c) is T:
                fs.append(e.bool(c))
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        for f in fs:
            s.add(f)
        for f in e.side:
            s.add(f)
        for q in quants:
            s.add(q(e))
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            if e.opaque:
                return 'unknown', None
            m = s.model()
            d = {}
            for n, v in e.vars.items():
                if z3.is_array(v):
                    d[n] = (m, v)
                    continue
                val = m.eval(v, model_completion=True)
                if z3.is_bv_value(val):
                    d[n] = val.as_long()
                elif z3.is_rational_value(val):
                    d[n] = Fraction(val.numerator_as_long(), val.denominator_as_long())
                elif z3.is_algebraic_value(val):
                    ap = val.approx(40)
                    d[n] = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
                else:
                    d[n] = None
            return 'sat', d
        return 'unknown', None
    except (z3.Z3Exception, Unsupported):
        return 'unknown', None
    finally:
        STATS['z3_time'] += time.time() - t0


def check_smt2_cvc5(conds, timeout_ms):
    """second back end"""
    import subprocess, tempfile, os
    e = Enc()
    s = z3.Solver()
    for c in conds:
        if type(c) is T:
            s.add(e.bool(c))
        elif not c:
            return 'unsat'
    for f in e.side:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t0 = time.time()
    STATS['cvc5_calls'] = STATS.get('cvc5_calls', 0) + 1
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        STATS['cvc5_time'] = STATS.get('cvc5_time', 0) + time.time() - t0
        os.unlink(f.name)


def poly_unsat(facts, ctx, ms):
    """sign facts about polynomials; atoms are free variables (>= 0 where known)"""
    from . import poly as pl
    v = {}
    cs = []

    def at(i):
        if i not in v:
            v[i] = z3.Real('a%d' % i)
            if i in ctx.nonneg:
                cs.append(v[i] >= 0)
        return v[i]
    for p, s in facts:
        e = None
        for k, c in p.d.items():
            m = z3.RealVal(c)
            for i, n in pl.mono_items(k):
                for _ in range(n):
                    m = m * at(i)
            e = m if e is None else e + m
        s = frozenset(s)
        if s == {1}:
            cs.append(e > 0)
        elif s == {-1}:
            cs.append(e < 0)
        elif s == {0}:
            cs.append(e == 0)
        elif s == {0, 1}:
            cs.append(e >= 0)
        elif s == {0, -1}:
            cs.append(e <= 0)
        elif 0 not in s:
            cs.append(e != 0)
    S = z3.Solver()
    S.set('timeout', ms)
    S.add(*cs)
    t = time.time()
    r = str(S.check())
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t
    return r
