"""Hash-consed terms.  Sorts: 'r' (mathematical real), 'b' (bool), positive int w (machine integer, w bits)."""
from fractions import Fraction

F0 = Fraction(0)
F1 = Fraction(1)


class T:
    __slots__ = ('op', 'a', 'id', 's')

    def __repr__(self):
        return show(self, 4)


TAB = {}
LIST = []


def reset():
    TAB.clear()
    LIST.clear()


def mk(op, a, s):
    key = (op, s) + tuple((x.id if type(x) is T else ('c', x)) for x in a)
    t = TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.s = s
        t.id = len(LIST)
        LIST.append(t)
        TAB[key] = t
    return t


def show(t, d):
    if type(t) is not T:
        return str(t)
    if t.op in ('var', 'ivar'):
        return t.a[0]
    if d == 0:
        return '#%d' % t.id
    return t.op + '(' + ','.join(show(x, d - 1) for x in t.a) + ')'


def var(name):
    return mk('var', (name,), 'r')


def ivar(name, w):
    return mk('ivar', (name,), w)


# ---------------------------------------------------------------- reals
MAXDEN = 6000
ROUNDED = [0]


def big(fr):
    """keeps exact rationals from exploding in long concrete iterations"""
    d = fr.denominator
    if d.bit_length() > MAXDEN:
        ROUNDED[0] += 1
        n = fr.numerator
        sh = 2048
        e = d.bit_length() - n.bit_length() if n else 0
        k = sh + max(e, 0)
        return Fraction((n << k) // d, 1 << k)
    return fr


def isspec(a):
    return type(a) is float


def _f(a):
    if type(a) is float:
        return a
    try:
        return float(a)
    except OverflowError:
        return float('inf') if a > 0 else float('-inf')


class NaNTerm(Exception):
    pass


TINYB = Fraction(1, 10 ** 40)


def tiny(x):
    """regularisation constants such as 1e-200: below one ulp of every operand they are added to"""
    if type(x) is Fraction:
        return -TINYB < x < TINYB
    if type(x) is T:
        if x.op == 'ite':
            return tiny(x.a[1]) and tiny(x.a[2])
        if x.op == 'neg':
            return tiny(x.a[0])
    return False


def radd(a, b):
    ta = type(a)
    tb = type(b)
    if ta is Fraction and tb is Fraction:
        return big(a + b)
    if ta is T and tb is not float and tiny(b):
        return a
    if tb is T and ta is not float and tiny(a):
        return b
    if ta is float or tb is float:
        if ta is T or tb is T:
            return a if ta is float else b
        return _f(a) + _f(b)
    if ta is Fraction and a == 0:
        return b
    if tb is Fraction and b == 0:
        return a
    if ta is T and a.op == 'neg' and a.a[0] is b:
        return F0
    if tb is T and b.op == 'neg':
        return rsub(a, b.a[0])
    return mk('add', (a, b), 'r')


def rsub(a, b):
    ta = type(a)
    tb = type(b)
    if ta is Fraction and tb is Fraction:
        return big(a - b)
    if ta is float or tb is float:
        if ta is T or tb is T:
            return a if ta is float else -b
        return _f(a) - _f(b)
    if a is b:
        return F0
    if ta is T and tb is not float and tiny(b):
        return a
    if tb is T and ta is not float and tiny(a):
        return rneg(b)
    if tb is Fraction and b == 0:
        return a
    if ta is Fraction and a == 0:
        return rneg(b)
    if tb is T and b.op == 'neg':
        return radd(a, b.a[0])
    return mk('sub', (a, b), 'r')


def rneg(a):
    ta = type(a)
    if ta is T:
        if a.op == 'neg':
            return a.a[0]
        return mk('neg', (a,), 'r')
    return -a


def rmul(a, b):
    ta = type(a)
    tb = type(b)
    if ta is Fraction and tb is Fraction:
        return big(a * b)
    if ta is float or tb is float:
        if ta is T or tb is T:
            return float('nan')
        return _f(a) * _f(b)
    if ta is Fraction:
        if a == 0:
            return F0
        if a == 1:
            return b
        if a == -1:
            return rneg(b)
    if tb is Fraction:
        if b == 0:
            return F0
        if b == 1:
            return a
        if b == -1:
            return rneg(a)
        a, b = b, a
        ta = Fraction
    if ta is Fraction and b.op == 'ite' and type(b.a[1]) is Fraction and type(b.a[2]) is Fraction:
        return rite(b.a[0], a * b.a[1], a * b.a[2])
    return mk('mul', (a, b), 'r')


def rdiv(a, b):
    ta = type(a)
    tb = type(b)
    if tb is Fraction and b == 0:
        if ta is Fraction:
            return float('nan') if a == 0 else (float('inf') if a > 0 else float('-inf'))
        return float('nan')
    if ta is Fraction and tb is Fraction:
        return big(a / b)
    if ta is float or tb is float:
        if tb is float and b in (float('inf'), float('-inf')) and ta is not float:
            return F0
        if ta is T or tb is T:
            return float('nan')
        return _f(a) / _f(b) if b else float('nan')
    if ta is Fraction and a == 0:
        return F0
    if a is b:
        return F1
    if tb is Fraction:
        return rmul(F1 / b, a)
    return mk('div', (a, b), 'r')


import math as _m


def _fexact(x):
    if x != x or x in (float('inf'), float('-inf')):
        return x
    return Fraction(x)


def rsqrt(a):
    if type(a) is Fraction:
        if a >= 0:
            n = _m.isqrt(a.numerator)
            d = _m.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
            # high precision rational enclosure midpoint (200 bits)
            k = 260
            return Fraction(_m.isqrt((a.numerator << (2 * k)) // a.denominator), 1 << k)
        return float('nan')
    if type(a) is float:
        return _m.sqrt(a) if a >= 0 else float('nan')
    return mk('sqrt', (a,), 'r')


def rabs(a):
    if type(a) is T:
        if a.op == 'abs':
            return a
        if a.op == 'sqrt':
            return a
        if a.op == 'neg':
            return rabs(a.a[0])
        return mk('abs', (a,), 'r')
    return abs(a)


LIBM = {}


def rfn(name, *args):
    """transcendental function: concrete arguments -> correctly rounded double stand-in; else uninterpreted atom"""
    if all(type(x) is not T for x in args):
        try:
            fs = [_f(x) for x in args]
            if name == 'pow':
                v = fs[0] ** fs[1]
                if isinstance(v, complex):
                    v = float('nan')
            elif name == 'cbrt':
                v = _m.copysign(abs(fs[0]) ** (1. / 3), fs[0])
            elif name == 'hypot':
                v = _m.hypot(*fs)
            else:
                v = getattr(_m, name)(*fs)
        except OverflowError:
            v = float('inf')
        except (ValueError, ZeroDivisionError):
            v = float('nan')
        return _fexact(float(v))
    if name == 'pow' and type(args[1]) is Fraction:
        e = args[1]
        if e.denominator == 1 and abs(e) <= 16:
            n = abs(e.numerator)
            r = F1
            for _ in range(n):
                r = rmul(r, args[0])
            return r if e >= 0 else rdiv(F1, r)
        if e == Fraction(1, 2):
            return rsqrt(args[0])
        if e == Fraction(3, 2):
            return rmul(args[0], rsqrt(args[0]))
        if e == Fraction(-1, 2):
            return rdiv(F1, rsqrt(args[0]))
    return mk('fn', (name,) + tuple(args), 'r')


def rite(c, a, b):
    if type(c) is not T:
        return a if c else b
    if a is b or (type(a) is Fraction and type(b) is Fraction and a == b):
        return a
    d = c
    flip = False
    if d.op == 'not':
        d = d.a[0]
        flip = True
    if d.op in ('lt', 'le') and type(a) is not float and type(b) is not float:
        x, y = d.a
        if same(a, y) and same(b, x):
            return rminmax('min' if flip else 'max', x, y)
        if same(a, x) and same(b, y):
            return rminmax('max' if flip else 'min', x, y)
    return mk('ite', (c, a, b), 'r')


def same(a, b):
    return a is b or (type(a) is Fraction and type(b) is Fraction and a == b)


def rminmax(op, x, y):
    """max/min of two reals; arguments in canonical order"""
    if type(x) is Fraction and type(y) is Fraction:
        return max(x, y) if op == 'max' else min(x, y)
    if same(x, y):
        return x
    if type(x) is not T or (type(y) is T and y.id < x.id):
        x, y = y, x
    return mk(op, (x, y), 'r')


# ---------------------------------------------------------------- booleans
def bnot(c):
    if type(c) is not T:
        return 1 - c
    if c.op == 'not':
        return c.a[0]
    if c.op == 'lt':
        return mk('le', (c.a[1], c.a[0]), 'b')
    if c.op == 'le':
        return mk('lt', (c.a[1], c.a[0]), 'b')
    return mk('not', (c,), 'b')


def band(a, b):
    if type(a) is not T:
        return b if a else 0
    if type(b) is not T:
        return a if b else 0
    if a is b:
        return a
    return mk('and', (a, b), 'b')


def bor(a, b):
    if type(a) is not T:
        return 1 if a else b
    if type(b) is not T:
        return 1 if b else a
    if a is b:
        return a
    return mk('or', (a, b), 'b')


def bxor(a, b):
    if type(a) is not T:
        return bnot(b) if a else b
    if type(b) is not T:
        return bnot(a) if b else a
    if a is b:
        return 0
    return mk('xor', (a, b), 'b')


def bite(c, a, b):
    if type(c) is not T:
        return a if c else b
    return bor(band(c, a), band(bnot(c), b))


def rcmp(op, a, b):
    """op in lt le eq (reals)"""
    ta = type(a)
    tb = type(b)
    if ta is not T and tb is not T:
        if ta is float or tb is float:
            a = _f(a)
            b = _f(b)
        if op == 'lt':
            return 1 if a < b else 0
        if op == 'le':
            return 1 if a <= b else 0
        return 1 if a == b else 0
    if ta is float or tb is float:
        x = a if ta is float else b
        if x != x:
            return 0
        if op == 'eq':
            return 0
        if ta is float:
            return 1 if a < 0 else 0
        return 1 if b > 0 else 0
    if a is b:
        return 0 if op == 'lt' else 1
    if op == 'eq' and ta is T and tb is T and a.id > b.id:
        a, b = b, a
    # thresholds such as 1e-200 are identified with 0+
    if tb is Fraction and b != 0 and -TINYB < b < TINYB:
        op = ('le' if b > 0 else 'lt') if op != 'eq' else op
        b = F0
    elif ta is Fraction and a != 0 and -TINYB < a < TINYB:
        op = ('lt' if a > 0 else 'le') if op != 'eq' else op
        a = F0
    return mk(op, (a, b), 'b')


# ---------------------------------------------------------------- machine integers (bit-vector semantics)
def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def iop(op, w, a, b):
    """generic int op; concrete fast paths are inlined by the code generator"""
    if type(a) is int and type(b) is int:
        M = (1 << w) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (_s(a, w) >> b) & M
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        if op == 'sdiv':
            x, y = _s(a, w), _s(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & M
        if op == 'srem':
            x, y = _s(a, w), _s(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & M
        raise KeyError(op)
    if op in ('and', 'or', 'xor') and (isinstance(a, T) and a.s == 'b' or isinstance(b, T) and b.s == 'b'):
        return {'and': band, 'or': bor, 'xor': bxor}[op](a, b)
    if type(a) is T and a.s == 'r' or type(b) is T and b.s == 'r':
        # bit tricks on a double held in an integer register: only sign-bit masking is understood
        r, k = (a, b) if type(a) is T and a.s == 'r' else (b, a)
        if op == 'and' and k == 0x7fffffffffffffff:
            return rabs(r)
        if op == 'xor' and k == 0x8000000000000000:
            return rneg(r)
        raise Unsupported('integer op on double bits: ' + op)
    if op == 'add':
        if type(a) is int:
            a, b = b, a
        if b == 0:
            return a
        if type(b) is int and a.op == 'i_add' and type(a.a[1]) is int:
            return iop('add', w, a.a[0], (a.a[1] + b) & ((1 << w) - 1))
    elif op == 'sub':
        if a is b:
            return 0
        if type(b) is int:
            return iop('add', w, a, (-b) & ((1 << w) - 1))
    elif op == 'mul':
        if type(a) is int:
            a, b = b, a
        if b == 0:
            return 0
        if b == 1:
            return a
    elif op in ('shl', 'lshr', 'ashr'):
        if type(b) is int and b == 0:
            return a
        if op == 'shl' and type(b) is int:
            return iop('mul', w, a, 1 << b)
    elif op == 'and':
        if type(a) is int:
            a, b = b, a
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        if a is b:
            return a
    elif op in ('or', 'xor'):
        if type(a) is int:
            a, b = b, a
        if b == 0:
            return a
        if a is b:
            return a if op == 'or' else 0
    return mk('i_' + op, (a, b), w)


def icmp(pr, w, a, b):
    if type(a) is int and type(b) is int:
        if pr[0] == 's':
            a, b = _s(a, w), _s(b, w)
        p = pr[1:] if pr[0] in 'su' else pr
        if p == 'eq':
            return 1 if a == b else 0
        if p == 'ne':
            return 1 if a != b else 0
        if p == 'lt':
            return 1 if a < b else 0
        if p == 'le':
            return 1 if a <= b else 0
        if p == 'gt':
            return 1 if a > b else 0
        return 1 if a >= b else 0
    if w == 1:
        if pr == 'eq':
            return bnot(bxor(a, b))
        if pr == 'ne':
            return bxor(a, b)
    if pr == 'ne':
        return bnot(icmp('eq', w, a, b))
    if pr == 'eq':
        if a is b:
            return 1
        if type(a) is int:
            a, b = b, a
        if type(a) is T and a.s == 'r':
            raise Unsupported('integer compare on double bits')
        return mk('i_eq', (a, b, w), 'b')
    k = pr[0]
    p = pr[1:]
    if p in ('gt', 'ge'):
        a, b = b, a
        p = 'lt' if p == 'gt' else 'le'
    if a is b:
        return 0 if p == 'lt' else 1
    if type(a) is T and a.s == 'r' or type(b) is T and b.s == 'r':
        r = a if type(a) is T and a.s == 'r' else b
        k2 = b if r is a else a
        if k == 's' and p == 'lt' and k2 == 0 and r is a:   # sign bit set
            return rcmp('lt', a, F0)
        raise Unsupported('integer compare on double bits')
    return mk('i_' + k + p, (a, b, w), 'b')


def icast(op, fw, tw, a):
    if type(a) is int:
        if op == 'trunc':
            return a & ((1 << tw) - 1)
        if op == 'zext':
            return a
        return _s(a, fw) & ((1 << tw) - 1)
    if a.s == 'r':
        raise Unsupported('integer cast on double bits')
    if op == 'trunc' and a.op in ('i_zext', 'i_sext'):
        src = a.a[0]
        if src.s == tw:
            return src
    if op == 'trunc' and tw == 1:
        return mk('i_eq', (mk('i_and', (a, 1), fw), 1, fw), 'b')
    return mk('i_' + op, (a, tw), tw)


class Unsupported(Exception):
    pass
