"""symbolic differentiation of terms"""
from fractions import Fraction
from . import terms as tm
from .terms import (T, Unsupported, radd, rsub, rmul, rdiv, rneg, rsqrt, rfn, rite, rcmp, F0, F1)

_memo = {}


def reset():
    _memo.clear()


def D(t, x):
    if type(t) is not T:
        return F0
    if type(x) is not T or x.op != 'var':
        raise Unsupported('derivative with respect to a non-variable')
    memo = _memo.setdefault(x.id, {})
    if t.id in memo:
        return memo[t.id]
    stack = [t]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        args = [z for z in (y.a[1:] if y.op in ('fn', 'ite') else y.a) if type(z) is T]
        if y.op in ('var', 'i2r', 'ivar'):
            args = []
        todo = [z for z in args if z.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[y.id] = one(y, x, lambda z: memo[z.id] if type(z) is T else F0)
        stack.pop()
    return memo[t.id]


def one(y, x, d):
    op, a = y.op, y.a
    if y is x:
        return F1
    if op in ('var', 'i2r'):
        return F0
    if op == 'add':
        return radd(d(a[0]), d(a[1]))
    if op == 'sub':
        return rsub(d(a[0]), d(a[1]))
    if op == 'neg':
        return rneg(d(a[0]))
    if op == 'mul':
        return radd(rmul(d(a[0]), a[1]), rmul(a[0], d(a[1])))
    if op == 'div':
        da, db = d(a[0]), d(a[1])
        r = rdiv(da, a[1])
        if db == 0 and type(db) is Fraction:
            return r
        return rsub(r, rdiv(rmul(a[0], db), rmul(a[1], a[1])))
    if op == 'sqrt':
        da = d(a[0])
        if type(da) is Fraction and da == 0:
            return F0
        return rdiv(da, rmul(Fraction(2), y))
    if op == 'abs':
        da = d(a[0])
        if type(da) is Fraction and da == 0:
            return F0
        return rite(rcmp('lt', a[0], F0), rneg(da), da)
    if op in ('max', 'min'):
        da, db = d(a[0]), d(a[1])
        c = rcmp('lt', a[0], a[1])
        return rite(c, db, da) if op == 'max' else rite(c, da, db)
    if op == 'ite':
        return rite(a[0], d(a[1]), d(a[2]))
    if op == 'fn':
        n = a[0]
        da = d(a[1])
        if n == 'sin':
            return rmul(da, rfn('cos', a[1]))
        if n == 'cos':
            return rneg(rmul(da, rfn('sin', a[1])))
        if n == 'exp':
            return rmul(da, y)
        if n == 'log':
            return rdiv(da, a[1])
        if n == 'tanh':
            return rmul(da, rsub(F1, rmul(y, y)))
        if n == 'pow':
            db = d(a[2])
            r = rdiv(rmul(rmul(a[2], y), da), a[1])
            if type(db) is Fraction and db == 0:
                return r
            return radd(r, rmul(rmul(y, rfn('log', a[1])), db))
        if all(type(z) is not T or (type(d(z)) is Fraction and d(z) == 0) for z in a[1:]):
            return F0
    raise Unsupported('derivative of ' + op)


def subst(t, x, v, memo=None):
    """t[x := v]"""
    if type(t) is not T:
        return t
    memo = {} if memo is None else memo
    memo[x.id] = v
    stack = [t]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        todo = [z for z in y.a if type(z) is T and z.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [memo[z.id] if type(z) is T else z for z in y.a]
        if all(p is q for p, q in zip(a, y.a)):
            memo[y.id] = y
        else:
            memo[y.id] = rebuild(y, a)
    return memo[t.id]


def rebuild(y, a):
    op = y.op
    f = {'add': tm.radd, 'sub': tm.rsub, 'mul': tm.rmul, 'div': tm.rdiv, 'neg': tm.rneg, 'sqrt': tm.rsqrt,
         'abs': tm.rabs, 'max': lambda x, y: tm.rminmax('max', x, y), 'min': lambda x, y: tm.rminmax('min', x, y), 'ite': tm.rite, 'not': tm.bnot, 'and': tm.band, 'or': tm.bor, 'xor': tm.bxor}.get(op)
    if f:
        return f(*a)
    if op in ('lt', 'le', 'eq') :
        return tm.rcmp(op, *a)
    if op == 'fn':
        return tm.rfn(*a)
    raise Unsupported('substitution in ' + op)
