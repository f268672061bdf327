"""Contracts assumed for external (library / intrinsic) functions.  Everything here is part of the trusted base."""
import math
import re
from fractions import Fraction

from . import terms as tm
from .terms import (T, Unsupported, iop, icmp, icast, radd, rsub, rmul, rdiv, rneg, rsqrt, rabs, rfn, rcmp, rite,
                    bnot, band, bor, mk, F0, F1)

IGN = re.compile(r'^llvm\.(dbg\.|lifetime\.|assume|experimental\.noalias|invariant\.|sideeffect|donothing|prefetch|'
                 r'stackrestore|var\.annotation|pseudoprobe|memory\.)')
_cache = {}


def ignored(n):
    return bool(IGN.match(n))


def _und(*a):
    from .machine import UND
    return any(x is UND for x in a)


def _vec1(f):
    def g(M, a):
        from .machine import UND
        if a[0] is UND:
            return UND
        if a[0].__class__ is tuple:
            return tuple(g(M, (x,)) for x in a[0])
        return f(a[0])
    return g


def _vec2(f):
    def g(M, a):
        from .machine import UND
        if a[0] is UND or a[1] is UND:
            return UND
        if a[0].__class__ is tuple:
            return tuple(g(M, (x, y)) for x, y in zip(a[0], a[1]))
        return f(a[0], a[1])
    return g


def rmin(a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return rite(rcmp('lt', b, a), b, a)


def rmax(a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return rite(rcmp('lt', a, b), b, a)


def rfloor(name):
    def f(a):
        if type(a) is Fraction:
            if name == 'floor':
                return Fraction(math.floor(a))
            if name == 'ceil':
                return Fraction(math.ceil(a))
            if name == 'trunc':
                return Fraction(int(a))
            if name in ('round', 'lround'):
                return Fraction(math.floor(abs(a) + Fraction(1, 2)) * (1 if a >= 0 else -1))
            return Fraction(round(a))
        if type(a) is float:
            return a
        return mk('fn', (name, a), 'r')
    return f


def copysign(a, b):
    if type(b) is T or type(a) is T:
        return rite(rcmp('lt', b, F0), rneg(rabs(a)), rabs(a))
    s = b < 0 or (type(b) is float and math.copysign(1, b) < 0)
    return -abs(a) if s else abs(a)


def sgnd(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def minmax(kind, w):
    pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[kind]

    def f(M, a):
        x, y = a
        if _und(x, y):
            from .machine import UND
            return UND
        c = icmp(pr, w, x, y)
        if c.__class__ is int:
            return x if c else y
        return mk('i_ite', (c, x, y), w) if M.path.int_ite else (x if M.decide(c) else y)
    return f


def ovf(kind, w):
    sg = kind[0] == 's'
    o = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[kind[1:]]

    def f(M, a):
        x, y = a
        if x.__class__ is int and y.__class__ is int:
            p, q = (sgnd(x, w), sgnd(y, w)) if sg else (x, y)
            r = p + q if o == 'add' else p - q if o == 'sub' else p * q
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return (r & ((1 << w) - 1), 0 if lo <= r <= hi else 1)
        r = iop(o, w, x, y)
        return (r, mk('i_ovf', (x, y, ('s' if sg else 'u') + o, w), 'b'))
    return f


def _memcpy(M, a):
    if _und(a[2]):
        raise Unsupported('memcpy size undefined')
    M.memcpy(a[0], a[1], a[2])
    return a[0]


def _memset(M, a):
    M.memset(a[0], a[1], a[2])
    return a[0]


def _malloc(M, a):
    n = M.concretize(a[0])
    if n > (1 << 31):
        from .machine import PathEnd
        raise PathEnd('throw', 'allocation of %d bytes' % n)
    return M.alloc(n, 'heap')


def _calloc(M, a):
    return M.alloc(M.concretize(a[0]) * M.concretize(a[1]), 'heap', 0)


def _realloc(M, a):
    n = M.alloc(M.concretize(a[1]), 'heap')
    if a[0]:
        o = M.objs[a[0] >> 32]
        M.memcpy(n, a[0], min(o.size, a[1]))
        M.free(a[0])
    return n


def _free(M, a):
    M.free(a[0])


def _abort(kind):
    def f(M, a):
        from .machine import PathEnd
        raise PathEnd(kind, '%s in %s' % (kind, ' < '.join(reversed([s[:80] for s in M.stack[-3:]]))))
    return f


def _assert_fail(M, a):
    from .machine import PathEnd
    try:
        s = M.cstr(a[0])
    except Exception:
        s = '?'
    raise PathEnd('abort', 'assertion "%s" failed in %s' % (s, M.stack[-1][:100]))


def _throw(M, a):
    from .machine import PathEnd
    raise PathEnd('throw', 'exception in ' + M.stack[-1][:100])


def _guard_acq(M, a):
    v = M.load(a[0], 1, 'i')
    return 0 if v == 1 else 1


def _guard_rel(M, a):
    M.store(a[0], 1, 1)


def _ret0(M, a):
    return 0


def _retund(M, a):
    from .machine import UND
    return UND


def _reta0(M, a):
    return a[0]


def _strlen(M, a):
    return len(M.cstr(a[0]))


def _memcmp(M, a):
    p, q, n = a
    n = M.concretize(n)
    for i in range(n):
        x = M.load(p + i, 1, 'i')
        y = M.load(q + i, 1, 'i')
        if _und(x, y):
            from .machine import UND
            return UND
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
    return 0


def _ctpop(w):
    def f(M, a):
        if type(a[0]) is not int:
            raise Unsupported('ctpop')
        return bin(a[0]).count('1')
    return f


def _ctlz(w):
    def f(M, a):
        if type(a[0]) is not int:
            raise Unsupported('ctlz')
        return w - a[0].bit_length()
    return f


def _cttz(w):
    def f(M, a):
        if type(a[0]) is not int:
            raise Unsupported('cttz')
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    return f


def _iabs(w):
    def f(M, a):
        v = a[0]
        if v.__class__ is int:
            return abs(sgnd(v, w)) & ((1 << w) - 1)
        if M.decide(icmp('slt', w, v, 0)):
            return iop('sub', w, 0, v)
        return v
    return f


def _bswap(w):
    def f(M, a):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    return f


def _fsh(kind, w):
    def f(M, a):
        x, y, s = a
        if not all(type(v) is int for v in a):
            raise Unsupported('fsh')
        s %= w
        c = (x << w) | y
        if kind == 'fshl':
            return (c >> (w - s)) & ((1 << w) - 1) if s else x
        return (c >> s) & ((1 << w) - 1)
    return f


def _usubsat(w):
    def f(M, a):
        if M.decide(icmp('ult', w, a[0], a[1])):
            return 0
        return iop('sub', w, a[0], a[1])
    return f


def _fpclass(M, a):
    # real semantics: symbolic values are finite; bits: snan=1 qnan=2 ninf=4 ... pinf=0x200
    v, m = a
    if type(v) is float:
        if v != v:
            return 1 if m & 3 else 0
        return 1 if (v > 0 and m & 0x200) or (v < 0 and m & 4) else 0
    if m & 0x3 == m or (m & ~0x207) == 0:
        return 0
    if m == 0x1f8:
        return 1
    if type(v) is Fraction:
        if v == 0:
            return 1 if m & 0x60 else 0
        return 1 if (m & 0x180 if v > 0 else m & 0x18) else 0
    r = 0
    if (m & 0x180) == 0x180:
        r = bor(r, rcmp('lt', F0, v))
    if (m & 0x18) == 0x18:
        r = bor(r, rcmp('lt', v, F0))
    if (m & 0x60):
        r = bor(r, rcmp('eq', v, F0))
    return r


def _fptosi_sat(w):
    def f(M, a):
        if type(a[0]) is Fraction:
            return int(a[0]) & ((1 << w) - 1)
        raise Unsupported('fptosi.sat')
    return f


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109,
           113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439,
           467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879]


def _nan(M, a):
    from .machine import UND
    return UND


def _next_bkt(M, a):
    # std::__detail::_Prime_rehash_policy::_M_next_bkt(this, n): a prime >= n; records the load threshold
    n = M.concretize(a[1])
    p = next(x for x in _PRIMES if x >= n)
    M.store(a[0] + 8, p, 8)
    return p


def _need_rehash(M, a):
    this, nb, ne, ni = a[0], M.concretize(a[1]), M.concretize(a[2]), M.concretize(a[3])
    nxt = M.load(this + 8, 8, 'i')
    if ne + ni > nxt:
        want = max(ne + ni, 11 if nxt == 0 else 0)
        if want >= nb:
            p = next(x for x in _PRIMES if x >= max(want + 1, nb * 2))
            M.store(this + 8, p, 8)
            return (1, p)
        M.store(this + 8, nb, 8)
    return (0, 0)


def _list_hook(M, a):
    this, pos = a
    prv = M.load(pos + 8, 8, 'i')
    M.store(this, pos, 8)
    M.store(this + 8, prv, 8)
    M.store(prv, this, 8)
    M.store(pos + 8, this, 8)


def _rb_inc(M, a):
    x = a[0]
    r = M.load(x + 24, 8, 'i')
    if r:
        x = r
        while True:
            l = M.load(x + 16, 8, 'i')
            if not l:
                return x
            x = l
    y = M.load(x + 8, 8, 'i')
    while x == M.load(y + 24, 8, 'i'):
        x = y
        y = M.load(y + 8, 8, 'i')
    if M.load(x + 24, 8, 'i') != y:
        x = y
    return x


def _rb_dec(M, a):
    x = a[0]
    # header (red and parent.parent == x)
    if M.load(x, 4, 'i') == 0 and M.load(M.load(x + 8, 8, 'i') + 8, 8, 'i') == x:
        return M.load(x + 24, 8, 'i')
    l = M.load(x + 16, 8, 'i')
    if l:
        y = l
        while True:
            r = M.load(y + 24, 8, 'i')
            if not r:
                return y
            y = r
    y = M.load(x + 8, 8, 'i')
    while x == M.load(y + 16, 8, 'i'):
        x = y
        y = M.load(y + 8, 8, 'i')
    return y


def _rb_insert(M, a):
    # plain (unbalanced) BST insertion with libstdc++'s header bookkeeping; ordering semantics are the same
    left, x, p, h = a
    M.store(x, 1, 4)
    M.store(x + 8, p, 8)
    M.store(x + 16, 0, 8)
    M.store(x + 24, 0, 8)
    if left & 0xff if type(left) is int else M.decide(left):
        M.store(p + 16, x, 8)
        if p == h:
            M.store(h + 8, x, 8)
            M.store(h + 24, x, 8)
        elif p == M.load(h + 16, 8, 'i'):
            M.store(h + 16, x, 8)
    else:
        M.store(p + 24, x, 8)
        if p == M.load(h + 24, 8, 'i'):
            M.store(h + 24, x, 8)


TABLE = {
    'malloc': _malloc, '_Znwm': _malloc, '_Znam': _malloc, 'calloc': _calloc, 'realloc': _realloc,
    '_ZnwmSt11align_val_t': _malloc, '_ZnamSt11align_val_t': _malloc,
    'free': _free, '_ZdlPv': _free, '_ZdaPv': _free, '_ZdlPvm': _free, '_ZdaPvm': _free,
    '_ZdlPvSt11align_val_t': _free, '_ZdlPvmSt11align_val_t': _free,
    'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'strlen': _strlen, 'memcmp': _memcmp, 'bcmp': _memcmp,
    'abort': _abort('abort'), '__assert_fail': _assert_fail, '_ZSt9terminatev': _abort('abort'),
    '__clang_call_terminate': _abort('abort'), 'exit': _abort('abort'), 'llvm.trap': _abort('abort'),
    'nan': _nan,
    '__cxa_throw': _throw, '__cxa_rethrow': _throw,
    '__cxa_allocate_exception': lambda M, a: M.alloc(max(M.concretize(a[0]), 8) + 128, 'exception', 0),
    '__cxa_guard_acquire': _guard_acq, '__cxa_guard_release': _guard_rel,
    '__cxa_atexit': _ret0, '__cxa_free_exception': _ret0, 'atexit': _ret0,
    '_ZNSt8ios_base4InitC1Ev': _ret0, '_ZNSt8ios_base4InitD1Ev': _ret0,
    '__cxa_pure_virtual': _abort('abort'),
    '_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm': _next_bkt,
    '_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm': _need_rehash,
    '_ZNSt8__detail15_List_node_base7_M_hookEPS0_': _list_hook,
    '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': _rb_inc,
    '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': _rb_inc,
    '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base': _rb_dec,
    '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base': _rb_dec,
    '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': _rb_insert,
    'sqrt': lambda M, a: rsqrt(a[0]), 'fabs': lambda M, a: rabs(a[0]),
    'fmin': lambda M, a: rmin(a[0], a[1]), 'fmax': lambda M, a: rmax(a[0], a[1]),
    'llvm.stacksave.p0': _ret0, 'llvm.threadlocal.address.p0': _reta0,
    'llvm.is.fpclass.f64': _fpclass, 'llvm.returnaddress': _ret0, 'llvm.frameaddress.p0': _ret0,
    '__gxx_personality_v0': _ret0, 'isnan': lambda M, a: 0,
    'llvm.eh.typeid.for': _ret0, 'getenv': _ret0,
    'pthread_mutex_lock': _ret0, 'pthread_mutex_unlock': _ret0,
}


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt', 'log10', 'exp2',
           'log2', 'acosh', 'asinh', 'atanh', 'erf', 'lgamma', 'log1p', 'expm1'):
    TABLE[_n] = (lambda nm: lambda M, a: rfn(nm, a[0]))(_n)
for _n in ('pow', 'atan2', 'hypot', 'fmod'):
    TABLE[_n] = (lambda nm: lambda M, a: rfn(nm, a[0], a[1]))(_n)
for _n in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
    TABLE[_n] = _vec1(rfloor(_n))
TABLE['copysign'] = _vec2(copysign)

def _str_cap(M, t):
    return 15 if M.load(t, 8, 'i') == t + 16 else M.load(t + 16, 8, 'i')


def _str_grow(M, t, need):
    if need > _str_cap(M, t):
        cap = max(need, 2 * _str_cap(M, t))
        n = M.alloc(cap + 1, 'string')
        old = M.load(t, 8, 'i')
        M.memcpy(n, old, M.load(t + 8, 8, 'i') + 1)
        if old != t + 16:
            M.free(old)
        M.store(t, n, 8)
        M.store(t + 16, cap, 8)


def _str_create(M, a):
    n = M.load(a[1], 8, 'i')
    if n > a[2] and n < 2 * a[2]:
        n = 2 * a[2]
        M.store(a[1], n, 8)
    return M.alloc(n + 1, 'string')


def _str_append(M, a):
    t, p, n = a
    n = M.concretize(n)
    sz = M.load(t + 8, 8, 'i')
    _str_grow(M, t, sz + n)
    d = M.load(t, 8, 'i')
    M.memcpy(d + sz, p, n)
    M.store(t + 8, sz + n, 8)
    M.store(d + sz + n, 0, 1)
    return t


def _str_dtor(M, a):
    t = a[0]
    d = M.load(t, 8, 'i')
    if type(d) is int and d != t + 16:
        M.free(d)


def _str_assign(M, a):
    t, o = a
    M.store(t + 8, 0, 8)
    _str_append(M, (t, M.load(o, 8, 'i'), M.load(o + 8, 8, 'i')))


def _str_ctor(M, a):
    t, p = a[0], a[1]
    M.store(t, t + 16, 8)
    M.store(t + 8, 0, 8)
    M.store(t + 16, 0, 1)
    _str_append(M, (t, p, len(M.cstr(p))))


def _str_reserve(M, a):
    _str_grow(M, a[0], M.concretize(a[1]))


def _str_fill(M, a):
    t, n, c = a[0], M.concretize(a[1]), a[2]
    M.store(t, t + 16, 8)
    M.store(t + 8, 0, 8)
    M.store(t + 16, 0, 1)
    _str_grow(M, t, n)
    d = M.load(t, 8, 'i')
    for i in range(n):
        M.store(d + i, c, 1)
    M.store(d + n, 0, 1)
    M.store(t + 8, n, 8)


def _str_replace(M, a):
    t, pos, l1, s, l2 = a[0], M.concretize(a[1]), M.concretize(a[2]), M.concretize(a[3]), M.concretize(a[4])
    sz = M.load(t + 8, 8, 'i')
    tmp = M.alloc(l2 + sz - l1 + 1, 'string')  # through a scratch copy: the source may lie inside the target
    d = M.load(t, 8, 'i')
    M.memcpy(tmp, d, pos)
    M.memcpy(tmp + pos, s, l2)
    M.memcpy(tmp + pos + l2, d + pos + l1, sz - pos - l1)
    _str_grow(M, t, sz - l1 + l2)
    d = M.load(t, 8, 'i')
    M.memcpy(d, tmp, sz - l1 + l2)
    M.store(d + sz - l1 + l2, 0, 1)
    M.store(t + 8, sz - l1 + l2, 8)
    M.free(tmp)
    return t


_S = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
TABLE.update({_S + '7reserveEm': _str_reserve, _S + '12_M_constructEmc': _str_fill, _S + '10_M_replaceEmmPKcm': _str_replace,
              _S + '9_M_createERmm': _str_create, _S + '9_M_appendEPKcm': _str_append, _S + 'D1Ev': _str_dtor,
              _S + 'D2Ev': _str_dtor, _S + '9_M_assignERKS4_': _str_assign,
              _S + '10_M_disposeEv': _str_dtor})


def _str_empty(M, a):
    t = a[0]
    M.store(t, t + 16, 8)
    M.store(t + 8, 0, 8)
    M.store(t + 16, 0, 1)


TABLE['_Z21__DNDS_getTraceStringB5cxx11v'] = _str_empty


def _dynamic_cast(M, a):
    # the Itanium ABI: complete object and its typeinfo sit in front of the vtable; single-inheritance chains only
    from .machine import Unsupported
    src, dst = a[0], a[2]
    vp = M.load(src, 8, 'i')
    top = M.load(vp - 16, 8, 'i')
    ti = M.load(vp - 8, 8, 'i')
    si = M.addr_of('_ZTVN10__cxxabiv120__si_class_type_infoE') + 16
    plain = M.addr_of('_ZTVN10__cxxabiv117__class_type_infoE') + 16
    while True:
        if ti == dst:
            return (src + top) & (2 ** 64 - 1)
        k = M.load(ti, 8, 'i')
        if k == si:
            ti = M.load(ti + 16, 8, 'i')
        elif k == plain:
            return 0
        else:
            raise Unsupported('dynamic_cast through multiple inheritance')


def _sprintf(M, a):
    # literal text and %d of concrete ints (the array signatures)
    from .machine import Unsupported
    s = M.cstr(a[1])
    args = [sgnd(M.concretize(x), 32) for x in a[2:]]
    k = iter(args)
    out = re.sub('%d', lambda m: str(next(k)), s)
    if '%' in out or len(args) != s.count('%d'):
        raise Unsupported('sprintf format ' + s)
    for i, c in enumerate(out.encode() + b'\0'):
        M.store(a[0] + i, c, 1)
    return len(out)


def _strtol(M, a):
    from .machine import Unsupported
    s = M.cstr(a[0])
    m = re.match(r'\s*[+-]?[0-9]+', s)
    if M.concretize(a[2]) != 10:
        raise Unsupported('strtol base')
    if M.concretize(a[1]):
        M.store(a[1], a[0] + (m.end() if m else 0), 8)
    return int(m.group()) & (2 ** 64 - 1) if m else 0


def _hash_bytes(M, a):
    # std::_Hash_bytes(p, n, seed): some function of the bytes; its value shows only in the bucket order
    h = (M.concretize(a[2]) ^ 0xcbf29ce484222325) & (2 ** 64 - 1)
    for i in range(M.concretize(a[1])):
        h = ((h ^ M.concretize(M.load(a[0] + i, 1, 'i'))) * 0x100000001b3) & (2 ** 64 - 1)
    return h


def _errno(M, a):
    n = '@errno'
    if n not in M.gaddr:
        e = M.gaddr[n] = M.alloc(8, n, 0, 'global')
        if M.base_objs is not None:
            M.base_objs[e >> 32] = M.objs[e >> 32].clone()
    return M.gaddr[n]


TABLE.update({'__dynamic_cast': _dynamic_cast, 'sprintf': _sprintf, 'strtol': _strtol, '__isoc23_strtol': _strtol, '__errno_location': _errno,
              '_ZSt11_Hash_bytesPKvmm': _hash_bytes})

THROWERS = re.compile(r'^_ZSt(\d+)__throw_|^_ZNSt16invalid_argument|^_ZNSt12out_of_range|^_ZNSt9bad_alloc|^_ZSt17__throw')
OPAQUE = re.compile(r'^_ZN?K?(St7__cxx1112basic_string|3fmt|So|Si|St8ios_base|St9basic_ios|St6locale|Sol|SolsE|St16__ostream|'
                    r'SaIcE|Ss)|^_ZSt16__ostream_insert|^_ZStls|^_ZSt4endl|^_ZSt5flush|^_ZNSt7__cxx11|^_ZNSolsE|^_ZNSo|'
                    r'^_ZN3fmt|^_ZNSt15basic_streambuf|^_ZNSt13basic_filebuf|^_ZSt20__throw')


def lookup(n):
    h = _cache.get(n)
    if h is not None:
        return h
    h = _lookup(n)
    if h is not None:
        _cache[n] = h
    return h


def _lookup(n):
    h = TABLE.get(n)
    if h:
        return h
    if n.startswith('llvm.'):
        m = re.match(r'llvm\.(memcpy|memmove)\.', n)
        if m:
            return _memcpy
        if n.startswith('llvm.memset.'):
            return _memset
        m = re.match(r'llvm\.([a-z0-9]+)\.(f64|v\d+f64|f32|f80)(\.i32)?$', n)
        if m:
            k = m.group(1)
            if k == 'fabs':
                return _vec1(rabs)
            if k == 'sqrt':
                return _vec1(rsqrt)
            if k in ('minnum', 'minimum'):
                return _vec2(rmin)
            if k in ('maxnum', 'maximum'):
                return _vec2(rmax)
            if k in ('fmuladd', 'fma'):
                return lambda M, a: radd(rmul(a[0], a[1]), a[2])
            if k == 'copysign':
                return _vec2(copysign)
            if k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven'):
                return _vec1(rfloor(k))
            if k in ('exp', 'log', 'sin', 'cos', 'exp2', 'log2', 'log10', 'tan'):
                return _vec1(lambda x, k=k: rfn(k, x))
            if k == 'pow':
                return _vec2(lambda x, y: rfn('pow', x, y))
            if k == 'powi':
                return lambda M, a: rfn('pow', a[0], Fraction(sgnd(M.concretize(a[1]), 32)))
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)$', n)
        if m:
            return minmax(m.group(1), int(m.group(2)))
        m = re.match(r'llvm\.([su](?:add|sub|mul))\.with\.overflow\.i(\d+)$', n)
        if m:
            return ovf(m.group(1), int(m.group(2)))
        m = re.match(r'llvm\.(ctpop|ctlz|cttz|abs|bswap)\.i(\d+)$', n)
        if m:
            return {'ctpop': _ctpop, 'ctlz': _ctlz, 'cttz': _cttz, 'abs': _iabs, 'bswap': _bswap}[m.group(1)](int(m.group(2)))
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)$', n)
        if m:
            return _fsh(m.group(1), int(m.group(2)))
        m = re.match(r'llvm\.usub\.sat\.i(\d+)$', n)
        if m:
            return _usubsat(int(m.group(1)))
        m = re.match(r'llvm\.expect\.', n)
        if m:
            return _reta0
        m = re.match(r'llvm\.fptosi\.sat\.i(\d+)', n)
        if m:
            return _fptosi_sat(int(m.group(1)))
        m = re.match(r'llvm\.vector\.reduce\.fadd', n)
        if m:
            def red(M, a):
                r = a[0]
                for x in a[1]:
                    r = radd(r, x)
                return r
            return red
        return None
    if THROWERS.match(n):
        return _throw
    if OPAQUE.match(n):
        # text formatting / stream output: no effect on the checked state; the result is opaque
        if re.match(r'^_ZN?K?So|^_ZStls|^_ZSt16__ostream_insert|^_ZSt4endl', n):
            return _reta0
        return _retund
    return None
