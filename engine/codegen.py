"""IR function -> Python block functions."""
from fractions import Fraction

from . import terms as tm
from . import machine as mc
from . import builtins as bi
from .terms import (T, Unsupported, iop, icmp, icast, radd, rsub, rmul, rdiv, rneg, rsqrt, rabs, rfn, rcmp, rite,
                    bite, bnot, band, bor, mk, F0, F1)
from .machine import PathEnd, UND, M64
from .irparse import Local, GlobalRef, CExpr, VOID, PTR, ZERO, UNDEF, mk_vec


class CF:
    pass


def _sel(M, c, a, b, isreal):
    if c.__class__ is int:
        return a if c else b
    if c is UND:
        return UND
    if c.__class__ is tuple:
        return tuple(_sel(M, ci, ai, bi_, isreal) for ci, ai, bi_ in zip(c, a, b))
    if isreal == 2:
        if a is UND or b is UND:
            return a if M.decide(c) else b
        return bite(c, a, b)
    if isreal and a.__class__ is not float and b.__class__ is not float and a is not UND and b is not UND:
        if M.path.fork_select:
            return a if M.decide(c) else b
        return rite(c, a, b)
    return a if M.decide(c) else b


def fcmp(M, pr, a, b):
    if a is UND or b is UND:
        return UND
    if a.__class__ is tuple:
        return tuple(fcmp(M, pr, x, y) for x, y in zip(a, b))
    if pr == 'true':
        return 1
    if pr == 'false':
        return 0
    nan = (a.__class__ is float and a != a) or (b.__class__ is float and b != b)
    if pr == 'ord':
        return 0 if nan else 1
    if pr == 'uno':
        return 1 if nan else 0
    u = pr[0] == 'u'
    if nan:
        return 1 if u else 0
    p = pr[1:]
    if p == 'eq':
        return rcmp('eq', a, b)
    if p == 'ne':
        return bnot(rcmp('eq', a, b))
    if p == 'lt':
        return rcmp('lt', a, b)
    if p == 'le':
        return rcmp('le', a, b)
    if p == 'gt':
        return rcmp('lt', b, a)
    return rcmp('le', b, a)


def asreal(x):
    if x.__class__ is int:
        return mc.bits2real(x)
    if x is UND:
        raise Unsupported('arithmetic on an uninitialised double')
    return x


def _und(f):
    def g(a, b):
        if a.__class__ is tuple or b.__class__ is tuple:
            return tuple(g(x, y) for x, y in zip(a, b))
        if a is UND or b is UND:
            return UND
        return f(a, b)
    return g


FB = {'fadd': _und(radd), 'fsub': _und(rsub), 'fmul': _und(rmul), 'fdiv': _und(rdiv)}


def _frem(a, b):
    if type(a) is T or type(b) is T:
        raise Unsupported('frem')
    q = int(a / b)
    return a - q * b


FB['frem'] = _und(_frem)


def fneg(a):
    if a is UND:
        return UND
    if a.__class__ is tuple:
        return tuple(fneg(x) for x in a)
    return rneg(a)


def binop(M, op, w, a, b):
    if a.__class__ is tuple:
        return tuple(binop(M, op, w, x, y) for x, y in zip(a, b))
    if a is UND or b is UND:
        if op == 'and' and (a.__class__ is int and a == 0 or b.__class__ is int and b == 0):
            return 0
        return UND
    if a.__class__ is Fraction or a.__class__ is float:
        a = mc.real2bits(a)
    if b.__class__ is Fraction or b.__class__ is float:
        b = mc.real2bits(b)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        if b.__class__ is int and b == 0:
            raise PathEnd('abort', 'integer division by zero')
        if b.__class__ is T:
            if M.decide(icmp('eq', w, b, 0)):
                raise PathEnd('abort', 'integer division by zero')
    if w == 1 and (a.__class__ is T or b.__class__ is T):
        if op in ('and', 'mul'):
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        if op in ('xor', 'add', 'sub'):
            return tm.bxor(a, b)
    if a.__class__ is T and a.s == 'b':
        a = M.decide(a)
    if b.__class__ is T and b.s == 'b':
        b = M.decide(b)
    return iop(op, w, a, b)


def cmpi(M, pr, w, a, b):
    if a.__class__ is tuple:
        return tuple(cmpi(M, pr, w, x, y) for x, y in zip(a, b))
    if a is UND or b is UND:
        return UND
    if a.__class__ is Fraction or a.__class__ is float:
        if b.__class__ is T:
            raise Unsupported('compare bits')
        a = mc.real2bits(a)
    if b.__class__ is Fraction or b.__class__ is float:
        b = mc.real2bits(b)
    return icmp(pr, w, a, b)


def small_bool_sum(v, w, depth=0):
    """real value of a sum/difference of a few zero-extended booleans and small constants (no wrap-around possible)"""
    if w < 8 or depth > 4:
        return None
    if v.__class__ is int:
        if v >> (w - 1):
            v -= 1 << w
        return Fraction(v) if -4 <= v <= 4 else None
    if v.__class__ is not T:
        return None
    if v.op == 'i_ofbool':
        return rite(v.a[0], F1, F0)
    if v.op in ('i_add', 'i_sub'):
        a = small_bool_sum(v.a[0], w, depth + 1)
        b = small_bool_sum(v.a[1], w, depth + 1) if a is not None else None
        if b is None:
            return None
        return radd(a, b) if v.op == 'i_add' else rsub(a, b)
    return None


def cast(M, op, ft, tt, v):
    if v.__class__ is tuple and ft.k == 'vec' and tt.k == 'vec' and op != 'bitcast':
        return tuple(cast(M, op, ft.e, tt.e, x) for x in v)
    if v is UND:
        return UND
    if op in ('trunc', 'zext', 'sext'):
        if v.__class__ is Fraction or v.__class__ is float:
            v = mc.real2bits(v)
        if v.__class__ is T and v.s == 'b':
            if op == 'zext' and M.path.bool_terms:
                return mk('i_ofbool', (v,), tt.w)
            v = M.decide(v)
        return icast(op, ft.w, tt.w, v)
    if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
        return v
    if op == 'bitcast':
        if ft.k == tt.k and ft.k != 'vec':
            return v
        if tt.k == 'f64':
            if v.__class__ is int:
                return mc.bits2real(v)
            if v.__class__ is T and v.s != 'r':
                raise Unsupported('bitcast of symbolic int to double')
            return v
        if ft.k == 'f64':
            return v   # kept as a real in an integer register
        raise Unsupported('bitcast')
    if op in ('sitofp', 'uitofp'):
        if v.__class__ is int:
            if op == 'sitofp' and v >> (ft.w - 1):
                v -= 1 << ft.w
            return Fraction(v)
        if v.__class__ is T and v.s == 'b':
            return rite(v, F1 if op == 'uitofp' else Fraction(-1), F0)
        r = small_bool_sum(v, ft.w) if op == 'sitofp' else None
        if r is not None:
            return r
        return mk('i2r', (v, 1 if op == 'sitofp' else 0, ft.w), 'r')
    if op in ('fptosi', 'fptoui'):
        if v.__class__ is Fraction:
            n = int(v)
            return n & ((1 << tt.w) - 1)
        if v.__class__ is float:
            return UND
        if v.op == 'i2r' and v.a[2] == tt.w:
            return v.a[0]
        if v.op == 'ite':
            return cast(M, op, ft, tt, v.a[1] if M.decide(v.a[0]) else v.a[2])
        raise Unsupported('fptosi of a symbolic real')
    if op in ('fpext', 'fptrunc'):
        return v
    raise Unsupported('cast ' + op)


def setpath(v, idx, x):
    if len(idx) == 1:
        return v[:idx[0]] + (x,) + v[idx[0] + 1:]
    return v[:idx[0]] + (setpath(v[idx[0]], idx[1:], x),) + v[idx[0] + 1:]


def atomicrmw(M, k, a, v, size, w):
    old = M.load(a, size, 'i')
    if k == 'xchg':
        new = v
    elif k in ('add', 'sub', 'and', 'or', 'xor'):
        new = iop(k, w, old, v)
    else:
        raise Unsupported('atomicrmw ' + k)
    M.store(a, new, size)
    return old


def cmpxchg(M, a, c, v, size):
    old = M.load(a, size, 'i')
    ok = M.decide(icmp('eq', size * 8, old, c))
    if ok:
        M.store(a, v, size)
    return (old, ok)


def gepv(M, base, const, idx):
    """idx: list of (value, width, scale)"""
    if base is UND:
        return UND
    r = base
    for v, w, sc in idx:
        if v.__class__ is int:
            if v >> (w - 1):
                v -= 1 << w
            if r.__class__ is int:
                r = (r + v * sc) & M64
            else:
                r = iop('add', 64, r, (v * sc) & M64)
        elif v is UND:
            return UND
        else:
            if w < 64:
                v = icast('sext', w, 64, v)
            r = iop('add', 64, iop('mul', 64, v, sc), r)
    if const:
        r = (r + const) & M64 if r.__class__ is int else iop('add', 64, r, const & M64)
    return r


def shuffle(a, b, mask, n):
    r = []
    full = tuple(a) + tuple(b)
    for m in mask:
        r.append(UND if m is UND else full[m])
    return tuple(r)


def unreachable(M):
    raise PathEnd('unreachable', 'in ' + (M.stack[-1] if M.stack else '?'))


_uid = [0]


def compile_function(M, f):
    blocks = f.blocks
    bidx = {nm: i for i, (nm, _) in enumerate(blocks)}
    regs = {}
    for i, (t, nm) in enumerate(f.params):
        regs[nm] = i
    # which locals are used outside their block (or in phis)?
    defblk = {}
    for bi_, (nm, ins) in enumerate(blocks):
        for I in ins:
            if I.res is not None:
                defblk[I.res] = bi_
    cross = set()

    def scan(v, b):
        if isinstance(v, Local):
            if defblk.get(v.name, -1) != b:
                cross.add(v.name)
        elif isinstance(v, (tuple, list)):
            for x in v:
                scan(x, b)
    for b, (nm, ins) in enumerate(blocks):
        for I in ins:
            if I.op == 'phi':
                for v, _ in I.a[0]:
                    if isinstance(v, Local):
                        cross.add(v.name)
            else:
                scan(I.a, b)
    nparam = len(f.params)
    for b, (nm, ins) in enumerate(blocks):
        for I in ins:
            if I.res is not None and I.res in cross:
                regs.setdefault(I.res, len(regs))
    nregs = len(regs) + 2
    consts = {}
    cnames = []
    loc = {}

    def K(obj):
        k = id(obj)
        if k in consts:
            return consts[k][0]
        n = 'k%d' % len(consts)
        consts[k] = (n, obj)
        return n

    def cval(ty, v):
        """-> python expr string, is_int_const"""
        if isinstance(v, Local):
            if v.name in curloc:
                return curloc[v.name], False
            if v.name not in regs:
                raise Unsupported('undefined local ' + v.name)
            return 'R[%d]' % regs[v.name], False
        c = M.const(ty, v)
        if c.__class__ is int:
            return str(c), True
        return K(c), False

    src = []
    for b, (nm, ins) in enumerate(blocks):
        curloc = {}
        L = ['def b%d(M,R,prev):' % b]
        tmp = [0]

        def setres(I, expr):
            if I.res is None:
                L.append('    ' + expr)
                return
            if I.res in cross:
                v = 'v%d' % tmp[0]
                tmp[0] += 1
                L.append('    %s=R[%d]=%s' % (v, regs[I.res], expr))
                curloc[I.res] = v
            else:
                v = 'v%d' % tmp[0]
                tmp[0] += 1
                L.append('    %s=%s' % (v, expr))
                curloc[I.res] = v

        # phis first
        phis = [I for I in ins if I.op == 'phi']
        if phis:
            edges = {}
            for I in phis:
                for v, pb in I.a[0]:
                    edges.setdefault(bidx[pb], []).append((I, v))
            first = True
            for pb, lst in edges.items():
                L.append('    %s prev==%d:' % ('if' if first else 'elif', pb))
                first = False
                names = []
                seen = set()
                for I, v in lst:
                    if I.res in seen:
                        continue
                    seen.add(I.res)
                    names.append((I, cval(I.ty, v)[0]))
                L.append('        ' + ','.join('p%d' % phis.index(I) for I, _ in names) + '=' +
                         ','.join(e for _, e in names))
            for k, I in enumerate(phis):
                if I.res in cross:
                    L.append('    R[%d]=p%d' % (regs[I.res], k))
                curloc[I.res] = 'p%d' % k
        for I in ins:
            op = I.op
            a = I.a
            if op == 'phi':
                continue
            if op == 'bin':
                o, x, y, fl = a
                w = I.ty.w if I.ty.k == 'int' else (I.ty.e.w if I.ty.k == 'vec' else 64)
                ex, kx = cval(I.ty, x)
                ey, ky = cval(I.ty, y)
                if I.ty.k == 'int' and w > 1 and o in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                    sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[o]
                    chk = []
                    if not kx:
                        chk.append(ex + '.__class__ is int')
                    if not ky:
                        chk.append(ey + '.__class__ is int')
                    core = '%s%s%s' % (ex, sym, ey)
                    if o in ('add', 'sub', 'mul'):
                        core = '(%s)&%d' % (core, (1 << w) - 1)
                    if chk:
                        setres(I, '(%s) if %s else binop(M,%r,%d,%s,%s)' % (core, ' and '.join(chk), o, w, ex, ey))
                    else:
                        setres(I, core)
                else:
                    setres(I, 'binop(M,%r,%d,%s,%s)' % (o, w, ex, ey))
            elif op == 'fbin':
                setres(I, '%s(%s,%s)' % (a[0], cval(I.ty, a[1])[0], cval(I.ty, a[2])[0]))
            elif op == 'fneg':
                setres(I, 'fneg(%s)' % cval(I.ty, a[0])[0])
            elif op == 'icmp':
                pr, x, y = a
                w = 64 if I.ty.k == 'ptr' else (I.ty.e.w if I.ty.k == 'vec' else I.ty.w)
                ex, kx = cval(I.ty, x)
                ey, ky = cval(I.ty, y)
                if I.ty.k in ('int', 'ptr'):
                    p = pr[1:] if pr[0] in 'us' and pr not in ('eq', 'ne') else pr
                    py = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p]
                    chk = []
                    if not kx:
                        chk.append(ex + '.__class__ is int')
                    if not ky:
                        chk.append(ey + '.__class__ is int')
                    if pr[0] == 's' and pr not in ('eq', 'ne'):
                        sb = 1 << (w - 1)
                        core = '(%s^%d)%s(%s^%d)' % (ex, sb, py, ey, sb)
                    else:
                        core = '%s%s%s' % (ex, py, ey)
                    if chk:
                        setres(I, '(1 if %s else 0) if %s else cmpi(M,%r,%d,%s,%s)' % (
                            core, ' and '.join(chk), pr, w, ex, ey))
                    else:
                        setres(I, '1 if %s else 0' % core)
                else:
                    setres(I, 'cmpi(M,%r,%d,%s,%s)' % (pr, w, ex, ey))
            elif op == 'fcmp':
                setres(I, 'fcmp(M,%r,%s,%s)' % (a[0], cval(I.ty, a[1])[0], cval(I.ty, a[2])[0]))
            elif op == 'select':
                ec, _ = cval(VOID, a[0])
                isr = 1 if I.ty.k in ('f64', 'f32') else (2 if I.ty.k == 'int' and I.ty.w == 1 else 0)
                if I.ty.k == 'vec' and I.ty.e.k in ('f64',):
                    isr = 1
                setres(I, '_sel(M,%s,%s,%s,%d)' % (ec, cval(I.ty, a[1])[0], cval(I.ty, a[2])[0], isr))
            elif op == 'cast':
                o, ft, v = a
                ev, _ = cval(ft, v)
                if o in ('ptrtoint', 'inttoptr', 'addrspacecast'):
                    setres(I, ev)
                elif o == 'zext' and ft.k == 'int':
                    setres(I, '%s if %s.__class__ is int else cast(M,%r,%s,%s,%s)' % (ev, ev, o, K(ft), K(I.ty), ev))
                elif o == 'trunc' and ft.k == 'int':
                    setres(I, '%s&%d if %s.__class__ is int else cast(M,%r,%s,%s,%s)' % (
                        ev, (1 << I.ty.w) - 1, ev, o, K(ft), K(I.ty), ev))
                else:
                    setres(I, 'cast(M,%r,%s,%s,%s)' % (o, K(ft), K(I.ty), ev))
            elif op == 'load':
                ep, _ = cval(PTR, a[0])
                k = I.ty.k
                if k in ('st', 'arr', 'vec'):
                    setres(I, 'M.load_ty(%s,%s)' % (ep, K(I.ty)))
                elif k == 'int' and I.ty.w == 1:
                    setres(I, 'M.load(%s,1,"i")' % ep)
                else:
                    setres(I, 'M.load(%s,%d,%r)' % (ep, I.ty.size, mc._kind(I.ty)))
            elif op == 'store':
                ev, _ = cval(I.ty, a[0])
                ep, _ = cval(PTR, a[1])
                if I.ty.k in ('st', 'arr', 'vec'):
                    L.append('    M.store_ty(%s,%s,%s)' % (ep, ev, K(I.ty)))
                else:
                    L.append('    M.store(%s,%s,%d)' % (ep, ev, I.ty.size))
            elif op == 'alloca':
                ty, n = a
                en, kn = cval(PTR, n)
                L.append('    t=M.alloc(%d*M.concretize(%s),%r)' % (ty.size, en, '%' + str(I.res) + ' in ' + f.name))
                L.append('    R[%d].append(t)' % (nregs - 1))
                setres(I, 't')
            elif op == 'gep':
                bt, base, idx = a
                eb, _ = cval(PTR, base)
                const = 0
                dyn = []
                t = bt
                for n, (it, iv) in enumerate(idx):
                    if n == 0:
                        sc = t.size
                    elif t.k == 'st':
                        c = M.const(it, iv)
                        const += t.offs[c]
                        t = t.els[c]
                        continue
                    else:
                        sc = t.e.size
                        t = t.e
                    if isinstance(iv, Local):
                        dyn.append((cval(it, iv)[0], it.w, sc))
                    else:
                        c = M.const(it, iv)
                        if c is UND:
                            c = 0
                        c = c - (1 << it.w) if c >> (it.w - 1) else c
                        const += c * sc
                if not dyn:
                    if const == 0:
                        setres(I, eb)
                    else:
                        setres(I, '(%s+%d)&M64 if %s.__class__ is int else gepv(M,%s,%d,())' % (eb, const, eb, eb, const))
                else:
                    setres(I, 'gepv(M,%s,%d,(%s,))' % (eb, const, ','.join('(%s,%d,%d)' % d for d in dyn)))
            elif op in ('call', 'invoke'):
                callee, args, nd, ud = a
                ea = ','.join(cval(t, v)[0] for t, v in args)
                if ea:
                    ea += ','
                if isinstance(callee, GlobalRef):
                    cn = callee.name
                    if bi.ignored(cn):
                        if I.res is not None:
                            setres(I, 'UND')
                        if op == 'invoke':
                            L.append('    return %d' % bidx[nd])
                        continue
                    h = M.hooks.get(cn) or (None if cn in M.mod.funcs or cn in M.mod.aliases else bi.lookup(cn))
                    if h is not None and cn not in M.hooks:
                        M.ext_used.add(cn)
                        setres(I, '%s(M,(%s))' % (K(h), ea))
                    elif h is not None:
                        setres(I, '%s(M,(%s))' % (K(h), ea))
                    else:
                        setres(I, 'M.call(%r,(%s))' % (cn, ea))
                else:
                    ec, _ = cval(PTR, callee)
                    setres(I, 'M.call_ptr(%s,(%s))' % (ec, ea))
                if op == 'invoke':
                    L.append('    return %d' % bidx[nd])
            elif op == 'br':
                L.append('    return %d' % bidx[a[0]])
            elif op == 'cbr':
                ec, _ = cval(VOID, a[0])
                L.append('    return %d if (%s if %s.__class__ is int else M.decide(%s)) else %d' % (
                    bidx[a[1]], ec, ec if not ec.isdigit() else '(%s)' % ec, ec, bidx[a[2]]))
            elif op == 'switch':
                v, d, cs = a
                ev, _ = cval(I.ty, v)
                tab = {}
                for cv, lb in cs:
                    tab[M.const(I.ty, cv)] = bidx[lb]
                L.append('    s=%s' % ev)
                L.append('    if s.__class__ is not int: s=M.path.switch(M,s,%s,%d)' % (K(sorted(tab)), I.ty.w))
                L.append('    return %s.get(s,%d)' % (K(tab), bidx[d]))
            elif op == 'ret':
                if a[0] is None:
                    L.append('    M.ret=None')
                else:
                    L.append('    M.ret=%s' % cval(I.ty, a[0])[0])
                L.append('    return -1')
            elif op == 'unreachable':
                L.append('    unreachable(M)')
            elif op == 'extractvalue':
                ev, _ = cval(I.ty, a[0])
                setres(I, ev + ''.join('[%d]' % i for i in a[1]))
            elif op == 'insertvalue':
                ev, _ = cval(I.ty, a[0])
                t = I.ty
                for i in a[2]:
                    t = t.els[i] if t.k == 'st' else t.e
                ex, _ = cval(t, a[1])
                setres(I, 'setpath(%s,%r,%s)' % (ev, tuple(a[2]), ex))
            elif op == 'extractelement':
                ev, _ = cval(I.ty, a[0])
                ei, _ = cval(PTR, a[1])
                setres(I, '%s[%s]' % (ev, ei))
            elif op == 'insertelement':
                ev, _ = cval(I.ty, a[0])
                ex, _ = cval(I.ty.e, a[1])
                ei, _ = cval(PTR, a[2])
                setres(I, 'setpath(%s,(%s,),%s)' % (ev, ei, ex))
            elif op == 'shufflevector':
                x, y, mt, mk_ = a
                mask = M.const(mt, mk_)
                if mask is UND:
                    mask = (UND,) * mt.n
                setres(I, 'shuffle(%s,%s,%s,0)' % (cval(I.ty, x)[0], cval(I.ty, y)[0], K(mask)))
            elif op == 'freeze':
                setres(I, cval(I.ty, a[0])[0])
            elif op == 'landingpad':
                setres(I, 'UND')
            elif op == 'resume':
                L.append('    unreachable(M)')
            elif op == 'fence':
                pass
            elif op == 'atomicrmw':
                k, p, v = a
                setres(I, 'atomicrmw(M,%r,%s,%s,%d,%d)' % (k, cval(PTR, p)[0], cval(I.ty, v)[0], I.ty.size, I.ty.w))
            elif op == 'cmpxchg':
                p, c, v = a
                setres(I, 'cmpxchg(M,%s,%s,%s,%d)' % (cval(PTR, p)[0], cval(I.ty, c)[0], cval(I.ty, v)[0], I.ty.size))
            elif op == 'asm':
                if ('""' in a[0] or 'asm sideeffect "#' in a[0]) and I.res is None:
                    pass
                else:
                    L.append('    raise Unsupported("inline asm")')
                    if I.res is not None:
                        curloc[I.res] = 'UND'
            else:
                raise Unsupported('codegen ' + op)
        if len(L) == 1:
            L.append('    pass')
        src.append('\n'.join(L))
    ns = dict(binop=binop, cmpi=cmpi, fcmp=fcmp, _sel=_sel, cast=cast, fneg=fneg, gepv=gepv, M64=M64, UND=UND,
              setpath=setpath, shuffle=shuffle, unreachable=unreachable, atomicrmw=atomicrmw, cmpxchg=cmpxchg,
              Unsupported=Unsupported, **FB)
    for n, o in consts.values():
        ns[n] = o
    text = '\n'.join(src)
    exec(compile(text, '<' + f.name[:60] + '>', 'exec'), ns)
    cf = CF()
    cf.blocks = [ns['b%d' % i] for i in range(len(blocks))]
    cf.nregs = nregs
    cf.nparams = nparam
    cf.keep = consts
    return cf
