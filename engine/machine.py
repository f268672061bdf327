"""Symbolic executor (verification-condition generator) for LLVM IR.

Every basic block of a function reached by a contract is translated to Python and run on values that are
either concrete (exact rationals for `double`, Python ints for machine integers, addresses) or hash-consed
symbolic terms.  `double` is interpreted as a mathematical real; machine integers keep bit-vector semantics.
A path is one run; at a branch on a symbolic condition the driver forks by re-execution (see explore()).
"""
import math
import os
import re
import struct
import sys
import time
from fractions import Fraction

from . import terms as tm
from .terms import (T, Unsupported, iop, icmp, icast, radd, rsub, rmul, rdiv, rneg, rsqrt, rabs, rfn, rcmp, rite,
                    bite, bnot, band, bor, mk, F0, F1)
from . import irparse as ir
from .irparse import Local, GlobalRef, CExpr, CAgg, CBytes, ZERO, UNDEF, VOID, PTR, F64

sys.setrecursionlimit(20000)

M64 = (1 << 64) - 1


class _Undef:
    def __repr__(self):
        return 'undef'


UND = _Undef()


class PathEnd(Exception):
    """path ended: kind in abort / throw / unreachable / memory / assume"""

    def __init__(self, kind, msg=''):
        super().__init__(kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Budget(Exception):
    pass


# ------------------------------------------------------------------ literal lifting
_lift_cache = {}


def lift(fr):
    """A double literal within one ulp of a fraction p/q, q <= 1000, denotes that fraction (declared assumption)."""
    r = _lift_cache.get(fr)
    if r is not None:
        return r
    r = fr
    d = fr.denominator
    if d > 1024 and abs(fr) < 1 << 30:
        a = abs(fr)
        c = a.limit_denominator(1000)
        if c.numerator:
            f = float(a)
            if abs(c - a) <= Fraction(math.ulp(f)):
                r = c if fr > 0 else -c
    _lift_cache[fr] = r
    return r


def bits2real(v):
    f = struct.unpack('<d', struct.pack('<Q', v & M64))[0]
    if f != f or f in (math.inf, -math.inf):
        return f
    return lift(Fraction(f))


def real2bits(v):
    if type(v) is Fraction:
        f = float(v)
    elif type(v) is float:
        f = v
    else:
        raise Unsupported('bits of a symbolic double')
    return struct.unpack('<Q', struct.pack('<d', f))[0]


class Obj:
    __slots__ = ('id', 'size', 'cells', 'default', 'name', 'mixed', 'ro', 'kind')

    def __init__(self, id, size, name='', default=None, kind='heap'):
        self.id = id
        self.size = size
        self.cells = {}
        self.default = default
        self.name = name
        self.mixed = False
        self.kind = kind

    def clone(self):
        o = Obj(self.id, self.size, self.name, self.default, self.kind)
        o.cells = dict(self.cells)
        o.mixed = self.mixed
        return o


def _kind(ty):
    k = ty.k
    if k == 'int':
        return 'i'
    if k == 'ptr':
        return 'i'
    if k == 'f64':
        return 'd'
    if k == 'f32':
        return 'f'
    if k == 'f80':
        return 'x'
    return k


class Machine:
    def __init__(self, mod, hooks=None, budget=50_000_000):
        self.mod = mod
        self.objs = {}
        self.next_id = 16
        self.gaddr = {}
        self.faddr = {}
        self.fname = {}
        self.hooks = hooks or {}
        self.cfuncs = {}
        self.budget0 = budget
        self.budget = budget
        self.ret = None
        self.base_objs = None
        self.funcs_run = set()
        self.path = None
        self.ext_used = set()
        self.track = os.environ.get('VC_TRACE')
        self.stack = []

    # ---------------------------------------------------------------- memory
    def alloc(self, size, name='', default=None, kind='heap'):
        i = self.next_id
        self.next_id += 1
        o = Obj(i, size, name, default, kind)
        self.objs[i] = o
        return i << 32

    def free(self, addr):
        if addr == 0:
            return
        if type(addr) is not int:
            raise Unsupported('free of symbolic pointer')
        if addr & 0xffffffff:
            raise PathEnd('memory', 'free of interior pointer')
        if self.objs.pop(addr >> 32, None) is None:
            raise PathEnd('memory', 'double free')

    def obj(self, addr, size, what):
        o = self.objs.get(addr >> 32)
        off = addr & 0xffffffff
        if o is None:
            raise PathEnd('memory', f'{what} of {size} bytes at invalid address {addr:#x} in {self.stack[-3:]}')
        if off + size > o.size:
            raise PathEnd('memory', f'{what} of {size} bytes at offset {off} of {o.name}[{o.size}] in {self.stack[-3:]}')
        return o, off

    def load(self, addr, size, kind):
        if addr.__class__ is not int:
            addr = self.concretize(addr)
        o = self.objs.get(addr >> 32)
        off = addr & 0xffffffff
        if o is None or off + size > o.size:
            self.obj(addr, size, 'load')
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            v = c[0]
            if kind == 'i':
                if v.__class__ is int:
                    return v
                if v.__class__ is Fraction or v.__class__ is float:
                    return v  # double moved through an integer register
                return v
            if kind == 'd':
                if v.__class__ is Fraction or v.__class__ is T:
                    if v.__class__ is T and v.s != 'r':
                        raise Unsupported('symbolic integer read as double')
                    return v
                if v.__class__ is int:
                    return bits2real(v)
                return v
            if kind == 'f':
                if v.__class__ is int:
                    f = struct.unpack('<f', struct.pack('<I', v))[0]
                    return Fraction(f) if f == f and abs(f) != math.inf else f
                return v
            return v
        return self.load_slow(o, off, size, kind)

    def load_slow(self, o, off, size, kind):
        v = 0
        cells = o.cells
        k = 0
        und = False
        while k < size:
            c = cells.get(off + k)
            if c is None:
                # covered by an earlier, larger cell?
                found = False
                for b in range(1, 16):
                    c2 = cells.get(off + k - b)
                    if c2 is not None:
                        if c2[1] > b:
                            x = self.as_int(c2[0], c2[1])
                            if x is None:
                                und = True
                            else:
                                v |= ((x >> (8 * b)) & 0xff) << (8 * k)
                            found = True
                        break
                if not found:
                    if o.default is None:
                        und = True
                    else:
                        v |= o.default << (8 * k)
                k += 1
                continue
            x = self.as_int(c[0], c[1])
            if x is None:
                und = True
            else:
                v |= x << (8 * k)
            k += c[1]
        if und:
            return UND
        v &= (1 << (8 * size)) - 1
        if kind == 'd':
            return bits2real(v)
        if kind == 'f':
            f = struct.unpack('<f', struct.pack('<I', v))[0]
            return Fraction(f)
        return v

    def as_int(self, v, size):
        if v.__class__ is int:
            return v
        if v is UND:
            return None
        if v.__class__ is Fraction or v.__class__ is float:
            return real2bits(v)
        if v.__class__ is T and v.s == 'b':
            return self.decide(v)
        raise Unsupported('partial access to a symbolic value')

    def store(self, addr, v, size):
        if addr.__class__ is not int:
            addr = self.concretize(addr)
        o = self.objs.get(addr >> 32)
        off = addr & 0xffffffff
        if o is None or off + size > o.size:
            self.obj(addr, size, 'store')
        if o.kind == 'const':
            raise PathEnd('memory', 'store to a constant ' + o.name)
        cells = o.cells
        if size == 8 and not (off & 7) and not o.mixed:
            cells[off] = (v, 8)
            return
        c = cells.get(off)
        if c is not None and c[1] == size:
            cells[off] = (v, size)
            return
        o.mixed = True
        self.clear(o, off, size)
        cells[off] = (v, size)

    def clear(self, o, off, size):
        cells = o.cells
        if size > 64 and len(cells) < size:
            ks = [k for k, c in cells.items() if k < off + size and k + c[1] > off]
        else:
            ks = []
            for k in range(max(0, off - 15), off + size):
                c = cells.get(k)
                if c is not None and k + c[1] > off:
                    ks.append(k)
        for k in ks:
            v, s = cells.pop(k)
            if k < off or k + s > off + size:
                # keep the uncovered bytes
                x = self.as_int(v, s) if v is not UND else None
                for b in range(s):
                    if not (off <= k + b < off + size):
                        cells[k + b] = ((x >> (8 * b)) & 0xff if x is not None else UND, 1)

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        if type(n) is not int:
            n = self.concretize(n)
        if type(dst) is not int:
            dst = self.concretize(dst)
        if type(src) is not int:
            src = self.concretize(src)
        so, soff = self.obj(src, n, 'memcpy read')
        do, doff = self.obj(dst, n, 'memcpy write')
        out = []
        sc = so.cells
        if n > 4096 and so.default is not None or (n > 256 and len(sc) * 4 < n):
            its = sorted((k, c) for k, c in sc.items() if k < soff + n and k + c[1] > soff) \
                if False else sorted(((k, c) for k, c in sc.items() if k < soff + n and k + c[1] > soff),
                                     key=lambda z: z[0])
            pos = 0
            for k, c in its:
                if k < soff or k + c[1] > soff + n:
                    x = self.as_int(c[0], c[1])
                    for b in range(c[1]):
                        if soff <= k + b < soff + n:
                            out.append((k + b - soff, ((x >> (8 * b)) & 0xff, 1)))
                else:
                    out.append((k - soff, c))
            fill = so.default
            if fill is not None:
                have = set()
                for k, c in out:
                    for b in range(c[1]):
                        have.add(k + b)
                k = 0
                while k < n:
                    if k not in have:
                        if k % 8 == 0 and k + 8 <= n and not any((k + b) in have for b in range(8)):
                            out.append((k, (fill * 0x0101010101010101, 8)))
                            k += 8
                            continue
                        out.append((k, (fill, 1)))
                    k += 1
        else:
            k = 0
            while k < n:
                c = sc.get(soff + k)
                if c is None:
                    if k == 0:
                        hit = False
                        for b in range(1, 16):
                            c2 = sc.get(soff - b)
                            if c2 is not None:
                                if c2[1] > b:
                                    x = self.as_int(c2[0], c2[1])
                                    while b < c2[1] and k < n:
                                        out.append((k, ((x >> (8 * b)) & 0xff, 1)))
                                        b += 1
                                        k += 1
                                    hit = True
                                break
                        if hit:
                            continue
                    if so.default is not None:
                        if (soff + k) % 8 == 0 and k + 8 <= n and not any(sc.get(soff + k + b) for b in range(1, 8)):
                            out.append((k, (so.default * 0x0101010101010101, 8)))
                            k += 8
                            continue
                        out.append((k, (so.default, 1)))
                    k += 1
                    continue
                if k + c[1] > n:
                    x = self.as_int(c[0], c[1])
                    b = 0
                    while k < n:
                        out.append((k, ((x >> (8 * b)) & 0xff if x is not None else UND, 1)))
                        b += 1
                        k += 1
                    break
                out.append((k, c))
                k += c[1]
        self.clear(do, doff, n)
        dc = do.cells
        for k, c in out:
            if c[1] != 8 or (doff + k) & 7:
                do.mixed = True
            dc[doff + k] = c

    def memset(self, dst, b, n):
        if type(n) is not int:
            n = self.concretize(n)
        if n == 0:
            return
        if type(dst) is not int:
            dst = self.concretize(dst)
        o, off = self.obj(dst, n, 'memset')
        if b is UND:
            self.clear(o, off, n)
            return
        b &= 0xff
        if off == 0 and n == o.size:
            o.cells.clear()
            o.default = b
            return
        self.clear(o, off, n)
        k = 0
        v8 = b * 0x0101010101010101
        while k < n:
            if (off + k) % 8 == 0 and n - k >= 8:
                o.cells[off + k] = (v8, 8)
                k += 8
            else:
                o.cells[off + k] = (b, 1)
                o.mixed = True
                k += 1

    def cstr(self, addr):
        out = bytearray()
        while True:
            c = self.load(addr, 1, 'i')
            if c == 0:
                return out.decode('latin1')
            if type(c) is not int or len(out) > 4000:
                return '?'
            out.append(c)
            addr += 1

    # ---------------------------------------------------------------- globals
    def addr_of(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.globals:
            ty, init = self.mod.global_def(name)
            if init is None:
                a = self.alloc(max(ty.size, 64), '@' + name, 0, 'global')
                self.gaddr[name] = a
                if name == '__libc_single_threaded':
                    self.store(a, 1, 1)
                elif name.startswith('_ZTI'):
                    nm = self.alloc(8, '@name.' + name, 0, 'global')
                    self.store(nm, 84, 1)
                    self.store(a + 8, nm, 8)
                    if self.base_objs is not None:
                        self.base_objs[nm >> 32] = self.objs[nm >> 32].clone()
                elif name in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
                    # enough of a std::ostream for inlined std::endl: virtual base at +8, a ctype facet with its tables filled
                    vt = self.alloc(64, '@vtable.' + name, 0, 'global')
                    ct = self.alloc(1024, '@ctype.' + name, 0, 'global')
                    self.store(vt + 8, 8, 8)
                    self.store(ct + 56, 1, 1)
                    self.store(a, vt + 32, 8)
                    self.store(a + 8 + 240, ct, 8)
                    if self.base_objs is not None:
                        for x in (vt, ct):
                            self.base_objs[x >> 32] = self.objs[x >> 32].clone()
            else:
                a = self.alloc(ty.size, '@' + name, None, 'global')
                self.gaddr[name] = a
                if init is not UNDEF:
                    self.init_const(a, ty, init)
            if self.base_objs is not None:
                self.base_objs[a >> 32] = self.objs[a >> 32].clone()
            return a
        # function
        a = (0x7000_0000 + len(self.faddr)) << 32
        self.gaddr[name] = a
        self.faddr[name] = a
        self.fname[a] = name
        return a

    def init_const(self, a, ty, v):
        if v is ZERO:
            o = self.objs[a >> 32]
            if (a & 0xffffffff) == 0 and o.size == ty.size:
                o.default = 0
            else:
                self.memset(a, 0, ty.size)
            return
        if v is UNDEF:
            return
        if isinstance(v, CBytes):
            o = self.objs[a >> 32]
            off = a & 0xffffffff
            for k, b in enumerate(v.b):
                o.cells[off + k] = (b, 1)
            o.mixed = True
            return
        if isinstance(v, CAgg):
            if ty.k in ('arr', 'vec'):
                for i, (et, ev) in enumerate(v.els):
                    self.init_const(a + i * ty.e.size, et, ev)
            else:
                for i, (et, ev) in enumerate(v.els):
                    self.init_const(a + ty.offs[i], et, ev)
            return
        self.store(a, self.const(ty, v), ty.size)

    def const(self, ty, v):
        if v.__class__ is int:
            return v
        if v.__class__ is Fraction:
            return lift(v)
        if v.__class__ is float:
            return v
        if v is ZERO:
            return self.zero(ty)
        if v is UNDEF:
            return self.undef(ty)
        if isinstance(v, GlobalRef):
            return self.addr_of(v.name)
        if isinstance(v, CAgg):
            return tuple(self.const(t, x) for t, x in v.els)
        if isinstance(v, CBytes):
            return tuple(v.b)
        if isinstance(v, CExpr):
            if v.op == 'gep':
                bt, args = v.args
                base = self.const(PTR, args[0][1])
                off = 0
                t = bt
                for n, (it, iv) in enumerate(args[1:]):
                    c = self.const(it, iv)
                    c = c - (1 << it.w) if c >> (it.w - 1) else c
                    if n == 0:
                        off += c * t.size
                    elif t.k == 'st':
                        off += t.offs[c]
                        t = t.els[c]
                    else:
                        off += c * t.e.size
                        t = t.e
                return (base + off) & M64
            if v.op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(v.args[0], v.args[1])
            if v.op == 'trunc':
                return self.const(v.args[0], v.args[1]) & ((1 << v.ty.w) - 1)
            if v.op == 'icmp':
                pr, at, a, b = v.args
                return icmp(pr, at.w or 64, self.const(at, a), self.const(at, b))
            at, a, b = v.args
            return iop(v.op, at.w, self.const(at, a), self.const(at, b))
        raise Unsupported('const %r' % (v,))

    def zero(self, ty):
        if ty.k in ('f64', 'f32', 'f80'):
            return F0
        if ty.k in ('arr', 'vec'):
            return tuple(self.zero(ty.e) for _ in range(ty.n))
        if ty.k == 'st':
            return tuple(self.zero(t) for t in ty.els)
        return 0

    def undef(self, ty):
        if ty.k in ('arr', 'vec'):
            return tuple(self.undef(ty.e) for _ in range(ty.n))
        if ty.k == 'st':
            return tuple(self.undef(t) for t in ty.els)
        return UND

    def load_ty(self, addr, ty):
        k = ty.k
        if k == 'st':
            return tuple(self.load_ty(addr + o, t) for o, t in zip(ty.offs, ty.els))
        if k in ('arr', 'vec'):
            return tuple(self.load_ty(addr + i * ty.e.size, ty.e) for i in range(ty.n))
        return self.load(addr, ty.size, _kind(ty))

    def store_ty(self, addr, v, ty):
        k = ty.k
        if k == 'st':
            for o, t, x in zip(ty.offs, ty.els, v):
                self.store_ty(addr + o, x, t)
            return
        if k in ('arr', 'vec'):
            for i in range(ty.n):
                self.store_ty(addr + i * ty.e.size, v[i], ty.e)
            return
        self.store(addr, v, ty.size)

    # ---------------------------------------------------------------- paths
    def snapshot(self):
        self.base_objs = {k: o.clone() for k, o in self.objs.items()}

    def restore(self):
        self.objs = {k: o.clone() for k, o in self.base_objs.items()}
        self.stack = []
        self.ret = None

    # ---------------------------------------------------------------- decisions
    def decide(self, c):
        if c.__class__ is int:
            return c
        if c is UND:
            raise Unsupported('branch on an undefined value in ' + (self.stack[-1] if self.stack else '?'))
        if type(c) is not T:
            raise Unsupported('branch on %r' % (c,))
        return self.path.decide(c)

    def concretize(self, v):
        if v is UND:
            raise Unsupported('use of an undefined value as address or size in ' + (self.stack[-1] if self.stack else '?'))
        if v.__class__ is int:
            return v
        if type(v) is not T:
            raise Unsupported('address %r' % (v,))
        return self.path.concretize(v)

    # ---------------------------------------------------------------- calls
    def call_ptr(self, p, args):
        if p.__class__ is not int:
            p = self.concretize(p)
        nm = self.fname.get(p)
        if nm is None:
            raise PathEnd('memory', 'call through an invalid function pointer %#x' % p)
        return self.call(nm, args)

    def call(self, name, args):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args)
        f = self.mod.func(name)
        if f is None:
            return self.external(name, args)
        return self.run(f, args)

    def external(self, name, args):
        from . import builtins as bi
        h = bi.lookup(name)
        if h is None:
            raise Unsupported('external function ' + name + ' called from ' + (self.stack[-1] if self.stack else '?'))
        self.ext_used.add(name)
        return h(self, args)

    def run(self, f, args):
        cf = f.compiled
        if cf is None:
            from .codegen import compile_function
            cf = compile_function(self, f)
            f.compiled = cf
        self.funcs_run.add(f.name)
        self.stack.append(f.name)
        if len(self.stack) > 900:
            raise Unsupported('call depth')
        R = [None] * cf.nregs
        for i, a in enumerate(args[:cf.nparams]):
            R[i] = a
        R[cf.nregs - 1] = []  # allocas
        if len(args) > cf.nparams:
            R[cf.nregs - 2] = args[cf.nparams:]
        blocks = cf.blocks
        b = 0
        prev = -1
        n = 0
        while True:
            nx = blocks[b](self, R, prev)
            n += 1
            if nx < 0:
                break
            prev = b
            b = nx
            if n > 100000:
                self.budget -= n
                n = 0
                if self.budget < 0:
                    raise Budget('block budget')
                self.path.tick()
        self.budget -= n
        if self.budget < 0:
            raise Budget('block budget')
        for a in R[cf.nregs - 1]:
            self.objs.pop(a >> 32, None)
        self.stack.pop()
        r = self.ret
        self.ret = None
        return r
