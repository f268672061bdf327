"""Contract driver: path enumeration, verification-condition generation and discharge."""
import os
import re
import sys
import time
from fractions import Fraction

import numpy as np

from . import irparse, machine, smt, numeval, algebra, diff
from . import poly as pl
from . import terms as tm
from . import builtins as bi
from .terms import T, Unsupported, F0, F1, rsub, rcmp, bnot, band, bor, icmp, rabs, radd, rmul
from .machine import Machine, PathEnd, Budget, UND
from .algebra import Case, Ctx, NeedSplit, Domain, Timeout, TooBig, S_ALL, S_NEG, S_POS, S_ZERO, S_NN, S_NP


class Path:
    fork_select = False
    bool_terms = True
    int_ite = True

    def __init__(self, eng, script):
        self.eng = eng
        self.script = script
        self.pos = 0
        self.conds = []
        self.known = {}
        self.mask = np.ones(eng.S.n, dtype=bool)
        self.inputs = {}
        self.enums = []
        self._case = None
        self._case_n = 0
        self.unsure = False

    def tick(self):
        if time.time() > self.eng.deadline:
            raise Budget('time')

    def learn(self, c):
        self.conds.append(c)
        self.known[c.id] = 1
        n = bnot(c)
        if type(n) is T:
            self.known[n.id] = 0
        self.mask = self.mask & self.eng.S.ev(c)
        if c.op == 'and':
            for x in c.a:
                if type(x) is T:
                    self.known[x.id] = 1
        if c.op == 'not' and c.a[0].op == 'or':
            for x in c.a[0].a:
                if type(x) is T:
                    self.known[x.id] = 0

    def case_abst(self, k):
        """as case(), with sub-expressions of more than k terms abstracted"""
        C = Case(self.eng.ctx)
        C.abst = k if k > 0 else 0
        C.maxatom = k < 0
        C.deadline = time.time() + 5
        for c in self.conds:
            try:
                assume_cond(C, c, 1)
            except (NeedSplit, TooBig, Domain, Timeout, KeyError):
                pass
        return C

    def case(self):
        """algebraic case containing the sign facts of the path condition"""
        if self._case is None:
            self._case = Case(self.eng.ctx)
            self._case_n = 0
        C = self._case
        C.deadline = time.time() + 5
        while self._case_n < len(self.conds):
            c = self.conds[self._case_n]
            self._case_n += 1
            try:
                assume_cond(C, c, 1)
            except (NeedSplit, TooBig, Domain, Timeout, KeyError):
                pass
        return C

    def decide(self, c):
        if self.eng.hvars:
            for h in self.eng.hvars:
                c = diff.subst(c, h, F0)
            if type(c) is not T:
                return c
        k = self.known.get(c.id)
        if k is not None:
            return k
        if self.pos < len(self.script):
            d = self.script[self.pos]
            self.pos += 1
            self.learn(c if d else bnot(c))
            return d
        self.tick()
        v = self.eng.S.ev(c)
        t = bool((self.mask & v).any())
        f = bool((self.mask & ~v).any())
        if not (t and f):
            t, f = self.eng.feasible(self, c, t, f)
        if t and f:
            self.eng.work.append(self.script + [0])
            if len(self.eng.work) + self.eng.npaths > self.eng.max_paths:
                raise Budget('paths')
            d = 1
        elif t:
            d = 1
        elif f:
            d = 0
        else:
            raise PathEnd('assume', 'infeasible')
        self.script = self.script + [d]
        self.pos += 1
        self.learn(c if d else bnot(c))
        return d

    def choose(self, lo, hi):
        """enumerated choice"""
        if self.pos < len(self.script):
            d = self.script[self.pos]
            self.pos += 1
            return d
        for v in range(hi, lo, -1):
            self.eng.work.append(self.script + [v])
        self.script = self.script + [lo]
        self.pos += 1
        return lo

    def concretize(self, t):
        for n in range(300):
            vals = self.eng.S.ev(t)
            m = self.mask
            cand = None
            for i in range(self.eng.S.n):
                if m[i]:
                    cand = vals[i]
                    break
            # deterministic order: smallest witnessed value
            ws = [vals[i] for i in range(self.eng.S.n) if m[i]]
            if ws:
                cand = min(ws)
            else:
                r, mod = smt.check(self.conds, 2000)
                if r == 'unsat':
                    raise PathEnd('assume', 'infeasible')
                if r != 'sat':
                    raise Unsupported('cannot enumerate a symbolic address')
                self.eng.inject(self, mod)
                continue
            if self.decide(icmp('eq', t.s, t, cand)):
                return cand
        raise Unsupported('symbolic address with too many values')

    def switch(self, M, s, cases, w):
        for v in cases:
            if self.decide(icmp('eq', w, s, v)):
                return v
        return -1

    def assume(self, c):
        if type(c) is not T:
            if not c:
                raise PathEnd('assume', 'false')
            return
        k = self.known.get(c.id)
        if k == 1:
            return
        if k == 0:
            raise PathEnd('assume', 'contradiction')
        if c.op == 'and':
            self.assume(c.a[0])
            self.assume(c.a[1])
            return
        self.learn(c)
        if not self.mask.any():
            r, mod = smt.check(self.conds, 3000)
            if r == 'unsat':
                raise PathEnd('assume', 'infeasible')
            if r == 'sat':
                self.eng.inject(self, mod)


def assume_cond(C, c, val):
    """add the truth of a boolean term to an algebraic case"""
    if type(c) is not T:
        return
    C.basg[c.id] = val
    op = c.op
    if op == 'not':
        return assume_cond(C, c.a[0], 1 - val)
    if op == 'and' and val or op == 'or' and not val:
        assume_cond(C, c.a[0], val)
        assume_cond(C, c.a[1], val)
        return
    if op in ('lt', 'le', 'eq'):
        r = C.radd(C.norm(c.a[0]), C.norm(c.a[1]), -1)
        p = C.rsign_poly(r)
        if not p.d:
            return
        if op == 'lt':
            s = S_NEG if val else S_NN
        elif op == 'le':
            s = S_NP if val else S_POS
        else:
            s = S_ZERO if val else frozenset((-1, 1))
        C.assume_sign(p, s)


def poly_np(eng, p):
    """numeric values of a polynomial over the samples"""
    S = eng.S
    tot = np.zeros(S.n, dtype=numeval.LD)
    for k, v in p.d.items():
        m = numeval._ld(Fraction(v, p.c))
        for i, e in pl.mono_items(k):
            m = m * atom_np(eng, i) ** e
        tot = tot + m
    return tot


def atom_np(eng, i):
    c = eng.atom_cache.get(i)
    if c is not None:
        return c
    kind, pay = eng.ctx.atoms[i]
    with np.errstate(all='ignore'):
        if kind == 'var':
            r = eng.S.ev(pay)
        elif kind == 'term':
            r = eng.S.ev(pay)
        elif kind == 'sqrt':
            r = np.sqrt(rat_np(eng, pay))
        elif kind == 'abs':
            r = np.abs(rat_np(eng, pay[0]))
        elif kind == 'big':
            r = rat_np(eng, pay)
        elif kind == 'sin':
            r = np.sin(rat_np(eng, pay))
        elif kind == 'cos':
            r = np.cos(rat_np(eng, pay))
        elif kind in ('minatom', 'maxatom', 'rminatom', 'rmaxatom'):
            r = (np.minimum if 'min' in kind else np.maximum)(rat_np(eng, pay[0]), rat_np(eng, pay[1]))
        else:
            name, a = pay
            a = [rat_np(eng, x) for x in a]
            if name == 'pow':
                r = np.power(a[0], a[1])
            else:
                r = getattr(np, name)(*a)
    eng.atom_cache[i] = r
    return r


def rat_np(eng, r):
    v = poly_np(eng, r.n)
    for f, e in r.d.items():
        v = v / poly_np(eng, eng.ctx.factors[f]) ** e
    return v


def poly_term(eng, p):
    """polynomial -> term (for the SMT back end)"""
    tot = F0
    for k, v in p.d.items():
        m = Fraction(v, p.c)
        for i, e in pl.mono_items(k):
            a = atom_term(eng, i)
            for _ in range(e):
                m = rmul(m, a)
        tot = radd(tot, m)
    return tot


def atom_term(eng, i):
    kind, pay = eng.ctx.atoms[i]
    if kind in ('var', 'term'):
        return pay
    if kind == 'big':
        d = ONE_
        for f, e in pay.d.items():
            for _ in range(e):
                d = pl.pmul(d, eng.ctx.factors[f])
        return tm.rdiv(poly_term(eng, pay.n), poly_term(eng, d))
    t = tm.var('_atom%d' % i)
    return t


def atom_sides(eng, p, seen, out):
    """defining constraints of the atoms of p as terms"""
    for i in pl.vars_of(p):
        if i in seen:
            continue
        seen.add(i)
        kind, pay = eng.ctx.atoms[i]
        if kind == 'big':
            atom_sides(eng, pay.n, seen, out)
            for f in pay.d:
                atom_sides(eng, eng.ctx.factors[f], seen, out)
        if kind in ('sqrt', 'abs'):
            R = pay if kind == 'sqrt' else pay[0]
            t = atom_term(eng, i)
            out.append(rcmp('le', F0, t))
            n, d = R.n, ONE_
            for f, e in R.d.items():
                for _ in range(e):
                    d = pl.pmul(d, eng.ctx.factors[f])
            nt, dt = poly_term(eng, n), poly_term(eng, d)
            if kind == 'sqrt':
                out.append(rcmp('eq', rmul(rmul(t, t), dt), nt))
            else:
                out.append(rcmp('eq', rmul(rmul(t, t), rmul(dt, dt)), rmul(nt, nt)))
            atom_sides(eng, n, seen, out)
            atom_sides(eng, d, seen, out)


ONE_ = pl.ONE


class Engine:
    def __init__(self, mod, seed=1, nsamples=96, opts=None):
        self.mod = mod
        self.seed = seed
        self.opts = dict(max_paths=4000, contract_time=300.0, smt_ms=4000, abst_feasible=True, zero_time=60.0, abst=((30, 4.0), (-1, 4.0), (12, 8.0), (0, 4.0), (20, 20.0), (45, 20.0), (80, 20.0), (0, 60.0)), leaf_time=30.0)
        self.opts.update(opts or {})
        self.nsamples = nsamples
        self.M = Machine(mod, self.make_hooks(), budget=400_000_000)
        self.M.path = Path0()
        self.ctor_notes = []
        self.run_ctors()

    # ------------------------------------------------------------ setup
    def run_ctors(self):
        M = self.M
        if 'llvm.global_ctors' in self.mod.globals:
            ty, init = self.mod.global_def('llvm.global_ctors')
            els = getattr(init, 'els', [])
            for et, ev in els:
                f = ev.els[1][1]
                try:
                    M.stack = []
                    M.call(f.name, ())
                except (PathEnd, Unsupported, Budget, KeyError, TypeError) as e:
                    self.ctor_notes.append('%s: %s' % (f.name, e))
        M.snapshot()

    def make_hooks(self):
        H = {}
        eng = self

        def nm(M, p, i, j):
            s = M.cstr(p)
            i = tm._s(i, 32)
            j = tm._s(j, 32)
            if i >= 0:
                s += '_%d' % i
            if j >= 0:
                s += '_%d' % j
            return s

        def real(M, a):
            n = nm(M, a[0], a[1], a[2])
            lo, hi = float(a[3]), float(a[4])
            eng.S.declare_real(n, lo, hi)
            t = tm.var(n)
            eng.path.inputs[n] = ('real', t)
            return t

        def int_(M, a):
            n = nm(M, a[0], a[1], a[2])
            lo, hi = tm._s(a[3], 64), tm._s(a[4], 64)
            if lo == hi:
                return lo & machine.M64
            eng.S.declare_int(n, lo, hi, 64)
            t = tm.ivar(n, 64)
            eng.path.inputs[n] = ('int', t)
            eng.path.assume(icmp('sle', 64, lo & machine.M64, t))
            eng.path.assume(icmp('sle', 64, t, hi & machine.M64))
            return t

        def enum(M, a):
            n = nm(M, a[0], a[1], a[2])
            lo, hi = tm._s(a[3], 64), tm._s(a[4], 64)
            if hi < lo:
                raise PathEnd('assume', 'empty enumeration')
            v = eng.path.choose(lo, hi)
            eng.path.inputs[n] = ('enum', v)
            return v & machine.M64

        def unit(M, a):
            n = M.cstr(a[0])
            dim = a[2]
            names = ['%s_%d' % (n, k) for k in range(dim)]
            eng.S.declare_unit(names)
            ts = []
            for k, x in enumerate(names):
                t = tm.var(x)
                ts.append(t)
                eng.path.inputs[x] = ('real', t)
                M.store(a[1] + 8 * k, t, 8)
            # relation for the algebraic back end
            if (tuple(names), tuple(ts)) not in eng.units:
                eng.units.append((tuple(names), tuple(ts)))
            eng.add_unit(names, ts)
            s = F0
            for t in ts:
                s = radd(s, rmul(t, t))
            c = rcmp('eq', s, F1)
            eng.path.conds.append(c)
            eng.path.known[c.id] = 1

        def assume(M, a):
            c = a[0]
            if c is UND:
                raise Unsupported('assume of undefined value')
            eng.path.assume(c)

        def assert_(M, a):
            eng.oblige_bool(a[0], nm(M, a[1], a[2], a[3]))

        def eq(M, a):
            x, y = a[0], a[1]
            eng.oblige_eq(x, y, a[2], nm(M, a[3], a[4], a[5]))

        def le(M, a):
            eng.oblige_le(a[0], a[1], a[2], nm(M, a[3], a[4], a[5]))

        def ieq(M, a):
            x, y = a[0], a[1]
            n = nm(M, a[2], a[3], a[4])
            if x is UND or y is UND:
                eng.oblige_bool(UND, n)
            else:
                eng.oblige_bool(icmp('eq', 64, x, y), n)

        def sym(M, a):
            return 1

        def dif(M, a):
            if a[0] is UND:
                return UND
            return diff.D(a[0], a[1])

        def dir_(M, a):
            """d/dh f(h) at h = 0"""
            h = tm.var('_h%d' % len(eng.hvars))
            eng.S.declare_real('_h%d' % len(eng.hvars), -1e-3, 1e-3)
            eng.hvars.append(h)
            try:
                v = M.call_ptr(a[0], (a[1], h))
            finally:
                eng.hvars.pop()
            if v is UND:
                return UND
            return diff.subst(diff.D(v, h), h, F0)

        def try_(M, a):
            depth = len(M.stack)
            try:
                M.call_ptr(a[0], (a[1],))
                return 0
            except PathEnd as e:
                if e.kind in ('abort', 'throw'):
                    del M.stack[depth:]
                    return 1
                raise

        def suspendable(M, a):
            depth = len(M.stack)
            try:
                M.call_ptr(a[0], (a[1],))
                return 0
            except PathEnd as e:
                if e.kind == 'suspend':
                    del M.stack[depth:]
                    return 1
                raise

        def suspend(M, a):
            raise PathEnd('suspend', 'process blocked')

        def lit(M, a):
            """exact rational p/q"""
            return Fraction(tm._s(a[0], 64), tm._s(a[1], 64))

        def split(M, a):
            """case distinction of the proof (no effect on the code)"""
            if type(a[0]) is T:
                return int(bool(eng.path.decide(a[0])))
            return a[0]

        def isconst(M, a):
            return 0 if type(a[0]) is T or a[0] is UND else 1

        def reach(M, a):
            eng.reached.add(nm(M, a[0], a[1], a[2]))

        def defined(M, a):
            n = nm(M, a[1], a[2], a[3])
            eng.record(n, 'proved' if a[0] is not UND else 'refuted', 'definedness')
            return a[0]

        H.update({'__vc_real': real, '__vc_int': int_, '__vc_enum': enum, '__vc_unit': unit, '__vc_assume': assume,
                  '__vc_assert': assert_, '__vc_eq': eq, '__vc_le': le, '__vc_ieq': ieq, '__vc_symbolic': sym,
                  '__vc_diff': dif, '__vc_dir': dir_, '__vc_try': try_, '__vc_suspendable': suspendable, '__vc_suspend': suspend, '__vc_lit': lit, '__vc_reach': reach, '__vc_isconst': isconst, '__vc_split': split})
        from . import contracts_ext
        contracts_ext.install(self, H)
        return H

    def add_unit(self, names, ts):
        idx = [self.ctx.atom('var', x, t) for x, t in zip(names, ts)]
        if idx[-1] not in self.ctx.rel:
            p = pl.ONE
            for i in idx[:-1]:
                p = pl.psub(p, pl.pmul(pl.pvar(i), pl.pvar(i)))
            self.ctx.rel[idx[-1]] = algebra.Rat(p)

    def push_ctx(self):
        sv = (self.ctx, self.atom_cache, self.infmemo)
        self.ctx, self.atom_cache, self.infmemo = Ctx(), {}, {}
        for n, t in self.units:
            self.add_unit(n, t)
        return sv

    def pop_ctx(self, sv):
        self.ctx, self.atom_cache, self.infmemo = sv

    # ------------------------------------------------------------ contract run
    def contract(self, name):
        tm.reset()
        diff.reset()
        machine._lift_cache.clear()
        self.hvars = []
        self.infmemo = {}
        self.units = []
        self.S = numeval.Samples(self.nsamples, self.seed)
        self.ctx = Ctx()
        self.atom_cache = {}
        self.obls = []
        self.pcache = {}
        self.work = [[]]
        self.npaths = 0
        self.max_paths = self.opts['max_paths']
        self.deadline = time.time() + self.opts['contract_time']
        self.M.budget = self.M.budget0
        self.reached = set()
        self.refutations = []
        self.M.funcs_run = set()
        self.M.ext_used = set()
        self.ends = {}
        self.error = None
        self.cname = name
        self.witnessed = 0
        self.ninj = 0
        t0 = time.time()
        z0 = dict(smt.STATS)
        while self.work:
            if time.time() > self.deadline:
                self.error = 'time budget'
                break
            if len(self.refutations) >= 3:
                break
            script = self.work.pop()
            self.path = Path(self, script)
            self.M.path = self.path
            self.M.restore()
            self.npaths += 1
            kind = 'ok'
            try:
                self.M.call(name, ())
            except PathEnd as e:
                kind = e.kind
                if kind in ('abort', 'throw', 'memory', 'unreachable'):
                    self.path_failure(kind, e.msg)
            except Budget as e:
                self.error = 'budget: %s' % e
                break
            except Unsupported as e:
                self.error = 'unsupported: %s' % e
                kind = 'unsupported'
                if os.environ.get('VC_DEBUG'):
                    import traceback
                    traceback.print_exc()
                    print('STACK', self.M.stack[-6:])
                break
            except RecursionError:
                self.error = 'recursion'
                break
            self.ends[kind] = self.ends.get(kind, 0) + 1
        res = dict(contract=name, paths=self.npaths, ends=self.ends, error=self.error, time=time.time() - t0,
                   obls=self.obls, refutations=self.refutations, funcs=sorted(self.M.funcs_run),
                   ext=sorted(self.M.ext_used), reached=sorted(self.reached), witnessed=self.witnessed,
                   z3_calls=smt.STATS['z3_calls'] - z0['z3_calls'], z3_time=smt.STATS['z3_time'] - z0['z3_time'],
                   rounded=tm.ROUNDED[0])
        return res

    def inject(self, path, model):
        """make a solver model a sample point"""
        self.ninj += 1
        j = self.S.n - 1 - (self.ninj % 16)
        self.S.inject(j, model)
        self.atom_cache.clear()
        m = np.ones(self.S.n, dtype=bool)
        for c in path.conds:
            m &= self.S.ev(c)
        # a model is exact; rounding may make equalities fail numerically: keep it
        path.mask = m

    def feasible(self, path, c, t, f):
        """refine (t,f): which outcomes of c are feasible on this path"""
        n = bnot(c)
        # algebraic quick decision
        if c.op in ('lt', 'le', 'eq', 'not', 'and', 'or'):
            try:
                C = path.case()
                C.deadline = time.time() + 3
                v = C.cond(c)
                return (True, False) if v else (False, True)
            except (NeedSplit, TooBig, Domain, Timeout, KeyError):
                pass
            if self.opts['abst_feasible']:
                for k in (30, -1, 12):
                    sv = self.push_ctx()
                    try:
                        C = path.case_abst(k)
                        C.deadline = time.time() + 2
                        v = C.cond(c)
                        return (True, False) if v else (False, True)
                    except (NeedSplit, TooBig, Domain, Timeout, KeyError):
                        pass
                    finally:
                        self.pop_ctx(sv)
        for want, cc in ((0, n), (1, c)):
            have = t if want else f
            if have:
                continue
            r, mod = smt.check(path.conds + [cc], self.opts['smt_ms'] if not (t or f) else min(self.opts['smt_ms'], 1500))
            if r == 'unsat':
                ok = False
            else:
                ok = True
                if r == 'sat':
                    self.inject(path, mod)
                else:
                    path.unsure = True
            if want:
                t = ok
            else:
                f = ok
        return t, f

    # ------------------------------------------------------------ obligations
    def record(self, name, status, backend, info=None, witness=None, dt=0.0):
        self.obls.append((name, status, backend, round(dt, 4)))
        if status == 'refuted':
            self.refutations.append(dict(name=name, backend=backend, info=info, inputs=witness))
        elif status == 'undecided':
            pass
        if self.path.mask.any():
            self.witnessed += 1

    def witness(self, j):
        out = {}
        for n, (k, t) in self.path.inputs.items():
            if k == 'enum':
                out[n] = ('enum', t)
            elif k == 'int':
                v = self.S.ev(t)[j]
                out[n] = ('int', tm._s(v, 64))
            else:
                out[n] = ('real', float(self.S.ev(t)[j]))
        return out

    def path_failure(self, kind, msg):
        name = 'no-' + kind
        if self.path.mask.any():
            j = int(np.argmax(self.path.mask))
            self.record(name, 'refuted', 'path', msg, self.witness(j))
            return
        r, mod = smt.check(self.path.conds, 3 * self.opts['smt_ms'])
        if r == 'unsat':
            return
        if r == 'sat':
            self.inject(self.path, mod)
            if not self.path.mask.any():
                self.path.mask[self.S.n - 1 - (self.ninj % 16)] = True
            j = int(np.argmax(self.path.mask))
            self.record(name, 'refuted', 'path+z3', msg, self.witness(j))
        else:
            self.record(name, 'undecided', 'path', msg)

    def oblige_eq(self, x, y, tol, name):
        t0 = time.time()
        if x is UND or y is UND:
            j = int(np.argmax(self.path.mask))
            self.record(name, 'refuted', 'undef', 'value read from uninitialised memory', self.witness(j))
            return
        if type(x) is float or type(y) is float:
            ok = (x == y)
            j = int(np.argmax(self.path.mask))
            if ok:
                self.record(name, 'proved', 'concrete')
            else:
                self.record(name, 'refuted', 'concrete', 'non-finite value %r vs %r' % (x, y), self.witness(j))
            return
        d = rsub(x, y)
        if type(d) is not T:
            sc = 1 + abs(x) if type(x) is Fraction else 1
            ok = abs(d) <= tol * sc
            if ok:
                self.record(name, 'proved', 'concrete', dt=time.time() - t0)
            else:
                j = int(np.argmax(self.path.mask))
                self.record(name, 'refuted', 'concrete', '%r vs %r' % (float(x) if type(x) is Fraction else x, float(y) if type(y) is Fraction else y),
                            self.witness(j))
            return
        key = ('eq', d.id, tol)
        st, be, info, wit = self.prove_zero(x, y, d, tol)
        self.record(name, st, be, info, wit, time.time() - t0)

    def prove_zero(self, x, y, d, tol):
        path = self.path
        vx, vy = self.S.ev(x), self.S.ev(y)
        with np.errstate(all='ignore'):
            dv = np.abs(vx - vy)
            sc = 1 + np.abs(vx) + np.abs(vy)
            bad = (dv > (1e-7 + 4 * float(tol)) * sc) & np.broadcast_to(np.isfinite(dv), path.mask.shape) & path.mask
        if bad.any():
            # worst relative
            r = np.where(bad, dv / sc, 0)
            j = int(np.argmax(r))
            return 'refuted', 'numeric', 'lhs=%r rhs=%r' % (float(_at(vx, j)), float(_at(vy, j))), self.witness(j)
        zt = self.opts['zero_time']
        r = None
        sched = self.opts['abst'] if tol == 0 else ((0, zt),)
        if self.refutations:
            sched = sched[:1]      # already refuted: do not spend time on the rest
        for k, lim in sched:
            self.case_deadline = time.time() + lim
            sv = self.push_ctx() if k else None
            try:
                C = path.case_abst(k) if k else path.case().child()
                C.deadline = self.case_deadline
                r = self.split_zero(C, d, tol, path.mask.copy(), 0)
            except (TooBig, Timeout):
                r = ('undecided', 'normal form too large')
            finally:
                if sv:
                    self.pop_ctx(sv)
            if r[0] == 'proved':
                return 'proved', r[1], None, None
        # probabilistic identity testing as a separate, labelled back end
        return 'undecided', 'algebra', r[1], None

    def split_zero(self, C, d, tol, mask, depth):
        """prove d == 0 in case C. returns ('proved', backend) or ('undecided', why)"""
        if time.time() > self.case_deadline:
            raise Timeout()
        try:
            r = C.norm(d)
        except NeedSplit as e:
            return self.branch(C, e, mask, depth, lambda C2, m2: self.split_zero(C2, d, tol, m2, depth + 1))
        except Domain:
            return ('proved', 'domain')   # the term is undefined in this case; definedness is a separate concern
        if r.n.iszero():
            return ('proved', 'algebra' if depth == 0 else 'algebra-cases')
        if tol > 0:
            den = 1
            ok = True
            for v in r.n.d.values():
                if abs(Fraction(v, r.n.c)) > tol:
                    ok = False
                    break
            if ok and not r.d:
                return ('proved', 'algebra-tol')
        # remaining absolute values: split on their sign
        for i in sorted(pl.vars_of(r.n), reverse=True):
            kind, pay = C.ctx.atoms[i]
            if kind == 'abs':
                p = pay[1]
                if len(C.psign(p)) > 1:
                    return self.branch(C, NeedSplit('sign', p), mask, depth,
                                       lambda C2, m2: self.split_zero(C2, d, tol, m2, depth + 1), fresh=True)
        # facts P = 0 of the case
        for k, s in list(C.asg.items()):
            if s == S_ZERO and k in C.polys:
                c2 = C.substitute_zero(C.polys[k])
                if c2 is not None:
                    del c2.asg[k]
                    return self.split_zero(c2, d, tol, mask, depth + 1)
                q = pl.pdivexact(r.n, C.polys[k])
                if q is not None:
                    return ('proved', 'algebra-cases')
        if not mask.any() and self.case_infeasible(C):
            return ('proved', 'infeasible-case')
        return ('undecided', 'normal form has %d terms' % len(r.n.d))

    def branch(self, C, e, mask, depth, cont, fresh=False):
        if depth > 40:
            return ('undecided', 'case depth')
        be = 'algebra-cases'
        if e.kind == 'sign':
            p = e.x
            poss = C.psign(p)
            with np.errstate(all='ignore'):
                v = poly_np(self, p)
            for s in (1, -1, 0):
                if s not in poss:
                    continue
                m2 = mask & (np.sign(v) == s)
                C2 = C.child()
                if fresh:
                    C2.memo = {}
                if s == 0:
                    C3 = C2.substitute_zero(p)
                    if C3 is not None:
                        C2 = C3
                C2.assume_sign(p, frozenset((s,)))
                if not m2.any() and self.cheap_infeasible(C2):
                    continue
                r = cont(C2, m2)
                if r[0] != 'proved':
                    if not m2.any() and self.case_infeasible(C2):
                        continue
                    return r
            return ('proved', be)
        c = e.x
        v = self.S.ev(c)
        for b in (1, 0):
            C2 = C.child()
            C2.basg[c.id] = b
            m2 = mask & (v if b else ~v)
            if not m2.any() and self.cheap_infeasible(C2):
                continue
            r = cont(C2, m2)
            if r[0] != 'proved':
                if not m2.any() and self.case_infeasible(C2):
                    continue
                return r
        return ('proved', be)

    def case_terms(self, C):
        out = list(self.path.conds)
        seen = set()
        for k, s in C.asg.items():
            p = C.polys.get(k)
            if p is None or s == S_ALL or len(p.d) > 400:
                continue
            t = poly_term(self, p)
            atom_sides(self, p, seen, out)
            if s == S_POS:
                out.append(rcmp('lt', F0, t))
            elif s == S_NEG:
                out.append(rcmp('lt', t, F0))
            elif s == S_ZERO:
                out.append(rcmp('eq', t, F0))
            elif s == S_NN:
                out.append(rcmp('le', F0, t))
            elif s == S_NP:
                out.append(rcmp('le', t, F0))
            elif 0 not in s:
                out.append(bnot(rcmp('eq', t, F0)))
        for tid, b in C.basg.items():
            t = tm.LIST[tid]
            out.append(t if b else bnot(t))
        return out

    def cheap_infeasible(self, C):
        for s in C.asg.values():
            if not s:
                return True
        fs = []
        for k, s in C.asg.items():
            p = C.polys.get(k)
            if p is not None and s != S_ALL and len(p.d) <= 24:
                fs.append((k, s, p))
        key = tuple(sorted((k, tuple(sorted(s))) for k, s, p in fs))
        r = self.infmemo.get(key)
        if r is None:
            r = smt.poly_unsat([(p, s) for k, s, p in fs], self.ctx, 300) == 'unsat'
            self.infmemo[key] = r
        return r

    def case_infeasible(self, C, extra=None):
        for s in C.asg.values():
            if not s:
                return True
        # a path fact that evaluates to false in this case
        for c in self.path.conds:
            try:
                if self.fact_false(C, c, 1):
                    return True
            except (NeedSplit, TooBig, Domain, Timeout, KeyError):
                pass
        r, _ = smt.check(self.case_terms(C), 1500)
        return r == 'unsat'

    def fact_false(self, C, c, val):
        if type(c) is not T:
            return bool(c) != bool(val)
        if c.op == 'not':
            return self.fact_false(C, c.a[0], 1 - val)
        if c.op == 'and' and val or c.op == 'or' and not val:
            return self.fact_false(C, c.a[0], val) or self.fact_false(C, c.a[1], val)
        if c.op in ('lt', 'le', 'eq'):
            b = C.basg.pop(c.id, None)
            try:
                v = C.cond(c)
            finally:
                if b is not None:
                    C.basg[c.id] = b
            return v != val
        return False

    def oblige_le(self, x, y, tol, name):
        t0 = time.time()
        if x is UND or y is UND:
            self.record(name, 'refuted', 'undef', 'uninitialised', self.witness(int(np.argmax(self.path.mask))))
            return
        if type(x) is not T and type(y) is not T:
            if x <= y + tol * (1 + abs(y)):
                self.record(name, 'proved', 'concrete')
            else:
                self.record(name, 'refuted', 'concrete', '%r > %r' % (float(x), float(y)), self.witness(int(np.argmax(self.path.mask))))
            return
        vx, vy = self.S.ev(x), self.S.ev(y)
        with np.errstate(all='ignore'):
            dv = vx - vy
            sc = 1 + np.abs(vx) + np.abs(vy)
            bad = (dv > (1e-9 + 4 * float(tol)) * sc) & np.broadcast_to(np.isfinite(dv), self.path.mask.shape) & self.path.mask
        if bad.any():
            r = np.where(bad, dv / sc, 0)
            j = int(np.argmax(r))
            self.record(name, 'refuted', 'numeric', 'lhs=%r > rhs=%r' % (float(_at(vx, j)), float(_at(vy, j))), self.witness(j))
            return
        c = rcmp('le', x, y if not tol else radd(y, tol))
        if type(c) is not T:
            if c:
                self.record(name, 'proved', 'concrete', dt=time.time() - t0)
            else:
                self.path_false(name)
            return
        self.bool_goal(c, name, t0, numeric=False)

    def oblige_bool(self, c, name):
        t0 = time.time()
        if c is UND:
            self.record(name, 'refuted', 'undef', 'assertion on uninitialised value', self.witness(int(np.argmax(self.path.mask))))
            return
        if type(c) is not T:
            if c:
                self.record(name, 'proved', 'concrete')
            else:
                self.path_false(name)
            return
        self.bool_goal(c, name, t0, numeric=True)

    def path_false(self, name):
        """assertion is the constant false on this path: refuted iff the path is feasible"""
        if self.path.mask.any():
            self.record(name, 'refuted', 'concrete', 'assertion is false', self.witness(int(np.argmax(self.path.mask))))
            return
        r, mod = smt.check(self.path.conds, 3 * self.opts['smt_ms'])
        if r == 'unsat':
            raise PathEnd('assume', 'infeasible')
        if r == 'sat':
            self.inject(self.path, mod)
            if not self.path.mask.any():
                self.path.mask[self.S.n - 1 - (self.ninj % 16)] = True
            self.record(name, 'refuted', 'z3', 'assertion is false', self.witness(int(np.argmax(self.path.mask))))
            return
        self.record(name, 'undecided', 'z3', 'path feasibility unknown')

    def bool_goal(self, c, name, t0, numeric):
        path = self.path
        if path.known.get(c.id) == 1:
            self.record(name, 'proved', 'assumption', dt=time.time() - t0)
            return
        cand = None
        if numeric:
            v = self.S.ev(c)
            bad = path.mask & ~v
            if bad.any():
                cand = int(np.argmax(bad))
                if intonly(c):
                    self.record(name, 'refuted', 'numeric', 'assertion false', self.witness(cand), time.time() - t0)
                    return
        # 1. algebraic case analysis
        st = None
        if not intonly(c):
            try:
                C = path.case().child()
                self.case_deadline = C.deadline = time.time() + self.opts['leaf_time']
                st = self.split_bool(C, c, path.mask.copy(), 0)
            except (TooBig, Timeout, Domain):
                st = ('undecided', 'algebra')
            if st[0] == 'proved':
                self.record(name, 'proved', st[1], dt=time.time() - t0)
                return
        # 2. SMT on the original terms
        ms = self.opts['smt_ms'] * 5
        r, mod = smt.check(path.conds + [bnot(c)], ms)
        if r == 'unsat':
            self.record(name, 'proved', 'z3', dt=time.time() - t0)
            return
        if r == 'sat':
            self.inject(path, mod)
            self.record(name, 'refuted', 'z3', 'counterexample model', self.witness(self.S.n - 1 - (self.ninj % 16)), time.time() - t0)
            return
        r = smt.check_smt2_cvc5(path.conds + [bnot(c)], ms)
        if r == 'unsat':
            self.record(name, 'proved', 'cvc5', dt=time.time() - t0)
            return
        if cand is not None:
            self.record(name, 'refuted', 'numeric', 'assertion false', self.witness(cand), time.time() - t0)
            return
        self.record(name, 'undecided', 'algebra+z3+cvc5', '', None, time.time() - t0)

    def split_bool(self, C, c, mask, depth):
        if time.time() > self.case_deadline:
            raise Timeout()
        try:
            v = C.cond(c)
        except NeedSplit as e:
            # is this the goal atom itself?  try the solver on the leaf first
            if not mask.any() or depth >= 0:
                r, _ = smt.check(self.case_terms(C) + [self.residual(C, c)], 1500) if self.leaf_ready(C, c) else ('unknown', None)
                if r == 'unsat':
                    return ('proved', 'algebra+z3')
                if self.leaf_ready(C, c):
                    return ('undecided', 'leaf')
            return self.branch(C, e, mask, depth, lambda C2, m2: self.split_bool(C2, c, m2, depth + 1))
        except Domain:
            return ('proved', 'domain')
        if v:
            return ('proved', 'algebra' if depth == 0 else 'algebra-cases')
        if not mask.any() and self.case_infeasible(C):
            return ('proved', 'infeasible-case')
        return ('undecided', 'false in a case')

    def leaf_ready(self, C, c):
        """all conditional terms below the atoms of c are resolved in C"""
        try:
            for a in atoms_of(c):
                if a.op in ('lt', 'le', 'eq'):
                    C.norm(a.a[0])
                    C.norm(a.a[1])
                else:
                    C.cond(a)
            return True
        except NeedSplit:
            return False

    def residual(self, C, c):
        """not c, with the real atoms replaced by their normal forms"""
        def go(x):
            if type(x) is not T:
                return x
            if x.op in ('not', 'and', 'or', 'xor'):
                ys = [go(y) for y in x.a]
                return {'not': bnot, 'and': band, 'or': bor, 'xor': tm.bxor}[x.op](*ys)
            if x.op in ('lt', 'le', 'eq'):
                r = C.radd(C.norm(x.a[0]), C.norm(x.a[1]), -1)
                p = C.rsign_poly(r)
                if not p.d:
                    return 0 if x.op == 'lt' else 1
                t = poly_term(self, p)
                sides = []
                atom_sides(self, p, set(), sides)
                extra.extend(sides)
                return rcmp(x.op, t, F0)
            return x
        extra = []
        r = bnot(go(c))
        for s in extra:
            r = band(r, s)
        return r


def atoms_of(c):
    if type(c) is not T:
        return []
    if c.op in ('not', 'and', 'or', 'xor'):
        r = []
        for x in c.a:
            r += atoms_of(x)
        return r
    return [c]


def _at(v, j):
    v = np.asarray(v)
    return v[j] if v.ndim else v


_io = {}


def intonly(c):
    """no real-sorted subterm"""
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        if type(x) is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.s == 'r':
            return False
        st.extend(y for y in x.a if type(y) is T)
    return True


class Path0:
    """concrete execution of static initialisers"""
    fork_select = False
    bool_terms = True
    int_ite = True

    def tick(self):
        pass

    def decide(self, c):
        raise Unsupported('symbolic branch in an initialiser')

    concretize = decide

    def switch(self, *a):
        raise Unsupported('symbolic switch in an initialiser')
