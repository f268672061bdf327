"""Parser for the textual LLVM-18 IR that clang emits for a contract translation unit.

Only what the executor needs is kept; debug metadata and attributes are dropped.  Function bodies are
parsed lazily (a contract touches a small part of a unit).
"""
import re
import struct
from fractions import Fraction

TOK = re.compile(
    r'\s*(?:'
    r'(?P<str>c?"(?:[^"\\]|\\.)*")'
    r'|(?P<lvar>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))'
    r'|(?P<gvar>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))'
    r'|(?P<meta>!(?:[-\w.$]+)?)'
    r'|(?P<attr>\#\d+)'
    r'|(?P<com>\$(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))'
    r'|(?P<num>-?\d+\.\d*(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)'
    r'|(?P<word>[A-Za-z_][\w.]*)'
    r'|(?P<dots>\.\.\.)'
    r'|(?P<p>[(){}\[\]<>,=*:|])'
    r')')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ';':
            break
        mm = m(s, pos)
        if not mm:
            rest = s[pos:].strip()
            if not rest or rest[0] == ';':
                break
            raise SyntaxError('token: ' + s[pos:pos + 60])
        out.append(mm.group(mm.lastgroup))
        pos = mm.end()
    return out


class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'els', 'size', 'align', 'offs', 'name')

    def __init__(self, k, **kw):
        self.k = k
        self.w = kw.get('w', 0)
        self.n = kw.get('n', 0)
        self.e = kw.get('e')
        self.els = kw.get('els')
        self.size = kw.get('size')
        self.align = kw.get('align')
        self.offs = kw.get('offs')
        self.name = kw.get('name')

    def __repr__(self):
        return f'Ty({self.k},{self.w or self.n or self.name or ""})'


VOID = Ty('void', size=0, align=1)
PTR = Ty('ptr', size=8, align=8)
F64 = Ty('f64', size=8, align=8)
F32 = Ty('f32', size=4, align=4)
F80 = Ty('f80', size=16, align=16)
F128 = Ty('f128', size=16, align=16)
LABEL = Ty('label')
META = Ty('metadata')
TOKEN = Ty('token')
_ints = {}


def ITY(w):
    t = _ints.get(w)
    if t is None:
        sz = 1
        while sz * 8 < w:
            sz *= 2
        t = Ty('int', w=w, size=sz, align=min(sz, 16))
        _ints[w] = t
    return t


def mk_struct(els, packed):
    off = 0
    al = 1
    offs = []
    for t in els:
        a = 1 if packed else t.align
        al = max(al, a)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += t.size
    off = (off + al - 1) // al * al
    return Ty('st', els=els, size=off, align=al, offs=offs)


def mk_arr(n, e):
    return Ty('arr', n=n, e=e, size=n * e.size, align=e.align)


def mk_vec(n, e):
    bits = n * (e.w if e.k == 'int' else e.size * 8)
    sz = (bits + 7) // 8
    p = 1
    while p < sz:
        p *= 2
    return Ty('vec', n=n, e=e, size=p, align=p)


class GlobalRef:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '@' + self.name


class Local:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '%' + self.name


class CExpr:
    """constant expression: gep / cast / binop"""
    __slots__ = ('op', 'args', 'ty')

    def __init__(self, op, args, ty):
        self.op = op
        self.args = args
        self.ty = ty


class CAgg:
    __slots__ = ('ty', 'els')

    def __init__(self, ty, els):
        self.ty = ty
        self.els = els


class CBytes:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class CZero:
    pass


class CUndef:
    pass


ZERO = CZero()
UNDEF = CUndef()


def unq(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'):
        return s[1:-1]
    return s


def dec_str(tok):
    s = tok[2:-1] if tok[0] == 'c' else tok[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf8')
            i += 1
    return bytes(out)


def parse_fp(tok):
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            if tok[2] == 'K':  # x86_fp80
                v = int(tok[3:], 16)
                exp = (v >> 64) & 0x7fff
                man = v & ((1 << 64) - 1)
                sgn = -1 if v >> 79 else 1
                if exp == 0 and man == 0:
                    return Fraction(0)
                if exp == 0x7fff:
                    return float('inf') * sgn
                return sgn * Fraction(man) * Fraction(2) ** (exp - 16383 - 63)
            raise SyntaxError('fp literal ' + tok)
        f = struct.unpack('<d', struct.pack('<Q', int(tok[2:], 16)))[0]
    else:
        f = float(tok)
    if f != f or f in (float('inf'), float('-inf')):
        return f
    return Fraction(f)


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        v = self.next()
        if v != s:
            raise SyntaxError(f'expected {s} got {v} in {" ".join(self.t)[:300]}')

    def end(self):
        return self.i >= len(self.t)

    # ---- types
    def ty(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.i += 4
        elif t == 'double':
            r = F64
        elif t == 'float':
            r = F32
        elif t == 'x86_fp80':
            r = F80
        elif t == 'fp128':
            r = F128
        elif t == 'label':
            r = LABEL
        elif t == 'metadata':
            r = META
        elif t == 'token':
            r = TOKEN
        elif t[0] == 'i' and t[1:].isdigit():
            r = ITY(int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.ty()
            self.exp(']')
            r = mk_arr(n, e)
        elif t == '<':
            if self.acc('{'):
                els = self.tylist('}')
                self.exp('>')
                r = mk_struct(els, True)
            else:
                n = int(self.next())
                self.exp('x')
                e = self.ty()
                self.exp('>')
                r = mk_vec(n, e)
        elif t == '{':
            r = mk_struct(self.tylist('}'), False)
        elif t[0] == '%':
            r = self.m.named(unq(t))
        else:
            raise SyntaxError('type ' + t + ' in ' + ' '.join(self.t)[:300])
        # function type suffix
        if self.peek() == '(' and r is not LABEL and self.m._fnty_ok:
            # only consumed explicitly by callers
            pass
        return r

    def tylist(self, close):
        els = []
        if self.acc(close):
            return els
        while True:
            els.append(self.ty())
            if self.acc(close):
                return els
            self.exp(',')

    # ---- constants / values
    def val(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return Local(unq(t))
        if c == '@':
            return GlobalRef(unq(t))
        if c == '-' or c.isdigit():
            if ty.k == 'int':
                if t.startswith('0x') or t.startswith('u0x'):
                    return int(t[-16:], 16)
                return int(t) & ((1 << ty.w) - 1)
            return parse_fp(t)
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t == 'null':
            return 0
        if t == 'zeroinitializer':
            return ZERO
        if t in ('undef', 'poison'):
            return UNDEF
        if t == 'none':
            return 0
        if c == 'c' and len(t) > 1 and t[1] == '"':
            return CBytes(dec_str(t))
        if t in ('[', '<', '{'):
            close = {'[': ']', '<': '>', '{': '}'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                els = self.cl('}')
                self.exp('>')
            else:
                els = self.cl(close)
            return CAgg(ty, els)
        if t in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw') or (self.peek() == 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    while self.next() != ')':
                        pass
            self.exp('(')
            bt = self.ty()
            self.exp(',')
            args = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                at = self.ty()
                args.append((at, self.val(at)))
                if self.acc(')'):
                    break
                self.exp(',')
            return CExpr('gep', (bt, args), PTR)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.exp('(')
            at = self.ty()
            v = self.val(at)
            self.exp('to')
            tt = self.ty()
            self.exp(')')
            return CExpr(t, (at, v), tt)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.next()
            self.exp('(')
            at = self.ty()
            a = self.val(at)
            self.exp(',')
            bt = self.ty()
            b = self.val(bt)
            self.exp(')')
            return CExpr(t, (at, a, b), at)
        if t in ('icmp',):
            pr = self.next()
            self.exp('(')
            at = self.ty()
            a = self.val(at)
            self.exp(',')
            bt = self.ty()
            b = self.val(bt)
            self.exp(')')
            return CExpr('icmp', (pr, at, a, b), ITY(1))
        if t in ('dso_local_equivalent', 'no_cfi'):
            return GlobalRef(unq(self.next()))
        raise SyntaxError('value ' + t + ' in ' + ' '.join(self.t)[:300])

    def cl(self, close):
        els = []
        if self.acc(close):
            return els
        while True:
            t = self.ty()
            els.append((t, self.val(t)))
            if self.acc(close):
                return els
            self.exp(',')


PATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext', 'zeroext',
          'inreg', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'noext', 'allocptr', 'allocalign', 'inalloca',
          'dead_on_unwind', 'writable'}
PATTRS_P = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated',
            'nofpclass', 'range', 'memory', 'initializes', 'captures', 'align'}


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in PATTRS:
            p.next()
        elif t == 'align' and p.peek(1) != '(':
            p.next()
            p.next()
        elif t in PATTRS_P:
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
        else:
            return


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')

    def __init__(self, op, res, ty, a, line=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line


FASTFLAGS = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self._blocks = None
        self.params = None
        self.rty = None
        self.compiled = None
        self.parse_header()

    def parse_header(self):
        toks = tokenize(self.header)
        p = P(self.mod, toks)
        # skip to the return type
        p.next()  # define
        SK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
              'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
              'dllimport', 'dllexport', 'fastcc', 'coldcc', 'ccc', 'unnamed_addr', 'local_unnamed_addr', 'tailcc',
              'cc'}
        while p.peek() in SK:
            p.next()
        skip_attrs(p)
        self.rty = p.ty()
        nm = unq(p.next())
        assert nm == self.name, (nm, self.name)
        p.exp('(')
        self.params = []
        self.vararg = False
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    self.vararg = True
                else:
                    t = p.ty()
                    skip_attrs(p)
                    if p.peek() and p.peek()[0] == '%':
                        self.params.append((t, unq(p.next())))
                    else:
                        self.params.append((t, str(len(self.params))))
                if p.acc(')'):
                    break
                p.exp(',')

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = []
        cur = None
        first = True
        logical = []
        buf = None
        for ln in self.lines:
            if buf is not None:
                buf += ' ' + ln
                if ln.strip().startswith(']') or ln.strip() == ']':
                    logical.append(buf)
                    buf = None
                continue
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if s.startswith('switch ') and ']' not in s:
                buf = s
                continue
            if (s.startswith(('cleanup', 'catch ', 'filter ', 'to label'))) and logical:
                logical[-1] += ' ' + s
                continue
            logical.append(s)
        LAB = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):')
        for s in logical:
            m = LAB.match(s)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = (nm, [])
                blocks.append(cur)
                first = False
                continue
            if first:
                cur = (str(len(self.params)), [])
                blocks.append(cur)
                first = False
            cur[1].append(self.parse_instr(s))
        self._blocks = blocks

    def parse_instr(self, s):
        toks = tokenize(s)
        # cut metadata attachments
        p = P(self.mod, toks)
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = unq(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'ret':
            t = p.ty()
            return Instr('ret', None, t, (p.val(t) if t is not VOID else None,))
        if op == 'br':
            if p.acc('label'):
                return Instr('br', None, None, (unq(p.next()),))
            t = p.ty()
            c = p.val(t)
            p.exp(',')
            p.exp('label')
            a = unq(p.next())
            p.exp(',')
            p.exp('label')
            b = unq(p.next())
            return Instr('cbr', None, None, (c, a, b))
        if op == 'switch':
            t = p.ty()
            v = p.val(t)
            p.exp(',')
            p.exp('label')
            d = unq(p.next())
            p.exp('[')
            cs = []
            while not p.acc(']'):
                ct = p.ty()
                cv = p.val(ct)
                p.exp(',')
                p.exp('label')
                cs.append((cv, unq(p.next())))
            return Instr('switch', None, t, (v, d, cs))
        if op == 'unreachable':
            return Instr('unreachable', None, None, ())
        if op == 'resume':
            return Instr('resume', None, None, ())
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return Instr('bin', res, t, (op, a, b, tuple(fl)))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FASTFLAGS:
                p.next()
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return Instr('fbin', res, t, (op, a, b))
        if op == 'fneg':
            while p.peek() in FASTFLAGS:
                p.next()
            t = p.ty()
            return Instr('fneg', res, t, (p.val(t),))
        if op == 'icmp':
            while p.peek() in ('samesign',):
                p.next()
            pr = p.next()
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return Instr('icmp', res, t, (pr, a, b))
        if op == 'fcmp':
            while p.peek() in FASTFLAGS:
                p.next()
            pr = p.next()
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return Instr('fcmp', res, t, (pr, a, b))
        if op == 'select':
            while p.peek() in FASTFLAGS:
                p.next()
            ct = p.ty()
            c = p.val(ct)
            p.exp(',')
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            t2 = p.ty()
            b = p.val(t2)
            return Instr('select', res, t, (c, a, b))
        if op == 'phi':
            while p.peek() in FASTFLAGS:
                p.next()
            t = p.ty()
            inc = []
            while True:
                p.exp('[')
                v = p.val(t)
                p.exp(',')
                b = unq(p.next())
                p.exp(']')
                inc.append((v, b))
                if not p.acc(','):
                    break
                if p.peek() and p.peek()[0] == '!':
                    break
            return Instr('phi', res, t, (inc,))
        if op == 'alloca':
            p.acc('inalloca')
            t = p.ty()
            n = 1
            while p.acc(','):
                if p.peek() == 'align':
                    p.next()
                    p.next()
                elif p.peek() == 'addrspace' or p.peek()[0] == '!':
                    break
                else:
                    nt = p.ty()
                    n = p.val(nt)
            return Instr('alloca', res, PTR, (t, n))
        if op == 'load':
            p.acc('atomic')
            p.acc('volatile')
            t = p.ty()
            p.exp(',')
            pt = p.ty()
            return Instr('load', res, t, (p.val(pt),))
        if op == 'store':
            p.acc('atomic')
            p.acc('volatile')
            t = p.ty()
            v = p.val(t)
            p.exp(',')
            pt = p.ty()
            return Instr('store', None, t, (v, p.val(pt)))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.ty()
            p.exp(',')
            pt = p.ty()
            base = p.val(pt)
            idx = []
            while p.acc(','):
                if p.peek()[0] == '!':
                    break
                it = p.ty()
                idx.append((it, p.val(it)))
            return Instr('gep', res, PTR, (bt, base, idx))
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.ty()
            v = p.val(t)
            p.exp('to')
            tt = p.ty()
            return Instr('cast', res, tt, (op, t, v))
        if op in ('call', 'invoke'):
            while p.peek() in FASTFLAGS:
                p.next()
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'tailcc'):
                p.next()
            skip_attrs(p)
            if p.peek() == 'addrspace':
                p.i += 4
            rt = p.ty()
            if p.peek() == '(':  # function type for varargs
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            if p.peek() == 'asm':
                return Instr('asm', res, rt, (s,))
            callee = p.val(PTR)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    at = p.ty()
                    skip_attrs(p)
                    if at is META:
                        # metadata argument: skip to , or )
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x in '([{':
                                d += 1
                            elif x in ')]}':
                                d -= 1
                        args.append((at, 0))
                    else:
                        args.append((at, p.val(at)))
                    if p.acc(')'):
                        break
                    p.exp(',')
            nd = None
            ud = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.exp('label')
                nd = unq(p.next())
                p.exp('unwind')
                p.exp('label')
                ud = unq(p.next())
            return Instr(op, res, rt, (callee, args, nd, ud))
        if op == 'extractvalue':
            t = p.ty()
            v = p.val(t)
            idx = []
            while p.acc(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return Instr('extractvalue', res, t, (v, idx))
        if op == 'insertvalue':
            t = p.ty()
            v = p.val(t)
            p.exp(',')
            et = p.ty()
            ev = p.val(et)
            idx = []
            while p.acc(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return Instr('insertvalue', res, t, (v, ev, idx))
        if op == 'extractelement':
            t = p.ty()
            v = p.val(t)
            p.exp(',')
            it = p.ty()
            return Instr('extractelement', res, t, (v, p.val(it)))
        if op == 'insertelement':
            t = p.ty()
            v = p.val(t)
            p.exp(',')
            et = p.ty()
            ev = p.val(et)
            p.exp(',')
            it = p.ty()
            return Instr('insertelement', res, t, (v, ev, p.val(it)))
        if op == 'shufflevector':
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            p.ty()
            b = p.val(t)
            p.exp(',')
            mt = p.ty()
            mk = p.val(mt)
            return Instr('shufflevector', res, t, (a, b, mt, mk))
        if op == 'freeze':
            t = p.ty()
            return Instr('freeze', res, t, (p.val(t),))
        if op == 'landingpad':
            return Instr('landingpad', res, None, ())
        if op == 'fence':
            return Instr('fence', None, None, ())
        if op == 'atomicrmw':
            p.acc('volatile')
            k = p.next()
            pt = p.ty()
            a = p.val(pt)
            p.exp(',')
            t = p.ty()
            v = p.val(t)
            return Instr('atomicrmw', res, t, (k, a, v))
        if op == 'cmpxchg':
            p.acc('weak')
            p.acc('volatile')
            pt = p.ty()
            a = p.val(pt)
            p.exp(',')
            t = p.ty()
            c = p.val(t)
            p.exp(',')
            p.ty()
            v = p.val(t)
            return Instr('cmpxchg', res, t, (a, c, v))
        if op == 'va_arg':
            raise SyntaxError('va_arg')
        raise SyntaxError('instr ' + s[:200])


class Module:
    _fnty_ok = False

    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = (ln, i + 1, j)
                i = j + 1
                continue
            if ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', ln)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    self.type_src[nm] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                if re.match(r'(?:[\w]+ )*alias ', m.group(2)):
                    self.aliases[nm] = m.group(2)
                else:
                    self.globals[nm] = m.group(2)
            elif ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            i += 1
        self.lines = lines
        self._fcache = {}

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            src = self.type_src.get(nm, 'opaque')
            if src.startswith('opaque'):
                t = Ty('opaque', size=0, align=1, name=nm)
            else:
                t = P(self, tokenize(src)).ty()
                t = Ty('st', els=t.els, size=t.size, align=t.align, offs=t.offs, name=nm)
            self.types[nm] = t
        return t

    def func(self, nm):
        f = self._fcache.get(nm)
        if f is None:
            if nm in self.aliases:
                m = re.search(r'ptr @("(?:[^"\\]|\\.)*"|[-\w.$]+)\s*$', self.aliases[nm])
                if m:
                    f = self.func(m.group(1).strip('"'))
                    self._fcache[nm] = f
                    return f
            d = self.funcs.get(nm)
            if d is None:
                return None
            f = Function(self, nm, d[0], self.lines[d[1]:d[2]])
            self._fcache[nm] = f
        return f

    def global_def(self, nm):
        """-> (type, init or None if external)"""
        src = self.globals[nm]
        # strip leading linkage words up to 'global' / 'constant'
        toks = tokenize(src)
        k = 0
        ext = False
        while toks[k] not in ('global', 'constant'):
            if toks[k] in ('external', 'extern_weak'):
                ext = True
            k += 1
        p = P(self, toks)
        p.i = k + 1
        t = p.ty()
        if ext:
            return t, None
        return t, p.val(t)
