"""Contracts for the JSON writer (src/JSONEmitter.cc).

The text written so far is what the target has received followed by what the buffer holds; every operation is specified by what it
appends to that text.  The nesting is a stack of positions (inside a list, before a key, before a value ...)."""
import re
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, app, blen, rep
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, span, str_view, OSS, STR

TU = ['src/JSONEmitter.cc']
NS = 'libvariant::'
CLS = NS + 'JSONEmitterImpl'
PID = 'P04'
BYTE = lambda c: z3.BitVecVal(ord(c) if isinstance(c, str) else c, 8)


def z64(x):
    return z3.ZeroExt(32, bv(x, 32))


def put_text(B, s):
    for c in s:
        B = snoc(B, BYTE(c))
    return B


def hexd(v):
    """lower case hexadecimal digit of a 4 bit value in the low half of a byte"""
    return z3.If(z3.ULT(v, 10), v + ord('0'), v + (ord('a') - 10))


def esc(B, c):
    """B followed by the character c of a JSON string"""
    u = snoc(snoc(put_text(B, '\\u00'), hexd(z3.LShR(c, 4))), hexd(c & 15))
    r = z3.If(z3.ULT(c, 32), u, snoc(B, c))
    for a, b in (('"', '\\"'), ('\\', '\\\\'), ('\b', '\\b'), ('\f', '\\f'), ('\n', '\\n'), ('\r', '\\r'), ('\t', '\\t')):
        r = z3.If(c == ord(a), put_text(B, b), r)
    return r


ESC = T.fold_from('json_escape', esc)


def string(B, t):
    return snoc(ESC(snoc(B, BYTE('"')), t), BYTE('"'))


# ------------------------------------------------------------------ the writer
class Top:
    """handler of the top of the stack of positions"""

    def load(self, E, st, p, size, ty):
        return simp(z3.ZeroExt(24, T.Bytes.last(st.ghost['states'])))

    def store(self, E, st, p, size, v, ty):
        E.oblige(st, z3.ULT(bv(v, 32), 256), PID, 'positions are small numbers')
        st.ghost['states'] = simp2(snoc(T.Bytes.init(st.ghost['states']), z3.simplify(z3.Extract(7, 0, bv(v, 32)))))
        return True


TOP = Top()


class GStates:
    SIZE = 80

    def gsame(self, o):
        return isinstance(o, GStates)

    def havoc(self, E, st, name, others):
        return self


class Em:
    def __init__(self, E, empty=False):
        self.E = E
        self.st = st = State()
        P = E.P
        self.N = {n: enum(P, CLS + '::State_t', n) for n in ('MAP_FIRST', 'IN_MAP_KEY', 'IN_MAP_VALUE', 'LIST_FIRST', 'IN_LIST')}
        out = abstract_object(E, st, NS + 'EmitterOutput', {r'::Write\(': self.write, r'::Flush\(': self.out_flush}, name='target')
        self.obj = abstract_object(E, st, CLS, {r'::Flush\(\)': self.flush_slot, r'::Close\(\)': self.flush_slot}, name='emitter')
        F = self.F = Fields(E, CLS, self.obj)
        E.put(st, F.ptr('output'), 8, out)
        E.put(st, E.padd(F.ptr('output'), 8), 8, NULL)
        F.put(st, 'pretty', z3.BitVec('pretty', 8))
        F.put(st, 'strict', z3.BitVec('strict', 8))
        st.assume(z3.ULE(F.term(st, 'pretty'), 1), z3.ULE(F.term(st, 'strict'), 1))
        F.put(st, 'num_indent', z3.BitVec('indent', 32))
        F.put(st, 'numeric_precision', z3.BitVec('precision', 32))
        E.put(st, F.ptr('state'), 80, GStates())
        self.rest, self.top = z3.Const('outer_positions', T.Bytes), z3.BitVec('position', 8)
        st.ghost['states'] = nil if empty else snoc(self.rest, self.top)
        st.ghost['out'] = z3.Const('out0', T.Bytes)
        st.ghost['taken'] = z3.BitVecVal(0, 64)
        st.ghost['flushed'] = z3.BoolVal(False)
        self.topobj = E.new_obj(st, 'top', size=4, handler=TOP)
        arr = z3.Const('buffer_bytes', T.ARR)
        self.size = 512
        self.bobj = E.new_obj(st, 'buffer', size=512, heap=True)
        st.mem[self.bobj.obj] = OC({}, ((0, 512, arr),))
        b = F.ptr('buffer')
        E.put(st, b, 8, self.bobj)
        E.put(st, E.padd(b, 8), 8, Ptr(self.bobj.obj, 512))
        E.put(st, E.padd(b, 16), 8, Ptr(self.bobj.obj, 512))
        F.put(st, 'buffer_len', z3.BitVec('buffer_len', 32))
        st.assume(self.inv(st))
        states(E)
        models(E)
        E.loop_templates.append(self.template)

    # -------------------------------------------------------------- view
    def arr(self, st):
        return st.mem[self.bobj.obj].regs[0][2]

    def blen(self, st):
        return z64(self.F.term(st, 'buffer_len'))

    def inv(self, st):
        return z3.ULE(self.F.term(st, 'buffer_len'), 512)

    def text(self, st):
        """the text written so far"""
        return cat(st.ghost['out'], self.arr(st), bv(0), self.blen(st))

    def frame(self, st):
        """fields that no operation changes"""
        F = self.F
        return z3.And(*[F.term(st, n) == F.term(self.pre, n) for n in ('pretty', 'strict', 'num_indent', 'numeric_precision')])

    def start(self):
        self.pre = self.st.copy()
        self.E.cover(self.st, 'precondition')

    def set_text(self, st, t):
        """the effect of an operation that appends: any division between target and buffer"""
        E = self.E
        n = E.fresh('i32', 'buffer_len')
        oc = st.mem[self.bobj.obj].copy()
        oc.regs = ((0, 512, E.fresh('arr', 'buffer')),)
        st.mem[self.bobj.obj] = oc
        st.ghost['out'] = E.fresh('bytes', 'out')
        st.ghost['taken'] = E.fresh('i64', 'taken')
        self.F.put(st, 'buffer_len', n)
        st.assume(self.inv(st), self.text(st) == t)

    def failing(self, st):
        ex = st.copy()
        self.set_text(ex, self.E.fresh('bytes', 'text'))
        return Out(ex, None, Exc('_ZTISt13runtime_error'))

    # -------------------------------------------------------------- target
    def write(self, E, st, a, inst):
        """takes the first r <= n bytes, or throws and takes none"""
        p, n = a[1], bv(a[2], 32)
        E.oblige(st, n != 0, PID, 'a write passes at least one byte')
        E.check_access(st, p, simp2(z64(n)), 'read')
        ex = st.copy()
        r = E.fresh('i32', 'accepted')
        st.assume(z3.ULE(r, n))
        k = E.find_region(st, p, 1)
        if k is None:
            raise Unsupported('text of ' + E.objs[p.obj].name)
        s0, m, arr = st.mem[p.obj].regs[k]
        st.ghost['out'] = cat(st.ghost['out'], arr, simp2(bv(iop('sub', p.off, s0, 64))), z64(r))
        st.ghost['taken'] = st.ghost['taken'] + z64(r)
        return [Out(st, r), Out(ex, None, Exc('_ZTISt13runtime_error'))]

    def out_flush(self, E, st, a, inst):
        st.ghost['flushed'] = z3.BoolVal(True)
        return None

    # -------------------------------------------------------------- contracts of the parts
    def flush_slot(self, E, st, a, inst):
        return self.flush(E, st, a, None)

    def flush(self, E, st, a, call):
        E.oblige(st, self.inv(st), PID, 'the buffer is not overfull')
        ex = self.failing(st)
        st.ghost['out'] = self.text(st)
        self.F.put(st, 'buffer_len', 0)
        st.ghost['taken'] = E.fresh('i64', 'taken')
        st.ghost['flushed'] = z3.BoolVal(True)
        return [Out(st, None), ex]

    def append(self, st, p, n):
        """the text followed by n characters at p"""
        E = self.E
        B = self.text(st)
        n = simp2(bv(n))
        if z3.is_bv_value(n) and n.as_long() <= 16:
            for i in range(n.as_long()):
                B = snoc(B, bv(E.load(st, E.padd(p, i), 1, 'i8'), 8))
            return B
        inf = E.objs[p.obj]
        t = span(E, st, p, n)
        if t.decl().name() == 'cat' and t.arg(0).eq(nil):
            return cat(B, t.arg(1), t.arg(2), t.arg(3))
        return app(B, t)

    def raw(self, E, st, a, call):
        E.oblige(st, self.inv(st), PID, 'the buffer is not overfull')
        ex = self.failing(st)
        self.set_text(st, self.append(st, a[1], E.zx(st, a[2])))
        st.ghost['flushed'] = E.fresh('i1', 'flushed')
        return [Out(st, None), ex]

    def raw_c(self, E, st, a, call):
        E.oblige(st, self.inv(st), PID, 'the buffer is not overfull')
        ex = self.failing(st)
        self.set_text(st, self.append(st, a[1], strlen(E, st, [a[1]], None)))
        st.ghost['flushed'] = E.fresh('i1', 'flushed')
        return [Out(st, None), ex]

    def indented(self, st, B, states=None):
        """B followed by the line break and indentation for the current nesting"""
        n = blen(st.ghost['states'] if states is None else states)
        k = z3.Extract(31, 0, self.product(n, z64(self.F.term(st, 'num_indent'))))
        return z3.If(self.F.term(st, 'pretty') != 0, rep(snoc(B, BYTE('\n')), BYTE(' '), z64(k)), B)

    def product(self, a, b):
        return self.E.umul(a, b, 64) if self.E.opaque_mul else a * b

    def indent(self, E, st, a, call):
        E.oblige(st, self.inv(st), PID, 'the buffer is not overfull')
        ex = self.failing(st)
        self.set_text(st, self.indented(st, self.text(st)))
        st.ghost['flushed'] = E.fresh('i1', 'flushed')
        return [Out(st, None), ex]

    def separated(self, st):
        """(text, stack) after the separator that is due at the current position"""
        B, S, N = self.text(st), st.ghost['states'], self.N
        if S.decl().name() == 'nil':
            return B, S
        rest, top = (S.arg(0), S.arg(1)) if S.decl().name() == 'snoc' else (T.Bytes.init(S), T.Bytes.last(S))
        comma = snoc(B, BYTE(','))
        t, s = B, top
        for name, text, new in (('MAP_FIRST', self.indented(st, B), 'IN_MAP_VALUE'), ('IN_MAP_KEY', self.indented(st, comma), 'IN_MAP_VALUE'),
                                ('IN_MAP_VALUE', put_text(B, ': '), 'IN_MAP_KEY'), ('LIST_FIRST', self.indented(st, B), 'IN_LIST'),
                                ('IN_LIST', self.indented(st, comma), 'IN_LIST')):
            t = z3.If(top == N[name], text, t)
            s = z3.If(top == N[name], BYTE(N[new]), s)
        return t, snoc(rest, s)

    def separator(self, E, st, a, call):
        E.oblige(st, self.inv(st), PID, 'the buffer is not overfull')
        ex = self.failing(st)
        t, s = self.separated(st)
        self.set_text(st, t)
        st.ghost['states'] = s
        st.ghost['flushed'] = E.fresh('i1', 'flushed')
        return [Out(st, None), ex]

    def string(self, E, st, a, call):
        E.oblige(st, self.inv(st), PID, 'the buffer is not overfull')
        ex = self.failing(st)
        self.set_text(st, string(self.text(st), span(E, st, a[1], E.zx(st, a[2]))))
        st.ghost['flushed'] = E.fresh('i1', 'flushed')
        return [Out(st, None), ex]

    def use(self, *names):
        E = self.E
        S = {'Flush()': self.flush, 'EmitRaw(char const*, unsigned int)': self.raw, 'EmitRaw(char const*)': self.raw_c, 'EmitIndent()': self.indent,
             'CheckSeparator()': self.separator, 'EmitString(char const*, unsigned int)': self.string, 'Close()': self.flush}
        for n in names:
            E.summaries[CLS + '::' + n] = S[n]

    def fn(self, n):
        return self.E.P.find(CLS + '::' + n)[0]

    # -------------------------------------------------------------- loops
    def bounds(self, st):
        k = z3.Extract(31, 0, self.product(blen(st.ghost['states']), z64(self.F.term(st, 'num_indent'))))
        return [self.blen(st), z64(k)] + ([z64(self.srclen)] if getattr(self, 'srclen', None) is not None else [])

    def template(self, E, L):
        """what a copying loop has passed on so far, by any of its counters"""
        out = []
        ent = L.entry
        o0 = ent.ghost['out']
        t0 = self.text(ent)
        srcs = [(self.arr(ent), bv(0))]
        if getattr(self, 'src', None):
            srcs.append(self.src)
        regs = ent.frames[-1].regs
        dl = lambda s: s.ghost['taken'] - ent.ghost['taken']
        for i in L.phi_ids:
            v = regs[i]
            if isinstance(v, Ptr):
                d = lambda s, i=i, v=v: bv(s.frames[L.depth - 1].regs[i].off) - bv(v.off)
            elif L.phi_ty[i] == 'i32':
                d = lambda s, i=i, v=v: z64(bv(s.frames[L.depth - 1].regs[i], 32) - bv(v, 32))
            elif L.phi_ty[i] == 'i64':
                d = lambda s, i=i, v=v: bv(s.frames[L.depth - 1].regs[i]) - bv(v)
            else:
                continue
            for arr, o in srcs:
                out.append(('passed on', lambda s, d=d, arr=arr, o=o: s.ghost['out'] == cat(o0, arr, o, d(s))))
            out.append(('spaces passed on', lambda s, d=d: s.ghost['out'] == rep(o0, BYTE(' '), d(s))))
            for b in self.bounds(ent):
                out.append(('within', lambda s, d=d, b=b: z3.ULE(d(s), b)))
            out.append(('counted', lambda s, d=d: dl(s) == d(s)))
            if getattr(self, 'src', None):
                arr, o = self.src
                out.append(('escaped', lambda s, d=d, arr=arr, o=o: self.text(s) == ESC(t0, cat(nil, arr, o, d(s)))))
        out.append(('buffer not overfull', lambda s: self.inv(s)))
        return out


def states(E):
    D = r'std::deque<libvariant::JSONEmitterImpl::State_t.*>'

    def empty(E, st, a, call):
        return simp(st.ghost['states'] == nil)

    def size(E, st, a, call):
        return simp(blen(st.ghost['states']))

    def back(E, st, a, call):
        E.oblige(st, st.ghost['states'] != nil, 'memory', 'back() of an empty stack')
        return next(Ptr(i, 0) for i, o in E.objs.items() if o.handler is TOP)

    def push(E, st, a, call):
        v = bv(E.load(st, a[1], 4, 'i32'), 32)
        st.ghost['states'] = snoc(st.ghost['states'], z3.simplify(z3.Extract(7, 0, v)))

    def pop(E, st, a, call):
        S = st.ghost['states']
        E.oblige(st, S != nil, 'memory', 'pop_back() of an empty stack')
        st.ghost['states'] = S.arg(0) if S.decl().name() == 'snoc' else T.Bytes.init(S)
    pattern(E, D + r'::empty\(\) const', empty)
    pattern(E, D + r'::size\(\) const', size)
    pattern(E, D + r'::back\(\)( const)?', back)
    pattern(E, D + r'::push_back\(.*\)', push)
    pattern(E, D + r'::pop_back\(\)', pop)


# ------------------------------------------------------------------ C and C++ library
def strlen(E, st, a, call):
    p = a[0]
    inf = E.objs[p.obj]
    if st.mem[p.obj].regs and E.find_region(st, p, 1) is not None:
        k = E.find_region(st, p, 1)
        s0, m, arr = st.mem[p.obj].regs[k]
        n = E.fresh('i64', 'strlen')
        o = simp2(bv(iop('sub', p.off, s0, 64)))
        st.assume(T.nz(cat(nil, arr, o, n)), T.sel(arr, o + n) == 0, z3.ULT(n, bv(iop('sub', m, bv(o), 64)) if False else bv(inf.size) - bv(p.off)))
        return n
    n = 0
    while True:
        c = E.load(st, E.padd(p, n), 1, 'i8')
        if isc(c):
            if c == 0:
                return n
        else:
            r = E.valid(st, bv(c, 8) != 0)[0]
            if r != 'valid':
                raise Unsupported('length of a string with unknown characters')
        n += 1


def snprintf(E, st, a, call):
    """formats of one hexadecimal number"""
    fmt = const_cstr(E, st, a[2]).decode('latin1')
    m = re.fullmatch(r'([^%]*)%(0?)(\d*)(?:\.(\d+))?(x|hx|hhx)([^%]*)', fmt)
    if not m or not isc(a[1]):
        raise Unsupported('snprintf format %r' % fmt)
    pre, zero, w, prec, _, post = m.groups()
    w, zero = int(w or 0), bool(zero) and prec is None
    prec = int(prec) if prec is not None else w if zero else 1
    v = bv(a[3], 32)
    digits = max(prec, w)
    if digits > 8 or E.valid(st, z3.ULT(v, 1 << (4 * min(digits, 7))))[0] != 'valid':
        raise Unsupported('number of digits of a printed number')
    out = [BYTE(c) for c in pre]
    for k in reversed(range(digits)):
        nib = z3.LShR(v, 4 * k)
        d = hexd(z3.Extract(7, 0, nib & 15))
        out.append(d if k < prec else z3.If(nib == 0, BYTE(' '), d))
    out += [BYTE(c) for c in post]
    n = len(out)
    for i, c in enumerate(out[:max(a[1] - 1, 0)]):
        E.store(st, E.padd(a[0], i), 1, simp(c), 'i8')
    if a[1]:
        E.store(st, E.padd(a[0], min(n, a[1] - 1)), 1, 0, 'i8')
    return n


DEC_S = z3.Function('decimal_of_signed', T.BV64, T.Bytes)
DEC_U = z3.Function('decimal_of_unsigned', T.BV64, T.Bytes)
FMT = z3.Function('text_of_double', FP['double'], z3.BitVecSort(32), z3.BoolSort(), T.Bytes)
POINT = z3.Function('first_point', T.Bytes, T.BV64)


class GOss:
    """an output string stream: text, precision, point always shown"""
    SIZE = 8

    def __init__(self, b=nil, prec=None, point=False):
        self.b, self.prec, self.point = b, z3.BitVecVal(6, 32) if prec is None else prec, point

    def gsame(self, o):
        return isinstance(o, GOss) and self.b.eq(o.b) and same(self.prec, o.prec) and self.point == o.point


def models(E):
    def ctor(E, st, a, call):
        E.gput(st, a[0], GOss())

    def text(t):
        def f(E, st, a, call):
            g = E.gget(st, a[0], GOss)
            b = t(E, st, a[1], g)
            E.gput(st, a[0], GOss(b if g.b.eq(nil) else app(g.b, b), g.prec, g.point))
            return a[0]
        return f

    def cstr(E, st, p, g):
        return T.lit(const_cstr(E, st, p))

    def dbl(E, st, v, g):
        return FMT(v, g.prec, z3.BoolVal(g.point))

    def setprec(E, st, a, call):
        g = E.gget(st, a[0], GOss)
        E.gput(st, a[0], GOss(g.b, bv(a[1][0] if isinstance(a[1], list) else a[1], 32), g.point))
        return a[0]

    def manip(E, st, a, call):
        f = E.objs[a[1].obj]
        name = E.P.fns[f.fn].dem if f.kind == 'func' else ''
        if 'showpoint' not in name:
            raise Unsupported('stream manipulator ' + name)
        g = E.gget(st, a[0], GOss)
        E.gput(st, a[0], GOss(g.b, g.prec, 'noshowpoint' not in name))
        return a[0]

    def str_(E, st, a, call):
        E.gput(st, a[0], GStr(E.gget(st, a[1], GOss).b))
    S = r'std::(basic_)?ostream(<char, std::char_traits<char>>)?'
    pattern(E, OSS + r'::basic_(o|i)?stringstream\(\)', ctor)
    pattern(E, S + r'::operator<<\((long|long long|int)\)', text(lambda E, st, v, g: DEC_S(bv(v))))
    pattern(E, S + r'::operator<<\(unsigned (long|long long|int)\)', text(lambda E, st, v, g: DEC_U(bv(v))))
    pattern(E, S + r'::operator<<\(double\)', text(dbl))
    pattern(E, S + r'::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)', manip)
    pattern(E, r'std::basic_ostream<char, std::char_traits<char>>& std::operator<<<.*>\(std::basic_ostream<char, std::char_traits<char>>&, std::_Setprecision\)', setprec)
    pattern(E, r'std::basic_ostream<char, std::char_traits<char>>& std::operator<<<.*>\(std::basic_ostream<char, std::char_traits<char>>&, char const\*\)', text(cstr))
    pattern(E, OSS + r'::str\(\) const', str_)
    pattern(E, r'strlen', strlen)
    pattern(E, r'snprintf', snprintf)

    def find(E, st, a, call):
        if not (isc(a[2]) and a[2] == 0 and isc(a[1]) and a[1] == ord('.')):
            raise Unsupported('find in a string')
        b = E.gget(st, a[0], GStr).b
        c = T.conc(b)
        if c is not None:
            return c.find(b'.') % (1 << 64)
        return z3.If(z3.ULT(POINT(b), blen(b)), POINT(b), z3.BitVecVal(-1, 64))

    def insert(E, st, a, call):
        b = E.gget(st, a[0], GStr).b
        pos = bv(a[1])
        E.oblige(st, z3.ULE(pos, blen(b)), 'memory', 'insertion beyond the end of a string')
        if not (isc(a[2]) and a[2] <= 4):
            raise Unsupported('insertion of many characters')
        t = cat(nil, T.arrof(b), bv(0), pos)
        for _ in range(a[2]):
            t = snoc(t, bv(a[3], 8))
        E.gput(st, a[0], GStr(cat(t, T.arrof(b), pos, blen(b) - pos)))
        return a[0]

    def index(E, st, a, call):
        b = E.gget(st, a[0], GStr).b
        return E.padd(str_view(E, st, b), simp(bv(a[1])))
    pattern(E, STR + r'::find\(char, unsigned long\) const', find)
    pattern(E, STR + r'::insert\(unsigned long, unsigned long, char\)', insert)
    pattern(E, STR + r'::operator\[\]\(unsigned long\)( const)?', index)


# ------------------------------------------------------------------ the parts
def source(E, st):
    n = z3.BitVec('len', 32)
    arr = z3.Const('src', T.ARR)
    size = z3.BitVec('src_size', 64)
    st.assume(z3.ULE(z64(n), size), z3.ULT(size, 1 << 40))
    p = E.new_obj(st, 'src', size=size, const=True)
    st.mem[p.obj] = OC({}, ((0, size, arr),))
    return p, n, arr


def finish(X, s, t, what, states=None):
    E = X.E
    E.oblige(s, X.inv(s), PID, what + ': the buffer is not overfull')
    E.oblige(s, X.text(s) == t, PID, what + ' appends exactly its text')
    E.oblige(s, X.frame(s), PID, what + ' keeps the options')
    E.oblige(s, s.ghost['states'] == (X.pre.ghost['states'] if states is None else states), PID, what + ' keeps track of the nesting')


def verify_flush(E):
    X = Em(E)
    st = X.st
    X.start()
    pre = X.pre
    n = 0
    for kind, s, v in E.run_function(X.fn('Flush()'), st, [X.obj]):
        d = s.ghost['taken'] - pre.ghost['taken']
        if kind == 'exc':
            E.oblige(s, z3.And(z3.ULE(d, X.blen(pre)), s.ghost['out'] == cat(pre.ghost['out'], X.arr(pre), bv(0), d)), PID,
                     'a failing flush has passed on the beginning of the buffered text')
            continue
        n += 1
        finish(X, s, X.text(pre), 'Flush')
        E.oblige(s, s.ghost['out'] == X.text(pre), PID, 'Flush passes all text on to the target')
        E.oblige(s, s.ghost['flushed'], PID, 'Flush flushes the target')
    E.oblige(pre, n > 0, PID, 'Flush returns')


def verify_raw(E):
    X = Em(E)
    st = X.st
    X.use('Flush()')
    p, n, arr = source(E, st)
    X.src, X.srclen = (arr, bv(0)), n
    X.start()
    pre = X.pre
    k = 0
    for kind, s, v in E.run_function(X.fn('EmitRaw(char const*, unsigned int)'), st, [X.obj, p, n]):
        if kind == 'exc':
            continue
        k += 1
        finish(X, s, cat(X.text(pre), arr, bv(0), z64(n)), 'EmitRaw')
    E.oblige(pre, k > 0, PID, 'EmitRaw returns')


def verify_raw_c(E):
    X = Em(E)
    st = X.st
    X.use('Flush()', 'EmitRaw(char const*, unsigned int)')
    p, n, arr = source(E, st)
    st.assume(T.sel(arr, z64(n)) == 0, T.nz(cat(nil, arr, bv(0), z64(n))), z3.ULT(z64(n), E.objs[p.obj].size))
    known_length(E, p, z64(n))
    X.start()
    for kind, s, v in E.run_function(X.fn('EmitRaw(char const*)'), st, [X.obj, p]):
        if kind == 'ret':
            finish(X, s, cat(X.text(X.pre), arr, bv(0), z64(n)), 'EmitRaw of a C string')


def known_length(E, p, n):
    """strlen of the C string at p is n (strlen is a function: the same string has one length)"""
    def f(E, st, a, call):
        if isinstance(a[0], Ptr) and a[0].obj == p.obj and isc(a[0].off) and a[0].off == 0:
            return n
        return strlen(E, st, a, call)
    pattern(E, r'strlen', f)


def verify_indent(E, empty):
    E.opaque_mul = not empty and E.bounded is None
    X = Em(E, empty)
    st = X.st
    X.use('Flush()', 'EmitRaw(char const*, unsigned int)', 'EmitRaw(char const*)')
    X.start()
    n = 0
    for kind, s, v in E.run_function(X.fn('EmitIndent()'), st, [X.obj]):
        if kind == 'ret':
            n += 1
            finish(X, s, X.indented(X.pre, X.text(X.pre)), 'EmitIndent')
    E.oblige(X.pre, n > 0, PID, 'EmitIndent returns')


LOW = ('Flush()', 'EmitRaw(char const*, unsigned int)', 'EmitRaw(char const*)', 'EmitIndent()')


def verify_separator(E, empty):
    X = Em(E, empty)
    X.use(*LOW)
    X.start()
    for kind, s, v in E.run_function(X.fn('CheckSeparator()'), X.st, [X.obj]):
        if kind == 'ret':
            t, S = X.separated(X.pre)
            finish(X, s, t, 'the separator', S)


def verify_string(E):
    X = Em(E)
    st = X.st
    X.use(*LOW)
    p, n, arr = source(E, st)
    X.src, X.srclen = (arr, bv(0)), n
    X.start()
    k = 0
    for kind, s, v in E.run_function(X.fn('EmitString(char const*, unsigned int)'), st, [X.obj, p, n]):
        if kind == 'ret':
            k += 1
            finish(X, s, string(X.text(X.pre), cat(nil, arr, bv(0), z64(n))), 'a string')
    E.oblige(X.pre, k > 0, PID, 'EmitString returns')


HIGH = LOW + ('CheckSeparator()', 'EmitString(char const*, unsigned int)')


def verify_word(E, fn, word, empty):
    X = Em(E, empty)
    X.use(*HIGH)
    X.start()
    n = 0
    for kind, s, v in E.run_function(X.fn(fn), X.st, [X.obj]):
        if kind == 'ret':
            n += 1
            t, S = X.separated(X.pre)
            finish(X, s, put_text(t, word), word, S)
    E.oblige(X.pre, n > 0, PID, fn + ' returns')


def verify_begin(E, fn, br, pos, empty):
    X = Em(E, empty)
    X.use(*HIGH)
    X.start()
    n = 0
    for kind, s, v in E.run_function(X.fn(fn), X.st, [X.obj, z3.BitVec('length', 32)]):
        if kind == 'ret':
            n += 1
            t, S = X.separated(X.pre)
            finish(X, s, put_text(t, br), fn, snoc(S, BYTE(X.N[pos])))
    E.oblige(X.pre, n > 0, PID, fn + ' returns')


def verify_end(E, fn, br):
    X = Em(E)
    X.use(*HIGH)
    X.start()
    n = 0
    for kind, s, v in E.run_function(X.fn(fn), X.st, [X.obj]):
        if kind == 'ret':
            n += 1
            t = put_text(X.indented(X.pre, X.text(X.pre), X.rest), br)
            finish(X, s, t, fn, X.rest)
            E.oblige(s, z3.And(s.ghost['out'] == t, s.ghost['flushed']), PID, fn + ' passes the text on to the target')
    E.oblige(X.pre, n > 0, PID, fn + ' returns')


def verify_text(E, how, empty):
    X = Em(E, empty)
    st = X.st
    X.use(*HIGH)
    if how == 'c':
        p, n, arr = source(E, st)
        st.assume(T.sel(arr, z64(n)) == 0, T.nz(cat(nil, arr, bv(0), z64(n))), z3.ULT(z64(n), E.objs[p.obj].size))
        known_length(E, p, z64(n))
        b = cat(nil, arr, bv(0), z64(n))
        fn = 'Emit(char const*)'
    else:
        b = z3.Const('text', T.Bytes)
        st.assume(z3.ULT(blen(b), 1 << 32))
        p = E.new_obj(st, 'text', size=32)
        E.gput(st, p, GStr(b))
        fn = 'Emit(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)'
    X.start()
    for kind, s, v in E.run_function(X.fn(fn), st, [X.obj, p]):
        if kind == 'ret':
            t, S = X.separated(X.pre)
            finish(X, s, string(t, b), 'a text value', S)


def verify_int(E, unsigned, empty):
    X = Em(E, empty)
    X.use(*HIGH)
    x = z3.BitVec('value', 64)
    T_ = (DEC_U if unsigned else DEC_S)(x)
    X.st.assume(z3.ULT(blen(T_), 24), T_ != nil)
    X.start()
    for kind, s, v in E.run_function(X.fn('Emit(unsigned long)' if unsigned else 'Emit(long)'), X.st, [X.obj, x]):
        if kind == 'ret':
            t, S = X.separated(X.pre)
            finish(X, s, app(t, T_), 'an integer', S)


def verify_double(E, empty):
    X = Em(E, empty)
    X.use(*HIGH)
    st = X.st
    x = z3.FP('value', FP['double'])
    prec = X.F.term(st, 'numeric_precision')
    t0 = FMT(x, prec, z3.BoolVal(True))
    n = blen(t0)
    pt = POINT(t0)
    nxt = T.sel(T.arrof(t0), pt + 1)
    digit = z3.And(z3.UGE(nxt, ord('0')), z3.ULE(nxt, ord('9')))
    # the stream shows a point; behind it is a digit, the exponent or the end
    st.assume(z3.ULT(n, 1 << 20), z3.ULT(pt, n), z3.Or(pt + 1 == n, digit, nxt == ord('e')))
    finite = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
    X.start()
    strict = X.F.term(st, 'strict') != 0
    for kind, s, v in E.run_function(X.fn('Emit(double)'), st, [X.obj, x]):
        if kind == 'exc':
            if getattr(v, 'obj', None) is not None:
                E.oblige(s, z3.And(strict, z3.Not(finite)), PID, 'only a strict writer refuses numbers, those that are not finite')
            continue
        t, S = X.separated(X.pre)
        E.oblige(s, z3.Or(finite, z3.Not(strict)), PID, 'a strict writer refuses numbers that are not finite')
        ok = z3.And(z3.ULT(pt + 1, n), digit)
        full = cat(snoc(cat(t, T.arrof(t0), bv(0), pt + 1), BYTE('0')), T.arrof(t0), pt + 1, n - (pt + 1))
        E.oblige(s, z3.Implies(z3.Not(finite), X.text(s) == put_text(t, 'null')), PID, 'a number that is not finite is written as null')
        E.oblige(s, z3.Implies(z3.And(finite, ok), X.text(s) == app(t, t0)), PID, 'a number is written with the precision of the writer and a point')
        E.oblige(s, z3.Implies(z3.And(finite, z3.Not(ok)), X.text(s) == full), PID, 'the point of a number is followed by a digit')
        E.oblige(s, z3.And(X.frame(s), s.ghost['states'] == S, X.inv(s)), PID, 'a number keeps track of the nesting')


def verify_blob(E, empty):
    X = Em(E, empty)
    X.use(*HIGH)
    st = X.st
    blob = E.new_obj(st, 'blob', size=E.P.types[NS + 'Blob']['size'])
    iov = E.new_obj(st, 'iov', size=None)
    nb = z3.BitVec('buffers', 32)
    total = z3.BitVec('total', 32)
    sp = E.new_obj(st, 'blob pointer', size=16, cells={0: (8, blob), 8: (8, NULL)})
    enc = z3.Const('encoded', T.ARR)
    size, n = z3.BitVec('encode_size', 32), z3.BitVec('encoded_len', 32)
    st.assume(z3.UGE(size, 5), z3.ULT(size, 1 << 31), z3.ULE(n, size))

    def enc_size(E, st, a, call):
        E.oblige(st, z3.And(bv(a[0], 32) == total, bv(a[1], 32) == 0), PID, 'room is made for the whole blob')
        return size

    def encode(E, st, a, call):
        E.oblige(st, z3.And(same(a[1], iov), bv(a[2], 32) == nb, bv(a[3], 32) == 0), PID, 'the whole blob is encoded, in one line')
        E.check_access(st, a[0], simp2(z64(size)), 'write')
        oc = st.mem[a[0].obj].copy()
        s0, m, arr = oc.regs[0]
        oc.regs = ((s0, m, T.acopy(arr, bv(a[0].off), enc, bv(0), z64(size))),)
        st.mem[a[0].obj] = oc
        return n
    E.summaries[NS + 'Base64EncodeSize(unsigned int, unsigned int)'] = enc_size
    E.summaries[NS + 'Base64Encode(char*, iovec const*, unsigned int, unsigned int)'] = encode
    E.summaries[NS + 'Blob::GetTotalLength() const'] = lambda E, st, a, call: total
    E.summaries[NS + 'Blob::GetIOVec() const'] = lambda E, st, a, call: iov
    E.summaries[NS + 'Blob::GetNumBuffers() const'] = lambda E, st, a, call: nb
    X.start()
    strict = X.F.term(st, 'strict') != 0
    fn = [f for f in E.P.fns.values() if f.dem.startswith(CLS + '::Emit(std::shared_ptr<libvariant::Blob')]
    for kind, s, v in E.run_function(fn[0], st, [X.obj, sp]):
        if kind == 'exc':
            if getattr(v, 'obj', None) is not None:
                E.oblige(s, strict, PID, 'only a strict writer refuses a blob')
                E.oblige(s, z3.And(X.text(s) == X.text(X.pre), s.ghost['states'] == X.pre.ghost['states']), PID, 'a refused blob leaves nothing behind')
            continue
        t, S = X.separated(X.pre)
        E.oblige(s, z3.Not(strict), PID, 'a strict writer refuses blobs')
        finish(X, s, snoc(cat(put_text(t, '"\\u0000BLOB'), enc, bv(0), z64(n)), BYTE('"')), 'a blob', S)


def verify_close(E):
    X = Em(E)
    X.use(*LOW)
    X.start()
    for kind, s, v in E.run_function(X.fn('Close()'), X.st, [X.obj]):
        if kind == 'ret':
            finish(X, s, X.text(X.pre), 'Close')
            E.oblige(s, s.ghost['out'] == X.text(X.pre), PID, 'Close passes all text on to the target')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, args, f):
        return Task('JSON writer: ' + name, fn, args, props=(PID,), safety=PID, funcs=[CLS + '::' + x for x in f])
    out = [t('Flush', verify_flush, (), ['Flush', 'WriteSome']), t('EmitRaw', verify_raw, (), ['EmitRaw', 'WriteSome']),
           t('EmitRaw of a C string', verify_raw_c, (), ['EmitRaw']), t('EmitString', verify_string, (), ['EmitString']), t('Close', verify_close, (), ['Close']),
           t('end of a map', verify_end, ('EndMap()', '}'), ['EndMap']), t('end of a list', verify_end, ('EndList()', ']'), ['EndList'])]
    for e in (False, True):
        w = ' outside of containers' if e else ''
        out += [t('EmitIndent' + w, verify_indent, (e,), ['EmitIndent']), t('CheckSeparator' + w, verify_separator, (e,), ['CheckSeparator'])]
        for fn, word in (('EmitNull()', 'null'), ('EmitTrue()', 'true'), ('EmitFalse()', 'false')):
            out.append(t(word + w, verify_word, (fn, word, e), [fn[:-2]]))
        for fn, br, pos in (('BeginMap(int)', '{', 'MAP_FIRST'), ('BeginList(int)', '[', 'LIST_FIRST')):
            out.append(t(fn[:-5] + w, verify_begin, (fn, br, pos, e), [fn[:-5]]))
        out += [t('C string' + w, verify_text, ('c', e), ['Emit']), t('string' + w, verify_text, ('s', e), ['Emit']),
                t('integer' + w, verify_int, (False, e), ['Emit']), t('unsigned integer' + w, verify_int, (True, e), ['Emit']),
                t('floating point number' + w, verify_double, (e,), ['Emit']), t('blob' + w, verify_blob, (e,), ['Emit'])]
    return out
