"""Contracts for src/Payload.cc: a header, line feeds, one zero byte, and a payload after one another.

The header's text is what the emitter of the format writes (contracts of that format); here it is an arbitrary byte string."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, app, blen
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR
from ..varcont import Val
from .. import variants as V
from .. import facade as FA
from .. import iov
from . import bundle as B
from .bundle import GChars, Chars, chars_models, z64, RT

TU = ['src/Payload.cc']
PID = 'P17'
NS = 'libvariant::'
PX = NS + 'ProxyInput'
VAR = NS + 'Variant'
VCP = NS + 'Variant'
DEQ = r'std::deque<libvariant::PathElement, std::allocator<libvariant::PathElement>>'

TEXTVAL = z3.Function('text_value', T.Bytes, Val)
BOOLVAL = z3.Function('bool_value', z3.BoolSort(), Val)
NUMVAL = z3.Function('number_value', T.BV64, Val)
BLOBVAL = z3.Function('blob_value', T.BV64, T.BV64, z3.BoolSort(), Val)     # bytes of the input: from, how many, a copy
NUMBER = z3.Function('number_of', Val, T.BV64)
HASP = z3.Function('has_path', Val, T.Bytes, z3.BoolSort())
GETP = z3.Function('at_path', Val, T.Bytes, Val)
PUTP = z3.Function('with_path', Val, T.Bytes, Val, Val)


def number(v):
    return v.arg(0) if v.decl().eq(NUMVAL) else z3.If(v.arg(0), number(v.arg(1)), number(v.arg(2))) if v.decl().name() == 'if' else NUMBER(v)


def truth(v):
    return v.arg(0) if v.decl().eq(BOOLVAL) else z3.If(v.arg(0), truth(v.arg(1)), truth(v.arg(2))) if v.decl().name() == 'if' else FA.TRUTH(v)


def words(v):
    return v.arg(0) if v.decl().eq(TEXTVAL) else z3.If(v.arg(0), words(v.arg(1)), words(v.arg(2))) if v.decl().name() == 'if' else FA.TEXT(v)


def option(params, key, default):
    """the value of an option"""
    return z3.If(z3.And(FA.TYP(params) == FA.MAPT, FA.HAS(params, key)), FA.GETK(params, key), default)


def at_path(v, path, default):
    return z3.If(HASP(v, path), GETP(v, path), default)


def values(E):
    """options, paths and conversions of values"""
    FA.setup(E)
    V.path_models(E)
    E.paths = {}
    AB = r'(\[abi:cxx11\])?'
    VV = NS + r'Variant::'

    def fails(E, st):
        ex = st.copy()
        ex.ghost['bad'] = z3.BoolVal(True)
        return Out(ex, None, Exc(RT))

    def val(E, st, p):
        g = E.gget(st, p, FA.GV)
        if g.kind != 'val':
            raise Unsupported('a reference to a value')
        return g.x

    def put(f):
        return lambda E, st, a, call: FA.put_val(E, st, a[0], f(E, st, a[1]))

    def get(E, st, a, call):
        v, k, d = val(E, st, a[1]), E.gget(st, a[2], GStr).b, val(E, st, a[3])
        ok, no = FA.split(E, st, z3.Or(FA.TYP(v) == FA.MAPT, FA.TYP(v) == FA.NULLT))
        o = [] if no is None else [fails(E, no)]
        if ok is not None:
            FA.put_val(E, ok, a[0], option(v, k, d))
            o.append(Out(ok, None))
        return o

    def asstring(E, st, a, call):
        E.gput(st, a[0], GStr(words(val(E, st, a[1]))))
        return [Out(st, None), fails(E, st)]

    def asnum(E, st, a, call):
        return [Out(st, number(val(E, st, a[0]))), fails(E, st)]

    def asbool(E, st, a, call):
        return [Out(st, simp2(z3.If(truth(val(E, st, a[0])), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) == 1)), fails(E, st)]

    def parse(E, st, a, call):
        t = E.gget(st, a[1], GStr).b
        k = simp2(t).sexpr()
        if k not in E.paths:
            n = E.fresh('i64', 'path')
            E.paths[k] = (V.Seq('base', n, tag='path of ' + k[:40]), n)
            E.paths[k][0].text = t
        s, n = E.paths[k]
        st.assume(z3.ULT(n, 1 << 32))
        E.gput(st, a[0], V.new_path(E, st, s))
        return [Out(st, None), fails(E, st)]

    def ptext(E, st, p):
        s = E.gget(st, p, V.GPath).seq
        if not hasattr(s, 'text'):
            raise Unsupported('part of a path')
        return s.text

    def haspath(E, st, a, call):
        return simp(HASP(val(E, st, a[0]), ptext(E, st, a[1])))

    def getpath(E, st, a, call):
        v, p = val(E, st, a[1]), ptext(E, st, a[2])
        if len(a) == 4:
            FA.put_val(E, st, a[0], at_path(v, p, val(E, st, a[3])))
            return [Out(st, None), fails(E, st)]
        ok, no = FA.split(E, st, HASP(v, p))
        o = [] if no is None else [fails(E, no)]
        if ok is not None:
            FA.put_val(E, ok, a[0], GETP(v, p))
            o.append(Out(ok, None))
        return o

    def setpath(E, st, a, call):
        v, p, x = val(E, st, a[0]), ptext(E, st, a[1]), val(E, st, a[2])
        FA.put_val(E, st, a[0], PUTP(v, p, x))
        return [Out(st, a[0]), fails(E, st)]
    from ..models_cxx import cstring
    pattern(E, VV + r'Variant\(char const\*\)', put(lambda E, st, x: TEXTVAL(cstring(E, st, x))))
    pattern(E, VV + r'Variant\(bool\)', put(lambda E, st, x: BOOLVAL(V.tob(x))))
    pattern(E, VV + r'Variant\(int\)', put(lambda E, st, x: NUMVAL(z3.SignExt(32, bv(x, 32)))))
    pattern(E, VV + r'Variant\(unsigned int\)', put(lambda E, st, x: NUMVAL(z64(x))))
    pattern(E, VV + r'Variant\(unsigned long\)', put(lambda E, st, x: NUMVAL(bv(x))))
    pattern(E, VV + r'IsMap\(\) const', lambda E, st, a, call: simp(FA.TYP(val(E, st, a[0])) == FA.MAPT))
    pattern(E, VV + r'Get\(' + STR + r' const&, .*Variant\) const', get)
    pattern(E, VV + 'AsString' + AB + r'\(\) const', asstring)
    pattern(E, VV + r'AsUnsigned\(\) const', asnum)
    pattern(E, VV + r'AsBool\(\) const', asbool)
    pattern(E, NS + r'ParsePath\(.*\)', parse)
    pattern(E, VV + r'HasPath\(.*\) const', haspath)
    pattern(E, VV + r'GetPath\(.*\) const', getpath)
    pattern(E, VV + r'SetPath\(.*\)', setpath)
    V.shared_models(E)
    V.error_models(E)
    pattern(E, r'std::runtime_error::~?runtime_error\(.*\)', lambda E, st, a, call: None)
    pattern(E, NS + r'(Emitter|Parser)::~(Emitter|Parser)\(\)', lambda E, st, a, call: None)
    pattern(E, NS + r'PayloadEmitState::~?PayloadEmitState\(\)', lambda E, st, a, call: None)
    pattern(E, r'std::shared_ptr<libvariant::(EmitterOutput|ParserInput)>::~shared_ptr\(\)', lambda E, st, a, call: None)


def value(E, st, name, t=None):
    v = z3.Const(name, Val)
    p = E.new_obj(st, name, size=64)
    FA.put_val(E, st, p, v)
    return p, v


def paths_of(E, typ, params):
    """texts of the paths of data and length"""
    ser = enum(E.P, NS + 'SerializeType', 'SERIALIZE_BUNDLEHDR')
    r = []
    for what in (b'data', b'length'):
        opt = lambda d: words(option(params, T.lit(what + b'_path'), TEXTVAL(T.lit(d))))
        r.append((opt(b'payload.' + what), opt(b'payload/' + what)))
    return ser, r


# ------------------------------------------------------------------ writing
def verify_write(E):
    E.solvers = ((z3.SimpleSolver, 200), (z3.Solver, 1 << 30))
    st = State()
    values(E)
    chars_models(E)
    iv = iov.view('_payload')
    st.assume(z3.ULT(iv.n, 1 << 28), iv.S(bv(0, 32)) == 0, iv.S(iv.n) == iv.total)
    E.written = lambda s: simp2(z3.Extract(31, 0, s.ghost['taken'] + before))
    before = z3.BitVec('written_before', 64)
    st.assume(z3.ULT(before, 1 << 31))
    H = z3.Const('header', T.Bytes)
    st.assume(z3.ULT(blen(H), 1 << 30))
    out = B.output(E, st, PID)
    osp = E.new_obj(st, 'out', size=16, cells={0: (8, out), 8: (8, NULL)})
    vp, v = value(E, st, 'v')
    pp, params = value(E, st, 'params')
    typ = z3.BitVec('type', 32)
    st.ghost['bad'] = z3.BoolVal(False)
    st.ghost['events'] = ()
    st.ghost['created'] = None
    out0 = st.ghost['out']
    blob = E.new_obj(st, 'blob', size=8)

    def flat(E, st, x):
        # no loops are cut before the header is complete
        st.ghost['events'] = st.ghost['events'] + (x,)

    def fail(E, st):
        ex = st.copy()
        ex.ghost['bad'] = z3.BoolVal(True)
        ex.ghost['out'] = E.fresh('bytes', 'out')
        return Out(ex, None, Exc(RT))

    def create(E, st, a, call):
        sp = a[1]
        E.oblige(st, same(E.load(st, sp, 8, 'ptr'), out), PID, 'the header is written to the output')
        E.oblige(st, bv(a[2], 32) == typ, PID, 'the header has the requested format')
        E.oblige(st, E.gget(st, a[3], FA.GV).x == params, PID, 'the header is written with the options given')
        st.ghost['created'] = a[0]
        return [Out(st, None), fail(E, st)]

    def op(name):
        def f(E, st, a, call):
            E.oblige(st, same(st.ghost['created'], a[0]), PID, 'the header goes to its emitter')
            flat(E, st, name)
            if name == 'Flush':
                st.ghost['out'] = app(out0, H)
                st.ghost['taken'] = simp2(st.ghost['taken'] + blen(H))
            return [Out(st, None), fail(E, st)]
        return f

    def assign(E, st, a, call):
        st.ghost['copy'] = (a[0], a[1])
        return a[0]

    def emit(E, st, a, call):
        vv, li, onl, di, ond, state = a
        SF = Fields(E, NS + 'PayloadEmitState', state)
        flat(E, st, 'PayloadEmit')
        c = st.ghost.get('copy')
        E.oblige(st, c is not None and same(c[0], SF.ptr('e')) and same(c[1], st.ghost['created']), PID, 'the parts of the value go to the emitter of the header')
        E.oblige(st, E.gget(st, vv, FA.GV).x == v, PID, 'the value itself is written')
        E.oblige(st, z3.And(V.tob(onl), V.tob(ond)), PID, 'the paths start at the value')
        ser, want = paths_of(E, typ, params)
        for it, w, what, end in ((di, want[0], 'data', 'data_end'), (li, want[1], 'length', 'len_end')):
            c = V.it_get(E, st, it)
            s = V.seq_of(E, c)
            e = V.it_get(E, st, SF.ptr(end))
            E.oblige(st, z3.And(bv(c.off) == 0, s.text == z3.If(typ == ser, *w)), PID, 'the path of the %s is that asked for, or its default' % what)
            E.oblige(st, z3.And(c.obj == e.obj, bv(e.off) == bv(s.n)), PID, 'the path of the %s is used to its end' % what)
        E.oblige(st, bv(E.load(st, SF.ptr('payload_len'), 8, 'i64')) == length(), PID, 'the length written is that of the payload, or the one given')
        return [Out(st, None), fail(E, st)]

    def texts():
        ser, (d, l) = paths_of(E, typ, params)
        return z3.If(typ == ser, *d), z3.If(typ == ser, *l)

    def ignore():
        return truth(option(params, T.lit(b'ignore_payload'), BOOLVAL(z3.BoolVal(False))))

    def length():
        d, l = texts()
        n = z3.If(HASP(v, d), iv.total, z3.If(ignore(), number(at_path(v, l, NUMVAL(bv(0)))), bv(0)))
        return number(option(params, T.lit(b'payload_length'), NUMVAL(n)))

    def asblob(E, st, a, call):
        x = E.gget(st, a[1], FA.GV).x
        E.oblige(st, x == GETP(v, texts()[0]), PID, 'the payload is what is found at the path of the data')
        V.sp_put(E, st, a[0], blob, NULL)
        return [Out(st, None), fail(E, st)]
    CB = NS + r'Blob::'
    own = lambda E, st, a: E.oblige(st, same(a[0], blob), PID, 'the payload is asked')

    def m(f):
        def g(E, st, a, call):
            own(E, st, a)
            return f(E, st, a)
        return g

    def index(E, st, a):
        E.oblige(st, z3.ULT(bv(a[1], 32), iv.n), 'memory', 'buffer number out of range')
        return bv(a[1], 32)
    pattern(E, VAR + r'::AsBlob\(\)( const)?', asblob)
    pattern(E, CB + r'GetTotalLength\(\) const', m(lambda E, st, a: simp2(z3.Extract(31, 0, iv.total))))
    pattern(E, CB + r'GetNumBuffers\(\) const', m(lambda E, st, a: iv.n))
    pattern(E, CB + r'GetLength\(unsigned int\) const', m(lambda E, st, a: simp2(z3.Extract(31, 0, iv.LEN(index(E, st, a))))))
    pattern(E, CB + r'GetPtr\(unsigned int\)( const)?', m(lambda E, st, a: Ptr(('fam', iv.bufs, index(E, st, a)), 0)))
    pattern(E, NS + r'CreateEmitter\(.*\)', create)
    for n in ('BeginDocument', 'EndDocument', 'Flush'):
        pattern(E, NS + r'Emitter::%s\(\)' % n, op(n))
    pattern(E, NS + r'Emitter::operator=\(libvariant::Emitter const&\)', assign)
    name = [f.dem for f in E.P.fns.values() if f.dem.startswith(NS + 'PayloadEmit(')][0]
    E.summaries[name] = emit

    def fill(E, st, a, call):
        E.gput(st, a[0], GChars(T.rep(nil, bv(E.load(st, a[2], 1, 'i8'), 8), bv(a[1]))))
    pattern(E, r'std::vector<char, .*>::vector\(unsigned long, char const&, .*\)', fill)
    pattern(E, r'std::vector<char, .*>::~vector\(\)', lambda E, st, a, call: None)

    def temps(E, L):
        r = []
        ent = L.entry
        regs = ent.frames[-1].regs
        o0 = ent.ghost['out']
        # text kept in a vector
        for o, c in ent.mem.items():
            for off, (size, x) in c.cells.items():
                if isinstance(x, GChars):
                    r += B.passed(E, L, (T.arrof(x.b), bv(0), blen(x.b)))
        for i in L.phi_ids:
            if isinstance(regs[i], Ptr) and isinstance(regs[i].obj, tuple):
                k = regs[i].obj[2]
                r += B.passed(E, L, (iv.D, iv.S(k), iv.LEN(k)))
                r.append(('data in order', lambda s, i=i, k=k: s.ghost['out'] == cat(o0, iv.D, iv.S(k), bv(s.frames[L.depth - 1].regs[i].off))))
            if L.phi_ty[i] == 'i32':
                r.append(('data so far', lambda s, i=i: z3.And(z3.ULE(bv(s.frames[L.depth - 1].regs[i], 32), iv.n), s.ghost['out'] == cat(o0, iv.D, bv(0), iv.S(bv(s.frames[L.depth - 1].regs[i], 32))))))
                for j in L.phi_ids:
                    if isinstance(regs[j], Ptr) and isinstance(regs[j].obj, tuple):
                        r.append(('left over', lambda s, i=i, j=j: z3.And(bv(s.frames[L.depth - 1].regs[j].off) + z64(s.frames[L.depth - 1].regs[i]) == iv.LEN(regs[j].obj[2]),
                                                                        z3.ULE(bv(s.frames[L.depth - 1].regs[j].off), iv.LEN(regs[j].obj[2])))))
        return r
    E.loop_templates.append(temps)
    F = [f for f in E.P.fns.values() if f.dem.startswith(NS + 'SerializeWithPayload(std::shared_ptr<libvariant::EmitterOutput>, ')][0]
    E.cover(st, 'precondition')
    pre = st.copy()
    k = 0
    for kind, s, r in E.run_function(F, st, [osp, vp, typ, pp]):
        k += 1
        ismap = FA.TYP(v) == FA.MAPT
        if kind == 'exc':
            continue
        E.oblige(s, z3.Not(s.ghost['bad']), PID, 'a failure is reported')
        E.oblige(s, ismap, PID, 'only a map carries a payload')
        E.oblige(s, s.ghost['events'] == ('BeginDocument', 'PayloadEmit', 'EndDocument', 'Flush'), PID, 'the header is a whole document')
        W = before + blen(H)
        ks = [32 - z3.URem(W + 1, bv(32)), z3.URem(32 - z3.URem(W + 1, bv(32)), bv(32))]
        full = z3.And(HASP(v, texts()[0]), z3.Not(ignore()))

        def frame(n):
            pad = snoc(T.rep(nil, z3.BitVecVal(10, 8), n), z3.BitVecVal(0, 8))
            o = cat(app(out0, H), T.arrof(pad), bv(0), n + 1)
            return s.ghost['out'] == z3.If(full, cat(o, iv.D, bv(0), iv.total), o)
        E.oblige(s, z3.Or(frame(simp2(ks[0])), frame(simp2(ks[1]))), PID, 'header, line feeds up to a multiple of 32 bytes with the zero byte, and the whole payload, once and in order')
    E.oblige(pre, k > 0, PID, 'SerializeWithPayload returns')


# ------------------------------------------------------------------ reading
class Source:
    """an input; first is the number of bytes before its first zero byte"""

    def __init__(self, E, st):
        self.S = z3.Const('input', T.ARR)
        self.n = z3.BitVec('length', 64)
        self.first = z3.BitVec('first_zero', 64)
        st.assume(z3.ULT(self.n, 1 << 31), z3.ULE(self.first, self.n), z3.Implies(z3.ULT(self.first, self.n), T.sel(self.S, self.first) == 0))
        st.ghost['pos'] = bv(0)
        st.ghost['looked'] = bv(0)      # up to where bytes have been shown
        self.buf = E.new_obj(st, 'available input', size=self.n, const=True, handler=self)
        self.obj = abstract_object(E, st, NS + 'ParserInput', {r'::GetPtr\(': self.getptr, r'::Release\(': self.release})
        pattern(E, r'strnlen', self.strnlen)
        pattern(E, r'memchr', self.memchr)

    def load(self, E, st, p, size, ty):
        if size != 1:
            raise Unsupported('wide access to input')
        o = bv(p.off)
        E.oblige(st, z3.ULT(o, st.ghost['looked']), 'memory', 'byte beyond the available input')
        c = T.sel(self.S, o)
        st.assume(z3.Implies(z3.ULT(o, self.first), c != 0))
        return simp2(c)

    def store(self, E, st, p, size, v, ty):
        E.oblige(st, False, 'memory', 'write to the input')
        raise PathEnd()

    def getptr(self, E, st, a, inst):
        want = z64(E.load(st, a[1], 4, 'i32'))
        pos = st.ghost['pos']
        left = self.n - pos
        n = E.fresh('i32', 'available')
        N = z64(n)
        end = st.copy()
        end.assume(left == 0)
        E.store(end, a[1], 4, 0, 'i32')
        st.assume(z3.ULE(N, left), z3.Or(z3.UGE(N, want), N == left), z3.Implies(n == 0, left == 0))
        E.store(st, a[1], 4, n, 'i32')
        st.ghost['looked'] = simp2(pos + N)
        return [Out(x, r) for x, r in ((st, Ptr(self.buf.obj, pos)), (end, NULL)) if E.feasible(x)]

    def release(self, E, st, a, inst):
        n = z64(a[1])
        E.oblige(st, z3.ULE(n, st.ghost['looked'] - st.ghost['pos']), PID, 'no more input is released than was shown')
        st.ghost['pos'] = simp2(st.ghost['pos'] + n)

    def strnlen(self, E, st, a, call):
        E.oblige(st, a[0].obj == self.buf.obj, PID, 'zero bytes are looked for in the input')
        o, n = bv(a[0].off), bv(a[1])
        E.oblige(st, z3.And(z3.ULE(o, st.ghost['looked']), z3.ULE(n, st.ghost['looked'] - o)), 'memory', 'bytes beyond the available input')
        E.oblige(st, z3.ULE(o, self.first), PID, 'zero bytes are looked for from before the first')
        return simp2(z3.If(z3.ULE(n, self.first - o), n, self.first - o))

    def memchr(self, E, st, a, call):
        n = self.strnlen(E, st, [a[0], a[2]], call)
        E.oblige(st, bv(a[1], 32) == 0, PID, 'zero bytes are looked for')
        no = st.copy()
        no.assume(bv(n) == bv(a[2]))
        st.assume(bv(n) != bv(a[2]))
        return [Out(x, r) for x, r in ((st, E.padd(a[0], n)), (no, NULL)) if E.feasible(x)]


def verify_proxy(E, op):
    st = State()
    V.error_models(E)
    X = Source(E, st)
    obj = E.new_obj(st, 'proxy', size=E.P.types[PX]['size'], init='sym')
    F = Fields(E, PX, obj)
    E.put(st, F.ptr('base_input'), 8, X.obj)
    E.put(st, E.padd(F.ptr('base_input'), 8), 8, NULL)
    F.put(st, 'scanned_to', z3.BitVec('scanned_to', 32))
    sc = lambda s: z64(F.term(s, 'scanned_to'))
    st.assume(z3.ULE(sc(st), X.first))
    pre = st.copy()
    k = 0
    if op == 'GetPtr':
        lp = E.new_obj(st, 'len', size=4)
        want = z3.BitVec('wanted', 32)
        E.put(st, lp, 4, want)
        E.cover(st, 'precondition')
        for kind, s, r in E.run_function(E.P.find(PX + '::GetPtr(unsigned int&)')[0], st, [obj, lp]):
            k += 1
            E.oblige(s, kind == 'ret', PID, 'looking at the header succeeds')
            if kind != 'ret':
                continue
            n = z64(E.load(s, lp, 4, 'i32'))
            if r.obj == 0:
                E.oblige(s, z3.And(X.n == 0, n == 0), PID, 'the header is shown')
            else:
                E.oblige(s, same(r, Ptr(X.buf.obj, 0)) or z3.BoolVal(False), PID, 'the header is shown from where it has been read')
                E.oblige(s, z3.ULE(n, X.first), PID, 'nothing from the zero byte on is shown')
                E.oblige(s, z3.ULE(n, s.ghost['looked']), PID, 'nothing beyond the available input is shown')
                E.oblige(s, z3.Or(n == X.first, z3.And(n != 0, z3.UGE(n, z64(want)))), PID, 'what is asked for is shown unless the header ends before')
            E.oblige(s, z3.And(z3.ULE(sc(s), X.first), z3.ULE(n, sc(s))), PID, 'no zero byte is passed over')
            E.oblige(s, s.ghost['pos'] == 0, PID, 'looking releases nothing')
    else:
        n = z3.BitVec('count', 32)
        st.assume(z3.ULE(z64(n), sc(st)))
        st.ghost['looked'] = X.n
        E.cover(st, 'precondition')
        for kind, s, r in E.run_function(E.P.find(PX + '::Release(unsigned int)')[0], st, [obj, n]):
            k += 1
            E.oblige(s, kind == 'ret', PID, 'releasing succeeds')
            E.oblige(s, s.ghost['pos'] == z64(n), PID, 'what is released is released from the input')
            E.oblige(s, sc(s) == sc(pre) - z64(n), PID, 'no zero byte is passed over')
    E.oblige(pre, k > 0, PID, op + ' returns')


def verify_read(E, safe):
    E.solvers = E.SUMS
    st = State()
    values(E)
    X = Source(E, st)
    isp = E.new_obj(st, 'in', size=16, cells={0: (8, X.obj), 8: (8, NULL)})
    pp, params = value(E, st, 'params')
    typ = z3.BitVec('type', 32)
    st.ghost['bad'] = z3.BoolVal(False)
    st.ghost['proxy'] = None
    st.ghost['parser'] = None
    R = z3.Const('header_value', Val)
    ret = E.new_obj(st, 'result', size=64)

    def fail(E, st):
        ex = st.copy()
        ex.ghost['bad'] = z3.BoolVal(True)
        return Out(ex, None, Exc(RT))

    def proxy(E, st, a, call):
        E.oblige(st, same(E.load(st, a[1], 8, 'ptr'), X.obj), PID, 'the header is read from the input')
        E.oblige(st, st.ghost['pos'] == 0, PID, 'the header is read from the start')
        st.ghost['proxy'] = a[0]

    def create(E, st, a, call):
        E.oblige(st, same(E.load(st, a[1], 8, 'ptr'), st.ghost['proxy']), PID, 'the header is read up to its zero byte')
        E.oblige(st, bv(a[2], 32) == typ, PID, 'the header has the given format')
        st.ghost['parser'] = a[0]
        return [Out(st, None), fail(E, st)]

    def parse(E, st, a, call):
        E.oblige(st, same(a[1], st.ghost['parser']), PID, 'the header is read')
        # what the parser releases goes through the proxy
        ex = st.copy()
        n = E.fresh('i64', 'read')
        st.assume(z3.ULE(n, X.first))
        st.ghost['pos'] = n
        FA.put_val(E, st, a[0], R)
        ex.ghost['bad'] = z3.BoolVal(True)
        return [Out(st, None), Out(ex, None, Exc(RT))]

    def make(copy):
        def f(E, st, a, call):
            E.oblige(st, a[1].obj == X.buf.obj, PID, 'the payload is taken from the input')
            n = z64(a[2])
            E.oblige(st, z3.And(z3.ULE(bv(a[1].off) + n, st.ghost['looked'])), 'memory', 'payload beyond the available input')
            p = E.new_obj(st, 'payload', size=8)
            V.sp_put(E, st, a[0], p, NULL)
            st.ghost['blob'] = BLOBVAL(bv(a[1].off), n, z3.BoolVal(copy))
        return f

    def blobval(E, st, a, call):
        FA.put_val(E, st, a[0], st.ghost['blob'])
    pattern(E, PX + r'::ProxyInput\(.*\)', proxy)
    pattern(E, NS + r'CreateParser\(.*\)', create)
    pattern(E, NS + r'ParseVariant\(libvariant::Parser&\)', parse)
    pattern(E, NS + r'Blob::CreateCopy\(void const\*, unsigned int\)', make(True))
    pattern(E, NS + r'Blob::CreateReferenced\(void\*, unsigned int\)', make(False))
    pattern(E, VAR + r'::Variant\(std::shared_ptr<libvariant::Blob>\)', blobval)
    z1 = simp2(z3.If(z3.ULT(X.first, X.n), X.first + 1, X.n))

    def temps(E, L):
        r = []
        ph = lambda s, i: s.frames[L.depth - 1].regs[i]
        nums = [i for i in L.phi_ids if L.phi_ty[i] == 'i32']
        flags = [i for i in L.phi_ids if L.phi_ty[i] in ('i1', 'i8')]
        r.append(('before the zero byte', lambda s: z3.ULE(s.ghost['pos'], X.first)))
        r.append(('at most past the zero byte', lambda s: z3.ULE(s.ghost['pos'], z1)))
        for f in flags:
            r.append(('flag and position', lambda s, f=f: z3.If(V.tob(ph(s, f)), z3.ULE(s.ghost['pos'], X.first), s.ghost['pos'] == z1)))
            for i in nums:
                r.append(('flag and number', lambda s, f=f, i=i: z3.If(V.tob(ph(s, f)), z3.ULE(s.ghost['pos'] + z64(ph(s, i)), X.first), s.ghost['pos'] + z64(ph(s, i)) == z1)))
        for i in nums:
            r.append(('shown', lambda s, i=i: z3.ULE(s.ghost['pos'] + z64(ph(s, i)), s.ghost['looked'])))
            r.append(('up to the zero byte', lambda s, i=i: z3.ULE(s.ghost['pos'] + z64(ph(s, i)), X.first)))
        return r
    E.loop_templates.append(temps)
    F = [f for f in E.P.fns.values() if f.dem.startswith(NS + 'DeserializeWithPayload(std::shared_ptr<libvariant::ParserInput>, ')][0]
    pre = st.copy()
    E.cover(st, 'precondition')
    k = 0
    ser, want = paths_of(E, typ, params)
    dpath, lpath = [z3.If(typ == ser, *w) for w in want]
    L0 = number(at_path(R, lpath, NUMVAL(bv(0))))
    for kind, s, r in E.run_function(F, st, [ret, isp, typ, pp, int(safe)]):
        k += 1
        # the payload starts after the zero byte
        if kind == 'exc':
            E.oblige(s, z3.Or(s.ghost['bad'], z3.ULT(X.n - z1, L0)), PID, 'a payload that is there is read')
            continue
        E.oblige(s, z3.Not(s.ghost['bad']), PID, 'a failure is reported')
        E.oblige(s, z3.ULE(L0, X.n - z1), PID, 'a payload cut short is refused')
        E.oblige(s, s.ghost['pos'] == z1 + L0, PID, 'reading ends right after the payload')
        E.oblige(s, E.gget(s, ret, FA.GV).x == z3.If(L0 == 0, R, PUTP(R, dpath, BLOBVAL(z1, L0, z3.BoolVal(safe)))), PID, 'the payload is put at the path of the data')
    E.oblige(pre, k > 0, PID, 'DeserializeWithPayload returns')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, f, args=()):
        return Task('payload: ' + name, fn, args, props=(PID,), safety=PID, funcs=[f])
    return [t('writing', verify_write, NS + 'SerializeWithPayload(std::shared_ptr<EmitterOutput>, ...)'),
            t('reading a copy', verify_read, NS + 'DeserializeWithPayload(std::shared_ptr<ParserInput>, ...)', (True,)),
            t('reading in place', verify_read, NS + 'DeserializeWithPayload(std::shared_ptr<ParserInput>, ...)', (False,)),
            t('looking at the header', verify_proxy, PX + '::GetPtr(unsigned int&)', ('GetPtr',)),
            t('releasing the header', verify_proxy, PX + '::Release(unsigned int)', ('Release',))]
