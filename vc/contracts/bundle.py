"""Contracts for bundle headers: writing (src/BundleHdrEmitter.cc) and reading (src/BundleHdrParser.cc).

The writer is specified by the text it appends to what the output has taken.  The reader is specified line by line: a line is an entry
(key and value by an automaton over its characters) or is skipped; the value is a scalar or a list of its fields."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, app, blen
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, span, str_view, cstring
from .. import variants as V
from . import json_emit as JE
from .guess import space, ctype, prefix, B8

TU = ['src/BundleHdrEmitter.cc', 'src/BundleHdrParser.cc']
PID = 'P18'
NS = 'libvariant::'
EM = NS + 'BundleHdrEmitterImpl'
PA = NS + 'BundleHdrParserImpl'
RT = '_ZTISt13runtime_error'


def z64(x):
    return z3.ZeroExt(32, bv(x, 32))


# ------------------------------------------------------------------ output
def output(E, st, pid):
    """an output: takes the first r <= n bytes or throws and takes none"""
    st.ghost['out'] = z3.Const('out0', T.Bytes)
    st.ghost['taken'] = z3.BitVecVal(0, 64)

    def write(E, st, a, inst):
        p, n = a[1], bv(a[2], 32)
        E.oblige(st, n != 0, pid, 'a write passes at least one byte')
        arr, o = source(E, st, p, z64(n))
        ex = st.copy()
        r = E.fresh('i32', 'accepted')
        st.assume(z3.ULE(r, n))
        st.ghost['out'] = cat(st.ghost['out'], arr, o, z64(r))
        st.ghost['taken'] = st.ghost['taken'] + z64(r)
        return [Out(st, r), Out(ex, None, Exc(RT))]

    def flush(E, st, a, inst):
        ex = st.copy()
        return [Out(st, None), Out(ex, None, Exc(RT))]

    def num(E, st, a, inst):
        return E.fresh('i32', 'num_bytes') if not hasattr(E, 'written') else E.written(st)
    return abstract_object(E, st, NS + 'EmitterOutput', {r'::Write\(': write, r'::Flush\(': flush, r'::NumBytesWritten\(': num}, name='output')


def source(E, st, p, n):
    """(array, offset) of n readable bytes at p"""
    if isinstance(p.obj, tuple):
        return p.obj[1].range(E, st, p, n)
    h = E.objs[p.obj].handler
    if isinstance(h, Chars):
        g = E.gget(st, h.vec, GChars)
        E.oblige(st, z3.And(z3.ULE(bv(p.off), blen(g.b)), z3.ULE(n, blen(g.b) - bv(p.off))), 'memory', 'characters of a vector')
        return T.arrof(g.b), bv(p.off)
    E.check_access(st, p, simp2(n), 'read')
    k = E.find_region(st, p, 1)
    if k is not None:
        s0, m, arr = st.mem[p.obj].regs[k]
        return arr, simp2(bv(iop('sub', p.off, s0, 64)))
    inf = E.objs[p.obj]
    if not isc(inf.size):
        raise Unsupported('bytes of ' + inf.name)
    a = z3.K(T.BV64, z3.BitVecVal(0, 8))
    for i in range(inf.size):
        a = z3.Store(a, bv(i), bv(E.load(st, Ptr(p.obj, i), 1, 'i8'), 8))
    return a, bv(p.off)


def passed(E, L, src, names=('out',)):
    """templates for a loop that passes on bytes of src = (array, offset, length)"""
    out = []
    ent = L.entry
    o0 = ent.ghost['out']
    arr, o, n = src
    regs = ent.frames[-1].regs
    for i in L.phi_ids:
        v = regs[i]
        if isinstance(v, Ptr):
            d = lambda s, i=i, v=v: bv(s.frames[L.depth - 1].regs[i].off) - bv(v.off)
        elif L.phi_ty[i] == 'i32':
            d = lambda s, i=i, v=v: z64(bv(s.frames[L.depth - 1].regs[i], 32) - bv(v, 32))
            out.append(('counted down', lambda s, i=i, v=v: z3.And(z3.ULE(bv(s.frames[L.depth - 1].regs[i], 32), bv(v, 32)), s.ghost['out'] == cat(o0, arr, o, z64(bv(v, 32) - bv(s.frames[L.depth - 1].regs[i], 32))))))
        elif L.phi_ty[i] == 'i64':
            d = lambda s, i=i, v=v: bv(s.frames[L.depth - 1].regs[i]) - bv(v)
        else:
            continue
        out.append(('passed on', lambda s, d=d: s.ghost['out'] == cat(o0, arr, o, d(s))))
        out.append(('within', lambda s, d=d: z3.ULE(d(s), n)))
    return out


# ------------------------------------------------------------------ writer
class Em:
    def __init__(self, E):
        self.E = E
        st = self.st = State()
        P = E.P
        self.N = {n[4:]: enum(P, EM + '::BHEState_t', n) for n in ('BHE_START', 'BHE_BEGIN', 'BHE_KEY', 'BHE_VALUE', 'BHE_LIST_START', 'BHE_LIST', 'BHE_END', 'BHE_STOP')}
        out = output(E, st, PID)
        self.obj = abstract_object(E, st, EM, {r'::Flush\(\)': self.flush, r'::BeginDocument\(\)': self.begin, r'::EndDocument\(\)': self.end}, name='emitter')
        F = self.F = Fields(E, EM, self.obj)
        E.put(st, F.ptr('output'), 8, out)
        E.put(st, E.padd(F.ptr('output'), 8), 8, NULL)
        F.put(st, 'state', z3.BitVec('state', 32))
        F.put(st, 'numeric_precision', z3.BitVec('precision', 32))
        st.assume(z3.ULT(self.state(st), 8))
        st.ghost['failed'] = z3.BoolVal(False)
        V.error_models(E)
        JE.models(E)

    def state(self, st):
        return self.F.term(st, 'state')

    # contracts of the parts
    def write(self, E, st, a, call):
        n = z64(a[2])
        ex = st.copy()
        ex.ghost['out'] = E.fresh('bytes', 'out')
        ex.ghost['failed'] = z3.BoolVal(True)
        k = simp2(n)
        B = st.ghost['out']
        if z3.is_bv_value(k) and k.as_long() <= 32:
            for i in range(k.as_long()):
                B = snoc(B, bv(E.load(st, E.padd(a[1], i), 1, 'i8'), 8))
        else:
            t = span(E, st, a[1], n)
            B = cat(B, t.arg(1), t.arg(2), t.arg(3)) if t.decl().name() == 'cat' and t.arg(0).eq(nil) else app(B, t)
        st.ghost['out'] = B
        return [Out(st, None), Out(ex, None, Exc(RT))]

    def flush(self, E, st, a, inst):
        ex = st.copy()
        ex.ghost['failed'] = z3.BoolVal(True)
        return [Out(st, None), Out(ex, None, Exc(RT))]

    def cases(self, E, st, op, text=None):
        """(condition, text appended, next state) for the calls that fit"""
        N, s, B = self.N, self.state(st), st.ghost['out']
        lit = lambda b, t: JE.put_text(b, t)
        add = lambda b: app(b, text)
        head = lambda b: lit(b, 'bundle.version: 0.0\n')
        if op == 'BeginDocument()':
            return [(s == N['START'], head(B), N['BEGIN'])]
        if op == 'EndDocument()':
            return [(s != N['STOP'], B, N['STOP'])]
        if op == 'BeginMap(int)':
            return [(s == N['START'], head(B), N['KEY']), (s == N['BEGIN'], B, N['KEY'])]
        if op == 'EndMap()':
            return [(s == N['KEY'], B, N['END'])]
        if op == 'BeginList(int)':
            return [(s == N['VALUE'], B, N['LIST_START'])]
        if op == 'EndList()':
            return [(z3.Or(s == N['LIST'], s == N['LIST_START']), lit(B, '|\n'), N['KEY'])]
        if op == 'Close()':
            return [(z3.BoolVal(True), B, N['STOP'])]
        return [(s == N['KEY'], lit(add(B), ': '), N['VALUE']), (s == N['VALUE'], lit(add(B), '\n'), N['KEY']),
                (s == N['LIST_START'], add(B), N['LIST']), (s == N['LIST'], add(lit(B, '|')), N['LIST'])]

    def apply(self, op):
        def f(E, st, a, call):
            outs = []
            rest = st.copy()
            for c, t, n in self.cases(E, st, op):
                s = st.copy()
                s.assume(c)
                rest.assume(z3.Not(c))
                if not E.feasible(s):
                    continue
                ex = s.copy()
                ex.ghost['failed'] = z3.BoolVal(True)
                ex.ghost['out'] = E.fresh('bytes', 'out')
                self.F.put(ex, 'state', E.fresh('i32', 'state'))
                s.ghost['out'] = t
                self.F.put(s, 'state', n)
                outs += [Out(s, None), Out(ex, None, Exc(RT))]
            if E.feasible(rest):
                outs.append(Out(rest, None, Exc(RT)))
            return outs
        return f

    def begin(self, E, st, a, inst):
        return self.apply('BeginDocument()')(E, st, a, None)

    def end(self, E, st, a, inst):
        return self.apply('EndDocument()')(E, st, a, None)


def verify_write(E):
    X = Em(E)
    st = X.st
    n = z3.BitVec('length', 32)
    arr = z3.Const('text', T.ARR)
    p = E.new_obj(st, 'text', size=z64(n), const=True)
    st.mem[p.obj] = OC({}, ((0, z64(n), arr),))
    E.loop_templates.append(lambda E, L: passed(E, L, (arr, bv(0), z64(n))))
    pre = st.copy()
    E.cover(st, 'precondition')
    k = 0
    for kind, s, v in E.run_function(E.P.find(EM + '::Write(char const*, unsigned int)')[0], st, [X.obj, p, n]):
        k += 1
        if kind == 'ret':
            E.oblige(s, s.ghost['out'] == cat(pre.ghost['out'], arr, bv(0), z64(n)), PID, 'the output has taken the whole text, once and in order')
        E.oblige(s, X.state(s) == X.state(pre), PID, 'writing text keeps the state')
    E.oblige(pre, k > 0, PID, 'Write returns')


def verify_op(E, op):
    X = Em(E)
    st, F = X.st, X.F
    E.summaries[EM + '::Write(char const*, unsigned int)'] = X.write
    args = [X.obj]
    text = None
    if op == 'Emit(char const*)':
        n = z3.BitVec('length', 64)
        st.assume(z3.ULT(n, 1 << 32))
        arr = z3.Const('text', T.ARR)
        p = E.new_obj(st, 'text', size=simp2(n + 1), const=True)
        st.mem[p.obj] = OC({}, ((0, E.objs[p.obj].size, arr),))
        text = cat(nil, arr, bv(0), n)
        st.assume(T.sel(arr, n) == 0, T.nz(text))
        pattern(E, r'strlen', lambda E, s, a, call: n if a[0].obj == p.obj else JE.strlen(E, s, a, call))
        args.append(p)
    elif op == 'Emit(long)':
        x = z3.BitVec('number', 64)
        text = JE.DEC_S(x)
        args.append(x)
    elif op == 'Emit(unsigned long)':
        x = z3.BitVec('number', 64)
        text = JE.DEC_U(x)
        args.append(x)
    elif op == 'Emit(double)':
        x = z3.FP('number', FP['double'])
        text = JE.FMT(x, F.term(st, 'numeric_precision'), z3.BoolVal(True))
        args.append(x)
    elif op == 'Emit(std::shared_ptr<libvariant::Blob const>)':
        args.append(E.new_obj(st, 'blob', size=16, cells={0: (8, E.new_obj(st, 'data', size=8)), 8: (8, NULL)}))
    elif op in ('EmitNull()', 'EmitTrue()', 'EmitFalse()'):
        text = T.lit({'EmitNull()': b'', 'EmitTrue()': b'1', 'EmitFalse()': b'0'}[op])
    elif '(int)' in op:
        args.append(z3.BitVec('count', 32))
    if text is not None:
        st.assume(z3.ULT(blen(text), 1 << 32))
    pre = st.copy()
    E.cover(st, 'precondition')
    cs = [] if 'Blob' in op else X.cases(E, pre, op, text)
    fits = z3.Or(*[c for c, _, _ in cs]) if cs else z3.BoolVal(False)
    k = 0
    for kind, s, v in E.run_function(E.P.find(EM + '::' + op)[0], st, args):
        k += 1
        E.oblige(s, F.term(s, 'numeric_precision') == F.term(pre, 'numeric_precision'), PID, '%s keeps the precision' % op)
        if kind == 'exc':
            E.oblige(s, z3.Or(z3.Not(fits), s.ghost['failed']), PID, '%s that fits is not refused' % op)
            if z3.is_false(z3.simplify(s.ghost['failed'])):
                E.oblige(s, s.ghost['out'] == (z3.If(X.state(pre) == X.N['START'], X.cases(E, pre, 'BeginDocument()')[0][1], pre.ghost['out']) if op == 'BeginMap(int)' else pre.ghost['out']), PID,
                         '%s that is refused writes nothing' % op)
                E.oblige(s, X.state(s) == X.state(pre), PID, '%s that is refused changes nothing' % op)
            continue
        E.oblige(s, fits, PID, '%s that does not fit is refused' % op)
        for c, t, nx in cs:
            E.oblige(s, z3.Implies(c, s.ghost['out'] == t), PID, '%s writes its text' % op)
            E.oblige(s, z3.Implies(c, X.state(s) == nx), PID, '%s goes on to the next position' % op)
    E.oblige(pre, k > 0, PID, '%s returns' % op)


def verify_destroy(E):
    X = Em(E)
    st = X.st

    def close(E, st, a, call):
        ex = st.copy()
        st.ghost['closed'] = ex.ghost['closed'] = z3.BoolVal(True)
        return [Out(st, None), Out(ex, None, Exc(RT))]
    st.ghost['closed'] = z3.BoolVal(False)
    E.summaries[EM + '::Close()'] = close
    pattern(E, r'libvariant::EmitterImpl::~EmitterImpl\(\)', lambda E, st, a, call: None)
    pattern(E, r'std::shared_ptr<libvariant::EmitterOutput>::~shared_ptr\(\)', lambda E, st, a, call: None)
    k = 0
    for f in E.P.find(EM + '::~BundleHdrEmitterImpl()'):
        if 'D0' in f.name:
            continue
        for kind, s, v in E.run_function(f, st.copy(), [X.obj]):
            k += 1
            E.oblige(s, kind == 'ret', PID, 'destruction does not throw')
            E.oblige(s, s.ghost['closed'], PID, 'destruction closes')
    E.oblige(st, k > 0, PID, 'destruction returns')


# ------------------------------------------------------------------ reader
# characters of a line: before the key, in the key, between key and colon, after the colon, in the value, in the comment; 6 no entry
LEAD, KEY, GAP, COLON, VALUE, COMMENT, REFUSED = range(7)


def scan_step(r, b, c):
    v = B8
    ch = lambda x: c == ord(x)
    sp = space(c)
    lead = z3.If(sp, v(LEAD), z3.If(ch(':'), v(COLON), z3.If(ch('#'), v(REFUSED), v(KEY))))
    key = z3.If(ch(':'), v(COLON), z3.If(z3.Or(ch(' '), ch('\t')), v(GAP), z3.If(ch('#'), v(REFUSED), v(KEY))))
    gap = z3.If(sp, v(GAP), z3.If(ch(':'), v(COLON), v(REFUSED)))
    colon = z3.If(sp, v(COLON), z3.If(ch('#'), v(COMMENT), v(VALUE)))
    val = z3.If(ch('#'), v(COMMENT), v(VALUE))
    return z3.If(r == LEAD, lead, z3.If(r == KEY, key, z3.If(r == GAP, gap, z3.If(r == COLON, colon, z3.If(r == VALUE, val, r)))))


SCAN = T.fold('scan_state', z3.BitVecSort(8), B8(LEAD), scan_step)
T.settled(SCAN, lambda t: z3.Or(t == COMMENT, t == REFUSED))
KEYF = T.fold('key_of_line', T.Bytes, nil, lambda r, b, c: z3.If(scan_step(SCAN(b), b, c) == KEY, snoc(r, c), r))
VALF = T.fold('value_of_line', T.Bytes, nil, lambda r, b, c: z3.If(scan_step(SCAN(b), b, c) == VALUE, snoc(r, c), r))
T.frozen(KEYF, lambda B: z3.UGE(SCAN(B), COLON))
T.frozen(VALF, lambda B: z3.UGE(SCAN(B), COMMENT))
NOLF = T.fold('no_line_feed', z3.BoolSort(), z3.BoolVal(True), lambda r, b, c: z3.And(r, c != 10))
TRIM = T.fold('without_space_at_the_end', T.Bytes, nil, lambda r, b, c: z3.If(space(c), r, snoc(b, c)))
ENTRY = lambda l: z3.And(z3.UGE(SCAN(l), COLON), z3.ULE(SCAN(l), COMMENT))

# entries of the remaining input, by the lines it consists of
LINE = z3.Function('first_line', T.Bytes, T.Bytes)
DROP = z3.Function('after_first_line', T.Bytes, T.Bytes)
FOUND = z3.Function('has_entry', T.Bytes, z3.BoolSort())
FKEY = z3.Function('first_key', T.Bytes, T.Bytes)
FVAL = z3.Function('first_value', T.Bytes, T.Bytes)
FREST = z3.Function('after_first_entry', T.Bytes, T.Bytes)
# fields of a value: the longest runs without a bar
FIELD = z3.Function('field', T.Bytes, z3.BitVecSort(64), T.Bytes)
FIELDS = z3.Function('number_of_fields', T.Bytes, z3.BitVecSort(64))


def entries(R):
    """definition of the first entry of the lines R"""
    l, d = LINE(R), DROP(R)
    use = z3.And(ENTRY(l), KEYF(l) != T.lit(b'bundle.version'))
    same_as = z3.And(FOUND(R) == FOUND(d), FKEY(R) == FKEY(d), FVAL(R) == FVAL(d), FREST(R) == FREST(d))
    return z3.If(R == nil, z3.Not(FOUND(R)), z3.If(use, z3.And(FOUND(R), FKEY(R) == KEYF(l), FVAL(R) == TRIM(VALF(l)), FREST(R) == d), same_as))


class GChars:
    """contents of a std::vector<char>; split: strtok_r has put zeros between its fields"""
    SIZE = 24

    def __init__(self, b, split=False):
        self.b, self.split = b, split

    def gsame(self, o):
        return isinstance(o, GChars) and self.b.eq(o.b) and self.split == o.split

    def havoc(self, E, st, name, others):
        if any(isinstance(o, GChars) and o.split != self.split for o in others):
            raise Unsupported('a value is split inside a loop')
        return GChars(E.fresh('bytes', name), self.split)


class GFields:
    """std::deque<char*> of the fields a..n of a value"""
    SIZE = 80

    def __init__(self, v, a, n):
        self.v, self.a, self.n = v, a, n

    def gsame(self, o):
        return isinstance(o, GFields) and (self.v is o.v or (self.v is not None and o.v is not None and self.v.eq(o.v))) and same(self.a, o.a) and same(self.n, o.n)

    def havoc(self, E, st, name, others):
        v = self.v
        for o in others:
            v = v if v is not None else o.v
        return GFields(v, self.a, E.fresh('i64', name))


def ends(st, b):
    """the last two characters of b"""
    i, l, arr = T.Bytes.init, T.Bytes.last, T.arrof(b)
    st.assume(z3.Implies(b != nil, z3.And(blen(b) == blen(i(b)) + 1, T.sel(arr, blen(b) - 1) == l(b), (blen(i(b)) == 0) == (i(b) == nil))),
              z3.Implies(z3.And(b != nil, i(b) != nil), z3.And(blen(i(b)) == blen(i(i(b))) + 1, T.sel(arr, blen(b) - 2) == l(i(b)))))


class Chars:
    """the characters behind &vector[0]"""

    def __init__(self, vec):
        self.vec = vec

    def load(self, E, st, p, size, ty):
        g = E.gget(st, self.vec, GChars)
        if size != 1 or g.split:
            raise Unsupported('reading split text')
        E.oblige(st, z3.ULT(bv(p.off), blen(g.b)), 'memory', 'character of a vector')
        ends(st, g.b)
        return simp2(T.sel(T.arrof(g.b), bv(p.off)))

    def store(self, E, st, p, size, v, ty):
        g = E.gget(st, self.vec, GChars)
        E.oblige(st, z3.ULT(bv(p.off), blen(g.b)), 'memory', 'character of a vector')
        if size != 1 or E.feasible(st, bv(p.off) != blen(g.b) - 1):
            raise Unsupported('store inside a vector')
        E.gput(st, self.vec, GChars(snoc(T.Bytes.init(g.b), bv(v, 8))))
        return True


def chars_models(E):
    rx = r'std::vector<char, std::allocator<char>>::'

    def view(E, st, a, i):
        p = E.new_obj(st, 'characters of a vector', size=None, handler=Chars(a[0]))
        return Ptr(p.obj, simp2(bv(i)))

    def push(E, st, a, call):
        g = E.gget(st, a[0], GChars)
        E.gput(st, a[0], GChars(snoc(g.b, bv(E.load(st, a[1], 1, 'i8'), 8))))

    def pop(E, st, a, call):
        g = E.gget(st, a[0], GChars)
        E.oblige(st, g.b != nil, 'memory', 'pop_back of an empty vector')
        ends(st, g.b)
        E.gput(st, a[0], GChars(T.Bytes.init(g.b)))

    def back(E, st, a, call):
        g = E.gget(st, a[0], GChars)
        E.oblige(st, g.b != nil, 'memory', 'back of an empty vector')
        return view(E, st, a, blen(g.b) - 1)

    def size(E, st, a, call):
        g = E.gget(st, a[0], GChars)
        ends(st, g.b)
        return blen(g.b)
    pattern(E, rx + r'clear\(\)', lambda E, st, a, call: E.gput(st, a[0], GChars(nil)))
    pattern(E, rx + r'push_back\(char( const&|&&)\)', push)
    pattern(E, rx + r'pop_back\(\)', pop)
    pattern(E, rx + r'size\(\) const', size)
    pattern(E, rx + r'empty\(\) const', lambda E, st, a, call: simp(E.gget(st, a[0], GChars).b == nil))
    pattern(E, rx + r'(operator\[\]|at)\(unsigned long\)( const)?', lambda E, st, a, call: view(E, st, a, a[1]))
    pattern(E, rx + r'(data|front)\(\)( const)?', lambda E, st, a, call: view(E, st, a, 0))
    pattern(E, rx + r'back\(\)( const)?', back)


def text_at(E, st, p):
    """the C string at p"""
    inf = E.objs[p.obj]
    if isinstance(inf.handler, Chars):
        g = E.gget(st, inf.handler.vec, GChars)
        E.oblige(st, z3.And(g.b != nil, T.Bytes.last(g.b) == 0, bv(p.off) == 0), 'memory', 'a C string is terminated')
        if g.split:
            raise Unsupported('reading split text')
        return T.Bytes.init(g.b)
    if hasattr(inf.data, 'b') and isc(p.off) and p.off == 0:
        return inf.data.b
    return cstring(E, st, p)


class Pa:
    def __init__(self, E):
        self.E = E
        st = self.st = State()
        P = E.P
        self.N = {m[0]: m[1] for m in P.types[PA + '::State_t']['members']}
        self.obj = E.new_obj(st, 'parser', size=P.types[PA]['size'], init='sym')
        F = self.F = Fields(E, PA, self.obj)
        self.S = z3.Const('rest', T.Bytes)
        st.assume(z3.ULT(blen(self.S), 1 << 30))
        inp = abstract_object(E, st, NS + 'ParserInput', {r'::GetPtr\(': self.getptr, r'::Release\(': self.release})
        E.put(st, F.ptr('input'), 8, inp)
        E.put(st, E.padd(F.ptr('input'), 8), 8, NULL)
        F.put(st, 'state', z3.BitVec('state', 32))
        F.put(st, 'line_len', z3.BitVec('line_len', 32))
        F.put(st, 'line_end', z3.BitVec('line_end', 32))
        F.put(st, 'line_num', z3.BitVec('line_num', 32))
        st.ghost['released'] = z3.BitVecVal(0, 64)
        self.buf = E.new_obj(st, 'available input', size=blen(self.S), const=True)
        st.mem[self.buf.obj] = OC({}, ((0, blen(self.S), T.arrof(self.S)),))
        V.error_models(E)
        ctype(E)
        chars_models(E)

    def getptr(self, E, st, a, inst):
        total = blen(self.S)
        E.oblige(st, st.ghost['released'] == 0, PID, 'a line is looked at before it is released')
        want = z64(E.load(st, a[1], 4, 'i32'))
        n = E.fresh('i32', 'available')
        N = z64(n)
        end = st.copy()
        end.assume(self.S == nil)
        E.store(end, a[1], 4, 0, 'i32')
        if not E.feasible(st, self.S != nil):
            E.store(st, a[1], 4, 0, 'i32')
            return [Out(st, self.buf), Out(end, NULL)]
        st.assume(z3.ULE(N, total), z3.Or(z3.UGE(N, want), N == total), z3.Implies(n == 0, self.S == nil))
        E.store(st, a[1], 4, n, 'i32')
        o = [Out(st, self.buf)]
        if E.feasible(end):
            o.append(Out(end, NULL))
        return o

    def release(self, E, st, a, inst):
        E.oblige(st, z3.ULE(z64(a[1]), blen(self.S)), PID, 'no more is released than there is')
        st.ghost['released'] = st.ghost['released'] + z64(a[1])


def step_fact(b, n):
    return z3.Implies(z3.ULT(n, blen(b)), prefix(b, n + 1) == snoc(prefix(b, n), T.sel(T.arrof(b), n)))


def verify_readline(E):
    X = Pa(E)
    st, F, S = X.st, X.F, X.S

    def temps(E, L):
        out = []
        nums = [(lambda s, i=i: s.frames[L.depth - 1].regs[i]) for i in L.phi_ids if L.phi_ty[i] == 'i32']
        for o, c in list(L.entry.mem.items()):
            for off, (size, v) in c.cells.items():
                if size == 4 and E.objs[o].kind != 'afn' and (E.objs[o].local or o == X.obj.obj):
                    nums.append(lambda s, o=o, off=off: E.load(s, Ptr(o, off), 4, 'i32'))
        for g in nums:
            def f(s, g=g):
                n = z64(g(s))
                return z3.And(z3.ULE(n, blen(S)), NOLF(prefix(S, n)), step_fact(S, n), NOLF(prefix(S, n + 1)) == NOLF(prefix(S, n + 1)))
            out.append(('no line feed so far', f))
            out.append(('within', lambda s, g=g: z3.ULE(z64(g(s)), blen(S))))
        for g in nums:
            for h in nums:
                if g is not h:
                    out.append(('more is asked for', lambda s, g=g, h=h: z3.Or(z3.And(bv(g(s), 32) == 0, bv(h(s), 32) == 0), z3.And(z3.ULT(bv(g(s), 32), bv(h(s), 32)), z3.ULT(bv(h(s), 32), 1 << 31)))))
                    out.append(('order', lambda s, g=g, h=h: z3.ULE(bv(g(s), 32), bv(h(s), 32))))
        return out
    E.loop_templates.append(temps)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, v in E.run_function(E.P.find(PA + '::ReadLine()')[0], st, [X.obj]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'reading a line succeeds')
        if kind != 'ret':
            continue
        n, e = z64(F.term(s, 'line_len')), z64(F.term(s, 'line_end'))
        line = F.get(s, 'line', 'ptr')
        E.oblige(s, (S == nil) if line.obj == 0 else z3.And(S != nil, bv(line.off) == 0), PID, 'there is a line unless the input has ended')
        E.oblige(s, s.ghost['released'] == 0, PID, 'a line is not released before its use')
        if line.obj:
            E.oblige(s, line.obj == X.buf.obj, PID, 'a line lies in the input')
            E.oblige(s, z3.And(z3.ULE(n, blen(S)), NOLF(prefix(S, n))), PID, 'a line contains no line feed')
            E.oblige(s, z3.If(z3.ULT(n, blen(S)), z3.And(T.sel(T.arrof(S), n) == 10, e == n + 1), e == n), PID, 'a line ends at a line feed or with the input')
    E.oblige(st, k > 0, PID, 'ReadLine returns')


def verify_retire(E):
    X = Pa(E)
    st, F = X.st, X.F
    st.assume(z3.ULE(z64(F.term(st, 'line_end')), blen(X.S)))
    pre = st.copy()
    k = 0
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(PA + '::RetireLine()')[0], st, [X.obj]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'releasing a line succeeds')
        E.oblige(s, s.ghost['released'] == z64(F.term(pre, 'line_end')), PID, 'a line is released with its line feed')
    E.oblige(st, k > 0, PID, 'RetireLine returns')


def verify_scan(E):
    X = Pa(E)
    st, F = X.st, X.F
    l = z3.Const('line', T.Bytes)
    n = blen(l)
    st.assume(z3.ULT(n, 1 << 31), F.term(st, 'line_len') == z3.Extract(31, 0, n))
    p = E.new_obj(st, 'line', size=n, const=True)
    st.mem[p.obj] = OC({}, ((0, n, T.arrof(l)),))
    F.put(st, 'line', p)
    for f in ('key', 'value'):
        E.gput(st, F.ptr(f), GChars(z3.Const(f, T.Bytes)))
    key = lambda s: E.gget(s, F.ptr('key'), GChars).b
    val = lambda s: E.gget(s, F.ptr('value'), GChars).b

    def temps(E, L):
        out = []
        for i in L.phi_ids:
            if L.phi_ty[i] == 'ptr':
                get = lambda s, i=i: bv(s.frames[L.depth - 1].regs[i].off)
            elif L.phi_ty[i] in ('i32', 'i64'):
                get = lambda s, i=i: (lambda x: z64(x) if isinstance(x, z3.BitVecRef) and x.size() == 32 else bv(x))(s.frames[L.depth - 1].regs[i])
            else:
                continue

            def cand(which, get=get):
                return lambda s: which(s, prefix(l, get(s)), T.sel(T.arrof(l), get(s)), z3.ULT(get(s), n))

            def basic(s, get=get):
                x = get(s)
                nx = prefix(l, x + 1)
                return z3.And(z3.ULE(x, n), step_fact(l, x), SCAN(nx) == SCAN(nx), KEYF(nx) == KEYF(nx), VALF(nx) == VALF(nx))
            out.append(('characters so far', basic))
            stops = lambda c: z3.Or(*[c == ord(x) for x in ': \t'])
            for i in (LEAD, COLON):
                out.append(('state %d' % i, cand(lambda s, b, c, more, i=i: SCAN(b) == i)))
                out.append(('no space to skip in state %d' % i, cand(lambda s, b, c, more, i=i: z3.Implies(z3.And(SCAN(b) == i, more), z3.Not(space(c))))))
            out.append(('in the key', cand(lambda s, b, c, more: z3.Or(SCAN(b) == LEAD, SCAN(b) == KEY))))
            out.append(('after the key', cand(lambda s, b, c, more: z3.ULE(SCAN(b), GAP))))
            out.append(('at the end of the key', cand(lambda s, b, c, more: z3.Implies(z3.And(SCAN(b) == KEY, more), stops(c)))))
            out.append(('an empty key', cand(lambda s, b, c, more: z3.Implies(z3.And(SCAN(b) == LEAD, more), c == ord(':')))))
            for j in L.phi_ids:
                if L.phi_ty[j] in ('i1', 'i8'):
                    out.append(('the key goes on', cand(lambda s, b, c, more, j=j: z3.Or(V.tob(s.frames[L.depth - 1].regs[j]), z3.And(more, stops(c))))))
            out.append(('after the colon', cand(lambda s, b, c, more: z3.Or(SCAN(b) == COLON, SCAN(b) == VALUE))))
            out.append(('key', cand(lambda s, b, c, more: key(s) == KEYF(b))))
            out.append(('whole key', cand(lambda s, b, c, more: key(s) == snoc(KEYF(b), B8(0)))))
            out.append(('value', cand(lambda s, b, c, more: val(s) == VALF(b))))
            out.append(('no value yet', cand(lambda s, b, c, more: VALF(b) == nil)))
            out.append(('no key yet', cand(lambda s, b, c, more: KEYF(b) == nil)))
        return out
    E.loop_templates.append(temps)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::ScanLine()')[0], st, [X.obj]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'looking at a line succeeds')
        if kind != 'ret':
            continue
        ok = V.tob(r)
        E.oblige(s, ok == ENTRY(l), PID, 'a line is an entry if it has a key, a colon and no comment before')
        E.oblige(s, z3.Implies(ok, key(s) == snoc(KEYF(l), B8(0))), PID, 'the key is the text before the colon')
        E.oblige(s, z3.Implies(ok, val(s) == snoc(VALF(l), B8(0))), PID, 'the value is the text after the colon and before a comment')
    E.oblige(st, k > 0, PID, 'ScanLine returns')


def verify_run(E, name, some=None):
    X = Pa(E)
    st, F, N = X.st, X.F, X.N
    if some is not None:
        st.assume((X.S != nil) == some)
    st.assume(F.term(st, 'state') == N[name])
    F.put(st, 'state', N[name])
    v0 = z3.Const('value0', T.Bytes)
    st.assume(T.nz(v0), z3.ULT(blen(v0), 1 << 31), z3.ULT(FIELDS(v0), 1 << 31))
    E.gput(st, F.ptr('key'), GChars(z3.Const('key0', T.Bytes)))
    a0 = z3.BitVec('next_field', 64)
    if name == 'LIST':
        E.gput(st, F.ptr('value'), GChars(snoc(v0, B8(0)), True))
        st.assume(z3.ULE(a0, FIELDS(v0)))
        E.gput(st, F.ptr('list'), GFields(v0, a0, FIELDS(v0)))
    else:
        E.gput(st, F.ptr('value'), GChars(snoc(v0, B8(0)) if name == 'VALUE' else z3.Const('value0b', T.Bytes)))
        E.gput(st, F.ptr('list'), GFields(None, bv(0), bv(0)))
    st.ghost['events'] = ()
    st.ghost['rest'] = X.S
    st.ghost['fields'] = bv(0)
    st.ghost['thrown'] = False
    steps = {}

    # one step: the stack of handlers is found empty the second time
    def empty(E, st, a, call):
        st.ghost[('iter', 'steps')] = k = st.ghost.get(('iter', 'steps'), 0) + 1
        return 1 if k > 1 else 0

    def event(kind):
        def f(E, st, a, inst):
            E.oblige(st, same(a[1], X.obj), PID, 'events name their parser')
            ev = (kind,)
            if kind == 'text':
                t = text_at(E, st, a[2])
                E.oblige(st, z64(a[3]) == blen(t), PID, 'an event carries the length of its text')
                E.oblige(st, same(a[-1], NULL) and same(a[-2], NULL), PID, 'headers have no anchors or tags')
                ev = (kind, t)
            elif kind in ('BeginMap', 'BeginList'):
                E.oblige(st, bv(a[2], 32) == z3.BitVecVal(-1, 32), PID, 'the number of elements is not known')
            st.ghost['events'] = st.ghost['events'] + (ev,)
            ex = st.copy()
            ex.ghost['thrown'] = True
            return [Out(st, None), Out(ex, None, Exc(RT))]
        return f
    kinds = {r'::Scalar\(.*ParserImpl\*, char const\*, unsigned int': 'text'}
    for k in ('BeginDocument', 'EndDocument', 'BeginMap', 'EndMap', 'BeginList', 'EndList'):
        kinds[r'::%s\(' % k] = k
    kinds[r'::(?!~)'] = 'other'
    act = abstract_object(E, st, NS + 'ParserActions', {k: event(v) for k, v in kinds.items()})

    def guess(E, st, a, call):
        t = text_at(E, st, a[0])
        E.oblige(st, z3.Extract(31, 0, blen(t)) == bv(a[1], 32), PID, 'a scalar is guessed from its whole text')
        E.oblige(st, same(a[2], NULL) and same(a[3], NULL), PID, 'headers have no anchors or tags')
        E.oblige(st, same(a[4], X.obj) and same(a[5], act), PID, 'guessed scalars go to the handler')
        st.ghost['events'] = st.ghost['events'] + (('guess', t),)
        ex = st.copy()
        ex.ghost['thrown'] = True
        return [Out(st, None), Out(ex, None, Exc(RT))]
    E.summaries[NS + 'GuessScalar(char const*, unsigned int, char const*, char const*, %sParserImpl*, %sParserActions*)' % (NS, NS)] = guess
    E.summaries[NS + 'ParserImpl::TopAction()'] = lambda E, st, a, call: act
    pattern(E, r'std::deque<std::shared_ptr<libvariant::ParserActions>.*::empty\(\) const', empty)

    # the lines of the input
    def readline(E, st, a, call):
        R = st.ghost['rest']
        st.assume(entries(R))
        end = st.copy()
        end.assume(R == nil)
        F.put(end, 'line', NULL)
        F.put(end, 'line_len', 0)
        F.put(end, 'line_end', 0)
        l = LINE(R)
        st.assume(R != nil, z3.ULT(blen(l), 1 << 31), T.nz(KEYF(l)), T.nz(VALF(l)), z3.ULT(blen(KEYF(l)), 1 << 31))
        F.put(st, 'line', str_view(E, st, l))
        F.put(st, 'line_len', z3.Extract(31, 0, blen(l)))
        F.put(st, 'line_end', E.fresh('i32', 'line_end'))
        return [Out(st, None), Out(end, None)]

    def retire(E, st, a, call):
        E.oblige(st, st.ghost['rest'] != nil, PID, 'a line read is released')
        st.ghost['rest'] = DROP(st.ghost['rest'])
        F.put(st, 'line', NULL)
        F.put(st, 'line_len', 0)

    def scan(E, st, a, call):
        line = F.get(st, 'line', 'ptr')
        d = E.objs[line.obj].data
        if line.obj == 0 or not hasattr(d, 'b'):
            E.oblige(st, False, PID, 'the line read is looked at')
            raise PathEnd()
        l = d.b
        ok = ENTRY(l)
        no = st.copy()
        st.assume(ok)
        no.assume(z3.Not(ok))
        E.gput(st, F.ptr('key'), GChars(snoc(KEYF(l), B8(0))))
        E.gput(st, F.ptr('value'), GChars(snoc(VALF(l), B8(0))))
        for f in ('key', 'value'):
            E.gput(no, F.ptr(f), GChars(E.fresh('bytes', f)))
        return [Out(x, r) for x, r in ((st, 1), (no, 0)) if E.feasible(x)]
    E.summaries[PA + '::ReadLine()'] = readline
    E.summaries[PA + '::RetireLine()'] = retire
    E.summaries[PA + '::ScanLine()'] = scan

    def strcmp(E, st, a, call):
        x, y = text_at(E, st, a[0]), text_at(E, st, a[1])
        return simp2(z3.If(x == y, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
    pattern(E, r'strcmp', strcmp)
    pattern(E, r'strlen', lambda E, st, a, call: blen(text_at(E, st, a[0])))

    # fields of a value
    def strtok(E, st, a, call):
        E.oblige(st, T.lit(b'|') == text_at(E, st, a[1]), PID, 'fields are separated by bars')
        k = st.ghost['fields']
        if a[0].obj:
            E.oblige(st, z3.And(text_at(E, st, a[0]) == v0, k == 0) if not E.gget(st, F.ptr('value'), GChars).split else k == 0, PID, 'the value is split once')
            steps['ctx'] = a[2].obj
        else:
            E.oblige(st, steps.get('ctx') == a[2].obj, PID, 'the same value is split further')
        end = st.copy()
        end.assume(z3.UGE(k, FIELDS(v0)))
        st.assume(z3.ULT(k, FIELDS(v0)))
        st.ghost['fields'] = simp2(k + 1)
        return [Out(x, r) for x, r in ((st, Ptr(fields.obj, k)), (end, NULL)) if E.feasible(x)]
    fields = E.new_obj(st, 'fields', size=FIELDS(v0))
    pattern(E, r'strtok_r', strtok)
    rx = r'std::deque<char\*, std::allocator<char\*>>::'
    glist = lambda E, st, a: E.gget(st, a[0], GFields)

    def lpush(E, st, a, call):
        g = glist(E, st, a)
        p = E.load(st, a[1], 8, 'ptr')
        E.oblige(st, p.obj == fields.obj and bv(p.off) == g.n, PID, 'fields keep their order')
        E.gput(st, a[0], GFields(v0, g.a, simp2(bv(g.n) + 1)))

    def lfront(E, st, a, call):
        g = glist(E, st, a)
        E.oblige(st, z3.ULT(bv(g.a), bv(g.n)), 'memory', 'front of an empty list')
        t = FIELD(v0, bv(g.a))
        st.assume(z3.ULT(blen(t), 1 << 31))
        return E.new_obj(st, 'slot', size=8, cells={0: (8, str_view(E, st, t))})

    def lpop(E, st, a, call):
        g = glist(E, st, a)
        E.oblige(st, z3.ULT(bv(g.a), bv(g.n)), 'memory', 'pop_front of an empty list')
        E.gput(st, a[0], GFields(g.v, simp2(bv(g.a) + 1), g.n))
    pattern(E, rx + r'push_back\(char\* const&\)', lpush)
    pattern(E, rx + r'push_back\(char\*&&\)', lpush)
    pattern(E, rx + r'front\(\)', lfront)
    pattern(E, rx + r'pop_front\(\)', lpop)
    pattern(E, rx + r'empty\(\) const', lambda E, st, a, call: simp(bv(glist(E, st, a).a) == bv(glist(E, st, a).n)))
    pattern(E, rx + r'size\(\) const', lambda E, st, a, call: simp2(bv(glist(E, st, a).n) - bv(glist(E, st, a).a)))
    pattern(E, rx + r'clear\(\)', lambda E, st, a, call: E.gput(st, a[0], GFields(None, bv(0), bv(0))))
    pattern(E, STR + r'::operator=\(char const\*\)', lambda E, st, a, call: a[0])

    def temps(E, L):
        out = [('entries', lambda s: z3.And(*[f(s.ghost['rest']) == f(X.S) for f in (FOUND, FKEY, FVAL, FREST)]))]
        val = lambda s: E.gget(s, F.ptr('value'), GChars).b
        e = val(L.entry)
        out.append(('trimmed', lambda s: z3.And(val(s) != nil, T.Bytes.last(val(s)) == 0, TRIM(T.Bytes.init(val(s))) == TRIM(T.Bytes.init(e)), z3.ULE(blen(val(s)), blen(e)))))
        out.append(('value kept', lambda s: val(s) == e))
        lst = lambda s: E.gget(s, F.ptr('list'), GFields)
        out.append(('fields', lambda s: z3.And(bv(lst(s).n) == s.ghost['fields'], z3.ULE(s.ghost['fields'], FIELDS(v0)))))
        for i in L.phi_ids:
            if L.phi_ty[i] == 'i32':
                out.append(('count', lambda s, i=i: z64(s.frames[L.depth - 1].regs[i]) == s.ghost['fields']))
        return out
    E.loop_templates.append(temps)
    pre = st.copy()
    k = 0
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(PA + '::Run()')[0], st, [X.obj]):
        k += 1
        ev = s.ghost['events']
        state = F.term(s, 'state')
        lst, val = E.gget(s, F.ptr('list'), GFields), E.gget(s, F.ptr('value'), GChars)
        E.oblige(s, kind == 'ret' or s.ghost['thrown'], PID, 'reading on fails only if the handler does')
        is_ev = lambda *e: len(ev) == 1 and ev[0][0] in e
        none = bv(lst.a) == bv(lst.n)
        if name == 'START':
            if is_ev('BeginDocument'):
                E.oblige(s, z3.And(state == N['BEGIN_MAP'], X.S != nil), PID, 'a document begins if there is input')
            else:
                E.oblige(s, z3.And(len(ev) == 0, state == N['STOP'], X.S == nil, bv(r, 32) == 1), PID, 'without input there is no document')
        elif name == 'BEGIN_MAP':
            E.oblige(s, z3.And(is_ev('BeginMap'), state == N['KEY']), PID, 'the document is a map')
        elif name == 'END_MAP':
            E.oblige(s, z3.And(is_ev('EndMap'), state == N['END']), PID, 'the map ends')
        elif name == 'END':
            E.oblige(s, z3.And(is_ev('EndDocument'), state == N['STOP']), PID, 'the document ends')
        elif name == 'STOP':
            E.oblige(s, z3.And(len(ev) == 0, state == N['STOP'], bv(r, 32) == 1), PID, 'nothing follows the document')
        elif name == 'KEY':
            if is_ev('text'):
                E.oblige(s, z3.And(FOUND(X.S), state == N['VALUE']), PID, 'a key is followed by its value')
                E.oblige(s, ev[0][1] == FKEY(X.S), PID, 'the key is that of the next entry')
                E.oblige(s, z3.And(val.b == snoc(FVAL(X.S), B8(0)), not val.split), PID, 'the value is that of the next entry, without white space at its end')
                E.oblige(s, s.ghost['rest'] == FREST(X.S), PID, 'reading goes on after the entry')
            else:
                E.oblige(s, z3.And(len(ev) == 0, z3.Not(FOUND(X.S)), state == N['END_MAP']), PID, 'the map ends where there are no more entries')
        elif name == 'VALUE':
            bar = z3.And(v0 != nil, T.Bytes.last(v0) == ord('|'))
            islist = z3.Or(z3.UGT(FIELDS(v0), 1), bar)
            if is_ev('guess'):
                E.oblige(s, z3.And(z3.Not(islist), state == N['KEY']), PID, 'a value with one field and no bar at its end is a scalar')
                E.oblige(s, ev[0][1] == v0, PID, 'a scalar is the whole value')
                E.oblige(s, none, PID, 'a scalar leaves no fields behind')
            else:
                E.oblige(s, z3.And(is_ev('BeginList'), islist, state == N['LIST']), PID, 'a value with several fields or a bar at its end is a list')
                E.oblige(s, z3.And(bv(lst.a) == 0, bv(lst.n) == FIELDS(v0)), PID, 'a list has all fields of the value')
                E.oblige(s, val.b == snoc(v0, B8(0)), PID, 'the text of the fields stays')
        elif name == 'LIST':
            if is_ev('guess'):
                E.oblige(s, z3.And(z3.ULT(a0, FIELDS(v0)), state == N['LIST']), PID, 'a list goes on while there are fields')
                E.oblige(s, ev[0][1] == FIELD(v0, a0), PID, 'an element is the next field')
                E.oblige(s, z3.And(bv(lst.a) == a0 + 1, bv(lst.n) == FIELDS(v0)), PID, 'one field after the other')
                E.oblige(s, z3.And(val.b == snoc(v0, B8(0)), val.split), PID, 'the text of the fields stays')
            else:
                E.oblige(s, z3.And(is_ev('EndList'), a0 == FIELDS(v0), state == N['KEY'], none), PID, 'a list ends after its last field')
        if name in ('START', 'BEGIN_MAP', 'KEY'):
            E.oblige(s, none, PID, 'no fields are left over')
        E.oblige(s, s.ghost['rest'] == X.S if name != 'KEY' else True, PID, 'only looking for a key takes input')
    E.oblige(pre, k > 0, PID, 'Run returns')


def verify_reset(E):
    X = Pa(E)
    st, F, N = X.st, X.F, X.N
    for f in ('key', 'value'):
        E.gput(st, F.ptr(f), GChars(z3.Const(f, T.Bytes)))
    E.gput(st, F.ptr('list'), GFields(None, bv(0), z3.BitVec('left', 64)))
    pattern(E, r'std::deque<char\*, std::allocator<char\*>>::clear\(\)', lambda E, st, a, call: E.gput(st, a[0], GFields(None, bv(0), bv(0))))
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::Reset()')[0], st, [X.obj]):
        k += 1
        l = E.gget(s, F.ptr('list'), GFields)
        E.oblige(s, kind == 'ret', PID, 'Reset succeeds')
        E.oblige(s, z3.And(F.term(s, 'state') == N['START'], bv(l.a) == bv(l.n), F.term(s, 'line_num') == 0), PID, 'after a reset reading starts over')
    E.oblige(st, k > 0, PID, 'Reset returns')


def verify_answer(E, name):
    X = Pa(E)
    st, F, N = X.st, X.F, X.N
    E.cover(st, 'precondition')
    st.assume(z3.ULE(F.term(st, 'state'), N['STOP']))
    stop = F.term(st, 'state') == N['STOP']
    want = {'Done': stop, 'Error': z3.BoolVal(False), 'Ok': z3.Not(stop)}[name]
    for kind, s, r in E.run_function(E.P.find(PA + '::%s() const' % name)[0], st, [X.obj]):
        E.oblige(s, kind == 'ret', PID, name + ' succeeds')
        E.oblige(s, V.tob(r) == want, PID, name + ' tells whether the document has ended')


OPS = ['BeginDocument()', 'EndDocument()', 'BeginMap(int)', 'EndMap()', 'BeginList(int)', 'EndList()', 'EmitNull()', 'EmitTrue()', 'EmitFalse()', 'Emit(char const*)', 'Emit(long)', 'Emit(unsigned long)',
       'Emit(double)', 'Emit(std::shared_ptr<libvariant::Blob const>)', 'Close()']


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, f, args=()):
        return Task('bundle: ' + name, fn, args, props=(PID,), safety=PID, funcs=[f])
    out = [t('writing text', verify_write, EM + '::Write(char const*, unsigned int)'), t('destruction of the writer', verify_destroy, EM + '::~BundleHdrEmitterImpl()')]
    for o in OPS:
        out.append(t('writer ' + o, verify_op, EM + '::' + o, (o,)))
    for n, f in (('reading a line', verify_readline), ('releasing a line', verify_retire), ('looking at a line', verify_scan), ('starting over', verify_reset)):
        out.append(t(n, f, PA + '::' + {verify_readline: 'ReadLine()', verify_retire: 'RetireLine()', verify_scan: 'ScanLine()', verify_reset: 'Reset()'}[f]))
    for n in (True, False):
        out.append(t('a step of reading, START with%s input' % ('' if n else 'out'), verify_run, PA + '::Run()', ('START', n)))
    for n in ('BEGIN_MAP', 'KEY', 'VALUE', 'LIST', 'END_MAP', 'END', 'STOP'):
        out.append(t('a step of reading, ' + n, verify_run, PA + '::Run()', (n,)))
    for n in ('Done', 'Error', 'Ok'):
        out.append(t('reader ' + n, verify_answer, PA + '::%s() const' % n, (n,)))
    return out
