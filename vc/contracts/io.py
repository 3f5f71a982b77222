"""Contracts for the input sources (src/ParserInput.cc) and the output targets (src/EmitterOutput.cc)."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat
from ..engine import *
from ..lib import *

TU = ['src/ParserInput.cc', 'src/EmitterOutput.cc']
NS = 'libvariant::'


def z64(x):
    return z3.ZeroExt(32, bv(x, 32))


def text_in(E, st, p, n):
    """Bytes of n characters at p; the range must be readable"""
    E.check_access(st, p, simp2(n), 'read')
    k = E.find_region(st, p, 1)
    s0, m, a = st.mem[p.obj].regs[k]
    return a, simp2(bv(iop('sub', p.off, s0, 64)))


# ------------------------------------------------------------------ stream input
class Stream:
    """ParserStreamInput under its representation invariant, with ghosts
    released: bytes released so far;  delivered: bytes the source has handed over so far"""

    def __init__(self, E, cls='ParserStreamInput'):
        self.E = E
        st = self.st = State()
        self.size = S = z3.BitVec('buffer_size', 64)
        st.assume(S != 0, z3.ULT(S, 1 << 32))
        self.arr0 = z3.Const('buffer_bytes', T.ARR)
        buf = E.new_obj(st, 'buffer', size=S, heap=True)
        st.mem[buf.obj] = OC({}, ((0, S, self.arr0),))
        st.ghost['released'] = z3.Const('released0', T.Bytes)
        st.ghost['ended'] = z3.BoolVal(False)
        self.obj = abstract_object(E, st, NS + 'ParserStreamInput', {r'::Read\(': self.read}, name='input')
        F = self.F = Fields(E, NS + 'ParserStreamInput', self.obj)
        b = F.ptr('buffer')
        E.put(st, b, 8, buf)
        E.put(st, E.padd(b, 8), 8, Ptr(buf.obj, S))
        E.put(st, E.padd(b, 16), 8, Ptr(buf.obj, S))
        for n in ('num', 'offset'):
            F.put(st, n, z3.BitVec(n, 32))
        F.put(st, 'eof', z3.BitVec('eof', 8))
        st.ghost['ended'] = z3.Bool('ended')
        st.ghost['delivered'] = cat(st.ghost['released'], self.arr0, z64(F.term(st, 'offset')), z64(F.term(st, 'num')))
        for l, c in self.inv(st):
            st.assume(c)

    def read(self, E, st, a, inst):
        """contract of Read: hands over the next n <= len bytes of the source, 0 only at its end; may throw without taking any"""
        p, n = a[1], bv(E.zx(st, a[2]))
        E.oblige(st, n != 0, 'P06', 'a read asks for at least one byte')
        E.check_access(st, p, simp2(n), 'write')
        ex = st.copy()
        k = E.find_region(st, p, 1)
        oc = st.mem[p.obj].copy()
        s0, m, arr = oc.regs[k]
        src = E.fresh('arr', 'source')
        r = E.fresh('i32', 'read')
        st.assume(z3.ULE(z64(r), n))
        oc.regs = ((s0, m, T.acopy(arr, bv(iop('sub', p.off, s0, 64)), src, bv(0), n)),)
        st.mem[p.obj] = oc
        E.oblige(st, z3.Not(st.ghost['ended']), 'P06', 'the source is not read again after its end')
        st.ghost['ended'] = simp2(r == 0)
        st.ghost['delivered'] = cat(st.ghost['delivered'], src, bv(0), z64(r))
        return [Out(st, r), Out(ex, None, Exc('_ZTISt13runtime_error'))]

    def buf(self, st):
        p = self.E.load(st, self.F.ptr('buffer'), 8, 'ptr')
        oc = st.mem[p.obj]
        return p, oc.regs[0][2], bv(self.E.objs[p.obj].size), oc

    def inv(self, st):
        F = self.F
        p, arr, size, oc = self.buf(st)
        num, off = (bv(self.E.zx(st, F.term(st, n))) for n in ('num', 'offset'))
        eof = F.term(st, 'eof') != 0
        fin = self.E.load(st, self.E.padd(F.ptr('buffer'), 8), 8, 'ptr')
        out = [('the buffer is usable', z3.BoolVal(not oc.freed and isinstance(fin, Ptr) and fin.obj == p.obj)),
               ('the buffer is not empty', z3.And(size != 0, z3.ULT(size, 1 << 32))),
               ('the vector covers the buffer', z3.And(bv(p.off) == 0, bv(fin.off) == size)),
               ('held bytes lie inside the buffer', z3.And(z3.ULE(off, size), z3.ULE(num, size - off))),
               ('an empty buffer starts at its beginning', z3.Implies(num == 0, off == 0)),
               ('the end flag is a truth value', z3.ULE(F.term(st, 'eof'), 1)),
               ('the end is noted exactly when the source ended', eof == st.ghost['ended']),
               ('no byte is lost, repeated or reordered', st.ghost['delivered'] == cat(st.ghost['released'], arr, off, num))]
        return out

    def template(self, E, L):
        out = []
        n = len(self.inv(L.entry))
        for i in range(n):
            out.append((self.inv(L.entry)[i][0], lambda s, i=i: self.inv(s)[i][1]))
        return out


def verify_getptr(E):
    X = Stream(E)
    st, F = X.st, X.F
    want = z3.BitVec('wanted', 32)
    lp = E.new_obj(st, 'len', size=4, cells={0: (4, want)})
    E.loop_templates.append(X.template)
    E.cover(st, 'GetPtr precondition')
    pre = st.copy()
    n = 0
    for kind, s, v in E.run_function(E.P.find(NS + 'ParserStreamInput::GetPtr(unsigned int&)')[0], st, [X.obj, lp]):
        n += 1
        for l, c in X.inv(s):
            E.oblige(s, c, 'P06', 'GetPtr: ' + l)
        E.oblige(s, s.ghost['released'] == pre.ghost['released'], 'P06', 'GetPtr releases nothing')
        if kind == 'exc':
            continue
        E.cover(s, 'GetPtr returns')
        p, arr, size, oc = X.buf(s)
        num, off = F.term(s, 'num'), F.term(s, 'offset')
        got = bv(E.load(s, lp, 4, 'i32'), 32)
        E.oblige(s, got == num, 'P06', 'GetPtr reports the number of bytes held')
        if isinstance(v, Ptr) and v.obj == 0:
            E.oblige(s, z3.And(num == 0, s.ghost['ended']), 'P06', 'GetPtr returns null only at the end of the source')
        else:
            E.oblige(s, isinstance(v, Ptr) and v.obj == p.obj and simp2(bv(v.off) == z64(off)), 'P06', 'GetPtr points at the first byte not released')
            E.oblige(s, num != 0, 'P06', 'GetPtr returns null when nothing is left')
            E.oblige(s, z3.Or(z3.UGE(num, want), s.ghost['ended']), 'P06', 'GetPtr holds what was asked for unless the source ended')
    E.oblige(pre, n > 0, 'P06', 'GetPtr returns')


def verify_release(E):
    X = Stream(E)
    st, F = X.st, X.F
    k = z3.BitVec('done', 32)
    pre = st.copy()
    num, off = F.term(pre, 'num'), F.term(pre, 'offset')
    for kind, s, v in E.run_function(E.P.find(NS + 'ParserStreamInput::Release(unsigned int)')[0], st, [X.obj, k]):
        if kind == 'exc':
            E.oblige(s, z3.UGT(k, num), 'P06', 'Release refuses only more than is held')
        else:
            E.oblige(s, z3.ULE(k, num), 'P06', 'Release refuses more than is held')
            s.ghost['released'] = cat(s.ghost['released'], X.arr0, z64(off), z64(k))
        E.cover(s, 'Release ' + kind)
        for l, c in X.inv(s):
            E.oblige(s, c, 'P06', 'Release: ' + l)


def verify_ctor(E):
    st = State()
    n = z3.BitVec('buffer_len', 32)
    st.assume(n != 0)
    X = Stream.__new__(Stream)
    X.E = E
    X.obj = E.new_obj(st, 'input', size=E.P.types[NS + 'ParserStreamInput']['size'])
    X.F = Fields(E, NS + 'ParserStreamInput', X.obj)
    st.ghost['released'] = st.ghost['delivered'] = nil
    st.ghost['ended'] = z3.BoolVal(False)
    for kind, s, v in E.run_function(E.P.find(NS + 'ParserStreamInput::ParserStreamInput(unsigned int)')[0], st, [X.obj, n]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        E.cover(s, 'constructed')
        for l, c in X.inv(s):
            E.oblige(s, c, 'P06', 'constructor: ' + l)


def file_obj(E, st):
    f = E.new_obj(st, 'FILE', size=None)
    st.ghost['file'] = z3.Const('file0', T.Bytes)
    return f


def verify_file_read(E, cls):
    """Read of the FILE / streambuf input: passes on what the C library read, in place, throws only on a read error"""
    st = State()
    file = E.new_obj(st, 'stream', size=None)
    obj = E.new_obj(st, 'input', size=E.P.types[NS + cls]['size'])
    F = Fields(E, NS + cls, obj)
    F.put(st, 'file' if cls == 'ParserFileInput' else 'streambuf', file)
    n = z3.BitVec('len', 32)
    N = z64(n)
    arr = z3.Const('dst', T.ARR)
    cap = z3.BitVec('dst_size', 64)
    st.assume(z3.ULE(N, cap))
    dst = E.new_obj(st, 'dst', size=cap)
    st.mem[dst.obj] = OC({}, ((0, cap, arr),))
    st.ghost['got'] = z3.BitVecVal(0, 64)
    st.ghost['src'] = None
    st.ghost['error'] = z3.BoolVal(False)

    def take(E, st, p, want):
        E.oblige(st, st.ghost['src'] is None, 'P06', 'the source is read once per request')
        src = E.fresh('arr', 'source')
        k = E.fresh('i64', 'got')
        st.assume(z3.ULE(k, want))
        if not isc(want):
            E.check_access(st, p, simp2(want), 'write')
        rk = E.find_region(st, p, 1)
        oc = st.mem[p.obj].copy()
        s0, m, a = oc.regs[rk]
        oc.regs = ((s0, m, T.acopy(a, bv(iop('sub', p.off, s0, 64)), src, bv(0), want)),)
        st.mem[p.obj] = oc
        st.ghost['src'] = src
        st.ghost['got'] = k
        return k

    def fread(E, st, a, call):
        E.oblige(st, same(a[3], file), 'P06', 'the right file is read')
        E.oblige(st, bv(a[1]) == 1, 'P06', 'bytes are counted one by one')
        k = take(E, st, a[0], simp2(bv(a[2])))
        st.ghost['error'] = E.fresh('i1', 'ferror')
        return k

    def ferror(E, st, a, call):
        return simp2(z3.If(st.ghost['error'], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def sgetn(E, st, a, call):
        E.oblige(st, same(a[0], file), 'P06', 'the right stream is read')
        return take(E, st, a[1], simp2(bv(a[2])))
    E.summaries['fread'] = fread
    E.summaries['ferror'] = ferror
    pattern(E, r'std::basic_streambuf<.*>::sgetn\(char\*, long\)', sgetn)
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(NS + cls + '::Read(void*, unsigned int)')[0], st, [obj, dst, n]):
        got = s.ghost['got']
        if kind == 'exc':
            E.oblige(s, z3.And(s.ghost['error'], got == 0), 'P06', 'Read throws only on a read error')
            continue
        E.cover(s, 'returns')
        E.oblige(s, z64(v) == got, 'P06', 'Read reports the number of bytes it read')
        E.oblige(s, z3.Not(z3.And(got == 0, s.ghost['error'])), 'P06', 'a read error is not taken for the end')
        src = s.ghost['src']
        a1 = s.mem[dst.obj].regs[0][2]
        E.oblige(s, src is not None, 'P06', 'the source is read')
        if src is not None:
            E.oblige(s, cat(nil, a1, bv(0), got) == cat(nil, src, bv(0), got), 'P06', 'the bytes read are placed at the start of the buffer')


def verify_memory_input(E):
    st = State()
    cls = NS + 'ParserMemoryInput'
    obj = E.new_obj(st, 'input', size=E.P.types[cls]['size'])
    L = z3.BitVec('data_len', 32)
    arr = z3.Const('data', T.ARR)
    data = E.new_obj(st, 'data', size=z64(L), const=True)
    st.mem[data.obj] = OC({}, ((0, z64(L), arr),))
    F = Fields(E, cls, obj)
    fn = lambda n: E.P.find(cls + '::' + n)[0]
    for kind, s, v in E.run_function(fn('ParserMemoryInput(void const*, unsigned int)'), st.copy(), [obj, data, L]):
        E.oblige(s, kind == 'ret' and same(F.get(s, 'data_ptr'), data), 'P06', 'memory input starts at the given block')
        E.oblige(s, z3.And(F.term(s, 'data_len') == L, F.term(s, 'offset') == 0), 'P06', 'memory input covers the given block')
    off = z3.BitVec('offset', 32)
    st.assume(z3.ULE(off, L))
    F.put(st, 'data_ptr', data)
    F.put(st, 'data_len', L)
    F.put(st, 'offset', off)
    lp = E.new_obj(st, 'len', size=4, cells={0: (4, z3.BitVec('wanted', 32))})
    for kind, s, v in E.run_function(fn('GetPtr(unsigned int&)'), st.copy(), [obj, lp]):
        E.oblige(s, kind == 'ret', 'P06', 'memory input within its block does not throw')
        if kind != 'ret':
            continue
        E.cover(s, 'GetPtr returns')
        got = bv(E.load(s, lp, 4, 'i32'), 32)
        E.oblige(s, got == L - off, 'P06', 'memory input offers exactly the bytes not released')
        E.oblige(s, z3.And(F.term(s, 'data_len') == L, F.term(s, 'offset') == off), 'P06', 'GetPtr releases nothing')
        if v.obj == 0:
            E.oblige(s, got == 0, 'P06', 'memory input returns null only at its end')
        else:
            E.oblige(s, v.obj == data.obj and simp2(bv(v.off) == z64(off)), 'P06', 'memory input points at the first byte not released')
            E.oblige(s, got != 0, 'P06', 'memory input returns null at its end')
    k = z3.BitVec('done', 32)
    st.assume(z3.ULE(k, L - off))
    for kind, s, v in E.run_function(fn('Release(unsigned int)'), st.copy(), [obj, k]):
        E.oblige(s, kind == 'ret', 'P06', 'memory input lets go of what it offered')
        E.oblige(s, z3.And(F.term(s, 'data_len') == L, F.term(s, 'offset') == off + k), 'P06', 'exactly the released bytes are passed over')


# ------------------------------------------------------------------ output
def source(E, st):
    n = z3.BitVec('len', 32)
    arr = z3.Const('src', T.ARR)
    p = E.new_obj(st, 'src', size=z64(n), const=True)
    st.mem[p.obj] = OC({}, ((0, z64(n), arr),))
    return p, n, arr


def verify_memory_output(E, dummy):
    st = State()
    cls = NS + 'EmitterMemoryOutput'
    obj = E.new_obj(st, 'output', size=E.P.types[cls]['size'])
    F = Fields(E, cls, obj)
    L = z3.BitVec('length', 32)
    arr = z3.Const('block', T.ARR)
    blk = E.new_obj(st, 'block', size=z64(L))
    st.mem[blk.obj] = OC({}, ((0, z64(L), arr),))
    fn = lambda n: E.P.find(cls + '::' + n)[0]
    ext = E.new_obj(st, 'out_len', size=4, cells={0: (4, z3.BitVec('out0', 32))})
    posp = F.ptr('out_length_dummy') if dummy else ext
    pos = lambda s: bv(E.load(s, posp, 4, 'i32'), 32)
    for kind, s, v in E.run_function(fn('EmitterMemoryOutput(void*, unsigned int, unsigned int*)'), st.copy(), [obj, blk, L, NULL if dummy else ext]):
        E.oblige(s, kind == 'ret' and same(F.get(s, 'data_ptr'), blk) and same(F.get(s, 'out_length'), posp), 'P05', 'memory output uses the given block and counter')
        E.oblige(s, F.term(s, 'length') == L, 'P05', 'memory output knows the size of its block')
        if dummy:
            E.oblige(s, pos(s) == 0, 'P05', 'memory output without a counter starts at the beginning')
        else:
            E.oblige(s, pos(s) == pos(st), 'P05', 'memory output continues where its counter stands')
    F.put(st, 'data_ptr', blk)
    F.put(st, 'length', L)
    F.put(st, 'out_length', posp)
    w = z3.BitVec('written', 32)
    E.put(st, posp, 4, w)
    src, n, sa = source(E, st)
    E.cover(st, 'Write precondition')
    pre = st.copy()
    i = z3.BitVec('any_index', 64)
    fits = z3.And(z3.ULE(w, L), z3.ULE(n, L - w))
    for kind, s, v in E.run_function(fn('Write(void const*, unsigned int)'), st, [obj, src, n]):
        a1 = s.mem[blk.obj].regs[0][2]
        if kind == 'exc':
            E.oblige(s, z3.Not(fits), 'P05', 'memory output refuses only what does not fit')
            E.oblige(s, z3.And(pos(s) == w, T.sel(a1, i) == T.sel(arr, i)), 'P05', 'a refused write changes nothing')
            continue
        E.cover(s, 'Write returns')
        E.oblige(s, fits, 'P05', 'memory output refuses what does not fit')
        E.oblige(s, bv(v, 32) == n, 'P05', 'memory output reports the bytes written')
        E.oblige(s, pos(s) == w + n, 'P05', 'memory output counts the bytes written')
        E.oblige(s, T.sel(a1, i) == z3.If(z3.ULT(i - z64(w), z64(n)), T.sel(sa, i - z64(w)), T.sel(arr, i)), 'P05',
                 'the bytes land behind those written before and nothing else changes')
        E.oblige(s, z3.And(F.term(s, 'length') == L), 'P05', 'the block keeps its size')
    for kind, s, v in E.run_function(E.P.find(cls + '::NumBytesWritten() const')[0], pre, [obj]):
        E.oblige(s, bv(v, 32) == w, 'P05', 'NumBytesWritten is the number of bytes written')


def verify_stream_output(E, cls):
    st = State()
    full = NS + cls
    obj = E.new_obj(st, 'output', size=E.P.types[full]['size'])
    F = Fields(E, full, obj)
    file = E.new_obj(st, 'target', size=None)
    fld = 'file' if cls == 'EmitterFileOutput' else 'streambuf'
    F.put(st, fld, file)
    w = z3.BitVec('written', 32)
    F.put(st, 'num_bytes', w)
    src, n, sa = source(E, st)
    st.ghost['target'] = z3.Const('target0', T.Bytes)
    st.ghost['count'] = z3.BitVecVal(0, 64)
    st.ghost['flushed'] = z3.BoolVal(False)

    def put(E, st, p, k, size):
        a, o = text_in(E, st, p, k * size)
        r = E.fresh('i64', 'accepted')
        st.assume(z3.ULE(r, k))
        st.ghost['target'] = cat(st.ghost['target'], a, o, r * size)
        st.ghost['count'] = st.ghost['count'] + r * size
        return r

    def fwrite(E, st, a, call):
        E.oblige(st, same(a[3], file), 'P05', 'bytes go to the given file')
        # an element of more than one byte may be written in part without being counted
        E.oblige(st, z3.Or(bv(a[1]) == 1), 'P05', 'bytes are counted one by one')
        return put(E, st, a[0], bv(a[2]), bv(1))

    def sputn(E, st, a, call):
        E.oblige(st, same(a[0], file), 'P05', 'bytes go to the given stream')
        return put(E, st, a[1], bv(a[2]), bv(1))

    def flush(E, st, a, call):
        E.oblige(st, same(a[0], file), 'P05', 'the given target is flushed')
        st.ghost['flushed'] = z3.BoolVal(True)
        return E.fresh('i32', 'rc')
    E.summaries['fwrite'] = fwrite
    E.summaries['fflush'] = flush
    pattern(E, r'std::basic_streambuf<.*>::sputn\(char const\*, long\)', sputn)
    pattern(E, r'std::basic_streambuf<.*>::pubsync\(\)', flush)
    E.cover(st, 'Write precondition')
    pre = st.copy()
    for kind, s, v in E.run_function(E.P.find(full + '::Write(void const*, unsigned int)')[0], st, [obj, src, n]):
        E.oblige(s, kind == 'ret', 'P05', 'Write does not throw by itself')
        if kind != 'ret':
            continue
        r = z64(v)
        E.oblige(s, r == s.ghost['count'], 'P05', 'Write reports the number of bytes the target took')
        E.oblige(s, F.term(s, 'num_bytes') == w + bv(v, 32), 'P05', 'the bytes taken are counted')
        E.oblige(s, s.ghost['target'] == cat(pre.ghost['target'], sa, bv(0), r), 'P05', 'the target receives the first bytes of the data, in order, once')
        E.oblige(s, same(F.get(s, fld), file), 'P05', 'the target stays the same')
    for kind, s, v in E.run_function(E.P.find(full + '::NumBytesWritten() const')[0], pre.copy(), [obj]):
        E.oblige(s, bv(v, 32) == w, 'P05', 'NumBytesWritten is the number of bytes taken')
    for kind, s, v in E.run_function(E.P.find(full + '::Flush()')[0], pre.copy(), [obj]):
        E.oblige(s, z3.And(kind == 'ret', s.ghost['flushed']), 'P05', 'Flush flushes the target')
        E.oblige(s, s.ghost['target'] == pre.ghost['target'], 'P05', 'Flush writes nothing')


def tasks(P, tier):
    from ..run import Task
    out = [Task('ParserStreamInput::GetPtr', verify_getptr, props=('P06',), safety='P06', funcs=[NS + 'ParserStreamInput::GetPtr']),
           Task('ParserStreamInput::Release', verify_release, props=('P06',), safety='P06', funcs=[NS + 'ParserStreamInput::Release']),
           Task('ParserStreamInput constructor', verify_ctor, props=('P06',), safety='P06', funcs=[NS + 'ParserStreamInput::ParserStreamInput']),
           Task('ParserMemoryInput', verify_memory_input, props=('P06',), safety='P06',
                funcs=[NS + 'ParserMemoryInput::' + x for x in ('ParserMemoryInput', 'GetPtr', 'Release')])]
    for c in ('ParserFileInput', 'ParserStreambufInput'):
        out.append(Task(c + '::Read', verify_file_read, (c,), props=('P06',), safety='P06', funcs=[NS + c + '::Read']))
    for d in (False, True):
        out.append(Task('EmitterMemoryOutput' + (' without counter' if d else ''), verify_memory_output, (d,), props=('P05',), safety='P05',
                        funcs=[NS + 'EmitterMemoryOutput::' + x for x in ('EmitterMemoryOutput', 'Write', 'NumBytesWritten')]))
    for c in ('EmitterFileOutput', 'EmitterStreambufOutput'):
        out.append(Task(c, verify_stream_output, (c,), props=('P05',), safety='P05', funcs=[NS + c + '::' + x for x in ('Write', 'Flush', 'NumBytesWritten')]))
    return out
