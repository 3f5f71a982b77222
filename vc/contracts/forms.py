"""Parts shared by the contracts of the XML and YAML writers and readers: stacks, handlers of events, conversion of numbers and blobs."""
import re
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, cstring, span, str_view
from .. import variants as V
from . import json_emit as JE

NS = 'libvariant::'
BV32 = z3.BitVecSort(32)
NUMBER = z3.Function('number_of_text', T.Bytes, z3.BitVecSort(128))
DOUBLE = z3.Function('double_of_text', T.Bytes, FP['double'])


class Log:
    """what was done, in order"""

    def __init__(self, l=()):
        self.l = l

    def add(self, *x):
        return Log(self.l + (x,))

    def gsame(self, o):
        return self.l == o.l


class GCells:
    """std::deque of small values: one cell of memory for each known element"""
    SIZE = 80

    def __init__(self, l):
        self.l = tuple(l)

    def gsame(self, o):
        return isinstance(o, GCells) and self.l == o.l


def stack_models(E, elem):
    D = r'std::deque<%s.*>::' % elem

    def back(E, st, a, call):
        g = E.gget(st, a[0], GCells)
        E.oblige(st, len(g.l) > 0, 'memory', 'back() of an empty stack')
        if not g.l:
            raise PathEnd()
        return g.l[-1]

    def push(E, st, a, call):
        g = E.gget(st, a[0], GCells)
        c = E.new_obj(st, 'state', size=4, cells={0: (4, E.load(st, a[1], 4, 'i32'))})
        E.gput(st, a[0], GCells(g.l + (c,)))

    def pop(E, st, a, call):
        g = E.gget(st, a[0], GCells)
        E.oblige(st, len(g.l) > 0, 'memory', 'pop_back() of an empty stack')
        if not g.l:
            raise PathEnd()
        E.gput(st, a[0], GCells(g.l[:-1]))
    pattern(E, D + r'deque\(\)', lambda E, st, a, call: E.gput(st, a[0], GCells(())))
    pattern(E, D + r'~deque\(\)', lambda E, st, a, call: None)
    pattern(E, D + r'back\(\)( const)?', back)
    pattern(E, D + r'push_back\(.*\)', push)
    pattern(E, D + r'emplace_back.*\(.*\)', push)
    pattern(E, D + r'pop_back\(\)', pop)
    pattern(E, D + r'empty\(\) const', lambda E, st, a, call: len(E.gget(st, a[0], GCells).l) == 0)


def stack(E, st, p, *values):
    """a stack whose last elements are these"""
    cells = [E.new_obj(st, 'state', size=4, cells={0: (4, v)}) for v in values]
    E.gput(st, p, GCells(cells))


def values(E, st, p):
    return [bv(E.load(st, c, 4, 'i32'), 32) for c in E.gget(st, p, GCells).l]


class GData:
    """a shared pointer to a blob: the Base64 text of its data, or the bytes of a copy"""
    SIZE = 16

    def __init__(self, t, coded=True):
        self.t, self.coded = t, coded

    def gsame(self, o):
        return isinstance(o, GData) and self.t.eq(o.t) and self.coded == o.coded


def raised(E, st):
    """an exception from outside"""
    s = st.copy()
    s.ghost['failed'] = True
    return Out(s, exc=Exc('_ZTISt13runtime_error', NULL))


def ctext(E, st, p):
    """text and length of a C string whose end is known"""
    d = E.objs[p.obj].data
    if hasattr(d, 'b') and isc(p.off) and p.off == 0:
        return d.b
    return cstring(E, st, p)


def base(E):
    V.error_models(E)
    JE.models(E)
    E.what = NULL
    st = State()
    st.ghost['failed'] = False

    def strlen(E, st, a, call):
        return simp2(T.blen(ctext(E, st, a[0])))
    pattern(E, r'strlen', strlen)
    A = STR + r'::'

    def append(E, st, a, call):
        E.gput(st, a[0], GStr(T.app(E.gget(st, a[0], GStr).b, ctext(E, st, a[1]))))
        return a[0]

    def assign(E, st, a, call):
        E.gput(st, a[0], GStr(ctext(E, st, a[1])))
        return a[0]
    pattern(E, A + r'(operator\+=|append)\(char const\*\)', append)
    pattern(E, A + r'(operator=|assign)\(char const\*\)', assign)
    pattern(E, A + r'clear\(\)', lambda E, st, a, call: E.gput(st, a[0], GStr(nil)))
    pattern(E, A + r'(length|size)\(\) const', lambda E, st, a, call: simp2(T.blen(E.gget(st, a[0], GStr).b)))
    pattern(E, A + r'empty\(\) const', lambda E, st, a, call: simp(E.gget(st, a[0], GStr).b == nil))
    return st


def handler(E, st, pid):
    """a handler of events that notes them"""
    BL = r'std::(__)?shared_ptr<libvariant::Blob( const)?.*>::'
    pattern(E, BL + r'(__)?shared_ptr(<.*>)?\(std::(__)?shared_ptr<.*>( const&|&&)\)', lambda E, st, a, call: E.gput(st, a[0], E.gget(st, a[1], GData)))
    pattern(E, BL + r'~(__)?shared_ptr\(\)', lambda E, st, a, call: None)

    def note(kind, f):
        def g(E, st, a, inst):
            out = raised(E, st)
            st.ghost['events'] = st.ghost['events'].add(kind, a[1], *f(E, st, a))
            return [Out(st, None), out]
        return g
    at = lambda i: lambda E, st, a: tuple(a[i:])
    H = {r'::BeginDocument\(': note('begin document', at(2)), r'::EndDocument\(': note('end document', at(2)), r'::BeginMap\(': note('begin map', at(3)),
         r'::EndMap\(': note('end map', at(2)), r'::BeginList\(': note('begin list', at(3)), r'::EndList\(': note('end list', at(2)),
         r'::Alias\(': note('alias', at(2)), r'::Null\(': note('null', at(2)),
         r'::Scalar\(libvariant::ParserImpl\*, bool,': note('bool', lambda E, st, a: (V.tob(a[2]),) + tuple(a[3:])),
         r'::Scalar\(libvariant::ParserImpl\*, long,': note('int', lambda E, st, a: (bv(a[2]),) + tuple(a[3:])),
         r'::Scalar\(libvariant::ParserImpl\*, unsigned long,': note('uint', lambda E, st, a: (bv(a[2]),) + tuple(a[3:])),
         r'::Scalar\(libvariant::ParserImpl\*, double,': note('float', at(2)),
         r'::Scalar\(libvariant::ParserImpl\*, char const\*, unsigned int,': note('text', lambda E, st, a: (span(E, st, a[2], z3.ZeroExt(32, bv(a[3], 32))),) + tuple(a[4:])),
         r'::Scalar\(libvariant::ParserImpl\*, std::shared_ptr<libvariant::Blob>,': note('blob', lambda E, st, a: (E.gget(st, a[2], GData),) + tuple(a[3:]))}
    st.ghost['events'] = Log()
    return abstract_object(E, st, NS + 'ParserActions', H, name='handler')


def conversions(E, pid):
    """numbers and blobs of texts (contracts of the C library and of Base64)"""
    def errno(st):
        k = ('errno',)
        if k not in st.ghost:
            st.ghost[k] = E.new_obj(st, 'errno', size=4, init='sym')
        return st.ghost[k]

    def convert(signed):
        def f(E, st, a, call):
            E.oblige(st, isc(a[2]) and a[2] in (0, 10), pid, 'a number is read as decimal')
            v = NUMBER(ctext(E, st, a[0]))
            lo = z3.BitVecVal(-(1 << 63), 128) if signed else z3.BitVecVal(-((1 << 64) - 1), 128)
            hi = z3.BitVecVal((1 << 63) - 1 if signed else (1 << 64) - 1, 128)
            fits = z3.And(v >= lo, v <= hi)
            e = errno(st)
            E.put(st, e, 4, z3.If(fits, bv(E.load(st, e, 4, 'i32'), 32), z3.BitVecVal(34, 32)))
            lim = z3.If(v > hi, z3.Extract(63, 0, hi), z3.Extract(63, 0, lo if signed else hi))
            return z3.If(fits, z3.Extract(63, 0, v), lim)
        return f
    pattern(E, r'(__isoc23_)?strtoll', convert(True))
    pattern(E, r'(__isoc23_)?strtoull', convert(False))
    pattern(E, r'strtod', lambda E, st, a, call: DOUBLE(ctext(E, st, a[0])))

    def memalign(E, st, a, call):
        n = bv(a[2])
        bad = st.copy()
        p = E.new_obj(st, 'aligned', size=n, heap=True)
        st.mem[p.obj] = OC({}, ((0, n, E.fresh('arr', 'aligned')),))
        E.store(st, a[0], 8, p, 'ptr')
        bad.ghost['failed'] = True
        return [Out(st, 0), Out(bad, 12)]

    def decsize(E, st, a, call):
        r = z3.FreshConst(BV32, 'decode_size')
        st.assume(z3.UGE(z3.ZeroExt(32, r), z3.UDiv(z3.ZeroExt(32, bv(a[0], 32)) * 3, bv(4))))
        return r

    def decode(E, st, a, call):
        N = z3.ZeroExt(32, bv(a[2], 32))
        t = span(E, st, a[1], N)
        inf = E.objs[a[0].obj]
        E.oblige(st, z3.And(bv(a[0].off) == 0, z3.ULE(z3.UDiv(N * 3, bv(4)), bv(inf.size))), 'memory', 'room for the decoded blob')
        r = z3.FreshConst(BV32, 'decoded')
        st.ghost['decoded'] = Log().add(a[0], r, t)
        return r

    def free(E, st, a, call):
        d = st.ghost.get('decoded')
        ok = d is not None and same(a[1], d.l[0][0]) and bv(a[2], 32).eq(d.l[0][1])
        E.oblige(st, ok, pid, 'the blob holds exactly the decoded bytes')
        E.gput(st, a[0], GData(d.l[0][2] if ok else z3.Const('something', T.Bytes)))

    def copy(E, st, a, call):
        E.gput(st, a[0], GData(span(E, st, a[1], z3.ZeroExt(32, bv(a[2], 32))), False))
    E.summaries['posix_memalign'] = memalign
    E.summaries[NS + 'Base64DecodeSize(unsigned int)'] = decsize
    E.summaries[NS + 'Base64Decode(void*, char const*, unsigned int)'] = decode
    E.summaries[NS + 'Blob::CreateFree(void*, unsigned int)'] = free
    E.summaries[NS + 'Blob::CreateCopy(void const*, unsigned int)'] = copy


class Encoded:
    """writing a blob as Base64 (contract of P07)"""

    def __init__(self, E, st, pid):
        self.blob = E.new_obj(st, 'blob', size=E.P.types[NS + 'Blob']['size'])
        self.iov = E.new_obj(st, 'iov', size=None)
        self.nb, self.total = z3.BitVec('buffers', 32), z3.BitVec('total', 32)
        self.pointer = E.new_obj(st, 'blob pointer', size=16, cells={0: (8, self.blob), 8: (8, NULL)})
        self.enc = z3.Const('encoded', T.ARR)
        self.size, self.n = z3.BitVec('encode_size', 32), z3.BitVec('encoded_len', 32)
        n = z3.ZeroExt(32, self.n)
        # the text ends with a zero inside the room asked for, and has no other
        st.assume(z3.UGE(self.size, 5), z3.ULT(self.size, 1 << 31), z3.ULT(self.n, self.size), T.sel(self.enc, n) == 0)
        self.text = T.cat(nil, self.enc, bv(0), n)
        lines = []

        def enc_size(E, st, a, call):
            E.oblige(st, bv(a[0], 32) == self.total, pid, 'room is made for the whole blob')
            st.ghost['lines'] = bv(a[1], 32)
            return self.size

        def encode(E, st, a, call):
            l = st.ghost.get('lines')
            E.oblige(st, z3.And(same(a[1], self.iov), bv(a[2], 32) == self.nb), pid, 'the whole blob is encoded')
            E.oblige(st, l is not None and z3.Or(bv(a[3], 32) == l, bv(a[3], 32) == 0), pid, 'the room is made for lines of that length')
            E.check_access(st, a[0], simp2(z3.ZeroExt(32, self.size)), 'write')
            oc = st.mem[a[0].obj].copy()
            oc.regs = tuple((s0, m, self.enc if isc(s0) and s0 == 0 and isc(a[0].off) and a[0].off == 0 else T.acopy(arr, bv(a[0].off), self.enc, bv(0), z3.ZeroExt(32, self.size))) for s0, m, arr in oc.regs)
            st.mem[a[0].obj] = oc
            E.objs[a[0].obj].data = Text(self.text)
            return self.n
        E.summaries[NS + 'Base64EncodeSize(unsigned int, unsigned int)'] = enc_size
        E.summaries[NS + 'Base64Encode(char*, iovec const*, unsigned int, unsigned int)'] = encode
        E.summaries[NS + 'Blob::GetTotalLength() const'] = lambda E, st, a, call: self.total
        E.summaries[NS + 'Blob::GetIOVec() const'] = lambda E, st, a, call: self.iov
        E.summaries[NS + 'Blob::GetNumBuffers() const'] = lambda E, st, a, call: self.nb


class Text:
    """marks memory that holds a C string"""

    def __init__(self, b):
        self.b = b


def given(E, st, name):
    """any C string: its pointer and text"""
    b = z3.Const(name, T.Bytes)
    st.assume(T.nz(b), z3.ULT(T.blen(b), 1 << 31))
    return str_view(E, st, b), b


class GParam:
    """a value out of the settings given: its key, or None for all of them"""
    SIZE = 16

    def __init__(self, key):
        self.key = key

    def gsame(self, o):
        return isinstance(o, GParam) and self.key == o.key


class Options:
    """settings handed over as a map from names to values"""
    TYPES = ('bool', 'int', 'unsigned int', 'long', 'unsigned long')

    def __init__(self, E, st, pid, keys):
        self.E, self.keys = E, keys
        self.ismap = z3.Bool('settings_are_a_map')
        self.has = {k: z3.Bool('given_' + k) for k in keys}
        self.num = {k: z3.BitVec('value_' + k, 32) for k in keys}
        self.truth = {k: z3.Bool('truth_' + k) for k in keys}
        self.p = self.value(st, None)

        def key(st, p):
            k = T.conc(E.gget(st, p, GStr).b)
            if k is None:
                raise Unsupported('name of a setting')
            k = k.decode()
            if k not in self.has:
                self.has[k], self.num[k], self.truth[k] = z3.Bool('given_' + k), z3.BitVec('value_' + k, 32), z3.Bool('truth_' + k)
            return k

        def contains(E, st, a, call):
            return z3.And(self.ismap, self.has[key(st, a[1])])

        def getinto(E, st, a, call):
            k = key(st, a[2])
            ty = 'i8' if 'GetInto<bool>' in call.dem else 'i32'
            n = 1 if ty == 'i8' else 4
            new = self.byte(k) if n == 1 else self.num[k]
            bad = raised(E, st)
            bad.st.assume(self.has[k])
            E.put(st, a[1], n, z3.If(self.has[k], new, bv(E.load(st, a[3], n, ty), 8 * n)))
            return [Out(st, None), bad]

        def at(E, st, a, call):
            E.gput(st, a[0], GParam(key(st, a[2])))

        def copy(E, st, a, call):
            E.gput(st, a[0], GParam(self.of(st, a[1])))

        def store(E, st, a, call):
            st.ghost['stored'] = st.ghost.get('stored', Log()).add(self.of(st, a[0]), re.search(r'\((.*)\)', call.dem).group(1), a[1])
            return a[0]

        def storev(E, st, a, call):
            st.ghost['stored'] = st.ghost.get('stored', Log()).add(self.of(st, a[0]), 'value', self.of(st, a[1]))
            return a[0]

        def make(E, st, a, call):
            t = re.search(r'\(([^()]*)\)\Z', call.dem).group(1)
            st.ghost['made'] = st.ghost.get('made', Log()).add(t, a[0], None if t.endswith('Type_t') or not t else a[1])
            if t.endswith('Type_t') or not t:
                E.gput(st, a[0], GParam(None))

        def cmp(i, j):
            def g(E, st, a, call):
                x, y = E.gget(st, a[i], GStr).b, ctext(E, st, a[j])
                p, q = T.conc(x), T.conc(y)
                return int(p == q) if p is not None and q is not None else simp(x == y)
            return g
        v = r'libvariant::Variant::'
        pattern(E, v + r'IsMap\(\) const', lambda E, st, a, call: self.ismap)
        pattern(E, v + r'Contains\(%s const&\) const' % STR, contains)
        pattern(E, r'void libvariant::Variant::GetInto<(bool|unsigned int)>\(.*\) const', getinto)
        pattern(E, v + r'(operator\[\]|Get)\(%s const&\)( const)?' % STR, at)
        pattern(E, v + r'Variant\(libvariant::Variant(RefImpl<libvariant::Variant>)?( const)?&&?\)', copy)
        pattern(E, v + r'operator=\((%s)\)' % '|'.join(self.TYPES), store)
        pattern(E, v + r'operator=\(libvariant::Variant( const)?&&?\)', storev)
        pattern(E, v + r'Variant\((%s|char const\*|libvariant::VariantDefines::Type_t|)\)' % '|'.join(self.TYPES), make)
        pattern(E, r'libvariant::Variant(RefImpl<libvariant::Variant>)?::~.*\(\)', lambda E, st, a, call: None)
        pattern(E, v + r'As(Int|Unsigned)\(\) const', lambda E, st, a, call: self.num[self.of(st, a[0])])
        pattern(E, v + r'AsBool\(\) const', lambda E, st, a, call: self.truth[self.of(st, a[0])])
        pattern(E, r'bool std::operator==<char, .*>\(%s const&, char const\*\)' % STR, cmp(0, 1))
        pattern(E, r'bool std::operator==<char, .*>\(char const\*, %s const&\)' % STR, cmp(1, 0))
        pattern(E, r'libvariant::EmitterImpl::~?EmitterImpl\(\)', lambda E, st, a, call: None)

        def share(E, st, a, call):
            for i in (0, 8):
                E.put(st, E.padd(a[0], i), 8, E.load(st, E.padd(a[1], i), 8, 'ptr'))
        pattern(E, r'std::(__)?shared_ptr<libvariant::\w+.*>::(__)?shared_ptr\(.* const&\)', share)
        pattern(E, r'std::(__)?shared_ptr<libvariant::\w+.*>::~(__)?shared_ptr\(\)', lambda E, st, a, call: None)

    def value(self, st, k):
        p = self.E.new_obj(st, 'value', size=self.E.P.types[NS + 'Variant']['size'])
        self.E.gput(st, p, GParam(k))
        return p

    def name(self, st, k):
        p = self.E.new_obj(st, 'name', size=32)
        self.E.gput(st, p, GStr(T.lit(k)))
        return p

    def of(self, st, p):
        return self.E.gget(st, p, GParam).key

    def byte(self, k):
        return z3.If(self.truth[k], z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))

    def used(self, k, old):
        """the setting after these were handed over"""
        new = self.byte(k) if old.size() == 8 else self.num[k]
        return z3.If(z3.And(self.ismap, self.has[k]), new, old)
