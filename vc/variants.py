"""Dynamic values for contracts: shared_ptr ownership, building values through the real initialisers, observing them through the
public interface, and abstract values whose operations are recorded.

shared_ptr (trusted model): 16 bytes {pointer, control block}.  The control block is a ghost object {owners, payload, external}: owners is
the number of shared_ptr objects known here, external whether somebody else owns the payload too.  When the last owner goes the payload is
released: any later access to it is a memory error.
"""
import re
import z3
from . import theory as T
from .theory import bv
from .engine import *
from .lib import *
from .models_cxx import GStr, STR, cstring

NS = 'libvariant::'
INT = NS + 'Internal::'
VAR = NS + 'Variant'
SSTR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
DATA = 64
LD = FP['x86_fp80']
TYPES = ['Null', 'Bool', 'Integer', 'Unsigned', 'Float', 'String', 'List', 'Map', 'Blob']
NUM = ['Integer', 'Unsigned', 'Float']


# ------------------------------------------------------------------ shared_ptr
def control(E, st, payload, owners=1, external=False):
    return E.new_obj(st, 'control block', size=24, cells={0: (8, owners), 8: (8, payload), 16: (8, external)})


def sp_pair(E, st, p):
    return E.load(st, p, 8, 'ptr'), E.load(st, E.padd(p, 8), 8, 'ptr')


def sp_put(E, st, p, q, c):
    E.put(st, p, 8, q)
    E.put(st, E.padd(p, 8), 8, c)


def sp_retain(E, st, c):
    if isinstance(c, Ptr) and c.obj:
        E.put(st, c, 8, simp2(bv(E.load(st, c, 8, 'i64')) + 1).as_long())


def sp_dispose(E, st, c):
    p = st.mem[c.obj].cells[8][1]
    oc = st.mem[c.obj].copy()
    oc.freed = True
    st.mem[c.obj] = oc
    if p.obj:
        oc = st.mem[p.obj].copy()
        if oc.freed:
            E.oblige(st, False, 'memory', 'released twice')
            raise PathEnd()
        oc.freed = True
        st.mem[p.obj] = oc


def sp_release(E, st, c):
    """drops one owner; list of resulting states"""
    if not (isinstance(c, Ptr) and c.obj):
        return [st]
    n = E.load(st, c, 8, 'i64')
    if not isc(n) or n < 1:
        raise Unsupported('owner count %r' % (n,))
    E.put(st, c, 8, n - 1)
    if n > 1:
        return [st]
    ext = st.mem[c.obj].cells[16][1]
    if ext is True:
        return [st]
    if ext is False:
        sp_dispose(E, st, c)
        return [st]
    s2 = st.copy()
    st.assume(ext)
    s2.assume(z3.Not(ext))
    sp_dispose(E, s2, c)
    return [s for s in (st, s2) if E.feasible(s)]


def outs(states, v=None):
    return [Out(s, v) for s in states]


def shared_models(E):
    P = r'(.* )?std::(__)?shared_ptr<.*>::'

    def dtor(E, st, a, call):
        p, c = sp_pair(E, st, a[0])
        return outs(sp_release(E, st, c))

    def reset0(E, st, a, call):
        p, c = sp_pair(E, st, a[0])
        sp_put(E, st, a[0], NULL, NULL)
        return outs(sp_release(E, st, c))

    def take(E, st, a, call):
        q = a[1]
        sp_put(E, st, a[0], q, control(E, st, q))

    def reset1(E, st, a, call):
        p, c = sp_pair(E, st, a[0])
        take(E, st, a, call)
        return outs(sp_release(E, st, c))

    def copy(E, st, a, call):
        p, c = sp_pair(E, st, a[1])
        sp_retain(E, st, c)
        sp_put(E, st, a[0], p, c)

    def move(E, st, a, call):
        p, c = sp_pair(E, st, a[1])
        sp_put(E, st, a[1], NULL, NULL)
        sp_put(E, st, a[0], p, c)

    def assign(E, st, a, call):
        old = sp_pair(E, st, a[0])
        p, c = sp_pair(E, st, a[1])
        sp_retain(E, st, c)
        sp_put(E, st, a[0], p, c)
        return outs(sp_release(E, st, old[1]), a[0])

    def massign(E, st, a, call):
        old = sp_pair(E, st, a[0])
        p, c = sp_pair(E, st, a[1])
        sp_put(E, st, a[1], NULL, NULL)
        sp_put(E, st, a[0], p, c)
        return outs(sp_release(E, st, old[1]), a[0])

    def swap(E, st, a, call):
        x, y = sp_pair(E, st, a[0]), sp_pair(E, st, a[1])
        sp_put(E, st, a[0], *y)
        sp_put(E, st, a[1], *x)
    pattern(E, P + r'~(__)?shared_ptr\(\)', dtor)
    pattern(E, P + r'reset\(\)', reset0)
    pattern(E, P + r'reset<.*>\(.*\*\)', reset1)
    pattern(E, P + r'swap\(.*&\)', swap)
    pattern(E, P + r'(__)?shared_ptr(<.*>)?\([^()]*\*\)', take)
    pattern(E, P + r'(__)?shared_ptr(<.*>)?\(std::(__)?shared_ptr<.*> const&\)', copy)
    pattern(E, P + r'(__)?shared_ptr(<.*>)?\(std::(__)?shared_ptr<.*>&&\)', move)
    pattern(E, P + r'operator=(<.*>)?\(std::(__)?shared_ptr<.*> const&\)', assign)
    pattern(E, P + r'operator=(<.*>)?\(std::(__)?shared_ptr<.*>&&\)', massign)


def error_models(E):
    pattern(E, NS + r'\w+Error::~?\w+\(.*\)', lambda E, st, a, call: None)


def setup(E):
    shared_models(E)
    error_models(E)
    E.norec = False
    E.fmodl = z3.Function('fmodl', LD, LD, LD)
    pattern(E, r'fmodl', lambda E, st, a, call: E.fmodl(a[0], a[1]))


def exc_name(x):
    """class name of an exception"""
    m = re.match(r'_ZTI(?:N10libvariant\d+|St\d+)(\w+?)E?\Z', x.ti or '')
    return m.group(1) if m else x.ti


# ------------------------------------------------------------------ values
def blank(E, st, name):
    """memory of a value before construction: no operations table yet, owns nothing"""
    return E.new_obj(st, name, size=DATA, cells={0: (8, NULL), 32: (8, NULL), 40: (8, NULL), 48: (8, NULL), 56: (8, NULL)})


def refdata(E, st, valid=True, owners=1, external=False):
    p = E.new_obj(st, 'reference data', size=1, heap=True, cells={0: (1, valid)})
    return p, control(E, st, p, owners, external)


def one(E, F, st, args, what):
    rs = E.run_function(E.P.find(F)[0], st, args)
    if len(rs) != 1 or rs[0][0] != 'ret':
        raise Unsupported('%s: %d outcomes' % (what, len(rs)))
    return rs[0][1], rs[0][2]


INIT = {
    'Null': INT + 'NullInit(' + INT + 'Data*)',
    'Bool': INT + 'BoolInit(' + INT + 'Data*, bool)',
    'Integer': INT + 'IntegerInit(' + INT + 'Data*, long)',
    'Unsigned': INT + 'UnsignedInit(' + INT + 'Data*, unsigned long)',
    'Float': INT + 'FloatInit(' + INT + 'Data*, long double)',
    'String': INT + 'StringInit(' + INT + 'Data*, ' + SSTR + ' const&)',
}


def symbol(t, tag):
    """an arbitrary value of a scalar type"""
    n = '%s_%s' % (t.lower(), tag)
    return {'Null': lambda: None, 'Bool': lambda: z3.Bool(n), 'Integer': lambda: z3.BitVec(n, 64), 'Unsigned': lambda: z3.BitVec(n, 64),
            'Float': lambda: z3.FP(n, LD), 'String': lambda: z3.Const(n, T.Bytes)}[t]()


def domain(st, t, x):
    if t == 'Float':
        st.assume(z3.Not(z3.fpIsNaN(x)))


def scalar(E, st, t, tag, x=None):
    """(state, pointer, value): a value of type t made by the real initialiser"""
    p = blank(E, st, 'value ' + tag)
    if x is None:
        x = symbol(t, tag)
        domain(st, t, x)
    args = [p]
    if t == 'String':
        a = E.new_obj(st, 'text ' + tag, size=32)
        E.gput(st, a, GStr(x))
        args.append(a)
    elif t != 'Null':
        args.append(x)
    st, _ = one(E, INIT[t], st, args, t + ' initialiser')
    return st, p, x


def call(E, st, name, args):
    """public member function of a value"""
    return E.run_function(E.P.find(VAR + '::' + name)[0], st, args)


def typenum(E, t):
    return enum(E.P, NS + 'VariantDefines::Type_t', t + 'Type')


def to_ld(t, x):
    if t == 'Float':
        return x
    if t == 'Bool':
        return z3.If(x, z3.FPVal(1.0, LD), z3.FPVal(0.0, LD))
    return z3.fpSignedToFP(RNE, x, LD) if t == 'Integer' else z3.fpUnsignedToFP(RNE, x, LD)


def fp_in(x, signed):
    if signed:
        return z3.And(z3.fpGEQ(x, z3.FPVal(-(2.0 ** 63), LD)), z3.fpLT(x, z3.FPVal(2.0 ** 63, LD)))
    return z3.And(z3.fpGT(x, z3.FPVal(-1.0, LD)), z3.fpLT(x, z3.FPVal(2.0 ** 64, LD)))


def to_int(t, x):
    if t == 'Float':
        return z3.fpToSBV(RTZ, x, z3.BitVecSort(64))
    if t == 'Bool':
        return z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return x


def to_uint(t, x):
    return z3.fpToUBV(RTZ, x, z3.BitVecSort(64)) if t == 'Float' else to_int(t, x)


def to_bool(t, x):
    if t == 'Bool':
        return x
    return z3.Not(z3.fpIsZero(x)) if t == 'Float' else x != 0


def expect_number(E, s, p, t, x, pid, what):
    """the value at p is the number x of type t, seen through the public interface"""
    for kind, s2, r in call(E, s.copy(), 'GetType() const', [p]):
        E.oblige(s2, z3.And(kind == 'ret', (bv(r, 32) == typenum(E, t)) if kind == 'ret' else False), pid, what + ': type is ' + t)
    get = {'Integer': ('AsInt() const', to_int), 'Unsigned': ('AsUnsigned() const', to_uint), 'Float': ('AsLongDouble() const', None), 'Bool': ('AsBool() const', None)}
    n, f = get[t]
    for kind, s2, r in call(E, s.copy(), n, [p]):
        if kind != 'ret':
            E.oblige(s2, False, pid, what + ': value')
        elif t == 'Float':
            E.oblige(s2, r == x, pid, what + ': value')
        elif t == 'Bool':
            E.oblige(s2, tob(r) == x, pid, what + ': value')
        else:
            E.oblige(s2, bv(r) == x, pid, what + ': value')


def tob(r):
    if isinstance(r, bool):
        return z3.BoolVal(r)
    if isinstance(r, z3.BoolRef):
        return r
    return bv(r, r.size() if isinstance(r, z3.BitVecRef) else 8) != 0


# ------------------------------------------------------------------ paths (std::deque<PathElement>, trusted model of the standard library)
PE = NS + 'PathElement'
PSIZE = 40


class Seq:
    """the elements of a path: arbitrary ('base'), a part of another path ('slice') or a path with more elements ('app')"""

    def __init__(self, kind, n, base=None, lo=None, tail=(), tag=''):
        self.kind, self.n, self.base, self.lo, self.tail, self.tag = kind, n, base, lo, tuple(tail), tag
        self.cache = {}

    def __repr__(self):
        return 'path %s' % self.tag

    def norm(self):
        """(base, lo, n of the base part, tail) with slices of the whole removed"""
        return self

    def elem(self, E, st, i):
        """pointer to element i (a 64 bit term, in elements)"""
        i = simp2(bv(i))
        if self.kind == 'slice':
            return self.base.elem(E, st, simp2(bv(self.lo) + i))
        if self.kind == 'app':
            nb = simp2(bv(self.base.n))
            d = simp2(i - nb)
            if z3.is_bv_value(d) and d.as_long() < len(self.tail):
                return self.tail[d.as_long()]
            return self.base.elem(E, st, i)
        k = i.sexpr()
        if k not in self.cache:
            n = '%s[%s]' % (self.tag, k)
            p = E.new_obj(st, n, size=PSIZE, const=True, cells={0: (4, z3.If(z3.Bool(n + '.key'), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))),
                                                              4: (4, z3.BitVec(n + '.index', 32)), 8: (32, GStr(z3.Const(n + '.text', T.Bytes)))})
            self.cache[k] = (p, st.mem[p.obj])
        p, oc = self.cache[k]
        if p.obj not in st.mem:
            st.mem[p.obj] = oc
        return p


class GPath:
    SIZE = 80

    def __init__(self, seq, obj):
        self.seq, self.obj = seq, obj

    def gsame(self, o):
        return isinstance(o, GPath) and self.obj == o.obj


def new_path(E, st, seq):
    p = E.new_obj(st, repr(seq), size=None, data=seq)
    return GPath(seq, p)


def sym_path(E, st, tag):
    n = z3.BitVec(tag + '_n', 64)
    st.assume(z3.ULT(n, 1 << 32))
    seq = Seq('base', n, tag=tag)
    g = new_path(E, st, seq)
    p = E.new_obj(st, 'deque ' + tag, size=80)
    E.gput(st, p, g)
    return p, g


def it_put(E, st, p, cur):
    E.put(st, p, 8, cur)
    for o in (8, 16, 24):
        E.put(st, E.padd(p, o), 8, NULL)


def it_get(E, st, p):
    return E.load(st, p, 8, 'ptr')


def new_it(E, st, cur):
    p = E.new_obj(st, 'iterator', size=32)
    it_put(E, st, p, cur)
    return p


def seq_of(E, cur):
    s = E.objs[cur.obj].data
    if not isinstance(s, Seq):
        raise Unsupported('not an iterator of a path')
    return s


def div40(off):
    """element number of an offset that is a multiple of 40"""
    if isc(off):
        return bv(off // PSIZE)
    return None


def idx(st, cur):
    """offsets of path iterators are kept in elements"""
    return bv(cur.off)


def path_range(E, st, b, e):
    """(base path, from, to) of the elements between two iterators"""
    if b.obj != e.obj:
        raise Unsupported('iterators of different paths')
    return seq_of(E, b), idx(st, b), idx(st, e)


def slice_of(s, lo, hi):
    lo, hi = simp2(bv(lo)), simp2(bv(hi))
    if z3.is_bv_value(lo) and lo.as_long() == 0 and hi.eq(simp2(bv(s.n))):
        return s
    if s.kind == 'slice':
        return slice_of(s.base, s.lo + lo, s.lo + hi)
    return Seq('slice', simp2(hi - lo), base=s, lo=lo, tag='%s[%s..%s]' % (s.tag, lo, hi))


def same_seq(E, st, a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind == 'slice':
        return a.base is b.base and same(a.lo, b.lo) and same(simp2(bv(a.n)), simp2(bv(b.n)))
    if a.kind == 'app':
        return same_seq(E, st, a.base, b.base) and len(a.tail) == len(b.tail) and all(same_elem(E, st, x, y) for x, y in zip(a.tail, b.tail))
    return False


def same_elem(E, st, x, y):
    if x == y:
        return True
    cx, cy = st.mem[x.obj].cells, st.mem[y.obj].cells
    t = E.load(st, x, 4, 'i32'), E.load(st, y, 4, 'i32')
    if not same(t[0], t[1]) or not isc(t[0]):
        return False
    if t[0] == 0:
        return same(E.load(st, E.padd(x, 4), 4, 'i32'), E.load(st, E.padd(y, 4), 4, 'i32'))
    return E.gget(st, E.padd(x, 8), GStr).gsame(E.gget(st, E.padd(y, 8), GStr))


def elem_copy(E, st, p):
    """an element like the one at p, never changed"""
    q = E.new_obj(st, 'path element', size=PSIZE, const=True)
    src = st.mem[p.obj].cells
    base = p.off
    st.mem[q.obj] = OC({o - base: c for o, c in src.items() if base <= o < base + PSIZE})
    return q


def path_models(E):
    D = r'std::deque<%s, std::allocator<%s>>::' % (PE, PE)
    IT = r'std::_Deque_iterator<%s, %s( const)?&, %s( const)?\*>' % (PE, PE, PE)

    def begin(E, st, a, call):
        g = E.gget(st, a[1], GPath)
        it_put(E, st, a[0], Ptr(g.obj.obj, 0))

    def end(E, st, a, call):
        g = E.gget(st, a[1], GPath)
        n = simp2(bv(g.seq.n))
        it_put(E, st, a[0], Ptr(g.obj.obj, n.as_long() if z3.is_bv_value(n) else n))

    def size(E, st, a, call):
        n = simp2(bv(E.gget(st, a[0], GPath).seq.n))
        return n.as_long() if z3.is_bv_value(n) else n

    def empty(E, st, a, call):
        return simp(bv(E.gget(st, a[0], GPath).seq.n) == 0)

    def itcopy(E, st, a, call):
        it_put(E, st, a[0], it_get(E, st, a[1]))

    def itassign(E, st, a, call):
        it_put(E, st, a[0], it_get(E, st, a[1]))
        return a[0]

    def eq(neg):
        def f(E, st, a, call):
            x, y = it_get(E, st, a[0]), it_get(E, st, a[1])
            if x.obj != y.obj:
                raise Unsupported('iterators of different paths')
            r = simp(bv(x.off) == bv(y.off))
            return (not r if isinstance(r, bool) else simp(z3.Not(r))) if neg else r
        return f

    def shift(sign):
        def f(E, st, a, call):
            c = it_get(E, st, a[1])
            o = simp2(bv(c.off) + sign * bv(a[2]))
            it_put(E, st, a[0], Ptr(c.obj, o.as_long() if z3.is_bv_value(o) else o))
        return f

    def step(sign):
        def f(E, st, a, call):
            c = it_get(E, st, a[0])
            d = bv(a[1]) if len(a) > 1 else bv(1)
            o = simp2(bv(c.off) + sign * d)
            it_put(E, st, a[0], Ptr(c.obj, o.as_long() if z3.is_bv_value(o) else o))
            return a[0]
        return f

    def deref(E, st, a, call):
        c = it_get(E, st, a[0])
        s = seq_of(E, c)
        E.oblige(st, z3.ULT(bv(c.off), bv(s.n)), 'memory', 'path iterator at the end is dereferenced')
        return s.elem(E, st, bv(c.off))

    def index(E, st, a, call):
        g = E.gget(st, a[0], GPath)
        E.oblige(st, z3.ULT(bv(a[1]), bv(g.seq.n)), 'memory', 'path element out of range')
        return g.seq.elem(E, st, bv(a[1]))

    def range_ctor(E, st, a, call):
        s, lo, hi = path_range(E, st, it_get(E, st, a[1]), it_get(E, st, a[2]))
        E.gput(st, a[0], new_path(E, st, slice_of(s, lo, hi)))

    def copy_ctor(E, st, a, call):
        E.gput(st, a[0], new_path(E, st, E.gget(st, a[1], GPath).seq))

    def dassign(E, st, a, call):
        s = E.gget(st, a[1], GPath).seq
        E.gput(st, a[0], new_path(E, st, s))
        if '&&' in call.dem:
            dctor(E, st, [a[1]], call)
        return a[0]

    def dctor(E, st, a, call):
        E.gput(st, a[0], new_path(E, st, Seq('base', bv(0), tag='empty path')))

    def fill_ctor(E, st, a, call):
        if not isc(a[1]) or a[1] != 1:
            raise Unsupported('path of equal elements')
        E.gput(st, a[0], new_path(E, st, Seq('app', bv(1), base=E.empty_seq, tail=[elem_copy(E, st, a[2])], tag='one element')))

    def append(E, st, p, more):
        g = E.gget(st, p, GPath)
        s = g.seq
        if s.kind == 'app':
            t = Seq('app', simp2(bv(s.n) + len(more)), base=s.base, tail=s.tail + tuple(more), tag=s.tag + '+')
        else:
            t = Seq('app', simp2(bv(s.n) + len(more)), base=s, tail=more, tag=s.tag + '+')
        E.gput(st, p, new_path(E, st, t))

    def push_back(E, st, a, call):
        append(E, st, a[0], [elem_copy(E, st, a[1])])

    def insert(E, st, a, call):
        # sret, this, position, from, to
        ret, this, pos, b, e = a
        g = E.gget(st, this, GPath)
        c = it_get(E, st, pos)
        if not (c.obj == g.obj.obj and same(simp2(bv(c.off)), simp2(bv(g.seq.n)))):
            raise Unsupported('insertion inside a path')
        s, lo, hi = path_range(E, st, it_get(E, st, b), it_get(E, st, e))
        t = Seq('cat', simp2(bv(g.seq.n) + hi - lo), base=g.seq, tail=(slice_of(s, lo, hi),), tag='%s+%s' % (g.seq.tag, s.tag))
        h = new_path(E, st, t)
        E.gput(st, this, h)
        it_put(E, st, ret, Ptr(h.obj.obj, g.seq.n))
    E.empty_seq = Seq('base', bv(0), tag='empty path')
    pattern(E, D + r'c?begin\(\)( const)?', begin)
    pattern(E, D + r'c?end\(\)( const)?', end)
    pattern(E, D + r'size\(\) const', size)
    pattern(E, D + r'empty\(\) const', empty)
    pattern(E, D + r'operator\[\]\(unsigned long\)( const)?', index)
    pattern(E, IT + r'::_Deque_iterator(<.*>)?\(' + IT + r' const&\)', itcopy)
    pattern(E, IT + r'::operator=\(' + IT + r' (const&|&&)\)', itassign)
    pattern(E, r'std::operator==\(' + IT + r' const&, ' + IT + r' const&\)', eq(False))
    pattern(E, r'std::operator!=\(' + IT + r' const&, ' + IT + r' const&\)', eq(True))
    pattern(E, r'std::operator\+\(' + IT + r' const&, long\)', shift(1))
    pattern(E, r'std::operator-\(' + IT + r' const&, long\)', shift(-1))
    pattern(E, IT + r'::operator(\+\+|\+=)\((long)?\)', step(1))
    pattern(E, IT + r'::operator(--|-=)\((long)?\)', step(-1))
    pattern(E, IT + r'::operator(\*|->)\(\) const', deref)
    pattern(E, D + r'deque<.*>\(' + IT + r', ' + IT + r', .*\)', range_ctor)
    pattern(E, D + r'deque\(std::deque<.*> (const&|&&)\)', copy_ctor)
    pattern(E, D + r'operator=\(std::deque<.*> ?(const&|&&)\)', dassign)
    pattern(E, D + r'deque\(\)', dctor)
    pattern(E, D + r'deque\(unsigned long, %s const&, .*\)' % PE, fill_ctor)
    pattern(E, D + r'~deque\(\)', lambda E, st, a, call: None)
    pattern(E, D + r'push_back\(%s( const&|&&)\)' % PE, push_back)
    pattern(E, r'.* ' + D + r'insert<.*>\(.*\)', insert)


# ------------------------------------------------------------------ abstract values: operations are recorded
ABS_EXC = '_ZTI17abstract_exception'
NOTHROW = ('Destroy', 'Destruct', 'GetType', 'Exists')


def slots(E):
    """name of the operation in each slot of the operations table"""
    r = {}
    for k, dem in E.P.types[INT + 'VTable']['virt'].items():
        m = re.match(r'libvariant::Internal::VTable::(\w+)', dem)
        if m:
            r[int(k)] = m.group(1)
    return r


def record(st, ev):
    st.ghost['ev'] = st.ghost.get('ev', ()) + (ev,)


def events(st, name=None):
    return [e for e in st.ghost.get('ev', ()) if name is None or e[0] == name]


def op_handler(name, act=None, throws=True):
    def h(E, st, a, inst):
        t = inst['t']
        args = tuple(a)
        res = None
        if t == 'ptr':
            res = E.new_obj(st, 'result of ' + name, size=None)
            if name in ('GetIndex', 'GetConstIndex', 'GetKey', 'GetConstKey', 'Resolve', 'ResolveConst', 'ResolveDefault'):
                E.put(st, res, 8, E.abs_vt)
        elif t in FP:
            res = z3.FP('result_%s_%d' % (name, next(E.uid)), FP[t])
        elif t != 'void':
            res = E.fresh(t, 'result_' + name)
        s2 = st.copy()
        if act is not None:
            r = act(E, st, a, res)
            if r is not None:
                res = r[0]
        if E.norec:
            return [Out(st, res)] if name in NOTHROW else [Out(st, res), Out(s2, None, Exc(ABS_EXC))]
        record(st, (name, args, res))
        if not throws or name in NOTHROW:
            return [Out(st, res)]
        record(s2, (name, args, 'exception'))
        return [Out(st, res), Out(s2, None, Exc(ABS_EXC))]
    return h


def abs_vtable(E, st, acts=None, name='abstract operations', throws=True):
    """operations table of an abstract value"""
    acts = acts or {}
    cells = {}
    for k, n in slots(E).items():
        act = acts.get(n)
        fo = E.new_obj(st, 'operation ' + n, kind='afn', handler=act if getattr(act, 'full', False) else op_handler(n, act, throws), size=0)
        cells[k * 8] = (8, fo)
    vt = E.new_obj(st, name, size=None, cells=cells, const=True)
    # a class object: its first word points to the operations table
    return E.new_obj(st, name + ' object', size=8, cells={0: (8, vt)}, const=True)


def abstract(E, st, name, vt=None, ref=None):
    """an arbitrary value of which nothing but its operations is known"""
    rd, rc = ref or (NULL, NULL)
    return E.new_obj(st, name, size=DATA, cells={0: (8, vt or E.abs_vt), 32: (8, rd), 40: (8, rc), 48: (8, NULL), 56: (8, NULL)})


def slot_fn(E, st, vtobj, k):
    """function in slot k of the operations table object"""
    vt = E.load(st, vtobj, 8, 'ptr')
    f = E.load(st, E.padd(vt, 8 * k), 8, 'ptr')
    return E.objs[f.obj].fn
