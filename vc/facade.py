"""The public operations on dynamic values as an abstract data type, for the code that uses them.

A value is a term; a reference is a place (a variable, or a key or index below a place) and reads and writes the value there.
What is used here of each operation is what the contracts of src/Variant.cc (properties P10 to P13) establish; containers reachable
from two places at once are outside the model."""
import z3
from . import theory as T
from .theory import bv
from .engine import *
from .lib import *
from .models_cxx import GStr, STR
from .varcont import Val, nullval

NS = 'libvariant::'
VAR = NS + 'Variant'
REF = NS + r'VariantRefImpl<libvariant::Variant( const)?>'
VEC = r'std::vector<%s, std::allocator<%s>>' % (VAR, VAR)
TYP = z3.Function('type_of', Val, z3.BitVecSort(32))
HAS = z3.Function('has_key', Val, T.Bytes, z3.BoolSort())
GETK = z3.Function('at_key', Val, T.Bytes, Val)
SETK = z3.Function('with_key', Val, T.Bytes, Val, Val)
DELK = z3.Function('without_key', Val, T.Bytes, Val)
LEN = z3.Function('length_of', Val, T.BV64)
GETI = z3.Function('at_index', Val, T.BV64, Val)
SETI = z3.Function('with_index', Val, T.BV64, Val, Val)
INSI = z3.Function('inserted', Val, T.BV64, Val, Val)
PUTI = z3.Function('grown_to_index', Val, T.BV64, Val, Val)
DELI = z3.Function('without_index', Val, T.BV64, Val)
EQV = z3.Function('equal_values', Val, Val, z3.BoolSort())
TEXT = z3.Function('text_of', Val, T.Bytes)
COPY = z3.Function('copy_of', Val, Val)
# along a JSON pointer: something there, what is there, with another value there
FOUND = z3.Function('found_along', Val, T.Bytes, z3.BoolSort())
ALONG = z3.Function('value_at', Val, T.Bytes, Val)
PUTF = z3.Function('with_value_at', Val, T.Bytes, Val, Val)
NULLT, BOOLT, INTT, UINTT, FLOATT, STRT, LISTT, MAPT, BLOBT = range(9)
RTE = '_ZTISt13runtime_error'


class GV:
    """what a Variant object or a reference stands for: ('val', term) or ('ref', place)"""
    SIZE = 64

    def __init__(self, kind, x):
        self.kind, self.x = kind, x

    def gsame(self, o):
        return isinstance(o, GV) and self.kind == o.kind and same_place(self.x, o.x)

    def havoc(self, E, st, name, others):
        if self.kind != 'val' or any(getattr(o, 'kind', '') != 'val' for o in others):
            raise Unsupported('a reference changes in a loop')
        return GV('val', z3.FreshConst(Val, name))

    def __repr__(self):
        return 'GV(%s %s)' % (self.kind, self.x)


def same_place(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_place(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return a == b if type(a) is type(b) else False


def setk(v, k, x):
    """v with x at key k; of several writes to one key the last counts"""
    if v.decl().eq(SETK) and v.arg(1).eq(k):
        v = v.arg(0)
    return SETK(v, k, x)


def getk(v, k):
    return v.arg(2) if v.decl().eq(SETK) and v.arg(1).eq(k) else GETK(v, k)


def has(v, k):
    return z3.BoolVal(True) if v.decl().eq(SETK) and v.arg(1).eq(k) else HAS(v, k)


def root(st, name, exists=True):
    """a variable of the caller"""
    st.ghost[('node', name)] = z3.Const(name, Val)
    st.ghost[('live', name)] = z3.BoolVal(exists) if isinstance(exists, bool) else exists
    facts(st, st.ghost[('node', name)])
    return ('root', name)


def facts(st, v):
    st.assume(z3.ULE(TYP(v), 8), z3.ULT(LEN(v), 1 << 32))
    n = v.decl().name()
    if n in ('with_key', 'without_key'):
        st.assume(TYP(v) == MAPT)
    elif n in ('with_index', 'inserted', 'without_index', 'grown_to_index'):
        st.assume(TYP(v) == LISTT)


def read(st, loc):
    """(is there, value)"""
    if loc[0] == 'const':
        return z3.BoolVal(True), loc[1]
    if loc[0] == 'root':
        return st.ghost[('live', loc[1])], st.ghost[('node', loc[1])]
    if loc[0] in ('key', 'skey'):
        e, v = read(st, loc[1])
        return z3.And(e, TYP(v) == MAPT, has(v, loc[2])), getk(v, loc[2])
    if loc[0] in ('idx', 'sidx'):
        e, v = read(st, loc[1])
        return z3.And(e, TYP(v) == LISTT, z3.ULT(loc[2], LEN(v))), GETI(v, loc[2])
    if loc[0] == 'sub':
        # found along a pointer
        e, v = read(st, loc[1])
        return z3.And(e, FOUND(v, loc[2])), ALONG(v, loc[2])
    raise Unsupported('reading a place of another function')


def write(st, loc, x):
    if loc[0] == 'root':
        st.ghost[('node', loc[1])] = x
        facts(st, x)
        if not z3.is_true(st.ghost[('live', loc[1])]):
            st.ghost[('live', loc[1])] = z3.BoolVal(True)
    elif loc[0] == 'key':
        write(st, loc[1], setk(read(st, loc[1])[1], loc[2], x))
    elif loc[0] == 'idx':
        write(st, loc[1], SETI(read(st, loc[1])[1], loc[2], x))
    elif loc[0] == 'sub':
        v = read(st, loc[1])[1]
        if x.eq(ALONG(v, loc[2])):
            return
        write(st, loc[1], PUTF(v, loc[2], x))
    elif loc[0] in ('skey', 'sidx'):
        put_if(st, loc, z3.BoolVal(True), x)
    else:
        raise Unsupported('writing to a place of another function')


def growk(e, v, k, x):
    """the map v, or a new one where there is none, with x at key k"""
    return SETK(z3.If(e, v, EMPTYMAP), k, x)


def growi(e, v, i, x):
    """the list v, or a new one where there is none, with x at index i, filled up with nulls to there"""
    return PUTI(z3.If(e, v, EMPTYLIST), i, x)


def put_if(st, loc, c, x):
    """where c holds, x is written to a place that need not be there yet"""
    if loc[0] == 'root':
        e, v = read(st, loc)
        st.ghost[('node', loc[1])] = simp2(z3.If(c, x, v))
        st.ghost[('live', loc[1])] = z3.simplify(z3.Or(e, c))
        facts(st, st.ghost[('node', loc[1])])
    elif loc[0] in ('skey', 'sidx'):
        e, v = read(st, loc[1])
        w = (growk if loc[0] == 'skey' else growi)(e, v, loc[2], x)
        facts(st, w)
        for f in st.ghost.get(('old', 'grown'), ()):
            st.assume(f(w))
        put_if(st, loc[1], c, w)
    else:
        raise Unsupported('writing to a place of another function')


def gv(E, st, p):
    if p.obj and not isinstance(p.obj, tuple) and isinstance(E.objs[p.obj].data, ListVal):
        # an element of a list, through an iterator
        v = E.objs[p.obj].data.v
        i = simp2(z3.LShR(bv(p.off), 6))
        E.oblige(st, z3.ULT(i, LEN(v)), 'memory', 'list iterator at the end is dereferenced')
        E.oblige(st, bv(p.off) == i << 6, 'memory', 'list iterator between elements')
        return GV('val', element(E, st, v, i))
    return E.gget(st, p, GV)


def element(E, st, v, i):
    for h in getattr(E, 'entry_hooks', ()):
        st.assume(h(v, i))
    x = GETI(v, i)
    facts(st, x)
    return x


def look(E, st, p):
    g = gv(E, st, p)
    if g.kind == 'val':
        return z3.BoolVal(True), g.x
    return read(st, g.x)


def throws(E, st):
    """an exception from the standard hierarchy"""
    vt = E.new_obj(st, 'vtable of an exception', size=None, const=True)
    what = E.new_obj(st, 'what', kind='afn', size=0, handler=lambda E, st, a, inst: [Out(st, E.what)])
    st.mem[vt.obj] = OC({16: (8, what)})
    o = E.new_obj(st, 'exception', size=64)
    st.mem[o.obj] = OC({0: (8, vt)})
    return Exc(RTE, o)


def split(E, st, c):
    """(state where c holds or None, state where it does not or None)"""
    c = simp(c) if not isinstance(c, bool) else c
    if isinstance(c, bool):
        return (st, None) if c else (None, st)
    s2 = st.copy()
    st.assume(c)
    s2.assume(z3.Not(c))
    return (st if E.feasible(st) else None), (s2 if E.feasible(s2) else None)


def need(E, st, cond, then):
    """then(state) where cond holds, an exception where it does not"""
    yes, no = split(E, st, cond)
    o = []
    if yes is not None:
        r = then(yes)
        o.extend(r if isinstance(r, list) and r and isinstance(r[0], Out) else [Out(yes, r)])
    if no is not None:
        o.append(Out(no, exc=throws(E, no)))
    return o


def bo(x):
    return simp(x)


def put_val(E, st, p, v):
    facts(st, v)
    E.gput(st, p, GV('val', v))


def text(E, st, p):
    return E.gget(st, p, GStr).b


def z(i):
    return z3.ZeroExt(32, bv(i, 32))


class ListVal:
    """the elements of a list that nobody changes"""

    def __init__(self, v):
        self.v = v


class GVec:
    """a vector of values: the list with the same elements"""
    SIZE = 24

    def __init__(self, v):
        self.v = v

    def gsame(self, o):
        return isinstance(o, GVec) and self.v.eq(o.v)

    def havoc(self, E, st, name, others):
        return GVec(z3.FreshConst(Val, name))


class ListView:
    def __init__(self, loc):
        self.loc = loc


def setup(E):
    V = VAR + '::'
    S = STR + ' const&'
    E.what = None

    def place(E, st, p):
        g = gv(E, st, p)
        if g.kind != 'ref':
            raise Unsupported('place of a value')
        return g.x

    def exists(E, st, a, call):
        return bo(look(E, st, a[0])[0])

    def gettype(E, st, a, call):
        e, v = look(E, st, a[0])
        facts(st, v)
        return need(E, st, e, lambda s: simp(TYP(v)))

    def at_key(E, st, a, call):
        e, v = look(E, st, a[1])
        loc = place(E, st, a[1])
        if E.feasible(st, z3.And(e, z3.Not(TYP(v) == MAPT))) and E.feasible(st, z3.And(e, TYP(v) == NULLT)):
            raise Unsupported('reference below a value that may not be a map')
        k = text(E, st, a[2])

        def f(s):
            facts(s, GETK(v, k))
            E.gput(s, a[0], GV('ref', ('key', loc, k)))
        return need(E, st, z3.And(e, TYP(v) == MAPT), f)

    def at_idx(E, st, a, call):
        e, v = look(E, st, a[1])
        loc = place(E, st, a[1])
        if E.feasible(st, z3.And(e, TYP(v) == NULLT)):
            raise Unsupported('reference below a value that may not be a list')

        def f(s):
            facts(s, GETI(v, z(a[2])))
            E.gput(s, a[0], GV('ref', ('idx', loc, simp2(z(a[2])))))
        return need(E, st, z3.And(e, TYP(v) == LISTT), f)

    def contains_key(E, st, a, call):
        e, v = look(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == MAPT), lambda s: bo(has(v, text(E, s, a[1]))))

    def contains_idx(E, st, a, call):
        e, v = look(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == LISTT), lambda s: bo(z3.ULT(z(a[1]), LEN(v))))

    def get_key(E, st, a, call):
        e, v = look(E, st, a[1])
        k = text(E, st, a[2])
        return need(E, st, z3.And(e, TYP(v) == MAPT, HAS(v, k)), lambda s: put_val(E, s, a[0], GETK(v, k)))

    def get_idx(E, st, a, call):
        e, v = look(E, st, a[1])
        i = simp2(z(a[2]))
        return need(E, st, z3.And(e, TYP(v) == LISTT, z3.ULT(i, LEN(v))), lambda s: put_val(E, s, a[0], GETI(v, i)))

    def set_here(E, st, p, x):
        g = gv(E, st, p)
        facts(st, x)
        if g.kind == 'val':
            E.gput(st, p, GV('val', x))
        else:
            write(st, g.x, x)

    def set_key(E, st, a, call):
        e, v = look(E, st, a[0])
        k = text(E, st, a[1])
        xe, x = look(E, st, a[2])

        def f(s):
            set_here(E, s, a[0], SETK(v, k, x))
            return a[0]
        return need(E, st, z3.And(e, TYP(v) == MAPT, xe), f)

    def erase_key(E, st, a, call):
        e, v = look(E, st, a[0])
        k = text(E, st, a[1])
        return need(E, st, z3.And(e, TYP(v) == MAPT), lambda s: set_here(E, s, a[0], DELK(v, k)))

    def append(E, st, a, call):
        e, v = look(E, st, a[0])
        xe, x = look(E, st, a[1])

        def f(s):
            set_here(E, s, a[0], INSI(v, LEN(v), x))
            return a[0]
        return need(E, st, z3.And(e, TYP(v) == LISTT, xe), f)

    def size(E, st, a, call):
        e, v = look(E, st, a[0])
        facts(st, v)
        return need(E, st, z3.And(e, z3.Or(TYP(v) == LISTT, TYP(v) == MAPT, TYP(v) == STRT)), lambda s: simp2(z3.Extract(31, 0, LEN(v))))

    def aslist(E, st, a, call):
        e, v = look(E, st, a[0])
        g = gv(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == LISTT), lambda s: E.new_obj(s, 'list', size=None, data=ListView(a[0] if g.kind == 'val' else g.x)))

    def view(E, st, p):
        d = E.objs[p.obj].data
        if not isinstance(d, ListView):
            raise Unsupported('another vector')
        return d.loc

    def vsize(E, st, a, call):
        return simp2(LEN(read(st, view(E, st, a[0]))[1]))

    def vbegin(E, st, a, call):
        return Ptr(a[0].obj, 0)

    def vend(E, st, a, call):
        return Ptr(a[0].obj, simp2(LEN(read(st, view(E, st, a[0]))[1]) << 6))

    def position(E, st, this, it):
        if it.obj != this.obj:
            # another view of the same list
            if not same_place(view(E, st, this), view(E, st, it)):
                raise Unsupported('iterator of another list')
        return simp2(z3.LShR(bv(it.off), 6))

    def vinsert(E, st, a, call):
        loc = view(E, st, a[0])
        v = read(st, loc)[1]
        i = position(E, st, a[0], a[1])
        xe, x = look(E, st, a[2])
        E.oblige(st, z3.ULE(i, LEN(v)), 'memory', 'insertion beyond the end of a list')
        E.oblige(st, bv(a[1].off) == i << 6, 'memory', 'list iterator between elements')

        def f(s):
            w = INSI(v, i, x)
            facts(s, w)
            write(s, loc, w)
            return a[1]
        return need(E, st, xe, f)

    def verase(E, st, a, call):
        loc = view(E, st, a[0])
        v = read(st, loc)[1]
        i = position(E, st, a[0], a[1])
        E.oblige(st, z3.ULT(i, LEN(v)), 'memory', 'erasing beyond the end of a list')
        w = DELI(v, i)
        facts(st, w)
        write(st, loc, w)
        return a[1]

    def assign(E, st, a, call):
        xe, x = look(E, st, a[1])

        def f(s):
            set_here(E, s, a[0], x)
            return a[0]
        return need(E, st, xe, f)

    def assign_type(E, st, a, call):
        if not isc(a[1]) or a[1] not in (NULLT, LISTT, MAPT):
            raise Unsupported('assignment of a type')
        x = nullval if a[1] == NULLT else z3.Const('empty_list' if a[1] == LISTT else 'empty_map', Val)
        st.assume(TYP(x) == a[1], LEN(x) == 0)
        set_here(E, st, a[0], x)
        return a[0]

    def ctor0(E, st, a, call):
        st.assume(TYP(nullval) == NULLT)
        put_val(E, st, a[0], nullval)

    def ctor_copy(E, st, a, call):
        xe, x = look(E, st, a[1])
        return need(E, st, xe, lambda s: put_val(E, s, a[0], x))

    def ref_copy(E, st, a, call):
        E.gput(st, a[0], gv(E, st, a[1]))

    def ref_of(E, st, a, call):
        g = gv(E, st, a[1])
        if g.kind == 'ref':
            E.gput(st, a[0], g)
            return
        n = 'variable %d.%s' % (a[1].obj, a[1].off)
        st.ghost[('node', n)] = g.x
        raise Unsupported('reference to a variable')

    def equal(neg):
        def f(E, st, a, call):
            xe, x = look(E, st, a[0])
            ye, y = look(E, st, a[1])
            return need(E, st, z3.And(xe, ye), lambda s: bo(z3.Not(EQV(x, y)) if neg else EQV(x, y)))
        return f

    def copy(E, st, a, call):
        xe, x = look(E, st, a[1])
        return need(E, st, xe, lambda s: put_val(E, s, a[0], COPY(x)))

    def setpath(E, st, a, call):
        from .variants import GPath
        e, v = look(E, st, a[0])
        xe, x = look(E, st, a[2])
        seq = E.gget(st, a[1], GPath).seq
        if not (seq.kind == 'cat' and isc(simp(seq.base.n)) and simp(seq.base.n) == 0 and seq.tail[0][0] == 'rest of' and seq.tail[0][1].eq(v)):
            raise Unsupported('path of another value')

        def f(s):
            set_here(E, s, a[0], PUTF(v, seq.tail[0][2], x))
            return a[0]
        return need(E, st, z3.And(e, xe), f)

    def nothing(E, st, a, call):
        return None
    C = r'\(' + VAR + r' (const&|&&)\)'
    for rx, fn in ((V + r'Exists\(\) const', exists), (V + r'GetType\(\) const', gettype), (V + r'At\(' + S + r'\)', at_key), (V + r'At\(unsigned int\)', at_idx),
                   (V + r'Contains\(' + S + r'\) const', contains_key), (V + r'Contains\(unsigned int\) const', contains_idx),
                   (V + r'Get\(' + S + r'\) const', get_key), (V + r'Get\(unsigned int\) const', get_idx), (V + r'Set\(' + S + ', ' + VAR + r'\)', set_key),
                   (V + r'Erase\(' + S + r'\)', erase_key), (V + r'Append\(' + VAR + r'\)', append), (V + r'Size\(\) const', size), (V + r'AsList\(\)( const)?', aslist),
                   (VEC + r'::size\(\) const', vsize), (VEC + r'::c?begin\(\)( const)?', vbegin), (VEC + r'::c?end\(\)( const)?', vend),
                   (VEC + r'::insert\(.*\)', vinsert), (VEC + r'::erase\(__gnu_cxx::__normal_iterator<[^()]*>\)', verase),
                   (V + r'operator=' + C, assign), (V + r'operator=\(libvariant::VariantDefines::Type_t\)', assign_type), (V + r'Variant\(\)', ctor0), (V + r'Variant' + C, ctor_copy),
                   (REF + r'::VariantRefImpl\(' + REF + r' const&\)', ref_copy), (REF + r'::VariantRefImpl\(' + VAR + r'( const)?&\)', ref_of),
                   (REF + r'::~VariantRefImpl\(\)', nothing), (V + r'~Variant\(\)', nothing),
                   (NS + r'operator==' + r'\(' + VAR + ' const&, ' + VAR + r' const&\)', equal(False)), (NS + r'operator!=' + r'\(' + VAR + ' const&, ' + VAR + r' const&\)', equal(True)),
                   (V + r'Copy\(\) const', copy), (V + r'SetPath\(' + NS + r'Path const&, .*Variant( const&)?\)', setpath),
                   (V + r'SetPath\(std::deque<.*> const&, .*Variant( const&)?\)', setpath)):
        pattern(E, rx, fn)

    def rte(E, st, a, call):
        # an object whose what() can be called
        if '~' in call.dem:
            return None
        x = throws(E, st)
        E.put(st, a[0], 8, E.load(st, x.ptr, 8, 'ptr'))
    pattern(E, r'std::runtime_error::~?runtime_error\(.*\)', rte)
    pattern(E, NS + r'PathString(\[abi:cxx11\])?\(.*\)', lambda E, st, a, call: E.gput(st, a[0], GStr(E.fresh('bytes', 'path text'))))
    pattern(E, r'(std::ostream& )?' + NS + r'operator<<\(std::(ostream|basic_ostream<.*>)&, .*Type_t\)', lambda E, st, a, call: a[0])


# the entries of a map in order
KEY = z3.Function('key_number', Val, T.BV64, T.Bytes)
EMPTYMAP = z3.Const('empty_map', Val)


class MapView:
    def __init__(self, v):
        self.v = v


def entry_facts(st, u, i):
    k = KEY(u, i)
    st.assume(z3.Implies(z3.ULT(i, LEN(u)), z3.And(HAS(u, k), TYP(u) == MAPT)))
    facts(st, GETK(u, k))


def maps(E):
    """iteration over maps, element access with [] and a value to use where there is none"""
    V = VAR + '::'
    S = STR + ' const&'
    IT = r'std::_Rb_tree_(const_)?iterator<std::pair<%s const, %s>>' % (STR, VAR)
    E.mapviews = {}
    E.entry_hooks = []          # definitions to use at an entry: fn(map or list, number)

    def view(E, st, u):
        k = u.get_id()
        if k not in E.mapviews:
            E.mapviews[k] = (E.new_obj(st, 'entries', size=None, data=MapView(u)), u)
        return E.mapviews[k][0]

    def begin(E, st, a, call):
        e, v = look(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == MAPT), lambda s: Ptr(view(E, s, v).obj, 0))

    def end(E, st, a, call):
        e, v = look(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == MAPT), lambda s: Ptr(view(E, s, v).obj, simp2(LEN(v))))

    def cur(E, st, p):
        q = E.load(st, p, 8, 'ptr')
        d = E.objs[q.obj].data
        if not isinstance(d, MapView):
            raise Unsupported('another iterator')
        return q, d.v

    def step(E, st, a, call):
        q, u = cur(E, st, a[0])
        E.oblige(st, z3.ULT(bv(q.off), LEN(u)), 'memory', 'map iterator beyond the end')
        E.put(st, a[0], 8, Ptr(q.obj, simp(bv(q.off) + 1)))
        return a[0]

    def deref(E, st, a, call):
        q, u = cur(E, st, a[0])
        i = simp2(bv(q.off))
        E.oblige(st, z3.ULT(i, LEN(u)), 'memory', 'map iterator at the end is dereferenced')
        entry_facts(st, u, i)
        for h in E.entry_hooks:
            st.assume(h(u, i))
        p = E.new_obj(st, 'entry', size=96, const=True)
        st.mem[p.obj] = OC({0: (32, GStr(KEY(u, i))), 32: (64, GV('val', GETK(u, KEY(u, i))))})
        return p

    def eq(neg):
        def f(E, st, a, call):
            x, y = cur(E, st, a[0]), cur(E, st, a[1])
            if x[0].obj != y[0].obj:
                raise Unsupported('iterators of different maps')
            r = bv(x[0].off) == bv(y[0].off)
            return bo(z3.Not(r) if neg else r)
        return f

    def at_const(E, st, a, call):
        e, v = look(E, st, a[0])
        k = text(E, st, a[1])

        def f(s):
            p = E.new_obj(s, 'element', size=64)
            put_val(E, s, p, getk(v, k))
            return p
        return need(E, st, z3.And(e, TYP(v) == MAPT, has(v, k)), f)

    def at_const_idx(E, st, a, call):
        e, v = look(E, st, a[0])
        i = simp2(z(a[1]))

        def f(s):
            p = E.new_obj(s, 'element', size=64)
            for h in E.entry_hooks:
                s.assume(h(v, i))
            put_val(E, s, p, GETI(v, i))
            return p
        return need(E, st, z3.And(e, TYP(v) == LISTT, z3.ULT(i, LEN(v))), f)

    def at_ref(E, st, a, call):
        ret, this, key = a[0], a[1], text(E, st, a[2])
        g = gv(E, st, this)
        loc = g.x if g.kind == 'ref' else ('const', g.x)
        e, v = read(st, loc)
        if not E.mute and (E.feasible(st, z3.Or(z3.Not(e), TYP(v) == NULLT)) or g.kind != 'ref' and E.feasible(st, z3.Not(has(v, key)))):
            raise Unsupported('reference below a value that may not be a map')

        def f(s):
            facts(s, getk(v, key))
            if len(a) > 3:
                yes, no = split(E, s, has(v, key))
                o = []
                if yes is not None:
                    E.gput(yes, ret, GV('ref', ('key', loc, key)))
                    o.append(Out(yes, None))
                if no is not None:
                    xe, x = look(E, no, a[3])
                    write(no, ('key', loc, key), x)
                    facts(no, read(no, loc)[1])
                    E.gput(no, ret, GV('ref', ('key', loc, key)))
                    o.append(Out(no, None))
                return o
            E.gput(s, ret, GV('ref', ('key', loc, key)))
        return need(E, st, TYP(v) == MAPT, f)

    def ctor_type(E, st, a, call):
        if not isc(a[1]) or a[1] != MAPT:
            raise Unsupported('value of a type')
        st.assume(TYP(EMPTYMAP) == MAPT, LEN(EMPTYMAP) == 0)
        put_val(E, st, a[0], EMPTYMAP)

    def asstring(E, st, a, call):
        e, v = look(E, st, a[1])
        return need(E, st, z3.And(e, TYP(v) != LISTT, TYP(v) != MAPT, TYP(v) != BLOBT), lambda s: E.gput(s, a[0], GStr(TEXT(v))))

    def asbool(E, st, a, call):
        e, v = look(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == BOOLT), lambda s: bo(TRUTH(v)))

    def ref_const(E, st, a, call):
        g = gv(E, st, a[1])
        E.gput(st, a[0], g if g.kind == 'ref' else GV('ref', ('const', g.x)))
    AB = r'(\[abi:cxx11\])?'
    for rx, fn in ((V + 'MapBegin' + AB + r'\(\) const', begin), (V + 'MapEnd' + AB + r'\(\) const', end), (IT + r'::operator\+\+\(\)', step), (IT + r'::operator(->|\*)\(\) const', deref),
                   (r'std::operator!=\(' + IT + ' const&, ' + IT + r' const&\)', eq(True)), (r'std::operator==\(' + IT + ' const&, ' + IT + r' const&\)', eq(False)),
                   (V + r'(operator\[\]|At)\(' + S + r'\) const', at_const), (V + r'(operator\[\]|At)\(unsigned int\) const', at_const_idx),
                   (V + r'(operator\[\]|At)\(' + S + r'\)', at_ref), (V + r'At\(' + S + ', ' + VAR + r'\)', at_ref),
                   (V + r'Variant\(libvariant::VariantDefines::Type_t\)', ctor_type), (V + 'AsString' + AB + r'\(\) const', asstring), (V + r'AsBool\(\) const', asbool),
                   (REF + r'::VariantRefImpl\(' + VAR + r' const&\)', ref_const)):
        pattern(E, rx, fn)


TRUTH = z3.Function('truth_of', Val, z3.BoolSort())
DECU = z3.Function('decimal', z3.BitVecSort(32), T.Bytes)


def streams(E):
    """text written to string streams"""
    from .models_cxx import OSS, cstring
    O = r'std::basic_ostream<char, std::char_traits<char>>&?'

    def new(E, st, a, call):
        st.ghost[('stream', a[0].obj)] = T.nil

    def put(f):
        def g(E, st, a, call):
            k = ('stream', a[0].obj)
            if k not in st.ghost:
                raise Unsupported('another stream')
            st.ghost[k] = T.app(st.ghost[k], f(E, st, a[1]))
            return a[0]
        return g

    def get(E, st, a, call):
        E.gput(st, a[0], GStr(st.ghost[('stream', a[1].obj)]))
    pattern(E, OSS + r'::basic_(o|i)?stringstream\(\)', new)
    pattern(E, OSS + r'::str\(\) const', get)
    pattern(E, O + r' std::operator<<<.*>\(' + O + r', ' + STR + r' const&\)', put(lambda E, st, p: text(E, st, p)))
    pattern(E, O + r' std::operator<<<.*>\(' + O + r', char const\*\)', put(lambda E, st, p: cstring(E, st, p)))
    pattern(E, r'std::(basic_)?ostream(<.*>)?::operator<<\(unsigned int\)', put(lambda E, st, v: DECU(bv(v, 32))))


def strings(E):
    """more of std::string"""
    def find(E, st, a, call):
        b = text(E, st, a[0])
        c = bv(a[1], 8)
        p = bv(a[2])
        r = FIND(b, c, p)
        n = T.blen(b)
        st.assume(z3.ULE(r, n), z3.Implies(z3.ULT(p, n), z3.UGE(r, p)), z3.Implies(z3.UGE(p, n), r == n), z3.Implies(z3.ULT(r, n), T.sel(T.arrof(b), r) == c))
        return simp(z3.If(z3.ULT(r, n), r, z3.BitVecVal(-1, 64)))

    def substr(E, st, a, call):
        b = text(E, st, a[1])
        p, n = bv(a[2]), bv(a[3])
        room = T.blen(b) - p

        def f(s):
            t = T.cat(T.nil, T.arrof(b), simp2(p), simp2(z3.If(z3.ULT(n, room), n, room)))
            s.assume(z3.Implies(T.blen(t) != 0, T.sel(T.arrof(t), bv(0)) == T.sel(T.arrof(b), p)))
            E.gput(s, a[0], GStr(t))
        return need(E, st, z3.ULE(p, T.blen(b)), f)

    def index(E, st, a, call):
        from .models_cxx import str_view
        return E.padd(str_view(E, st, text(E, st, a[0])), simp(bv(a[1])))

    def eqc(E, st, a, call):
        from .models_cxx import cstring
        return bo(text(E, st, a[0]) == cstring(E, st, a[1]))

    def begin(E, st, a, call):
        return sview(E, st, a[0])

    def end(E, st, a, call):
        return E.padd(sview(E, st, a[0]), simp2(T.blen(text(E, st, a[0]))))

    def sview(E, st, p):
        # one view per content, so that iterators of one string compare
        from .models_cxx import str_view
        b = text(E, st, p)
        k = ('view', b.get_id())
        if k not in E.views:
            E.views[k] = (str_view(E, st, b), b)
        q = E.views[k][0]
        if q.obj not in st.mem:
            n = T.blen(b)
            st.mem[q.obj] = OC({}, ((0, E.objs[q.obj].size, z3.Store(T.arrof(b), n, z3.BitVecVal(0, 8))),))
        return q

    def insert(E, st, a, call):
        if not (isc(a[1]) and a[1] == 0):
            raise Unsupported('insertion inside a string')
        E.gput(st, a[0], GStr(T.app(text(E, st, a[2]), text(E, st, a[0]))))
        return a[0]

    def plus(E, st, a, call):
        E.gput(st, a[0], GStr(T.app(text(E, st, a[1]), text(E, st, a[2]))))

    def appc(E, st, a, call):
        if not (isc(a[1]) and a[1] <= 4):
            raise Unsupported('appending many characters')
        b = text(E, st, a[0])
        for _ in range(a[1]):
            b = T.snoc(b, bv(a[2], 8))
        E.gput(st, a[0], GStr(b))
        return a[0]
    E.views = {}
    pattern(E, STR + r'::find\(char, unsigned long\) const', find)
    pattern(E, STR + r'::substr\(unsigned long, unsigned long\) const', substr)
    pattern(E, STR + r'::operator\[\]\(unsigned long\)( const)?', index)
    pattern(E, STR + r'::insert\(unsigned long, %s const&\)' % STR, insert)
    pattern(E, STR + r' std::operator\+<.*>\(' + STR + r' ?(const&|&&), ' + STR + r' ?(const&|&&)\)', plus)
    pattern(E, STR + r'::begin\(\) const', begin)
    pattern(E, STR + r'::end\(\) const', end)
    pattern(E, STR + r'::append\(unsigned long, char\)', appc)
    pattern(E, r'bool std::operator==<char, .*>\(%s const&, char const\*\)' % STR, eqc)


FIND = z3.Function('find_char', T.Bytes, T.BV8, T.BV64, T.BV64)


# numbers: as unsigned, as long double, order and remainder
LDS = FP['x86_fp80']
UNSIG = z3.Function('as_unsigned', Val, T.BV64)
SIGN = z3.Function('as_signed', Val, T.BV64)
FLT = z3.Function('as_long_double', Val, LDS)
CMP = z3.Function('comparison', Val, Val, z3.BitVecSort(32))
REM = z3.Function('remainder', Val, Val, Val)
STRV = z3.Function('text_value', T.Bytes, Val)
INTV = z3.Function('signed_value', T.BV64, Val)
UINTV = z3.Function('unsigned_value', T.BV64, Val)
FLTV = z3.Function('float_value', LDS, Val)
FMODL = z3.Function('fmodl', LDS, LDS, LDS)
WREM = z3.Function('whole_remainder', z3.BitVecSort(66), z3.BitVecSort(66), z3.BitVecSort(66))
EMPTYLIST = z3.Const('empty_list', Val)


def number(v):
    return z3.And(z3.UGE(TYP(v), INTT), z3.ULE(TYP(v), FLOATT))


def comparable(x, y):
    return z3.Or(TYP(x) == TYP(y), z3.And(number(x), number(y)))


def whole(v):
    """the number of an integer value, in 66 bits"""
    return z3.If(TYP(v) == INTT, z3.SignExt(2, SIGN(v)), z3.ZeroExt(2, UNSIG(v)))


def order(st, x, y):
    """what is known of the order of two values (P09, P10)"""
    ints = z3.And(*[z3.Or(TYP(v) == INTT, TYP(v) == UINTT) for v in (x, y)])
    st.assume(z3.Implies(comparable(x, y), z3.And((CMP(x, y) < 0) == (CMP(y, x) > 0), (CMP(x, y) > 0) == (CMP(y, x) < 0))), EQV(x, y) == z3.And(comparable(x, y), CMP(x, y) == 0), EQV(x, y) == EQV(y, x),
              z3.Implies(ints, z3.And((CMP(x, y) < 0) == (whole(x) < whole(y)), (CMP(x, y) == 0) == (whole(x) == whole(y)), (CMP(x, y) > 0) == (whole(x) > whole(y)))),
              z3.Implies(z3.And(TYP(x) == STRT, TYP(y) == STRT), EQV(x, y) == (TEXT(x) == TEXT(y))))


def lists(E):
    """reading lists through iterators, comparison and numbers; values that are not changed"""
    from .models_cxx import cstring
    V = VAR + '::'
    S = STR + ' const&'
    E.listviews = {}
    E.lengths = {}

    def view(E, st, v):
        k = v.get_id()
        if k not in E.listviews:
            E.listviews[k] = (E.new_obj(st, 'elements', size=None, data=ListVal(v)), v)
        p = E.listviews[k][0]
        if p.obj not in st.mem:
            st.mem[p.obj] = OC({})
        return p

    def aslist(E, st, a, call):
        e, v = look(E, st, a[0])
        return need(E, st, z3.And(e, TYP(v) == LISTT), lambda s: view(E, s, v))

    def length(E, v):
        return E.lengths[v.get_id()][0] if v.get_id() in E.lengths else simp2(LEN(v))

    def vec(E, st, p):
        d = E.objs[p.obj].data
        return d.v if isinstance(d, ListVal) else E.gget(st, p, GVec).v

    def vnew(E, st, a, call):
        st.assume(TYP(EMPTYLIST) == LISTT, LEN(EMPTYLIST) == 0)
        E.gput(st, a[0], GVec(EMPTYLIST if len(a) < 2 or 'allocator<libvariant::Variant> const&' in call.dem.split('(')[-1] else vec(E, st, a[1])))

    def own(E, p):
        if isinstance(E.objs[p.obj].data, ListVal):
            raise Unsupported('a list changed through a reference to its elements')

    def vassign(E, st, a, call):
        own(E, a[0])
        E.gput(st, a[0], GVec(vec(E, st, a[1])))
        return a[0]

    def vpush(E, st, a, call):
        own(E, a[0])
        v = vec(E, st, a[0])
        xe, x = look(E, st, a[1])

        def f(s):
            w = INSI(v, LEN(v), x)
            facts(s, w)
            s.assume(LEN(w) == LEN(v) + 1, GETI(w, LEN(v)) == x)
            if v.eq(EMPTYLIST):
                s.assume(GETI(w, bv(0)) == x)
                E.lengths[w.get_id()] = (1, w)
            E.gput(s, a[0], GVec(w))
        return need(E, st, xe, f)

    def vsize(E, st, a, call):
        return length(E, vec(E, st, a[0]))

    def vempty(E, st, a, call):
        return bo(LEN(vec(E, st, a[0])) == 0)

    def vbegin(E, st, a, call):
        return Ptr(view(E, st, vec(E, st, a[0])).obj, 0)

    def vend(E, st, a, call):
        v = vec(E, st, a[0])
        n = length(E, v)
        return Ptr(view(E, st, v).obj, n << 6 if isc(n) else simp2(LEN(v) << 6))

    def vat(E, st, a, call):
        v = vec(E, st, a[0])
        i = bv(a[1]) if len(a) > 1 else bv(0)
        E.oblige(st, z3.ULT(i, LEN(v)), 'memory', 'element beyond the end of a vector')
        return Ptr(view(E, st, v).obj, simp2(i << 6))

    def at_key(E, st, a, call):
        g = gv(E, st, a[1])
        loc = g.x if g.kind == 'ref' else ('const', g.x)
        e, v = read(st, loc)
        k = text(E, st, a[2])

        def f(s):
            facts(s, getk(v, k))
            E.gput(s, a[0], GV('ref', ('key', loc, k)))
        return need(E, st, z3.And(e, TYP(v) == MAPT), f)

    def at_idx(E, st, a, call):
        g = gv(E, st, a[1])
        loc = g.x if g.kind == 'ref' else ('const', g.x)
        e, v = read(st, loc)
        i = simp2(z(a[2]))

        def f(s):
            element(E, s, v, i)
            E.gput(s, a[0], GV('ref', ('idx', loc, i)))
        return need(E, st, z3.And(e, TYP(v) == LISTT), f)

    def get_def(E, st, a, call):
        e, v = look(E, st, a[1])
        k = text(E, st, a[2])
        xe, x = look(E, st, a[3])

        def f(s):
            yes, no = split(E, s, has(v, k))
            o = []
            for q, t in ((yes, getk(v, k)), (no, x)):
                if q is not None:
                    put_val(E, q, a[0], t)
                    o.append(Out(q, None))
            return o
        return need(E, st, z3.And(e, TYP(v) == MAPT, xe), f)

    def from_ref(E, st, a, call):
        e, v = look(E, st, a[1])
        return need(E, st, e, lambda s: put_val(E, s, a[0], v))

    def literal(f, ty, sort=None):
        def g(E, st, a, call):
            x = f(E, st, a[1])
            st.assume(TYP(x) == ty)
            put_val(E, st, a[0], x)
            return a[0]
        return g

    def lit_text(E, st, p):
        t = cstring(E, st, p)
        x = STRV(t)
        st.assume(TEXT(x) == t)
        return x

    def lit_int(E, st, v):
        n = bv(v, 32)
        x = INTV(simp2(z3.SignExt(32, n)))
        st.assume(SIGN(x) == z3.SignExt(32, n))
        return x

    def lit_uint(E, st, v):
        x = UINTV(bv(v))
        st.assume(UNSIG(x) == bv(v))
        return x

    def lit_float(E, st, v):
        x = FLTV(v)
        st.assume(FLT(x) == v)
        return x

    def two(E, st, a):
        xe, x = look(E, st, a[0])
        ye, y = look(E, st, a[1])
        order(st, x, y)
        return z3.And(xe, ye), x, y

    def compare(E, st, a, call):
        e, x, y = two(E, st, a)
        return need(E, st, e, lambda s: simp(CMP(x, y)))

    def equal(neg):
        def f(E, st, a, call):
            e, x, y = two(E, st, a)
            return need(E, st, e, lambda s: bo(z3.Not(EQV(x, y)) if neg else EQV(x, y)))
        return f

    def comp(E, st, a, call):
        e, x, y = two(E, st, a)
        return need(E, st, e, lambda s: bo(comparable(x, y)))

    def rem(E, st, a, call):
        e, x, y = two(E, st, a)
        r = REM(x, y)
        fl = z3.Or(TYP(x) == FLOATT, TYP(y) == FLOATT)

        def f(s):
            s.assume(number(r), z3.Implies(fl, z3.And(TYP(r) == FLOATT, FLT(r) == FMODL(FLT(x), FLT(y)))),
                     z3.Implies(z3.And(z3.Not(fl), whole(x) >= 0, whole(y) > 0), z3.And(TYP(r) != FLOATT, whole(r) == WREM(whole(x), whole(y)))))
            facts(s, r)
            g = gv(E, s, a[0])
            if g.kind != 'val':
                raise Unsupported('remainder through a reference')
            E.gput(s, a[0], GV('val', r))
        return need(E, st, z3.And(e, number(x), number(y)), f)

    def num(fn):
        def f(E, st, a, call):
            e, v = look(E, st, a[0])
            return need(E, st, z3.And(e, number(v)), lambda s: simp(fn(v)) if fn is not FLT else FLT(v))
        return f
    AB = r'(\[abi:cxx11\])?'
    T1 = r'\(' + VAR + ' const&, ' + VAR + r' const&\)'
    for rx, fn in ((V + r'AsList\(\)( const)?', aslist), (VEC + r'::vector\(.*\)', vnew), (VEC + r'::~vector\(\)', lambda E, st, a, call: None), (VEC + r'::operator=\(.*\)', vassign),
                   (VEC + r'::push_back\(.*\)', vpush), (VEC + r'::size\(\) const', vsize), (VEC + r'::empty\(\) const', vempty), (VEC + r'::c?begin\(\)( const)?', vbegin), (VEC + r'::c?end\(\)( const)?', vend),
                   (VEC + r'::(front\(\)|operator\[\]\(unsigned long\))( const)?', vat), (V + r'At\(' + S + r'\)', at_key), (V + r'At\(unsigned int\)', at_idx),
                   (V + r'Get\(' + S + ', ' + VAR + r'\) const', get_def), (V + r'Variant\(' + REF + r' const&\)', from_ref),
                   (V + r'(Variant|operator=|Assign)\(char const\*\)', literal(lit_text, STRT)), (V + r'(Variant|operator=|Assign)\(int\)', literal(lit_int, INTT)),
                   (V + r'(Variant|operator=|Assign)\(unsigned long\)', literal(lit_uint, UINTT)), (V + r'(Variant|operator=|Assign)\(long double\)', literal(lit_float, FLOATT)),
                   (V + r'Compare\(' + VAR + r' const&\) const', compare), (NS + 'operator==' + T1, equal(False)), (NS + 'operator!=' + T1, equal(True)), (V + r'Comparable\(' + VAR + r' const&\) const', comp),
                   (V + r'Rem\(' + VAR + r' const&\)', rem), (V + r'AsUnsigned\(\) const', num(UNSIG)), (V + r'AsInt\(\) const', num(SIGN)), (V + r'AsLongDouble\(\) const', num(FLT))):
        pattern(E, rx, fn)
    # the iterators that could change the entries, too
    for n in ('MapBegin', 'MapEnd'):
        f = next(fn for rx, fn in E.patterns if rx.match(V + n + '() const'))
        pattern(E, V + n + AB + r'\(\)', f)
