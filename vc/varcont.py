"""Lists and maps of dynamic values (std::vector and std::map of values, trusted models of the standard library).

A value in a container is a term of the sort Val; what an operation makes of it is recorded by operations on Val: assigning shares (the
same Val), copying gives copyof(Val).  A list is (length, array index -> Val), a map is (set of keys, array key -> Val).
"""
import re
import z3
from . import theory as T
from .theory import bv
from .engine import *
from .lib import *
from .models_cxx import GStr
from .variants import *
from . import variants as V

Val = z3.DeclareSort('Val')
copyof = z3.Function('copyof', Val, Val)
nullval = z3.Const('null_value', Val)
VEC = r'std::vector<%s, std::allocator<%s>>' % (VAR, VAR)
PAIRC = r'std::pair<%s const, %s>' % (SSTR, VAR)
MAP = r'std::map<%s, %s, std::less<%s>, std::allocator<%s>>' % (SSTR, VAR, SSTR, PAIRC)


class Elements:
    """handler of the memory behind a list of values: an element is used through its operations only"""

    def load(self, E, st, p, size, ty):
        n = st.ghost[('n', p.obj)]
        E.oblige(st, z3.And(z3.ULT(z3.LShR(bv(p.off), 6), bv(n)), z3.ULT(bv(n), 1 << 40)), 'memory', 'access beyond the elements of a list')
        first = z3.Extract(5, 0, bv(p.off)) == 0
        if ty == 'ptr' and E.feasible(st, first):
            E.oblige(st, first, 'memory', 'access inside an element of a list')
            return E.abs_vt
        raise Unsupported('field of a value in a list')

    def store(self, E, st, p, size, v, ty):
        raise Unsupported('store to a value in a list')


ELEMENTS = Elements()


class Entry:
    """handler of a map entry"""

    def load(self, E, st, p, size, ty):
        if ty == 'ptr' and isc(p.off) and p.off == 64:
            return E.abs_vt
        raise Unsupported('field of a map entry')

    def store(self, E, st, p, size, v, ty):
        raise Unsupported('store to a map entry')


ENTRY = Entry()


class GVec:
    SIZE = 24

    def __init__(self, p):
        self.p = p

    def gsame(self, o):
        return isinstance(o, GVec) and self.p == o.p


class GMap:
    SIZE = 48

    def __init__(self, p):
        self.p = p

    def gsame(self, o):
        return isinstance(o, GMap) and self.p == o.p


def new_elements(E, st, n, vals):
    p = E.new_obj(st, 'elements', size=None, handler=ELEMENTS, data='elements')
    st.ghost[('n', p.obj)] = simp2(bv(n))
    st.ghost[('vals', p.obj)] = vals
    return p


def new_map(E, st, present, vals, n, tag):
    p = E.new_obj(st, 'map ' + tag, size=None, data='map')
    st.ghost[('keys', p.obj)] = present
    st.ghost[('vals', p.obj)] = vals
    st.ghost[('n', p.obj)] = n
    return p


def vec_n(E, st, v):
    return st.ghost[('n', E.gget(st, v, GVec).p.obj)]


def vec_vals(E, st, v):
    return st.ghost[('vals', E.gget(st, v, GVec).p.obj)]


def val_of(E, st, p):
    """the Val at a value's address"""
    d = E.objs[p.obj].data
    if d == 'elements':
        return z3.Select(st.ghost[('vals', p.obj)], simp2(z3.LShR(bv(p.off), 6)))
    if isinstance(d, tuple) and d[0] == 'entry':
        return z3.Select(st.ghost[('vals', d[1])], d[2])
    c = st.mem[p.obj].cells.get(p.off + 8)
    vt = st.mem[p.obj].cells.get(p.off)
    if c is not None and isinstance(c[1], z3.ExprRef) and c[1].sort() == Val and vt is not None and vt[1] == E.abs_vt:
        return c[1]
    if vt is not None and vt[1] == E.null_vt:
        return nullval
    raise Unsupported('content of %s' % E.objs[p.obj].name)


def set_val(E, st, p, v):
    d = E.objs[p.obj].data
    if d == 'elements':
        E.check_access(st, p, 8, 'write')
        i = simp2(z3.LShR(bv(p.off), 6))
        E.oblige(st, z3.And(z3.ULT(i, bv(st.ghost[('n', p.obj)])), z3.Extract(5, 0, bv(p.off)) == 0), 'memory', 'assignment beyond the elements of a list')
        st.ghost[('vals', p.obj)] = z3.Store(st.ghost[('vals', p.obj)], i, v)
        return
    if isinstance(d, tuple) and d[0] == 'entry':
        st.ghost[('vals', d[1])] = z3.Store(st.ghost[('vals', d[1])], d[2], v)
        return
    E.put(st, p, 8, E.abs_vt)
    E.put(st, E.padd(p, 8), 8, v)


ACTS = {
    'Assign': lambda E, st, a, res: set_val(E, st, a[2], val_of(E, st, a[1])),
    'Copy': lambda E, st, a, res: set_val(E, st, a[2], copyof(val_of(E, st, a[1]))),
}


def abs_val(E, st, name):
    """an abstract value with a content of its own"""
    p = abstract(E, st, name)
    E.put(st, E.padd(p, 8), 8, z3.Const('value_' + name.replace(' ', '_'), Val))
    return p


def list_models(E):
    D = VEC + '::'

    def put(E, st, v, n, vals):
        E.gput(st, v, GVec(new_elements(E, st, n, vals)))

    def drop(E, st, v):
        g = E.gget(st, v, GVec)
        oc = st.mem[g.p.obj].copy()
        oc.freed = True
        st.mem[g.p.obj] = oc

    def empty_ctor(E, st, a, call):
        put(E, st, a[0], bv(0), z3.K(T.BV64, nullval))

    def copy_ctor(E, st, a, call):
        put(E, st, a[0], vec_n(E, st, a[1]), vec_vals(E, st, a[1]))

    def dtor(E, st, a, call):
        drop(E, st, a[0])

    def assign(E, st, a, call):
        if a[0] == a[1]:
            return a[0]
        n, vals = vec_n(E, st, a[1]), vec_vals(E, st, a[1])
        drop(E, st, a[0])
        put(E, st, a[0], n, vals)
        return a[0]

    def size(E, st, a, call):
        n = simp2(bv(vec_n(E, st, a[0])))
        return n.as_long() if z3.is_bv_value(n) else n

    def empty(E, st, a, call):
        return simp(bv(vec_n(E, st, a[0])) == 0)

    def elem(E, st, v, i):
        off = simp2(bv(i) << 6)
        return Ptr(E.gget(st, v, GVec).p.obj, off.as_long() if z3.is_bv_value(off) else off)

    def at(E, st, a, call):
        n = vec_n(E, st, a[0])
        s2 = st.copy()
        c = z3.ULT(bv(a[1]), bv(n))
        st.assume(c)
        s2.assume(z3.Not(c))
        o = []
        if E.feasible(st):
            o.append(Out(st, elem(E, st, a[0], a[1])))
        if E.feasible(s2):
            o.append(Out(s2, None, Exc('_ZTISt12out_of_range')))
        return o

    def index(E, st, a, call):
        E.oblige(st, z3.ULT(bv(a[1]), bv(vec_n(E, st, a[0]))), 'memory', 'list element out of range')
        return elem(E, st, a[0], a[1])

    def begin(E, st, a, call):
        return elem(E, st, a[0], bv(0))

    def end(E, st, a, call):
        return elem(E, st, a[0], vec_n(E, st, a[0]))

    def back(E, st, a, call):
        E.oblige(st, bv(vec_n(E, st, a[0])) != 0, 'memory', 'back() of an empty list')
        return elem(E, st, a[0], bv(vec_n(E, st, a[0])) - 1)

    def resize(E, st, a, call):
        n, vals = bv(vec_n(E, st, a[0])), vec_vals(E, st, a[0])
        m = bv(a[1])
        i = z3.FreshConst(T.BV64, 'i')
        grow = st.copy()
        grow.assume(z3.UGT(m, n))
        st.assume(z3.ULE(m, n))
        o = []
        if E.feasible(grow):
            drop(E, grow, a[0])
            nv = z3.Lambda([i], z3.If(z3.ULT(i, n), z3.Select(vals, i), nullval))
            # growing may move the elements
            put(E, grow, a[0], m, nv)
            o.append(Out(grow))
        if E.feasible(st):
            st.ghost[('n', E.gget(st, a[0], GVec).p.obj)] = simp2(m)
            o.append(Out(st))
        return o

    def push_back(E, st, a, call):
        g = E.gget(st, a[0], GVec)
        v = val_of(E, st, a[1])
        n = bv(st.ghost[('n', g.p.obj)])
        st.ghost[('vals', g.p.obj)] = z3.Store(st.ghost[('vals', g.p.obj)], n, v)
        st.ghost[('n', g.p.obj)] = simp2(n + 1)
        if call.inst['t'] == 'ptr':
            return elem(E, st, a[0], n)

    def pop_back(E, st, a, call):
        g = E.gget(st, a[0], GVec)
        n = bv(st.ghost[('n', g.p.obj)])
        E.oblige(st, n != 0, 'memory', 'pop_back() of an empty list')
        st.ghost[('n', g.p.obj)] = simp2(n - 1)

    def clear(E, st, a, call):
        st.ghost[('n', E.gget(st, a[0], GVec).p.obj)] = bv(0)

    def differ(neg):
        def f(E, st, a, call):
            r = E.vecne(vec_n(E, st, a[0]), vec_vals(E, st, a[0]), vec_n(E, st, a[1]), vec_vals(E, st, a[1]))
            return r if neg else z3.Not(r)
        return f

    def find(E, st, a, call):
        # std::find: position of the first equal element, or the end
        b, e, v = a
        n = st.ghost[('n', b.obj)]
        E.oblige(st, z3.And(b.obj == e.obj, bv(b.off) == 0, bv(e.off) == bv(n) << 6), 'memory', 'std::find over the whole list')
        k = E.firstpos(st.ghost[('vals', b.obj)], bv(n), val_of(E, st, v))
        st.assume(z3.ULE(k, bv(n)))
        return Ptr(b.obj, simp2(k << 6))
    A = z3.ArraySort(T.BV64, Val)
    E.vecne = z3.Function('lists_differ', T.BV64, A, T.BV64, A, z3.BoolSort())
    E.firstpos = z3.Function('first_position', A, T.BV64, Val, T.BV64)
    E.elem = elem
    pattern(E, D + r'vector\(\)', empty_ctor)
    pattern(E, D + r'vector\(' + VEC + r' (const&|&&)\)', copy_ctor)
    pattern(E, D + r'~vector\(\)', dtor)
    pattern(E, D + r'operator=\(' + VEC + r' const&\)', assign)
    pattern(E, D + r'size\(\) const', size)
    pattern(E, D + r'empty\(\) const', empty)
    pattern(E, D + r'at\(unsigned long\)( const)?', at)
    pattern(E, D + r'operator\[\]\(unsigned long\)( const)?', index)
    pattern(E, D + r'c?begin\(\)( const)?', begin)
    pattern(E, D + r'c?end\(\)( const)?', end)
    pattern(E, D + r'back\(\)( const)?', back)
    pattern(E, D + r'resize\(unsigned long\)', resize)
    pattern(E, D + r'push_back\(%s( const&|&&)\)' % VAR, push_back)
    pattern(E, r'(.* )?' + D + r'emplace_back<.*>\(%s( const)?(&|&&)\)' % VAR, push_back)
    pattern(E, D + r'pop_back\(\)', pop_back)
    pattern(E, D + r'clear\(\)', clear)
    pattern(E, D + r'reserve\(unsigned long\)', lambda E, st, a, call: None)
    pattern(E, r'bool std::operator!=<%s, .*>\(%s const&, %s const&\)' % (VAR, VEC, VEC), differ(True))
    pattern(E, r'bool std::operator==<%s, .*>\(%s const&, %s const&\)' % (VAR, VEC, VEC), differ(False))
    pattern(E, r'__gnu_cxx::__normal_iterator<.*> std::find<__gnu_cxx::__normal_iterator<%s.*' % VAR, find)


def entry(E, st, m, key):
    """node of a map for a key (present)"""
    p = E.new_obj(st, 'map entry', size=128, handler=ENTRY, data=('entry', m.obj, key))
    st.mem[p.obj] = OC({32: (32, GStr(key))})
    return p


def map_models(E):
    D = MAP + '::'

    def store(E, st, m):
        return E.gget(st, m, GMap).p

    def empty_ctor(E, st, a, call):
        E.gput(st, a[0], GMap(new_map(E, st, z3.K(T.Bytes, z3.BoolVal(False)), z3.K(T.Bytes, nullval), bv(0), 'empty')))

    def copy_ctor(E, st, a, call):
        p = store(E, st, a[1])
        E.gput(st, a[0], GMap(new_map(E, st, st.ghost[('keys', p.obj)], st.ghost[('vals', p.obj)], st.ghost[('n', p.obj)], 'copy')))

    def size(E, st, a, call):
        n = simp2(bv(st.ghost[('n', store(E, st, a[0]).obj)]))
        return n.as_long() if z3.is_bv_value(n) else n

    def empty(E, st, a, call):
        return simp(bv(st.ghost[('n', store(E, st, a[0]).obj)]) == 0)

    def clear(E, st, a, call):
        p = store(E, st, a[0])
        st.ghost[('keys', p.obj)] = z3.K(T.Bytes, z3.BoolVal(False))
        st.ghost[('n', p.obj)] = bv(0)

    def end(E, st, a, call):
        p = store(E, st, a[0])
        return Ptr(p.obj, simp2((bv(st.ghost[('n', p.obj)]) << 7) + 128))

    def begin(E, st, a, call):
        return Ptr(store(E, st, a[0]).obj, 128)

    def fork(E, st, p, key):
        c = simp(z3.Select(st.ghost[('keys', p.obj)], key))
        if isinstance(c, bool):
            return (st, None) if c else (None, st)
        s2 = st.copy()
        st.assume(c)
        s2.assume(z3.Not(c))
        return (st if E.feasible(st) else None), (s2 if E.feasible(s2) else None)

    def find(E, st, a, call):
        p = store(E, st, a[0])
        key = E.gget(st, a[1], GStr).b
        yes, no = fork(E, st, p, key)
        o = []
        if yes is not None:
            o.append(Out(yes, entry(E, yes, p, key)))
        if no is not None:
            o.append(Out(no, Ptr(p.obj, simp2((bv(no.ghost[('n', p.obj)]) << 7) + 128))))
        return o

    def count(E, st, a, call):
        p = store(E, st, a[0])
        return z3.If(z3.Select(st.ghost[('keys', p.obj)], E.gget(st, a[1], GStr).b), bv(1), bv(0))

    def add(E, st, p, key, v):
        st.ghost[('keys', p.obj)] = z3.Store(st.ghost[('keys', p.obj)], key, z3.BoolVal(True))
        st.ghost[('vals', p.obj)] = z3.Store(st.ghost[('vals', p.obj)], key, v)
        st.ghost[('n', p.obj)] = simp2(bv(st.ghost[('n', p.obj)]) + 1)

    def insert(E, st, a, call):
        p = store(E, st, a[0])
        key = E.gget(st, a[1], GStr).b
        v = val_of(E, st, E.padd(a[1], 32))
        yes, no = fork(E, st, p, key)
        o = []
        if yes is not None:
            o.append(Out(yes, [entry(E, yes, p, key), 0]))
        if no is not None:
            add(E, no, p, key, v)
            o.append(Out(no, [entry(E, no, p, key), 1]))
        return o

    def subscript(E, st, a, call):
        p = store(E, st, a[0])
        key = E.gget(st, a[1], GStr).b
        yes, no = fork(E, st, p, key)
        o = []
        if yes is not None:
            o.append(Out(yes, E.padd(entry(E, yes, p, key), 64)))
        if no is not None:
            add(E, no, p, key, nullval)
            o.append(Out(no, E.padd(entry(E, no, p, key), 64)))
        return o

    def erase(E, st, a, call):
        p = store(E, st, a[0])
        key = E.gget(st, a[1], GStr).b
        yes, no = fork(E, st, p, key)
        o = []
        if yes is not None:
            yes.ghost[('keys', p.obj)] = z3.Store(yes.ghost[('keys', p.obj)], key, z3.BoolVal(False))
            yes.ghost[('n', p.obj)] = simp2(bv(yes.ghost[('n', p.obj)]) - 1)
            o.append(Out(yes, 1))
        if no is not None:
            o.append(Out(no, 0))
        return o

    def differ(neg):
        def f(E, st, a, call):
            x, y = store(E, st, a[0]).obj, store(E, st, a[1]).obj
            r = E.mapne(st.ghost[('keys', x)], st.ghost[('vals', x)], st.ghost[('keys', y)], st.ghost[('vals', y)])
            return r if neg else z3.Not(r)
        return f

    def arrow(E, st, a, call):
        c = E.load(st, a[0], 8, 'ptr')
        d = E.objs[c.obj].data
        if isinstance(d, tuple) and d[0] == 'entry':
            return E.padd(c, 32)
        if d != 'map':
            raise Unsupported('iterator of an unknown map')
        n = bv(st.ghost[('n', c.obj)])
        k = simp2(z3.LShR(bv(c.off), 7) - 1)
        E.oblige(st, z3.ULT(k, n), 'memory', 'map iterator at the end is dereferenced')
        if not (st.ghost[('keys', c.obj)].eq(E.iterated[0])):
            raise Unsupported('iteration over a changed map')
        key = E.keyat(k)
        st.assume(z3.Select(st.ghost[('keys', c.obj)], key), E.rank(key) == k)
        return E.padd(entry(E, st, Ptr(c.obj, 0), key), 32)

    def incr(E, st, a, call):
        c = E.load(st, a[0], 8, 'ptr')
        if E.objs[c.obj].data != 'map':
            raise Unsupported('advancing an iterator found by key')
        E.put(st, a[0], 8, Ptr(c.obj, simp2(bv(c.off) + 128)))
        return a[0]

    def rbeq(neg):
        def f(E, st, a, call):
            x, y = E.load(st, a[0], 8, 'ptr'), E.load(st, a[1], 8, 'ptr')
            if x.obj != y.obj:
                r = False
            else:
                r = simp(bv(x.off) == bv(y.off))
            return (not r if isinstance(r, bool) else z3.Not(r)) if neg else r
        return f
    K = z3.ArraySort(T.Bytes, z3.BoolSort())
    A = z3.ArraySort(T.Bytes, Val)
    E.mapne = z3.Function('maps_differ', K, A, K, A, z3.BoolSort())
    E.keyat = z3.Function('key_at', T.BV64, T.Bytes)
    E.rank = z3.Function('rank', T.Bytes, T.BV64)
    IT = r'std::_Rb_tree(_const)?_iterator<%s>' % PAIRC
    pattern(E, D + r'map\(\)', empty_ctor)
    pattern(E, D + r'map\(' + MAP + r' (const&|&&)\)', copy_ctor)
    pattern(E, D + r'~map\(\)', lambda E, st, a, call: None)
    pattern(E, D + r'size\(\) const', size)
    pattern(E, D + r'empty\(\) const', empty)
    pattern(E, D + r'clear\(\)', clear)
    pattern(E, D + r'c?begin\(\)( const)?', begin)
    pattern(E, D + r'c?end\(\)( const)?', end)
    pattern(E, D + r'find\(%s const&\)( const)?' % SSTR, find)
    pattern(E, D + r'count\(%s const&\) const' % SSTR, count)
    pattern(E, D + r'erase\(%s const&\)' % SSTR, erase)
    pattern(E, D + r'operator\[\]\(%s( const&|&&)\)' % SSTR, subscript)
    pattern(E, r'(.* )?' + D + r'insert(<.*>)?\(std::pair<.*>( const&|&&)\)', insert)
    pattern(E, r'bool std::operator!=<%s, %s, .*>\(std::map<.*' % (SSTR, VAR), differ(True))
    pattern(E, r'bool std::operator==<%s, %s, .*>\(std::map<.*' % (SSTR, VAR), differ(False))
    pattern(E, IT + r'::operator(->|\*)\(\) const', arrow)
    pattern(E, IT + r'::operator\+\+\(\)', incr)
    pattern(E, r'std::operator!=\(' + IT + r' const&, ' + IT + r' const&\)', rbeq(True))
    pattern(E, r'std::operator==\(' + IT + r' const&, ' + IT + r' const&\)', rbeq(False))


# ------------------------------------------------------------------ values that are lists and maps
LISTINIT = INT + 'ListInit(%sData*, %s const&)' % (INT, VEC)
MAPINIT = INT + 'MapInit(%sData*, %s const&)' % (INT, MAP)


def base(E):
    V.setup(E)
    V.path_models(E)
    list_models(E)
    map_models(E)
    st = State()
    st.ghost['ev'] = ()
    E.abs_vt = abs_vtable(E, st, ACTS)
    st, p, _ = scalar(E, st, 'Null', 'null')
    E.null_vt = E.load(st, p, 8, 'ptr')
    return st


def sym_vec(E, st, tag):
    n = z3.BitVec('length_' + tag, 64)
    st.assume(z3.ULT(n, 1 << 32))
    v = E.new_obj(st, 'list ' + tag, size=24)
    E.gput(st, v, GVec(new_elements(E, st, n, z3.Const('elements_' + tag, z3.ArraySort(T.BV64, Val)))))
    return v


def make_list(E, st, tag='that'):
    """(state, value, n, vals): a list of arbitrary values made by the real initialiser"""
    v = sym_vec(E, st, tag)
    n, vals = vec_n(E, st, v), vec_vals(E, st, v)
    p = blank(E, st, 'list value ' + tag)
    st, _ = one(E, LISTINIT, st, [p, v], 'ListInit')
    return st, p, n, vals


def list_of(E, st, p):
    """(n, vals) of a list value"""
    l = E.load(st, E.padd(p, 16), 8, 'ptr')
    f = Fields(E, INT + 'ListStorage', l)
    return bv(vec_n(E, st, f.ptr('list'))), vec_vals(E, st, f.ptr('list'))


def list_store(E, st, p):
    l = E.load(st, E.padd(p, 16), 8, 'ptr')
    return E.gget(st, Fields(E, INT + 'ListStorage', l).ptr('list'), GVec).p


def make_map(E, st, tag='that'):
    keys = z3.Const('keys_' + tag, z3.ArraySort(T.Bytes, z3.BoolSort()))
    vals = z3.Const('values_' + tag, z3.ArraySort(T.Bytes, Val))
    n = z3.BitVec('size_' + tag, 64)
    st.assume(z3.ULT(n, 1 << 32))
    m = E.new_obj(st, 'map ' + tag, size=48)
    E.gput(st, m, GMap(new_map(E, st, keys, vals, n, tag)))
    p = blank(E, st, 'map value ' + tag)
    st, _ = one(E, MAPINIT, st, [p, m], 'MapInit')
    E.iterated = (keys,)
    return st, p, n, keys, vals


def map_store(E, st, p):
    l = E.load(st, E.padd(p, 16), 8, 'ptr')
    return E.gget(st, Fields(E, INT + 'MapStorage', l).ptr('map'), GMap).p


def map_of(E, st, p):
    o = map_store(E, st, p).obj
    return st.ghost[('keys', o)], st.ghost[('vals', o)], bv(st.ghost[('n', o)])
