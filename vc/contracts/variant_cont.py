"""Contracts for lists and maps of dynamic values (src/Variant.cc)."""
import z3
from ..engine import *
from ..lib import *
from ..theory import bv
from ..variants import *
from ..varcont import *
from .. import variants as V
from .. import varcont as C
from .. import theory as T

TU = ['src/Variant.cc']
PID = 'P12'


def slot(E, st, p, name):
    vt = E.load(st, p, 8, 'ptr')
    ks = {n: k for k, n in V.slots(E).items()}
    return vt, E.P.fns[slot_fn(E, st, vt, ks[name])]


def run(E, st, p, name, *args, sret=None):
    vt, F = slot(E, st, p, name)
    a = []
    if 'sret' in F.args[0]:
        a.append(sret)
    return E.run_function(F, st, a + [vt, p] + list(args))


def abs_exc(kind, r):
    return kind == 'exc' and r.ti == ABS_EXC


def isret(kind):
    return kind == 'ret'


def same_list(E, s, p, n, vals, what, J=None):
    """the list at p is (n, vals) in s"""
    m, w = list_of(E, s, p)
    J = z3.BitVec('J', 64) if J is None else J
    E.oblige(s, m == n, PID, what + ': length')
    E.oblige(s, z3.Implies(z3.ULT(J, n), z3.Select(w, J) == (vals(J) if callable(vals) else z3.Select(vals, J))), PID, what + ': elements')


def z(i):
    return z3.ZeroExt(32, i)


def verify_list_read(E):
    st = C.base(E)
    st, p, n, vals = make_list(E, st)
    st0 = st.copy()
    i = z3.BitVec('i', 32)
    E.cover(st, 'precondition')
    store = list_store(E, st, p)
    for kind, s, r in run(E, st.copy(), p, 'Size'):
        E.oblige(s, z3.And(isret(kind), z(bv(r, 32)) == n), PID, 'Size of a list: number of elements')
        same_list(E, s, p, n, vals, 'Size of a list')
    for kind, s, r in run(E, st.copy(), p, 'Empty'):
        E.oblige(s, z3.And(isret(kind), tob(r) == (n == 0)), PID, 'Empty of a list: no elements')
    for kind, s, r in run(E, st.copy(), p, 'ContainsIndex', i):
        E.oblige(s, z3.And(isret(kind), tob(r) == z3.ULT(z(i), n)), PID, 'Contains of a list: index below the length')
    for name in ('GetIndex', 'GetConstIndex'):
        chk = z3.Bool('checked')
        for kind, s, r in run(E, st.copy(), p, name, i, chk):
            there = kind == 'ret' and isinstance(r, Ptr) and r.obj == store.obj
            none = kind == 'ret' and isinstance(r, Ptr) and r.obj == 0
            E.oblige(s, z3.If(z3.ULT(z(i), n), z3.And(there, bv(r.off) == z(i) << 6) if there else False,
                              z3.If(chk, kind == 'exc' and exc_name(r) == 'out_of_range', none)), PID, name + ' of a list: the element, or none')
            same_list(E, s, p, n, vals, name)
    for name in ('AsList', 'AsListConst'):
        for kind, s, r in run(E, st.copy(), p, name):
            E.oblige(s, kind == 'ret' and E.gget(s, r, GVec).p == store, PID, name + ': the list itself')
            same_list(E, s, p, n, vals, name)
    v = abs_val(E, st, 'wanted')
    E.norec = True
    for kind, s, r in run(E, st.copy(), p, 'Index', v):
        if abs_exc(kind, r):
            continue
        E.oblige(s, z3.And(isret(kind), z(bv(r, 32)) == E.firstpos(vals, n, z3.Const('value_wanted', Val))), PID, 'Index of a list: position of the first equal element')
        same_list(E, s, p, n, vals, 'Index of a list')


def verify_list_write(E):
    st = C.base(E)
    st, p, n, vals = make_list(E, st)
    i = z3.BitVec('i', 32)
    v = abs_val(E, st, 'given')
    gv = z3.Const('value_given', Val)
    E.cover(st, 'precondition')
    J = z3.BitVec('J', 64)
    grown = z3.If(z3.ULT(z(i), n), n, z(i) + 1)
    old = lambda j: z3.If(z3.ULT(j, n), z3.Select(vals, j), nullval)
    for kind, s, r in run(E, st.copy(), p, 'SetIndex', i, v):
        if abs_exc(kind, r):
            continue
        E.oblige(s, isret(kind), PID, 'Set in a list succeeds')
        same_list(E, s, p, grown, lambda j: z3.If(j == z(i), gv, old(j)), 'Set in a list')
    for kind, s, r in run(E, st.copy(), p, 'EraseIndex', i):
        if abs_exc(kind, r):
            # replacing an element may fail only as its own assignment fails
            continue
        E.oblige(s, isret(kind), PID, 'Erase in a list succeeds')
        last = z(i) + 1 == n
        m, w = list_of(E, s, p)
        E.oblige(s, m == z3.If(last, n - 1, n), PID, 'Erase in a list: only the last element shortens the list')
        E.oblige(s, z3.Implies(z3.And(z3.ULT(J, m), J != z(i)), z3.Select(w, J) == z3.Select(vals, J)), PID, 'Erase in a list: other elements stay')
        E.oblige(s, z3.Implies(z3.And(J == z(i), z3.ULT(J, m)), z3.Or(nulled(E, s, p, i), z3.Select(w, J) == nullval)), PID, 'Erase in a list: an inner element becomes null')
    for kind, s, r in run(E, st.copy(), p, 'Clear'):
        E.oblige(s, isret(kind), PID, 'Clear of a list succeeds')
        m, w = list_of(E, s, p)
        E.oblige(s, m == 0, PID, 'Clear of a list: no elements')
    # Append is AsList().push_back
    for kind, s, r in call(E, st.copy(), 'Append(%s)' % VAR, [p, v]):
        E.oblige(s, isret(kind) and r == p, PID, 'Append succeeds')
        same_list(E, s, p, n + 1, lambda j: z3.If(j == n, gv, z3.Select(vals, j)), 'Append')


def nulled(E, s, p, i):
    """element i was resolved and made null"""
    ev = [e for e in events(s) if e[0] == 'Resolve']
    if len(ev) != 1 or isinstance(ev[0][2], str):
        return z3.BoolVal(False)
    x, res = ev[0][1][1], ev[0][2]
    if x.obj != list_store(E, s, p).obj or E.load(s, res, 8, 'ptr') != E.null_vt:
        return z3.BoolVal(False)
    return bv(x.off) == z(i) << 6


def verify_list_ref(E):
    """At: a reference to the element; a default fills in; otherwise a proxy for the index"""
    st = C.base(E)
    st, p, n, vals = make_list(E, st)
    i = z3.BitVec('i', 32)
    store = list_store(E, st, p)

    def proxy_ctor(E, s, c, call):
        E.put(s, c[0], 8, E.abs_vt)
        record(s, ('NewProxy', (c[1], E.gget(s, c[2], GPath).seq), c[0]))
    E.summaries[NS + 'VariantRefImpl<%s>::VariantRefImpl(%s&, std::deque<%s, std::allocator<%s>> const&)' % (VAR, VAR, PE, PE)] = proxy_ctor
    old = lambda j: z3.If(z3.ULT(j, n), z3.Select(vals, j), nullval)
    for given in (True, False):
        s0 = st.copy()
        v = abs_val(E, s0, 'given') if given else NULL
        gv = z3.Const('value_given', Val)
        ret = blank(E, s0, 'returned reference')
        E.cover(s0, 'precondition')
        for kind, s, r in run(E, s0, p, 'GetRefIndex', i, v, sret=ret):
            if abs_exc(kind, r):
                continue
            there = z3.ULT(z(i), n)
            cur = list_store(E, s, p)
            ev = [e for e in events(s) if e[0] in ('MakeRef', 'NewProxy')]
            made = len(ev) == 1 and ev[0][0] == 'MakeRef' and ev[0][1][2] == ret and ev[0][1][1].obj == cur.obj
            ok = z3.And(made, bv(ev[0][1][1].off) == z(i) << 6) if made else z3.BoolVal(False)
            prox = len(ev) == 1 and ev[0][0] == 'NewProxy' and ev[0][2] == ret and ev[0][1][0] == p
            if prox:
                q = ev[0][1][1]
                prox = q.kind == 'app' and same(simp2(bv(q.base.n)), bv(0)) and len(q.tail) == 1 and same(E.load(s, q.tail[0], 4, 'i32'), 0) and same(E.load(s, E.padd(q.tail[0], 4), 4, 'i32'), i)
            E.oblige(s, isret(kind), PID, 'At of a list succeeds')
            E.oblige(s, ok if given else z3.If(there, ok, z3.BoolVal(bool(prox))), PID, 'At of a list: reference to the element' + ('' if given else ', or a proxy for the index'))
            if given:
                same_list(E, s, p, z3.If(there, n, z(i) + 1), lambda j: z3.If(z3.And(j == z(i), z3.Not(there)), gv, old(j)), 'At of a list with default')
            else:
                same_list(E, s, p, n, vals, 'At of a list')


def cursor_of(L, obj):
    """getters of the cells that hold a moving pointer into obj"""
    out = []
    for m in sorted(L.mods, key=str):
        if m[0] == 'cell':
            _, o, off, size = m
            c = L.entry.mem[o].cells.get(off)
            if c is not None and isinstance(c[1], Ptr) and c[1].obj == obj:
                out.append(lambda s, o=o, off=off: bv(s.mem[o].cells[off][1].off))
    d = L.depth - 1
    for i in L.phi_ids:
        v = L.entry.frames[-1].regs[i]
        if isinstance(v, Ptr) and v.obj == obj:
            out.append(lambda s, i=i: bv(s.frames[d].regs[i].off))
    return out


def verify_list_copy(E):
    st = C.base(E)
    E.norec = True
    st, p, n, vals = make_list(E, st)
    store = list_store(E, st, p)
    q = blank(E, st, 'destination')
    J = z3.BitVec('J', 64)

    def t(E, L):
        out = []
        for g in cursor_of(L, store.obj):
            k = lambda s, g=g: z3.LShR(g(s), 6)
            out.append(('cursor at an element', lambda s, g=g, k=k: z3.And(z3.Extract(5, 0, g(s)) == 0, z3.ULE(k(s), n))))
            out.append(('as many copied as passed', lambda s, k=k: list_of(E, s, q)[0] == k(s)))
            out.append(('passed elements are copied', lambda s, k=k: z3.Implies(z3.ULT(J, k(s)), z3.Select(list_of(E, s, q)[1], J) == copyof(z3.Select(vals, J)))))
        return out
    E.loop_templates.append(t)
    E.cover(st, 'precondition')
    for kind, s, r in run(E, st, p, 'Copy', q):
        if abs_exc(kind, r):
            same_list(E, s, p, n, vals, 'failed Copy of a list')
            continue
        E.oblige(s, isret(kind), PID, 'Copy of a list succeeds')
        E.oblige(s, E.load(s, q, 8, 'ptr') == E.load(s, p, 8, 'ptr') and list_store(E, s, q) != list_store(E, s, p), PID, 'Copy of a list: a list with storage of its own')
        same_list(E, s, q, n, lambda j: copyof(z3.Select(vals, j)), 'Copy of a list: copies of the elements', J)
        same_list(E, s, p, n, vals, 'copied list', J)


def verify_compare(E, t):
    """lists (maps) are equal when their elements are"""
    st = C.base(E)
    if t == 'List':
        st, p, n, vals = make_list(E, st)
        st, q, m, wals = make_list(E, st, 'other')
        differ = E.vecne(n, vals, m, wals)
    else:
        st, p, n, keys, vals = make_map(E, st)
        st, q, m, leys, wals = make_map(E, st, 'other')
        differ = E.mapne(keys, vals, leys, wals)
    E.cover(st, 'precondition')
    for kind, s, r in run(E, st.copy(), p, 'Compare', q):
        E.oblige(s, z3.And(isret(kind), (bv(r, 32) == 0) == z3.Not(differ)), PID, 'Compare of a %s: equal exactly when the elements are' % t.lower())
    for u in ('Null', 'Bool', 'Integer', 'Unsigned', 'Float', 'String', 'Map' if t == 'List' else 'List'):
        s0 = st.copy()
        if u == 'Map':
            s0, o = make_map(E, s0, 'o')[:2]
        elif u == 'List':
            s0, o = make_list(E, s0, 'o')[:2]
        else:
            s0, o, _ = scalar(E, s0, u, 'o')
        for x, y in ((p, o), (o, p)):
            for kind, s, r in run(E, s0.copy(), x, 'Compare', y):
                E.oblige(s, z3.And(isret(kind), bv(r, 32) != 0), PID, 'Compare of a %s with a %s: different' % (t.lower(), u))


# ------------------------------------------------------------------ maps
def mkey(E, st, tag='key'):
    k = z3.Const(tag, T.Bytes)
    p = E.new_obj(st, tag, size=32)
    E.gput(st, p, GStr(k))
    return p, k


def same_map(E, s, p, keys, vals, what, J=None):
    J = z3.Const('J', T.Bytes) if J is None else J
    a, b, n = map_of(E, s, p)
    kj = keys(J) if callable(keys) else z3.Select(keys, J)
    vj = vals(J) if callable(vals) else z3.Select(vals, J)
    E.oblige(s, z3.Select(a, J) == kj, PID, what + ': keys')
    E.oblige(s, z3.Implies(kj, z3.Select(b, J) == vj), PID, what + ': values')


def same_size(E, s, p, n, what):
    E.oblige(s, map_of(E, s, p)[2] == n, PID, what + ': number of keys')


def is_entry(E, r, st, p, key, off):
    """r is the value of the entry for key"""
    if not (isinstance(r, Ptr) and r.obj and not isinstance(r.obj, tuple)):
        return False
    d = E.objs[r.obj].data
    return isinstance(d, tuple) and d[0] == 'entry' and d[1] == map_store(E, st, p).obj and d[2].eq(key) and r.off == off


def verify_map_read(E):
    st = C.base(E)
    st, p, n, keys, vals = make_map(E, st)
    kp, k = mkey(E, st)
    E.cover(st, 'precondition')
    there = z3.Select(keys, k)
    for kind, s, r in run(E, st.copy(), p, 'Size'):
        E.oblige(s, z3.And(isret(kind), z(bv(r, 32)) == n), PID, 'Size of a map: number of keys')
    for kind, s, r in run(E, st.copy(), p, 'Empty'):
        E.oblige(s, z3.And(isret(kind), tob(r) == (n == 0)), PID, 'Empty of a map: no keys')
    for kind, s, r in run(E, st.copy(), p, 'ContainsKey', kp):
        E.oblige(s, z3.And(isret(kind), tob(r) == there), PID, 'Contains of a map: key present')
        same_map(E, s, p, keys, vals, 'Contains of a map')
    for name in ('GetKey', 'GetConstKey'):
        chk = z3.Bool('checked')
        for kind, s, r in run(E, st.copy(), p, name, kp, chk):
            yes = kind == 'ret' and is_entry(E, r, s, p, k, 64)
            none = kind == 'ret' and isinstance(r, Ptr) and r.obj == 0
            E.oblige(s, z3.If(there, z3.BoolVal(bool(yes)), z3.If(chk, kind == 'exc' and exc_name(r) == 'KeyError', z3.BoolVal(bool(none)))), PID, name + ' of a map: the value, or none')
            same_map(E, s, p, keys, vals, name)
            same_size(E, s, p, n, name)
    for name in ('AsMap', 'AsMapConst'):
        for kind, s, r in run(E, st.copy(), p, name):
            E.oblige(s, kind == 'ret' and E.gget(s, r, GMap).p == map_store(E, s, p), PID, name + ': the map itself')


def verify_map_write(E):
    st = C.base(E)
    st, p, n, keys, vals = make_map(E, st)
    kp, k = mkey(E, st)
    v = abs_val(E, st, 'given')
    gv = z3.Const('value_given', Val)
    there = z3.Select(keys, k)
    E.cover(st, 'precondition')
    for kind, s, r in run(E, st.copy(), p, 'SetKey', kp, v):
        if abs_exc(kind, r):
            continue
        E.oblige(s, isret(kind), PID, 'Set in a map succeeds')
        same_map(E, s, p, lambda j: z3.Or(j == k, z3.Select(keys, j)), lambda j: z3.If(j == k, gv, z3.Select(vals, j)), 'Set in a map')
        same_size(E, s, p, z3.If(there, n, n + 1), 'Set in a map')
    for kind, s, r in run(E, st.copy(), p, 'EraseKey', kp):
        E.oblige(s, isret(kind), PID, 'Erase in a map succeeds')
        same_map(E, s, p, lambda j: z3.And(j != k, z3.Select(keys, j)), vals, 'Erase in a map')
    for kind, s, r in run(E, st.copy(), p, 'Clear'):
        E.oblige(s, isret(kind), PID, 'Clear of a map succeeds')
        same_map(E, s, p, lambda j: z3.BoolVal(False), vals, 'Clear of a map')


def verify_map_ref(E):
    st = C.base(E)
    st, p, n, keys, vals = make_map(E, st)
    kp, k = mkey(E, st)

    def proxy_ctor(E, s, c, call):
        E.put(s, c[0], 8, E.abs_vt)
        record(s, ('NewProxy', (c[1], E.gget(s, c[2], GPath).seq), c[0]))
    E.summaries[NS + 'VariantRefImpl<%s>::VariantRefImpl(%s&, std::deque<%s, std::allocator<%s>> const&)' % (VAR, VAR, PE, PE)] = proxy_ctor
    there = z3.Select(keys, k)
    for given in (True, False):
        s0 = st.copy()
        v = abs_val(E, s0, 'given') if given else NULL
        gv = z3.Const('value_given', Val)
        ret = blank(E, s0, 'returned reference')
        E.cover(s0, 'precondition')
        for kind, s, r in run(E, s0, p, 'GetRefKey', kp, v, sret=ret):
            if abs_exc(kind, r):
                continue
            ev = [e for e in events(s) if e[0] in ('MakeRef', 'NewProxy')]
            ok = len(ev) == 1 and ev[0][0] == 'MakeRef' and ev[0][1][2] == ret and is_entry(E, ev[0][1][1], s, p, k, 64)
            prox = len(ev) == 1 and ev[0][0] == 'NewProxy' and ev[0][2] == ret and ev[0][1][0] == p
            if prox:
                q = ev[0][1][1]
                prox = q.kind == 'app' and same(simp2(bv(q.base.n)), bv(0)) and len(q.tail) == 1 and same(E.load(s, q.tail[0], 4, 'i32'), 1) and E.gget(s, E.padd(q.tail[0], 8), GStr).b.eq(k)
            E.oblige(s, isret(kind), PID, 'At of a map succeeds')
            E.oblige(s, ok if given else z3.If(there, z3.BoolVal(ok), z3.BoolVal(bool(prox))), PID, 'At of a map: reference to the value' + ('' if given else ', or a proxy for the key'))
            if given:
                same_map(E, s, p, lambda j: z3.Or(j == k, z3.Select(keys, j)), lambda j: z3.If(z3.And(j == k, z3.Not(there)), gv, z3.Select(vals, j)), 'At of a map with default')
            else:
                same_map(E, s, p, keys, vals, 'At of a map')


def map_facts(E, st, n, keys, J):
    st.assume(z3.Implies(z3.Select(keys, J), z3.And(z3.ULT(E.rank(J), n), E.keyat(E.rank(J)) == J)))


def verify_map_copy(E):
    st = C.base(E)
    E.norec = True
    st, p, n, keys, vals = make_map(E, st)
    store = map_store(E, st, p)
    q = blank(E, st, 'destination')
    J = z3.Const('J', T.Bytes)
    map_facts(E, st, n, keys, J)

    def t(E, L):
        out = []
        for g in cursor_of(L, store.obj):
            k = lambda s, g=g: z3.LShR(g(s), 7) - 1
            out.append(('cursor at an entry', lambda s, g=g, k=k: z3.And(z3.Extract(6, 0, g(s)) == 0, z3.UGE(g(s), 128), z3.ULE(k(s), n))))
            out.append(('passed keys are there', lambda s, k=k: z3.Select(map_of(E, s, q)[0], J) == z3.And(z3.Select(keys, J), z3.ULT(E.rank(J), k(s)))))
            out.append(('passed values are copies', lambda s, k=k: z3.Implies(z3.Select(map_of(E, s, q)[0], J), z3.Select(map_of(E, s, q)[1], J) == copyof(z3.Select(vals, J)))))
        return out
    E.loop_templates.append(t)
    E.cover(st, 'precondition')
    for kind, s, r in run(E, st, p, 'Copy', q):
        if abs_exc(kind, r):
            same_map(E, s, p, keys, vals, 'failed Copy of a map')
            continue
        E.oblige(s, isret(kind), PID, 'Copy of a map succeeds')
        E.oblige(s, E.load(s, q, 8, 'ptr') == E.load(s, p, 8, 'ptr') and map_store(E, s, q) != map_store(E, s, p), PID, 'Copy of a map: a map with storage of its own')
        same_map(E, s, q, keys, lambda j: copyof(z3.Select(vals, j)), 'Copy of a map: copies of the values', J)
        same_map(E, s, p, keys, vals, 'copied map', J)


def verify_merge(E):
    """Merge: every key of the other map is set, the others stay"""
    st = C.base(E)
    E.norec = True
    st, p, n, keys, vals = make_map(E, st)
    st, q, m, leys, wals = make_map(E, st, 'other')
    store = map_store(E, st, q)
    J = z3.Const('J', T.Bytes)
    map_facts(E, st, m, leys, J)

    def t(E, L):
        out = []
        for g in cursor_of(L, store.obj):
            k = lambda s, g=g: z3.LShR(g(s), 7) - 1
            done = lambda s, k=k: z3.And(z3.Select(leys, J), z3.ULT(E.rank(J), k(s)))
            out.append(('cursor at an entry', lambda s, g=g, k=k: z3.And(z3.Extract(6, 0, g(s)) == 0, z3.UGE(g(s), 128), z3.ULE(k(s), m))))
            out.append(('passed keys are there', lambda s, k=k, done=done: z3.Select(map_of(E, s, p)[0], J) == z3.Or(z3.Select(keys, J), done(s))))
            out.append(('passed values are set', lambda s, k=k, done=done: z3.Implies(z3.Or(z3.Select(keys, J), done(s)), z3.Select(map_of(E, s, p)[1], J) == z3.If(done(s), z3.Select(wals, J), z3.Select(vals, J)))))
        return out
    E.loop_templates.append(t)
    E.cover(st, 'precondition')
    for kind, s, r in call(E, st, 'Merge(%s)' % VAR, [p, q]):
        if abs_exc(kind, r):
            same_map(E, s, q, leys, wals, 'merged map', J)
            continue
        E.oblige(s, isret(kind), PID, 'Merge succeeds')
        same_map(E, s, p, lambda j: z3.Or(z3.Select(keys, j), z3.Select(leys, j)), lambda j: z3.If(z3.Select(leys, j), z3.Select(wals, j), z3.Select(vals, j)), 'Merge', J)
        same_map(E, s, q, leys, wals, 'merged map', J)


def tasks(P, tier):
    from ..run import Task
    t = lambda n, f, a=(), funcs=(): Task(n, f, a, props=(PID,), safety=PID, funcs=[INT + x for x in funcs])
    L = lambda *x: ['List::' + y for y in x]
    M = lambda *x: ['Map::' + y for y in x]
    return [t('list: reading', verify_list_read, (), L('Size', 'Empty', 'ContainsIndex', 'GetIndex', 'GetConstIndex', 'AsList', 'AsListConst', 'Index') + ['ListInit']),
            t('list: writing', verify_list_write, (), L('SetIndex', 'EraseIndex', 'Clear')),
            t('list: references', verify_list_ref, (), L('GetRefIndex')),
            t('list: copy', verify_list_copy, (), L('Copy')),
            t('list: comparison', verify_compare, ('List',), L('Compare')),
            t('map: comparison', verify_compare, ('Map',), M('Compare')),
            t('map: reading', verify_map_read, (), M('Size', 'Empty', 'ContainsKey', 'GetKey', 'GetConstKey', 'AsMap', 'AsMapConst') + ['MapInit']),
            t('map: writing', verify_map_write, (), M('SetKey', 'EraseKey', 'Clear')),
            t('map: references', verify_map_ref, (), M('GetRefKey')),
            t('map: copy', verify_map_copy, (), M('Copy')),
            t('map: merge', verify_merge, (), ['VTable::SetKey'])]
