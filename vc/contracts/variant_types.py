"""Contracts for the type rules of dynamic values (src/Variant.cc): what does not fit the type is refused and changes nothing; only null adapts."""
import z3
from ..engine import *
from ..lib import *
from ..theory import bv
from ..variants import *
from ..varcont import *
from .. import variants as V
from .. import varcont as C
from .. import theory as T
from .variant_cont import run, abs_exc, isret, z, mkey, is_entry

TU = ['src/Variant.cc']
PID = 'P10'
BLOBINIT = INT + 'BlobInit(%sData*, std::shared_ptr<%sBlob>)' % (INT, NS)


def value(E, st, t, tag='that'):
    """(state, pointer, content): an arbitrary value of any type, made by the real initialiser"""
    if t == 'List':
        st, p, n, vals = make_list(E, st, tag)
        return st, p, (n, vals)
    if t == 'Map':
        st, p, n, keys, vals = make_map(E, st, tag)
        return st, p, (n, keys, vals)
    if t == 'Blob':
        b = E.new_obj(st, 'blob ' + tag, size=None)
        h = E.new_obj(st, 'blob pointer', size=16)
        sp_put(E, st, h, b, control(E, st, b, 1, True))
        p = blank(E, st, 'blob value ' + tag)
        st, _ = one(E, BLOBINIT, st, [p, h], 'BlobInit')
        return st, p, b
    return scalar(E, st, t, tag)


def frame(E, st0, s, but=()):
    """nothing that was there before has changed"""
    for o, oc in st0.mem.items():
        if o in but or oc.freed:
            continue
        sc = s.mem.get(o)
        if sc is oc:
            continue
        if sc is None or sc.freed:
            return False
        for k, c in oc.cells.items():
            d = sc.cells.get(k)
            if d is None or not same(c[1], d[1]):
                return False
    for k, g in st0.ghost.items():
        if k != 'ev' and not same(g, s.ghost.get(k)):
            return False
    return True


def refused(E, st, t, p, op, exc, args=(), sret=None, what=''):
    s0 = st.copy()
    n = 0
    for kind, s, r in run(E, st.copy(), p, op, *args, sret=sret):
        if abs_exc(kind, r):
            continue       # copying an argument failed
        n += 1
        E.oblige(s, kind == 'exc' and exc_name(r) == exc, PID, '%s of %s%s: refused (%s)' % (op, t, what, exc))
        E.oblige(s, frame(E, s0, s), PID, '%s of %s%s: nothing changes' % (op, t, what))
    E.oblige(s0, n > 0, PID, '%s of %s: has an outcome' % (op, t))


def gives(E, st, t, p, op, cond, args=(), sret=None, keep=True, what=''):
    """the operation returns and cond(state, result) holds"""
    s0 = st.copy()
    for kind, s, r in run(E, st.copy(), p, op, *args, sret=sret):
        if abs_exc(kind, r):
            continue
        c = cond(s, r) if kind == 'ret' else False
        E.oblige(s, c, PID, '%s of %s%s: result' % (op, t, what))
        if keep:
            E.oblige(s, frame(E, s0, s), PID, '%s of %s%s: nothing changes' % (op, t, what))


def is_type(E, s, p, t):
    rs = call(E, s.copy(), 'GetType() const', [p])
    if len(rs) != 1 or rs[0][0] != 'ret':
        return False
    return bv(rs[0][2], 32) == typenum(E, t)


NUMERIC = ('Integer', 'Unsigned', 'Float')


def verify_conversions(E, t):
    st = C.base(E)
    st, p, x = value(E, st, t)
    E.cover(st, 'precondition')
    gives(E, st, t, p, 'GetType', lambda s, r: bv(r, 32) == typenum(E, t))
    fp0 = z3.FPVal(0.0, LD)
    ret = E.new_obj(st, 'returned', size=32)
    if t in ('List', 'Map', 'Blob'):
        for op in ('AsBool', 'AsLongDouble', 'AsUnsigned', 'AsInt', 'AsString'):
            refused(E, st, t, p, op, 'UnableToConvertError', sret=ret)
    if t == 'Null':
        gives(E, st, t, p, 'AsBool', lambda s, r: z3.Not(tob(r)))
        gives(E, st, t, p, 'AsLongDouble', lambda s, r: z3.fpIsZero(r) if not isinstance(r, (int, float)) else r == 0)
        gives(E, st, t, p, 'AsUnsigned', lambda s, r: bv(r) == 0)
        gives(E, st, t, p, 'AsInt', lambda s, r: bv(r) == 0)
    if t == 'Bool':
        gives(E, st, t, p, 'AsString', lambda s, r: E.gget(s, ret, GStr).b == z3.If(x, T.lit(b'true'), T.lit(b'false')), sret=ret, keep=False)
    if t in ('Null', 'String'):
        gives(E, st, t, p, 'AsString', lambda s, r: E.gget(s, ret, GStr).b == (T.nil if t == 'Null' else x), sret=ret, keep=False)
    if t != 'Blob':
        for op in ('AsBlob', 'AsBlobConst'):
            refused(E, st, t, p, op, 'UnexpectedTypeError', sret=ret)
    else:
        for op in ('AsBlob', 'AsBlobConst'):
            gives(E, st, t, p, op, lambda s, r: E.load(s, ret, 8, 'ptr') == x, sret=ret, keep=False)
    if t in ('Bool',) + NUMERIC:
        refused(E, st, t, p, 'Size', 'InvalidOperationError')
    if t in ('Bool', 'Blob') + NUMERIC:
        refused(E, st, t, p, 'Empty', 'InvalidOperationError')
    if t == 'Null':
        gives(E, st, t, p, 'Size', lambda s, r: bv(r, 32) == 0)
        gives(E, st, t, p, 'Empty', lambda s, r: tob(r))
    if t == 'String':
        gives(E, st, t, p, 'Size', lambda s, r: bv(r, 32) == z3.Extract(31, 0, T.blen(x)))
        gives(E, st, t, p, 'Empty', lambda s, r: tob(r) == (T.blen(x) == 0))


def verify_containers(E, t):
    """list and map operations on a value that is not a list, not a map"""
    st = C.base(E)
    st, p, x = value(E, st, t)
    i = z3.BitVec('i', 32)
    kp, k = mkey(E, st)
    v = abs_val(E, st, 'given')
    ret = blank(E, st, 'returned reference')
    E.cover(st, 'precondition')
    for cont, own, a, sfx, err in (('List', 'List', i, 'Index', 'out_of_range'), ('Map', 'Map', kp, 'Key', 'KeyError')):
        if t == own:
            continue
        gives(E, st, t, p, 'Contains' + sfx, lambda s, r: z3.Not(tob(r)), (a,))
        refused(E, st, t, p, 'As%sConst' % cont, 'UnexpectedTypeError')
        if t != 'Null':
            refused(E, st, t, p, 'As' + cont, 'UnableToConvertError')
            refused(E, st, t, p, 'Erase' + sfx, 'UnexpectedTypeError', (a,))
            refused(E, st, t, p, 'Set' + sfx, 'UnexpectedTypeError', (a, v))
            for d in (v, NULL):
                refused(E, st, t, p, 'GetRef' + sfx, 'UnexpectedTypeError', (a, d), sret=ret, what=' with default' if d is v else '')
        else:
            gives(E, st, t, p, 'Erase' + sfx, lambda s, r: True, (a,))
        for op in ('Get', 'GetConst'):
            refused(E, st, t, p, op + sfx, 'UnexpectedTypeError' if t != 'Null' else err, (a, True))
            gives(E, st, t, p, op + sfx, lambda s, r: isinstance(r, Ptr) and r.obj == 0, (a, False), what=' unchecked')
    if t != 'List':
        E.norec = True
        refused(E, st, t, p, 'Index', 'UnexpectedTypeError', (v,))
        E.norec = False
    if t not in NUMERIC:
        for op in ('Incr', 'Decr'):
            refused(E, st, t, p, op, 'NotNumericTypeError')
        refused(E, st, t, p, 'Neg', 'NotNumericTypeError', sret=ret)
        for op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            refused(E, st, t, p, op, 'NotNumericTypeError', (v,))


def verify_null_adapts(E):
    """writing to null as a list or a map makes it one, holding just what is written"""
    st = C.base(E)
    st, p, _ = scalar(E, st, 'Null', 'that')
    i = z3.BitVec('i', 32)
    kp, k = mkey(E, st)
    v = abs_val(E, st, 'given')
    gv = z3.Const('value_given', Val)
    ret = blank(E, st, 'returned reference')
    J = z3.BitVec('J', 64)
    K = z3.Const('K', T.Bytes)
    E.cover(st, 'precondition')

    def lst(s, n, f, what):
        E.oblige(s, is_type(E, s, p, 'List'), PID, what + ': null becomes a list')
        m, w = list_of(E, s, p)
        E.oblige(s, m == n, PID, what + ': length')
        E.oblige(s, z3.Implies(z3.ULT(J, n), z3.Select(w, J) == f(J)), PID, what + ': elements')

    def mp(s, key, what):
        E.oblige(s, is_type(E, s, p, 'Map'), PID, what + ': null becomes a map')
        a, b, n = map_of(E, s, p)
        E.oblige(s, z3.Select(a, K) == (K == key if key is not None else False), PID, what + ': keys')
        if key is not None:
            E.oblige(s, z3.Select(b, key) == gv, PID, what + ': value')

    def proxy_ctor(E, s, c, call):
        E.put(s, c[0], 8, E.abs_vt)
        record(s, ('NewProxy', (c[1], E.gget(s, c[2], GPath).seq), c[0]))
    E.summaries[NS + 'VariantRefImpl<%s>::VariantRefImpl(%s&, std::deque<%s, std::allocator<%s>> const&)' % (VAR, VAR, PE, PE)] = proxy_ctor
    filled = lambda j: z3.If(j == z(i), gv, nullval)
    for op, a in (('AsList', ()), ('SetIndex', (i, v)), ('GetRefIndex', (i, v)), ('AsMap', ()), ('SetKey', (kp, v)), ('GetRefKey', (kp, v))):
        for kind, s, r in run(E, st.copy(), p, op, *a, sret=ret):
            if abs_exc(kind, r):
                continue
            E.oblige(s, isret(kind), PID, op + ' of null succeeds')
            if kind != 'ret':
                continue
            if 'List' in op or 'Index' in op:
                lst(s, z(i) + 1 if a else bv(0), filled, op)
            else:
                mp(s, k if a else None, op)
            if op == 'AsList':
                E.oblige(s, E.gget(s, r, GVec).p == list_store(E, s, p), PID, 'AsList of null: the new list')
            if op == 'AsMap':
                E.oblige(s, E.gget(s, r, GMap).p == map_store(E, s, p), PID, 'AsMap of null: the new map')
            if 'Ref' in op:
                ev = [e for e in events(s) if e[0] == 'MakeRef']
                ok = len(ev) == 1 and ev[0][1][2] == ret
                if op == 'GetRefIndex':
                    ok = z3.And(ok and ev[0][1][1].obj == list_store(E, s, p).obj, bv(ev[0][1][1].off) == z(i) << 6 if ok else False)
                else:
                    ok = ok and is_entry(E, ev[0][1][1], s, p, k, 64)
                E.oblige(s, ok, PID, op + ' of null: reference to the new element')
    for op, a in (('GetRefIndex', i), ('GetRefKey', kp)):
        s0 = st.copy()
        for kind, s, r in run(E, st.copy(), p, op, a, NULL, sret=ret):
            ev = [e for e in events(s) if e[0] in ('MakeRef', 'NewProxy')]
            E.oblige(s, kind == 'ret' and len(ev) == 1 and ev[0][0] == 'NewProxy' and ev[0][1][0] == p and ev[0][2] == ret and frame(E, s0, s, (ret.obj,)), PID, op + ' of null without default: a proxy, null stays')


def verify_clear(E, t):
    """Clear keeps strings, lists and maps what they are (empty); everything else becomes null; Assign(type) gives the default of the type"""
    st = C.base(E)
    st, p, x = value(E, st, t)
    rd, rc = refdata(E, st, True, external=True)
    E.put(st, E.padd(p, 32), 8, rd)
    E.put(st, E.padd(p, 40), 8, rc)
    E.cover(st, 'precondition')
    after = t if t in ('String', 'List', 'Map') else 'Null'

    def blank_of(s, u, what):
        E.oblige(s, is_type(E, s, p, u), PID, what + ': type')
        E.oblige(s, E.load(s, E.padd(p, 32), 8, 'ptr') == rd and same(simp(bv(E.load(s, rd, 1, 'i8'), 8) != 0), True), PID, what + ': references stay alive')
        if u == 'List':
            E.oblige(s, list_of(E, s, p)[0] == 0, PID, what + ': no elements')
        if u == 'Map':
            E.oblige(s, z3.Not(z3.Select(map_of(E, s, p)[0], z3.Const('K', T.Bytes))), PID, what + ': no keys')
        if u == 'String':
            ret = E.new_obj(s, 'returned', size=32)
            for k2, s2, r2 in run(E, s.copy(), p, 'AsString', sret=ret):
                E.oblige(s2, k2 == 'ret' and E.gget(s2, ret, GStr).b == T.nil, PID, what + ': empty text')
        if u in ('Bool', 'Integer', 'Unsigned', 'Float'):
            g = {'Bool': 'AsBool', 'Integer': 'AsInt', 'Unsigned': 'AsUnsigned', 'Float': 'AsLongDouble'}[u]
            for k2, s2, r2 in run(E, s.copy(), p, g):
                if k2 != 'ret':
                    E.oblige(s2, False, PID, what + ': zero')
                elif u == 'Float':
                    E.oblige(s2, z3.fpIsZero(r2) if isinstance(r2, z3.FPRef) else r2 == 0, PID, what + ': zero')
                else:
                    E.oblige(s2, z3.Not(tob(r2)), PID, what + ': zero')
    for kind, s, r in run(E, st.copy(), p, 'Clear'):
        E.oblige(s, isret(kind), PID, 'Clear of %s succeeds' % t)
        blank_of(s, after, 'Clear of ' + t)
    for u in TYPES:
        for kind, s, r in call(E, st.copy(), 'Assign(%sVariantDefines::Type_t)' % NS, [p, typenum(E, u)]):
            E.oblige(s, isret(kind), PID, 'making %s a %s succeeds' % (t, u))
            blank_of(s, u, 'making %s a %s' % (t, u))


def verify_compare_types(E, t):
    """values of different types (numbers apart) are different"""
    st = C.base(E)
    st, p, x = value(E, st, t)
    for u in TYPES:
        if u == t or (t in NUMERIC and u in NUMERIC):
            continue
        s0, q, y = value(E, st.copy(), u, 'other')
        s1 = s0.copy()
        for kind, s, r in run(E, s0.copy(), p, 'Compare', q):
            E.oblige(s, z3.And(isret(kind), bv(r, 32) != 0 if isret(kind) else False), PID, '%s is different from %s' % (t, u))
            E.oblige(s, frame(E, s1, s), PID, 'comparing %s with %s changes nothing' % (t, u))
        for kind, s, r in call(E, s0.copy(), 'Comparable(%s const&) const' % VAR, [p, q]):
            E.oblige(s, z3.And(isret(kind), z3.Not(tob(r))), PID, '%s is not comparable with %s' % (t, u))


def tasks(P, tier):
    from ..run import Task
    ts = []
    T_ = lambda n, f, a=(), funcs=(): ts.append(Task(n, f, a, props=(PID,), safety=PID, funcs=[INT + x for x in funcs]))
    for t in TYPES:
        T_('%s: conversions' % t, verify_conversions, (t,), ['VTable::As*', t + '::GetType', t + '::As*'])
        T_('%s: list and map operations' % t, verify_containers, (t,), ['VTable::%s*' % x for x in ('Contains', 'Index', 'Erase', 'GetRef', 'Get', 'GetConst', 'Set', 'Incr', 'Decr', 'Neg', 'Add', 'Sub', 'Mul', 'Div', 'Rem')])
        T_('%s: clearing and type assignment' % t, verify_clear, (t,), [t + '::Clear', 'VTable::Clear', 'DefaultInit', t + 'Init'])
        T_('%s: comparison with other types' % t, verify_compare_types, (t,), [t + '::Compare', 'VTable::Comparable'])
    T_('null adapts', verify_null_adapts, (), ['Null::AsList', 'Null::AsMap', 'Null::SetIndex', 'Null::SetKey', 'Null::GetRefIndex', 'Null::GetRefKey'])
    return ts
