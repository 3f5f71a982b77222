"""Contracts for references and proxies of dynamic values, and for sharing of storage (src/Variant.cc)."""
import z3
from ..engine import *
from ..lib import *
from ..theory import bv
from ..variants import *
from .. import variants as V
from .. import theory as T
from ..varcont import copyof, nullval, list_of, map_of, list_store, map_store, GVec, GMap, VEC
from .. import varcont as C
from .variant_types import value, frame

TU = ['src/Variant.cc']
PID = 'P11'
REFINIT = INT + 'RefInit(' + INT + 'Data*, ' + INT + 'Data const*)'
CIT = 'std::_Deque_iterator<%s, %s const&, %s const*>' % (PE, PE, PE)
PROXYINIT = INT + 'ProxyInit(%sData*, %sData*, %s, %s)' % (INT, INT, CIT, CIT)
PATHCONST = INT + 'VTable::GetPathConst(%sData const*, %s, %s, bool) const' % (INT, CIT, CIT)
PATHREF = INT + 'VTable::GetPathRef(%sData*, %s, %s, %sVariant*) const' % (INT, CIT, CIT, NS)
OWN = ('Destroy', 'Destruct', 'Exists')          # operations a reference does on itself
SRET = ('AsString', 'AsBlob', 'AsBlobConst', 'GetRefIndex', 'GetRefKey', 'Neg')


def isexc(x):
    return isinstance(x, str)


def base(E, acts=None):
    V.setup(E)
    V.path_models(E)
    st = State()
    st.ghost['ev'] = ()
    E.abs_vt = abs_vtable(E, st, acts)
    return st


def make_ref(E, st, valid=True):
    """a reference made by the real initialiser, to an abstract value; then its target may have died"""
    tgt = abstract(E, st, 'target')
    that = blank(E, st, 'reference')
    st, _ = one(E, REFINIT, st, [that, tgt], 'RefInit')
    rd = E.load(st, E.padd(that, 32), 8, 'ptr')
    if valid is not True:
        E.put(st, rd, 1, valid)
    return st, that, tgt, rd


def arguments(E, st, F, vtobj, that):
    """(arguments for an operation, index of that)"""
    a = []
    n = 0
    for x in F.args:
        if 'sret' in x:
            a.append(E.new_obj(st, 'returned object', size=x['sret']))
            continue
        n += 1
        if n == 1:
            a.append(vtobj)
        elif n == 2:
            at = len(a)
            a.append(that)
        elif x['t'] == 'ptr':
            if 'Variant)' in F.dem or 'Data const*) const' in F.dem or 'Data*) const' in F.dem:
                a.append(abstract(E, st, 'argument %d' % n))
            elif '_Deque_iterator' in F.dem and n > 3:
                if not hasattr(E, 'argpath'):
                    E.argpath = sym_path(E, st, 'argument')
                g = E.argpath[1]
                a.append(new_it(E, st, Ptr(g.obj.obj, 0 if n == 4 else g.seq.n)))
            else:
                o = abstract(E, st, 'argument %d' % n) if 'Data' in F.dem.split(',')[-1] or 'Variant' in F.dem.split(',')[-1] or '_Deque' in F.dem else E.new_obj(st, 'argument %d' % n, size=None)
                if 'basic_string' in F.dem and n == 3:
                    o = E.new_obj(st, 'key', size=32, cells={0: (32, GStr(z3.Const('key', T.Bytes)))})
                a.append(o)
        elif x['t'] == 'i1':
            a.append(z3.Bool('flag%d' % n))
        else:
            a.append(z3.BitVec('arg%d' % n, width(x['t'])))
    return a, at


def unchanged(E, st0, s, p, lo=0, hi=DATA):
    a, b = st0.mem[p.obj], s.mem[p.obj]
    if b.freed != a.freed:
        return False
    return all(same(a.cells.get(o, (0, None))[1], b.cells.get(o, (0, None))[1]) for o in set(a.cells) | set(b.cells) if lo <= o < hi)


def iter_same(E, s, x, y):
    return it_get(E, s, x) == it_get(E, s, y) or (it_get(E, s, x).obj == it_get(E, s, y).obj and same(simp2(bv(it_get(E, s, x).off)), simp2(bv(it_get(E, s, y).off))))


def passed(E, s, name, got, want):
    """the operation got the arguments that were given (a copy where it takes one)"""
    for i, (x, y) in enumerate(zip(got, want)):
        if same(x, y):
            continue
        if name == 'MakeProxy' and i >= 3 and iter_same(E, s, x, y):
            continue
        if name == 'Index':
            continue                      # takes its argument by value: checked by the copy below
        return False
    return len(got) == len(want)


def verify_forward(E, k, name):
    """a reference does every operation on its target, and refuses when the target is gone"""
    st = base(E)
    valid = z3.Bool('target_alive')
    st, that, tgt, rd = make_ref(E, st, valid)
    vtobj = E.load(st, that, 8, 'ptr')
    F = E.P.fns[slot_fn(E, st, vtobj, k)]
    a, at = arguments(E, st, F, vtobj, that)
    st0 = st.copy()
    E.cover(st, 'precondition')
    tv = E.abs_vt
    n = 0
    for kind, s, r in E.run_function(F, st, a):
        n += 1
        ev = [e for e in events(s) if e[1][at] == tgt]
        rest = [e for e in events(s) if e[1][at] != tgt and e[0] not in ('Assign', 'Copy', 'Destruct', 'Destroy')]
        want = list(a)
        want[at - 1], want[at] = tv, tgt
        ok = len(ev) == 1 and ev[0][0] == name and passed(E, s, name, ev[0][1], want) and not rest
        if ok:
            if isexc(ev[0][2]):
                ok = kind == 'exc' and r.ti == ABS_EXC
            else:
                ok = kind == 'ret' and (r is None and ev[0][2] is None or same(r, ev[0][2]))
        elif name == 'Index' and kind == 'exc' and r.ti == ABS_EXC and not ev:
            continue      # copying the argument failed
        refused = kind == 'exc' and exc_name(r) == 'InvalidReferenceError' and not ev and not rest
        E.oblige(s, z3.If(valid, z3.BoolVal(ok), z3.BoolVal(refused)), PID, 'reference %s: done on the target exactly once, refused without one' % name)
        E.oblige(s, unchanged(E, st0, s, that), PID, 'reference %s: stays the same reference' % name)
    E.oblige(st0, n > 0, PID, 'reference %s: has an outcome' % name)


def verify_ref_own(E):
    """making and destroying references: the mark in the target is shared, the target is not touched"""
    st = base(E)
    st, that, tgt, rd = make_ref(E, st)
    E.oblige(st, rd.obj != 0 and E.load(st, E.padd(tgt, 32), 8, 'ptr') == rd, PID, 'reference and target share the life mark')
    E.oblige(st, same(simp(bv(E.load(st, rd, 1, 'i8'), 8) != 0), True), PID, 'a new reference is alive')
    E.oblige(st, E.load(st, E.padd(that, 16), 8, 'ptr') == tgt, PID, 'the reference stands for the target')
    E.oblige(st, not events(st), PID, 'making a reference leaves the target')
    # a second reference shares the mark
    that2 = blank(E, st, 'second reference')
    st, _ = one(E, REFINIT, st, [that2, tgt], 'RefInit')
    E.oblige(st, E.load(st, E.padd(that2, 32), 8, 'ptr') == rd, PID, 'all references of a value share one life mark')
    vtobj = E.load(st, that, 8, 'ptr')
    ks = {n: k for k, n in slots(E).items()}
    # Exists
    v = z3.Bool('target_alive')
    s1 = st.copy()
    E.put(s1, rd, 1, v)
    for kind, s, r in E.run_function(E.P.fns[slot_fn(E, s1, vtobj, ks['Exists'])], s1, [vtobj, that]):
        E.oblige(s, z3.And(kind == 'ret', tob(r) == v), PID, 'a reference exists while its target does')
    # destroying one reference leaves the target and the other reference alive
    for kind, s, r in E.run_function(E.P.fns[slot_fn(E, st, vtobj, ks['Destruct'])], st.copy(), [vtobj, that]):
        E.oblige(s, kind == 'ret', PID, 'reference destruction succeeds')
        E.oblige(s, not s.mem[rd.obj].freed and same(simp(bv(E.load(s, rd, 1, 'i8'), 8) != 0), True) if not s.mem[rd.obj].freed else False, PID, 'destroying a reference leaves the target alive')
        E.oblige(s, not events(s) and unchanged(E, st, s, tgt), PID, 'destroying a reference leaves the target')


def storage_of(E, st, p):
    """(control block, payload) of a value's storage"""
    c = E.load(st, E.padd(p, 56), 8, 'ptr')
    return c, (st.mem[c.obj].cells[8][1] if c.obj else None)


def verify_value_destruct(E, t):
    """a value that goes away marks its references dead and releases what only it owns"""
    st = C.base(E)
    st, p, x = value(E, st, t)
    shared = z3.Bool('shared_with_others')
    stor, payload = storage_of(E, st, p)
    if stor.obj:
        E.put(st, E.padd(stor, 16), 8, shared)
    for referred in (False, True):
        s0 = st.copy()
        rd = None
        if referred:
            rd, rc = refdata(E, s0, True, owners=1, external=True)
            E.put(s0, E.padd(p, 32), 8, rd)
            E.put(s0, E.padd(p, 40), 8, rc)
        E.cover(s0, 'precondition')
        for kind, s, r in call(E, s0, '~Variant()', [p]):
            E.oblige(s, kind == 'ret', PID, 'destruction succeeds')
            if referred:
                E.oblige(s, same(simp(bv(E.load(s, rd, 1, 'i8'), 8) != 0), False), PID, 'references of a destroyed %s are dead' % t)
            if payload is not None:
                E.oblige(s, z3.BoolVal(bool(s.mem[payload.obj].freed)) == z3.Not(shared), PID, 'the storage of a %s is released with its last owner' % t)


def verify_share(E, t, old):
    """assigning a value with storage shares the storage; the old content is released"""
    st = C.base(E)
    st, p, x = value(E, st, t)
    st, q, y = value(E, st, old, 'w')
    stor, pay = storage_of(E, st, p)
    so, oldpay = storage_of(E, st, q)
    ext = z3.Bool('old_shared')
    if so.obj:
        E.put(st, E.padd(so, 16), 8, ext)
    rd, rc = refdata(E, st, True, external=True)
    E.put(st, E.padd(q, 32), 8, rd)
    E.put(st, E.padd(q, 40), 8, rc)
    E.cover(st, 'precondition')
    st0 = st.copy()
    for alias in (False, True):
        for kind, s, r in call(E, st.copy(), 'Assign(libvariant::Variant const&)', [p if alias else q, p]):
            E.oblige(s, kind == 'ret', PID, 'assignment succeeds')
            d = p if alias else q
            E.oblige(s, E.load(s, E.padd(d, 48), 8, 'ptr') == E.load(st0, E.padd(p, 48), 8, 'ptr') and E.load(s, d, 8, 'ptr') == E.load(st0, p, 8, 'ptr')
                     and E.load(s, E.padd(d, 16), 8, 'ptr') == E.load(st0, E.padd(p, 16), 8, 'ptr'), PID, 'assigning a %s shares its storage' % t)
            E.oblige(s, unchanged(E, st0, s, p) and pay is not None and not s.mem[pay.obj].freed, PID, 'the assigned value is unchanged')
            if not alias:
                E.oblige(s, E.load(s, E.padd(q, 32), 8, 'ptr') == rd and same(simp(bv(E.load(s, rd, 1, 'i8'), 8) != 0), True), PID, 'references to the assigned variable stay alive')
                if oldpay is not None:
                    E.oblige(s, z3.BoolVal(bool(s.mem[oldpay.obj].freed)) == z3.Not(ext), PID, 'the replaced content is released with its last owner')
                n = E.load(s, stor, 8, 'i64')
                E.oblige(s, same(n, 2), PID, 'two owners afterwards')


def verify_copy(E, t):
    """a copy has storage of its own with the same text or the copied blob (lists and maps: with the container contracts)"""
    st = C.base(E)
    st, p, x = value(E, st, t)
    stor, pay = storage_of(E, st, p)
    ret = blank(E, st, 'the copy')
    if t == 'Blob':
        made = E.new_obj(st, 'copied blob', size=None)

        def bcopy(E, s, a, call):
            # contract of Blob::Copy, proved with the blobs
            E.oblige(s, a[1] == x, PID, 'Copy of a blob: copies this blob')
            sp_put(E, s, a[0], made, control(E, s, made, 1, False))
        pattern(E, NS + r'Blob::Copy\(\)( const)?', bcopy)
    st0 = st.copy()
    E.cover(st, 'precondition')
    for kind, s, r in call(E, st, 'Copy() const', [ret, p]):
        E.oblige(s, kind == 'ret', PID, 'Copy of a %s succeeds' % t)
        if kind != 'ret':
            continue
        c2, pay2 = storage_of(E, s, ret)
        E.oblige(s, E.load(s, ret, 8, 'ptr') == E.load(s, p, 8, 'ptr') and pay2 is not None and pay2 != pay and not s.mem[pay2.obj].freed, PID, 'Copy of a %s: storage of its own' % t)
        E.oblige(s, unchanged(E, st0, s, p) and frame(E, st0, s, (ret.obj,)), PID, 'Copy of a %s leaves it' % t)
        if t == 'Blob':
            b = E.load(s, E.padd(ret, 16), 8, 'ptr')
            E.oblige(s, E.load(s, b, 8, 'ptr') == made, PID, 'Copy of a blob holds the copied blob')
        else:
            b = E.load(s, E.padd(ret, 16), 8, 'ptr')
            E.oblige(s, E.gget(s, b, GStr).b == x, PID, 'Copy of a string holds the same text')


# ------------------------------------------------------------------ proxies
def proxy_base(E):
    def mk(E, st, a, res):
        # MakeRef(this, that, ref): ref becomes a reference to the found value
        E.put(st, a[2], 8, E.res_vt)
    st = base(E, {'MakeRef': mk})
    E.res_vt = abs_vtable(E, st, None, 'resolved operations')

    def path_const(E, st, a, call):
        this, that, b, e, checked = a
        vals = (this, that, it_get(E, st, b), it_get(E, st, e), checked)
        res = abstract(E, st, 'found element')
        outs_ = []
        found = z3.Bool('found')
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        s1.assume(found)
        record(s1, ('GetPathConst', vals, res))
        outs_.append(Out(s1, res))
        if checked is not True:
            s2.assume(z3.Not(found), z3.Not(checked) if not isinstance(checked, bool) else True)
            record(s2, ('GetPathConst', vals, None))
            outs_.append(Out(s2, NULL))
        record(s3, ('GetPathConst', vals, 'exception'))
        outs_.append(Out(s3, None, Exc(ABS_EXC)))
        return outs_

    def path_ref(E, st, a, call):
        ret, this, that, b, e, df = a
        # the created or found element, as a reference
        st2 = st.copy()
        tmp = E.load(st, df, 8, 'ptr') if df.obj else NULL
        res = E.new_obj(st, 'created element', size=None)
        vals = (this, that, it_get(E, st, b), it_get(E, st, e), df, tmp)
        for o in (32, 40, 48, 56):
            E.put(st, E.padd(ret, o), 8, NULL)
        E.put(st, ret, 8, E.cre_vt)
        record(st, ('GetPathRef', vals, ret))
        record(st2, ('GetPathRef', vals, 'exception'))
        return [Out(st), Out(st2, None, Exc(ABS_EXC))]
    E.cre_vt = abs_vtable(E, st, {'MakeRef': mk}, 'created operations')
    E.summaries[PATHCONST] = path_const
    E.summaries[PATHREF] = path_ref
    return st


def make_proxy(E, st, valid=True):
    root = abstract(E, st, 'root')
    dq, g = sym_path(E, st, 'proxy path')
    st.assume(bv(g.seq.n) != 0)
    that = blank(E, st, 'proxy')
    b, e = new_it(E, st, Ptr(g.obj.obj, 0)), new_it(E, st, Ptr(g.obj.obj, g.seq.n))
    st, _ = one(E, PROXYINIT, st, [that, root, b, e], 'ProxyInit')
    rd = E.load(st, E.padd(that, 32), 8, 'ptr')
    if valid is not True:
        E.put(st, rd, 1, valid)
    return st, that, root, g, rd


def whole_path(E, s, b, e, g):
    sq = seq_of(E, b)
    return b.obj == e.obj and same_seq(E, s, sq, g.seq) and same(simp2(bv(b.off)), simp2(bv(0))) and same(simp2(bv(e.off)), simp2(bv(g.seq.n)))


CREATE = ('AsList', 'AsMap', 'SetIndex', 'SetKey', 'Resolve', 'ResolveDefault')
SPECIAL = ('MakeRef', 'MakeProxy', 'GetRefIndex', 'GetRefKey', 'GetIndex', 'GetKey')


def verify_proxy(E, k, name):
    """a read through a proxy looks its path up (never creating it), a write creates it; then the operation is done on the element"""
    st = proxy_base(E)
    valid = z3.Bool('target_alive')
    st, that, root, g, rd = make_proxy(E, st, valid)
    vtobj = E.load(st, that, 8, 'ptr')
    F = E.P.fns[slot_fn(E, st, vtobj, k)]
    a, at = arguments(E, st, F, vtobj, that)
    st0 = st.copy()
    E.cover(st, 'precondition')
    n = 0
    creates = name in CREATE
    null_vt = None
    for kind, s, r in E.run_function(F, st, a):
        n += 1
        ev = [e for e in events(s) if not (e[0] in ('Assign', 'Copy', 'Destruct', 'Destroy', 'GetType') and e[1][1:2] != (that,) )]
        dead = kind == 'exc' and exc_name(r) == 'InvalidReferenceError' and not ev
        ok = False
        if ev and ev[0][0] == ('GetPathRef' if creates else 'GetPathConst'):
            v = ev[0][1]
            ok = v[1] == root and v[0] == E.abs_vt and whole_path(E, s, v[2], v[3], g)
            if creates:
                ok = ok and v[4].obj != 0
            else:
                ok = ok and v[4] is True
            if isexc(ev[0][2]):
                ok = ok and kind == 'exc' and r.ti == ABS_EXC and len(ev) == 1 and unchanged(E, st0, s, that)
            else:
                ok = ok and len(ev) >= 2 and ev[1][0] == 'MakeRef' and ev[1][1][2] == that and ev[1][1][1] == ev[0][2]
                if ok and isexc(ev[1][2]):
                    ok = kind == 'exc' and len(ev) == 2
                elif ok:
                    want = list(a)
                    want[at - 1] = E.res_vt
                    got = ev[2] if len(ev) == 3 else None
                    if name == 'ResolveDefault' and got is not None:
                        # the default is taken before the element is created
                        ok = got[0] == name and got[1][:2] == tuple(want[:2])
                    elif name == 'Index' and got is None and kind == 'exc':
                        ok = True
                    else:
                        ok = got is not None and got[0] == name and passed(E, s, name, got[1], want)
                    if ok and got is not None:
                        if isexc(got[2]):
                            ok = kind == 'exc' and r.ti == ABS_EXC
                        else:
                            ok = kind == 'ret' and (r is None and got[2] is None or same(r, got[2]))
        elif name in ('Index', 'ResolveDefault') and kind == 'exc' and not ev:
            continue
        E.oblige(s, z3.If(valid, z3.BoolVal(bool(ok)), z3.BoolVal(bool(dead))), PID, 'proxy %s: %s its path, then acts on the element' % (name, 'creates' if creates else 'looks up'))
    E.oblige(st0, n > 0, PID, 'proxy %s: has an outcome' % name)


def verify_proxy_exists(E):
    st = proxy_base(E)
    valid = z3.Bool('target_alive')
    st, that, root, g, rd = make_proxy(E, st, valid)
    vtobj = E.load(st, that, 8, 'ptr')
    ks = {n: k for k, n in slots(E).items()}
    st0 = st.copy()
    for kind, s, r in E.run_function(E.P.fns[slot_fn(E, st, vtobj, ks['Exists'])], st, [vtobj, that]):
        ev = events(s)
        if kind == 'exc':
            E.oblige(s, bool(ev) and isexc(ev[0][2]), PID, 'proxy Exists: fails only when the lookup fails')
            continue
        look = len(ev) == 1 and ev[0][0] == 'GetPathConst' and ev[0][1][1] == root and whole_path(E, s, ev[0][1][2], ev[0][1][3], g) and ev[0][1][4] is False
        E.oblige(s, z3.If(valid, z3.And(look, tob(r) == (look and ev[0][2] is not None)), z3.And(not ev, z3.Not(tob(r)))), PID, 'proxy Exists: whether the element is there now')
        E.oblige(s, unchanged(E, st0, s, that), PID, 'proxy Exists: changes nothing')


def verify_proxy_made(E):
    """a proxy remembers its root and path and shares the life mark of the root"""
    st = proxy_base(E)
    st, that, root, g, rd = make_proxy(E, st)
    E.oblige(st, rd.obj != 0 and E.load(st, E.padd(root, 32), 8, 'ptr') == rd, PID, 'proxy and root share the life mark')
    E.oblige(st, not events(st), PID, 'making a proxy leaves the root')
    vtobj = E.load(st, that, 8, 'ptr')
    ks = {n: k for k, n in slots(E).items()}
    # a reference to a proxy is a proxy of the same path; and making a longer one
    for name in ('MakeRef', 'MakeProxy'):
        s0 = st.copy()
        d = blank(E, s0, 'second proxy')
        F = E.P.fns[slot_fn(E, s0, vtobj, ks[name])]
        a = [vtobj, that, d]
        want = g.seq
        if name == 'MakeProxy':
            dq, h = sym_path(E, s0, 'more')
            a += [new_it(E, s0, Ptr(h.obj.obj, 0)), new_it(E, s0, Ptr(h.obj.obj, h.seq.n))]
        for kind, s, r in E.run_function(F, s0, a):
            E.oblige(s, kind == 'ret', PID, name + ' of a proxy succeeds')
            if kind != 'ret':
                continue
            ps = E.load(s, E.padd(d, 16), 8, 'ptr')
            f = Fields(E, INT + 'ProxyStorage', ps)
            q = E.gget(s, f.ptr('path'), GPath).seq
            if name == 'MakeRef':
                ok = same_seq(E, s, q, g.seq)
            else:
                ok = q.kind == 'cat' and same_seq(E, s, q.base, g.seq) and same_seq(E, s, q.tail[0], h.seq)
            E.oblige(s, ok and f.get(s, 'ref', 'ptr') == root and E.load(s, d, 8, 'ptr') == vtobj and E.load(s, E.padd(d, 32), 8, 'ptr') == rd, PID, name + ' of a proxy: same root, %s path' % ('same' if name == 'MakeRef' else 'longer'))
            E.oblige(s, unchanged(E, st, s, that) and not events(s), PID, name + ' of a proxy leaves it')
    for name in ('MakeRef', 'MakeProxy'):
        s0 = st.copy()
        E.put(s0, rd, 1, False)
        d = blank(E, s0, 'second proxy')
        a = [vtobj, that, d]
        if name == 'MakeProxy':
            dq, h = sym_path(E, s0, 'more')
            a += [new_it(E, s0, Ptr(h.obj.obj, 0)), new_it(E, s0, Ptr(h.obj.obj, h.seq.n))]
        for kind, s, r in E.run_function(E.P.fns[slot_fn(E, s0, vtobj, ks[name])], s0, a):
            E.oblige(s, kind == 'exc' and exc_name(r) == 'InvalidReferenceError', PID, name + ' of a dead proxy is refused')


def verify_proxy_lookup(E, name):
    """GetIndex / GetKey / GetRefIndex / GetRefKey of a proxy: no element is created unless a default is given"""
    st = proxy_base(E)
    valid = z3.Bool('target_alive')
    st, that, root, g, rd = make_proxy(E, st, valid)
    vtobj = E.load(st, that, 8, 'ptr')
    ks = {n: k for k, n in slots(E).items()}
    F = E.P.fns[slot_fn(E, st, vtobj, ks[name])]
    st00 = st
    isref = 'Ref' in name
    for given in ((True, False) if isref else (None,)):
        st = st00.copy()
        a, at = arguments(E, st, F, vtobj, that)
        if isref:
            a[-1] = a[-1] if given else NULL
        made = []

        def proxy_ctor(E, s, c, call):
            # VariantRef(root, path)
            made.append((s, c))
            E.put(s, c[0], 8, E.res_vt)
            record(s, ('NewProxy', (c[1], E.gget(s, c[2], GPath).seq), c[0]))
        E.proxy_ctor = proxy_ctor
        E.summaries.setdefault(NS + 'VariantRefImpl<%sVariant>::VariantRefImpl(%sVariant&, std::deque<%s, std::allocator<%s>> const&)' % (NS, NS, PE, PE), lambda E, s, c, call: E.proxy_ctor(E, s, c, call))
        st0 = st.copy()
        E.cover(st, 'precondition')
        for kind, s, r in E.run_function(F, st, a):
            ev = [e for e in events(s) if not (e[0] in ('Assign', 'Copy', 'Destruct', 'Destroy'))]
            dead = kind == 'exc' and exc_name(r) == 'InvalidReferenceError' and not ev
            ok = False
            if ev:
                v = ev[0][1]
                ok = ev[0][0] == ('GetPathRef' if given else 'GetPathConst') and v[1] == root and whole_path(E, s, v[2], v[3], g) and (v[4].obj != 0 if given else v[4] is False)
                if isexc(ev[0][2]):
                    ok = ok and kind == 'exc' and r.ti == ABS_EXC and len(ev) == 1
                elif ev[0][2] is None:
                    # nothing there
                    if isref:
                        ok = ok and len(ev) == 2 and ev[1][0] == 'NewProxy' and ev[1][1][0] == root and kind == 'ret' and ev[1][2] == a[0]
                        q = ev[1][1][1] if ok else None
                        ok = ok and q.kind == 'app' and same_seq(E, s, q.base, g.seq) and len(q.tail) == 1
                        if ok:
                            t = E.load(s, q.tail[0], 4, 'i32')
                            if 'Index' in name:
                                ok = same(t, 0) and same(E.load(s, E.padd(q.tail[0], 4), 4, 'i32'), a[-2])
                            else:
                                ok = same(t, 1) and E.gget(s, E.padd(q.tail[0], 8), GStr).gsame(E.gget(s, a[-2], GStr))
                    else:
                        chk = a[-1]
                        miss = kind == 'exc' and exc_name(r) == ('out_of_range' if 'Index' in name else 'KeyError')
                        none = kind == 'ret' and isinstance(r, Ptr) and r.obj == 0
                        E.oblige(s, z3.And(z3.BoolVal(bool(ok) and len(ev) == 1), valid, z3.If(chk, z3.BoolVal(miss), z3.BoolVal(none))), PID, 'proxy %s: missing element' % name)
                        continue
                else:
                    ok = ok and len(ev) >= 2 and ev[1][0] == 'MakeRef' and ev[1][1][2] == that and ev[1][1][1] == ev[0][2]
                    if ok and not isexc(ev[1][2]):
                        want = list(a)
                        want[at - 1] = E.res_vt
                        ok = len(ev) == 3 and ev[2][0] == name and passed(E, s, name, ev[2][1], want)
                        if ok:
                            ok = kind == 'exc' if isexc(ev[2][2]) else kind == 'ret' and (r is None and ev[2][2] is None or same(r, ev[2][2]))
            E.oblige(s, z3.If(valid, z3.BoolVal(bool(ok)), z3.BoolVal(bool(dead))), PID, 'proxy %s%s' % (name, '' if given is None else ' with default' if given else ' without default'))


def tasks(P, tier):
    from ..run import Task
    from ..engine import Engine
    E = Engine(P)
    sl = V.slots(E)
    ts = []
    T_ = lambda n, f, a=(), funcs=(): ts.append(Task(n, f, a, props=(PID,), safety=PID, funcs=funcs))
    for k, n in sorted(sl.items()):
        if n not in OWN:
            T_('reference: ' + n, verify_forward, (k, n), [INT + 'Ref::' + n])
        if n not in OWN and n not in SPECIAL:
            T_('proxy: ' + n, verify_proxy, (k, n), [INT + 'Proxy::' + n])
    T_('reference: life mark', verify_ref_own, (), [INT + 'RefInit', INT + 'VTable::EnsureRef', INT + 'Ref::Exists', INT + 'Ref::Destruct', INT + 'Ref::Destroy'])
    T_('proxy: Exists', verify_proxy_exists, (), [INT + 'Proxy::Exists'])
    T_('proxy: making', verify_proxy_made, (), [INT + 'ProxyInit', INT + 'Proxy::MakeRef', INT + 'Proxy::MakeProxy'])
    for n in ('GetRefIndex', 'GetRefKey', 'GetIndex', 'GetKey'):
        T_('proxy: ' + n, verify_proxy_lookup, (n,), [INT + 'Proxy::' + n])
    for t in TYPES:
        T_('destruction of ' + t, verify_value_destruct, (t,), [INT + 'VTable::Destruct', INT + 'VTable::Destroy', VAR + '::~Variant'])
        for u in ('String', 'List', 'Map', 'Blob'):
            T_('assigning %s over %s' % (u, t), verify_share, (u, t), [INT + u + '::Assign', INT + t + '::Destroy'])
    for t in ('String', 'Blob'):
        T_('copy of ' + t, verify_copy, (t,), [INT + t + '::Copy', VAR + '::Copy'])
    return ts
