"""Contracts for getting, setting and erasing along a path (src/Variant.cc).

Values are abstract: each has a (symbolic) set of children, found by key or index, and an operations table whose entries read and change it.
The functions recurse over the path; each is proved for an arbitrary value and an arbitrary range of an arbitrary path, with the recursive
call replaced by the contract, so the result holds for paths of every length by induction over the length.
"""
import z3
from ..engine import *
from ..lib import *
from ..theory import bv
from ..variants import *
from .. import variants as V
from .. import theory as T
from .variant_ref import CIT, PATHCONST, PATHREF, isexc

TU = ['src/Variant.cc']
PID = 'P13'
SETPATH = INT + 'VTable::SetPath(%sData*, %s, %s, %sVariant const*) const' % (INT, CIT, CIT, NS)
ERASEPATH = INT + 'VTable::ErasePath(%sData*, %s, %s, bool) const' % (INT, CIT, CIT)


def elem_key(E, st, x):
    """identity of the key or index given to an operation"""
    if isinstance(x, Ptr):
        return ('key', simp2(E.gget(st, x, GStr).b).sexpr())
    return ('index', simp2(bv(x, 32)).sexpr())


def kid(E, st, that, k):
    """(is there a child, child); what was set on this path counts"""
    for kk, v in st.ghost.get('kids', ()):
        if kk == (that.obj, k):
            return v
    c = E.kids.get((that.obj, k))
    if c is None:
        p = abstract(E, st, 'child of %d at %s' % (that.obj, k[1]))
        c = E.kids[(that.obj, k)] = (z3.Bool('has_%d_%s_%s' % (that.obj, k[0], k[1])), p, st.mem[p.obj])
    if c[1].obj not in st.mem:
        st.mem[c[1].obj] = c[2]
    return c[:2]


def value_of(E, st, p):
    """what a value given as an argument is: without content, or the object itself"""
    vt = E.load(st, p, 8, 'ptr')
    return 'null' if vt == E.null_vt else p


def lookup(checked_at):
    def h(E, st, a, inst):
        # this, that, key, checked
        that, k = a[1], elem_key(E, st, a[2])
        has, p = kid(E, st, that, k)
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        chk = a[3]
        s1.assume(has)
        s2.assume(z3.Not(has), z3.Not(chk) if not isinstance(chk, bool) else not chk)
        s3.assume(z3.Not(has), chk)
        return [Out(s1, p), Out(s2, NULL), Out(s3, None, Exc(ABS_EXC))]
    h.full = True
    return h


def act_set(E, st, a, res):
    # this, that, key, other
    that, k = a[1], elem_key(E, st, a[2])
    v = value_of(E, st, a[3])
    p = abstract(E, st, 'new child')
    st.ghost['kids'] = (((that.obj, k), (z3.BoolVal(True), p)),) + st.ghost.get('kids', ())
    st.ghost['did'] = st.ghost.get('did', ()) + (('set', that, k, v, p),)


def act_erase(E, st, a, res):
    st.ghost['did'] = st.ghost.get('did', ()) + (('erase', a[1], elem_key(E, st, a[2])),)


def act_assign(E, st, a, res):
    # this, that, other: other becomes that
    st.ghost['did'] = st.ghost.get('did', ()) + (('assign', a[1], a[2]),)


def mark(st, ref, what):
    st.ghost['refs'] = ((ref, what),) + st.ghost.get('refs', ())


def meaning(st, ref):
    for r, w in st.ghost.get('refs', ()):
        if r == ref:
            return w
    return None


def act_makeref(E, st, a, res):
    mark(st, a[2], ('ref', a[1]))
    E.put(st, a[2], 8, E.abs_vt)


def act_makeproxy(E, st, a, res):
    mark(st, a[2], ('proxy', a[1], rng(E, st, a[3], a[4])))
    E.put(st, a[2], 8, E.abs_vt)


def act_getref(E, st, a, res):
    # sret, this, that, key, def
    mark(st, a[0], ('elem', a[2], elem_key(E, st, a[3]), a[4] if a[4].obj else None))
    E.put(st, a[0], 8, E.abs_vt)


def act_resolve(E, st, a, res):
    return (resolved(E, st, a[1]),)


def resolved(E, st, p):
    c = E.kids.get((p.obj, 'resolved'))
    if c is None:
        q = abstract(E, st, 'what %d stands for' % p.obj)
        c = E.kids[(p.obj, 'resolved')] = (None, q, st.mem[q.obj])
    if c[1].obj not in st.mem:
        st.mem[c[1].obj] = c[2]
    return c[1]


def rng(E, st, b, e):
    x, y = it_get(E, st, b), it_get(E, st, e)
    return (x.obj, simp2(bv(x.off)).sexpr(), y.obj, simp2(bv(y.off)).sexpr())


def base(E):
    V.setup(E)
    V.path_models(E)
    E.kids = {}
    st = State()
    st.ghost['ev'] = ()
    st.ghost['did'] = ()
    look = lookup(None)
    E.abs_vt = abs_vtable(E, st, {'GetKey': look, 'GetIndex': look, 'GetConstKey': look, 'GetConstIndex': look, 'SetKey': act_set, 'SetIndex': act_set,
                                  'EraseKey': act_erase, 'EraseIndex': act_erase, 'Assign': act_assign, 'MakeRef': act_makeref, 'MakeProxy': act_makeproxy,
                                  'GetRefKey': act_getref, 'GetRefIndex': act_getref, 'Resolve': act_resolve, 'ResolveConst': act_resolve})
    z = blank(E, st, 'a value without content')
    # the operations table of a value without content, from the real constructor
    st, _ = one(E, VAR + '::Variant()', st, [z], 'Variant()')
    E.null_vt = E.load(st, z, 8, 'ptr')
    return st


def arbitrary(E, st):
    """an arbitrary value and an arbitrary range of an arbitrary path"""
    that = abstract(E, st, 'value')
    dq, g = sym_path(E, st, 'path')
    i = z3.BitVec('from', 64)
    st.assume(z3.ULE(i, bv(g.seq.n)))
    b, e = new_it(E, st, Ptr(g.obj.obj, i)), new_it(E, st, Ptr(g.obj.obj, g.seq.n))
    el = g.seq.elem(E, st, i)
    iskey = z3.Bool('path[from].key')
    st.assume((bv(E.load(st, el, 4, 'i32'), 32) == 1) == iskey)
    return that, g, i, b, e, el, iskey


def range_from(g, i):
    return (g.obj.obj, simp2(bv(i)).sexpr(), g.obj.obj, simp2(bv(g.seq.n)).sexpr())


def kids_of(E, s, that, el):
    kk = elem_key(E, s, E.padd(el, 8)), elem_key(E, s, E.load(s, E.padd(el, 4), 4, 'i32'))
    (hk, ck), (hi, ci) = kid(E, s, that, kk[0]), kid(E, s, that, kk[1])
    return kk, hk, ck, hi, ci


def by_kind(iskey, a, b):
    return z3.Or(z3.And(iskey, a), z3.And(z3.Not(iskey), b))


def tb(x):
    return z3.BoolVal(bool(x)) if not z3.is_expr(x) else x


def verify_get(E):
    """GetPathConst: the element at the end of the path, none or an exception when a step is missing"""
    st = base(E)

    def rec(E, s, a, call):
        this, that, b, e, chk = a
        vals = (that, rng(E, s, b, e), chk)
        k = (that.obj, 'path', vals[1])
        c = E.kids.get(k)
        if c is None:
            q = abstract(E, s, 'found below')
            c = E.kids[k] = (z3.Bool('found_below_%d_%s' % (that.obj, vals[1][1])), q, s.mem[q.obj])
        if c[1].obj not in s.mem:
            s.mem[c[1].obj] = c[2]
        E.oblige(s, this == E.load(s, that, 8, 'ptr'), PID, 'lookup goes on with the operations of the element')
        s1, s2, s3 = s.copy(), s.copy(), s.copy()
        s1.assume(c[0])
        s2.assume(z3.Not(c[0]), z3.Not(tb(chk)))
        s3.assume(z3.Not(c[0]), tb(chk))
        return [Out(s1, c[1]), Out(s2, NULL), Out(s3, None, Exc(ABS_EXC))]
    E.summaries[PATHCONST] = rec
    that, g, i, b, e, el, iskey = arbitrary(E, st)
    chk = z3.Bool('checked')
    st0 = st.copy()
    E.cover(st, 'precondition')
    kk, hk, ck, hi, ci = kids_of(E, st, that, el)
    has = z3.If(iskey, hk, hi)
    atend, last = i == bv(g.seq.n), i + 1 == bv(g.seq.n)
    for c in (ck, ci):
        q = abstract(E, st, 'found below')
        E.kids[(c.obj, 'path', range_from(g, i + 1))] = (z3.Bool('found_below_%d' % c.obj), q, st.mem[q.obj])
    fk, fi = (E.kids[(c.obj, 'path', range_from(g, i + 1))] for c in (ck, ci))
    there = z3.And(has, z3.Or(last, z3.If(iskey, fk[0], fi[0])))
    for kind, s, r in E.run_function(E.P.find(PATHCONST)[0], st, [E.abs_vt, that, b, e, chk]):
        if kind == 'exc':
            # resolving a reference may fail; an abstract failure stands for that
            E.oblige(s, z3.Or(atend, z3.And(chk, z3.Not(there))), PID, 'lookup fails only when checked and something is missing')
            continue
        rs = resolved(E, s, that)
        ok_last = by_kind(iskey, tb(r in (ck, resolved(E, s, ck))), tb(r in (ci, resolved(E, s, ci))))
        ok_more = by_kind(iskey, tb(r == fk[1]), tb(r == fi[1]))
        E.oblige(s, z3.If(atend, tb(r == rs), z3.If(there, z3.If(last, ok_last, ok_more), z3.And(z3.Not(chk), tb(r.obj == 0)))), PID, 'lookup: the element at the end of the path or none')
        E.oblige(s, not s.ghost['did'], PID, 'lookup changes nothing')
        E.cover(s, 'lookup returns')


def verify_set(E):
    """SetPath: assigns at the end of the path; a missing step is created, and only where the path leads"""
    st = base(E)

    def rec(E, s, a, call):
        this, that, b, e, other = a
        E.oblige(s, this == E.load(s, that, 8, 'ptr'), PID, 'setting goes on with the operations of the element')
        s2 = s.copy()
        s.ghost['did'] = s.ghost['did'] + (('setpath', that, rng(E, s, b, e), other),)
        return [Out(s), Out(s2, None, Exc(ABS_EXC))]
    E.summaries[SETPATH] = rec
    that, g, i, b, e, el, iskey = arbitrary(E, st)
    other = abstract(E, st, 'the new value')
    E.cover(st, 'precondition')
    kk, hk, ck, hi, ci = kids_of(E, st, that, el)
    atend, last = i == bv(g.seq.n), i + 1 == bv(g.seq.n)
    rest = range_from(g, i + 1)
    for kind, s, r in E.run_function(E.P.find(SETPATH)[0], st, [E.abs_vt, that, b, e, other]):
        did = s.ghost['did']
        if kind == 'exc':
            # some operation was refused: what was done before can only be the creation of the missing step
            E.oblige(s, r.ti == ABS_EXC and (not did or (len(did) == 1 and did[0][0] == 'set' and did[0][3] == 'null')), PID, 'setting fails only when an operation is refused')
            continue
        E.cover(s, 'set returns')

        def case(k, has, child):
            made = len(did) >= 1 and did[0][:3] == ('set', that, k)
            direct = len(did) == 1 and made and did[0][3] == other
            deeper = len(did) == 1 and did[0] == ('setpath', child, rest, other)
            atlast = len(did) == 1 and did[0] == ('assign', other, child)
            create = len(did) == 2 and made and did[0][3] == 'null' and did[1] in (('setpath', that, range_from(g, i), other), ('setpath', did[0][4], rest, other))
            return z3.If(has, z3.Or(tb(deeper), z3.And(last, tb(atlast or direct))), z3.If(last, tb(direct), tb(create)))
        E.oblige(s, z3.If(atend, tb(did == (('assign', other, that),)), by_kind(iskey, case(kk[0], hk, ck), case(kk[1], hi, ci))), PID, 'setting: assigned where the path leads, missing steps made, nothing else')


def verify_erase(E):
    """ErasePath: the last step is erased; with pruning, a container left empty on the way too"""
    st = base(E)

    def rec(E, s, a, call):
        this, that, b, e, prune = a
        E.oblige(s, this == E.load(s, that, 8, 'ptr'), PID, 'erasing goes on with the operations of the element')
        s2 = s.copy()
        s.ghost['did'] = s.ghost['did'] + (('erasepath', that, rng(E, s, b, e), prune),)
        return [Out(s), Out(s2, None, Exc(ABS_EXC))]
    E.summaries[ERASEPATH] = rec
    that, g, i, b, e, el, iskey = arbitrary(E, st)
    prune = z3.Bool('remove_empty')
    E.cover(st, 'precondition')
    kk, hk, ck, hi, ci = kids_of(E, st, that, el)
    atend, last = i == bv(g.seq.n), i + 1 == bv(g.seq.n)
    for kind, s, r in E.run_function(E.P.find(ERASEPATH)[0], st, [E.abs_vt, that, b, e, prune]):
        did = s.ghost['did']
        if kind == 'exc':
            E.oblige(s, r.ti == ABS_EXC, PID, 'erasing fails only when an operation is refused')
            continue
        E.cover(s, 'erase returns')
        empt = [ev for ev in events(s, 'Empty') if not isexc(ev[2])]

        def case(k, has, child):
            one_ = did == (('erase', that, k),)
            rec_ = len(did) >= 1 and did[0][:3] == ('erasepath', child, range_from(g, i + 1))
            same_flag = rec_ and same(did[0][3], prune)
            asked = len(empt) == 1 and empt[0][1][1] == child
            em = tob(empt[0][2]) if asked else z3.BoolVal(False)
            pruned = len(did) == 2 and did[1] == ('erase', that, k)
            more = z3.And(tb(same_flag), z3.If(prune, z3.And(tb(asked), z3.If(em, tb(pruned), tb(len(did) == 1))), tb(len(did) == 1)))
            return z3.If(last, z3.Or(tb(one_), z3.And(z3.Not(has), tb(not did))), z3.If(has, more, tb(not did)))
        E.oblige(s, z3.If(atend, tb(not did), by_kind(iskey, case(kk[0], hk, ck), case(kk[1], hi, ci))), PID, 'erasing: the last step, then what is left empty, nothing else')


def verify_ref(E, given):
    """GetPathRef: a reference to the element at the end of the path; a proxy, or the default put there, when it is missing"""
    st = base(E)

    def rec(E, s, a, call):
        ret, this, that, b, e, df = a
        E.oblige(s, this == E.load(s, that, 8, 'ptr'), PID, 'lookup goes on with the operations of the element')
        s2 = s.copy()
        mark(s, ret, ('path', that, rng(E, s, b, e), df))
        E.put(s, ret, 8, E.abs_vt)
        return [Out(s), Out(s2, None, Exc(ABS_EXC))]
    E.summaries[PATHREF] = rec
    that, g, i, b, e, el, iskey = arbitrary(E, st)
    df = abstract(E, st, 'the default') if given else NULL
    ret = E.new_obj(st, 'the reference', size=DATA)
    E.cover(st, 'precondition')
    kk, hk, ck, hi, ci = kids_of(E, st, that, el)
    atend, last = i == bv(g.seq.n), i + 1 == bv(g.seq.n)
    rest = range_from(g, i + 1)
    for kind, s, r in E.run_function(E.P.find(PATHREF)[0], st, [ret, E.abs_vt, that, b, e, df]):
        did = s.ghost['did']
        if kind == 'exc':
            E.oblige(s, r.ti == ABS_EXC and (not did or (given and len(did) == 1 and did[0][0] == 'set' and did[0][3] == 'null')), PID, 'reference at a path: fails only when an operation is refused')
            continue
        E.cover(s, 'reference returned')
        m = meaning(s, ret)

        def case(k, has, child):
            found = z3.And(tb(not did), z3.If(last, tb(m in (('ref', child), ('path', child, rest, df))), tb(m == ('path', child, rest, df))))
            if not given:
                return z3.If(has, found, tb(not did and m == ('proxy', that, range_from(g, i))))
            made = len(did) == 1 and did[0][:4] == ('set', that, k, 'null')
            return z3.If(has, found, z3.If(last, tb(not did and m == ('elem', that, k, df)), tb(made and m in (('path', that, range_from(g, i), df), ('path', did[0][4], rest, df)))))
        E.oblige(s, z3.If(atend, tb(not did and m == ('ref', that)), by_kind(iskey, case(kk[0], hk, ck), case(kk[1], hi, ci))), PID,
                 'reference at a path: %s' % ('the element, or the default put there' if given else 'the element, or a place to be made'))


DQ = 'std::deque<%s, std::allocator<%s>> const&' % (PE, PE)


def verify_public(E):
    """the public functions hand the whole path to the contracts above"""
    st = base(E)
    log = []

    def rec(name):
        def f(E, s, a, call):
            ret = None
            if name == 'ref':
                ret, a = a[0], a[1:]
            this, that, b, e, x = a
            E.oblige(s, this == E.load(s, that, 8, 'ptr'), PID, 'path functions: operations of the value')
            s2 = s.copy()
            args = (that, rng(E, s, b, e))
            if name == 'const':
                p = E.pub_found
                if p.obj not in s.mem:
                    s.mem[p.obj] = E.pub_mem
                s3 = s.copy()
                x = tb(x)
                f_ = z3.Bool('found')
                s.assume(f_)
                s2.assume(z3.Not(f_), z3.Not(x))
                s3.assume(z3.Not(f_), x)
                for t, v in ((s, p), (s2, None), (s3, 'exception')):
                    t.ghost['did'] = t.ghost['did'] + (('const',) + args + (v,),)
                return [Out(s, p), Out(s2, NULL), Out(s3, None, Exc(ABS_EXC))]
            if name == 'ref':
                mark(s, ret, ('path',) + args + (x,))
                E.put(s, ret, 8, E.abs_vt)
                return [Out(s), Out(s2, None, Exc(ABS_EXC))]
            s.ghost['did'] = s.ghost['did'] + ((name,) + args + (x,),)
            return [Out(s), Out(s2, None, Exc(ABS_EXC))]
        return f
    E.summaries[PATHCONST] = rec('const')
    E.summaries[PATHREF] = rec('ref')
    E.summaries[SETPATH] = rec('setpath')
    E.summaries[ERASEPATH] = rec('erasepath')
    that = abstract(E, st, 'value')
    E.pub_found = abstract(E, st, 'found')
    E.pub_mem = st.mem[E.pub_found.obj]
    dq, g = sym_path(E, st, 'path')
    whole = (g.obj.obj, simp2(bv(0)).sexpr(), g.obj.obj, simp2(bv(g.seq.n)).sexpr())
    found = z3.Bool('found')
    arg = abstract(E, st, 'argument')
    ret = E.new_obj(st, 'result', size=DATA)
    E.cover(st, 'precondition')
    P_ = lambda n: E.P.find(VAR + '::' + n)[0]

    def did(s, n=None):
        return [d for d in s.ghost['did'] if n is None or d[0] == n]
    refused = lambda kind, r: kind == 'exc' and r.ti == ABS_EXC
    for n, df in (('AtPath(%s)' % DQ, NULL), ('AtPath(%s, %s)' % (DQ, VAR), arg)):
        for kind, s, r in E.run_function(P_(n), st.copy(), [ret, that, dq] + ([arg] if df.obj else [])):
            E.oblige(s, refused(kind, r) or kind == 'ret' and meaning(s, ret) == ('path', that, whole, df) and not did(s), PID, 'AtPath: the reference at the path')
    for kind, s, r in E.run_function(P_('AtPath(%s) const' % DQ), st.copy(), [that, dq]):
        E.oblige(s, z3.If(found, tb(kind == 'ret' and r == E.pub_found), tb(refused(kind, r))), PID, 'AtPath, constant: the element or an exception')
        E.oblige(s, [d[:3] for d in did(s)] == [('const', that, whole)], PID, 'AtPath, constant: of this path')
    for kind, s, r in E.run_function(P_('GetPath(%s) const' % DQ), st.copy(), [ret, that, dq]):
        got = did(s, 'assign') == [('assign', E.pub_found, ret)]
        E.oblige(s, z3.If(found, tb(refused(kind, r) or kind == 'ret' and got), tb(refused(kind, r))), PID, 'GetPath: the element or an exception')
        E.oblige(s, [d[:3] for d in did(s, 'const')] == [('const', that, whole)] and len(did(s)) <= 2, PID, 'GetPath: of this path')
    for kind, s, r in E.run_function(P_('GetPath(%s, %s) const' % (DQ, VAR)), st.copy(), [ret, that, dq, arg]):
        a1, a2 = did(s, 'assign') == [('assign', E.pub_found, ret)], did(s, 'assign') == [('assign', arg, ret)]
        E.oblige(s, z3.Or(tb(refused(kind, r)), z3.If(found, tb(kind == 'ret' and a1), tb(kind == 'ret' and a2))), PID, 'GetPath with default: the element or the default')
        E.oblige(s, [d[:3] for d in did(s, 'const')] == [('const', that, whole)] and len(did(s)) <= 2, PID, 'GetPath with default: of this path')
    for kind, s, r in E.run_function(P_('SetPath(%s, %s)' % (DQ, VAR)), st.copy(), [that, dq, arg]):
        E.oblige(s, refused(kind, r) and not did(s) or kind == 'ret' and r == that and did(s) == [('setpath', that, whole, arg)], PID, 'SetPath: at this path')
    fl = z3.Bool('remove_empty')
    for kind, s, r in E.run_function(P_('ErasePath(%s, bool)' % DQ), st.copy(), [that, dq, fl]):
        d = did(s)
        E.oblige(s, refused(kind, r) and not d or kind == 'ret' and r == that and len(d) == 1 and d[0][:3] == ('erasepath', that, whole) and same(d[0][3], fl), PID, 'ErasePath: at this path')
    for kind, s, r in E.run_function(P_('HasPath(%s) const' % DQ), st.copy(), [that, dq]):
        E.oblige(s, z3.And(kind == 'ret', tob(r) == found) if kind == 'ret' else False, PID, 'HasPath: whether the element is there')
        E.oblige(s, [x[:3] for x in did(s)] == [('const', that, whole)], PID, 'HasPath: of this path')


def tasks(P, tier):
    from ..run import Task
    T_ = lambda n, f, a, funcs: Task(n, f, a, props=(PID,), safety=PID, funcs=funcs)
    return [T_('path lookup', verify_get, (), [INT + 'VTable::GetPathConst', INT + 'GetPathElem']),
            T_('path setting', verify_set, (), [INT + 'VTable::SetPath', INT + 'SetPathElem', INT + 'GetPathElem']),
            T_('path erasing', verify_erase, (), [INT + 'VTable::ErasePath', INT + 'ErasePathElem']),
            T_('path reference', verify_ref, (False,), [INT + 'VTable::GetPathRef']),
            T_('path reference with default', verify_ref, (True,), [INT + 'VTable::GetPathRef', INT + 'GetRefPathElem']),
            T_('public path functions', verify_public, (), [VAR + '::' + n for n in ('AtPath', 'GetPath', 'SetPath', 'ErasePath', 'HasPath')])]
