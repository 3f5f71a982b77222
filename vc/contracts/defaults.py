"""Contracts for filling in the defaults of a schema (src/Schema.cc).

A slot is a place with or without a value. FILL(schema, slot, original, followed) is the slot afterwards; AddSchemaDefaultsImpl is proved to compute it,
the parts replaced by the contract, and to keep what was there: for an arbitrary path, a value at its end that is neither null nor a container is still
there afterwards, and is the same."""
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, str_view
from ..facade import *
from .. import facade as FA
from .. import variants as V
from .ext_flat import value
from .schema import NAMED, positions, K, h, g

TU = ['src/Schema.cc']
PID = 'P21'
IMPL = r'AddSchemaDefaultsImpl'
LST = r'AddSchemaListDefaultsImpl'
FREF = NS + 'FollowedRef'
Refs = z3.DeclareSort('Refs')
NOREFS = z3.Const('no_references', Refs)
PUSHR = z3.Function('following', T.Bytes, Refs, Refs)
INREFS = z3.Function('is_followed', Refs, T.Bytes, z3.BoolSort())
B = z3.BoolSort()
FILL = (z3.Function('filled_there', Val, B, Val, Val, Refs, B), z3.Function('filled', Val, B, Val, Val, Refs, Val))
# the same for the entries of a map or list from the n-th on: properties, items, alternatives
REST = {k: (z3.Function(k + '_there', Val, T.BV64, B, Val, Val, Refs, B), z3.Function(k, Val, T.BV64, B, Val, Val, Refs, Val)) for k in ('properties', 'items', 'all')}
# an arbitrary path: its first element, and what its rest says of a value
HEAD = z3.BitVec('path_kind', 2)        # 0 nothing, 1 key, 2 index
PKEY, PIDX = z3.Const('path_key', T.Bytes), z3.BitVec('path_index', 64)
LEAFR = z3.Function('leaf_along_rest', Val, B)
ATR = z3.Function('value_along_rest', Val, Val)


def leaf(v):
    """there is a value that is neither null nor a container at the end of the path"""
    return z3.If(HEAD == 0, z3.And(TYP(v) != NULLT, TYP(v) != MAPT, TYP(v) != LISTT),
                 z3.If(HEAD == 1, z3.And(TYP(v) == MAPT, HAS(v, PKEY), LEAFR(GETK(v, PKEY))), z3.And(TYP(v) == LISTT, z3.ULT(PIDX, LEN(v)), LEAFR(GETI(v, PIDX)))))


def at(v):
    return z3.If(HEAD == 0, v, z3.If(HEAD == 1, ATR(GETK(v, PKEY)), ATR(GETI(v, PIDX))))


def keeps(a, b, rest=False):
    """slot b has what slot a has"""
    (e, v), (e2, v2) = a, b
    l, t = (LEAFR, ATR) if rest else (leaf, at)
    return z3.And(z3.Implies(e, e2), z3.Implies(z3.And(e, TYP(v) != NULLT), TYP(v2) == TYP(v)),
                  z3.Implies(z3.And(e, l(v)), z3.And(l(v2), t(v2) == t(v))))


def grown(w):
    """what is needed of a map or list with one more entry"""
    n = w.decl().name()
    v, k, x = w.arg(0), w.arg(1), w.arg(2)
    if n == 'with_key':
        return z3.And(TYP(w) == MAPT, HAS(w, PKEY) == z3.Or(k == PKEY, HAS(v, PKEY)), GETK(w, PKEY) == z3.If(k == PKEY, x, GETK(v, PKEY)))
    return z3.And(TYP(w) == LISTT, LEN(w) == z3.If(z3.ULT(k, LEN(v)), LEN(v), k + 1),
                  GETI(w, PIDX) == z3.If(k == PIDX, x, z3.If(z3.ULT(PIDX, LEN(v)), GETI(v, PIDX), nullval)))


def norm(e, v):
    return z3.If(e, v, nullval)


def fill(s, slot, o, f):
    e, v = slot
    a = (s, e, norm(e, v), o, f)
    return FILL[0](*a), FILL[1](*a)


def rest(k, u, n, slot, o, f):
    e, v = slot
    a = (u, n, e, norm(e, v), o, f)
    return REST[k][0](*a), REST[k][1](*a)


def part_of(o, k):
    return z3.If(z3.And(TYP(o) == MAPT, HAS(o, k)), GETK(o, k), nullval)


def item_of(o, i):
    return z3.If(z3.And(TYP(o) == LISTT, z3.ULT(i, LEN(o))), GETI(o, i), nullval)


def either(c, a, b):
    return z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1])


def in_part(s, slot, o, f, key=None, idx=None):
    """the slot after the part at a key or index was filled by schema s"""
    e, v = slot
    if key is not None:
        po, ps = part_of(o, key), (z3.And(e, TYP(v) == MAPT, HAS(v, key)), GETK(v, key))
    else:
        po, ps = item_of(o, idx), (z3.And(e, TYP(v) == LISTT, z3.ULT(idx, LEN(v))), GETI(v, idx))
    e2, x = fill(s, ps, po, z3.If(TYP(po) == NULLT, f, NOREFS))
    w = growk(e, v, key, x) if key is not None else growi(e, v, idx, x)
    return z3.Or(e, e2), z3.If(e2, w, v)


def define(k, u, n, slot, o, f):
    """one step of the filling by the entries of u from the n-th on"""
    if k == 'properties':
        nxt = in_part(GETK(u, KEY(u, n)), slot, o, f, key=KEY(u, n))
    elif k == 'items':
        nxt = in_part(GETI(u, n), slot, o, f, idx=n)
    else:
        nxt = fill(GETI(u, n), slot, o, f)
    r = either(z3.ULT(n, LEN(u)), rest(k, u, n + 1, nxt, o, f), (slot[0], norm(*slot)))
    l = rest(k, u, n, slot, o, f)
    return z3.And(l[0] == r[0], l[1] == r[1])


def spec(s, slot, o, f):
    """what a schema does to a slot"""
    r = g(s, '$ref')
    refs = z3.And(h(s, '$ref'), TYP(r) == STRT, z3.Not(INREFS(f, TEXT(r))))
    a = either(refs, fill(NAMED(TEXT(r)), slot, o, PUSHR(TEXT(r), f)), slot)
    missing = z3.And(h(s, 'default'), z3.Or(z3.Not(a[0]), TYP(a[1]) == NULLT))
    p, it = g(s, 'properties'), g(s, 'items')
    b = either(z3.And(h(s, 'properties'), z3.Or(z3.Not(a[0]), TYP(a[1]) == MAPT)), rest('properties', p, bv(0), a, o, f), a)
    c = either(z3.And(h(s, 'items'), z3.Or(z3.Not(b[0]), TYP(b[1]) == LISTT)),
               either(TYP(it) == LISTT, rest('items', it, bv(0), b, o, f), in_part(it, b, o, f, idx=bv(0))), b)
    for n in ('allOf', 'oneOf', 'anyOf'):
        c = either(z3.And(h(s, n), TYP(g(s, n)) == LISTT), rest('all', g(s, n), bv(0), c, o, f), c)
    d = either(missing, (z3.BoolVal(True), COPY(g(s, 'default'))), c)
    return either(TYP(s) == MAPT, d, slot)


class RefsObj:
    def __init__(self, t):
        self.t = t


def refs(E, st, p):
    """the references on the way, from the innermost one on"""
    if p.obj == 0:
        return NOREFS
    if isinstance(p.obj, tuple):
        raise Unsupported('one of several lists of references')
    d = E.objs[p.obj].data
    if isinstance(d, RefsObj):
        return d.t
    fo = Fields(E, FREF, p)
    return PUSHR(E.gget(st, fo.ptr('ref'), GStr).b, refs(E, st, E.load(st, fo.ptr('prev'), 8, 'ptr')))


def slot_of(st, loc):
    e, v = read(st, loc)
    return e, v


def foreign(E, st):
    s2 = st.copy()
    s2.ghost[('old', 'foreign')] = True
    return Out(s2, exc=throws(E, s2))


def base(E):
    V.error_models(E)
    V.shared_models(E)
    FA.setup(E)
    FA.strings(E)
    FA.maps(E)
    FA.lists(E)
    st = State()
    st.ghost[('old', 'grown')] = (grown,)
    E.what = str_view(E, st, z3.Const('what', T.Bytes))
    st.assume(TYP(nullval) == NULLT, TYP(EMPTYMAP) == MAPT, LEN(EMPTYMAP) == 0, TYP(EMPTYLIST) == LISTT, LEN(EMPTYLIST) == 0, z3.ULE(HEAD, 2), z3.ULT(PIDX, 1 << 32),
              z3.Not(HAS(EMPTYMAP, PKEY)))
    r = z3.Const('some_reference', T.Bytes)
    st.assume(z3.Not(LEAFR(nullval)), z3.ForAll([r], z3.Not(INREFS(NOREFS, r))))
    Vp = VAR + '::'

    def below(kind):
        def f(E, st, a, call):
            gg = gv(E, st, a[1])
            loc = gg.x if gg.kind == 'ref' else ('const', gg.x)
            e, v = read(st, loc)
            key = kind == 'skey'
            ty = MAPT if key else LISTT
            x = text(E, st, a[2]) if key else simp2(z(a[2]))
            if loc[0] == 'const' or loc[0] in ('key', 'idx'):
                # below a value nobody changes
                def then(s):
                    facts(s, GETK(v, x) if key else GETI(v, x))
                    E.gput(s, a[0], GV('ref', (kind[1:], loc, x)))
                return need(E, st, z3.And(e, TYP(v) == ty), then)
            if not E.mute and E.feasible(st, z3.And(e, TYP(v) == NULLT)):
                raise Unsupported('reference below a null')

            def then(s):
                facts(s, GETK(v, x) if key else GETI(v, x))
                E.gput(s, a[0], GV('ref', (kind, loc, x)))
            return need(E, st, z3.Or(z3.Not(e), TYP(v) == ty), then)
        return f
    pattern(E, Vp + r'(operator\[\]|At)\(' + STR + r' const&\)', below('skey'))
    pattern(E, Vp + r'(operator\[\]|At)\((unsigned )?int\)', below('sidx'))

    pattern(E, r'bool std::operator==<char, .*>\(%s const&, %s const&\)' % (STR, STR), lambda E, st, a, call: bo(text(E, st, a[0]) == text(E, st, a[1])))

    def s_has(E, st, a, call):
        return bo(INREFS(refs(E, st, a[0]), text(E, st, a[1])))
    pattern(E, FREF + r'::Has\(.*\) const', s_has)

    def s_impl(E, st, a, call):
        s, o = look(E, st, a[0])[1], look(E, st, a[3])[1]
        gg = gv(E, st, a[1])
        if gg.kind != 'ref':
            raise Unsupported('filling a value')
        x = foreign(E, st)
        before = read(st, gg.x)
        after = fill(s, before, o, refs(E, st, a[4]))
        facts(st, after[1])
        st.assume(keeps(before, after), keeps(before, after, True))
        put_if(st, gg.x, after[0], after[1])
        return [Out(st, None), x]
    pattern(E, NS + IMPL + r'\(.*\)', s_impl)

    def temps(E, L):
        out = []
        for nm in [k[1] for k in L.entry.ghost if isinstance(k, tuple) and k[0] == 'node']:
            loc = ('root', nm)
            E0 = slot_of(L.entry, loc)
            out.append(('what was there is kept', lambda s, loc=loc, E0=E0: keeps(E0, slot_of(s, loc))))
            for kind, u in E.walked:
                for lab, pos in positions(E, L, u):
                    n0 = pos(L.entry)[0]
                    o, f = E.orig, E.followed

                    def inv(s, pos=pos, kind=kind, u=u, loc=loc, n0=n0, E0=E0, o=o, f=f):
                        n, off = pos(s)
                        x, y = rest(kind, u, n, slot_of(s, loc), o, f), rest(kind, u, n0, E0, o, f)
                        r = z3.And(z3.ULE(n, LEN(u)), x[0] == y[0], x[1] == y[1])
                        return r if off is None else z3.And(r, off == n << 6)
                    out.append(('%s of %s: the rest decides' % (lab, kind), inv))
                    out.append((lab + ' within', lambda s, pos=pos, u=u: z3.ULE(pos(s)[0], LEN(u))))
            out.append(('a map or nothing', lambda s, loc=loc: z3.Or(z3.Not(slot_of(s, loc)[0]), TYP(slot_of(s, loc)[1]) == MAPT)))
            out.append(('a list or nothing', lambda s, loc=loc: z3.Or(z3.Not(slot_of(s, loc)[0]), TYP(slot_of(s, loc)[1]) == LISTT)))
        return out

    def defs(E, L, H):
        out = []
        for kind, u in E.walked:
            for lab, pos in positions(E, L, u):
                for nm in [k[1] for k in H.ghost if isinstance(k, tuple) and k[0] == 'node']:
                    out.append(define(kind, u, pos(H)[0], slot_of(H, ('root', nm)), E.orig, E.followed))
        return out
    E.loop_templates.append(temps)
    E.loop_facts.append(defs)
    E.walked = []
    return st


def follow(E, st, some):
    if not some:
        return NULL, NOREFS
    t = z3.Const('followed', Refs)
    return E.new_obj(st, 'followed', size=E.P.types[FREF]['size'], data=RefsObj(t), const=True), t


def loader(E, st):
    def get(E, st, a, inst):
        x = foreign(E, st)
        t = text(E, st, a[2])
        facts(st, NAMED(t))
        E.gput(st, a[0], GV('val', NAMED(t)))
        return [Out(st, None), x]
    return abstract_object(E, st, NS + 'SchemaLoader', {r'::GetSchema\(': get}, name='loader')


def data_slot(E, st):
    loc = root(st, 'data', z3.Bool('data_there'))
    p = E.new_obj(st, 'data reference', size=64)
    E.gput(st, p, GV('ref', loc))
    return loc, p


def judge(E, what, runs, loc, before, want):
    n = 0
    for kind, q, x in runs:
        if kind != 'ret':
            E.oblige(q, ('old', 'foreign') in q.ghost, PID, what + ': exceptions come from the loading of schemas only')
            continue
        n += 1
        e, v = read(q, loc)
        E.oblige(q, e == want[0], PID, what + ': there is a value afterwards exactly if there was one or a default gives one')
        E.oblige(q, z3.Implies(e, v == want[1]), PID, what + ': the value afterwards is the one that was there with the defaults filled in')
        E.oblige(q, keeps(before, (e, v)), PID, what + ': what was there is kept')
    E.oblige(State(), n > 0, PID, what + ': returns')


def fn(E, name):
    r = [F for F in E.P.fns.values() if F.dem.startswith(NS + name + '(')]
    if len(r) != 1:
        raise Unsupported('%s: %d functions' % (name, len(r)))
    return r[0]


def v_impl(E, case, some):
    st = base(E)
    ps, s = value(E, st, 'schema', None if case == 'other' else MAPT)
    E.objs[ps.obj].const = False
    if case == 'other':
        st.assume(TYP(s) != MAPT)
    loc, pd = data_slot(E, st)
    po, o = value(E, st, 'original')
    pf, f = follow(E, st, some)
    E.orig, E.followed = o, f
    st.assume(z3.Implies(h(s, 'properties'), TYP(g(s, 'properties')) == MAPT))
    for n in ('$ref', 'default', 'properties', 'items', 'allOf', 'oneOf', 'anyOf'):
        facts(st, g(s, n))
    if case == 'ref':
        st.assume(h(s, '$ref'))
    elif case == 'plain':
        st.assume(z3.Not(h(s, '$ref')))
    E.walked = [('properties', g(s, 'properties')), ('items', g(s, 'items'))]

    def s_list(E, st, a, call):
        e, u = look(E, st, a[0])
        gg = gv(E, st, a[1])
        o2, f2 = look(E, st, a[3])[1], refs(E, st, a[4])
        x = foreign(E, st)
        before = read(st, gg.x)
        c = z3.And(e, TYP(u) == LISTT)
        after = either(c, rest('all', u, bv(0), before, o2, f2), (before[0], norm(*before)))
        facts(st, after[1])
        st.assume(keeps(before, after), keeps(before, after, True))
        put_if(st, gg.x, after[0], after[1])
        return [Out(st, None), x]
    pattern(E, NS + LST + r'\(.*\)', s_list)
    before = read(st, loc)
    want = spec(s, before, o, f)
    E.cover(st, 'precondition')
    F = fn(E, IMPL)
    judge(E, 'defaults', E.run_function(F, st, [ps, pd, loader(E, st), po, pf]), loc, before, want)


def v_list(E, some):
    st = base(E)
    loc, pd = data_slot(E, st)
    po, o = value(E, st, 'original')
    pf, f = follow(E, st, some)
    E.orig, E.followed = o, f
    sl = root(st, 'schemas', z3.Bool('schemas_there'))
    se, u = read(st, sl)
    del st.ghost[('node', 'schemas')], st.ghost[('live', 'schemas')]
    owner = z3.Const('owner', Val)
    st.assume(TYP(owner) == MAPT, HAS(owner, K('allOf')) == se, GETK(owner, K('allOf')) == u)
    pl = E.new_obj(st, 'reference to the list', size=64)
    E.gput(st, pl, GV('ref', ('key', ('const', owner), K('allOf'))))
    v = GETK(owner, K('allOf'))
    facts(st, v)
    E.walked = [('all', v)]
    before = read(st, loc)
    want = either(z3.And(se, TYP(v) == LISTT), rest('all', v, bv(0), before, o, f), before)
    E.cover(st, 'precondition')
    judge(E, 'list of schemas', E.run_function(fn(E, LST), st, [pl, pd, loader(E, st), po, pf]), loc, before, want)


def v_top(E, ty):
    st = base(E)
    ps, s = value(E, st, 'schema', ty)
    E.objs[ps.obj].const = False
    loc, pd = data_slot(E, st)
    before = read(st, loc)
    if ty is None:
        # no schema named by the data, and something to read where it could be named
        st.assume(TYP(s) != STRT, TYP(s) != NULLT)
    want = NAMED(TEXT(s)) if ty == STRT else s
    E.orig, E.followed = None, NOREFS
    SL = NS + 'SchemaLoader::'

    def get(E, st, a, call):
        x = foreign(E, st)
        t = text(E, st, a[2])
        facts(st, NAMED(t))
        E.gput(st, a[0], GV('val', NAMED(t)))
        return [Out(st, None), x]

    def add(E, st, a, call):
        E.oblige(st, z3.And(text(E, st, a[2]) == nil, look(E, st, a[3])[1] == want), PID, 'the schema itself is registered')
        st.ghost['registered'] = z3.BoolVal(True)
    st.ghost['registered'] = z3.BoolVal(False)
    pattern(E, SL + r'~?SchemaLoader\(.*\)', lambda E, st, a, call: None)
    pattern(E, SL + r'GetSchema\(.*\)', get)
    pattern(E, SL + r'AddSchema\(.*\)', add)
    pattern(E, r'std::map<%s, %s.*>::~map\(\)' % (STR, VAR), lambda E, st, a, call: None)
    E.cover(st, 'precondition')
    runs = E.run_function(fn(E, 'AddSchemaDefaults'), st, [ps, pd, E.new_obj(st, 'loader', size=None)])
    for kind, q, x in runs:
        if kind == 'ret':
            E.oblige(q, q.ghost['registered'], PID, 'references to the schema itself can be followed')
    judge(E, 'AddSchemaDefaults', runs, loc, before, fill(want, before, z3.If(before[0], COPY(before[1]), nullval), NOREFS))


def v_has(E, last):
    st = base(E)
    p = E.new_obj(st, 'reference followed', size=E.P.types[FREF]['size'], const=False)
    fo = Fields(E, FREF, p)
    a, r = z3.Const('this_reference', T.Bytes), z3.Const('reference', T.Bytes)
    E.gput(st, fo.ptr('ref'), GStr(a))
    q, t = follow(E, st, not last)
    E.put(st, fo.ptr('prev'), 8, q)
    pr = E.new_obj(st, 'r', size=32)
    E.gput(st, pr, GStr(r))
    n = 0
    F = [F for F in E.P.fns.values() if F.dem.startswith(FREF + '::Has(')][0]
    for kind, s, x in E.run_function(F, st, [p, pr]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'no exception')
        E.oblige(s, (bv(x, 1) == 1 if not z3.is_bool(x) and not isinstance(x, bool) else x) == z3.Or(a == r, INREFS(t, r)), PID, 'a reference is followed if it is this one or one before')
    E.oblige(st, n > 0, PID, 'returns')


def tasks(P, tier):
    from ..run import Task
    out = []

    def t(name, fn, args, f):
        out.append(Task('defaults: ' + name, fn, args, props=(PID,), safety=PID, funcs=[NS + x for x in f]))
    for some in (False, True):
        w = ' within references' if some else ''
        for case in ('other', 'ref', 'plain'):
            t('schema %s%s' % (case, w), v_impl, (case, some), [IMPL, 'AddSchemaPartDefaultsImpl', 'PartOf'])
        t('list of schemas' + w, v_list, (some,), [LST])
        t('followed' + w, v_has, (not some,), ['FollowedRef::Has'])
    for ty in (STRT, None):
        t('AddSchemaDefaults, %s' % ('named schema' if ty else 'schema'), v_top, (ty,), ['AddSchemaDefaults'])
    return out
