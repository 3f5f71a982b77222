"""Contracts for recursive update and difference and for flat paths (src/Extensions.cc).

Each function is specified by recursion over its argument; a recursive call is replaced by the contract, the loop over the entries of a map
or list by a function of the number of entries done."""
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR
from ..facade import *
from .. import facade as FA
from .. import variants as V

TU = ['src/Extensions.cc']
PID = 'P20'
VREF = NS + 'VariantRefImpl<libvariant::Variant>'
RUPDATE = NS + 'RUpdate(%s, %sVariant const&)' % (VREF, NS)
RDIFF = NS + 'RDiff(%s, %sVariant const&, %sVariant const&)' % (VREF, NS, NS)
FLATTO = NS + 'FlattenPathTo(%s, %sVariant const&, %sVariant, %s)' % (VREF, NS, NS, STR)
SIMPLE = NS + 'SimpleList(%sVariant const&)' % NS


def base(E):
    V.error_models(E)
    FA.setup(E)
    FA.strings(E)
    FA.maps(E)
    FA.streams(E)
    E.what = NULL
    st = State()
    st.assume(TYP(nullval) == NULLT, TYP(EMPTYMAP) == MAPT, LEN(EMPTYMAP) == 0)
    return st


def ref_to(E, st, loc):
    p = E.new_obj(st, 'reference', size=64)
    E.gput(st, p, GV('ref', loc))
    return p


def value(E, st, name, ty=None):
    p = E.new_obj(st, name, size=64, const=True)
    v = z3.Const(name, Val)
    if ty is not None:
        st.assume(TYP(v) == ty)
    facts(st, v)
    st.mem[p.obj] = OC({0: (64, GV('val', v))})
    return p, v


def entries_done(E, L, u, f):
    """loop over the entries of map u: candidates f(state, number done) for every iterator"""
    out = []
    for o, c in list(L.entry.mem.items()):
        for off, (size, v) in c.cells.items():
            if size == 8 and isinstance(v, Ptr) and isinstance(getattr(E.objs[v.obj], 'data', None), MapView) and E.objs[v.obj].data.v.eq(u) and isc(v.off) and v.off == 0:
                def g(s, o=o, off=off):
                    n = bv(E.load(s, Ptr(o, off), 8, 'ptr').off)
                    return z3.And(z3.ULE(n, LEN(u)), f(s, n))
                out.append(('entries done so far', g))
    return out


# ------------------------------------------------------------------ recursive update
UPD = z3.Function('updated', Val, Val, Val)
UPDN = z3.Function('updated_with_entries', Val, Val, T.BV64, Val)


def upd_step(b, u, n):
    k = KEY(u, n)
    p = UPDN(b, u, n)
    return z3.And(UPDN(b, u, bv(0)) == b, UPDN(b, u, n + 1) == SETK(p, k, UPD(z3.If(HAS(p, k), GETK(p, k), EMPTYMAP), GETK(u, k))))


def upd(b, u):
    return z3.If(TYP(u) == NULLT, b, z3.If(z3.And(TYP(u) == MAPT, TYP(b) == MAPT), UPDN(b, u, LEN(u)), COPY(u)))


def s_update(E, st, a, call):
    loc = gv(E, st, a[0]).x
    e, v = read(st, loc)
    E.oblige(st, e, PID, 'the value to update is there')
    u = look(E, st, a[1])[1]
    w = UPD(v, u)
    facts(st, w)
    write(st, loc, w)
    facts(st, read(st, loc)[1] if loc[0] == 'root' else root_value(st, loc))


def root_value(st, loc):
    while loc[0] in ('key', 'idx', 'sub'):
        loc = loc[1]
    v = read(st, loc)[1]
    return v


def verify_update(E, tb, tu):
    st = base(E)
    E.summaries[RUPDATE] = s_update
    loc = root(st, 'base')
    b = read(st, loc)[1]
    st.assume(TYP(b) == tb if tb == MAPT else TYP(b) != MAPT)
    pu, u = value(E, st, 'update', tu)

    def temps(E, L):
        def f(s, n):
            return z3.And(read(s, loc)[1] == UPDN(b, u, n), TYP(read(s, loc)[1]) == MAPT)
        return entries_done(E, L, u, f)
    E.loop_templates.append(temps)
    st.assume(upd_step(b, u, bv(0)))
    E.entry_hooks.append(lambda x, i: upd_step(b, u, i) if x.eq(u) else z3.BoolVal(True))
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(RUPDATE)[0], st, [ref_to(E, st, loc), pu]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'RUpdate succeeds')
        if kind == 'ret':
            E.oblige(s, read(s, loc)[1] == upd(b, u), PID, 'RUpdate: the value afterwards')
    E.oblige(st, n > 0, PID, 'RUpdate returns')


# ------------------------------------------------------------------ recursive difference
DIFF = z3.Function('difference', Val, Val, Val, Val)
DIFFN = z3.Function('difference_of_entries', Val, Val, Val, T.BV64, Val)


def diff_step(d, b, c, n):
    k = KEY(c, n)
    x = GETK(c, k)
    p = DIFFN(d, b, c, n)
    y = DIFF(EMPTYMAP, GETK(b, k), x)
    bare = lambda w: z3.Or(TYP(w) == NULLT, z3.And(TYP(w) == MAPT, LEN(w) == 0))
    kept = z3.If(z3.And(HAS(p, k), bare(GETK(p, k))), DELK(p, k), p)
    changed = z3.If(bare(y), DELK(SETK(p, k, y), k), SETK(p, k, y))
    return z3.And(DIFFN(d, b, c, bv(0)) == d, DIFFN(d, b, c, n + 1) == z3.If(HAS(b, k), z3.If(EQV(GETK(b, k), x), kept, changed), SETK(p, k, COPY(x))))


def s_diff(E, st, a, call):
    loc = gv(E, st, a[0]).x
    e, v = read(st, loc)
    E.oblige(st, z3.And(e, TYP(v) == MAPT), PID, 'the difference starts as a map')
    w = DIFF(v, look(E, st, a[1])[1], look(E, st, a[2])[1])
    facts(st, w)
    write(st, loc, w)
    facts(st, root_value(st, loc))


def verify_diff(E, tb, tc):
    st = base(E)
    E.summaries[RDIFF] = s_diff
    loc = root(st, 'diff')
    d = read(st, loc)[1]
    st.assume(TYP(d) == MAPT)
    pb, b = value(E, st, 'base')
    pc, c = value(E, st, 'compare')
    st.assume(TYP(b) == MAPT if tb else TYP(b) != MAPT, TYP(c) == MAPT if tc else TYP(c) != MAPT)

    def temps(E, L):
        def f(s, n):
            return z3.And(read(s, loc)[1] == DIFFN(d, b, c, n), TYP(read(s, loc)[1]) == MAPT)
        return entries_done(E, L, c, f)
    E.loop_templates.append(temps)
    st.assume(diff_step(d, b, c, bv(0)))
    E.entry_hooks.append(lambda x, i: diff_step(d, b, c, i) if x.eq(c) else z3.BoolVal(True))
    n = 0
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(RDIFF)[0], st, [ref_to(E, st, loc), pb, pc]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'RDiff succeeds')
        if kind == 'ret':
            want = (DIFFN(d, b, c, LEN(c)) if tb else COPY(c)) if tc else z3.If(EQV(b, c), d, COPY(c))
            E.oblige(s, read(s, loc)[1] == want, PID, 'RDiff: the difference')
    E.oblige(st, n > 0, PID, 'RDiff returns')


# ------------------------------------------------------------------ flat paths
FLAT = z3.Function('flattened', Val, Val, Val, T.Bytes, Val)
FLATN = z3.Function('flattened_entries', Val, Val, Val, T.Bytes, T.BV64, Val)
ISSIMPLE = z3.Function('list_without_containers', Val, z3.BoolSort())
PK = {n: T.lit(n) for n in ('noSimpleLists', 'indexPrefix', 'indexSuffix', 'pathDelimiter', 'pathPrefix')}


def par(p, n):
    return GETK(p, PK[n])


def name_of(u, par_, prefix, n, ty):
    if ty == LISTT:
        t = T.app(T.app(T.app(prefix, TEXT(par(par_, 'indexPrefix'))), DECU(z3.Extract(31, 0, n))), TEXT(par(par_, 'indexSuffix')))
    else:
        t = T.app(z3.If(prefix == nil, TEXT(par(par_, 'pathPrefix')), T.app(prefix, TEXT(par(par_, 'pathDelimiter')))), KEY(u, n))
    return t


def flat_step(f, u, p, prefix, n, ty):
    x = GETI(u, n) if ty == LISTT else GETK(u, KEY(u, n))
    return z3.And(FLATN(f, u, p, prefix, bv(0)) == f, FLATN(f, u, p, prefix, n + 1) == FLAT(FLATN(f, u, p, prefix, n), x, p, name_of(u, p, prefix, n, ty)))


def s_flat(E, st, a, call):
    loc = gv(E, st, a[0]).x
    e, v = read(st, loc)
    w = FLAT(v, look(E, st, a[1])[1], look(E, st, a[2])[1], text(E, st, a[3]))
    facts(st, w)
    write(st, loc, w)


def verify_flatten(E, ty):
    st = base(E)
    E.summaries[FLATTO] = s_flat
    E.summaries[SIMPLE] = lambda E, st, a, call: simp(ISSIMPLE(look(E, st, a[0])[1]))
    loc = root(st, 'flat')
    f0 = read(st, loc)[1]
    st.assume(TYP(f0) == MAPT)
    pv, v = value(E, st, 'value')
    st.assume(TYP(v) == ty if ty is not None else z3.And(TYP(v) != LISTT, TYP(v) != MAPT))
    root(st, 'parameters')
    p = st.ghost[('node', 'parameters')]
    st.assume(TYP(p) == MAPT)
    pp = ref_to(E, st, ('root', 'parameters'))
    for n in PK:
        st.assume(HAS(p, PK[n]), TYP(par(p, n)) == (BOOLT if n == 'noSimpleLists' else STRT))
    ps = E.new_obj(st, 'prefix', size=32)
    prefix = z3.Const('prefix', T.Bytes)
    E.gput(st, ps, GStr(prefix))

    def temps(E, L):
        def f(s, n):
            return z3.And(read(s, loc)[1] == FLATN(f0, v, p, prefix, n), read(s, ('root', 'parameters'))[1] == p)
        if ty == MAPT:
            return entries_done(E, L, v, f)
        out = []
        for i in L.phi_ids:
            if L.phi_ty[i] == 'i32':
                def g(s, i=i):
                    n = z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32))
                    return z3.And(z3.ULE(n, LEN(v)), f(s, n))
                out.append(('elements done so far', g))
        return out
    E.loop_templates.append(temps)
    if ty is not None:
        st.assume(flat_step(f0, v, p, prefix, bv(0), ty))
        E.entry_hooks.append(lambda x, i: flat_step(f0, v, p, prefix, i, ty) if x.eq(v) else z3.BoolVal(True))
    simple = z3.And(z3.Not(TRUTH(par(p, 'noSimpleLists'))), ISSIMPLE(v))
    here = z3.If(prefix == nil, COPY(v), SETK(f0, prefix, COPY(v)))
    want = here if ty is None else FLATN(f0, v, p, prefix, LEN(v)) if ty == MAPT else z3.If(simple, here, FLATN(f0, v, p, prefix, LEN(v)))
    n = 0
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(FLATTO)[0], st, [ref_to(E, st, loc), pv, pp, ps]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'FlattenPathTo succeeds')
        if kind == 'ret':
            E.oblige(s, read(s, loc)[1] == want, PID, 'FlattenPathTo: the flat value')
            E.oblige(s, read(s, ('root', 'parameters'))[1] == p, PID, 'FlattenPathTo: the parameters stay')
    E.oblige(st, n > 0, PID, 'FlattenPathTo returns')


def verify_simple(E):
    st = base(E)
    pv, v = value(E, st, 'value')
    cont = lambda i: z3.Or(TYP(GETI(v, i)) == LISTT, TYP(GETI(v, i)) == MAPT)
    j = z3.BitVec('any', 64)
    st.assume(z3.ULT(j, LEN(v)))

    def temps(E, L):
        out = []
        for i in L.phi_ids:
            if L.phi_ty[i] == 'i32':
                def g(s, i=i):
                    n = z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32))
                    return z3.And(z3.ULE(n, LEN(v)), z3.Implies(z3.ULT(j, n), z3.Not(cont(j))))
                out.append(('no container so far', g))
        return out
    E.loop_templates.append(temps)
    n = 0
    for kind, s, r in E.run_function(E.P.find(SIMPLE)[0], st, [pv]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'SimpleList succeeds')
        if kind != 'ret':
            continue
        r = V.tob(r)
        E.oblige(s, z3.Implies(r, z3.And(TYP(v) == LISTT, z3.Not(cont(j)))), PID, 'a simple list has no containers')
        E.oblige(s, z3.Implies(TYP(v) != LISTT, z3.Not(r)), PID, 'only a list is a simple list')
    E.oblige(st, n > 0, PID, 'SimpleList returns')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, args, f):
        return Task('flat paths: ' + name, fn, args, props=(PID,), safety=PID, funcs=[NS + x for x in f])
    out = []
    for tb in (MAPT, None):
        for tu in (NULLT, MAPT, INTT, STRT, LISTT):
            if tb == MAPT or tu in (NULLT, MAPT, STRT):
                out.append(t('RUpdate of %s with type %d' % ('a map' if tb else 'another value', tu), verify_update, (tb, tu), ['RUpdate']))
    for tb in (True, False):
        for tc in (True, False):
            out.append(t('RDiff %s%s' % ('map' if tb else 'other', ' map' if tc else ' other'), verify_diff, (tb, tc), ['RDiff']))
    for ty in (None, LISTT, MAPT):
        out.append(t('FlattenPathTo type %s' % ty, verify_flatten, (ty,), ['FlattenPathTo']))
    out.append(t('SimpleList', verify_simple, (), ['SimpleList']))
    return out
