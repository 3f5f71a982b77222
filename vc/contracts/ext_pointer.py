"""Contracts for JSON pointers (src/Extensions.cc).

An operation along a pointer is specified by recursion over the pointer: what happens at a value is what happens at the element named by
the first token, along the rest.  The recursive call is replaced by this contract (induction over the pointer)."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, blen
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR
from ..facade import *
from .. import facade as FA
from .. import variants as V
from ..variants import GPath, Seq, same_elem

TU = ['src/Extensions.cc']
PID = 'P14'
OPT = NS + 'Operation_t'
UNESCAPE = NS + 'JSONPointerUnescape(%s const&)' % STR
ESCAPE = NS + 'JSONPointerEscape(%s const&)' % STR
ISINDEX = NS + 'IsIndex(%s const&, unsigned long&)' % STR
POINTEROP = NS + 'JSONPointerOp(%s const&, %sVariantRefImpl<libvariant::Variant>, %s&)' % (STR, NS, OPT)
OPS = ('OP_ADD', 'OP_REMOVE', 'OP_TEST', 'OP_GET')
B8 = lambda c: z3.BitVecVal(ord(c), 8)

# ------------------------------------------------------------------ tokens
# a tilde waits for the next character
PEND = T.fold('tilde_waits', z3.BoolSort(), z3.BoolVal(False), lambda r, b, c: z3.And(z3.Not(r), c == B8('~')))
UNE = T.fold('unescaped_part', T.Bytes, nil, lambda r, b, c: z3.If(
    PEND(b), z3.If(c == B8('0'), snoc(r, B8('~')), z3.If(c == B8('1'), snoc(r, B8('/')), snoc(snoc(r, B8('~')), c))), z3.If(c == B8('~'), r, snoc(r, c))))
ESCF = T.fold('escaped', T.Bytes, nil, lambda r, b, c: z3.If(c == B8('~'), snoc(snoc(r, B8('~')), B8('0')), z3.If(c == B8('/'), snoc(snoc(r, B8('~')), B8('1')), snoc(r, c))))
# value of a digit string, and whether it has been one of at most 32 bits so far
DIG = T.fold('digits_only', z3.BoolSort(), z3.BoolVal(True), lambda r, b, c: z3.And(r, z3.UGE(c, 48), z3.ULE(c, 57), z3.ULE(NUM(b) * 10 + z3.ZeroExt(56, c - 48), 0xffffffff)))
NUM = T.fold('number_of', T.BV64, bv(0), lambda r, b, c: r * 10 + z3.ZeroExt(56, c - 48))
T.absorbing(DIG)


def unescaped(s):
    return z3.If(PEND(s), snoc(UNE(s), B8('~')), UNE(s))


UNESC = z3.Function('unescape_token', T.Bytes, T.Bytes)
ISIDX = z3.Function('is_index', T.Bytes, z3.BoolSort())
IDX = z3.Function('index_of', T.Bytes, T.BV64)


def base(E):
    V.error_models(E)
    V.path_models(E)
    FA.setup(E)
    FA.strings(E)
    E.what = NULL
    st = State()
    st.assume(TYP(nullval) == NULLT)
    return st


def string_arg(E, st, name):
    p = E.new_obj(st, name, size=32)
    b = z3.Const(name, T.Bytes)
    st.assume(z3.ULT(blen(b), 1 << 40))
    E.gput(st, p, GStr(b))
    return p, b


def prefix(b, n):
    return cat(nil, T.arrof(b), bv(0), n)


def step_fact(b, n):
    """the last step of a prefix (true of all; brings the shorter prefix into the proof)"""
    return z3.Implies(z3.UGE(n, 1), prefix(b, n) == snoc(prefix(b, n - 1), T.sel(T.arrof(b), n - 1)))


def verify_unescape(E):
    st = base(E)
    p, b = string_arg(E, st, 'token')
    ret = E.new_obj(st, 'result', size=32)

    def temps(E, L):
        out = []
        for i in L.phi_ids:
            if L.phi_ty[i] == 'ptr':
                def f(s, i=i):
                    q = s.frames[L.depth - 1].regs[i]
                    n = bv(q.off)
                    pre = prefix(b, n)
                    return z3.And(z3.ULE(n, blen(b)), text(E, s, ret) == unescaped(pre), z3.Implies(PEND(pre), n == blen(b)), step_fact(b, n))
                out.append(('the characters so far are unescaped', f))
        return out
    E.loop_templates.append(temps)
    n = 0
    for kind, s, r in E.run_function(E.P.find(UNESCAPE)[0], st, [ret, p]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'unescaping a token succeeds')
        if kind == 'ret':
            E.oblige(s, text(E, s, ret) == unescaped(b), PID, 'a token is unescaped')
            E.oblige(s, text(E, s, p) == b, PID, 'the token is not changed')
    E.oblige(st, n > 0, PID, 'unescaping returns')


def verify_escape(E):
    st = base(E)
    p, b = string_arg(E, st, 'key')
    ret = E.new_obj(st, 'result', size=32)

    def temps(E, L):
        out = []
        for o, c in list(L.entry.mem.items()):
            for off, (size, v) in c.cells.items():
                if size == 8 and isinstance(v, Ptr) and isinstance(getattr(E.objs[v.obj], 'data', None), object) and E.objs[v.obj].name == 'characters':
                    def f(s, o=o, off=off):
                        q = E.load(s, Ptr(o, off), 8, 'ptr')
                        n = bv(q.off)
                        return z3.And(z3.ULE(n, blen(b)), text(E, s, ret) == ESCF(prefix(b, n)))
                    out.append(('the characters so far are escaped', f))
        for i in L.phi_ids:
            if L.phi_ty[i] in ('ptr', 'i64'):
                def g(s, i=i):
                    q = s.frames[L.depth - 1].regs[i]
                    n = bv(q.off if isinstance(q, Ptr) else q)
                    return z3.And(z3.ULE(n, blen(b)), text(E, s, ret) == ESCF(prefix(b, n)))
                out.append(('the characters so far are escaped', g))
        return out
    E.loop_templates.append(temps)
    n = 0
    for kind, s, r in E.run_function(E.P.find(ESCAPE)[0], st, [ret, p]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'escaping a key succeeds')
        if kind == 'ret':
            E.oblige(s, text(E, s, ret) == ESCF(b), PID, 'a key is escaped')
    E.oblige(st, n > 0, PID, 'escaping returns')


def verify_index(E):
    st = base(E)
    p, b = string_arg(E, st, 'token')
    out = E.new_obj(st, 'index', size=8, cells={0: (8, z3.BitVec('before', 64))})
    first = T.sel(T.arrof(b), bv(0))
    ok = z3.And(b != nil, z3.Not(z3.And(z3.UGT(blen(b), 1), first == 48)), DIG(b))

    def temps(E, L):
        out = []
        ids = [i for i in L.phi_ids if L.phi_ty[i] == 'i64']
        for i in ids:
            for j in ids:
                if i != j:
                    def f(s, i=i, j=j):
                        r = s.frames[L.depth - 1].regs
                        n = bv(r[i])
                        pre = prefix(b, n)
                        return z3.And(z3.ULE(n, blen(b)), DIG(pre), bv(r[j]) == NUM(pre), z3.ULE(bv(r[j]), 0xffffffff),
                                      z3.Implies(z3.ULT(n, blen(b)), z3.And(step_fact(b, n + 1), z3.Implies(DIG(prefix(b, n + 1)), DIG(pre)))))
                    out.append(('the digits so far have this value', f))
        return out
    E.loop_templates.append(temps)
    n = 0
    for kind, s, r in E.run_function(E.P.find(ISINDEX)[0], st, [p, out]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'testing for an index succeeds')
        if kind != 'ret':
            continue
        r = V.tob(r)
        E.oblige(s, z3.Implies(r, ok), PID, 'an index is made of digits without leading zero and fits')
        E.oblige(s, z3.Implies(r, bv(E.load(s, out, 8, 'i64')) == NUM(b)), PID, 'an index has the value of its digits')
        E.oblige(s, z3.Implies(z3.Not(r), z3.Not(ok)), PID, 'an index of digits that fits is taken')
    E.oblige(st, n > 0, PID, 'testing for an index returns')


# ------------------------------------------------------------------ one step along a pointer
ADDABLE = z3.Function('addable_along', Val, T.Bytes, z3.BoolSort())
OKF = {o: (lambda v, P, A, o=o: ADDABLE(v, P) if o == 'OP_ADD' else FOUND(v, P)) for o in OPS}
NVF = {o: z3.Function('after_' + o, Val, T.Bytes, Val, Val) for o in OPS}
REMF = ALONG
REPF = z3.Function('replaces', Val, T.Bytes, z3.BoolSort())
DASH = T.lit('-')


def spec(op, e, v, P, A):
    """(possible, value afterwards, value there, something replaced, value replaced) of an operation at value v (there if e) along P with value A"""
    slash = T.sel(T.arrof(P), bv(0)) == B8('/')
    nx = z3.If(z3.ULE(blen(P), 1), blen(P), FIND(P, B8('/'), bv(1)))
    comp = UNESC(cat(nil, T.arrof(P), bv(1), nx - 1))
    last = nx == blen(P)
    rest = cat(nil, T.arrof(P), nx, blen(P) - nx)
    m, l = TYP(v) == MAPT, TYP(v) == LISTT
    has = HAS(v, comp)
    i = IDX(comp)
    ck, ci = GETK(v, comp), GETI(v, i)
    add = op == 'OP_ADD'
    dash = z3.And(last, comp == DASH)
    inner = lambda c: OKF[op](c, rest, A)
    ok = z3.And(slash, e, z3.Or(z3.And(m, z3.If(last, z3.BoolVal(True) if add else has, z3.And(has, inner(ck)))),
                                z3.And(l, z3.If(dash, z3.BoolVal(add),
                                                z3.And(ISIDX(comp), z3.If(last, z3.ULE(i, LEN(v)) if add else z3.ULT(i, LEN(v)), z3.And(z3.ULT(i, LEN(v)), inner(ci))))))))
    here = REMF
    if op == 'OP_ADD':
        new = z3.If(m, z3.If(last, SETK(v, comp, A), SETK(v, comp, NVF[op](ck, rest, A))),
                    z3.If(dash, INSI(v, LEN(v), A), z3.If(last, INSI(v, i, A), SETI(v, i, NVF[op](ci, rest, A)))))
        new0 = A
    elif op == 'OP_REMOVE':
        new = z3.If(m, z3.If(last, DELK(v, comp), SETK(v, comp, NVF[op](ck, rest, A))), z3.If(last, DELI(v, i), SETI(v, i, NVF[op](ci, rest, A))))
        new0 = nullval
    else:
        new = new0 = v
    at = z3.If(m, z3.If(last, ck, here(ck, rest)), z3.If(last, ci, here(ci, rest)))
    rep = z3.If(m, z3.If(last, has, REPF(ck, rest)), z3.And(z3.Not(last), REPF(ci, rest)))
    emp = P == nil
    possible0 = z3.BoolVal(True) if add else e
    return z3.If(emp, possible0, ok), z3.If(emp, new0, new), z3.If(emp, v, at), z3.If(emp, e, rep), (emp, last, m, l, dash, comp, i, rest)


def op_fields(E, p):
    return Fields(E, OPT, p)


def summary(E, op):
    """contract of JSONPointerOp at a call"""
    def f(E, st, a, call):
        ret, ps, pv, po = a
        P = text(E, st, ps)
        e, v = look(E, st, pv)
        loc = gv(E, st, pv).x
        F = op_fields(E, po)
        A = look(E, st, F.ptr('value'))[1]
        E.oblige(st, F.term(st, 'op') == enum(E.P, NS + 'Operations_e', op), PID, 'the operation stays the same along the pointer')
        possible = z3.And(e if op != 'OP_ADD' else z3.Or(e, P == nil), OKF[op](v, P, A))
        facts(st, v)
        g = E.gget(st, F.ptr('path'), GPath)
        more = Seq('cat', z3.FreshConst(T.BV64, 'n'), base=g.seq, tail=(('rest of', v, P),), tag=g.seq.tag + '...')
        yes, no = split(E, st, possible)
        o = []
        if yes is not None:
            E.gput(yes, F.ptr('path'), V.new_path(E, yes, more))
            if op in ('OP_ADD', 'OP_REMOVE'):
                w = NVF[op](v, P, A)
                facts(yes, w)
                write(yes, loc, w)
            if op == 'OP_ADD':
                F.put(yes, 'replaced', z3.If(REPF(v, P), z3.BitVecVal(1, 8), bv(F.get(yes, 'replaced'), 8)))
                E.gput(yes, F.ptr('old_value'), GV('val', z3.If(REPF(v, P), REMF(v, P), look(E, yes, F.ptr('old_value'))[1])))
            elif op != 'OP_TEST':
                put_val(E, yes, F.ptr('value'), REMF(v, P))
            F.put(yes, 'success', z3.If(EQV(REMF(v, P), A), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if op == 'OP_TEST' else 1)
            E.gput(yes, ret, GV('ref', ('sub', loc, P)))
            o.append(Out(yes, None))
        if no is not None:
            E.gput(no, F.ptr('path'), V.new_path(E, no, Seq('base', z3.FreshConst(T.BV64, 'n'), tag='path so far')))
            o.append(Out(no, exc=throws(E, no)))
        return o
    return f


def token_summaries(E):
    def unescape(E, st, a, call):
        E.gput(st, a[0], GStr(UNESC(text(E, st, a[1]))))

    def isindex(E, st, a, call):
        b = text(E, st, a[0])
        st.assume(z3.ULE(IDX(b), 0xffffffff))
        old = E.load(st, a[1], 8, 'i64')
        E.put(st, a[1], 8, simp2(z3.If(ISIDX(b), IDX(b), bv(old))))
        return ISIDX(b)
    E.summaries[UNESCAPE] = unescape
    E.summaries[ISINDEX] = isindex


def operation(E, st, op, A, pointer=None):
    size = E.P.types[OPT]['size']
    p = E.new_obj(st, 'operation', size=size)
    F = op_fields(E, p)
    F.put(st, 'op', enum(E.P, NS + 'Operations_e', op))
    g = V.sym_path(E, st, 'path')[1]
    E.gput(st, F.ptr('path'), g)
    E.gput(st, F.ptr('value'), GV('val', A))
    facts(st, A)
    E.gput(st, F.ptr('old_value'), GV('val', z3.Const('old_value', Val)))
    for n in ('success', 'guess', 'replaced'):
        F.put(st, n, 0)
    E.gput(st, F.ptr('pointer'), GStr(z3.Const('pointer', T.Bytes)))
    return p, g


def verify_op(E, op):
    st = base(E)
    token_summaries(E)
    E.summaries[POINTEROP] = summary(E, op)
    live = z3.Bool('there')
    loc = root(st, 'document', live)
    v = st.ghost[('node', 'document')]
    A = z3.Const('argument', Val)
    po, g0 = operation(E, st, op, A)
    ps, P = string_arg(E, st, 'pointer')
    pv = E.new_obj(st, 'reference', size=64)
    E.gput(st, pv, GV('ref', loc))
    ret = E.new_obj(st, 'result', size=64)
    F = op_fields(E, po)
    ok, new, at, rep, (emp, last, m, l, dash, comp, i, rest) = spec(op, live, v, P, A)
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(POINTEROP)[0], st, [ret, ps, pv, po]):
        e2, v2 = read(s, loc)
        what = {'OP_ADD': 'add', 'OP_REMOVE': 'remove', 'OP_TEST': 'test', 'OP_GET': 'look up'}[op] + ' along a pointer: '
        if kind == 'exc':
            E.oblige(s, z3.Not(ok), PID, what + 'refused only if the pointer does not lead anywhere')
            E.oblige(s, z3.And(e2 == live, z3.Implies(live, v2 == v)), PID, what + 'refused without a change')
            continue
        n += 1
        E.oblige(s, ok, PID, what + 'refused if the pointer does not lead anywhere')
        E.oblige(s, v2 == new, PID, what + 'the value afterwards')
        if op in ('OP_TEST', 'OP_GET'):
            E.oblige(s, z3.And(e2 == live), PID, what + 'nothing is made')
        if op == 'OP_ADD':
            E.oblige(s, (F.term(s, 'replaced') != 0) == rep, PID, what + 'whether a value was replaced')
            E.oblige(s, z3.Implies(rep, look(E, s, F.ptr('old_value'))[1] == at), PID, what + 'the value replaced')
            E.oblige(s, look(E, s, F.ptr('value'))[1] == A, PID, what + 'the value added stays')
        elif op == 'OP_TEST':
            E.oblige(s, (F.term(s, 'success') != 0) == EQV(at, A), PID, what + 'success is equality')
        else:
            E.oblige(s, look(E, s, F.ptr('value'))[1] == at, PID, what + 'the value there')
        if op != 'OP_TEST':
            E.oblige(s, F.term(s, 'success') != 0, PID, what + 'success is reported')
        # the place and the path to it
        g = E.gget(s, F.ptr('path'), GPath)
        q = gv(E, s, ret)
        E.oblige(s, q.kind == 'ref', PID, what + 'a reference is returned')
        if q.kind != 'ref':
            continue
        if not E.feasible(s, z3.Not(emp)):
            E.oblige(s, same_place(q.x, loc), PID, what + 'reference to the place')
            E.oblige(s, g.seq is g0.seq, PID, what + 'path to the place')
            continue
        E.oblige(s, z3.Not(emp), PID, what + 'one case at a time')
        inner = q.x[0] == 'sub'
        if op == 'OP_GET':
            place = q.x[1] if inner else q.x
            ism = place[0] == 'key'
            E.oblige(s, same_place(place[1], loc), PID, what + 'reference below the value')
            E.oblige(s, z3.And(m, place[2] == comp) if ism else z3.And(l, place[2] == i), PID, what + 'reference to the place')
            E.oblige(s, z3.And(z3.Not(last), q.x[2] == rest) if inner else last, PID, what + 'reference to the end of the pointer')
        seq = g.seq
        if inner:
            child = seq.tail[0] if seq.kind == 'cat' else (None,)
            E.oblige(s, seq.kind == 'cat' and child[0] == 'rest of', PID, what + 'path goes on')
            if seq.kind != 'cat':
                continue
            E.oblige(s, z3.And(child[2] == rest, child[1] == z3.If(m, GETK(v, comp), GETI(v, i))), PID, what + 'path goes on along the rest')
            seq = seq.base
        good = seq.kind == 'app' and seq.base is g0.seq and len(seq.tail) == 1
        E.oblige(s, good, PID, what + 'path has one more element')
        if good:
            el = seq.tail[0]
            t = bv(E.load(s, el, 4, 'i32'), 32)
            if not E.feasible(s, t != 1):
                E.oblige(s, z3.And(m, E.gget(s, E.padd(el, 8), GStr).b == comp), PID, what + 'path element is the key')
            else:
                ix = z3.ZeroExt(32, bv(E.load(s, E.padd(el, 4), 4, 'i32'), 32))
                E.oblige(s, z3.And(l, t == 0, ix == z3.If(dash, LEN(v), i)), PID, what + 'path element is the index')
    E.oblige(st, n > 0, PID, 'the operation returns')


# ------------------------------------------------------------------ functions for users
def wrapper(E, op):
    st = base(E)
    E.summaries[POINTEROP] = dispatch(E)
    loc = root(st, 'document', True)
    pv = E.new_obj(st, 'reference', size=64)
    E.gput(st, pv, GV('ref', loc))
    ps, P = string_arg(E, st, 'pointer')
    A = z3.Const('argument', Val)
    pa = E.new_obj(st, 'data', size=64)
    put_val(E, st, pa, A)
    return st, loc, pv, ps, P, pa, A


def dispatch(E):
    """contract of JSONPointerOp, by the operation asked for"""
    def f(E, st, a, call):
        F = op_fields(E, a[3])
        o = F.get(st, 'op')
        if not isc(o):
            raise Unsupported('unknown operation')
        return summary(E, OPS[o])(E, st, a, call)
    return f


def verify_user(E, which):
    op = {'Add': 'OP_ADD', 'Remove': 'OP_REMOVE', 'Lookup': 'OP_GET'}[which]
    st, loc, pv, ps, P, pa, A = wrapper(E, op)
    v = read(st, loc)[1]
    F = E.P.find([f.dem for f in E.P.fns.values() if f.dem.startswith(NS + 'JSONPointer' + which + '(')][0])[0]
    ret = E.new_obj(st, 'result', size=64)
    args = {'Add': [ps, pv, pa], 'Remove': [ps, pv], 'Lookup': [ret, ps, pv]}[which]
    ok = 0
    for kind, s, r in E.run_function(F, st, args):
        x = A if which == 'Add' else s.ghost.get('op_value', nullval)
        v2 = read(s, loc)[1]
        if kind == 'exc':
            E.oblige(s, z3.And(v2 == v, z3.Not(OKF[op](v, P, A if which == 'Add' else nullval))), PID, 'JSONPointer%s: refused without a change only if the pointer does not lead anywhere' % which)
            continue
        ok += 1
        if which == 'Lookup':
            E.oblige(s, v2 == v, PID, 'JSONPointerLookup: no change')
            q = gv(E, s, ret)
            E.oblige(s, q.kind == 'ref' and same_place(q.x, ('sub', loc, P)), PID, 'JSONPointerLookup: reference to the place')
        else:
            E.oblige(s, v2 == NVF[op](v, P, A if which == 'Add' else nullval), PID, 'JSONPointer%s: the value afterwards' % which)
    E.oblige(st, ok > 0, PID, 'JSONPointer%s can succeed' % which)


def user_function(E, which):
    return E.P.find([f.dem for f in E.P.fns.values() if f.dem.startswith(NS + 'JSONPointer' + which + '(')][0])[0]


def verify_replace(E):
    st, loc, pv, ps, P, pa, A = wrapper(E, None)
    v = read(st, loc)[1]
    ok = 0
    for kind, s, r in E.run_function(user_function(E, 'Replace'), st, [ps, pv, pa]):
        v2 = read(s, loc)[1]
        if kind == 'exc':
            E.oblige(s, z3.And(v2 == v, z3.Not(FOUND(v, P))), PID, 'JSONPointerReplace: refused without a change only if there is nothing to replace')
            continue
        ok += 1
        E.oblige(s, FOUND(v, P), PID, 'JSONPointerReplace: refused if there is nothing to replace')
        E.oblige(s, v2 == PUTF(v, P, A), PID, 'JSONPointerReplace: the value afterwards')
    E.oblige(st, ok > 0, PID, 'JSONPointerReplace can succeed')


def verify_two(E, which):
    st, loc, pv, ps, P, pa, A = wrapper(E, None)
    pd, D = string_arg(E, st, 'destination')
    v = read(st, loc)[1]
    x = ALONG(v, P)
    v1 = v
    if which == 'Move':
        v1 = NVF['OP_REMOVE'](v, P, nullval)
        # lemma (task 'restoring'): what was removed can be added back
        st.assume(z3.Implies(FOUND(v, P), z3.And(ADDABLE(v1, P), NVF['OP_ADD'](v1, P, x) == v)))
    else:
        x = COPY(x)
    good = z3.And(FOUND(v, P), ADDABLE(v1, D))
    ok = 0
    for kind, s, r in E.run_function(user_function(E, which), st, [ps, pd, pv]):
        v2 = read(s, loc)[1]
        if kind == 'exc':
            E.oblige(s, z3.Not(good), PID, 'JSONPointer%s: refused only if one of the pointers does not lead anywhere' % which)
            E.oblige(s, v2 == v, PID, 'JSONPointer%s: refused without a change' % which)
            continue
        ok += 1
        E.oblige(s, good, PID, 'JSONPointer%s: refused if one of the pointers does not lead anywhere' % which)
        E.oblige(s, v2 == NVF['OP_ADD'](v1, D, x), PID, 'JSONPointer%s: the value afterwards' % which)
    E.oblige(st, ok > 0, PID, 'JSONPointer%s can succeed' % which)


def algebra(v, comp, i, x, y):
    """laws of maps and lists at one key or index, for a value v and elements x and y"""
    o = []
    for w, y in [(w, z) for w in (v, SETK(v, comp, x), DELK(v, comp)) for z in (x, y)]:
        o += [HAS(SETK(w, comp, y), comp), GETK(SETK(w, comp, y), comp) == y, TYP(SETK(w, comp, y)) == MAPT, TYP(DELK(w, comp)) == MAPT,
              SETK(SETK(w, comp, x), comp, y) == SETK(w, comp, y)]
    o += [z3.Not(HAS(DELK(v, comp), comp)), z3.Implies(HAS(v, comp), SETK(v, comp, GETK(v, comp)) == v), SETK(DELK(v, comp), comp, GETK(v, comp)) == z3.If(HAS(v, comp), v, SETK(DELK(v, comp), comp, GETK(v, comp)))]
    inside = z3.ULT(i, LEN(v))
    o += [z3.Implies(inside, f) for f in (LEN(DELI(v, i)) == LEN(v) - 1, TYP(DELI(v, i)) == LISTT, INSI(DELI(v, i), i, GETI(v, i)) == v, LEN(SETI(v, i, x)) == LEN(v), TYP(SETI(v, i, x)) == LISTT,
                                          GETI(SETI(v, i, x), i) == x, SETI(SETI(v, i, x), i, y) == SETI(v, i, y), SETI(v, i, GETI(v, i)) == v)]
    return o


def verify_restoring(E):
    """adding back what a removal took gives the value from before: by induction over the pointer, one step here"""
    st = base(E)
    v, P = z3.Const('document', Val), z3.Const('pointer', T.Bytes)
    facts(st, v)
    n = blen(P)
    st.assume(z3.ULT(n, 1 << 40))
    okr, v1, at, _, (emp, last, m, l, dash, comp, i, rest) = spec('OP_REMOVE', z3.BoolVal(True), v, P, nullval)
    oka, v2, _, _, _ = spec('OP_ADD', z3.BoolVal(True), v1, P, at)
    st.assume(z3.ULE(IDX(comp), 0xffffffff))
    for c in (GETK(v, comp), GETI(v, i)):
        # induction hypothesis for the elements along the rest
        c1 = NVF['OP_REMOVE'](c, rest, nullval)
        x = ALONG(c, rest)
        st.assume(z3.Implies(z3.And(z3.Not(emp), FOUND(c, rest)), z3.And(ADDABLE(c1, rest), NVF['OP_ADD'](c1, rest, x) == c)))
        st.assume(*algebra(v, comp, i, c1, c))
    st.assume(okr)
    E.cover(st, 'precondition')
    E.oblige(st, oka, PID, 'what was removed can be added back')
    E.oblige(st, v2 == v, PID, 'adding back what was removed restores the document')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, args, f):
        return Task('JSON pointer: ' + name, fn, args, props=(PID,), safety=PID, funcs=[NS + x for x in f])
    out = [t('unescape', verify_unescape, (), ['JSONPointerUnescape']), t('escape', verify_escape, (), ['JSONPointerEscape']), t('index', verify_index, (), ['IsIndex'])]
    for o in OPS:
        out.append(t(o, verify_op, (o,), ['JSONPointerOp']))
    for w in ('Add', 'Remove', 'Lookup'):
        out.append(t('JSONPointer' + w, verify_user, (w,), ['JSONPointer' + w]))
    out.append(t('JSONPointerReplace', verify_replace, (), ['JSONPointerReplace']))
    for w in ('Move', 'Copy'):
        out.append(t('JSONPointer' + w, verify_two, (w,), ['JSONPointer' + w]))
    out.append(t('restoring', verify_restoring, (), []))
    return out
