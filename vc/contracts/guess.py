"""Contracts for guessing: truth of a text (ParseBool), type of a plain scalar (GuessScalar), format of an input (GuessFormat)."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, blen
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, str_view
from .. import facade as FA
from .. import variants as V

TU = ['src/ParseBool.cc', 'src/GuessScalar.cc', 'src/GuessFormat.cc']
PID = 'P19'
NS = 'libvariant::'
B8 = lambda c: z3.BitVecVal(c if isinstance(c, int) else ord(c), 8)


def space(c):
    return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))


def lower(c):
    return z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)


def ctype(E):
    """isspace and tolower of the C locale"""
    def byte(E, st, v):
        c = bv(v, 32)
        return z3.Extract(7, 0, c)

    def isspace(E, st, a, call):
        return simp2(z3.If(space(byte(E, st, a[0])), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def tolower(E, st, a, call):
        c = bv(a[0], 32)
        return simp2(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
    pattern(E, r'isspace', isspace)
    pattern(E, r'tolower', tolower)


def prefix(b, n):
    return cat(nil, T.arrof(b), bv(0), n)


# ------------------------------------------------------------------ truth of a text
# reading from left to right: spaces; n, no; f, fa, fal, fals, false; zeros; spaces after that; anything else (true)
LEAD, N1, N2, F1, F5, ZERO, TAIL, OTHER = 0, 1, 2, 3, 7, 8, 9, 10


def truth_step(r, b, c):
    l = lower(c)
    v = lambda n: B8(n)
    after = z3.If(space(c), v(TAIL), v(OTHER))
    o = after
    for s, ch in ((N1, 'o'), (F1, 'a'), (F1 + 1, 'l'), (F1 + 2, 's'), (F1 + 3, 'e')):
        o = z3.If(z3.And(r == s, l == ord(ch)), v(s + 1), o)
    o = z3.If(z3.And(r == ZERO, c == 48), v(ZERO), o)
    lead = z3.If(space(c), v(LEAD), z3.If(l == ord('n'), v(N1), z3.If(l == ord('f'), v(F1), z3.If(c == 48, v(ZERO), v(OTHER)))))
    return z3.If(r == LEAD, lead, z3.If(r == OTHER, v(OTHER), o))


TRUTH = T.fold('truth_state', z3.BitVecSort(8), B8(LEAD), truth_step)
T.settled(TRUTH, lambda t: t == OTHER)


def step_fact(b, n):
    return z3.Implies(z3.ULT(n, blen(b)), prefix(b, n + 1) == snoc(prefix(b, n), T.sel(T.arrof(b), n)))


def verify_bool(E):
    V.error_models(E)
    FA.strings(E)
    ctype(E)
    st = State()
    p = E.new_obj(st, 'text', size=32)
    b = z3.Const('text', T.Bytes)
    st.assume(z3.ULT(blen(b), 1 << 40))
    E.gput(st, p, GStr(b))

    def temps(E, L):
        out = []

        def cands(get):
            def known(which):
                def f(s):
                    n = bv(get(s))
                    nxt = TRUTH(prefix(b, n + 1))
                    return z3.And(z3.ULE(n, blen(b)), step_fact(b, n), which(s, TRUTH(prefix(b, n)), nxt, n))
                return f
            out.append(('spaces so far', known(lambda s, t, x, n: z3.And(t == LEAD, x == x))))
            out.append(('zeros so far', known(lambda s, t, x, n: t == ZERO)))
            ch = lambda n: T.sel(T.arrof(b), n)
            out.append(('false and then spaces', known(lambda s, t, x, n: z3.And(t != LEAD, t != OTHER, z3.Implies(z3.ULT(n, blen(b)), x == z3.If(space(ch(n)), B8(TAIL), B8(OTHER)))))))
            for i in L.phi_ids:
                if L.phi_ty[i] == 'i32':
                    for first, last in ((N1, N2), (F1, F5)):
                        def g(s, i=i, first=first, last=last):
                            k = bv(s.frames[L.depth - 1].regs[i], 32)
                            n = bv(get(s))
                            return z3.And(z3.ULE(n, blen(b)), step_fact(b, n), z3.ULE(k, last - first), TRUTH(prefix(b, n)) == z3.Extract(7, 0, k) + first)
                        out.append(('letters so far', g))
        for o, c in list(L.entry.mem.items()):
            for off, (size, v) in c.cells.items():
                if size == 8 and isinstance(v, Ptr) and E.objs[v.obj].name == 'characters':
                    cands(lambda s, o=o, off=off: E.load(s, Ptr(o, off), 8, 'ptr').off)
        for i in L.phi_ids:
            if L.phi_ty[i] == 'ptr':
                cands(lambda s, i=i: s.frames[L.depth - 1].regs[i].off)
        return out
    E.loop_templates.append(temps)
    n = 0
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find('ParseBool(%s const&)' % STR)[0], st, [p]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'ParseBool succeeds')
        if kind == 'ret':
            t = TRUTH(b)
            E.oblige(s, V.tob(r) == z3.Or(t == LEAD, t == OTHER), PID, 'a text is false if it says no, false (or starts them) or zero')
    E.oblige(st, n > 0, PID, 'ParseBool returns')


# ------------------------------------------------------------------ format of an input
NONE = 256


def first_step(r, b, c):
    return z3.If(z3.And(r == NONE, z3.Not(space(c))), z3.ZeroExt(8, c), r)


FIRST = T.fold('first_visible', z3.BitVecSort(16), z3.BitVecVal(NONE, 16), first_step)
T.settled(FIRST, lambda t: t != NONE)


def verify_format(E):
    V.error_models(E)
    ctype(E)
    st = State()
    S = z3.Const('input', T.Bytes)
    total = blen(S)
    st.assume(z3.ULT(total, 1 << 31))
    buf = E.new_obj(st, 'available input', size=total, const=True)
    st.mem[buf.obj] = OC({}, ((0, total, T.arrof(S)),))

    def getptr(E, st, a, inst):
        """the bytes not released: at least as many as asked for unless the input ends before"""
        want = z3.ZeroExt(32, bv(E.load(st, a[1], 4, 'i32'), 32))
        n = E.fresh('i32', 'available')
        N = z3.ZeroExt(32, n)
        end = st.copy()
        end.assume(total == 0)
        E.store(end, a[1], 4, 0, 'i32')
        st.assume(n != 0, z3.ULE(N, total), z3.Or(z3.UGE(N, want), N == total))
        E.store(st, a[1], 4, n, 'i32')
        o = [Out(st, buf)]
        if E.feasible(end):
            o.append(Out(end, NULL))
        return o

    def release(E, st, a, inst):
        E.oblige(st, bv(a[1], 32) == 0, PID, 'guessing takes no input')
    inp = abstract_object(E, st, NS + 'ParserInput', {r'::GetPtr\(': getptr, r'::Release\(': release})

    def temps(E, L):
        out = []
        for i in L.phi_ids:
            if L.phi_ty[i] == 'i32':
                def f(s, i=i):
                    n = z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32))
                    return z3.And(z3.ULE(n, total), FIRST(prefix(S, n)) == NONE, step_fact(S, n), FIRST(prefix(S, n + 1)) == FIRST(prefix(S, n + 1)))
                out.append(('only white space so far', f))

                def g(s, i=i):
                    return z3.Implies(z3.ULT(z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32)), total), FIRST(prefix(S, z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32)) + 1)) != 300)
                out.append(('next character', g))
        for o, c in list(L.entry.mem.items()):
            for off, (size, v) in c.cells.items():
                if size == 4 and E.objs[o].kind != 'afn':
                    out.append(('length', lambda s, o=o, off=off: z3.ULE(z3.ZeroExt(32, bv(E.load(s, Ptr(o, off), 4, 'i32'), 32)), total)))
        return out
    E.loop_templates.append(temps)
    n = 0
    ser = lambda x: enum(E.P, NS + 'SerializeType', x)
    first = FIRST(S)
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(NS + 'GuessFormat(%sParserInput*)' % NS)[0], st, [inp]):
        n += 1
        if kind == 'exc':
            E.oblige(s, first == NONE, PID, 'an input that shows something is guessed')
            continue
        r = bv(r, 32)
        E.oblige(s, z3.Implies(total != 0, first != NONE), PID, 'white space alone is refused')
        E.oblige(s, (r == ser('SERIALIZE_XMLPLIST')) == (first == ord('<')), PID, 'a less-than sign means XML')
        E.oblige(s, z3.Or(r == ser('SERIALIZE_XMLPLIST'), r == ser('SERIALIZE_YAML')), PID, 'anything else means YAML')
    E.oblige(st, n > 0, PID, 'GuessFormat returns')


# ------------------------------------------------------------------ type of a plain scalar
GROUPS = {'null': 2, 'true': 3, 'false': 4, 'int10': 5, 'int8': 6, 'int16': 7, 'float': 8, 'inf': 14, 'nan': 15}
NUMBER = z3.Function('integer_text', T.BV64, z3.BitVecSort(8), z3.BitVecSort(128))      # value of the digits at an offset
DOUBLE = z3.Function('float_text', T.BV64, z3.FPSort(11, 53))


def verify_scalar(E):
    V.error_models(E)
    st = State()
    n = z3.BitVec('length', 32)
    arr = z3.Const('value', T.ARR)
    val = E.new_obj(st, 'value', size=z3.ZeroExt(32, n) + 1, const=True)
    st.mem[val.obj] = OC({}, ((0, E.objs[val.obj].size, arr),))
    st.assume(z3.ULT(n, 1 << 30))
    matches = z3.Bool('matches')
    so = {g: z3.BitVec('start_%s' % g, 32) for g in GROUPS}
    for g in so:
        st.assume(z3.Or(so[g] == z3.BitVecVal(-1, 32), z3.And(so[g] >= 0, z3.ULT(so[g], n))))
    SER = 34

    def regexec(E, st, a, call):
        E.oblige(st, same(a[1], val), PID, 'the scalar is matched')
        for g, k in GROUPS.items():
            E.put(st, E.padd(a[3], 8 * k), 4, so[g])
            E.put(st, E.padd(a[3], 8 * k + 4), 4, E.fresh('i32', 'end'))
        return simp2(z3.If(matches, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))

    def errno(st):
        k = ('errno',)
        if k not in st.ghost:
            st.ghost[k] = E.new_obj(st, 'errno', size=4, init='sym')
        return st.ghost[k]

    def convert(signed):
        def f(E, st, a, call):
            E.oblige(st, a[0].obj == val.obj, PID, 'digits of the scalar are converted')
            E.oblige(st, isc(a[2]), PID, 'base of a number')
            v = NUMBER(bv(a[0].off), z3.BitVecVal(a[2], 8))
            lo = z3.BitVecVal(-(1 << 63), 128) if signed else z3.BitVecVal(-((1 << 64) - 1), 128)
            hi = z3.BitVecVal((1 << 63) - 1 if signed else (1 << 64) - 1, 128)
            st.assume(v >= -(1 << 100), v <= 1 << 100)
            fits = z3.And(v >= lo, v <= hi)
            e = errno(st)
            old = bv(E.load(st, e, 4, 'i32'), 32)
            E.put(st, e, 4, z3.If(fits, old, z3.BitVecVal(SER, 32)))
            lim = z3.If(v > hi, z3.Extract(63, 0, hi), z3.Extract(63, 0, lo if signed else hi))
            return z3.If(fits, z3.Extract(63, 0, v), lim)
        return f

    def strtod(E, st, a, call):
        E.oblige(st, a[0].obj == val.obj, PID, 'digits of the scalar are converted')
        return DOUBLE(bv(a[0].off))
    pattern(E, r'regexec', regexec)
    pattern(E, r'(__isoc23_)?strtoll', convert(True))
    pattern(E, r'(__isoc23_)?strtoull', convert(False))
    pattern(E, r'strtod', strtod)
    pattern(E, r'libvariant::\(anonymous namespace\)::GuessRegex::GuessRegex\(\)', lambda E, st, a, call: None)
    pattern(E, r'__cxa_guard_acquire', lambda E, st, a, call: 0)
    st.ghost['events'] = ()
    anchor = E.new_obj(st, 'anchor', size=8)
    tag = E.new_obj(st, 'tag', size=8)
    parser = E.new_obj(st, 'parser', size=8)

    def event(name):
        def f(E, st, a, inst):
            st.ghost['events'] = st.ghost['events'] + ((name,) + tuple(a[1:]),)
            return None
        return f
    kinds = {r'::Scalar\(.*ParserImpl\*, double': 'double', r'::Scalar\(.*ParserImpl\*, char const\*, unsigned int': 'text', r'::Scalar\(.*ParserImpl\*, bool': 'bool', r'::Null\(': 'null',
             r'::Scalar\(.*ParserImpl\*, long,': 'int', r'::Scalar\(.*ParserImpl\*, unsigned long': 'unsigned', r'::(?!~)': 'other'}
    act = abstract_object(E, st, NS + 'ParserActions', {k: event(v) for k, v in kinds.items()})
    E.cover(st, 'precondition')
    F = E.P.find([f.dem for f in E.P.fns.values() if f.dem.startswith(NS + 'GuessScalar(')][0])[0]
    cnt = 0
    isg = {}
    before = z3.Not(matches)
    for g in sorted(GROUPS, key=GROUPS.get):
        isg[g] = z3.And(z3.Not(before), so[g] != z3.BitVecVal(-1, 32))
        before = z3.Or(before, so[g] != z3.BitVecVal(-1, 32))
    text = z3.Not(z3.Or(*isg.values()))
    for kind, s, r in E.run_function(F, st, [val, n, anchor, tag, parser, act]):
        cnt += 1
        E.oblige(s, kind == 'ret', PID, 'guessing succeeds')
        if kind != 'ret':
            continue
        ev = s.ghost['events']
        E.oblige(s, len(ev) == 1, PID, 'one event for a scalar')
        if len(ev) != 1:
            continue
        ev = ev[0]
        E.oblige(s, ev[1] == parser and ev[-2] == anchor and ev[-1] == tag, PID, 'the event carries parser, anchor and tag')
        k = ev[0]
        off = lambda g: z3.SignExt(32, so[g])
        v = NUMBER(off('int10'), z3.BitVecVal(10, 8))
        s.assume(v >= -(1 << 100), v <= 1 << 100)
        smin, smax, umax = (z3.BitVecVal(x, 128) for x in (-(1 << 63), (1 << 63) - 1, (1 << 64) - 1))
        insig = z3.And(v >= smin, v <= smax)
        if k == 'text':
            E.oblige(s, text, PID, 'text is what is nothing else')
            E.oblige(s, z3.And(same(ev[2], val), bv(ev[3], 32) == n), PID, 'text is the whole scalar')
        elif k == 'null':
            E.oblige(s, isg['null'], PID, 'null is written null')
        elif k == 'bool':
            E.oblige(s, z3.If(V.tob(ev[2]), isg['true'], isg['false']), PID, 'true and false are written so')
        elif k == 'int':
            E.oblige(s, z3.And(isg['int10'], v <= smax), PID, 'a signed integer is one that fits or is too small')
            E.oblige(s, bv(ev[2]) == z3.If(insig, z3.Extract(63, 0, v), z3.BitVecVal(-(1 << 63), 64)), PID, 'a signed integer has the value of its digits or the nearest')
        elif k == 'unsigned':
            x = bv(ev[2])
            E.oblige(s, z3.Or(isg['int8'], isg['int16'], z3.And(isg['int10'], v > smax)), PID, 'an unsigned integer is octal, hexadecimal or too large for a signed one')
            for g, base in (('int10', 10), ('int8', 8), ('int16', 16)):
                w = NUMBER(off(g), z3.BitVecVal(base, 8))
                E.oblige(s, z3.Implies(z3.And(isg[g], w >= 0), x == z3.If(w <= umax, z3.Extract(63, 0, w), z3.BitVecVal(-1, 64))), PID, 'an unsigned integer has the value of its digits or the nearest, base %d' % base)
        elif k == 'double':
            neg = T.sel(arr, off('inf')) == 45
            E.oblige(s, z3.Or(isg['float'], isg['inf'], isg['nan']), PID, 'a floating point number is written so')
            d = ev[2]
            E.oblige(s, z3.Implies(isg['float'], d == DOUBLE(off('float'))), PID, 'a floating point number has the value of its text')
            E.oblige(s, z3.Implies(isg['inf'], z3.And(z3.fpIsInf(d), z3.fpIsNegative(d) == neg)), PID, 'infinity has its sign')
            E.oblige(s, z3.Implies(isg['nan'], z3.fpIsNaN(d)), PID, 'not a number')
        else:
            E.oblige(s, False, PID, 'a scalar event')
    E.oblige(st, cnt > 0, PID, 'guessing returns')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, f):
        return Task('guess: ' + name, fn, (), props=(PID,), safety=PID, funcs=[f])
    return [t('ParseBool', verify_bool, 'ParseBool'), t('GuessFormat', verify_format, NS + 'GuessFormat'), t('GuessScalar', verify_scalar, NS + 'GuessScalar')]
