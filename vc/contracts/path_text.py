"""Contracts for paths as text (src/Path.cc).

Reading is specified as an automaton over the characters (before a step, in a key, behind a backslash, in an index), writing as a fold over the
steps of the path. That a path written as text is read as the same path is a lemma over both, by induction over the path and over the characters
of its keys."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, app, blen
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, OSS
from ..facade import text
from .. import facade as FA
from .. import variants as V
from ..variants import NS, PE, it_get, sym_path
from .json_emit import DEC_U, const_cstr

TU = ['src/Path.cc']
PID = 'P13'
DQ = 'std::deque<%s, std::allocator<%s>>' % (PE, PE)
PARSE_FN = NS + 'ParsePath(%s&, %s const&)' % (DQ, STR)
PARSE_NEW = NS + 'ParsePath(%s const&)' % STR
TEXT_FN = NS + 'PathString[abi:cxx11](%s const&)' % DQ
B8 = lambda c: z3.BitVecVal(ord(c), 8)
BV32 = z3.BitVecSort(32)

P_ = z3.Datatype('Steps')
P_.declare('none')
P_.declare('key', ('before_key', P_), ('name', T.Bytes))
P_.declare('index', ('before_index', P_), ('number', BV32))
Steps = P_.create()
S_ = z3.Datatype('Reading')
S_.declare('at', ('steps', Steps), ('part', T.Bytes), ('mode', z3.BitVecSort(8)))
Reading = S_.create()
START, KEY, ESCAPE, INDEX, BAD = range(5)
NUMOK = z3.Function('is_number_in_range', T.Bytes, z3.BoolSort())
NUM = z3.Function('number_read', T.Bytes, BV32)


def at(steps, part, mode):
    return Reading.at(steps, part, z3.BitVecVal(mode, 8))


def step(r, c):
    """one character of the text of a path"""
    s, f, m = Reading.steps(r), Reading.part(r), Reading.mode(r)
    go = {
        START: z3.If(c == B8('/'), at(s, nil, KEY), z3.If(c == B8('['), at(s, nil, INDEX), at(s, snoc(nil, c), KEY))),
        KEY: z3.If(c == B8('/'), at(Steps.key(s, f), nil, KEY), z3.If(c == B8('['), at(Steps.key(s, f), nil, INDEX), z3.If(c == B8('\\'), at(s, f, ESCAPE), at(s, snoc(f, c), KEY)))),
        ESCAPE: at(s, snoc(f, c), KEY),
        INDEX: z3.If(c == B8(']'), z3.If(NUMOK(f), at(Steps.index(s, NUM(f)), nil, START), at(s, f, BAD)), at(s, snoc(f, c), INDEX))}
    out = r
    for k, v in go.items():
        out = z3.If(m == k, v, out)
    return out


BEFORE = z3.Const('steps_before', Steps)
READ = T.fold('path_read', Reading, at(BEFORE, nil, START), lambda r, b, c: step(r, c))
# an index that is no number is refused whatever follows
T.settled(READ, lambda r: Reading.mode(r) == BAD)


def finished(r):
    """the path at the end of its text"""
    f = Reading.part(r)
    return z3.If(f == nil, Reading.steps(r), Steps.key(Reading.steps(r), f))


def escape(B, c):
    return z3.If(z3.Or(*[c == B8(x) for x in '/[]\\']), snoc(snoc(B, B8('\\')), c), snoc(B, c))


ESC = T.fold_from('path_escape', escape)
# the first i steps of the path that is written, and their text
STEPS = z3.Function('first_steps', T.BV64, Steps)
WRITTEN = z3.Function('text_of_steps', T.BV64, T.Bytes)


def defined(i, iskey, name, number):
    """step number i"""
    n = z3.ZeroExt(32, number)
    return z3.And(STEPS(i + 1) == z3.If(iskey, Steps.key(STEPS(i), name), Steps.index(STEPS(i), number)),
                  WRITTEN(i + 1) == z3.If(iskey, ESC(snoc(WRITTEN(i), B8('/')), name), snoc(app(snoc(WRITTEN(i), B8('[')), DEC_U(n)), B8(']'))))


def prefix(b, n):
    return cat(nil, T.arrof(b), bv(0), n)


def next_fact(b, n):
    return z3.Implies(z3.ULT(n, blen(b)), prefix(b, n + 1) == snoc(prefix(b, n), T.sel(T.arrof(b), n)))


class GSteps:
    """a path that is read"""
    SIZE = 80

    def __init__(self, p):
        self.p = p

    def gsame(self, o):
        return isinstance(o, GSteps) and self.p.eq(o.p)

    def havoc(self, E, st, name, others):
        return GSteps(z3.FreshConst(Steps, name))


class GOut:
    """a stream that collects text"""
    SIZE = 8

    def __init__(self, b):
        self.b = b

    def gsame(self, o):
        return isinstance(o, GOut) and self.b.eq(o.b)

    def havoc(self, E, st, name, others):
        return GOut(E.fresh('bytes', name))


class GIn:
    SIZE = 8

    def __init__(self, b):
        self.b = b

    def gsame(self, o):
        return isinstance(o, GIn) and self.b.eq(o.b)

    def havoc(self, E, st, name, others):
        return GIn(E.fresh('bytes', name))


def base(E):
    V.error_models(E)
    FA.setup(E)
    FA.strings(E)
    E.what = NULL
    st = State()
    st.ghost['refused'] = False
    return st


def arg(E, st, name):
    b = z3.Const(name, T.Bytes)
    st.assume(z3.ULT(blen(b), 1 << 31))
    p = E.new_obj(st, name, size=32)
    E.gput(st, p, GStr(b))
    return p, b


def read_models(E, st):
    """the path under construction, and numbers read from text (trusted: the conversion by the stream)"""
    table = E.new_obj(st, 'table', size=32, cells={0: (8, 0)})
    E.result = E.new_obj(st, 'result of reading a number', size=16, cells={0: (8, Ptr(table.obj, 24)), 8: (1, 0)})

    def push(E, st, a, call):
        g = E.gget(st, a[0], GSteps)
        iskey = simp(bv(E.load(st, a[1], 4, 'i32'), 32) == 1)
        if iskey is not True and iskey is not False:
            raise Unsupported('kind of a step')
        E.gput(st, a[0], GSteps(Steps.key(g.p, text(E, st, E.padd(a[1], 8))) if iskey else Steps.index(g.p, bv(E.load(st, E.padd(a[1], 4), 4, 'i32'), 32))))
    D = re.escape(DQ) + '::'
    pattern(E, D + r'(push_back|emplace_back(<.*>)?)\(.*\)', push)
    pattern(E, D + r'deque\(\)', lambda E, st, a, call: E.gput(st, a[0], GSteps(Steps.none)))
    pattern(E, D + r'deque\(%s( const)?&&?\)' % re.escape(DQ), lambda E, st, a, call: E.gput(st, a[0], E.gget(st, a[1], GSteps)))
    pattern(E, D + r'~deque\(\)', lambda E, st, a, call: None)
    I = r'std::(__cxx11::)?basic_istringstream<char, .*>::'
    pattern(E, I + r'basic_istringstream\(%s const&, std::_Ios_Openmode\)' % STR, lambda E, st, a, call: E.gput(st, a[0], GIn(text(E, st, a[1]))))
    pattern(E, I + r'~basic_istringstream\(\)', lambda E, st, a, call: None)

    def number(E, st, a, call):
        t = E.gget(st, a[0], GIn).b
        regs = st.frames[-1].regs.values()
        st.ghost['places'] = [r.off for r in regs if isinstance(r, Ptr) and z3.is_expr(r.off)] + [r for r in regs if z3.is_bv(r) and r.size() == 64]
        E.put(st, a[1], 4, z3.If(NUMOK(t), NUM(t), z3.FreshConst(BV32, 'other')))
        E.put(st, E.padd(E.result, 8), 1, z3.If(NUMOK(t), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        return E.result
    pattern(E, r'std::(basic_)?istream(<char, .*>)?::operator>>\(unsigned int&\)', number)
    pattern(E, STR + r' std::operator\+<.*>\(.*\)', lambda E, st, a, call: E.gput(st, a[0], GStr(E.fresh('bytes', 'message'))))
    ok = lambda E, st, a: bv(E.load(st, E.padd(a[0], 8), 1, 'i8'), 8) != 0
    pattern(E, r'std::basic_ios<char, .*>::operator!\(\) const', lambda E, st, a, call: simp(z3.Not(ok(E, st, a))))
    pattern(E, r'std::basic_ios<char, .*>::operator bool\(\) const', lambda E, st, a, call: simp(ok(E, st, a)))
    pattern(E, r'std::basic_ios<char, .*>::fail\(\) const', lambda E, st, a, call: simp(z3.Not(ok(E, st, a))))


def verify_parse(E):
    st = base(E)
    read_models(E, st)
    p, b = arg(E, st, 'path_text')
    dq = E.new_obj(st, 'path', size=80)
    E.gput(st, dq, GSteps(BEFORE))

    def temps(E, L):
        out = []
        regs = L.entry.frames[L.depth - 1].regs
        places = []
        for i in L.phi_ids:
            if L.phi_ty[i] in ('ptr', 'i64', 'i32'):
                def n(s, i=i):
                    q = s.frames[L.depth - 1].regs[i]
                    return bv(q.off) if isinstance(q, Ptr) else z3.ZeroExt(32, bv(q, 32)) if L.phi_ty[i] == 'i32' else bv(q)
                places.append(n)
        strings = [o for o, c in L.entry.mem.items() if o != p.obj and 0 in c.cells and isinstance(c.cells[0][1], GStr)]
        for n in places:
            R = lambda s, n=n: READ(prefix(b, n(s)))
            out.append(('within the text', lambda s, n=n: z3.And(z3.ULE(n(s), blen(b)), next_fact(b, n(s)))))
            out.append(('no index was refused', lambda s, R=R: z3.ULT(Reading.mode(R(s)), BAD)))
            out.append(('the steps so far', lambda s, R=R: E.gget(s, dq, GSteps).p == Reading.steps(R(s))))
            for o in strings:
                out.append(('the part so far', lambda s, R=R, o=o: text(E, s, Ptr(o, 0)) == Reading.part(R(s))))
            for i in L.phi_ids:
                if L.phi_ty[i] in ('i8', 'i1', 'i32'):
                    w = int(L.phi_ty[i][1:])
                    for ms in ((START,), (KEY,), (ESCAPE,), (INDEX,), (KEY, ESCAPE), (START, INDEX)):
                        def f(s, i=i, ms=ms, R=R, w=w):
                            v = s.frames[L.depth - 1].regs[i]
                            v = v if isinstance(v, bool) else v if z3.is_bool(v) else bv(v, w) != 0
                            return v == z3.Or(*[Reading.mode(R(s)) == m for m in ms])
                        out.append(('mode', f))
        return out
    E.loop_templates.append(temps)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(PARSE_FN)[0], st, [dq, p]):
        k += 1
        end = READ(b)
        if kind == 'ret':
            E.oblige(s, Reading.mode(end) != BAD, PID, 'an index that is no number is refused')
            E.oblige(s, z3.Implies(z3.Or(Reading.mode(end) == START, Reading.mode(end) == KEY), E.gget(s, dq, GSteps).p == finished(end)), PID, 'the steps are those of the text')
        else:
            # (a refused start of the text makes the whole text refused)
            starts = [z3.And(z3.ULT(n, blen(b)), next_fact(b, n), Reading.mode(READ(prefix(b, n + 1))) == BAD) for n in s.ghost.get('places', [])]
            E.oblige(s, z3.Or(Reading.mode(end) == BAD, *starts), PID, 'only an index that is no number is refused')
        E.oblige(s, text(E, s, p) == b, PID, 'the text is not changed')
    E.oblige(st, k > 0, PID, 'returns')


def verify_new(E):
    st = base(E)
    read_models(E, st)
    p, b = arg(E, st, 'path_text')
    got = z3.Const('steps_read', Steps)

    def parse(E, st, a, call):
        E.oblige(st, z3.And(E.gget(st, a[0], GSteps).p == Steps.none, text(E, st, a[1]) == b), PID, 'the whole text, from the start')
        bad = st.copy()
        bad.ghost['refused'] = True
        E.gput(st, a[0], GSteps(got))
        return [Out(st, None), Out(bad, exc=Exc('_ZTISt13runtime_error', NULL))]
    E.summaries[PARSE_FN] = parse
    ret = E.new_obj(st, 'result', size=80)
    k = 0
    for kind, s, r in E.run_function(E.P.find(PARSE_NEW)[0], st, [ret, p]):
        k += 1
        E.oblige(s, (kind == 'exc') == s.ghost['refused'], PID, 'refused exactly if reading is')
        if kind == 'ret':
            E.oblige(s, E.gget(s, ret, GSteps).p == got, PID, 'what was read is returned')
    E.oblige(st, k > 0, PID, 'returns')


def verify_text(E):
    st = base(E)
    V.path_models(E)
    dq, g = sym_path(E, st, 'path')
    N = bv(g.seq.n)
    IT = r'std::_Deque_iterator<%s, %s( const)?&, %s( const)?\*>' % (PE, PE, PE)

    def deref(E, st, a, call):
        c = it_get(E, st, a[0])
        E.oblige(st, z3.ULT(bv(c.off), N), 'memory', 'path iterator at the end is dereferenced')
        return element(st, bv(c.off))

    def element(st, i):
        el = g.seq.elem(E, st, i)
        k = text(E, st, E.padd(el, 8))
        st.assume(defined(bv(i), bv(E.load(st, el, 4, 'i32'), 32) == 1, k, bv(E.load(st, E.padd(el, 4), 4, 'i32'), 32)), z3.ULT(blen(k), 1 << 31))
        return el
    pattern(E, IT + r'::operator(->|\*)\(\) const', deref)
    pattern(E, re.escape(DQ) + r'::(operator\[\]|at)\(unsigned long\)( const)?', lambda E, st, a, call: (E.oblige(st, z3.ULT(bv(a[1]), N), 'memory', 'path element out of range'), element(st, bv(a[1])))[1])
    st.assume(STEPS(bv(0)) == Steps.none, WRITTEN(bv(0)) == nil)

    def put(f):
        def h(E, st, a, call):
            E.gput(st, a[0], GOut(f(E, st, E.gget(st, a[0], GOut).b, a[1])))
            return a[0]
        return h

    def lits(E, st, B, p):
        for c in const_cstr(E, st, p):
            B = snoc(B, z3.BitVecVal(c if isinstance(c, int) else ord(c), 8))
        return B
    S = r'std::(basic_)?ostream(<char, std::char_traits<char>>)?'
    O = r'std::basic_ostream<char, std::char_traits<char>>& std::operator<<<.*>\(std::basic_ostream<char, std::char_traits<char>>&, '
    pattern(E, OSS + r'::basic_(o|i)?stringstream\(\)', lambda E, st, a, call: E.gput(st, a[0], GOut(nil)))
    pattern(E, OSS + r'::~basic_(o|i)?stringstream\(\)', lambda E, st, a, call: None)
    pattern(E, OSS + r'::str\(\) const', lambda E, st, a, call: E.gput(st, a[0], GStr(E.gget(st, a[1], GOut).b)))
    pattern(E, O + r'char const\*\)', put(lits))
    pattern(E, O + r'char\)', put(lambda E, st, B, c: snoc(B, bv(c, 8))))
    pattern(E, O + STR + r' const&\)', put(lambda E, st, B, p: app(B, text(E, st, p))))
    pattern(E, S + r'::operator<<\(unsigned int\)', put(lambda E, st, B, x: app(B, DEC_U(z3.ZeroExt(32, bv(x, 32))))))
    pattern(E, S + r'::operator<<\(unsigned long\)', put(lambda E, st, B, x: app(B, DEC_U(bv(x)))))

    def temps(E, L):
        out = []
        mem = L.entry.mem
        outs = [o for o, c in mem.items() if 0 in c.cells and isinstance(c.cells[0][1], GOut)]
        its = [o for o, c in mem.items() if 0 in c.cells and isinstance(c.cells[0][1], Ptr) and c.cells[0][1].obj == g.obj.obj]
        phis = [(i, int(L.phi_ty[i][1:])) for i in L.phi_ids if L.phi_ty[i] in ('i32', 'i64')]
        num = lambda s, i, w: z3.ZeroExt(64 - w, bv(s.frames[L.depth - 1].regs[i], w)) if w < 64 else bv(s.frames[L.depth - 1].regs[i])
        where = [lambda s, o=o: bv(E.load(s, Ptr(o, 0), 8, 'ptr').off) for o in its] + [lambda s, i=i, w=w: num(s, i, w) for i, w in phis]
        for n in where:
            out.append(('a place in the path', lambda s, n=n: z3.ULE(n(s), N)))
            for o in outs:
                out.append(('the steps so far are written', lambda s, n=n, o=o: E.gget(s, Ptr(o, 0), GOut).b == WRITTEN(n(s))))
                for i, w in phis:
                    def f(s, n=n, o=o, i=i, w=w):
                        k = text(E, s, E.padd(g.seq.elem(E, s, simp2(n(s))), 8))
                        j = num(s, i, w)
                        return z3.And(z3.ULE(j, blen(k)), next_fact(k, j), E.gget(s, Ptr(o, 0), GOut).b == ESC(snoc(WRITTEN(n(s)), B8('/')), prefix(k, j)))
                    out.append(('the characters so far are written', f))
        return out
    E.loop_templates.append(temps)
    ret = E.new_obj(st, 'result', size=32)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(TEXT_FN)[0], st, [ret, dq]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'every path has a text')
        if kind == 'ret':
            E.oblige(s, text(E, s, ret) == z3.If(N == 0, snoc(nil, B8('/')), WRITTEN(N)), PID, 'the text has every step of the path')
    E.oblige(st, k > 0, PID, 'returns')


def verify_lemma(E, part):
    """a path written as text is read as the same path"""
    st = State()
    B, k, f, t = (z3.Const(n, T.Bytes) for n in ('B', 'k', 'f', 't'))
    q = z3.Const('q', Steps)
    c = z3.BitVec('c', 8)
    i = z3.BitVec('i', 64)
    st.assume(BEFORE == Steps.none)
    rd = lambda b, s, p, m: READ(b) == at(s, p, m)
    digit = lambda c: z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    if part == 'key':
        # in a key, the escaped characters of a name are read as its characters: by induction over the name
        st.assume(rd(B, q, f, KEY))
        E.oblige(st, rd(ESC(B, nil), q, app(f, nil), KEY), PID, 'no character')
        st.assume(rd(ESC(B, k), q, app(f, k), KEY))
        E.oblige(st, rd(ESC(B, snoc(k, c)), q, app(f, snoc(k, c)), KEY), PID, 'one character more')
    elif part == 'index':
        # in an index, digits are kept: by induction over the digits
        st.assume(rd(B, q, f, INDEX))
        E.oblige(st, rd(app(B, nil), q, app(f, nil), INDEX), PID, 'no digit')
        st.assume(rd(app(B, t), q, app(f, t), INDEX), digit(c))
        E.oblige(st, rd(app(B, snoc(t, c)), q, app(f, snoc(t, c)), INDEX), PID, 'one digit more')
    else:
        # by induction over the steps: what was read after i steps, and after one more
        last, name, number = z3.Bool('last_is_key'), z3.Const('last_name', T.Bytes), z3.BitVec('last_number', 32)
        iskey, nm, nu = z3.Bool('is_key'), z3.Const('name_i', T.Bytes), z3.BitVec('number_i', 32)

        def state(steps, before, iskey, name):
            return z3.If(iskey, at(before, name, KEY), at(steps, nil, START))
        first = part == 'first'
        W = WRITTEN(i)
        st.assume(STEPS(bv(0)) == Steps.none, WRITTEN(bv(0)) == nil, defined(i, iskey, nm, nu))
        if first:
            st.assume(i == 0)
            E.oblige(st, rd(W, Steps.none, nil, START), PID, 'the empty text is the empty path')
        else:
            st.assume(STEPS(i) == z3.If(last, Steps.key(q, name), Steps.index(q, number)))
            st.assume(READ(W) == state(STEPS(i), q, last, name))
        # lemmas above, for this step
        K = snoc(W, B8('/'))
        D = snoc(W, B8('['))
        d = DEC_U(z3.ZeroExt(32, nu))
        kr, dr = READ(K), READ(D)
        E.oblige(st, rd(K, STEPS(i), nil, KEY), PID, 'a slash ends the step before')
        E.oblige(st, rd(D, STEPS(i), nil, INDEX), PID, 'a bracket ends the step before')
        st.assume(rd(ESC(K, nm), Reading.steps(kr), app(Reading.part(kr), nm), KEY))
        # trusted: a number written in decimal consists of digits and is read as that number
        st.assume(rd(app(D, d), Reading.steps(dr), app(Reading.part(dr), d), INDEX), NUMOK(d), NUM(d) == nu)
        st.assume(app(nil, nm) == nm, app(nil, d) == d)
        E.oblige(st, READ(WRITTEN(i + 1)) == state(STEPS(i + 1), STEPS(i), iskey, nm), PID, 'one step more')
        E.oblige(st, z3.Implies(z3.Not(z3.And(iskey, nm == nil)), z3.And(finished(READ(WRITTEN(i + 1))) == STEPS(i + 1), Reading.mode(READ(WRITTEN(i + 1))) != BAD)), PID, 'the path is the same')


def tasks(P, tier):
    from ..run import Task
    t = lambda n, f, a, funcs: Task('path text: ' + n, f, a, props=(PID,), safety=PID, funcs=funcs)
    return [t('ParsePath', verify_parse, (), [PARSE_FN]), t('ParsePath into a new path', verify_new, (), [PARSE_NEW]), t('PathString', verify_text, (), [TEXT_FN])] + \
           [t('lemma, %s' % p, verify_lemma, (p,), []) for p in ('key', 'index', 'first', 'more')]
