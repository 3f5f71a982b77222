"""Contracts for lib/json/JSON_parser.c.

View of a parser object:
  mode stack  M = M0 . m     (bytes of jc->stack[0..top], m the innermost mode)
  lexical state s, pending value type t, parse buffer contents B = jc->parse_buffer[0..count)
The contract of JSON_parser_char is the transition relation of the JSON dialect (SPEC below), stated
independently of the code's tables, plus the representation invariant; JSON_parser_done accepts exactly the
finished document.
"""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, nz
from ..engine import *

TU = ['lib/json/JSON_parser.c']
S = 'JSON_parser_struct'

ARRAY, DONE, KEY, OBJECT = 1, 2, 3, 4
(T_NONE, T_ARRAY_BEGIN, T_ARRAY_END, T_OBJECT_BEGIN, T_OBJECT_END, T_INTEGER, T_UNSIGNED, T_FLOAT, T_NULL, T_TRUE,
 T_FALSE, T_STRING, T_KEY) = range(13)

# the modes below the innermost one: nothing, or DONE followed by arrays and objects
wfm = T.fold('wfm', z3.BoolSort(), z3.BoolVal(True),
             lambda r, b, c: z3.And(r, z3.If(b == nil, c == DONE, z3.Or(c == ARRAY, c == OBJECT))))

scan_ll = z3.Function('scan_signed', T.Bytes, z3.BitVecSort(64))
scan_ull = z3.Function('scan_unsigned', T.Bytes, z3.BitVecSort(64))
scan_d = z3.Function('scan_double', T.Bytes, z3.FPSort(11, 53))

STRING_ST = ['ST', 'ES', 'U1', 'U2', 'U3', 'U4', 'D1', 'D2']
NUM = ['MI', 'ZE', 'IT', 'FX', 'FR', 'E1', 'E2', 'E3']
LITS = ['T1', 'T2', 'T3', 'F1', 'F2', 'F3', 'F4', 'N1', 'N2', 'N3']
STRUCT = ['GO', 'OK', 'OB', 'KE', 'CO', 'VA', 'AR']
COMM = ['C1', 'C2', 'C3']
ALL = STRUCT + STRING_ST + NUM + LITS + COMM


class Names:
    """enumerators and fields of the parser, from the debug information of the current source"""

    def __init__(self, P):
        self.P = P
        e = P.enums
        self.st = {s: e[s] for s in ALL}
        self.e = e
        assert (e['MODE_ARRAY'], e['MODE_DONE'], e['MODE_KEY'], e['MODE_OBJECT']) == (ARRAY, DONE, KEY, OBJECT)
        for i, n in enumerate(['NONE', 'ARRAY_BEGIN', 'ARRAY_END', 'OBJECT_BEGIN', 'OBJECT_END', 'INTEGER', 'UNSIGNED',
                               'FLOAT', 'NULL', 'TRUE', 'FALSE', 'STRING', 'KEY']):
            assert e['JSON_T_' + n] == i
        self.off = {m[0]: (m[1], m[2]) for m in P.types[S]['members']}
        self.size = P.types[S]['size']


def models(E):
    def sscanf(E, st, a, call):
        fmt = const_cstr(E, st, a[1])
        p = a[0]
        oc = st.mem[p.obj]
        k = E.find_region(st, p, 1)
        s0, n0, arr = oc.regs[k]
        text = T.cstr(arr, bv(iop('sub', p.off, s0, 64)))
        if fmt in (b'%lld', b'%ld', b'%jd'):
            E.store(st, a[2], 8, scan_ll(text), 'i64')
        elif fmt in (b'%llu', b'%lu', b'%ju'):
            E.store(st, a[2], 8, scan_ull(text), 'i64')
        elif fmt in (b'%d', b'%u'):
            E.store(st, a[2], 4, z3.Extract(31, 0, scan_ll(text)), 'i32')
        else:
            raise Unsupported('sscanf format %r' % fmt)
        return 1

    def strtod(E, st, a, call):
        p = a[0]
        if a[1].obj != 0:
            raise Unsupported('strtod end pointer')
        k = E.find_region(st, p, 1)
        s0, n0, arr = st.mem[p.obj].regs[k]
        return scan_d(T.cstr(arr, bv(iop('sub', p.off, s0, 64))))
    for n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'):
        E.summaries[n] = sscanf
    E.summaries['strtod'] = strtod


def const_cstr(E, st, p):
    out = b''
    while True:
        c = E.load(st, E.padd(p, len(out)), 1, 'i8')
        if not isc(c):
            raise Unsupported('non-constant format string')
        if c == 0:
            return out
        out += bytes([c])


class View:
    """a parser object in the memory of a state"""

    def __init__(self, E, N, jc):
        self.E, self.N, self.jc = E, N, jc

    def f(self, st, name):
        o, n = self.N.off[name]
        return self.E.load(st, Ptr(self.jc.obj, o), n, 'ptr' if name in ('stack', 'parse_buffer', 'callback', 'ctx') else 'i%d' % (8 * n))

    def s64(self, st, name):
        """signed field as a 64-bit term"""
        w = 8 * self.N.off[name][1]
        v = bv(self.f(st, name), w)
        return v if w == 64 else z3.SignExt(64 - w, v)

    def arr(self, st, p):
        k = self.E.find_region(st, p, 1)
        if k is None:
            raise Unsupported('buffer pointer outside a byte region')
        s0, n0, a = st.mem[p.obj].regs[k]
        return a, bv(iop('sub', p.off, s0, 64)), n0

    def stack(self, st):
        a, o, n = self.arr(st, self.f(st, 'stack'))
        top = self.s64(st, 'top')
        return a, o, n, top

    def modes(self, st):
        """(modes below the innermost, innermost mode)"""
        a, o, n, top = self.stack(st)
        return cat(nil, a, o, top), T.sel(a, simp2(o + top))

    def buf(self, st):
        a, o, n = self.arr(st, self.f(st, 'parse_buffer'))
        c = bv(self.f(st, 'parse_buffer_count'))
        return a, o, n, c

    def B(self, st):
        a, o, n, c = self.buf(st)
        return cat(nil, a, o, c)

    def at(self, st, i):
        """byte of the parse buffer at index i"""
        a, o, n, c = self.buf(st)
        return T.sel(a, simp2(o + i))


def setup(E, N, state, stack_heap, buf_heap):
    """an arbitrary parser object satisfying the invariant in lexical state `state`"""
    st = State()
    regs = []
    o1, n1 = N.off['static_stack']
    o2, n2 = N.off['static_parse_buffer']
    regs = ((o1, n1, z3.Const('static_stack', T.ARR)), (o2, n2, z3.Const('static_buffer', T.ARR)))
    jc = E.new_obj(st, 'parser', size=N.size, init='sym', regs=regs)
    E.protect = jc

    def put(name, v):
        o, n = N.off[name]
        E.put(st, Ptr(jc.obj, o), n, v)
    cb = E.new_obj(st, 'callback', kind='afn', handler=callback(N))
    put('callback', cb)
    ctx = E.new_obj(st, 'ctx', size=None)
    put('ctx', ctx)
    put('state', N.st[state] & 0xff)
    put('depth', (1 << 8 * N.off['depth'][1]) - 1)
    put('allow_comments', 1)
    put('handle_floats_manually', 0)
    if stack_heap:
        w = 8 * N.off['stack_capacity'][1]
        cap = z3.BitVec('stack_capacity', w)
        st.assume(cap >= n1, cap <= 1 << 29)
        sp = E.buffer(st, 'stack', cap if w == 64 else z3.SignExt(64 - w, cap), z3.Const('heap_stack', T.ARR), heap=True)
        put('stack_capacity', cap)
    else:
        sp = Ptr(jc.obj, o1)
        put('stack_capacity', n1)
    put('stack', sp)
    if buf_heap:
        bc = z3.BitVec('buffer_capacity', 64)
        st.assume(z3.UGE(bc, n2), z3.ULE(bc, 1 << 40))
        bp = E.buffer(st, 'buffer', bc, z3.Const('heap_buffer', T.ARR), heap=True)
        put('parse_buffer_capacity', bc)
    else:
        bc = z3.BitVecVal(n2, 64)
        bp = Ptr(jc.obj, o2)
        put('parse_buffer_capacity', n2)
    put('parse_buffer', bp)
    for n, w in (('top', 32), ('before_comment_state', 8), ('type', 8), ('escaped', 8), ('comment', 8), ('utf16_high_surrogate', 16),
                 ('parse_buffer_count', 64), ('decimal_point', 8), ('comment_begin_offset', 64)):
        if n in N.off:
            put(n, z3.BitVec(n, N.off[n][1] * 8))
    st.ghost['events'] = Events(())
    V = View(E, N, jc)
    st.assume(*[c for _, c in inv(E, N, V, st, state)])
    return st, V


class Events:
    """the callback events of one step"""

    def __init__(self, l):
        self.l = l

    def gsame(self, o):
        return self is o


def callback(N):
    def h(E, st, args, inst):
        ctx, ty, val = args
        ev = [ty, None]
        if isc(ty) and ty in (T_INTEGER, T_UNSIGNED) or not isc(ty):
            pass
        E.cbargs.append((ty, val))
        st.ghost['events'] = Events(st.ghost['events'].l + ((ty, snapshot(E, N, st, ty, val)),))
        r = E.fresh('i32', 'callback_result')
        st.ghost['cb'] = st.ghost.get('cb', ()) + (r,)
        return r
    return h


def snapshot(E, N, st, ty, val):
    """payload seen by the callback"""
    if val.obj == 0:
        return None
    out = {}
    oc = st.mem[val.obj]
    out['i'] = oc.cells.get(val.off)
    c = oc.cells.get(val.off)
    if c is not None and isinstance(c[1], Ptr):
        ln = oc.cells[val.off + 8][1]
        k = E.find_region(st, c[1], 1)
        s0, n0, a = st.mem[c[1].obj].regs[k]
        o = bv(iop('sub', c[1].off, s0, 64))
        out['text'] = cat(nil, a, o, bv(ln))
        out['nul'] = T.sel(a, simp2(o + bv(ln))) == 0
    return out


def ishex(c):
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)))


def inv(E, N, V, st, state):
    """representation invariant of a parser in lexical state `state`: [(label, cond)]"""
    out = []
    sa, so, sn, top = V.stack(st)
    M0, m = V.modes(st)
    cap = V.s64(st, 'stack_capacity')
    ba, bo, bn, cnt = V.buf(st)
    bcap = bv(V.f(st, 'parse_buffer_capacity'))
    B = V.B(st)
    ty = bv(V.f(st, 'type'), 8)
    hi = bv(V.f(st, 'utf16_high_surrogate'), 16)
    esc, com = bv(V.f(st, 'escaped'), 8), bv(V.f(st, 'comment'), 8)
    A = lambda l, c: out.append((l, c))
    A('mode stack within its capacity', z3.And(top >= 0, top < cap, cap <= bv(sn)))
    A('mode stack well formed', z3.And(wfm(M0), (M0 == nil) == (m == DONE), (top == 0) == (M0 == nil)))
    A('parse buffer within its capacity', z3.And(z3.ULT(cnt, bcap), z3.ULE(bcap, bv(bn))))
    A('parse buffer terminated', V.at(st, cnt) == 0)

    def modes(s):
        if s == 'GO':
            return m == DONE
        if s == 'OK':
            return z3.And(z3.Or(m == DONE, m == ARRAY, m == OBJECT), z3.Implies(ty != T_NONE, m != DONE))
        if s in ('OB', 'KE', 'CO'):
            return m == KEY
        if s == 'AR':
            return m == ARRAY
        if s in STRING_ST:
            return z3.Or(m == KEY, m == ARRAY, m == OBJECT)
        return z3.Or(m == ARRAY, m == OBJECT)
    if state in COMM:
        bc = bv(V.f(st, 'before_comment_state'), 8)
        A('comment returns to a token boundary', z3.Or(*[z3.And(bc == N.st[s], modes(s)) for s in STRUCT]))
        A('comment flag', com != 0)
    else:
        A('mode fits the lexical state', modes(state))
        A('comment flag', com == 0)
    A('escape flag', (esc != 0) if state == 'ES' else (esc == 0))
    if state in STRING_ST:
        A('type', ty == T_STRING)
    elif state == 'OK':
        A('type', z3.Or(ty == T_NONE, *[ty == t for t in (T_INTEGER, T_UNSIGNED, T_FLOAT, T_NULL, T_TRUE, T_FALSE)]))
    elif state == 'MI':
        A('type', ty == T_INTEGER)
    elif state in ('ZE', 'IT'):
        A('type', z3.Or(ty == T_INTEGER, ty == T_UNSIGNED))
    elif state in ('FX', 'FR', 'E1', 'E2', 'E3'):
        A('type', ty == T_FLOAT)
    elif state in LITS:
        A('type', ty == {'T': T_TRUE, 'F': T_FALSE, 'N': T_NULL}[state[0]])
    else:
        A('type', ty == T_NONE)
    number = z3.Or(ty == T_INTEGER, ty == T_UNSIGNED, ty == T_FLOAT)
    if state in NUM:
        A('number text non-empty', z3.And(nz(B), cnt != 0))
    elif state == 'OK':
        A('pending text', z3.And(z3.Implies(number, nz(B)), z3.Implies(ty == T_NONE, cnt == 0)))
    elif state in STRUCT or state in COMM:
        A('no pending text', cnt == 0)
    if state == 'D1' or state == 'D2':
        A('high surrogate pending', z3.And(z3.UGE(hi, 0xd800), z3.ULE(hi, 0xdbff)))
    elif state in ('U1', 'U2', 'U3', 'U4'):
        A('high surrogate', z3.Or(hi == 0, z3.And(z3.UGE(hi, 0xd800), z3.ULE(hi, 0xdbff))))
    else:
        A('high surrogate', hi == 0)
    tail = {'ES': 1, 'D2': 1, 'U1': 2, 'U2': 3, 'U3': 4, 'U4': 5}.get(state, 0)
    if tail:
        c = [z3.UGE(cnt, tail), V.at(st, cnt - tail) == 0x5c]
        if tail >= 2:
            c.append(V.at(st, cnt - tail + 1) == 0x75)
        for j in range(2, tail):
            c.append(ishex(V.at(st, cnt - tail + j)))
        A('pending escape', z3.And(*c))
    if 'decimal_point' in N.off:
        dp = V.f(st, 'decimal_point')
        A('decimal point', bv(dp, N.off['decimal_point'][1] * 8) != 0)
    return out


TAIL = {'ES': 1, 'D2': 1, 'U1': 2, 'U2': 3, 'U3': 4, 'U4': 5}


# ------------------------------------------------------------------ the dialect, independent of the tables
def ch(c, s):
    return z3.Or(*[c == ord(x) for x in s])


def rng(c, a, b):
    return z3.And(c >= ord(a), c <= ord(b))


def WS(c):
    return ch(c, ' \t\n\r')


def digit(c):
    return rng(c, '0', '9')


def known_char(c):
    """characters that may occur in a document at all"""
    return z3.Or(c >= 32, ch(c, '\t\n\r'))


def transitions(state, m, bstate, hi, code):
    """[(guard(c), action)] for lexical state `state`; everything else is rejected.
    action = (next state | None, operation, mode operation)"""
    G = []

    def a(g, nxt, op='keep', mode=None):
        G.append((g, nxt, op, mode))
    c = code
    if state in ('GO', 'OB', 'KE', 'CO', 'VA', 'AR'):
        a(WS(c), state, 'skip')
        a(ch(c, '/'), 'C1', 'comment')
    if state == 'GO':
        a(ch(c, '['), 'AR', 'begin', ARRAY)
        a(ch(c, '{'), 'OB', 'begin', KEY)
    elif state == 'OB':
        a(ch(c, '"'), 'ST', 'string')
        a(ch(c, '}'), 'OK', 'end', KEY)
    elif state == 'KE':
        a(ch(c, '"'), 'ST', 'string')
    elif state == 'CO':
        a(ch(c, ':'), 'VA', 'colon')
    if state in ('VA', 'AR'):
        a(ch(c, '['), 'AR', 'begin', ARRAY)
        a(ch(c, '{'), 'OB', 'begin', KEY)
        a(ch(c, '"'), 'ST', 'string')
        a(ch(c, '-'), 'MI', 'num', T_INTEGER)
        a(ch(c, '0'), 'ZE', 'num', T_UNSIGNED)
        a(rng(c, '1', '9'), 'IT', 'num', T_UNSIGNED)
        a(ch(c, 't'), 'T1', 'lit', T_TRUE)
        a(ch(c, 'f'), 'F1', 'lit', T_FALSE)
        a(ch(c, 'n'), 'N1', 'lit', T_NULL)
    if state == 'AR':
        a(ch(c, ']'), 'OK', 'end', ARRAY)
    if state in ('OK', 'ZE', 'IT', 'FR', 'FX', 'E3'):
        a(WS(c), 'OK', 'ws')
        a(ch(c, '/'), 'C1', 'comment')
        a(z3.And(ch(c, '}'), m == OBJECT), 'OK', 'end', OBJECT)
        a(z3.And(ch(c, ']'), m == ARRAY), 'OK', 'end', ARRAY)
        a(z3.And(ch(c, ','), m == ARRAY), 'VA', 'comma', ARRAY)
        a(z3.And(ch(c, ','), m == OBJECT), 'KE', 'comma', KEY)
    if state == 'MI':
        a(ch(c, '0'), 'ZE', 'append')
        a(rng(c, '1', '9'), 'IT', 'append')
    if state in ('ZE', 'IT'):
        a(ch(c, '.'), 'FX', 'point')
        a(ch(c, 'eE'), 'E1', 'float')
    if state == 'IT':
        a(digit(c), 'IT', 'append')
    if state in ('FX', 'FR'):
        a(digit(c), 'FR', 'append')
        a(ch(c, 'eE'), 'E1', 'append')
    if state == 'E1':
        a(ch(c, '+-'), 'E2', 'append')
        a(digit(c), 'E3', 'append')
    if state in ('E2', 'E3'):
        a(digit(c), 'E3', 'append')
    for w, pre in (('rue', 'T'), ('alse', 'F'), ('ull', 'N')):
        if state in LITS and state[0] == pre:
            k = int(state[1])
            a(ch(c, w[k - 1]), 'OK' if k == len(w) else '%s%d' % (pre, k + 1), 'litc')
    if state == 'ST':
        a(z3.And(c >= 32, z3.Not(ch(c, '"\\'))), 'ST', 'append')
        a(ch(c, '\\'), 'ES', 'raw')
        a(z3.And(ch(c, '"'), m == KEY), 'CO', 'strend', KEY)
        a(z3.And(ch(c, '"'), m != KEY), 'OK', 'strend')
    if state == 'ES':
        a(ch(c, 'bfnrt"\\/'), 'ST', 'unescape')
        a(ch(c, 'u'), 'U1', 'raw')
    if state == 'D1':
        a(ch(c, '\\'), 'D2', 'raw')
    if state == 'D2':
        a(ch(c, 'u'), 'U1', 'raw')
    hexd = z3.Or(digit(c), rng(c, 'a', 'f'), rng(c, 'A', 'F'))
    for k in (1, 2, 3):
        if state == 'U%d' % k:
            a(hexd, 'U%d' % (k + 1), 'raw')
    if state == 'U4':
        a(hexd, None, 'unicode')
    if state == 'C1':
        a(ch(c, '*'), 'C2', 'incomment')
    if state == 'C2':
        a(ch(c, '*'), 'C3', 'incomment')
        a(z3.And(known_char(c), z3.Not(ch(c, '*'))), 'C2', 'incomment')
    if state == 'C3':
        a(ch(c, '*'), 'C3', 'incomment')
        a(ch(c, '/'), None, 'endcomment')
        a(z3.And(known_char(c), z3.Not(ch(c, '*/'))), 'C2', 'incomment')
    return G


def unesc(c):
    r = z3.BitVecVal(0, 8)
    for k, v in (('b', 8), ('f', 12), ('n', 10), ('r', 13), ('t', 9), ('"', 34), ('\\', 92), ('/', 47)):
        r = z3.If(c == ord(k), z3.BitVecVal(v, 8), r)
    return r


def hexval(b):
    x = z3.ZeroExt(24, b)
    return z3.If(z3.ULE(b, 57), x - 48, z3.If(z3.ULE(b, 70), x - 55, x - 87))


def utf8(S0, u):
    """S0 followed by the UTF-8 encoding of the 32-bit scalar u"""
    def b(e):
        return z3.Extract(7, 0, e)
    one = snoc(S0, b(u))
    two = snoc(snoc(S0, b(0xc0 | z3.LShR(u, 6))), b(0x80 | (u & 0x3f)))
    three = snoc(snoc(snoc(S0, b(0xe0 | z3.LShR(u, 12))), b(0x80 | (z3.LShR(u, 6) & 0x3f))), b(0x80 | (u & 0x3f)))
    four = snoc(snoc(snoc(snoc(S0, b(0xf0 | z3.LShR(u, 18))), b(0x80 | (z3.LShR(u, 12) & 0x3f))), b(0x80 | (z3.LShR(u, 6) & 0x3f))),
                b(0x80 | (u & 0x3f)))
    return z3.If(z3.ULT(u, 0x80), one, z3.If(z3.ULT(u, 0x800), two, z3.If(z3.ULT(u, 0x10000), three, four)))


def verify_char(E, state, stack_heap, buf_heap):
    """JSON_parser_char from lexical state `state`"""
    P = E.P
    N = Names(P)
    models(E)
    F = P.find('JSON_parser_char')[0]
    st, V = setup(E, N, state, stack_heap, buf_heap)
    E.cbargs = []
    code = z3.BitVec('next_char', 32)
    st.assume(code >= 0, code <= 255)
    pre = st.copy()
    E.cover(pre, 'JSON_parser_char precondition in state %s' % state)
    M0, m = V.modes(pre)
    B0 = V.B(pre)
    a0, o0, n0, cnt0 = V.buf(pre)
    ty0 = bv(V.f(pre, 'type'), 8)
    tail = TAIL.get(state, 0)
    S0 = cat(nil, a0, o0, cnt0 - tail) if tail else B0    # decoded text so far
    hi0 = bv(V.f(pre, 'utf16_high_surrogate'), 16)
    bst = bv(V.f(pre, 'before_comment_state'), 8)
    c8 = z3.Extract(7, 0, code)
    dp = z3.Extract(7, 0, bv(V.f(pre, 'decimal_point'), 32)) if N.off['decimal_point'][1] == 4 else bv(V.f(pre, 'decimal_point'), 8) \
        if N.off['decimal_point'][1] == 1 else z3.Extract(7, 0, V.f(pre, 'decimal_point'))
    TR = transitions(state, m, bst, hi0, code)
    # surrogate conditions for a completed \uXXXX
    if state == 'U4':
        u = z3.BitVecVal(0, 32)
        for j in range(2, 5):
            u = (u << 4) | hexval(V.at(pre, cnt0 - tail + j))
        u = (u << 4) | hexval(c8)
        hi32 = z3.ZeroExt(16, hi0)
        ish = z3.And(z3.UGE(u, 0xd800), z3.ULE(u, 0xdbff))
        isl = z3.And(z3.UGE(u, 0xdc00), z3.ULE(u, 0xdfff))
        uni_ok = z3.If(hi0 != 0, isl, z3.Not(isl))
        pair = ((hi32 & 0x3ff) << 10) + (u & 0x3ff) + 0x10000
        scalar = z3.If(hi0 != 0, pair, u)
        uni_wait = z3.And(hi0 == 0, ish)
    res = E.run_function(F, st, [V.jc, code])
    accept_any = z3.Or(*[z3.And(g, uni_ok) if op == 'unicode' else g for g, nx, op, mo in TR])
    for kind, s, ret in res:
        if kind != 'ret':
            E.oblige(s, False, 'exception', 'exception escapes')
            continue
        r = bv(ret, 32)
        evs = s.ghost['events'].l
        cbs = s.ghost.get('cb', ())
        cbok = z3.And(*[x != 0 for x in cbs]) if cbs else z3.BoolVal(True)
        if s.mem[V.jc.obj].freed:
            E.oblige(s, False, 'memory', 'parser freed')
            continue
        # acceptance
        E.oblige(s, (r != 0) == z3.And(accept_any, cbok), 'P02', 'accepts exactly the characters the grammar allows in state %s' % state)
        acc = s.copy()
        acc.assume(r != 0)
        if not E.feasible(acc):
            if state == 'GO' or state in COMM:
                # a rejected character before the document starts leaves the parser as it was
                rj = s
                unchanged(E, N, V, pre, rj, state)
            continue
        if state == 'GO' or state in COMM:
            rj = s.copy()
            rj.assume(r == 0)
            if E.feasible(rj) and not cbs:
                unchanged(E, N, V, pre, rj, state)
        ns = V.f(acc, 'state')
        for g, nx, op, mo in TR:
            for g2, nx2, op2 in split_case(state, g, nx, op, locals()):
                q = acc.copy()
                q.assume(g2)
                if not E.feasible(q):
                    continue
                check_case(E, N, V, pre, q, state, nx2, op2, mo, evs, dict(M0=M0, m=m, B0=B0, S0=S0, ty0=ty0, c8=c8, dp=dp, bst=bst,
                                                                         u=locals().get('u'), scalar=locals().get('scalar'), ns=ns))


def split_case(state, g, nx, op, L):
    if op == 'unicode':
        return [(z3.And(g, L['uni_wait']), 'D1', 'unihigh'), (z3.And(g, L['uni_ok'], z3.Not(L['uni_wait'])), 'ST', 'unichar')]
    if op == 'endcomment':
        N = L['N']
        return [(z3.And(g, L['bst'] == N.st[s]), s, 'endcomment') for s in STRUCT]
    return [(g, nx, op)]


def unchanged(E, N, V, pre, s, state):
    M0, m = V.modes(pre)
    M1, m1 = V.modes(s)
    E.oblige(s, bv(V.f(s, 'state'), 8) == N.st[state], 'P02', 'rejected character before a document keeps the lexical state')
    E.oblige(s, z3.And(M1 == M0, m1 == m), 'P02', 'rejected character before a document keeps the nesting')
    for l, c in inv(E, N, V, s, state):
        E.oblige(s, c, 'P01', 'after a rejected character before a document: ' + l)


def check_case(E, N, V, pre, q, state, nx, op, mo, evs, k):
    M0, m, B0, S0, ty0, c8, dp = k['M0'], k['m'], k['B0'], k['S0'], k['ty0'], k['c8'], k['dp']
    E.oblige(q, bv(k['ns'], 8) == N.st[nx], 'P02', 'state %s, %s: next lexical state is %s' % (state, op, nx))
    for l, c in inv(E, N, V, q, nx):
        E.oblige(q, c, 'P01', 'invariant after %s in state %s: %s' % (op, state, l))
    M1, m1 = V.modes(q)
    # nesting
    if op == 'begin':
        E.oblige(q, z3.And(M1 == snoc(M0, m), m1 == mo), 'P02', 'state %s: a bracket opens one level' % state)
    elif op == 'end':
        E.oblige(q, snoc(M1, m1) == M0, 'P02', 'state %s: a bracket closes one level' % state)
    elif op == 'colon':
        E.oblige(q, z3.And(M1 == M0, m1 == OBJECT), 'P02', 'a colon leads to the member value')
    elif op == 'comma':
        E.oblige(q, z3.And(M1 == M0, m1 == mo), 'P02', 'state %s: a comma leads to the next member' % state)
    else:
        E.oblige(q, z3.And(M1 == M0, m1 == m), 'P02', 'state %s, %s: nesting unchanged' % (state, op))
    # text
    B1 = V.B(q)
    want = None
    if op in ('append',):
        want = snoc(B0, c8)
    elif op == 'num':
        want = snoc(nil, c8)
    elif op == 'point':
        want = snoc(B0, dp)
    elif op == 'float':
        want = snoc(B0, c8)
    elif op == 'raw':
        if state == 'ST' or state == 'D1':
            want = snoc(S0, 0x5c)
        elif state in ('ES', 'D2'):
            want = snoc(snoc(S0, 0x5c), 0x75)
        else:
            want = snoc(B0, c8)
    elif op == 'unescape':
        want = snoc(S0, unesc(c8))
    elif op == 'string':
        want = nil
    elif op == 'unichar':
        want = utf8(S0, k['scalar'])
    elif op == 'unihigh':
        want = S0
    if want is not None:
        E.oblige(q, B1 == want, 'P03' if state in STRING_ST or op == 'string' else 'P02', 'state %s, %s: text read so far' % (state, op))
    if op == 'unihigh':
        E.oblige(q, z3.ZeroExt(16, bv(V.f(q, 'utf16_high_surrogate'), 16)) == k['u'], 'P03', 'high surrogate remembered')
    if op == 'ws':
        # trailing white space after a number may be kept, nothing else
        E.oblige(q, z3.Or(B1 == B0, z3.And(ty0 != T_NONE, B1 == snoc(B0, c8))), 'P02', 'state %s: white space does not change the text' % state)
    ty1 = bv(V.f(q, 'type'), 8)
    tw = {'num': mo, 'lit': mo, 'point': T_FLOAT, 'float': T_FLOAT, 'string': T_STRING}.get(op)
    if tw is not None:
        E.oblige(q, ty1 == tw, 'P02', 'state %s, %s: kind of the value' % (state, op))
    elif op in ('append', 'raw', 'unescape', 'unichar', 'unihigh', 'litc', 'ws', 'skip', 'incomment'):
        E.oblige(q, ty1 == ty0, 'P02', 'state %s, %s: kind of the value unchanged' % (state, op))
    if op == 'comment':
        back = state if state in ('GO', 'OB', 'KE', 'CO', 'VA', 'AR') else 'OK'
        E.oblige(q, bv(V.f(q, 'before_comment_state'), 8) == N.st[back], 'P02', 'state %s: after a comment the text continues where it was' % state)
    elif op == 'incomment':
        E.oblige(q, bv(V.f(q, 'before_comment_state'), 8) == k['bst'], 'P02', 'state %s: comment keeps its return state' % state)
    # events
    exp = []
    if op in ('comma', 'comment') or (op == 'end' and state not in ('AR', 'OB')):
        exp.append('value')
    if op == 'end':
        exp.append(T_ARRAY_END if mo == ARRAY else T_OBJECT_END)
    if op == 'begin':
        exp.append(T_ARRAY_BEGIN if mo == ARRAY else T_OBJECT_BEGIN)
    if op == 'strend':
        exp.append('string')
    check_events(E, N, V, pre, q, state, op, mo, exp, list(evs), k)


def check_events(E, N, V, pre, q, state, op, mo, exp, evs, k):
    """exp: expected events; 'value' = the pending scalar, if any"""
    B0, ty0 = k['B0'], k['ty0']
    lab = 'state %s, %s: ' % (state, op)

    def emit_pending(q, ev):
        ty, pay = ev
        t = bv(ty, 32)
        E.oblige(q, t == z3.SignExt(24, ty0), 'P02', lab + 'the pending value is reported with its kind')
        for tt in (T_INTEGER, T_UNSIGNED, T_FLOAT):
            s = q.copy()
            s.assume(ty0 == tt)
            if not E.feasible(s):
                continue
            if pay is None or pay.get('i') is None:
                E.oblige(s, False, 'P02', lab + 'a number event carries its value')
                continue
            size, v = pay['i']
            if tt == T_FLOAT:
                if not isinstance(v, z3.FPRef):
                    E.oblige(s, False, 'P02', lab + 'a float event carries a double')
                else:
                    E.oblige(s, v == scan_d(B0), 'P02', lab + 'value of the number read')
            else:
                if not isinstance(v, (int, z3.BitVecRef)) or size != 8:
                    E.oblige(s, False, 'P02', lab + 'an integer event carries a 64-bit integer')
                else:
                    E.oblige(s, bv(v) == (scan_ll if tt == T_INTEGER else scan_ull)(B0), 'P02', lab + 'value of the integer read')
    cases = [(q, exp)]
    if 'value' in exp:
        i = exp.index('value')
        a = q.copy()
        a.assume(ty0 == T_NONE)
        b = q.copy()
        b.assume(ty0 != T_NONE)
        cases = [(a, exp[:i] + exp[i + 1:]), (b, exp)]
    for s, ex in cases:
        if not E.feasible(s):
            continue
        E.oblige(s, len(evs) == len(ex), 'P02', lab + 'number of events is %d' % len(ex))
        if len(evs) != len(ex):
            continue
        for ev, x in zip(evs, ex):
            if x == 'value':
                emit_pending(s, ev)
            elif x == 'string':
                want = T_KEY if mo == KEY else T_STRING
                E.oblige(s, bv(ev[0], 32) == want, 'P02', lab + 'a finished string is reported')
                if ev[1] is None or 'text' not in ev[1]:
                    E.oblige(s, False, 'P03', lab + 'a string event carries its text')
                else:
                    E.oblige(s, ev[1]['text'] == B0, 'P03', lab + 'text of the string')
                    E.oblige(s, ev[1]['nul'], 'P03', lab + 'string text is zero terminated')
            else:
                E.oblige(s, bv(ev[0], 32) == x, 'P02', lab + 'structural event')


def tasks(P, tier):
    from ..run import Task
    out = []
    for s in ['IT', 'OK', 'FR', 'E3', 'ZE', 'FX', 'U4'] + [x for x in ALL if x not in ('IT', 'OK', 'FR', 'E3', 'ZE', 'FX', 'U4')]:
        for sh in (False, True):
            for bh in (False, True):
                out.append(Task('JSON_parser_char in state %s, %s stack, %s buffer' % (s, 'heap' if sh else 'static', 'heap' if bh else 'static'),
                                verify_char, (s, sh, bh), props=('P01', 'P02', 'P03') if s in STRING_ST + ['OB', 'KE', 'VA', 'AR'] else ('P01', 'P02'), safety='P01', funcs=['JSON_parser_char']))
    return out
