"""Contracts for src/JSONParser.cc (feeding the character parser, relaying its events) and for creating, finishing and
deleting a character parser."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat
from ..engine import *
from ..lib import *
from . import json_parser as J

TU = ['src/JSONParser.cc', 'lib/json/JSON_parser.c']
IMPL = 'libvariant::JSONParserImpl'
PARSE = IMPL + '::Parse()'
CALLBACK = IMPL + '::StaticCallback(void*, int, JSON_value_struct const*)'
RUN = IMPL + '::Run()'


def impl_object(E, st, status, stack=None):
    P = E.P
    impl = E.new_obj(st, 'impl', size=P.types[IMPL]['size'], init='sym')
    F = Fields(E, IMPL, impl)
    F.put(st, 'status', status)
    for n in ('line', 'column', 'charcount', 'depth'):
        F.put(st, n, z3.BitVec('impl_' + n, 32))
    jc = E.new_obj(st, 'json_parser', size=None)
    F.put(st, 'parser', jc)
    F.put(st, 'action_stack', GDeque(z3.BitVec('actions', 64), stack), 80)
    return impl, F, jc


def setup_parse(E):
    P = E.P
    st = State()
    ST = {n: enum(P, IMPL + '::Status_t', n) for n in ('S_START', 'S_BEGIN', 'S_OK', 'S_ERROR', 'S_END', 'S_DONE')}
    status = z3.BitVec('status', 32)
    impl, F, jc = impl_object(E, st, status)
    st.assume(z3.Or(status == ST['S_BEGIN'], z3.And(status == ST['S_OK'], F.term(st, 'depth') != 0)))

    st.ghost['fed'] = z3.Const('fed0', T.Bytes)
    st.ghost['released'] = st.ghost['fed']
    st.ghost['chunk'] = None
    st.ghost['rejected'] = z3.BoolVal(False)   # a character was rejected inside the document, or the end was
    st.ghost['accepted'] = z3.BoolVal(False)   # JSON_parser_done accepted

    def getptr(E, st, a, inst):
        E.oblige(st, st.ghost['chunk'] is None, 'P06', 'input is released before more is asked for')
        lenp = a[1]
        eof = st.copy()
        E.store(eof, lenp, 4, E.fresh('i32', 'eof_len'), 'i32')
        n = E.fresh('i32', 'chunk_len')
        st.assume(n != 0)
        E.store(st, lenp, 4, n, 'i32')
        buf = E.new_obj(st, 'chunk', size=z3.ZeroExt(32, n), const=True)
        arr = E.fresh('arr', 'chunk')
        st.mem[buf.obj] = OC({}, ((0, E.objs[buf.obj].size, arr),))
        st.ghost['chunk'] = buf
        return [Out(st, buf), Out(eof, NULL)]

    def release(E, st, a, inst):
        b = st.ghost['chunk']
        E.oblige(st, b is not None, 'P06', 'only acquired input is released')
        if b is None:
            raise PathEnd()
        n = a[1]
        size, arr = E.objs[b.obj].size, st.mem[b.obj].regs[0][2]
        N = z3.ZeroExt(32, bv(n, 32))
        E.oblige(st, z3.ULE(N, size), 'P06', 'no more input is released than was acquired')
        st.ghost['released'] = cat(st.ghost['released'], arr, bv(0), N)
        st.ghost['chunk'] = None
        return None
    inp = abstract_object(E, st, 'libvariant::ParserInput', {r'::GetPtr\(': getptr, r'::Release\(': release})
    ip = F.ptr('input')
    E.put(st, ip, 8, inp)
    deque_models(E, r'std::shared_ptr<libvariant::ParserActions>')

    def char(E, st, a, call):
        E.oblige(st, same(a[0], jc), 'P02', 'characters go to this parser')
        c = bv(a[1], 32)
        E.oblige(st, z3.And(c >= 0, c <= 255), 'P02', 'characters are passed as unsigned bytes')
        s0 = F.term(st, 'status')
        E.oblige(st, z3.Or(s0 == ST['S_BEGIN'], z3.And(s0 == ST['S_OK'], F.term(st, 'depth') != 0)), 'P02',
                 'nothing is fed after the document ended or failed')
        st.ghost['fed'] = snoc(st.ghost['fed'], z3.Extract(7, 0, c))
        # effect through the callback: the status moves from BEGIN to OK with the first event; nesting depth and handlers change
        exc = st.copy()
        F.put(exc, 'status', ST['S_ERROR'])
        s1 = E.fresh('i32', 'status')
        r = E.fresh('i32', 'char_ok')
        d1 = E.fresh('i32', 'depth')
        st.assume(z3.Or(s1 == s0, z3.And(s0 == ST['S_BEGIN'], s1 == ST['S_OK'])))
        st.assume(z3.Implies(z3.And(s0 == ST['S_BEGIN'], s1 == s0), d1 == F.term(st, 'depth')))
        F.put(st, 'status', s1)
        F.put(st, 'depth', d1)
        F.put(st, 'action_stack', GDeque(E.fresh('i64', 'actions')), 80)
        st.ghost['rejected'] = z3.Or(st.ghost['rejected'], z3.And(r == 0, s1 == ST['S_OK']))
        return [Out(st, r), Out(exc, None, Exc('_ZTISt13runtime_error'))]

    def done(E, st, a, call):
        E.oblige(st, same(a[0], jc), 'P02', 'the right parser is finished')
        r = E.fresh('i32', 'done_ok')
        st.ghost['accepted'] = z3.Or(st.ghost['accepted'], r != 0)
        st.ghost['rejected'] = z3.Or(st.ghost['rejected'], r == 0)
        return r
    E.summaries['JSON_parser_char'] = char
    E.summaries['JSON_parser_done'] = done

    def tmpl(E, L):
        out = []
        out.append(('status/depth', lambda s: z3.Or(F.term(s, 'status') == ST['S_BEGIN'],
                                                    z3.And(F.term(s, 'status') == ST['S_OK'], F.term(s, 'depth') != 0),
                                                    z3.And(F.term(s, 'status') == ST['S_ERROR'], s.ghost['rejected']),
                                                    z3.And(F.term(s, 'status') == ST['S_END'], s.ghost['accepted']))))
        out.append(('verdict', lambda s: z3.Implies(s.ghost['rejected'], F.term(s, 'status') == ST['S_ERROR'])))
        out.append(('verdict2', lambda s: z3.Implies(s.ghost['accepted'], F.term(s, 'status') == ST['S_END'])))
        out.append(('released', lambda s: s.ghost['fed'] == s.ghost['released']))
        return out
    E.loop_templates.append(tmpl)
    return st, impl, F, ST


def verify_parse(E):
    F0 = E.P.find(PARSE)[0]
    st, impl, F, ST = setup_parse(E)
    E.cover(st, 'JSONParserImpl::Parse precondition')
    pre = st.copy()
    n = 0
    for kind, s, v in E.run_function(F0, st, [impl]):
        n += 1
        stt = F.term(s, 'status')
        if kind == 'exc':
            E.oblige(s, stt == ST['S_ERROR'], 'P02', 'an exception from a handler leaves the parser in the error state')
            continue
        E.oblige(s, s.ghost['chunk'] is None, 'P06', 'all acquired input is released')
        E.oblige(s, s.ghost['fed'] == s.ghost['released'], 'P06', 'exactly the consumed bytes are fed to the parser, in order, whatever the chunking')
        E.oblige(s, (stt == ST['S_END']) == s.ghost['accepted'], 'P02', 'the document ends successfully exactly when the character parser accepts it')
        E.oblige(s, (stt == ST['S_ERROR']) == s.ghost['rejected'], 'P02', 'parsing fails exactly when a character or the end of input is rejected')
        E.oblige(s, z3.Or(stt == ST['S_BEGIN'], stt == ST['S_ERROR'], stt == ST['S_END'], z3.And(stt == ST['S_OK'], F.term(s, 'depth') != 0)),
                 'P02', 'parser status stays within its range')
    E.oblige(pre, n > 0, 'P02', 'Parse returns')


EVENTS = {'ARRAY_BEGIN': ('BeginList', 1), 'ARRAY_END': ('EndList', -1), 'OBJECT_BEGIN': ('BeginMap', 1), 'OBJECT_END': ('EndMap', -1),
          'INTEGER': ('int', 0), 'UNSIGNED': ('uint', 0), 'FLOAT': ('double', 0), 'NULL': ('Null', 0), 'TRUE': ('bool', 0), 'FALSE': ('bool', 0),
          'KEY': ('text', 0), 'STRING': ('text', 0)}


def verify_callback(E, ev):
    """StaticCallback relays event ev to the top action handler"""
    P = E.P
    st = State()
    ST = {n: enum(P, IMPL + '::Status_t', n) for n in ('S_START', 'S_BEGIN', 'S_OK', 'S_ERROR', 'S_END', 'S_DONE')}
    log = []

    def h(what):
        def f(E, st, a, inst):
            ex = st.copy()
            st.ghost['calls'] = st.ghost['calls'].add((what, list(a[1:]), snapshot(E, st, what, a)))
            return [Out(st, None), Out(ex, None, Exc('_ZTISt13runtime_error'))]
        return f

    def snapshot(E, st, what, a):
        if what == 'text':
            p, n = a[2], bv(a[3], 32)
            k = E.find_region(st, p, 1)
            s0, n0, arr = st.mem[p.obj].regs[k]
            return cat(nil, arr, bv(iop('sub', p.off, s0, 64)), z3.ZeroExt(32, n))
        if what == 'blob':
            return E.load(st, a[2], 8, 'ptr')
        return None
    act = abstract_object(E, st, 'libvariant::ParserActions', {
        r'::BeginList\(': h('BeginList'), r'::EndList\(': h('EndList'), r'::BeginMap\(': h('BeginMap'), r'::EndMap\(': h('EndMap'),
        r'::Null\(': h('Null'), r'::Scalar\(libvariant::ParserImpl\*, double': h('double'), r'::Scalar\(libvariant::ParserImpl\*, bool': h('bool'),
        r'::Scalar\(libvariant::ParserImpl\*, long': h('int'), r'::Scalar\(libvariant::ParserImpl\*, unsigned long': h('uint'),
        r'::Scalar\(libvariant::ParserImpl\*, char const\*, unsigned': h('text'), r'::Scalar\(libvariant::ParserImpl\*, std::shared_ptr<libvariant::Blob>': h('blob')})
    sp = E.new_obj(st, 'handler pointer', size=16, cells={0: (8, act), 8: (8, NULL)})
    status = z3.BitVec('status', 32)
    impl, F, jc = impl_object(E, st, status, sp)
    st.assume(z3.Or(status == ST['S_BEGIN'], status == ST['S_OK']))
    st.assume(bv(st.mem[impl.obj].cells[F.m['action_stack'][1]][1].n) != 0)
    deque_models(E, r'std::shared_ptr<libvariant::ParserActions>')
    st.ghost['calls'] = Calls(())
    ty = P.enums['JSON_T_' + ev]
    text = None
    if ev in ('KEY', 'STRING'):
        n = z3.BitVec('text_len', 64)
        st.assume(z3.ULE(n, (1 << 31) - 64))
        arr = z3.Const('text', T.ARR)
        buf = E.new_obj(st, 'text', size=simp2(n + 1), const=True)
        st.mem[buf.obj] = OC({}, ((0, E.objs[buf.obj].size, arr),))
        st.assume(T.sel(arr, n) == 0)
        val = E.new_obj(st, 'value', size=16, cells={0: (8, buf), 8: (8, n)})
        text = cat(nil, arr, bv(0), n)
    elif ev in ('INTEGER', 'UNSIGNED'):
        iv = z3.BitVec('number', 64)
        val = E.new_obj(st, 'value', size=16, cells={0: (8, iv)})
    elif ev == 'FLOAT':
        fv = z3.FP('number', FP['double'])
        val = E.new_obj(st, 'value', size=16, cells={0: (8, fv)})
    else:
        val = NULL
    blob_models(E, st)
    E.cover(st, 'StaticCallback precondition for ' + ev)
    pre = st.copy()
    want, dd = EVENTS[ev]
    fn = E.P.find(CALLBACK)[0]
    isblob = z3.BoolVal(False)
    if ev == 'STRING':
        tag = [0, 0x42, 0x4c, 0x4f, 0x42]
        isblob = z3.And(z3.UGE(n, 5), *[T.sel(arr, bv(i)) == c for i, c in enumerate(tag)])
    for kind, s, v in E.run_function(fn, st, [impl, ty, val]):
        calls = s.ghost['calls'].l
        if kind == 'exc':
            E.oblige(s, F.term(s, 'status') == ST['S_ERROR'], 'P02', '%s: a handler exception puts the parser into the error state' % ev)
            continue
        E.oblige(s, bv(v, 32) != 0, 'P02', '%s: the event is accepted' % ev)
        E.oblige(s, F.term(s, 'status') == ST['S_OK'], 'P02', '%s: the first event starts the document' % ev)
        E.oblige(s, F.term(s, 'depth') == F.term(pre, 'depth') + dd, 'P02', '%s: nesting depth follows the brackets' % ev)
        E.oblige(s, len(calls) == 1, 'P02', '%s: exactly one handler call' % ev)
        if len(calls) != 1:
            continue
        w, args, snap = calls[0]
        if ev == 'STRING':
            E.oblige(s, isblob == z3.BoolVal(w == 'blob'), 'P02', 'a string is delivered as text unless it carries the blob marker')
            if w == 'blob':
                b = s.ghost.get('blob')
                E.oblige(s, b is not None and same(snap, b[0]), 'P07', 'the decoded blob is delivered')
                continue
        E.oblige(s, w == want, 'P02', '%s: relayed to the matching handler' % ev)
        E.oblige(s, same(args[0], impl), 'P02', '%s: handler gets this parser' % ev)
        if ev in ('INTEGER', 'UNSIGNED'):
            E.oblige(s, bv(args[1]) == iv, 'P02', '%s: value passed on' % ev)
        elif ev == 'FLOAT':
            E.oblige(s, args[1] == fv, 'P02', '%s: value passed on' % ev)
        elif ev in ('TRUE', 'FALSE'):
            E.oblige(s, tobool(args[1]) if ev == 'TRUE' else bnot(tobool(args[1])), 'P02', '%s: value passed on' % ev)
        elif w == 'text':
            E.oblige(s, snap == text, 'P03', '%s: text passed on unchanged' % ev)
            E.oblige(s, z3.ZeroExt(32, bv(args[2], 32)) == n, 'P03', '%s: text length passed on' % ev)


class Calls:
    def __init__(self, l):
        self.l = l

    def add(self, x):
        return Calls(self.l + (x,))

    def gsame(self, o):
        return self is o


def blob_models(E, st0):
    def memalign(E, st, a, call):
        n = bv(a[2])
        if E.objs.get(a[0].obj) is None:
            raise Unsupported('posix_memalign')
        p = E.new_obj(st, 'aligned', size=n, heap=True)
        st.mem[p.obj] = OC({}, ((0, n, E.fresh('arr', 'aligned')),))
        E.store(st, a[0], 8, p, 'ptr')
        return 0

    def decsize(E, st, a, call):
        # contract of Base64DecodeSize: enough room for decoding a[0] characters
        r = E.fresh('i32', 'decode_size')
        n = bv(a[0], 32)
        st.assume(z3.UGE(z3.ZeroExt(32, r), z3.UDiv(z3.ZeroExt(32, n) * 3, bv(4))))
        return r

    def decode(E, st, a, call):
        dst, src, n = a
        N = z3.ZeroExt(32, bv(n, 32))
        E.check_access(st, src, simp2(N), 'read')
        need = simp2(z3.UDiv(N * 3, bv(4)))
        inf = E.objs[dst.obj]
        E.oblige(st, z3.And(z3.ULE(bv(dst.off), bv(inf.size)), z3.ULE(need, bv(inf.size) - bv(dst.off))), 'memory', 'room for the decoded blob')
        ex = st.copy()
        r = E.fresh('i32', 'decoded')
        st.assume(z3.ULE(z3.ZeroExt(32, r), need))
        st.ghost['decoded'] = Calls(((dst, r, src, n),))
        return [Out(st, r), Out(ex, None, Exc('_ZTISt13runtime_error'))]

    def create(E, st, a, call):
        b = E.new_obj(st, 'blob', size=None, heap=True)
        E.put(st, a[0], 8, b)
        E.put(st, E.padd(a[0], 8), 8, NULL)
        d = st.ghost.get('decoded')
        E.oblige(st, d is not None and same(a[1], d.l[0][0]) and same(a[2], d.l[0][1]), 'P07', 'the blob holds exactly the decoded bytes')
        st.ghost['blob'] = (b,)
        return None

    def memcmp(E, st, a, call):
        n = a[2]
        if not isc(n):
            raise Unsupported('memcmp of symbolic length')
        eq = z3.And(*[bv(E.load(st, E.padd(a[0], i), 1, 'i8'), 8) == bv(E.load(st, E.padd(a[1], i), 1, 'i8'), 8) for i in range(n)])
        return z3.If(eq, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    E.summaries['posix_memalign'] = memalign
    E.summaries['libvariant::Base64DecodeSize(unsigned int)'] = decsize
    E.summaries['libvariant::Base64Decode(void*, char const*, unsigned int)'] = decode
    E.summaries['libvariant::Blob::CreateFree(void*, unsigned int)'] = create
    E.summaries['memcmp'] = memcmp
    pattern(E, r'std::shared_ptr<libvariant::Blob>::(~)?shared_ptr\(.*\)', sp_move)


def sp_move(E, st, a, call):
    if '~' in call.dem:
        return None
    if len(a) == 2:
        E.put(st, a[0], 8, E.load(st, a[1], 8, 'ptr'))
        E.put(st, E.padd(a[0], 8), 8, NULL)
    return None


def verify_new(E):
    """new_JSON_parser with the configuration AllocParser sets up establishes the invariant"""
    P = E.P
    N = J.Names(P)
    st = State()
    Engine.struct_sizes = {N.size: (N.off['static_stack'], N.off['static_parse_buffer'])}
    impl, F, jc = impl_object(E, st, 0)
    fn = P.find(IMPL + '::AllocParser()')[0]
    for kind, s, v in E.run_function(fn, st, [impl]):
        if kind != 'ret':
            E.oblige(s, False, 'exception', 'exception escapes')
            continue
        p = F.get(s, 'parser')
        E.oblige(s, isinstance(p, Ptr) and p.obj != 0, 'P01', 'a parser is created')
        V = J.View(E, N, p)
        E.cover(s, 'AllocParser returns')
        dp = bv(V.f(s, 'decimal_point'), 8 * N.off['decimal_point'][1])
        s.assume(dp != 0)      # a locale has a decimal point
        for l, c in J.inv(E, N, V, s, 'GO'):
            E.oblige(s, c, 'P01', 'new parser: ' + l)
        E.oblige(s, bv(V.f(s, 'state'), 8) == N.st['GO'], 'P02', 'a new parser expects a document')
        M0, m = V.modes(s)
        E.oblige(s, z3.And(M0 == nil, m == J.DONE), 'P02', 'a new parser has no open bracket')
        cb = V.f(s, 'callback')
        E.oblige(s, isinstance(cb, Ptr) and E.objs[cb.obj].kind == 'func' and E.P.fns[E.objs[cb.obj].fn].dem == CALLBACK, 'P02', 'events go to the relay')
        E.oblige(s, same(V.f(s, 'ctx'), impl), 'P02', 'events carry this parser')
        E.oblige(s, bv(V.f(s, 'allow_comments'), 8) != 0, 'P02', 'comments are allowed')
        E.oblige(s, bv(V.f(s, 'handle_floats_manually'), 8) == 0, 'P02', 'numbers are converted')
        w = 8 * N.off['depth'][1]
        E.oblige(s, bv(V.f(s, 'depth'), w) == z3.BitVecVal(-1, w), 'P02', 'nesting is not limited')


def verify_done(E, state):
    P = E.P
    N = J.Names(P)
    for sh in (False, True):
        for bh in (False, True):
            st, V = J.setup(E, N, state, sh, bh)
            M0, m = V.modes(st)
            pre = st.copy()
            E.cover(pre, 'JSON_parser_done precondition')
            for kind, s, v in E.run_function(P.find('JSON_parser_done')[0], st, [V.jc]):
                E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
                E.oblige(s, (bv(v, 32) != 0) == z3.And(state == 'OK', m == J.DONE), 'P02', 'the end is accepted exactly after a complete document (state %s)' % state)


def verify_delete(E):
    P = E.P
    N = J.Names(P)
    for sh in (False, True):
        for bh in (False, True):
            st, V = J.setup(E, N, 'OK', sh, bh)
            E.objs[V.jc.obj].heap = True
            sp, bp = V.f(st, 'stack'), V.f(st, 'parse_buffer')
            for kind, s, v in E.run_function(P.find('delete_JSON_parser')[0], st, [V.jc]):
                E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
                E.oblige(s, s.mem[V.jc.obj].freed, 'P01', 'the parser is freed')
                if sh:
                    E.oblige(s, s.mem[sp.obj].freed, 'P01', 'the mode stack is freed')
                if bh:
                    E.oblige(s, s.mem[bp.obj].freed, 'P01', 'the parse buffer is freed')


def tasks(P, tier):
    from ..run import Task
    out = [Task('JSONParserImpl::Parse', verify_parse, props=('P02', 'P06'), safety='P01', funcs=[PARSE])]
    for e in EVENTS:
        out.append(Task('JSONParserImpl::StaticCallback event %s' % e, verify_callback, (e,), props=('P02', 'P03', 'P07') if e == 'STRING' else ('P02', 'P03') if e == 'KEY' else ('P02',),
                        safety='P01', funcs=[CALLBACK]))
    out.append(Task('new_JSON_parser', verify_new, props=('P01', 'P02'), safety='P01', funcs=['new_JSON_parser', IMPL + '::AllocParser()']))
    for s in J.ALL:
        out.append(Task('JSON_parser_done in state %s' % s, verify_done, (s,), props=('P02',), safety='P01', funcs=['JSON_parser_done']))
    out.append(Task('delete_JSON_parser', verify_delete, props=('P01',), safety='P01', funcs=['delete_JSON_parser']))
    return out
