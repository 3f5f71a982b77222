"""Contracts for XML property lists (src/XMLPLISTEmitter.cc, src/XMLPLISTParser.cc).

The writer is proved to give, for every event, exactly the elements and texts of the format. The reader is proved, node by node, to hand on the
events of the elements. That reading what was written gives the same events is a lemma over both; that libxml2 returns the elements and texts it
was given is assumed here and compared in native/values.cc."""
import re
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, span, str_view
from .. import variants as V
from . import json_emit as JE
from .forms import *

TU = ['src/XMLPLISTEmitter.cc', 'src/XMLPLISTParser.cc']
PID = 'P23'
EM = NS + 'XMLPLISTEmitterImpl'
PA = NS + 'XMLPLISTParserImpl'
NAMES = {'NullNode': b'null', 'RootNode': b'plist', 'TrueNode': b'true', 'FalseNode': b'false', 'IntegerNode': b'integer', 'FloatNode': b'real', 'StringNode': b'string',
         'BlobNode': b'data', 'MapNode': b'dict', 'KeyNode': b'key', 'ListNode': b'array'}


# ------------------------------------------------------------------ writing
def writer(E):
    st = base(E)
    stack_models(E, EM + '::State')
    st.ghost['out'] = Log()
    w = E.new_obj(st, 'writer', size=None)

    def op(f):
        def g(E, st, a, call):
            E.oblige(st, a[0].obj == w.obj, PID, 'the writer of this emitter is used')
            bad = st.copy()
            bad.ghost['failed'] = True
            r = z3.FreshConst(BV32, 'written')
            bad.assume(r < 0)
            st.assume(r >= 0)
            e = f(E, st, a)
            if e:
                st.ghost['out'] = st.ghost['out'].add(*e)
            return [Out(st, r), Out(bad, r)]
        return g
    pattern(E, r'xmlTextWriterStartElement', op(lambda E, st, a: ('start', ctext(E, st, a[1]))))
    pattern(E, r'xmlTextWriterEndElement', op(lambda E, st, a: ('end',)))
    pattern(E, r'xmlTextWriterWriteString', op(lambda E, st, a: ('text', ctext(E, st, a[1]))))
    pattern(E, r'xmlTextWriterEndDocument', op(lambda E, st, a: ('end document',)))
    pattern(E, r'xmlTextWriterFlush', op(lambda E, st, a: ('flush',)))
    pattern(E, r'xmlTextWriterSetIndent', op(lambda E, st, a: None))
    last_error(E)

    def flush(E, st, a, inst):
        bad = raised(E, st)
        st.ghost['out'] = st.ghost['out'].add('flush target')
        return [Out(st, None), bad]

    def write(E, st, a, inst):
        bad = raised(E, st)
        n = z3.FreshConst(BV32, 'written')
        st.ghost['out'] = st.ghost['out'].add('write', a[1], a[2], n)
        return [Out(st, n), bad]
    st_out = abstract_object(E, st, NS + 'EmitterOutput', {r'::Flush\(': flush, r'::Write\(': write}, name='target')
    o = E.new_obj(st, 'emitter', size=E.P.types[EM]['size'])
    f = Fields(E, EM, o)
    return st, o, f, w, st_out


def last_error(E):
    def get(E, st, a, call):
        s = st.copy()
        e = E.new_obj(st, 'error', size=E.P.types['_xmlError']['size'] if '_xmlError' in E.P.types else 88, init='sym')
        m = str_view(E, st, z3.FreshConst(T.Bytes, 'message'))
        E.put(st, E.padd(e, 8), 8, m)
        return [Out(st, e), Out(s, NULL)]
    pattern(E, r'(__)?xmlGetLastError', get)


class Em:
    def __init__(self, E):
        self.E = E
        self.st, self.o, self.f, self.w, self.target = writer(E)
        st, f = self.st, self.f
        self.closed = z3.Bool('closed')
        f.put(st, 'closed', z3.If(self.closed, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        f.put(st, 'pretty', z3.If(z3.Bool('pretty'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        f.put(st, 'indent', z3.BitVec('indent', 32))
        self.precision = z3.BitVec('precision', 32)
        f.put(st, 'precision', self.precision)
        f.put(st, 'writer', self.w)
        E.put(st, f.ptr('output'), 8, self.target)
        E.put(st, E.padd(f.ptr('output'), 8), 8, NULL)
        e = {n: enum(E.P, EM + '::State', n) for n in ('NONE', 'EXPECT_MAP_KEY', 'EXPECT_MAP_VALUE', 'IN_LIST')}
        self.KEY, self.VALUE, self.LIST = [z3.BitVecVal(e[n], 32) for n in ('EXPECT_MAP_KEY', 'EXPECT_MAP_VALUE', 'IN_LIST')]
        self.below, self.top = z3.BitVec('state_below', 32), z3.BitVec('state', 32)
        for x in (self.below, self.top):
            st.assume(z3.Or(*[x == v for v in e.values()]))
        stack(E, st, f.ptr('state'), self.below, self.top)
        # virtual calls on the emitter itself
        def flush(E, st, a, inst):
            E.oblige(st, z3.And(same(a[0], self.o), z3.Not(self.shut(st))), PID, 'an open emitter is flushed')
            bad = raised(E, st)
            st.ghost['out'] = st.ghost['out'].add('flush').add('flush target')
            return [Out(st, None), bad]
        E.put(st, self.o, 8, abstract_vtable(E, st, EM, {r'::Flush\(': flush}))

    def shut(self, s):
        return bv(self.f.get(s, 'closed'), 8) != 0

    def same(self, s, but=()):
        E, f = self.E, self.f
        c = [bv(f.get(s, 'precision'), 32) == self.precision, z3.BoolVal(same(f.get(s, 'writer', 'ptr'), self.w))]
        if 'closed' not in but:
            c.append(self.shut(s) == self.closed)
        return z3.And(*c)


def events_out(E, X, s, want, label):
    """exactly these were written"""
    got = s.ghost['out'].l
    E.oblige(s, len(got) == len(want) and all(g[0] == w[0] for g, w in zip(got, want)), PID, label + ': the elements')
    if len(got) == len(want):
        for g, w in zip(got, want):
            if len(w) > 1 and len(g) > 1:
                E.oblige(s, g[1] == w[1], PID, label + ': names and texts')


def start(name):
    return ('start', T.lit(name))


def verify_op(E, op):
    """one event is written"""
    X = Em(E)
    st, f = X.st, X.f
    args, want, push, pop, text = [X.o], None, None, False, False
    sig = op
    if op in ('EmitNull()', 'EmitTrue()', 'EmitFalse()'):
        want = [start({'EmitNull()': b'null', 'EmitTrue()': b'true', 'EmitFalse()': b'false'}[op]), ('end',)]
    elif op in ('BeginMap(int)', 'BeginList(int)'):
        m = op.startswith('BeginMap')
        args.append(z3.BitVec('length', 32))
        want = [start(b'dict' if m else b'array')]
        push = X.KEY if m else X.LIST
    elif op in ('EndMap()', 'EndList()'):
        want, pop = [('end',)], True
    elif op == 'BeginDocument()':
        want = [start(b'plist')]
    elif op == 'EndDocument()':
        want = [('end',)]
    elif op == 'Emit(char const*)':
        p, t = given(E, st, 'given')
        args.append(p)
        text = True
    elif op in ('Emit(long)', 'Emit(unsigned long)'):
        v = z3.BitVec('v', 64)
        args.append(v)
        want = [start(b'integer'), ('text', (JE.DEC_S if op == 'Emit(long)' else JE.DEC_U)(v)), ('end',)]
    elif op == 'Emit(double)':
        v = z3.FP('v', FP['double'])
        args.append(v)
        want = [start(b'real'), ('text', JE.FMT(v, X.precision, z3.BoolVal(True))), ('end',)]
    else:
        B = Encoded(E, st, PID)
        args.append(B.pointer)
        want = [start(b'data'), ('text', B.text), ('end',)]
        pattern(E, r'std::__shared_ptr_access<libvariant::Blob const.*>::operator->\(\) const', lambda E, st, a, call: E.load(st, a[0], 8, 'ptr'))
    ends = op.startswith('End')
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::' + sig)[0], st, args):
        k += 1
        E.oblige(s, X.same(s), PID, 'nothing else changes')
        if kind == 'exc':
            refused = z3.And(X.top == X.KEY, z3.BoolVal(not text and not ends))
            E.oblige(s, z3.Or(z3.BoolVal(s.ghost['failed']), X.closed, refused), PID, 'an event is refused only if the writer fails or is closed, or for a key that is no text')
            continue
        E.oblige(s, z3.And(z3.Not(X.closed), z3.BoolVal(not s.ghost['failed'])), PID, 'what cannot be written is reported')
        now = values(E, s, f.ptr('state'))
        if text:
            yes, no = split(E, s, X.top == X.KEY)
            if yes is not None:
                events_out(E, X, yes, [start(b'key'), ('text', t), ('end',)], 'a key')
            if no is not None:
                events_out(E, X, no, [start(b'string'), ('text', t), ('end',)], 'a text')
            after = z3.If(X.top == X.KEY, X.VALUE, z3.If(X.top == X.VALUE, X.KEY, X.top))
        else:
            if not ends:
                E.oblige(s, X.top != X.KEY, PID, 'only texts are keys')
            events_out(E, X, s, want, op)
            after = X.top if ends else z3.If(X.top == X.VALUE, X.KEY, X.top)
        expect = [X.below] + ([] if pop else [after]) + ([push] if push is not None else [])
        E.oblige(s, len(now) == len(expect), PID, 'depth of the nesting')
        if len(now) == len(expect):
            E.oblige(s, z3.And(*[a == b for a, b in zip(now, expect)]), PID, 'keys and values take turns')
    E.oblige(st, k > 0, PID, 'returns')


def split(E, st, c):
    a, b = st.copy(), st.copy()
    a.assume(c)
    b.assume(z3.Not(c))
    return (a if E.feasible(a) else None), (b if E.feasible(b) else None)


def verify_finish(E, op):
    X = Em(E)
    st, f = X.st, X.f
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::' + op)[0], st, [X.o]):
        k += 1
        if op == 'Flush()':
            E.oblige(s, X.same(s), PID, 'nothing else changes')
            E.oblige(s, (kind == 'exc') == z3.Or(X.closed, z3.BoolVal(s.ghost['failed'])), PID, 'what cannot be passed on is reported')
            if kind == 'ret':
                events_out(E, X, s, [('flush',), ('flush target',)], 'flush')
            continue
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'closing fails only if the writer does')
        if kind == 'ret':
            E.oblige(s, z3.And(X.shut(s), X.same(s, ('closed',))), PID, 'the emitter is closed')
            yes, no = split(E, s, X.closed)
            if yes is not None:
                events_out(E, X, yes, [], 'closing again')
            if no is not None:
                events_out(E, X, no, [('end document',), ('flush',), ('flush target',)], 'closing')
    E.oblige(st, k > 0, PID, 'returns')


def verify_pass(E, op):
    """bytes from libxml2 go to the target"""
    X = Em(E)
    st = X.st
    args = [X.o]
    if op == 'DoWrite':
        n = z3.BitVec('n', 32)
        st.assume(n >= 0)
        buf = E.new_obj(st, 'buffer', size=simp2(z3.ZeroExt(32, n)))
        args += [buf, n]
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::' + op + ('(void*, char const*, int)' if op == 'DoWrite' else '(void*)'))[0], st, args):
        k += 1
        l = s.ghost['out'].l
        if op == 'DoClose':
            E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'closing fails only if the target does')
            if kind == 'ret':
                E.oblige(s, [x[0] for x in l] == ['flush target'], PID, 'closing flushes the target')
                E.oblige(s, bv(r, 32) >= 0, PID, 'success is told')
            continue
        E.oblige(s, kind == 'ret', PID, 'no exception passes through libxml2')
        if s.ghost['failed']:
            E.oblige(s, kind == 'exc' or bv(r, 32) < 0, PID, 'a failure of the target is told')
        elif kind == 'ret':
            E.oblige(s, len(l) == 1 and l[0][0] == 'write' and same(l[0][1], buf), PID, 'the bytes are passed on once')
            if len(l) == 1:
                E.oblige(s, z3.And(bv(l[0][2], 32) == n, bv(r, 32) == l[0][3]), PID, 'all bytes, and how many were written')
    E.oblige(st, k > 0, PID, 'returns')


KINDS = {'pretty': 'bool', 'indent': 'unsigned int', 'precision': 'unsigned int'}


def verify_create(E):
    """a new writer writes to its target with the settings given, and a failure leaves nothing behind"""
    X = Em(E)
    st, f = X.st, X.f
    opt = Options(E, st, PID, KINDS)
    buf = E.new_obj(st, 'output buffer', size=None)
    st.ghost['buffer'] = st.ghost['writers'] = 0

    def create(E, st, a, call):
        bad = st.copy()
        bad.ghost['failed'] = True
        name = lambda p: E.objs[p.obj].name
        E.oblige(st, 'DoWrite' in name(a[0]) and 'DoClose' in name(a[1]) and same(a[2], X.o), PID, 'the bytes come back to this writer')
        st.ghost['buffer'] += 1
        return [Out(st, buf), Out(bad, NULL)]

    def make(E, st, a, call):
        E.oblige(st, same(a[0], buf) and st.ghost['buffer'] == 1, PID, 'the writer uses the buffer')
        bad = st.copy()
        bad.ghost['failed'] = True
        st.ghost['buffer'] -= 1
        st.ghost['writers'] += 1
        return [Out(st, X.w), Out(bad, NULL)]

    def close(E, st, a, call):
        E.oblige(st, same(a[0], buf) and st.ghost['buffer'] == 1, PID, 'the buffer is closed once')
        st.ghost['buffer'] -= 1
        return 0

    def free(E, st, a, call):
        E.oblige(st, same(a[0], X.w) and st.ghost['writers'] == 1, PID, 'the writer is released once')
        st.ghost['writers'] -= 1

    def begin(E, st, a, call):
        E.oblige(st, same(a[0], X.w) and st.ghost['writers'] == 1, PID, 'the writer of this emitter is used')
        bad = st.copy()
        bad.ghost['failed'] = True
        st.ghost['out'] = st.ghost['out'].add('document')
        r, q = z3.FreshConst(BV32, 'begun'), z3.FreshConst(BV32, 'begun')
        st.assume(r >= 0)
        bad.assume(q < 0)
        return [Out(st, r), Out(bad, q)]
    for n, g in (('xmlOutputBufferCreateIO', create), ('xmlNewTextWriter', make), ('xmlOutputBufferClose', close), ('xmlFreeTextWriter', free), ('xmlTextWriterStartDocument', begin)):
        E.summaries[n] = g
    pattern(E, r'xmlTextWriterSetIndent', lambda E, st, a, call: 0)
    target = E.new_obj(st, 'target pointer', size=16, cells={0: (8, X.target), 8: (8, NULL)})
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::XMLPLISTEmitterImpl(std::shared_ptr<libvariant::EmitterOutput>, libvariant::Variant)')[0], st, [X.o, target, opt.p]):
        k += 1
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'it fails only if something it needs does')
        E.oblige(s, s.ghost['buffer'] == 0 and s.ghost['writers'] == (0 if kind == 'exc' else 1), PID, 'what was made is released on failure, once')
        if kind == 'exc':
            continue
        E.oblige(s, [x[0] for x in s.ghost['out'].l] == ['document'], PID, 'the document is begun')
        E.oblige(s, same(f.get(s, 'writer', 'ptr'), X.w) and same(E.load(s, f.ptr('output'), 8, 'ptr'), X.target), PID, 'the writer and target are in use')
        E.oblige(s, z3.And(z3.Not(X.shut(s)), z3.BoolVal(len(values(E, s, f.ptr('state'))) == 1)), PID, 'it is open and at the start')
        E.oblige(s, values(E, s, f.ptr('state'))[-1] == enum(E.P, EM + '::State', 'NONE'), PID, 'it is outside of any container')
        for n in KINDS:
            E.oblige(s, z3.Implies(z3.And(opt.ismap, opt.has[n]), f.term(s, n) == opt.used(n, f.term(s, n))), PID, 'the setting given is the one in use')
        E.oblige(s, z3.Or(z3.And(opt.ismap, opt.has['precision']), z3.UGE(f.term(s, 'precision'), 17)), PID, 'numbers are written with all digits unless asked otherwise')
    E.oblige(st, k > 0, PID, 'returns')


def verify_end_writer(E):
    """the writer is finished and released once"""
    X = Em(E)
    st = X.st
    Options(E, st, PID, KINDS)
    st.ghost['writers'] = 1

    def free(E, st, a, call):
        E.oblige(st, same(a[0], X.w) and st.ghost['writers'] == 1, PID, 'the writer is released once')
        st.ghost['writers'] -= 1
    E.summaries['xmlFreeTextWriter'] = free
    k = 0
    for kind, s, r in E.run_function([g for g in E.P.find(EM + '::~XMLPLISTEmitterImpl()') if 'D0Ev' not in g.name][0], st, [X.o]):
        k += 1
        E.oblige(s, kind == 'ret' and s.ghost['writers'] == 0, PID, 'the writer is released')
        yes, no = split(E, s, X.closed)
        if yes is not None:
            E.oblige(yes, len(yes.ghost['out'].l) == 0, PID, 'a closed writer writes nothing more')
        if no is not None and not no.ghost['failed']:
            E.oblige(no, [x[0] for x in no.ghost['out'].l] == ['end document', 'flush'], PID, 'an open writer is finished')
    E.oblige(st, k > 0, PID, 'returns')


def verify_setting(E, fn, name):
    """settings are changed and asked for by name"""
    X = Em(E)
    st, f = X.st, X.f
    opt = Options(E, st, PID, KINDS)
    pattern(E, r'xmlTextWriterSetIndent', lambda E, st, a, call: 0)
    before = {n: f.term(st, n) for n in KINDS}
    out = E.new_obj(st, 'result', size=E.P.types[NS + 'Variant']['size'])
    if fn == 'SetParam':
        v = opt.value(st, name)
        args = [X.o, opt.name(st, name), v]
    elif fn == 'GetParam':
        args = [out, X.o, opt.name(st, name)]
    else:
        args = [out, X.o]
    sig = {'SetParam': '(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, libvariant::Variant)', 'GetParams': '()',
           'GetParam': '(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)'}[fn]
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::' + fn + sig)[0], st, args):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'settings can be used')
        for n in KINDS:
            new = before[n] if fn != 'SetParam' or n != name else opt.byte(n) if KINDS[n] == 'bool' else opt.num[n]
            E.oblige(s, f.term(s, n) == new, PID, 'the setting given is the one in use, others stay')
        if fn == 'SetParam':
            continue
        l = s.ghost.get('made' if fn == 'GetParam' else 'stored', Log()).l
        if fn == 'GetParam':
            ok = len(l) == 1 and same(l[0][1], out)
            got = {name: (l[0][0], l[0][2])} if ok else {}
        else:
            got = {x[0]: (x[1], x[2]) for x in l}
        want = [name] if fn == 'GetParam' else list(KINDS)
        E.oblige(s, set(got) == set(want), PID, 'the settings asked for are returned')
        for n in want:
            if n in got and n in KINDS:
                t, v = got[n]
                E.oblige(s, t == KINDS[n], PID, 'settings have their type')
                E.oblige(s, (V.tob(v) == (before[n] != 0)) if t == 'bool' else bv(v, 32) == before[n], PID, 'the setting in use is returned')
    E.oblige(st, k > 0, PID, 'returns')


# ------------------------------------------------------------------ reading
class Pa:
    def __init__(self, E, depth=2):
        self.E = E
        st = self.st = base(E)
        stack_models(E, PA + '::State_t')
        self.action = handler(E, st, PID)
        conversions(E, PID)
        last_error(E)
        self.N = {m[0]: m[1] for m in E.P.types[PA + '::State_t']['members']}
        o = self.o = E.new_obj(st, 'reader object', size=E.P.types[PA]['size'])
        f = self.f = Fields(E, PA, o)
        self.reader = E.new_obj(st, 'reader', size=None)
        f.put(st, 'reader', self.reader)
        self.top, self.below = z3.BitVec('state', 32), z3.BitVec('state_below', 32)
        for x in (self.top, self.below):
            st.assume(z3.ULE(x, max(self.N.values())))
        stack(E, st, f.ptr('statestack'), *([self.below, self.top][2 - depth:]))
        self.text = z3.Const('text_so_far', T.Bytes)
        st.assume(T.nz(self.text), z3.ULT(T.blen(self.text), 1 << 30))
        E.gput(st, f.ptr('text'), GStr(self.text))
        E.gput(st, f.ptr('errorstr'), GStr(z3.Const('errorstr', T.Bytes)))
        self.none = z3.Bool('no_text')
        st.assume(z3.Implies(self.none, self.text == nil))
        for n, v in (('closed', z3.Bool('closed')), ('empty', self.none), ('err', z3.Bool('err'))):
            f.put(st, n, z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        self.closed = z3.Bool('closed')

        def top(E, st, a, call):
            return [Out(st, self.action), raised(E, st)]
        E.summaries[NS + 'ParserImpl::TopAction()'] = top

        def err(E, st, a, call):
            s = st
            s.ghost['failed'] = True
            return [Out(s, exc=Exc('_ZTISt13runtime_error', NULL))]
        pattern(E, r'xmlTextReaderConstValue', lambda E, st, a, call: self.value)
        pattern(E, r'xmlTextReaderIsEmptyElement', lambda E, st, a, call: self.isempty)

    def texts(self, s):
        return self.E.gget(s, self.f.ptr('text'), GStr).b

    def nothing(self, s):
        return bv(self.f.get(s, 'empty'), 8) != 0

    def node(self, n):
        return z3.BitVecVal(self.N[n], 32)

    def states(self, s):
        return values(self.E, s, self.f.ptr('statestack'))

    def stackis(self, s, want, label):
        now = self.states(s)
        self.E.oblige(s, len(now) == len(want), PID, label + ': depth of the nesting')
        if len(now) == len(want):
            self.E.oblige(s, z3.And(*[a == b for a, b in zip(now, want)]), PID, label + ': nesting')

    def eventis(self, s, want, label):
        """exactly one event (or none), with these parts"""
        l = s.ghost['events'].l
        E = self.E
        n = 0 if want is None else 1
        E.oblige(s, len(l) == n and (not n or l[0][0] == want[0]), PID, label + ': the event')
        if n and len(l) == 1 and l[0][0] == want[0]:
            E.oblige(s, same(l[0][1], self.o), PID, label + ': from this reader')
            for g, w in zip(l[0][2:], want[1:]):
                if isinstance(w, GData):
                    E.oblige(s, isinstance(g, GData) and g.coded == w.coded, PID, label + ': the data')
                    E.oblige(s, g.t == w.t, PID, label + ': the data')
                elif isinstance(w, Ptr):
                    E.oblige(s, same(g, w), PID, label + ': no anchor and no tag')
                else:
                    E.oblige(s, g == w, PID, label + ': the value')


TEXTY = ('IntegerNode', 'FloatNode', 'StringNode', 'BlobNode', 'KeyNode')


def verify_begin(E, node):
    X = Pa(E)
    st = X.st
    X.isempty = z3.BitVec('is_empty', 32)
    e = X.isempty != 0
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::BeginElement(libvariant::ParserActions*, libvariant::XMLPLISTParserImpl::State_t)')[0], st, [X.o, X.action, X.node(node)]):
        k += 1
        if kind == 'exc':
            E.oblige(s, z3.Or(z3.BoolVal(s.ghost['failed']), z3.And(e, z3.BoolVal(node in TEXTY))), PID, 'an element is refused only if the handler refuses it or a text is missing')
            continue
        E.oblige(s, not s.ghost['failed'], PID, 'a refusal of the handler is reported')
        more = V.tob(r)
        yes, no = split(E, s, e)
        if node in TEXTY:
            if no is not None:
                X.eventis(no, None, 'beginning of a text')
                X.stackis(no, [X.below, X.top, X.node(node)], 'beginning of a text')
                E.oblige(no, z3.And(more, X.texts(no) == nil, X.nothing(no)), PID, 'the text begins')
        elif node in ('NullNode', 'TrueNode', 'FalseNode'):
            for t, em in ((yes, True), (no, False)):
                if t is None:
                    continue
                X.eventis(t, {'NullNode': ('null', NULL, NULL), 'TrueNode': ('bool', z3.BoolVal(True), NULL, NULL), 'FalseNode': ('bool', z3.BoolVal(False), NULL, NULL)}[node], 'a word')
                X.stackis(t, [X.below, X.top] + ([] if em else [X.node(node)]), 'a word')
                E.oblige(t, more == z3.BoolVal(not em), PID, 'the end of the element is read with it')
        elif node in ('MapNode', 'ListNode'):
            m = node == 'MapNode'
            for t, em in ((yes, True), (no, False)):
                if t is None:
                    continue
                X.eventis(t, ('begin map' if m else 'begin list', NULL, NULL), 'a beginning')
                X.stackis(t, [X.below, X.top, X.node(('Empty' if em else '') + node)], 'a beginning')
        elif no is not None:
            X.eventis(no, ('begin document',), 'a document')
            X.stackis(no, [X.below, X.top, X.node('RootNode')], 'a document')
    E.oblige(st, k > 0, PID, 'returns')


def verify_text(E):
    X = Pa(E)
    st = X.st
    X.value, v = given(E, st, 'characters')
    st.assume(z3.ULT(T.blen(v), 1 << 30))
    E.cover(st, 'precondition')
    k = 0
    texty = z3.Or(*[X.top == X.node(n) for n in TEXTY])
    silent = z3.Or(*[X.top == X.node(n) for n in ('NullNode', 'RootNode', 'TrueNode', 'FalseNode', 'MapNode', 'ListNode')])
    for kind, s, r in E.run_function(E.P.find(PA + '::ProcessText()')[0], st, [X.o]):
        k += 1
        if kind == 'exc':
            E.oblige(s, z3.Not(z3.Or(texty, silent)), PID, 'text inside of an element is taken')
            continue
        yes, no = split(E, s, texty)
        if yes is not None:
            X.eventis(yes, None, 'text')
            X.stackis(yes, [X.below, X.top], 'text')
            E.oblige(yes, z3.And(V.tob(r), X.texts(yes) == T.app(X.text, v), z3.Not(X.nothing(yes))), PID, 'the text is added')
        if no is not None:
            no.assume(silent)
            if E.feasible(no):
                X.eventis(no, None, 'text between elements')
                X.stackis(no, [X.below, X.top], 'text between elements')
                E.oblige(no, V.tob(r), PID, 'text between elements is passed over')
    E.oblige(st, k > 0, PID, 'returns')


def verify_end(E, node):
    X = Pa(E)
    st = X.st
    n = NUMBER(X.text)
    E.cover(st, 'precondition')
    k = 0
    fits = z3.And(n >= -(1 << 63), n <= (1 << 64) - 1)
    st.assume(n >= -(1 << 100), n <= 1 << 100)
    for kind, s, r in E.run_function(E.P.find(PA + '::EndElement(libvariant::XMLPLISTParserImpl::State_t)')[0], st, [X.o, X.node(node)]):
        k += 1
        if kind == 'exc':
            E.oblige(s, z3.Or(z3.BoolVal(s.ghost['failed']), X.top != X.node(node), z3.And(X.none, z3.BoolVal(node in ('IntegerNode', 'FloatNode')))), PID, 'an end is refused only if it fits no beginning, a number is missing or the handler refuses it')
            continue
        E.oblige(s, z3.And(X.top == X.node(node), z3.BoolVal(not s.ghost['failed'])), PID, 'an end that fits no beginning is refused')
        X.stackis(s, [X.below], 'end of an element')
        E.oblige(s, z3.Not(V.tob(r)), PID, 'the reader looks at its handlers again')
        if node in ('NullNode', 'TrueNode', 'FalseNode'):
            X.eventis(s, None, 'end of a word')
        elif node in ('StringNode', 'KeyNode'):
            X.eventis(s, ('text', X.text, NULL, NULL), 'a text')
        elif node == 'IntegerNode':
            l = s.ghost['events'].l
            E.oblige(s, len(l) == 1 and l[0][0] in ('int', 'uint') and same(l[0][1], X.o) and same(l[0][3], NULL) and same(l[0][4], NULL), PID, 'a whole number: the event')
            if len(l) == 1 and l[0][0] in ('int', 'uint'):
                wide = z3.SignExt(64, l[0][2]) if l[0][0] == 'int' else z3.ZeroExt(64, l[0][2])
                E.oblige(s, z3.Implies(fits, wide == n), PID, 'a whole number: its value')
                E.oblige(s, z3.Implies(z3.And(n >= -(1 << 63), n < 1 << 63), z3.BoolVal(l[0][0] == 'int')), PID, 'a whole number is signed if it can be')
        elif node == 'FloatNode':
            X.eventis(s, ('float', DOUBLE(X.text), NULL, NULL), 'a number')
        elif node == 'BlobNode':
            yes, no = split(E, s, X.none)
            if yes is not None:
                X.eventis(yes, ('blob', GData(nil, False), NULL, NULL), 'a blob without data')
            if no is not None:
                X.eventis(no, ('blob', GData(X.text), NULL, NULL), 'a blob')
        else:
            X.eventis(s, ({'RootNode': 'end document', 'MapNode': 'end map', 'ListNode': 'end list'}[node],), 'an end')
    E.oblige(st, k > 0, PID, 'returns')


def verify_names(E):
    """names of elements"""
    st0 = base(E)
    N = {m[0]: m[1] for m in E.P.types[PA + '::State_t']['members']}

    def cmp(E, st, a, call):
        x, y = [T.conc(ctext(E, st, p)) for p in a[:2]]
        if x is None or y is None:
            raise Unsupported('comparison of unknown names')
        if 'case' in call.dem:
            x, y = x.lower(), y.lower()
        return 0 if x == y else 1
    pattern(E, r'str(case)?cmp', cmp)
    F = E.P.find(PA + '::StringToNode(char const*)')[0]
    for node, name in NAMES.items():
        st = st0.copy()
        p = str_view(E, st, T.lit(name))
        E.objs[p.obj].data = Text(T.lit(name))
        for kind, s, r in E.run_function(F, st, [p]):
            E.oblige(s, kind == 'ret' and simp(bv(r, 32) == N[node]), PID, 'element ' + name.decode())


BETWEEN = ('StartState', 'RootNode', 'MapNode', 'ListNode', 'EmptyMapNode', 'EmptyListNode', 'EndState')


def verify_run(E, first):
    """nodes of the document go to the functions above, one by one"""
    X = Pa(E, depth=2)
    st, f = X.st, X.f
    st.assume(X.top == X.node(first))
    ELEMENT, TEXT, CDATA, WHITE, SIGWHITE, END = 1, 3, 4, 13, 14, 15
    # what is to be done: the kind of the node that was read and not handled, and whether the handlers must be looked at
    todo = E.new_obj(st, 'to do', size=16, cells={0: (4, 0), 4: (4, 0), 8: (4, 0), 12: (4, 0)})
    name = E.new_obj(st, 'name', size=8)
    get = lambda s, o: bv(E.load(s, E.padd(todo, o), 4, 'i32'), 32)
    put = lambda s, o, v: E.put(s, E.padd(todo, o), 4, v)
    NODE = z3.BitVec('node_of_name', 32)

    def cell(s):
        return E.gget(s, f.ptr('statestack'), GCells).l[-1]

    def readn(E, st, a, call):
        E.oblige(st, a[0].obj == X.reader.obj, PID, 'the reader of this document is used')
        E.oblige(st, get(st, 0) == 0, PID, 'every element and text is handled before the next is read')
        E.oblige(st, get(st, 4) == 0, PID, 'nothing is read for handlers that are gone')
        one, end, bad = st, st.copy(), st.copy()
        t = z3.FreshConst(BV32, 'type')
        # the reader is made with the option that turns CDATA into text (verify_make)
        one.assume(z3.ULE(t, 17), t != CDATA)
        # blank text counts inside of texts and keys
        top = bv(E.load(one, cell(one), 4, 'i32'), 32)
        inside = z3.Or(top == X.node('StringNode'), top == X.node('KeyNode'))
        blank = z3.Or(t == WHITE, t == SIGWHITE)
        k = z3.If(t == ELEMENT, z3.BitVecVal(1, 32), z3.If(t == END, z3.BitVecVal(2, 32), z3.If(z3.Or(t == TEXT, z3.And(blank, inside)), z3.BitVecVal(3, 32), z3.BitVecVal(0, 32))))
        put(one, 0, k)
        put(one, 12, t)
        put(end, 8, 1)
        bad.ghost['failed'] = True
        r = z3.FreshConst(BV32, 'error')
        bad.assume(r == -1)
        return [Out(one, 1), Out(end, 0), Out(bad, r)]
    pattern(E, r'xmlTextReaderRead', readn)
    pattern(E, r'xmlTextReaderNodeType', lambda E, st, a, call: get(st, 12))
    pattern(E, r'xmlTextReaderConstName', lambda E, st, a, call: name)
    E.summaries[PA + '::StringToNode(char const*)'] = lambda E, st, a, call: (E.oblige(st, same(a[0], name), PID, 'the name of the node'), NODE)[1]

    def handle(kind, arg):
        def g(E, st, a, call):
            E.oblige(st, get(st, 0) == kind, PID, 'the node is handled as what it is')
            if arg is not None:
                E.oblige(st, bv(a[arg], 32) == NODE, PID, 'by its name')
            if kind == 1:
                E.oblige(st, same(a[1], X.action), PID, 'for the handler on top')
            bad = raised(E, st)
            more = z3.FreshConst(z3.BoolSort(), 'more')
            put(st, 0, 0)
            put(st, 4, z3.If(more, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
            n = z3.FreshConst(BV32, 'state')
            st.assume(z3.ULE(n, max(X.N.values())))
            # between two elements the state is one of these (contracts of the functions above)
            st.assume(z3.Or(more, *[n == X.node(x) for x in BETWEEN[1:]]))
            E.put(st, cell(st), 4, n)
            return [Out(st, more), bad]
        return g
    E.summaries[PA + '::BeginElement(libvariant::ParserActions*, libvariant::XMLPLISTParserImpl::State_t)'] = handle(1, 2)
    E.summaries[PA + '::EndElement(libvariant::XMLPLISTParserImpl::State_t)'] = handle(2, 1)
    E.summaries[PA + '::ProcessText()'] = handle(3, None)

    def empty(E, st, a, call):
        there = st
        gone = st.copy()
        put(there, 4, 0)
        put(gone, 4, 2)
        return [Out(there, 0), Out(gone, 1)]
    pattern(E, r'std::deque<std::shared_ptr<libvariant::ParserActions>.*>::empty\(\) const', empty)

    def temps(E, L):
        top = lambda s: bv(E.load(s, cell(s), 4, 'i32'), 32)
        between = lambda s: z3.Or(*[top(s) == X.node(n) for n in BETWEEN])
        cs = [('every node is handled', lambda s: get(s, 0) == 0), ('the text has not ended', lambda s: get(s, 8) == 0), ('between elements', between), ('handlers are there', lambda s: get(s, 4) == 0),
              ('handlers may be gone', lambda s: z3.ULE(get(s, 4), 1)), ('a state', lambda s: z3.ULE(top(s), max(X.N.values())))]
        for i in L.phi_ids:
            r = lambda s, i=i: s.frames[L.depth - 1].regs[i]
            w = {'i1': 1, 'i8': 8, 'i32': 32}.get(L.phi_ty[i])
            if w:
                on = (lambda s, r=r: V.tob(r(s))) if w == 1 else (lambda s, r=r, w=w: bv(r(s), w) != 0)
                cs.append(('more is read for handlers', lambda s, on=on: z3.Implies(on(s), get(s, 4) == 0)))
                cs.append(('an element has ended', lambda s, on=on: z3.Or(on(s), between(s))))
        return cs
    E.loop_templates.append(temps)
    E.cover(st, 'precondition')
    k = 0
    closing = {'EmptyMapNode': 'end map', 'EmptyListNode': 'end list'}
    for kind, s, r in E.run_function(E.P.find(PA + '::Run()')[0], st, [X.o]):
        k += 1
        l = s.ghost['events'].l
        top = bv(E.load(s, cell(s), 4, 'i32'), 32) if E.gget(s, f.ptr('statestack'), GCells).l else None
        if kind == 'exc':
            wrong = z3.And(get(s, 8) == 1, top != X.node('EndState')) if top is not None else z3.BoolVal(False)
            E.oblige(s, z3.Or(z3.BoolVal(s.ghost['failed']), wrong, z3.BoolVal(first not in ('StartState', 'RootNode', 'MapNode', 'ListNode', 'EndState', 'EmptyMapNode', 'EmptyListNode'))), PID, 'reading fails only for broken text')
            continue
        E.oblige(s, not s.ghost['failed'], PID, 'broken text is reported')
        E.oblige(s, get(s, 0) == 0, PID, 'every element and text is handled')
        code = bv(r, 32)
        gone = get(s, 4) == 2
        E.oblige(s, z3.Implies(code == 1, z3.Or(X.closed, z3.BoolVal(first == 'EndState'), get(s, 8) == 1, top == X.node('EndState'))), PID, 'the end is told at the end only')
        E.oblige(s, z3.Or(code == 1, code == 0), PID, 'the end or more')
        if l:
            E.oblige(s, len(l) == 1 and code == 0, PID, 'the end of an empty container is one event')
            n = closing.get(first)
            E.oblige(s, n is None or z3.Or(*[z3.BoolVal(l[0][0] == x) for x in closing.values()]), PID, 'the end of an empty container')
        else:
            E.oblige(s, z3.Implies(code == 0, gone), PID, 'reading stops when no handler is left')
            E.oblige(s, z3.Implies(get(s, 8) == 1, z3.And(code == 1, top == X.node('EndState'))), PID, 'the text ends where the document ends')
    E.oblige(st, k > 0, PID, 'returns')


def verify_empty(E, node):
    """an empty container ends"""
    X = Pa(E)
    st, f = X.st, X.f
    st.assume(X.top == X.node(node), z3.Not(X.closed))
    pattern(E, r'std::deque<std::shared_ptr<libvariant::ParserActions>.*>::empty\(\) const', lambda E, st, a, call: 0)
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::Run()')[0], st, [X.o]):
        k += 1
        if kind == 'exc':
            E.oblige(s, s.ghost['failed'], PID, 'an end is refused only by the handler')
            continue
        X.eventis(s, ('end map' if node == 'EmptyMapNode' else 'end list',), 'an empty container')
        X.stackis(s, [X.below], 'an empty container')
        E.oblige(s, bv(r, 32) == 0, PID, 'there may be more')
    E.oblige(st, k > 0, PID, 'returns')


def verify_make(E, fn):
    """a new or reset reader reads its source from the beginning, with entities and CDATA as text"""
    X = Pa(E)
    st, f = X.st, X.f
    st.ghost['made'] = Log()
    new = E.new_obj(st, 'new reader', size=None)

    def make(E, st, a, call):
        bad = st.copy()
        bad.ghost['failed'] = True
        st.ghost['made'] = st.ghost['made'].add(*a)
        return [Out(st, new), Out(bad, NULL)]
    pattern(E, r'xmlReaderForIO', make)
    gone = E.new_obj(st, 'released', size=8, cells={0: (4, 0), 4: (4, 0)})

    def count(off, label):
        def g(E, st, a, call):
            E.oblige(st, z3.And(a[0].obj == X.reader.obj, bv(E.load(st, E.padd(gone, off), 4, 'i32'), 32) == 0), PID, label)
            E.put(st, E.padd(gone, off), 4, 1)
            return 0
        return g
    pattern(E, r'xmlTextReaderClose', count(0, 'a reader is closed once'))
    pattern(E, r'xmlFreeTextReader', count(4, 'a reader is released once'))
    E.summaries[NS + 'ParserImpl::ParserImpl()'] = lambda E, st, a, call: None
    E.summaries[NS + 'ParserImpl::~ParserImpl()'] = lambda E, st, a, call: None
    pattern(E, r'std::(__)?shared_ptr<libvariant::ParserInput.*>::~?(__)?shared_ptr\(.*\)', lambda E, st, a, call: None)
    args = [X.o]
    if fn != 'Reset':
        args.append(E.new_obj(st, 'source', size=16))
    k = 0
    F = E.P.find(PA + '::' + ('Reset()' if fn == 'Reset' else 'XMLPLISTParserImpl(std::shared_ptr<libvariant::ParserInput>)'))[0]
    for kind, s, r in E.run_function(F, st, args):
        k += 1
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'it fails only if no reader can be made')
        if fn == 'Reset':
            E.oblige(s, bv(E.load(s, E.padd(gone, 4), 4, 'i32'), 32) == 1, PID, 'the old reader is released')
        if kind == 'exc':
            continue
        l = s.ghost['made'].l
        ok = len(l) == 1 and all(isinstance(x, Ptr) for x in l[0][:3])
        E.oblige(s, ok, PID, 'one reader is made')
        if ok:
            m = l[0]
            name = lambda p: E.objs[p.obj].name
            E.oblige(s, 'do_read' in name(m[0]) and 'do_close' in name(m[1]) and same(m[2], X.o), PID, 'it reads from this source')
            E.oblige(s, bv(m[5], 32) & 0x4002 == 0x4002, PID, 'entities and CDATA become text')
        E.oblige(s, same(f.get(s, 'reader', 'ptr'), new), PID, 'it is the reader in use')
        E.oblige(s, z3.And(bv(f.get(s, 'closed'), 8) == 0, bv(f.get(s, 'err'), 8) == 0), PID, 'it is open and without error')
        now = X.states(s)
        E.oblige(s, len(now) >= 1 and now[-1] == X.node('StartState'), PID, 'it starts at the beginning')
    E.oblige(st, k > 0, PID, 'returns')


def verify_done(E):
    X = Pa(E)
    for kind, s, r in E.run_function(E.P.find(PA + '::Done() const')[0], X.st, [X.o]):
        E.oblige(s, kind == 'ret' and V.tob(r) == z3.Or(X.closed, X.top == X.node('EndState')), PID, 'the reader is done at the end of the document')


def verify_source(E):
    """libxml2 gets the bytes of the source"""
    X = Pa(E)
    st, f = X.st, X.f
    n = z3.BitVec('room', 32)
    st.assume(n > 0)
    size = simp2(z3.ZeroExt(32, n))
    buf = E.new_obj(st, 'buffer', size=size)
    st.mem[buf.obj] = OC({}, ((0, size, z3.Const('buffer', T.ARR)),))
    have = z3.BitVec('available', 32)
    src = E.new_obj(st, 'source bytes', size=simp2(z3.ZeroExt(32, have)), const=True)
    arr = z3.Const('source', T.ARR)
    st.mem[src.obj] = OC({}, ((0, E.objs[src.obj].size, arr),))
    st.ghost['took'] = Log()

    def getptr(E, st, a, inst):
        E.oblige(st, bv(E.load(st, a[1], 4, 'i32'), 32) == n, PID, 'as much as there is room for is asked for')
        none, bad = st.copy(), raised(E, st)
        E.put(st, a[1], 4, have)
        none.ghost['ended'] = True
        return [Out(st, src), Out(none, NULL), bad]

    def release(E, st, a, inst):
        st.ghost['took'] = st.ghost['took'].add(bv(a[1], 32))
        return [Out(st, None)]
    inp = abstract_object(E, st, NS + 'ParserInput', {r'::GetPtr\(': getptr, r'::Release\(': release}, name='source')
    E.put(st, f.ptr('input'), 8, inp)
    E.put(st, E.padd(f.ptr('input'), 8), 8, NULL)
    st.ghost['ended'] = False
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::do_read(void*, char*, int)')[0], st, [X.o, buf, n]):
        k += 1
        if kind == 'exc':
            E.oblige(s, s.ghost['failed'], PID, 'reading fails only if the source does')
            continue
        l = s.ghost['took'].l
        if s.ghost['ended']:
            E.oblige(s, bv(r, 32) == 0 and l == (), PID, 'the end of the source is told')
            continue
        m = z3.If(z3.ULT(have, n), have, n)
        J = z3.BitVec('j', 64)
        a1 = s.mem[buf.obj].regs[0][2]
        E.oblige(s, len(l) == 1 and l[0][0] == m, PID, 'what was passed on is released')
        E.oblige(s, bv(r, 32) == m, PID, 'how much was passed on')
        E.oblige(s, z3.Implies(z3.ULT(J, z3.ZeroExt(32, m)), T.sel(a1, J) == T.sel(arr, J)), PID, 'the bytes of the source')
    E.oblige(st, k > 0, PID, 'returns')


def verify_lemma(E):
    """an event that was written is read again

    Writing and reading are taken as proved above; the decimal text of a number is converted back to it (C library), Base64 as in P07."""
    st = State()
    i, u = z3.BitVec('i', 64), z3.BitVec('u', 64)
    st.assume(NUMBER(JE.DEC_S(i)) == z3.SignExt(64, i), NUMBER(JE.DEC_U(u)) == z3.ZeroExt(64, u))
    # an integer: element, text, end; the value read is the only number with that text
    for t, wide in ((JE.DEC_S(i), z3.SignExt(64, i)), (JE.DEC_U(u), z3.ZeroExt(64, u))):
        txt = T.app(nil, t)
        st.assume(txt == t)
        n = NUMBER(txt)
        E.oblige(st, z3.And(n >= -(1 << 63), n <= (1 << 64) - 1), PID, 'every whole number written is in the range read')
        a, b = z3.BitVec('read_int', 64), z3.BitVec('read_uint', 64)
        E.oblige(st, z3.Implies(z3.SignExt(64, a) == n, z3.SignExt(64, a) == wide), PID, 'the number read is the number written')
        E.oblige(st, z3.Implies(z3.ZeroExt(64, b) == n, z3.ZeroExt(64, b) == wide), PID, 'the number read is the number written, unsigned')
    # a text may arrive in parts
    x, y = z3.Consts('part_1 part_2', T.Bytes)
    E.oblige(st, T.blen(T.app(T.app(nil, x), y)) == T.blen(x) + T.blen(y), PID, 'no character of a text is lost')
    # elements written have names the reader knows, one kind for each
    E.oblige(st, len(set(NAMES.values())) == len(NAMES), PID, 'different kinds have different names')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, args, f):
        return Task('XML property lists: ' + name, fn, args, props=(PID,), safety=PID, funcs=f)
    out = []
    for op in ('BeginDocument()', 'EndDocument()', 'BeginMap(int)', 'EndMap()', 'BeginList(int)', 'EndList()', 'EmitNull()', 'EmitTrue()', 'EmitFalse()', 'Emit(char const*)', 'Emit(long)',
               'Emit(unsigned long)', 'Emit(double)', 'Emit(std::shared_ptr<libvariant::Blob const>)'):
        out.append(t('writing, ' + op[:24], verify_op, (op,), [EM + '::' + x for x in (op, 'StartElement', 'CloseElement', 'WriteText', 'CheckMapKey', 'CheckClosed')]))
    for op in ('Flush()', 'Close()'):
        out.append(t('writing, ' + op, verify_finish, (op,), [EM + '::' + op]))
    for op in ('DoWrite', 'DoClose'):
        out.append(t('writing, ' + op, verify_pass, (op,), [EM + '::' + op]))
    for n in NAMES:
        out.append(t('reading, begin ' + n, verify_begin, (n,), [PA + '::BeginElement']))
        out.append(t('reading, end ' + n, verify_end, (n,), [PA + '::EndElement']))
    out.append(t('reading, text', verify_text, (), [PA + '::ProcessText']))
    out.append(t('reading, names', verify_names, (), [PA + '::StringToNode']))
    for n in ('StartState', 'RootNode', 'MapNode', 'ListNode', 'EndState'):
        out.append(t('reading, Run from ' + n, verify_run, (n,), [PA + '::Run']))
    for n in ('EmptyMapNode', 'EmptyListNode'):
        out.append(t('reading, Run from ' + n, verify_empty, (n,), [PA + '::Run']))
    out.append(t('writing, constructor', verify_create, (), [EM + '::XMLPLISTEmitterImpl', EM + '::UpdateParams']))
    out.append(t('writing, destructor', verify_end_writer, (), [EM + '::~XMLPLISTEmitterImpl']))
    for n in KINDS:
        out.append(t('setting ' + n, verify_setting, ('SetParam', n), [EM + '::SetParam', EM + '::UpdateParams']))
        out.append(t('asking for ' + n, verify_setting, ('GetParam', n), [EM + '::GetParam']))
    out.append(t('asking for all settings', verify_setting, ('GetParams', ''), [EM + '::GetParams']))
    for n in ('Reset', 'constructor'):
        out.append(t('reading, ' + n, verify_make, (n,), [PA + '::' + ('Reset' if n == 'Reset' else 'XMLPLISTParserImpl'), PA + '::Close']))
    out.append(t('reading, Done', verify_done, (), [PA + '::Done']))
    out.append(t('reading, do_read', verify_source, (), [PA + '::do_read']))
    out.append(t('lemma, what was written is read', verify_lemma, (), []))
    return out
