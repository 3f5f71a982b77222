"""Contracts for YAML (src/YAMLEmitter.cc, src/YAMLParser.cc).

The writer is proved to give libyaml, for every event, one event of the right kind with the right text, tag and style, inside of a document. The
reader is proved to hand on every event of libyaml to the handler on top. That libyaml returns the events it was given is assumed here and compared
in native/values.cc."""
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, span, str_view
from .. import variants as V
from . import json_emit as JE
from .forms import *

TU = ['src/YAMLEmitter.cc', 'src/YAMLParser.cc']
PID = 'P24'
EM = NS + 'YAMLEmitterImpl'
PA = NS + 'YAMLParserImpl'
BINARY = b'tag:yaml.org,2002:binary'
ISTEXT = z3.Function('guessed_to_be_text', T.Bytes, z3.BoolSort())
ANY, PLAIN = 0, 1


class GEvent:
    """an event of libyaml"""
    SIZE = 104

    def __init__(self, *e):
        self.e = e

    def gsame(self, o):
        return isinstance(o, GEvent) and self.e == o.e


def writer(E):
    st = base(E)
    st.ghost['out'] = Log()
    st.ghost['live'] = 0

    def init(kind, f):
        def g(E, st, a, call):
            bad = st.copy()
            bad.ghost['failed'] = True
            E.gput(st, a[0], GEvent(kind, *f(E, st, a)))
            st.ghost['live'] += 1
            return [Out(st, 1), Out(bad, 0)]
        return g
    none = lambda E, st, a: ()
    text = lambda E, st, p: None if isinstance(p, Ptr) and same(p, NULL) else ctext(E, st, p)
    pattern(E, r'yaml_stream_start_event_initialize', init('stream start', lambda E, st, a: (a[1],)))
    pattern(E, r'yaml_stream_end_event_initialize', init('stream end', none))
    pattern(E, r'yaml_document_start_event_initialize', init('document start', lambda E, st, a: tuple(a[1:])))
    pattern(E, r'yaml_document_end_event_initialize', init('document end', lambda E, st, a: (a[1],)))
    pattern(E, r'yaml_mapping_start_event_initialize', init('map', lambda E, st, a: (text(E, st, a[1]), text(E, st, a[2]), a[3])))
    pattern(E, r'yaml_mapping_end_event_initialize', init('map end', none))
    pattern(E, r'yaml_sequence_start_event_initialize', init('list', lambda E, st, a: (text(E, st, a[1]), text(E, st, a[2]), a[3])))
    pattern(E, r'yaml_sequence_end_event_initialize', init('list end', none))
    pattern(E, r'yaml_scalar_event_initialize', init('scalar', lambda E, st, a: (text(E, st, a[1]), text(E, st, a[2]), span(E, st, a[3], z3.SignExt(32, bv(a[4], 32))), a[5], a[6], a[7])))
    return st


class Em:
    def __init__(self, E):
        self.E = E
        st = self.st = writer(E)
        self.o = E.new_obj(st, 'emitter', size=E.P.types[EM]['size'])
        f = self.f = Fields(E, EM, self.o)
        self.em = f.ptr('emitter')
        self.closed, self.inside = z3.Bool('closed'), z3.Bool('in_document')
        b8 = lambda c: z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        f.put(st, 'closed', b8(self.closed))
        f.put(st, 'in_document', b8(self.inside))
        c = self.c = Fields(E, EM + '::Config', f.ptr('conf'))
        self.precision = z3.BitVec('precision', 32)
        for n, v in (('precision', self.precision), ('default_map_style', z3.BitVec('map_style', 32)), ('default_list_style', z3.BitVec('list_style', 32)), ('default_scalar_style', z3.BitVec('scalar_style', 32)),
                     ('indent', z3.BitVec('indent', 32)), ('width', z3.BitVec('width', 32)), ('implicit_begin_document', b8(z3.Bool('implicit_begin'))), ('implicit_end_document', b8(z3.Bool('implicit_end')))):
            c.put(st, n, v)
        st.assume(z3.ULE(z3.BitVec('map_style', 32), 2), z3.ULE(z3.BitVec('list_style', 32), 2), z3.ULE(z3.BitVec('scalar_style', 32), 5))
        self.problem = str_view(E, st, z3.Const('problem', T.Bytes))
        E.put(st, E.padd(self.em, {m[0]: m[1] for m in E.P.types['yaml_emitter_s']['members']}['problem']), 8, self.problem)
        self.target = abstract_object(E, st, NS + 'EmitterOutput', {}, name='target')
        E.put(st, f.ptr('out'), 8, self.target)
        E.put(st, E.padd(f.ptr('out'), 8), 8, NULL)
        st.ghost['deleted'] = 0
        st.ghost['released'] = 0

        def emit(E, st, a, call):
            E.oblige(st, same(a[0], self.em), PID, 'the emitter of this writer is used')
            E.oblige(st, st.ghost['deleted'] == 0, PID, 'a deleted emitter is not used')
            e = E.gget(st, a[1], GEvent).e
            E.oblige(st, e[0] != 'done', PID, 'an event is written once')
            E.gput(st, a[1], GEvent('done'))
            st.ghost['live'] -= 1
            bad = st.copy()
            bad.ghost['failed'] = True
            st.ghost['out'] = st.ghost['out'].add(*e)
            return [Out(st, 1), Out(bad, 0)]

        def delete(E, st, a, call):
            e = E.gget(st, a[0], GEvent).e
            E.oblige(st, e[0] != 'done', PID, 'an event is released once')
            E.gput(st, a[0], GEvent('done'))
            st.ghost['live'] -= 1

        def flush(E, st, a, call):
            E.oblige(st, same(a[0], self.em), PID, 'the emitter of this writer is used')
            E.oblige(st, st.ghost['deleted'] == 0, PID, 'a deleted emitter is not used')
            bad = st.copy()
            bad.ghost['failed'] = True
            st.ghost['out'] = st.ghost['out'].add('flush')
            return [Out(st, 1), Out(bad, 0)]

        def gone(E, st, a, call):
            E.oblige(st, same(a[0], self.em), PID, 'the emitter of this writer is deleted')
            E.oblige(st, st.ghost['deleted'] == 0, PID, 'the emitter is deleted once')
            st.ghost['deleted'] = 1
        pattern(E, r'yaml_emitter_emit', emit)
        pattern(E, r'yaml_event_delete', delete)
        pattern(E, r'yaml_emitter_flush', flush)
        pattern(E, r'yaml_emitter_delete', gone)

        def reset(E, st, a, call):
            E.oblige(st, same(a[0], f.ptr('out')), PID, 'the target of this writer is released')
            st.ghost['released'] += 1
            E.put(st, f.ptr('out'), 8, NULL)
        pattern(E, r'std::__shared_ptr<libvariant::EmitterOutput.*>::reset\(\)', reset)

        # virtual calls on the writer itself: the contracts proved below
        def virt(need, what, after):
            def g(E, st, a, inst):
                E.oblige(st, z3.Or(self.shut(st), z3.And(same(a[0], self.o), need(st))), PID, 'calls on itself')
                shut, st = split(E, st, self.shut(st))
                refused = [] if shut is None else [raised(E, shut)]
                if st is None:
                    return refused
                bad = raised(E, st)
                for w in what(st):
                    st.ghost['out'] = st.ghost['out'].add(*w)
                if after is not None:
                    f.put(st, 'in_document', z3.BitVecVal(after, 8))
                return [Out(st, None), bad] + refused
            return g
        E.put(st, self.o, 8, abstract_vtable(E, st, EM, {
            r'::BeginDocument\(\)': virt(lambda s: z3.And(z3.Not(self.shut(s)), z3.Not(self.isin(s))), lambda s: [('document start',)], 1),
            r'::EndDocument\(\)': virt(lambda s: z3.And(z3.Not(self.shut(s)), self.isin(s)), lambda s: [('document end',)], 0),
            r'::Flush\(\)': virt(lambda s: z3.Not(self.shut(s)), lambda s: [('flush',)], None)}))

        def guess(E, st, a, call):
            t = span(E, st, a[0], z3.ZeroExt(32, bv(a[1], 32)))
            k = Fields(E, NS + 'PlainStringCheck', a[5])
            k.put(st, 'is_string', z3.If(ISTEXT(t), z3.BitVecVal(1, 8), bv(k.get(st, 'is_string'), 8)))
        E.summaries[NS + 'GuessScalar(char const*, unsigned int, char const*, char const*, libvariant::ParserImpl*, libvariant::ParserActions*)'] = guess
        pattern(E, r'libvariant::ParserActions::~?ParserActions\(\)', lambda E, st, a, call: None)

    def shut(self, s):
        return bv(self.f.get(s, 'closed'), 8) != 0

    def isin(self, s):
        return bv(self.f.get(s, 'in_document'), 8) != 0


def split(E, st, c):
    a, b = st.copy(), st.copy()
    a.assume(c)
    b.assume(z3.Not(c))
    return (a if E.feasible(a) else None), (b if E.feasible(b) else None)


def written(E, s, want, label):
    """exactly these events were written"""
    got = s.ghost['out'].l
    E.oblige(s, [g[0] for g in got] == [w[0] for w in want], PID, label + ': the events')
    if [g[0] for g in got] != [w[0] for w in want]:
        return
    for g, w in zip(got, want):
        for x, y in zip(g[1:], w[1:]):
            if y is None:
                E.oblige(s, x is None, PID, label + ': no anchor and no tag')
            elif callable(y):
                E.oblige(s, y(x), PID, label + ': how it is written')
            else:
                E.oblige(s, x is not None and x == y, PID, label + ': text and tag')


def isone(x):
    return simp(bv(x, 32) != 0)


def iszero(x):
    return simp(bv(x, 32) == 0)


def plain(x):
    return simp(z3.Or(bv(x, 32) == ANY, bv(x, 32) == PLAIN))


def style(x):
    return simp(z3.ULE(bv(x, 32), 5))


def verify_op(E, op):
    X = Em(E)
    st = X.st
    args, want = [X.o], None
    scalar = lambda t, how, tag=None, imp=isone: ('scalar', None, tag, t, imp, imp, how)
    wants = None
    if op in ('EmitNull()', 'EmitTrue()', 'EmitFalse()'):
        want = [scalar(T.lit({'EmitNull()': b'null', 'EmitTrue()': b'true', 'EmitFalse()': b'false'}[op]), plain)]
    elif op in ('BeginMap(int)', 'BeginList(int)'):
        args.append(z3.BitVec('length', 32))
        want = [('map' if 'Map' in op else 'list', None, None, isone)]
    elif op in ('EndMap()', 'EndList()'):
        want = [('map end' if 'Map' in op else 'list end',)]
    elif op == 'Emit(char const*)':
        p, t = given(E, st, 'given')
        args.append(p)
        wants = (z3.And(ISTEXT(t), t != nil), [scalar(t, style)], [scalar(t, lambda x: simp(z3.And(z3.UGE(bv(x, 32), 2), z3.ULE(bv(x, 32), 5))))])
    elif op in ('Emit(long)', 'Emit(unsigned long)'):
        v = z3.BitVec('v', 64)
        args.append(v)
        t = (JE.DEC_S if op == 'Emit(long)' else JE.DEC_U)(v)
        st.assume(z3.ULT(T.blen(t), 64))
        want = [scalar(t, plain)]
    elif op == 'Emit(double)':
        v = z3.FP('v', FP['double'])
        args.append(v)
        t = z3.If(z3.fpIsNaN(v), T.lit(b'.nan'), z3.If(z3.fpIsInf(v), z3.If(z3.fpIsNegative(v), T.lit(b'-.inf'), T.lit(b'.inf')), JE.FMT(v, X.precision, z3.BoolVal(True))))
        st.assume(z3.ULT(T.blen(JE.FMT(v, X.precision, z3.BoolVal(True))), 1 << 30))
        want = [scalar(t, plain)]
    else:
        B = Encoded(E, st, PID)
        args.append(B.pointer)
        want = [scalar(B.text, style, T.lit(BINARY), iszero)]
        pattern(E, r'std::__shared_ptr_access<libvariant::Blob const.*>::operator->\(\) const', lambda E, st, a, call: E.load(st, a[0], 8, 'ptr'))
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::' + op)[0], st, args):
        k += 1
        E.oblige(s, X.shut(s) == X.closed, PID, 'nothing else changes')
        E.oblige(s, s.ghost['live'] == 0, PID, 'no event is left over')
        if kind == 'exc':
            E.oblige(s, z3.Or(z3.BoolVal(s.ghost['failed']), X.closed), PID, 'an event is refused only if the writer fails or is closed')
            continue
        E.oblige(s, z3.And(z3.Not(X.closed), z3.BoolVal(not s.ghost['failed'])), PID, 'what cannot be written is reported')
        E.oblige(s, X.isin(s), PID, 'events are inside of a document')
        for t, pre in zip(split(E, s, X.inside), ([], [('document start',)])):
            if t is None:
                continue
            if wants is None:
                written(E, t, pre + want, op)
            else:
                for u, w in zip(split(E, t, wants[0]), wants[1:]):
                    if u is not None:
                        written(E, u, pre + w, 'a text')
    E.oblige(st, k > 0, PID, 'returns')


def verify_document(E, op):
    X = Em(E)
    st = X.st
    E.cover(st, 'precondition')
    k = 0
    begin = op == 'BeginDocument()'
    for kind, s, r in E.run_function(E.P.find(EM + '::' + op)[0], st, [X.o]):
        k += 1
        E.oblige(s, X.shut(s) == X.closed, PID, 'nothing else changes')
        E.oblige(s, s.ghost['live'] == 0, PID, 'no event is left over')
        if kind == 'exc':
            E.oblige(s, z3.Or(z3.BoolVal(s.ghost['failed']), X.closed), PID, 'a document is refused only if the writer fails or is closed')
            continue
        E.oblige(s, z3.And(z3.Not(X.closed), z3.BoolVal(not s.ghost['failed']), X.isin(s) == z3.BoolVal(begin)), PID, 'inside or outside of a document')
        for t, isin in zip(split(E, s, X.inside), (True, False)):
            if t is None:
                continue
            if begin:
                written(E, t, ([('document end',)] if isin else []) + [('document start',)], op)
            else:
                written(E, t, ([] if isin else [('document start',)]) + [('document end',)], op)
    E.oblige(st, k > 0, PID, 'returns')


def verify_finish(E, op):
    X = Em(E)
    st = X.st
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::' + op)[0], st, [X.o]):
        k += 1
        E.oblige(s, s.ghost['live'] == 0, PID, 'no event is left over')
        if op == 'Flush()':
            E.oblige(s, (kind == 'exc') == z3.Or(X.closed, z3.BoolVal(s.ghost['failed'])), PID, 'what cannot be passed on is reported')
            E.oblige(s, z3.And(X.shut(s) == X.closed, X.isin(s) == X.inside), PID, 'nothing else changes')
            if kind == 'ret':
                written(E, s, [('flush',)], 'flush')
            continue
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'closing fails only if the writer does')
        if kind != 'ret':
            E.oblige(s, s.ghost['deleted'] == 0 and s.ghost['released'] == 0 and z3.Not(X.shut(s)), PID, 'a writer that could not be closed is whole')
            continue
        E.oblige(s, X.shut(s), PID, 'the writer is closed')
        yes, no = split(E, s, X.closed)
        if yes is not None:
            written(E, yes, [], 'closing again')
            E.oblige(yes, yes.ghost['deleted'] == 0, PID, 'the emitter is deleted once')
        if no is not None:
            E.oblige(no, no.ghost['deleted'] == 1 and no.ghost['released'] == 1, PID, 'emitter and target are released')
            for t, pre in zip(split(E, no, X.inside), ([('document end',)], [])):
                if t is not None:
                    written(E, t, pre + [('stream end',), ('flush',)], 'closing')
    E.oblige(st, k > 0, PID, 'returns')


def verify_destroy(E):
    """the emitter of libyaml is deleted exactly once"""
    X = Em(E)
    st = X.st
    st.ghost['closing'] = False

    def close(E, st, a, call):
        bad = raised(E, st)
        outs = []
        yes, no = split(E, st, X.closed)
        if yes is not None:
            outs.append(Out(yes, None))
        if no is not None:
            no.ghost['deleted'] += 1
            X.f.put(no, 'closed', z3.BitVecVal(1, 8))
            outs.append(Out(no, None))
        bad.st.assume(z3.Not(X.closed))
        if E.feasible(bad.st):
            outs.append(bad)
        return outs
    E.summaries[EM + '::Close()'] = close
    pattern(E, r'std::(__)?shared_ptr<libvariant::EmitterOutput.*>::~(__)?shared_ptr\(\)', lambda E, st, a, call: None)
    pattern(E, r'libvariant::EmitterImpl::~EmitterImpl\(\)', lambda E, st, a, call: None)
    k = 0
    for kind, s, r in E.run_function([g for g in E.P.find(EM + '::~YAMLEmitterImpl()') if 'D0Ev' not in g.name][0], st, [X.o]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'no exception leaves')
        for t, n in zip(split(E, s, X.closed), (0, 1)):
            if t is not None:
                E.oblige(t, t.ghost['deleted'] == n, PID, 'the emitter is deleted exactly once')
    E.oblige(st, k > 0, PID, 'returns')


PARAMS = {'SCALAR_STYLE': ('default_scalar_style', 'text', [b'any', b'plain', b'single quoted', b'double quoted', b'literal', b'folded']), 'MAP_STYLE': ('default_map_style', 'text', [b'any', b'block', b'flow']),
          'LIST_STYLE': ('default_list_style', 'text', [b'any', b'block', b'flow']), 'IMPLICIT_DOCUMENT_BEGIN': ('implicit_begin_document', 'bool', None), 'IMPLICIT_DOCUMENT_END': ('implicit_end_document', 'bool', None),
          'INDENT': ('indent', 'int', None), 'WIDTH': ('width', 'int', None), 'PRECISION': ('precision', 'unsigned int', None)}


def verify_get(E, name, i):
    """a setting that is asked for is the one in use"""
    X = Em(E)
    st, c = X.st, X.c
    field, kind0, words = PARAMS[name]
    if words is not None:
        c.put(st, field, z3.BitVecVal(i, 32))
    now = c.term(st, field)
    out = E.new_obj(st, 'result', size=E.P.types[NS + 'Variant']['size'])

    def ctor(t):
        def g(E, st, a, call):
            E.oblige(st, same(a[0], out), PID, 'the result')
            st.ghost['made'] = Log().add(t, const_cstr(E, st, a[1]) if t == 'text' else a[1])
        return g
    for t in ('char const*', 'bool', 'int', 'unsigned int', 'long', 'unsigned long'):
        E.summaries[NS + 'Variant::Variant(%s)' % t] = ctor('text' if t == 'char const*' else t)
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::Config::GetParam(libvariant::YAMLEmitterImpl::ConfigKeys)')[0], st, [out, c.p, enum(E.P, EM + '::ConfigKeys', name)]):
        k += 1
        m = s.ghost.get('made')
        E.oblige(s, kind == 'ret' and m is not None and (m.l[0][0] == kind0 or kind0 == 'int' and m.l[0][0] == 'long'), PID, 'a setting is returned')
        if m is None:
            continue
        v = m.l[0][1]
        if words is not None:
            E.oblige(s, v == words[i], PID, 'the style in use')
        elif kind0 == 'bool':
            E.oblige(s, V.tob(v) == (now != 0), PID, 'the setting in use')
        else:
            E.oblige(s, bv(v, 32) == now if m.l[0][0] != 'long' else bv(v) == z3.SignExt(32, now), PID, 'the setting in use')
    E.oblige(st, k > 0, PID, 'returns')


def verify_set(E, name, i):
    """the setting given is the one in use, and no other changes"""
    X = Em(E)
    st, c = X.st, X.c
    field, kind0, words = PARAMS[name]
    val = E.new_obj(st, 'value', size=E.P.types[NS + 'Variant']['size'])
    given = z3.BitVec('setting', 32)
    truth = z3.Bool('truth')
    pattern(E, r'libvariant::Variant::As(Int|Unsigned)\(\) const', lambda E, st, a, call: given)
    pattern(E, r'libvariant::Variant::AsBool\(\) const', lambda E, st, a, call: truth)
    if words is not None:
        w = words[i]
        pattern(E, r'libvariant::Variant::AsString.*\(\) const', lambda E, st, a, call: E.gput(st, a[0], GStr(T.lit(w))))
        pattern(E, r'bool std::operator==<char, .*>\(std::.*string.* const&, char const\*\)', lambda E, st, a, call: int(const_cstr(E, st, a[1]) == w))
    others = [p[0] for p in PARAMS.values() if p[0] != field]
    before = {n: c.term(st, n) for n in others}
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::Config::SetParam(libvariant::YAMLEmitterImpl::ConfigKeys, libvariant::Variant)')[0], st, [c.p, enum(E.P, EM + '::ConfigKeys', name), val]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'a setting is taken')
        want = z3.BitVecVal(i, 32) if words is not None else z3.If(truth, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if kind0 == 'bool' else given
        E.oblige(s, c.term(s, field) == want, PID, 'the setting is the one given')
        E.oblige(s, z3.And(*[c.term(s, n) == before[n] for n in others]), PID, 'other settings stay')
    E.oblige(st, k > 0, PID, 'returns')


WORDS = ['scalar_style', 'map_style', 'list_style', 'implicit_document_begin', 'implicit_document_end', 'indent', 'width', 'precision']
SSIG = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'


def verify_named(E, fn, name):
    """settings by name are the settings of that kind"""
    X = Em(E)
    st, c = X.st, X.c
    opt = Options(E, st, PID, WORDS)
    order = {enum(E.P, EM + '::ConfigKeys', n.upper()): n for n in WORDS}
    log = st.ghost['kinds'] = Log()

    def kind_of(v):
        E.oblige(st, isc(v) and v in order, PID, 'a kind of setting')
        return order.get(v)

    def setone(E, st, a, call):
        bad = raised(E, st)
        E.oblige(st, same(a[0], c.p), PID, 'the settings of this writer')
        st.ghost['kinds'] = st.ghost['kinds'].add(kind_of(a[1]), opt.of(st, a[2]))
        return [Out(st, None), bad]

    def getone(E, st, a, call):
        E.oblige(st, same(a[1], c.p), PID, 'the settings of this writer')
        n = kind_of(a[2])
        st.ghost['kinds'] = st.ghost['kinds'].add(n, a[0])
        E.gput(st, a[0], GParam('value of ' + n))
    E.summaries[EM + '::Config::SetParam(libvariant::YAMLEmitterImpl::ConfigKeys, libvariant::Variant)'] = setone
    E.summaries[EM + '::Config::GetParam(libvariant::YAMLEmitterImpl::ConfigKeys)'] = getone
    out = E.new_obj(st, 'result', size=E.P.types[NS + 'Variant']['size'])
    unknown = name == 'something else'
    st.ghost['given'] = Log()
    E.trial_width = 300

    def contains(E, st, a, call):
        no = st.copy()
        st.ghost['given'] = st.ghost['given'].add(T.conc(E.gget(st, a[1], GStr).b).decode())
        return [Out(st, 1), Out(no, 0)]
    pattern(E, r'libvariant::Variant::Contains\(%s const&\) const' % STR, contains)
    sig, args = {'SetParam': ('SetParam(%s, libvariant::Variant)' % SSIG, lambda: [c.p, opt.name(st, name), opt.value(st, name)]),
                 'GetParam': ('GetParam(%s)' % SSIG, lambda: [out, c.p, opt.name(st, name)]),
                 'GetParams': ('GetParams()', lambda: [out, c.p]),
                 'SetParams': ('SetParams(libvariant::Variant)', lambda: [c.p, opt.p]),
                 'Config': ('Config(libvariant::Variant)', lambda: [c.p, opt.p])}[fn]
    if fn == 'Config':
        def params(E, st, a, call):
            E.oblige(st, same(a[0], c.p) and opt.of(st, a[1]) is None, PID, 'all settings given are used')
            bad = raised(E, st)
            E.oblige(st, z3.UGE(c.term(st, 'precision'), 17), PID, 'numbers are written with all digits unless asked otherwise')
            for n in ('default_scalar_style', 'default_map_style', 'default_list_style'):
                E.oblige(st, c.term(st, n) == 0, PID, 'styles are left to libyaml unless asked otherwise')
            st.ghost['kinds'] = st.ghost['kinds'].add('all')
            return [Out(st, None), bad]
        E.summaries[EM + '::Config::SetParams(libvariant::Variant)'] = params
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::Config::' + sig)[0], st, args()):
        k += 1
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'only a value of another type is refused')
        if kind == 'exc':
            continue
        l = s.ghost['kinds'].l
        if fn == 'Config':
            E.oblige(s, l == (('all',),), PID, 'the settings given are used')
        elif fn == 'SetParam':
            E.oblige(s, l == (() if unknown else ((name, name),)), PID, 'the setting of that name is changed, no other')
        elif fn == 'GetParam':
            E.oblige(s, len(l) == (0 if unknown else 1) and all(x[0] == name and same(x[1], out) for x in l), PID, 'the setting of that name is returned')
        elif fn == 'SetParams':
            E.oblige(s, all(x[0] == x[1] for x in l) and len(set(l)) == len(l), PID, 'each setting is given the value of its name, once')
            E.oblige(s, {x[0] for x in l} == {x[0] for x in s.ghost['given'].l}, PID, 'every setting given is used, no other')
        else:
            p = s.ghost.get('stored', Log()).l
            E.oblige(s, sorted(x[0] for x in p) == sorted(WORDS) and all(x[2] == 'value of ' + x[0] for x in p), PID, 'every setting is returned under its name')
    E.oblige(st, k > 0, PID, 'returns')


def verify_create(E):
    """a new writer writes to its target with the settings given; a failure leaves nothing behind"""
    X = Em(E)
    st, f, c = X.st, X.f, X.c
    opt = Options(E, st, PID, WORDS)
    indent, width = z3.BitVec('conf_indent', 32), z3.BitVec('conf_width', 32)
    st.ghost['deleted'] = 1
    st.ghost['set'] = Log()

    def conf(E, st, a, call):
        E.oblige(st, same(a[0], c.p) and opt.of(st, a[1]) is None, PID, 'the settings given are used')
        bad = raised(E, st)
        c.put(st, 'indent', indent)
        c.put(st, 'width', width)
        return [Out(st, None), bad]
    E.summaries[EM + '::Config::Config(libvariant::Variant)'] = conf

    def init(E, st, a, call):
        E.oblige(st, same(a[0], X.em), PID, 'the emitter of this writer')
        bad = st.copy()
        bad.ghost['failed'] = True
        st.ghost['deleted'] = 0
        return [Out(st, 1), Out(bad, 0)]

    def setting(n):
        def g(E, st, a, call):
            E.oblige(st, same(a[0], X.em) and st.ghost['deleted'] == 0, PID, 'the emitter of this writer')
            st.ghost['set'] = st.ghost['set'].add(n, *a[1:])
        return g

    def start(E, st, a, call):
        E.oblige(st, st.ghost['deleted'] == 0, PID, 'the emitter is ready')
        bad = raised(E, st)
        st.ghost['out'] = st.ghost['out'].add('stream start')
        return [Out(st, None), bad]
    E.summaries['yaml_emitter_initialize'] = init
    for n in ('output', 'indent', 'width'):
        E.summaries['yaml_emitter_set_' + n] = setting(n)
    E.summaries[EM + '::EmitStreamStart()'] = start
    target = E.new_obj(st, 'target pointer', size=16, cells={0: (8, X.target), 8: (8, NULL)})
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::YAMLEmitterImpl(std::shared_ptr<libvariant::EmitterOutput>, libvariant::Variant)')[0], st, [X.o, target, opt.p]):
        k += 1
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'it fails only if something it needs does')
        if kind == 'exc':
            E.oblige(s, s.ghost['deleted'] == 1, PID, 'the emitter is released on failure')
            continue
        E.oblige(s, s.ghost['deleted'] == 0 and [x[0] for x in s.ghost['out'].l] == ['stream start'], PID, 'the stream is begun')
        E.oblige(s, z3.Not(z3.Or(X.shut(s), X.isin(s))), PID, 'it is open, before the first document')
        E.oblige(s, same(E.load(s, f.ptr('out'), 8, 'ptr'), X.target), PID, 'the target is kept')
        l = s.ghost['set'].l
        o = [x for x in l if x[0] == 'output']
        E.oblige(s, len(o) == 1 and 'WriteHandler' in E.objs[o[0][1].obj].name and same(o[0][2], X.target), PID, 'the bytes go to the target')
        for n, v in (('indent', indent), ('width', width)):
            x = [y for y in l if y[0] == n]
            E.oblige(s, len(x) == 1 and bv(x[0][1], 32) == v if x else v <= 0, PID, 'the setting is in use')
    E.oblige(st, k > 0, PID, 'returns')


def verify_stream(E):
    """the stream is begun with one event"""
    X = Em(E)
    st = X.st
    k = 0
    for kind, s, r in E.run_function(E.P.find(EM + '::EmitStreamStart()')[0], st, [X.o]):
        k += 1
        E.oblige(s, (kind == 'exc') == s.ghost['failed'], PID, 'a failure is reported')
        E.oblige(s, s.ghost['live'] == 0, PID, 'every event is released')
        if kind == 'ret':
            E.oblige(s, [x[0] for x in s.ghost['out'].l] == ['stream start'], PID, 'the stream is begun')
    E.oblige(st, k > 0, PID, 'returns')


def verify_write(E):
    """bytes from libyaml go to the target"""
    st = base(E)
    st.ghost['out'] = Log()
    n = z3.BitVec('n', 64)
    st.assume(z3.ULT(n, 1 << 32))
    buf = E.new_obj(st, 'buffer', size=n)

    def write(E, st, a, inst):
        bad = raised(E, st)
        r = z3.FreshConst(BV32, 'written')
        st.ghost['out'] = st.ghost['out'].add('write', a[1], a[2], r)
        return [Out(st, r), bad]
    o = abstract_object(E, st, NS + 'EmitterOutput', {r'::Write\(': write}, name='target')
    k = 0
    for kind, s, r in E.run_function(E.P.find(NS + 'WriteHandler(void*, unsigned char*, unsigned long)')[0], st, [o, buf, n]):
        k += 1
        l = s.ghost['out'].l
        E.oblige(s, kind == 'ret', PID, 'no exception passes through libyaml')
        if kind == 'exc':
            continue
        if s.ghost['failed']:
            E.oblige(s, bv(r, 32) == 0, PID, 'a failure of the target is told')
        else:
            E.oblige(s, len(l) == 1 and same(l[0][1], buf), PID, 'the bytes are passed on once')
            if len(l) == 1:
                # zero is the only sign of failure
                E.oblige(s, z3.And(z3.ZeroExt(32, bv(l[0][2], 32)) == n, z3.Implies(l[0][3] != 0, bv(r, 32) != 0)), PID, 'all bytes are passed on')
    E.oblige(st, k > 0, PID, 'returns')


# ------------------------------------------------------------------ reading
def reader(E):
    st = base(E)
    conversions(E, PID)
    return st


def strcmp(E):
    def cmp(E, st, a, call):
        x, y = [ctext(E, st, p) for p in a[:2]]
        c, d = T.conc(x), T.conc(y)
        if c is not None and d is not None:
            return 0 if c == d else 1
        r = z3.FreshConst(BV32, 'compared')
        st.assume((r == 0) == (x == y))
        return r
    pattern(E, r'strcmp', cmp)


def verify_scalar(E, tagged):
    """a scalar of libyaml becomes an event"""
    st = reader(E)
    action = handler(E, st, PID)
    strcmp(E)
    st.ghost['guess'] = Log()
    p = E.new_obj(st, 'parser object', size=None)
    anchor = E.new_obj(st, 'anchor', size=None)
    n = z3.BitVec('length', 64)
    st.assume(z3.ULT(n, (1 << 31) - 1))
    arr = z3.Const('value', T.ARR)
    value = E.new_obj(st, 'value', size=n + 1, const=True)
    st.mem[value.obj] = OC({}, ((0, n + 1, arr),))
    st.assume(T.sel(arr, n) == 0)
    text = T.cat(nil, arr, bv(0), n)
    how = z3.BitVec('style', 32)
    st.assume(z3.ULE(how, 5))
    if tagged == 'none':
        tag = NULL
    elif tagged == 'binary':
        tag = str_view(E, st, T.lit(BINARY))
        E.objs[tag.obj].data = Text(T.lit(BINARY))
    else:
        tag, t = given(E, st, 'tag')
        st.assume(t != T.lit(BINARY))
        E.objs[tag.obj].data = Text(t)
    ev = E.new_obj(st, 'event', size=E.P.types['yaml_event_s']['size'], cells={0: (4, 6), 8: (8, anchor), 16: (8, tag), 24: (8, value), 32: (8, n), 48: (4, how)})

    def guess(E, st, a, call):
        bad = raised(E, st)
        st.ghost['guess'] = st.ghost['guess'].add(*a)
        return [Out(st, None), bad]
    E.summaries[NS + 'GuessScalar(char const*, unsigned int, char const*, char const*, libvariant::ParserImpl*, libvariant::ParserActions*)'] = guess
    E.cover(st, 'precondition')
    k = 0

    def event(s, kind, check, label):
        l = s.ghost['events'].l
        ok = len(l) == 1 and l[0][0] == kind and not s.ghost['guess'].l
        E.oblige(s, ok, PID, label + ': the event')
        if ok:
            e = l[0]
            E.oblige(s, same(e[1], p) and same(e[-2], anchor) and same(e[-1], tag), PID, label + ': its anchor and tag')
            E.oblige(s, check(e[2]), PID, label + ': its value')
    for kind, s, r in E.run_function(E.P.find(NS + 'ParseScalar(yaml_event_s&, libvariant::ParserImpl*, libvariant::ParserActions*)')[0], st, [ev, p, action]):
        k += 1
        if kind == 'exc':
            E.oblige(s, s.ghost['failed'], PID, 'a scalar is refused only by the handler')
            continue
        if tagged == 'binary':
            event(s, 'blob', lambda g: isinstance(g, GData) and g.coded and g.t == text, 'a blob')
            continue
        if tagged != 'none':
            event(s, 'text', lambda g: g == text, 'a tagged text')
            continue
        yes, no = split(E, s, z3.Or(how == ANY, how == PLAIN))
        if yes is not None:
            g = yes.ghost['guess'].l
            ok = len(g) == 1 and not yes.ghost['events'].l
            E.oblige(yes, ok, PID, 'a plain scalar is guessed')
            if ok:
                g = g[0]
                E.oblige(yes, same(g[0], value) and same(g[2], anchor) and same(g[3], tag) and same(g[4], p) and same(g[5], action), PID, 'a plain scalar is guessed for the handler')
                E.oblige(yes, z3.ZeroExt(32, bv(g[1], 32)) == n, PID, 'all of a plain scalar is guessed')
        if no is not None:
            event(no, 'text', lambda g: g == text, 'a quoted text')
    E.oblige(st, k > 0, PID, 'returns')


NO, SSTART, SEND, DSTART, DEND, ALIAS, SCALAR, LSTART, LEND, MSTART, MEND = range(11)


def verify_run(E):
    """the events of libyaml go to the handler on top, one by one"""
    st = reader(E)
    o = E.new_obj(st, 'reader object', size=E.P.types[PA]['size'])
    f = Fields(E, PA, o)
    ended = z3.Bool('ended')
    b8 = lambda c: z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    f.put(st, 'eof', b8(ended))
    f.put(st, 'err', b8(z3.Bool('err')))
    E.gput(st, f.ptr('errorstr'), GStr(z3.Const('errorstr', T.Bytes)))
    parser = f.ptr('parser')
    m = {x[0]: x[1] for x in E.P.types['yaml_parser_s']['members']}
    for n in ('problem', 'context'):
        E.put(st, E.padd(parser, m[n]), 8, E.new_obj(st, n, size=2, cells={0: (1, 63), 1: (1, 0)}, const=True))
    for k in (0, 8, 16):
        E.put(st, E.padd(parser, m['problem_mark'] + k), 8, z3.BitVec('mark%d' % k, 64))
    A, B, C = [E.new_obj(st, x, size=None) for x in ('anchor', 'tag', 'value')]
    # the event at hand: is it there, is it to be handled; the last one read; are handlers known to be there
    cells = E.new_obj(st, 'to do', size=16, cells={0: (4, 0), 4: (4, 0), 8: (4, 0), 12: (4, 1)})
    get = lambda s, k: bv(E.load(s, E.padd(cells, k), 4, 'i32'), 32)
    put = lambda s, k, v: E.put(s, E.padd(cells, k), 4, v)
    eof = lambda s: bv(f.get(s, 'eof'), 8) != 0
    handled = lambda t: z3.If(z3.UGE(t, DSTART), t, z3.BitVecVal(0, 32))

    def parse(E, st, a, call):
        E.oblige(st, same(a[0], parser), PID, 'the parser of this reader is used')
        E.oblige(st, get(st, 0) == 0, PID, 'an event is released before the next is read')
        E.oblige(st, get(st, 12) == 0, PID, 'nothing is read for handlers that are gone')
        E.oblige(st, z3.And(get(st, 8) != DEND, get(st, 8) != SEND, z3.Not(eof(st))), PID, 'nothing is read beyond the end of a document')
        bad = st.copy()
        bad.ghost['failed'] = True
        t = z3.FreshConst(BV32, 'type')
        st.assume(z3.ULE(t, MEND))
        put(st, 0, 1)
        put(st, 4, handled(t))
        put(st, 8, t)
        put(st, 12, 1)
        for off, size, v in ((0, 4, t), (8, 8, A), (16, 8, B), (24, 8, C)):
            E.put(st, E.padd(a[1], off), size, v)
        return [Out(st, 1), Out(bad, 0)]

    def delete(E, st, a, call):
        E.oblige(st, get(st, 0) == 1, PID, 'an event is released once')
        E.oblige(st, z3.Or(get(st, 4) == 0, z3.BoolVal(st.ghost['failed'])), PID, 'every event is handled')
        put(st, 0, 0)
    pattern(E, r'yaml_parser_parse', parse)
    pattern(E, r'yaml_event_delete', delete)

    def take(t, check):
        def g(E, st, a, inst):
            E.oblige(st, z3.And(get(st, 0) == 1, get(st, 4) == t), PID, 'an event is handled as what it is, once')
            E.oblige(st, same(a[1], o) and check(a), PID, 'with its anchor and tag, from this reader')
            bad = raised(E, st)
            put(st, 4, 0)
            return [Out(st, None), bad]
        return g
    two = lambda a: same(a[3], A) and same(a[4], B)
    action = abstract_object(E, st, NS + 'ParserActions', {
        r'::BeginDocument\(': take(DSTART, lambda a: True), r'::EndDocument\(': take(DEND, lambda a: True), r'::Alias\(': take(ALIAS, lambda a: same(a[2], A)),
        r'::BeginList\(': take(LSTART, two), r'::EndList\(': take(LEND, lambda a: True), r'::BeginMap\(': take(MSTART, two), r'::EndMap\(': take(MEND, lambda a: True)}, name='handler')

    def scalar(E, st, a, call):
        E.oblige(st, z3.And(get(st, 0) == 1, get(st, 4) == SCALAR), PID, 'an event is handled as what it is, once')
        E.oblige(st, z3.And(bv(E.load(st, a[0], 4, 'i32'), 32) == get(st, 8), z3.BoolVal(same(a[1], o) and same(a[2], action))), PID, 'with its anchor and tag, from this reader')
        bad = raised(E, st)
        put(st, 4, 0)
        return [Out(st, None), bad]
    E.summaries[NS + 'ParseScalar(yaml_event_s&, libvariant::ParserImpl*, libvariant::ParserActions*)'] = scalar
    E.summaries[NS + 'ParserImpl::TopAction()'] = lambda E, st, a, call: [Out(st, action), raised(E, st)]

    def empty(E, st, a, call):
        gone = st.copy()
        put(st, 12, 0)
        put(gone, 12, 2)
        return [Out(st, 0), Out(gone, 1)]
    pattern(E, r'std::deque<std::shared_ptr<libvariant::ParserActions>.*>::empty\(\) const', empty)

    def temps(E, L):
        cs = [('no event is left', lambda s: z3.And(get(s, 0) == 0, get(s, 4) == 0)), ('the end is known', lambda s: eof(s) == z3.Or(ended, get(s, 8) == SEND)), ('handlers', lambda s: get(s, 12) == 1),
              ('a type', lambda s: z3.ULE(get(s, 8), MEND)), ('nothing after the end', lambda s: z3.Implies(ended, get(s, 8) == 0))]
        for i in L.phi_ids:
            r = lambda s, i=i: s.frames[L.depth - 1].regs[i]
            w = {'i1': 1, 'i8': 8, 'i32': 32}.get(L.phi_ty[i])
            if w:
                on = (lambda s, r=r: V.tob(r(s))) if w == 1 else (lambda s, r=r, w=w: bv(r(s), w) != 0)
                cs.append(('it goes on inside of a document', lambda s, on=on: on(s) == z3.And(get(s, 8) != DEND, get(s, 8) != SEND)))
        return cs
    E.loop_templates.append(temps)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::Run()')[0], st, [o]):
        k += 1
        E.oblige(s, get(s, 0) == 0, PID, 'every event is released')
        if kind == 'exc':
            E.oblige(s, s.ghost['failed'], PID, 'reading fails only for broken text or a handler that refuses')
            E.oblige(s, bv(f.get(s, 'err'), 8) != 0, PID, 'the failure is kept')
            continue
        E.oblige(s, not s.ghost['failed'], PID, 'broken text is reported')
        E.oblige(s, get(s, 4) == 0, PID, 'every event is handled')
        code = bv(r, 32)
        E.oblige(s, z3.And(z3.Or(code == 0, code == 1), (code == 1) == eof(s), eof(s) == z3.Or(ended, get(s, 8) == SEND)), PID, 'the end is told at the end only')
        E.oblige(s, z3.Or(code == 1, get(s, 8) == DEND, get(s, 12) == 2), PID, 'reading stops after a document or when no handler is left')
    E.oblige(st, k > 0, PID, 'returns')


def verify_source(E):
    """libyaml gets the bytes of the source"""
    st = reader(E)
    o = E.new_obj(st, 'reader object', size=E.P.types[PA]['size'])
    f = Fields(E, PA, o)
    n = z3.BitVec('room', 64)
    st.assume(n > 0, n < 1 << 31)
    buf = E.new_obj(st, 'buffer', size=n)
    st.mem[buf.obj] = OC({}, ((0, n, z3.Const('buffer', T.ARR)),))
    took = E.new_obj(st, 'size', size=8, cells={0: (8, z3.BitVec('size_before', 64))})
    have = z3.BitVec('available', 32)
    src = E.new_obj(st, 'source bytes', size=simp2(z3.ZeroExt(32, have)), const=True)
    arr = z3.Const('source', T.ARR)
    st.mem[src.obj] = OC({}, ((0, E.objs[src.obj].size, arr),))
    st.ghost['took'] = Log()
    st.ghost['ended'] = False

    def getptr(E, st, a, inst):
        E.oblige(st, z3.ULE(z3.ZeroExt(32, bv(E.load(st, a[1], 4, 'i32'), 32)), n), PID, 'not more than there is room for is asked for')
        none, bad = st.copy(), raised(E, st)
        E.put(st, a[1], 4, have)
        none.ghost['ended'] = True
        return [Out(st, src), Out(none, NULL), bad]

    def release(E, st, a, inst):
        st.ghost['took'] = st.ghost['took'].add(bv(a[1], 32))
        return [Out(st, None)]
    inp = abstract_object(E, st, NS + 'ParserInput', {r'::GetPtr\(': getptr, r'::Release\(': release}, name='source')
    E.put(st, f.ptr('input'), 8, inp)
    E.put(st, E.padd(f.ptr('input'), 8), 8, NULL)
    k = 0
    for kind, s, r in E.run_function(E.P.find(PA + '::ParserReadHandler(void*, unsigned char*, unsigned long, unsigned long*)')[0], st, [o, buf, n, took]):
        k += 1
        if kind == 'exc':
            E.oblige(s, s.ghost['failed'], PID, 'reading fails only if the source does')
            continue
        E.oblige(s, not s.ghost['failed'] and bv(r, 32) == 1, PID, 'success is told')
        l = s.ghost['took'].l
        m = bv(E.load(s, took, 8, 'i64'), 64)
        if s.ghost['ended']:
            E.oblige(s, m == 0 and l == () if isc(m) else z3.And(m == 0, z3.BoolVal(l == ())), PID, 'the end of the source is told')
            continue
        h = z3.ZeroExt(32, have)
        J = z3.BitVec('j', 64)
        a1 = s.mem[buf.obj].regs[0][2]
        E.oblige(s, m == z3.If(z3.ULT(h, n), h, n), PID, 'how much was passed on')
        E.oblige(s, len(l) == 1 and z3.ZeroExt(32, l[0][0]) == m, PID, 'what was passed on is released')
        E.oblige(s, z3.Implies(z3.ULT(J, m), T.sel(a1, J) == T.sel(arr, J)), PID, 'the bytes of the source')
    E.oblige(st, k > 0, PID, 'returns')


def verify_done(E):
    st = reader(E)
    o = E.new_obj(st, 'reader object', size=E.P.types[PA]['size'])
    f = Fields(E, PA, o)
    ended, err = z3.Bool('ended'), z3.Bool('err')
    for n, v in (('eof', ended), ('err', err)):
        f.put(st, n, z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    for name, want in (('Done', ended), ('Error', err), ('Ok', z3.And(z3.Not(err), z3.Not(ended)))):
        for kind, s, r in E.run_function(E.P.find(PA + '::%s() const' % name)[0], st.copy(), [o]):
            E.oblige(s, kind == 'ret' and V.tob(r) == want, PID, name + ' tells how the reader is')


def verify_parser(E, fn):
    """the parser of libyaml reads from this source; it is made and released once"""
    st = reader(E)
    o = E.new_obj(st, 'reader object', size=E.P.types[PA]['size'])
    f = Fields(E, PA, o)
    for n in ('eof', 'err'):
        f.put(st, n, z3.BitVec(n, 8))
    E.gput(st, f.ptr('errorstr'), GStr(z3.Const('errorstr', T.Bytes)))
    Options(E, st, PID, WORDS)
    E.summaries[NS + 'ParserImpl::ParserImpl()'] = lambda E, st, a, call: None
    pattern(E, NS + r'ParserImpl::~ParserImpl\(\)', lambda E, st, a, call: None)
    st.ghost['live'] = 0 if fn == 'constructor' else 1
    st.ghost['input'] = None
    source = E.new_obj(st, 'source', size=None)
    held = E.new_obj(st, 'source pointer', size=16, cells={0: (8, source), 8: (8, NULL)})
    if fn != 'constructor':
        E.put(st, f.ptr('input'), 8, source)
        E.put(st, E.padd(f.ptr('input'), 8), 8, NULL)

    def init(E, st, a, call):
        E.oblige(st, same(a[0], f.ptr('parser')) and st.ghost['live'] == 0, PID, 'one parser is made')
        st.ghost['live'] = 1
        st.ghost['input'] = None
        return 1

    def delete(E, st, a, call):
        E.oblige(st, same(a[0], f.ptr('parser')) and st.ghost['live'] == 1, PID, 'the parser is released once')
        st.ghost['live'] = 0

    def source_of(E, st, a, call):
        E.oblige(st, same(a[0], f.ptr('parser')) and st.ghost['live'] == 1, PID, 'the parser of this reader')
        st.ghost['input'] = (E.objs[a[1].obj].name, a[2])
    E.summaries['yaml_parser_initialize'] = init
    E.summaries['yaml_parser_delete'] = delete
    E.summaries['yaml_parser_set_input'] = source_of
    if fn == 'destructor':
        F = [g for g in E.P.find(PA + '::~YAMLParserImpl()') if 'D0Ev' not in g.name][0]
    else:
        F = E.P.find(PA + ('::Reset()' if fn == 'Reset' else '::YAMLParserImpl(std::shared_ptr<libvariant::ParserInput>)'))[0]
    k = 0
    for kind, s, r in E.run_function(F, st, [o] + ([held] if fn == 'constructor' else [])):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'it succeeds')
        E.oblige(s, s.ghost['live'] == (0 if fn == 'destructor' else 1), PID, 'the parser is there until the reader ends')
        if fn == 'destructor':
            continue
        i = s.ghost['input']
        E.oblige(s, i is not None and 'ParserReadHandler' in i[0] and same(i[1], o), PID, 'it reads by this reader')
        E.oblige(s, z3.And(bv(f.get(s, 'eof'), 8) == 0, bv(f.get(s, 'err'), 8) == 0), PID, 'it is neither done nor failed')
        E.oblige(s, same(E.load(s, f.ptr('input'), 8, 'ptr'), source), PID, 'it reads from the source')
    E.oblige(st, k > 0, PID, 'returns')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, args, f):
        return Task('YAML: ' + name, fn, args, props=(PID,), safety=PID, funcs=f)
    out = []
    for op in ('BeginMap(int)', 'EndMap()', 'BeginList(int)', 'EndList()', 'EmitNull()', 'EmitTrue()', 'EmitFalse()', 'Emit(char const*)', 'Emit(long)',
               'Emit(unsigned long)', 'Emit(double)', 'Emit(std::shared_ptr<libvariant::Blob const>)'):
        out.append(t('writing, ' + op[:24], verify_op, (op,), [EM + '::' + x for x in (op, 'Emit(yaml_event_s&)', 'CheckInDocument', 'CheckClosed')]))
    for op in ('BeginDocument()', 'EndDocument()'):
        out.append(t('writing, ' + op, verify_document, (op,), [EM + '::' + op, EM + '::CheckOutDocument']))
    for op in ('Flush()', 'Close()'):
        out.append(t('writing, ' + op, verify_finish, (op,), [EM + '::' + op]))
    for n in PARAMS:
        for i, w in enumerate(PARAMS[n][2] or [b'']):
            out.append(t('asking for %s %s' % (n, w.decode()), verify_get, (n, i), [EM + '::Config::GetParam']))
            out.append(t('setting %s %s' % (n, w.decode()), verify_set, (n, i), [EM + '::Config::SetParam']))
    out.append(t('writing, the end of the writer', verify_destroy, (), [EM + '::~YAMLEmitterImpl']))
    for n in WORDS + ['something else']:
        out.append(t('setting by name, ' + n, verify_named, ('SetParam', n), [EM + '::Config::SetParam(string)']))
        out.append(t('asking by name, ' + n, verify_named, ('GetParam', n), [EM + '::Config::GetParam(string)']))
    for n in ('GetParams', 'SetParams', 'Config'):
        out.append(t('settings, ' + n, verify_named, (n, ''), [EM + '::Config::' + n]))
    out.append(t('writing, constructor', verify_create, (), [EM + '::YAMLEmitterImpl']))
    out.append(t('writing, stream start', verify_stream, (), [EM + '::EmitStreamStart']))
    out.append(t('writing, WriteHandler', verify_write, (), [NS + 'WriteHandler']))
    for n in ('none', 'binary', 'other'):
        out.append(t('reading, scalar with tag: ' + n, verify_scalar, (n,), [NS + 'ParseScalar']))
    for n in ('constructor', 'Reset', 'destructor'):
        out.append(t('reading, ' + n, verify_parser, (n,), [PA + '::' + {'constructor': 'YAMLParserImpl', 'destructor': '~YAMLParserImpl'}.get(n, n)]))
    out.append(t('reading, Run', verify_run, (), [PA + '::Run']))
    out.append(t('reading, ParserReadHandler', verify_source, (), [PA + '::ParserReadHandler']))
    out.append(t('reading, Done, Error and Ok', verify_done, (), [PA + '::' + x for x in ('Done', 'Error', 'Ok')]))
    return out
