"""Contracts for writing values as events and building values from events (src/VariantEmitting.cc, src/VariantParsing.cc, src/Emitter.cc, src/Parser.cc).

EMIT(trace, v) is the trace followed by the events of v; the writer is proved to give exactly it. The builder is proved step by step against a
stack of half-built values. That feeding the events of v to the builder gives v again is a lemma over both (by induction over v)."""
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, StrData, str_view
from ..facade import *
from .. import facade as FA
from .. import variants as V
from . import forms
from .forms import ctext

TU = ['src/VariantEmitting.cc', 'src/VariantParsing.cc', 'src/Emitter.cc', 'src/Parser.cc']
PID = 'P22'
BV32 = z3.BitVecSort(32)
Event = z3.Datatype('Event')
Event.declare('e_null')
Event.declare('e_bool', ('b', z3.BoolSort()))
Event.declare('e_int', ('i', T.BV64))
Event.declare('e_uint', ('u', T.BV64))
Event.declare('e_float', ('f', FP['double']))
Event.declare('e_text', ('t', T.Bytes))
Event.declare('e_blob', ('d', Val))
Event.declare('e_list', ('ln', BV32))
Event.declare('e_endlist')
Event.declare('e_map', ('mn', BV32))
Event.declare('e_endmap')
Event = Event.create()
Trace = z3.Datatype('Trace')
Trace.declare('none')
Trace.declare('then', ('before', Trace), ('event', Event))
Trace = Trace.create()
EMIT = z3.Function('events_of', Trace, Val, Trace)
EMITN = z3.Function('events_of_entries', Trace, Val, T.BV64, Trace)
then = Trace.then
RNE = z3.RNE()


def emit_step(t, v, ty, n):
    """the events of the entries of a container: definition"""
    p = EMITN(t, v, n)
    nx = EMIT(p, GETI(v, n)) if ty == LISTT else EMIT(then(p, Event.e_text(KEY(v, n))), GETK(v, KEY(v, n)))
    return z3.And(EMITN(t, v, bv(0)) == t, EMITN(t, v, n + 1) == nx)


def low(v):
    return z3.Extract(31, 0, LEN(v))


def double_of(v):
    return z3.fpFPToFP(RNE, FA.FLT(v), FP['double'])


def emit(t, v, ty):
    """the events of a value of a type"""
    if ty == LISTT:
        return then(EMITN(then(t, Event.e_list(low(v))), v, LEN(v)), Event.e_endlist)
    if ty == MAPT:
        return then(EMITN(then(t, Event.e_map(low(v))), v, LEN(v)), Event.e_endmap)
    e = {NULLT: Event.e_null, BOOLT: Event.e_bool(TRUTH(v)), INTT: Event.e_int(FA.SIGN(v)), UINTT: Event.e_uint(FA.UNSIG(v)),
         FLOATT: Event.e_float(double_of(v)), STRT: Event.e_text(TEXT(v)), BLOBT: Event.e_blob(v)}[ty]
    return then(t, e)


# ------------------------------------------------------------------ writing
class GBlob:
    """a shared pointer to the data of a blob"""
    SIZE = 16

    def __init__(self, v):
        self.v = v

    def gsame(self, o):
        return isinstance(o, GBlob) and self.v.eq(o.v)


OPS = {'EmitNull()': lambda E, st, a: Event.e_null, 'EmitTrue()': lambda E, st, a: Event.e_bool(True), 'EmitFalse()': lambda E, st, a: Event.e_bool(False),
       'Emit(long)': lambda E, st, a: Event.e_int(bv(a[1])), 'Emit(unsigned long)': lambda E, st, a: Event.e_uint(bv(a[1])),
       'Emit(double)': lambda E, st, a: Event.e_float(a[1]), 'Emit(%s const&)' % STR.replace('\\', ''): lambda E, st, a: Event.e_text(text(E, st, a[1])),
       'Emit(std::shared_ptr<libvariant::Blob const>)': lambda E, st, a: Event.e_blob(E.gget(st, a[1], GBlob).v),
       'BeginList(int)': lambda E, st, a: Event.e_list(bv(a[1], 32)), 'BeginMap(int)': lambda E, st, a: Event.e_map(bv(a[1], 32)),
       'EndList()': lambda E, st, a: Event.e_endlist, 'EndMap()': lambda E, st, a: Event.e_endmap}


def fails(E, st, what):
    """a state in which an operation failed with an exception"""
    s = st.copy()
    s.ghost['failed'] = True
    return Out(s, exc=throws(E, s))


def base(E):
    V.error_models(E)
    FA.setup(E)
    FA.strings(E)
    FA.maps(E)
    FA.lists(E)
    E.what = NULL
    st = State()
    st.assume(TYP(nullval) == NULLT, TYP(EMPTYMAP) == MAPT, LEN(EMPTYMAP) == 0, TYP(EMPTYLIST) == LISTT, LEN(EMPTYLIST) == 0)
    st.ghost['failed'] = False
    return st


def emitter_models(E):
    def op(f):
        def g(E, st, a, call):
            E.oblige(st, a[0].obj == E.emitter.obj and simp(bv(a[0].off) == bv(E.emitter.off)), PID, 'events go to the emitter given')
            bad = fails(E, st, 'event')
            st.ghost['trace'] = then(st.ghost['trace'], f(E, st, a))
            return [Out(st, a[0]), bad]
        return g
    for n, f in OPS.items():
        pattern(E, re.escape(NS + 'Emitter::' + n), op(f))
    BL = r'std::(__)?shared_ptr<libvariant::Blob( const)?.*>::'
    pattern(E, BL + r'(__)?shared_ptr(<.*>)?\(std::(__)?shared_ptr<.*>( const&|&&)\)', lambda E, st, a, call: E.gput(st, a[0], E.gget(st, a[1], GBlob)))
    pattern(E, BL + r'~(__)?shared_ptr\(\)', lambda E, st, a, call: None)

    def asblob(E, st, a, call):
        e, v = look(E, st, a[1])
        return need(E, st, z3.And(e, TYP(v) == BLOBT), lambda s: E.gput(s, a[0], GBlob(v)))
    pattern(E, VAR + r'::AsBlob\(\)( const)?', asblob)
    map_models(E)


def map_models(E):
    MAP = r'std::map<%s, %s, .*>::' % (STR, VAR)

    def asmap(E, st, a, call):
        e, v = look(E, st, a[0])

        def f(s):
            k = v.get_id()
            if k not in E.mapviews:
                E.mapviews[k] = (E.new_obj(s, 'entries', size=None, data=MapView(v)), v)
            p = E.mapviews[k][0]
            if p.obj not in s.mem:
                s.mem[p.obj] = OC({})
            return p
        return need(E, st, z3.And(e, TYP(v) == MAPT), f)
    pattern(E, VAR + r'::AsMap(\[abi:cxx11\])?\(\)( const)?', asmap)
    pattern(E, MAP + r'size\(\) const', lambda E, st, a, call: simp2(LEN(E.objs[a[0].obj].data.v)))
    pattern(E, MAP + r'empty\(\) const', lambda E, st, a, call: simp(LEN(E.objs[a[0].obj].data.v) == 0))
    pattern(E, MAP + r'c?begin\(\)( const)?', lambda E, st, a, call: Ptr(a[0].obj, 0))
    pattern(E, MAP + r'c?end\(\)( const)?', lambda E, st, a, call: Ptr(a[0].obj, simp2(LEN(E.objs[a[0].obj].data.v))))


OUT = NS + 'operator<<(libvariant::Emitter&, libvariant::Variant const&)'


def s_out(E, st, a, call):
    e, v = look(E, st, a[1])
    E.oblige(st, a[0].obj == E.emitter.obj, PID, 'events go to the emitter given')
    E.oblige(st, e, PID, 'the value to write is there')
    bad = fails(E, st, 'value')
    st.ghost['trace'] = EMIT(st.ghost['trace'], v)
    return [Out(st, a[0]), bad]


def value(E, st, name, ty=None):
    p = E.new_obj(st, name, size=64, const=True)
    v = z3.Const(name, Val)
    if ty is not None:
        st.assume(TYP(v) == ty)
    facts(st, v)
    st.mem[p.obj] = OC({0: (64, GV('val', v))})
    return p, v


def verify_out(E, ty):
    st = base(E)
    emitter_models(E)
    E.summaries[OUT] = s_out
    E.emitter = E.new_obj(st, 'emitter', size=16)
    t = z3.Const('trace', Trace)
    st.ghost['trace'] = t
    pv, v = value(E, st, 'value', ty)
    if ty in (LISTT, MAPT):
        b = then(t, (Event.e_list if ty == LISTT else Event.e_map)(low(v)))
        st.assume(emit_step(b, v, ty, bv(0)))

        def f(s, n):
            return z3.And(s.ghost['trace'] == EMITN(b, v, n))

        def temps(E, L):
            out = []
            for o, c in list(L.entry.mem.items()):
                for off, (size, x) in c.cells.items():
                    d = getattr(E.objs[x.obj], 'data', None) if size == 8 and isinstance(x, Ptr) and x.obj and not isinstance(x.obj, tuple) else None
                    if isinstance(d, (MapView, ListVal)) and d.v.eq(v):
                        def g(s, o=o, off=off, l=isinstance(d, ListVal)):
                            n = bv(E.load(s, Ptr(o, off), 8, 'ptr').off)
                            n, fits = (z3.LShR(n, 6), n == z3.LShR(n, 6) << 6) if l else (n, True)
                            return z3.And(fits, z3.ULE(n, LEN(v)), f(s, n))
                        out.append(('entries written so far', g))
            return out
        E.loop_templates.append(temps)
        E.entry_hooks.append(lambda x, i: emit_step(b, v, ty, i) if x.eq(v) else z3.BoolVal(True))
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(OUT)[0], st, [E.emitter, pv]):
        n += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'writing a value fails exactly if the emitter fails')
        if kind == 'ret':
            E.oblige(s, s.ghost['trace'] == emit(t, v, ty), PID, 'the events of the value')
            E.oblige(s, r.obj == E.emitter.obj, PID, 'the emitter is returned')
    E.oblige(st, n > 0, PID, 'writing returns')


# ------------------------------------------------------------------ building
BASE, LIST, MAP = [NS + 'Variant%sParserActions' % n for n in ('Base', 'List', 'Map')]
CTOR = '(libvariant::ParserState*, libvariant::VariantBaseParserActions*)'
APPEND = lambda v, x: INSI(v, LEN(v), x)
EV = {'null': 'Null(libvariant::ParserImpl*, char const*, char const*)', 'bool': 'Scalar(libvariant::ParserImpl*, bool, char const*, char const*)',
      'int': 'Scalar(libvariant::ParserImpl*, long, char const*, char const*)', 'uint': 'Scalar(libvariant::ParserImpl*, unsigned long, char const*, char const*)',
      'float': 'Scalar(libvariant::ParserImpl*, double, char const*, char const*)', 'text': 'Scalar(libvariant::ParserImpl*, char const*, unsigned int, char const*, char const*)',
      'blob': 'Scalar(libvariant::ParserImpl*, std::shared_ptr<libvariant::Blob>, char const*, char const*)'}
BOOLV = z3.Function('bool_value', z3.BoolSort(), Val)


class Calls:
    """what was called, in order"""

    def __init__(self, l=()):
        self.l = l

    def add(self, *x):
        return Calls(self.l + (x,))


def build_models(E):
    V.shared_models(E)
    BL = r'std::(__)?shared_ptr<libvariant::Blob( const)?.*>::'
    pattern(E, BL + r'(__)?shared_ptr(<.*>)?\(std::(__)?shared_ptr<.*>( const&|&&)\)', lambda E, st, a, call: E.gput(st, a[0], E.gget(st, a[1], GBlob)))
    pattern(E, BL + r'~(__)?shared_ptr\(\)', lambda E, st, a, call: None)

    def lit(f):
        def g(E, st, a, call):
            put_val(E, st, a[0], f(E, st, a[1]))
            return a[0]
        return g

    def of(st, x, ty, eq):
        st.assume(TYP(x) == ty, eq(x))
        return x
    C = VAR + r'::(Variant|operator=|Assign)\('
    pattern(E, C + r'bool\)', lit(lambda E, st, b: of(st, BOOLV(V.tob(b)), BOOLT, lambda x: TRUTH(x) == V.tob(b))))
    pattern(E, C + r'long\)', lit(lambda E, st, b: of(st, FA.INTV(bv(b)), INTT, lambda x: FA.SIGN(x) == bv(b))))
    pattern(E, C + r'unsigned long\)', lit(lambda E, st, b: of(st, FA.UINTV(bv(b)), UINTT, lambda x: FA.UNSIG(x) == bv(b))))
    pattern(E, C + r'double\)', lit(lambda E, st, b: of(st, FA.FLTV(z3.fpFPToFP(RNE, b, FP['x86_fp80'])), FLOATT, lambda x: FA.FLT(x) == z3.fpFPToFP(RNE, b, FP['x86_fp80']))))
    pattern(E, C + STR + r'( const&)?\)', lit(lambda E, st, b: of(st, FA.STRV(text(E, st, b)), STRT, lambda x: TEXT(x) == text(E, st, b))))
    pattern(E, C + r'std::shared_ptr<libvariant::Blob>\)', lit(lambda E, st, b: E.gget(st, b, GBlob).v))

    def of_type(E, st, a, call):
        if not isc(a[1]) or a[1] not in (NULLT, LISTT, MAPT):
            raise Unsupported('value of a type')
        put_val(E, st, a[0], {NULLT: nullval, LISTT: EMPTYLIST, MAPT: EMPTYMAP}[a[1]])
        return a[0]
    pattern(E, VAR + r'::Variant\(libvariant::VariantDefines::Type_t\)', of_type)

    def append(E, st, a, call):
        e, v = look(E, st, a[0])
        xe, x = look(E, st, a[1])

        def f(s):
            g = gv(E, s, a[0])
            w = APPEND(v, x)
            facts(s, w)
            if g.kind == 'ref':
                write(s, g.x, w)
            else:
                E.gput(s, a[0], GV('val', w))
            return a[0]
        return need(E, st, z3.And(e, xe, TYP(v) == LISTT), f)
    pattern(E, VAR + r'::Append\(libvariant::Variant\)', append)


ANCHORED = z3.Function('value_of_anchor', T.Bytes, Val)
KNOWN = z3.Function('anchor_is_known', T.Bytes, z3.BoolSort())


def anchor_models(E, state):
    """contracts of the table of anchors, proved in verify_anchor"""
    def note(E, st, a, call):
        E.oblige(st, a[0].obj == state.obj, PID, 'the anchors of this document')
        if a[1].obj != 0:
            st.ghost['anchored'] = st.ghost['anchored'].add(ctext(E, st, a[1]), look(E, st, a[2])[1])

    def get(E, st, a, call):
        E.oblige(st, a[1].obj == state.obj, PID, 'the anchors of this document')
        t = ctext(E, st, a[2])
        ex = st.copy()
        ex.assume(z3.Not(KNOWN(t)))
        ex.ghost['failed'] = True
        st.assume(KNOWN(t))
        put_val(E, st, a[0], ANCHORED(t))
        facts(st, ANCHORED(t))
        return [Out(st, None)] + ([Out(ex, exc=throws(E, ex))] if E.feasible(ex) else [])
    E.summaries[NS + 'ParserState::Anchor(char const*, libvariant::Variant)'] = note
    E.summaries[NS + 'ParserState::Anchor(char const*)'] = get
    pattern(E, STR + r'::(operator=|assign)\(char const\*\)', lambda E, st, a, call: E.gput(st, a[0], GStr(ctext(E, st, a[1]))) or a[0])


class Build:
    """one handler of events, with what is below it on the stack"""

    def __init__(self, E, cls):
        self.E, self.cls = E, cls
        self.st = st = base(E)
        build_models(E)
        st.ghost['calls'] = Calls()
        st.ghost['anchored'] = Calls()

        def push(E, st, a, inst):
            st.ghost['calls'] = st.ghost['calls'].add('push', E.load(st, a[1], 8, 'ptr'))
            # the stack of the reader owns it, too
            V.sp_retain(E, st, E.load(st, E.padd(a[1], 8), 8, 'ptr'))
            return [Out(st, None)]

        def pop(E, st, a, inst):
            if any(c[0] == 'pop' for c in st.ghost['calls'].l):
                E.oblige(st, False, PID, 'only this handler leaves the stack')
                raise PathEnd()
            # the owner that was the stack is now the caller
            st.ghost['calls'] = st.ghost['calls'].add('pop')
            V.sp_put(E, st, a[0], self.o, self.owners)
            return [Out(st, None)]

        def setv(E, st, a, inst):
            E.oblige(st, any(c[0] == 'pop' for c in st.ghost['calls'].l), PID, 'the handler below is told when it is the top of the stack')
            ex = st.copy()
            ex.ghost['failed'] = True
            st.ghost['calls'] = st.ghost['calls'].add('set', a[1], look(E, st, a[2])[1], None if a[3].obj == 0 else ctext(E, st, a[3]))
            return [Out(st, None), Out(ex, exc=throws(E, ex))]
        self.p = abstract_object(E, st, NS + 'ParserImpl', {r'::PushAction\(': push, r'::PopAction\(': pop})
        self.state = E.new_obj(st, 'state', size=E.P.types[NS + 'ParserState']['size'])
        self.F = Fields(E, NS + 'ParserState', self.state)
        anchor_models(E, self.state)
        self.total = root(st, 'total')
        E.gput(st, self.F.ptr('result'), GV('ref', self.total))
        self.below = NULL if cls == BASE else abstract_object(E, st, BASE, {r'::SetValue\(': setv})
        self.o = E.new_obj(st, 'handler', size=E.P.types[cls]['size'])
        F = E.P.find(cls + '::' + cls.split('::')[-1] + CTOR)[0]
        r = list(E.run_function(F, st, [self.o, self.state, self.below]))
        if len(r) != 1 or r[0][0] != 'ret':
            raise Unsupported('constructor of a handler')
        self.st = st = r[0][1]
        self.f = Fields(E, cls, self.o)
        # owned by the stack of the reader, the first one by ParseVariant as well
        self.owners = V.control(E, st, self.o, 2 if cls == BASE else 1)
        self.fresh = st.copy()

    def arbitrary(self, key=False):
        """any state between two events"""
        E, st, f = self.E, self.st, self.f
        self.result = root(st, 'result')
        E.gput(st, f.ptr('result'), GV('ref', self.result))
        v = self.before = read(st, self.result)[1]
        self.seen = z3.Bool('seen_begin_document')
        f.put(st, 'seen_begin_document', z3.If(self.seen, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        if self.cls == LIST:
            st.assume(TYP(v) == LISTT)
        if self.cls == MAP:
            st.assume(TYP(v) == MAPT)
            self.expects = z3.Bool('expects_key')
            f.put(st, 'expect_key', z3.If(self.expects, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            self.key = z3.Const('key', T.Bytes)
            E.gput(st, f.ptr('key'), GStr(self.key))
        self.total0 = read(st, self.total)[1]
        # the anchor of the list or map under construction
        self.anchor = nil
        if self.cls != BASE:
            self.anchor = z3.Const('own_anchor', T.Bytes)
            st.assume(T.nz(self.anchor), z3.ULT(T.blen(self.anchor), 1 << 31))
            E.gput(st, f.ptr('anchor'), GStr(self.anchor))

    def named(self, name):
        """an anchor, if there is to be one: its pointer and text"""
        return forms.given(self.E, self.st, 'anchor') if name else (NULL, None)

    def marks(self, s, t, x):
        """exactly this anchor was given to the value"""
        l = s.ghost['anchored'].l
        self.E.oblige(s, len(l) > 0 if t is not None else not l, PID, 'an anchor is noted if there is one')
        if t is not None:
            for i in l:
                self.E.oblige(s, z3.And(i[0] == t, i[1] == x), PID, 'the anchor stands for the value')

    def flag(self, s, n):
        return bv(self.f.get(s, n), 8) != 0

    def same(self, s, but=()):
        """the handler and the result are as before"""
        c = []
        if 'result' not in but:
            c.append(read(s, self.result)[1] == self.before)
        if 'done' not in but:
            c.append(z3.Not(self.flag(s, 'done')))
        if 'seen' not in but:
            c.append(self.flag(s, 'seen_begin_document') == self.seen)
        if 'total' not in but:
            c.append(read(s, self.total)[1] == self.total0)
        if self.cls == MAP and 'key' not in but:
            c += [self.flag(s, 'expect_key') == self.expects, text(self.E, s, self.f.ptr('key')) == self.key]
        if 'anchor' not in but:
            c.append(text(self.E, s, self.f.ptr('anchor')) == self.anchor)
        c.append(z3.BoolVal(self.f.get(s, 'state', 'ptr').obj == self.state.obj and self.f.get(s, 'base', 'ptr').obj == self.below.obj))
        return z3.And(*c)

    def finished(self, s, w, calls, but=()):
        """the handler has passed w on and is gone from the stack"""
        E = self.E
        gone = s.mem[self.o.obj].freed
        E.oblige(s, gone == (self.cls != BASE), PID, 'the handler is given up by the stack only')
        if not gone:
            E.oblige(s, self.flag(s, 'done'), PID, 'the handler is done')
        if self.cls == BASE:
            E.oblige(s, read(s, self.total)[1] == w, PID, 'the value read is the result')
            E.oblige(s, calls == (('pop',),), PID, 'the handler leaves the stack once')
        else:
            E.oblige(s, sorted(c[0] for c in calls) == ['pop', 'set'], PID, 'the value goes to the handler below, this one leaves the stack once')
            for c in calls:
                if c[0] == 'set':
                    E.oblige(s, c[1].obj == self.p.obj, PID, 'the handler below is told the reader')
                    E.oblige(s, self.anchor == nil if c[3] is None else c[3] == self.anchor, PID, 'the handler below is told the anchor')
                    E.oblige(s, c[2] == w, PID, 'the value goes to the handler below')
        if not gone:
            E.oblige(s, self.same(s, ('done', 'total', 'result') + but), PID, 'nothing else changes')


def verify_value(E, cls, ev, name=False):
    """a value without parts arrives"""
    B = Build(E, cls)
    B.arbitrary()
    pa, ta = B.named(name)
    own = ('anchor',) if name and cls == BASE else ()
    st = B.st
    args = [B.o, B.p]
    x = None
    if ev == 'null':
        x = nullval
    elif ev == 'bool':
        b = z3.Bool('b')
        args.append(b)
        x = BOOLV(b)
    elif ev in ('int', 'uint'):
        n = z3.BitVec('n', 64)
        args.append(n)
        x = (FA.INTV if ev == 'int' else FA.UINTV)(n)
    elif ev == 'float':
        d = z3.FP('d', FP['double'])
        args.append(d)
        x = FA.FLTV(z3.fpFPToFP(RNE, d, FP['x86_fp80']))
    elif ev == 'text':
        n = z3.BitVec('length', 32)
        arr = z3.Const('characters', T.ARR)
        size = simp2(z3.ZeroExt(32, n))
        q = E.new_obj(st, 'text', size=size, const=True)
        st.mem[q.obj] = OC({}, ((0, size, arr),))
        args += [q, n]
        t = T.cat(nil, arr, bv(0), size)
        x = FA.STRV(t)
        st.assume(TEXT(x) == t)
    else:
        x = z3.Const('blob', Val)
        st.assume(TYP(x) == BLOBT)
        q = E.new_obj(st, 'blob pointer', size=16)
        E.gput(st, q, GBlob(x))
        args.append(q)
    F = [f for f in E.P.fns.values() if f.dem == BASE + '::' + EV[ev]][0]
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(F, st, args + [pa, NULL]):
        k += 1
        calls = s.ghost['calls'].l
        if kind == 'ret':
            B.marks(s, ta, x)
        if cls == LIST:
            E.oblige(s, kind == 'ret' and calls == (), PID, 'an element of a list is taken')
            E.oblige(s, read(s, B.result)[1] == APPEND(B.before, x), PID, 'the element is put at the end')
            E.oblige(s, B.same(s, ('result',)), PID, 'nothing else changes')
        elif cls == MAP:
            E.oblige(s, calls == (), PID, 'an entry of a map stays in the map')
            if kind == 'exc':
                E.oblige(s, ev == 'blob' and B.expects, PID, 'only keys that have no text are refused')
                E.oblige(s, B.same(s), PID, 'a refused key changes nothing')
                continue
            E.oblige(s, z3.Or(z3.Not(B.expects), z3.BoolVal(ev != 'blob')), PID, 'keys that have no text are refused')
            after = B.flag(s, 'expect_key')
            E.oblige(s, after == z3.Not(B.expects), PID, 'keys and values take turns')
            E.oblige(s, z3.Implies(B.expects, z3.And(read(s, B.result)[1] == B.before, text(E, s, B.f.ptr('key')) == TEXT(x))), PID, 'the key is kept for the value')
            E.oblige(s, z3.Implies(z3.Not(B.expects), read(s, B.result)[1] == SETK(B.before, B.key, x)), PID, 'the value is put under its key')
            E.oblige(s, B.same(s, ('result', 'key')), PID, 'nothing else changes')
        else:
            E.oblige(s, kind == 'ret', PID, 'a value is taken')
            yes, no = split(E, s, B.seen)
            if yes is not None:
                E.oblige(yes, calls == () and read(yes, B.result)[1] == x, PID, 'inside a document the value is kept')
                E.oblige(yes, B.same(yes, ('result',) + own), PID, 'nothing else changes')
            if no is not None:
                B.finished(no, x, calls, own)
    E.oblige(st, k > 0, PID, 'returns')


def verify_set(E, cls, name=False):
    """a value, complete with its parts, arrives from the handler above, or an alias stands for it"""
    B = Build(E, cls)
    B.arbitrary()
    st = B.st
    alias = name == 'alias'
    pa, ta = B.named(name)
    own = ('anchor',) if name and cls == BASE else ()
    if alias:
        x, ta0, ta = ANCHORED(ta), ta, None
        facts(st, x)
        F, args = E.P.find(BASE + '::Alias(libvariant::ParserImpl*, char const*)'), [B.o, B.p, pa]
    else:
        px, x = value(E, st, 'arriving')
        F, args = E.P.find(cls + '::SetValue(libvariant::ParserImpl*, libvariant::Variant, char const*)'), [B.o, B.p, px, pa]
    E.cover(st, 'precondition')
    textless = z3.Or(TYP(x) == LISTT, TYP(x) == MAPT, TYP(x) == BLOBT)
    k = 0
    for kind, s, r in E.run_function(F[0], st, args):
        k += 1
        calls = s.ghost['calls'].l
        if alias and s.ghost['failed']:
            E.oblige(s, z3.And(kind == 'exc', z3.Not(KNOWN(ta0))), PID, 'an alias of no anchor is refused')
            E.oblige(s, B.same(s), PID, 'and changes nothing')
            continue
        if kind == 'ret':
            if alias:
                # the anchor may be given again, to the value it stands for
                for i in s.ghost['anchored'].l:
                    E.oblige(s, z3.And(i[0] == ta0, i[1] == x), PID, 'the anchor stands for the value')
            else:
                B.marks(s, ta, x)
        if cls == LIST:
            E.oblige(s, kind == 'ret' and calls == (), PID, 'an element of a list is taken')
            E.oblige(s, read(s, B.result)[1] == APPEND(B.before, x), PID, 'the element is put at the end')
            E.oblige(s, B.same(s, ('result',)), PID, 'nothing else changes')
        elif cls == MAP:
            E.oblige(s, calls == (), PID, 'an entry of a map stays in the map')
            if kind == 'exc':
                E.oblige(s, z3.And(textless, B.expects), PID, 'only keys that have no text are refused')
                E.oblige(s, B.same(s), PID, 'a refused key changes nothing')
                continue
            E.oblige(s, z3.Not(z3.And(textless, B.expects)), PID, 'keys that have no text are refused')
            E.oblige(s, B.flag(s, 'expect_key') == z3.Not(B.expects), PID, 'keys and values take turns')
            E.oblige(s, z3.Implies(B.expects, z3.And(read(s, B.result)[1] == B.before, text(E, s, B.f.ptr('key')) == TEXT(x))), PID, 'the key is kept for the value')
            E.oblige(s, z3.Implies(z3.Not(B.expects), read(s, B.result)[1] == SETK(B.before, B.key, x)), PID, 'the value is put under its key')
            E.oblige(s, B.same(s, ('result', 'key')), PID, 'nothing else changes')
        else:
            E.oblige(s, kind == 'ret', PID, 'a value is taken')
            yes, no = split(E, s, B.seen)
            if yes is not None:
                E.oblige(yes, calls == () and read(yes, B.result)[1] == x, PID, 'inside a document the value is kept')
                E.oblige(yes, B.same(yes, ('result',) + own), PID, 'nothing else changes')
            if no is not None:
                B.finished(no, x, calls, own)
    E.oblige(st, k > 0, PID, 'returns')


def verify_end(E, cls, ev):
    """the end of a list, a map or a document"""
    B = Build(E, cls)
    B.arbitrary()
    st = B.st
    own = {'EndList': LIST, 'EndMap': MAP, 'EndDocument': None}[ev]
    F = E.P.find(cls + '::' + ev + '(libvariant::ParserImpl*)') or E.P.find(BASE + '::' + ev + '(libvariant::ParserImpl*)') or E.P.find(NS + 'ParserActions::' + ev + '(libvariant::ParserImpl*)')
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(F[0], st, [B.o, B.p]):
        k += 1
        calls = s.ghost['calls'].l
        if own is not None and own != cls:
            E.oblige(s, kind == 'exc' and calls == (), PID, 'an end that fits no beginning is refused')
            E.oblige(s, B.same(s), PID, 'and changes nothing')
        elif kind == 'exc':
            E.oblige(s, s.ghost['failed'], PID, 'the end is refused only if the value is')
        else:
            E.oblige(s, not s.ghost['failed'], PID, 'a refused value is reported')
            B.finished(s, B.before, calls)
    E.oblige(st, k > 0, PID, 'returns')


def verify_begin(E, cls, ev, name=False):
    """the beginning of a list, a map or a document"""
    B = Build(E, cls)
    B.arbitrary()
    st = B.st
    pa, ta = B.named(name)
    args = [B.o, B.p] + ([z3.BitVec('length', 32), pa, NULL] if ev != 'BeginDocument' else [])
    F = E.P.find(BASE + '::' + ev + ('(libvariant::ParserImpl*, int, char const*, char const*)' if ev != 'BeginDocument' else '(libvariant::ParserImpl*)'))
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(F[0], st, args):
        k += 1
        calls = s.ghost['calls'].l
        E.oblige(s, kind == 'ret', PID, 'the beginning is taken')
        if ev == 'BeginDocument':
            E.oblige(s, calls == () and B.flag(s, 'seen_begin_document'), PID, 'the beginning of the document is noted')
            E.oblige(s, B.same(s, ('seen',)), PID, 'nothing else changes')
            continue
        E.oblige(s, B.same(s), PID, 'the handler waits unchanged')
        E.oblige(s, len(calls) == 1 and calls[0][0] == 'push', PID, 'a handler for the parts is put on the stack')
        if len(calls) != 1 or calls[0][0] != 'push':
            continue
        n = calls[0][1]
        c2 = LIST if ev == 'BeginList' else MAP
        f = Fields(E, c2, n)
        E.oblige(s, not s.mem[n.obj].freed, PID, 'it stays')
        E.oblige(s, f.get(s, 'base', 'ptr').obj == B.o.obj and f.get(s, 'state', 'ptr').obj == B.state.obj, PID, 'it knows the handler below')
        x = look(E, s, f.ptr('result'))[1]
        E.oblige(s, x == (EMPTYLIST if c2 == LIST else EMPTYMAP), PID, 'it starts empty')
        c = [bv(f.get(s, 'done'), 8) == 0, bv(f.get(s, 'seen_begin_document'), 8) == 0, text(E, s, f.ptr('anchor')) == (nil if ta is None else ta)]
        if c2 == MAP:
            c.append(bv(f.get(s, 'expect_key'), 8) == 1)
        E.oblige(s, z3.And(*c), PID, 'it starts at the beginning')
        vp = f.get(s, '_vptr$ParserActions', 'ptr')
        E.oblige(s, c2.split('::')[-1] in E.objs[vp.obj].name, PID, 'it is of the kind of the parts')
    E.oblige(st, k > 0, PID, 'returns')


def verify_anchor(E, case):
    """the table of anchors: the last value given an anchor is the one it stands for"""
    st = base(E)
    build_models(E)
    o = E.new_obj(st, 'state', size=E.P.types[NS + 'ParserState']['size'])
    f = Fields(E, NS + 'ParserState', o)
    pa, t = forms.given(E, st, 'anchor')
    st.ghost['slots'] = Calls()
    pattern(E, STR + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', lambda E, st, a, call: E.gput(st, a[0], GStr(ctext(E, st, a[1]))))
    M = r'std::map<%s, %s, .*>::' % (STR, VAR)

    def index(E, st, a, call):
        E.oblige(st, a[0].obj == o.obj and a[0].off == f.ptr('anchors').off, PID, 'the table of this document')
        k = text(E, st, a[1])
        q = root(st, 'slot')
        p = E.new_obj(st, 'slot', size=64)
        E.gput(st, p, GV('ref', q))
        st.ghost['slots'] = st.ghost['slots'].add(k, q)
        return p

    def at(E, st, a, call):
        E.oblige(st, a[0].obj == o.obj and a[0].off == f.ptr('anchors').off, PID, 'the table of this document')
        k = text(E, st, a[1])
        ex = st.copy()
        ex.assume(z3.Not(KNOWN(k)))
        st.assume(KNOWN(k))
        p = E.new_obj(st, 'slot', size=64, const=True)
        st.mem[p.obj] = OC({0: (64, GV('val', ANCHORED(k)))})
        return [Out(st, p), Out(ex, exc=throws(E, ex))]
    pattern(E, M + r'operator\[\]\(.*\)', index)
    pattern(E, M + r'at\(.*\)', at)
    k = 0
    if case == 'get':
        out = E.new_obj(st, 'result', size=64)
        for kind, s, r in E.run_function(E.P.find(NS + 'ParserState::Anchor(char const*)')[0], st, [out, o, pa]):
            k += 1
            E.oblige(s, KNOWN(t) == (kind == 'ret'), PID, 'an anchor nobody gave is refused')
            if kind == 'ret':
                E.oblige(s, look(E, s, out)[1] == ANCHORED(t), PID, 'it stands for the value kept')
    else:
        px, x = value(E, st, 'arriving')
        for kind, s, r in E.run_function(E.P.find(NS + 'ParserState::Anchor(char const*, libvariant::Variant)')[0], st, [o, pa if case == 'set' else NULL, px]):
            k += 1
            l = s.ghost['slots'].l
            E.oblige(s, kind == 'ret' and len(l) == (1 if case == 'set' else 0), PID, 'one anchor is given, if there is one')
            if len(l) == 1:
                E.oblige(s, z3.And(l[0][0] == t, read(s, l[0][1])[1] == x), PID, 'the value is kept under its anchor, in place of an earlier one')
    E.oblige(st, k > 0, PID, 'returns')


# ------------------------------------------------------------------ writing and building again
Frame = z3.Datatype('Handler')
Frame.declare('frame', ('kind', BV32), ('val', Val), ('key', T.Bytes), ('expects', z3.BoolSort()))
Frame = Frame.create()
Stack = z3.Datatype('Handlers')
Stack.declare('bad')
Stack.declare('done', ('total', Val))
Stack.declare('on', ('below', Stack), ('top', Frame))
Stack = Stack.create()
KB, KL, KM = [z3.BitVecVal(i, 32) for i in range(3)]
FEED = z3.Function('after_events', Stack, Trace, Stack)
READ = z3.Function('read_again', Val, Val)
READN = z3.Function('entries_read_again', Val, T.BV64, Val)


def setv(S, x):
    """a value arrives at the top handler (as proved of SetValue)"""
    f = Stack.top(S)
    textless = z3.Or(TYP(x) == LISTT, TYP(x) == MAPT, TYP(x) == BLOBT)
    asmap = z3.If(Frame.expects(f), z3.If(textless, Stack.bad, Stack.on(Stack.below(S), Frame.frame(KM, Frame.val(f), TEXT(x), False))),
                  Stack.on(Stack.below(S), Frame.frame(KM, SETK(Frame.val(f), Frame.key(f), x), Frame.key(f), True)))
    one = z3.If(Frame.kind(f) == KB, Stack.done(x), z3.If(Frame.kind(f) == KL, Stack.on(Stack.below(S), Frame.frame(KL, APPEND(Frame.val(f), x), Frame.key(f), Frame.expects(f))), asmap))
    return z3.If(Stack.is_on(S), one, Stack.bad)


def wide(d):
    return z3.fpFPToFP(RNE, d, FP['x86_fp80'])


def step(S, e):
    """an event arrives (as proved of the handlers)"""
    f = Stack.top(S)
    end = lambda k: z3.If(z3.And(Stack.is_on(S), Frame.kind(f) == k), setv(Stack.below(S), Frame.val(f)), Stack.bad)
    r = Stack.bad
    for test, w in ((Event.is_e_null, setv(S, nullval)), (Event.is_e_bool, setv(S, BOOLV(Event.b(e)))), (Event.is_e_int, setv(S, FA.INTV(Event.i(e)))), (Event.is_e_uint, setv(S, FA.UINTV(Event.u(e)))),
                    (Event.is_e_float, setv(S, FA.FLTV(wide(Event.f(e))))), (Event.is_e_text, setv(S, FA.STRV(Event.t(e)))), (Event.is_e_blob, setv(S, Event.d(e))),
                    (Event.is_e_list, Stack.on(S, Frame.frame(KL, EMPTYLIST, nil, True))), (Event.is_e_map, Stack.on(S, Frame.frame(KM, EMPTYMAP, nil, True))),
                    (Event.is_e_endlist, end(KL)), (Event.is_e_endmap, end(KM))):
        r = z3.If(test(e), w, r)
    return r


def fed(S, t, e):
    return FEED(S, then(t, e)) == step(FEED(S, t), e)


def ready(S):
    f = Stack.top(S)
    return z3.And(Stack.is_on(S), z3.Or(Frame.kind(f) == KB, Frame.kind(f) == KL, z3.And(Frame.kind(f) == KM, z3.Not(Frame.expects(f)))))


def claim(S, t, v):
    return z3.Implies(ready(FEED(S, t)), FEED(S, EMIT(t, v)) == setv(FEED(S, t), READ(v)))


def read_again(v, ty):
    return {NULLT: nullval, BOOLT: BOOLV(TRUTH(v)), INTT: FA.INTV(FA.SIGN(v)), UINTT: FA.UINTV(FA.UNSIG(v)), FLOATT: FA.FLTV(wide(double_of(v))), STRT: FA.STRV(TEXT(v)), BLOBT: v}.get(ty, READN(v, LEN(v)))


def read_step(v, ty, n):
    x = APPEND(READN(v, n), READ(GETI(v, n))) if ty == LISTT else SETK(READN(v, n), KEY(v, n), READ(GETK(v, KEY(v, n))))
    return z3.And(READN(v, bv(0)) == (EMPTYLIST if ty == LISTT else EMPTYMAP), READN(v, n + 1) == x)


def verify_again(E, ty):
    """by induction over the value: the events of v, fed to handlers that wait for a value, make v arrive there"""
    st = base(E)
    S, t, v, n = z3.Const('S', Stack), z3.Const('t', Trace), z3.Const('v', Val), z3.BitVec('n', 64)
    st.assume(TYP(v) == ty, EMIT(t, v) == emit(t, v, ty), READ(v) == read_again(v, ty), ready(FEED(S, t)))
    facts(st, v)
    E.cover(st, 'precondition')
    if ty not in (LISTT, MAPT):
        e = Trace.event(emit(t, v, ty))
        st.assume(fed(S, t, e))
        st.assume(TYP(FA.STRV(TEXT(v))) == STRT, TYP(nullval) == NULLT)
        E.oblige(st, claim(S, t, v), PID, 'a value without parts arrives')
        return
    e = (Event.e_list if ty == LISTT else Event.e_map)(low(v))
    b = then(t, e)
    K = KL if ty == LISTT else KM
    st.assume(fed(S, t, e), emit_step(b, v, ty, n), read_step(v, ty, n))
    X = FEED(S, t)
    keyed = z3.Function('key_before', T.BV64, T.Bytes)
    so_far = lambda m: z3.And(Stack.is_on(FEED(S, EMITN(b, v, m))), Stack.below(FEED(S, EMITN(b, v, m))) == X,
                              Frame.kind(Stack.top(FEED(S, EMITN(b, v, m)))) == K, Frame.val(Stack.top(FEED(S, EMITN(b, v, m)))) == READN(v, m), Frame.expects(Stack.top(FEED(S, EMITN(b, v, m)))))
    E.oblige(st, so_far(bv(0)), PID, 'the beginning puts an empty container on the stack')
    s = st.copy()
    s.assume(z3.ULT(n, LEN(v)), so_far(n))
    u = EMITN(b, v, n)
    if ty == MAPT:
        k = Event.e_text(KEY(v, n))
        s.assume(fed(S, u, k), TEXT(FA.STRV(KEY(v, n))) == KEY(v, n), TYP(FA.STRV(KEY(v, n))) == STRT)
        u = then(u, k)
    s.assume(claim(S, u, GETI(v, n) if ty == LISTT else GETK(v, KEY(v, n))))
    E.cover(s, 'one more entry')
    E.oblige(s, so_far(n + 1), PID, 'one more entry arrives in the container')
    s = st.copy()
    s.assume(so_far(LEN(v)), fed(S, EMITN(b, v, LEN(v)), Event.e_endlist if ty == LISTT else Event.e_endmap))
    E.oblige(s, claim(S, t, v), PID, 'the container arrives')


def verify_equal(E, ty):
    """what arrives is the value: same type, same content, same entries (again by induction)"""
    st = base(E)
    v, n, m = z3.Const('v', Val), z3.BitVec('n', 64), z3.BitVec('m', 64)
    st.assume(TYP(v) == ty, READ(v) == read_again(v, ty))
    facts(st, v)
    r = READ(v)
    if ty not in (LISTT, MAPT):
        x = read_again(v, ty)
        if ty == BOOLT:
            st.assume(TYP(x) == ty, TRUTH(x) == TRUTH(v))
        elif ty == INTT:
            st.assume(TYP(x) == ty, FA.SIGN(x) == FA.SIGN(v))
        elif ty == UINTT:
            st.assume(TYP(x) == ty, FA.UNSIG(x) == FA.UNSIG(v))
        elif ty == FLOATT:
            d = z3.FP('d', FP['double'])
            back = z3.fpFPToFP(RNE, wide(d), FP['double'])
            E.solvers = ((lambda: z3.Tactic('qffp').solver(), 1 << 30),)
            E.oblige(State(), z3.Implies(z3.Not(z3.fpIsNaN(d)), back == d), PID, 'a double precision number does not change when it is widened')
            E.solvers = type(E).solvers
            st.assume(TYP(x) == ty, FA.FLT(x) == wide(double_of(v)), FA.FLT(v) == wide(d), double_of(v) == back, back == d)
        elif ty == STRT:
            st.assume(TYP(x) == ty, TEXT(x) == TEXT(v))
        E.cover(st, 'precondition')
        same = {BOOLT: TRUTH(r) == TRUTH(v), INTT: FA.SIGN(r) == FA.SIGN(v), UINTT: FA.UNSIG(r) == FA.UNSIG(v), FLOATT: FA.FLT(r) == FA.FLT(v), STRT: TEXT(r) == TEXT(v), BLOBT: r == v}.get(ty, z3.BoolVal(True))
        E.oblige(st, z3.And(TYP(r) == TYP(v), same), PID, 'the same type and the same content')
        return
    st.assume(read_step(v, ty, n), TYP(EMPTYLIST) == LISTT, LEN(EMPTYLIST) == 0, TYP(EMPTYMAP) == MAPT)
    a, b = READN(v, n), READN(v, n + 1)
    if ty == LISTT:
        x = READ(GETI(v, n))
        so_far = lambda k: z3.And(TYP(READN(v, k)) == LISTT, LEN(READN(v, k)) == k, z3.Implies(z3.ULT(m, k), GETI(READN(v, k), m) == READ(GETI(v, m))))
        w = APPEND(a, x)
        st.assume(TYP(w) == LISTT, LEN(w) == LEN(a) + 1, GETI(w, m) == z3.If(m == LEN(a), x, GETI(a, m)))
        goal = z3.And(TYP(r) == LISTT, LEN(r) == LEN(v), z3.Implies(z3.ULT(m, LEN(v)), GETI(r, m) == READ(GETI(v, m))))
    else:
        k0 = z3.Const('k', T.Bytes)
        pos = z3.BitVec('number_of_k', 64)
        x = READ(GETK(v, KEY(v, n)))
        w = SETK(a, KEY(v, n), x)
        # k0 is an arbitrary text: the key with number pos, or no key of v
        st.assume(TYP(w) == MAPT, HAS(w, k0) == z3.Or(k0 == KEY(v, n), HAS(a, k0)), GETK(w, k0) == z3.If(k0 == KEY(v, n), x, GETK(a, k0)), z3.Not(HAS(EMPTYMAP, k0)))
        st.assume(z3.Implies(HAS(v, k0), z3.And(z3.ULT(pos, LEN(v)), KEY(v, pos) == k0)))
        st.assume(z3.Implies(z3.And(z3.ULT(n, LEN(v)), KEY(v, n) == k0), z3.And(HAS(v, k0), n == pos)))
        so_far = lambda j: z3.And(TYP(READN(v, j)) == MAPT, HAS(READN(v, j), k0) == z3.And(HAS(v, k0), z3.ULT(pos, j)), z3.Implies(HAS(READN(v, j), k0), GETK(READN(v, j), k0) == READ(GETK(v, k0))))
        goal = z3.And(TYP(r) == MAPT, HAS(r, k0) == HAS(v, k0), z3.Implies(HAS(v, k0), GETK(r, k0) == READ(GETK(v, k0))))
    E.cover(st, 'precondition')
    E.oblige(st, so_far(bv(0)), PID, 'no entries read so far')
    s = st.copy()
    s.assume(z3.ULT(n, LEN(v)), so_far(n))
    E.cover(s, 'one more entry')
    E.oblige(s, so_far(n + 1), PID, 'one more entry read')
    s = st.copy()
    s.assume(so_far(LEN(v)))
    E.oblige(s, goal, PID, 'the same entries')


# ------------------------------------------------------------------ whole values to and from targets
SB = 'std::basic_streambuf<char, std::char_traits<char>>*'
ST = 'libvariant::SerializeType'
STRC = STR.replace('\\', '') + ' const&'
WRITTEN = z3.Const('text_written', T.Bytes)
KIND = z3.BitVec('format', 32)


def note(st, *x):
    st.ghost['calls'] = st.ghost['calls'].add(*x)


def plumbing(E):
    st = base(E)
    build_models(E)
    st.ghost['calls'] = Calls()
    st.ghost['trace'] = Trace.none
    E.emitter = None
    st.assume(z3.ULT(KIND, 1 << 31))

    def output(E, st, a, call):
        bad = fails(E, st, 'target')
        o = E.new_obj(st, 'target', size=8, heap=True)
        note(st, 'output', call.dem.split('(', 1)[1][:-1], tuple(a[1:]), o)
        V.sp_put(E, st, a[0], o, V.control(E, st, o))
        return [Out(st, None), bad]

    def emitter(E, st, a, call):
        bad = fails(E, st, 'emitter')
        note(st, 'emitter', E.load(st, a[1], 8, 'ptr'), a[2], look(E, st, a[3])[1])
        E.emitter = a[0]
        return [Out(st, None), bad]

    def close(E, st, a, call):
        E.oblige(st, a[0].obj == E.emitter.obj, PID, 'the emitter is closed')
        bad = fails(E, st, 'close')
        note(st, 'close', st.ghost['trace'])
        for c in st.ghost['calls'].l:
            if c[0] == 'output' and c[1].startswith('void*'):
                E.put(st, c[2][2], 4, z3.BitVec('length_written', 32))
            if c[0] == 'output' and c[1] == SB and isinstance(E.objs[c[2][0].obj].data, tuple):
                st.ghost[('stream', E.objs[c[2][0].obj].data[1])] = WRITTEN
        return [Out(st, None), bad]
    pattern(E, NS + r'CreateEmitterOutput\(.*\)', output)
    pattern(E, NS + r'CreateEmitter\(.*\)', emitter)
    pattern(E, NS + r'Emitter::Close\(\)', close)
    pattern(E, NS + r'Emitter::~?Emitter\(\)', lambda E, st, a, call: None)
    E.summaries[OUT] = s_out
    FA.streams(E)
    from ..models_cxx import OSS
    pattern(E, OSS + r'::rdbuf\(\) const', lambda E, st, a, call: E.new_obj(st, 'buffer of a stream', size=8, data=('stream', a[0].obj)))
    pattern(E, OSS + r'::~basic_(o|i)?stringstream\(\)', lambda E, st, a, call: None)

    def put_input(E, st, a, call):
        bad = fails(E, st, 'source')
        o = E.new_obj(st, 'source', size=8, heap=True)
        note(st, 'input', call.dem.split('libvariant::', 1)[1], tuple(a[1:]), o)
        V.sp_put(E, st, a[0], o, V.control(E, st, o))
        return [Out(st, None), bad]

    def parser(E, st, a, call):
        bad = fails(E, st, 'reader')
        note(st, 'parser', E.load(st, a[1], 8, 'ptr'), a[2] if len(a) > 2 else None)
        E.parser = a[0]
        return [Out(st, None), bad]

    def parse(E, st, a, call):
        bad = fails(E, st, 'reading')
        E.oblige(st, a[1].obj == E.parser.obj, PID, 'the reader is used')
        note(st, 'parse')
        put_val(E, st, a[0], z3.Const('value_read', Val))
        return [Out(st, None), bad]

    def loadall(E, st, a, call):
        bad = fails(E, st, 'reading')
        E.oblige(st, a[1].obj == E.parser.obj, PID, 'the reader is used')
        note(st, 'all', a[0])
        return [Out(st, None), bad]
    pattern(E, NS + r'CreateParserInput(File)?\(.*\)', put_input)
    pattern(E, NS + r'CreateParser(Guess)?\(std.*\)', parser)
    pattern(E, NS + r'ParseVariant\(.*\)', parse)
    pattern(E, NS + r'LoadAllIterator::LoadAllIterator\(libvariant::Parser&\)', loadall)
    pattern(E, NS + r'Parser::~?Parser\(\)', lambda E, st, a, call: None)
    return st


def any_arg(E, st, ty):
    """an arbitrary argument: (value to pass, what to expect of it further on)"""
    if ty in ('_IO_FILE*', SB):
        p = E.new_obj(st, ty, size=8)
        return [p], p
    if ty == 'void*' or ty == 'void const*':
        n = z3.BitVec('length', 32)
        p = E.new_obj(st, 'block', size=simp2(z3.ZeroExt(32, n)))
        return [p, n], (p, n)
    b = z3.Const('text', T.Bytes)
    st.assume(z3.ULT(T.blen(b), 1 << 31))
    if ty == 'char const*':
        return [str_view(E, st, b)], b
    p = E.new_obj(st, 'string', size=32, const=True)
    st.mem[p.obj] = OC({0: (32, GStr(b))})
    return [p], b


def is_text(E, s, p, b, n=None):
    d = getattr(E.objs[p.obj], 'data', None)
    if not isinstance(d, StrData) or not isc(p.off) or p.off != 0:
        return z3.BoolVal(False)
    return z3.And(d.b == b, True if n is None else z3.ZeroExt(32, bv(n, 32)) == T.blen(b))


def verify_serialize(E, target):
    st = plumbing(E)
    args, want = any_arg(E, st, target) if target else ([], None)
    pv, v = value(E, st, 'value')
    pp, par = value(E, st, 'parameters')
    ret = []
    if not target:
        ret = [E.new_obj(st, 'result', size=32)]
    sig = 'Serialize(' + ({'void*': 'void*, unsigned int, ', '': ''}.get(target, target + ', ')) + 'libvariant::Variant, %s, libvariant::Variant)' % ST
    F = [f for f in E.P.fns.values() if f.dem.replace('[abi:cxx11]', '') == NS + sig]
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(F[0], st, ret + args + [pv, KIND, pp]):
        k += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'writing to a target fails exactly if a part fails')
        if kind != 'ret':
            continue
        c = s.ghost['calls'].l
        E.oblige(s, [x[0] for x in c] == ['output', 'emitter', 'close'], PID, 'one target, one emitter, closed once')
        if [x[0] for x in c] != ['output', 'emitter', 'close']:
            continue
        E.oblige(s, c[1][1].obj == c[0][3].obj, PID, 'the emitter writes to the target')
        E.oblige(s, z3.And(bv(c[1][2], 32) == KIND, c[1][3] == par), PID, 'in the format and with the parameters asked for')
        E.oblige(s, c[2][1] == EMIT(Trace.none, v), PID, 'the value and nothing else is written before closing')
        a = c[0][2]
        if target == 'void*':
            E.oblige(s, z3.And(a[0].obj == want[0].obj, bv(a[0].off) == 0, bv(a[1], 32) == want[1]), PID, 'the target is the block given')
            E.oblige(s, bv(r, 32) == z3.BitVec('length_written', 32), PID, 'the length written is returned')
        elif target == STRC:
            E.oblige(s, is_text(E, s, a[0], want), PID, 'the target is the file named')
        elif target:
            E.oblige(s, a[0].obj == want.obj and c[0][1] == target, PID, 'the target is the one given')
        else:
            E.oblige(s, text(E, s, ret[0]) == WRITTEN, PID, 'the text written is returned')
    E.oblige(st, k > 0, PID, 'returns')


def verify_deserialize(E, name, src, typed):
    st = plumbing(E)
    args, want = any_arg(E, st, src)
    if src == 'char const*' and 'File' not in name:
        # a C string ends at its first zero character
        q = E.objs[args[0].obj]
        E.oblige(st, isinstance(q.data, StrData), PID, 'a C string')
        pattern(E, 'strlen', lambda E, st, a, call: simp2(T.blen(E.objs[a[0].obj].data.b)))
    ret = E.new_obj(st, 'result', size=64)
    sig = name + '(' + {'void const*': 'void const*, unsigned int'}.get(src, src) + (', %s' % ST if typed else '') + ')'
    F = E.P.find(NS + sig)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(F[0], st, [ret] + args + ([KIND] if typed else [])):
        k += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'reading fails exactly if a part fails')
        if kind != 'ret':
            continue
        c = s.ghost['calls'].l
        last = 'all' if 'All' in name else 'parse'
        E.oblige(s, [x[0] for x in c] == ['input', 'parser', last], PID, 'one source, one reader')
        if [x[0] for x in c] != ['input', 'parser', last]:
            continue
        E.oblige(s, c[1][1].obj == c[0][3].obj, PID, 'the reader reads from the source')
        if typed:
            E.oblige(s, c[1][2] is not None and bv(c[1][2], 32) == KIND, PID, 'in the format asked for')
        else:
            E.oblige(s, z3.BoolVal(True) if c[1][2] is None else bv(c[1][2], 32) == E.P.enums['SERIALIZE_GUESS'], PID, 'in the format guessed')
        a = c[0][2]
        if 'File' in name:
            E.oblige(s, c[0][1] == 'CreateParserInputFile(%s)' % src, PID, 'the source is a file')
            E.oblige(s, is_text(E, s, a[0], want) if src == 'char const*' else a[0].obj == want.obj, PID, 'the source is the one given')
        elif src == 'void const*':
            E.oblige(s, z3.And(a[0].obj == want[0].obj, bv(a[0].off) == 0, bv(a[1], 32) == want[1]), PID, 'the source is the block given')
        else:
            if len(a) > 1:
                whole = is_text(E, s, a[0], want, a[1])
            elif 'basic_string' in c[0][1]:
                whole = text(E, s, a[0]) == want
            else:
                # up to the first zero character
                whole = is_text(E, s, a[0], want) if src == 'char const*' else z3.BoolVal(False)
            E.oblige(s, whole, PID, 'the source is the whole text')
        if last == 'parse':
            E.oblige(s, look(E, s, ret)[1] == z3.Const('value_read', Val), PID, 'the value read is returned')
        else:
            E.oblige(s, c[2][1].obj == ret.obj, PID, 'the iterator is returned')
    E.oblige(st, k > 0, PID, 'returns')


FORWARD = ['BeginDocument()', 'EndDocument()', 'BeginMap(int)', 'EndMap()', 'BeginList(int)', 'EndList()', 'EmitNull()', 'EmitTrue()', 'EmitFalse()', 'Emit(%s)' % STRC, 'Emit(char const*)', 'Emit(long)',
           'Emit(unsigned long)', 'Emit(double)', 'Emit(std::shared_ptr<libvariant::Blob const>)', 'Flush()', 'Close()']


def verify_forward(E, op):
    """an emitter passes its events on to its implementation"""
    st = base(E)
    build_models(E)
    st.ghost['calls'] = Calls()
    IMPL = NS + 'EmitterImpl'

    def h(n):
        def f(E, st, a, inst):
            bad = fails(E, st, n)
            x = a[1:]
            if n == 'Emit(%s)' % STRC:
                x = [text(E, st, a[1])]
            elif 'Blob' in n:
                x = [E.gget(st, a[1], GBlob).v]
            note(st, n, tuple(x))
            return [Out(st, None), bad]
        return f
    hs = {re.escape(IMPL + '::' + n) + r'\Z': h(n) for n in FORWARD}
    impl = abstract_object(E, st, IMPL, hs)
    e = E.new_obj(st, 'emitter', size=16, cells={0: (8, impl), 8: (8, NULL)})
    arg, want = [], ()
    if '(int)' in op:
        n = z3.BitVec('length', 32)
        arg, want = [n], (n,)
    elif op in ('Emit(long)', 'Emit(unsigned long)'):
        n = z3.BitVec('number', 64)
        arg, want = [n], (n,)
    elif op == 'Emit(double)':
        n = z3.FP('number', FP['double'])
        arg, want = [n], (n,)
    elif 'Blob' in op:
        v = z3.Const('blob', Val)
        q = E.new_obj(st, 'blob pointer', size=16)
        E.gput(st, q, GBlob(v))
        arg, want = [q], (v,)
    elif 'Emit(' in op and op != 'Emit()':
        arg, b = any_arg(E, st, op[5:-1])
        want = (b,)
    k = 0
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(NS + 'Emitter::' + op)[0], st, [e] + arg):
        k += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'fails exactly if the implementation fails')
        if kind != 'ret':
            continue
        c = s.ghost['calls'].l
        name = 'Emit(%s)' % STRC if op == 'Emit(char const*)' and c and c[0][0] != op else op
        E.oblige(s, len(c) == 1 and c[0][0] == name and len(c[0][1]) == len(want), PID, 'the same event is passed on once')
        if len(c) != 1 or c[0][0] != name or len(c[0][1]) != len(want):
            continue
        for x, y in zip(c[0][1], want):
            if isinstance(x, Ptr):
                E.oblige(s, is_text(E, s, x, y), PID, 'the content is the same')
            else:
                E.oblige(s, (bv(x, y.size()) if z3.is_bv(y) else x) == y, PID, 'the content is the same')
        if op not in ('Flush()', 'Close()'):
            E.oblige(s, r.obj == e.obj, PID, 'the emitter is returned')
    E.oblige(st, k > 0, PID, 'returns')


def making(E):
    """constructors of sources, targets, readers and emitters are noted"""
    st = base(E)
    build_models(E)
    st.ghost['calls'] = Calls()
    st.assume(z3.ULT(KIND, 1 << 31))

    def made(E, st, a, call):
        bad = fails(E, st, 'construction')
        cls = call.dem.split('(')[0].split('::')[-1]
        x = []
        for p in a[1:]:
            x.append(p)
        sh = [E.load(st, p, 8, 'ptr') if isinstance(p, Ptr) and p.obj and 'shared_ptr' in call.dem and i == 0 else None for i, p in enumerate(a[1:])]
        pv = look(E, st, a[2])[1] if 'Variant)' in call.dem else None
        note(st, cls, tuple(a[1:]), sh, pv, a[0])
        return [Out(st, None), bad]
    pattern(E, NS + r'(\w+)(EmitterImpl|ParserImpl|Output|Input)::\1\2\(.*\)', made)

    def guess(E, st, a, call):
        bad = fails(E, st, 'guessing')
        note(st, 'guess', a[0])
        return [Out(st, z3.BitVec('guessed', 32)), bad]
    pattern(E, NS + r'GuessFormat\(.*\)', guess)
    return st


EMITTERS = {'SERIALIZE_JSON': 'JSONEmitterImpl', 'SERIALIZE_BUNDLEHDR': 'BundleHdrEmitterImpl', 'SERIALIZE_YAML': 'YAMLEmitterImpl', 'SERIALIZE_XMLPLIST': 'XMLPLISTEmitterImpl', 'SERIALIZE_MSGPACK': None}
READERS = {'SERIALIZE_JSON': 'JSONParserImpl', 'SERIALIZE_BUNDLEHDR': 'BundleHdrParserImpl', 'SERIALIZE_YAML': 'YAMLParserImpl', 'SERIALIZE_XMLPLIST': 'XMLPLISTParserImpl', 'SERIALIZE_MSGPACK': None}


def verify_format(E, what, fmt):
    """the emitter or reader of a format, for the target or source given"""
    st = making(E)
    cls = 'EmitterOutput' if what == 'emitter' else 'ParserInput'
    io = E.new_obj(st, 'target or source', size=8, heap=True)
    sp = E.new_obj(st, 'pointer to it', size=16, cells={0: (8, io), 8: (8, V.control(E, st, io, 1, True))})
    pp, par = value(E, st, 'parameters')
    ret = E.new_obj(st, 'result', size=16)
    kind = E.P.enums[fmt]
    guessed = z3.BitVec('guessed', 32)
    if what == 'emitter':
        F = E.P.find(NS + 'CreateEmitter(std::shared_ptr<libvariant::EmitterOutput>, %s, libvariant::Variant)' % ST)
        args = [ret, sp, kind, pp]
    elif what == 'reader':
        F = E.P.find(NS + 'CreateParser(std::shared_ptr<libvariant::ParserInput>, %s)' % ST)
        args = [ret, sp, kind]
    elif what == 'guessed reader':
        F = E.P.find(NS + 'CreateParserGuess(std::shared_ptr<libvariant::ParserInput>)')
        args = [ret, sp]
        st.assume(guessed == kind)
    else:
        F = E.P.find(NS + 'CreateParser(std::shared_ptr<libvariant::ParserInput>, %s)' % ST)
        args = [ret, sp, E.P.enums['SERIALIZE_GUESS']]
        st.assume(guessed == kind)
    want = (EMITTERS if what == 'emitter' else READERS)[fmt]
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(F[0], st, args):
        k += 1
        if want is None:
            E.oblige(s, kind == 'exc', PID, 'a format that is not there is refused')
            continue
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'making it fails exactly if a part fails')
        if kind != 'ret':
            continue
        c = s.ghost['calls'].l
        if 'guess' in what:
            E.oblige(s, [x[0] for x in c] == ['guess', want] and c[0][1].obj == io.obj, PID, 'the format of the source is guessed')
        else:
            E.oblige(s, [x[0] for x in c] == [want], PID, 'one of the format asked for')
        if c[-1][0] != want:
            continue
        c = c[-1]
        E.oblige(s, c[2][0].obj == io.obj, PID, 'for the target or source given')
        if what == 'emitter':
            E.oblige(s, c[3] == par, PID, 'with the parameters given')
        q = E.load(s, ret, 8, 'ptr')
        E.oblige(s, q.obj == c[4].obj and not s.mem[q.obj].freed, PID, 'it is returned')
    E.oblige(st, k > 0, PID, 'returns')


def verify_io(E, name, ty, cls):
    """the target or source for a block, a file or a stream"""
    st = making(E)
    args, want = any_arg(E, st, ty)
    out = None
    if ty == 'void*':
        out = E.new_obj(st, 'length', size=4)
        args = args + [out]
    if ty == 'char const*' and 'File' not in cls:
        pattern(E, 'strlen', lambda E, st, a, call: simp2(T.blen(E.objs[a[0].obj].data.b)))
    ret = E.new_obj(st, 'result', size=16)
    sig = {'void*': 'void*, unsigned int, unsigned int*', 'void const*': 'void const*, unsigned int'}.get(ty, ty)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(NS + name + '(' + sig + ')')[0], st, [ret] + args):
        k += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'making it fails exactly if a part fails')
        if kind != 'ret':
            continue
        c = s.ghost['calls'].l
        E.oblige(s, [x[0] for x in c] == [cls], PID, 'of the right kind')
        if [x[0] for x in c] != [cls]:
            continue
        a = c[0][1]
        if ty in ('void*', 'void const*'):
            E.oblige(s, z3.And(a[0].obj == want[0].obj, bv(a[0].off) == 0, bv(a[1], 32) == want[1], True if out is None else a[2].obj == out.obj), PID, 'for the block given')
        elif cls == 'ParserMemoryInput':
            E.oblige(s, is_text(E, s, a[0], want, a[1]), PID, 'for the whole text')
        elif ty == 'char const*':
            E.oblige(s, is_text(E, s, a[0], want), PID, 'for the file named')
        else:
            E.oblige(s, a[0].obj == want.obj, PID, 'for the one given')
            if len(a) > 1:
                E.oblige(s, bv(a[1], 8) == 0 if not isinstance(a[1], bool) else not a[1], PID, 'that stays open')
        q = E.load(s, ret, 8, 'ptr')
        E.oblige(s, q.obj == c[0][4].obj and not s.mem[q.obj].freed, PID, 'it is returned')
    E.oblige(st, k > 0, PID, 'returns')


# ------------------------------------------------------------------ one value from a reader, and all of them
def verify_parse(E):
    """reading a value: a handler is put on the stack of the reader, which runs until the handler is done or it has no more"""
    st = base(E)
    build_models(E)
    st.ghost['calls'] = Calls()
    st.ghost['pushed'] = None
    x = z3.Const('value_arrived', Val)

    def push(E, st, a, inst):
        n = E.load(st, a[1], 8, 'ptr')
        E.oblige(st, st.ghost['pushed'] is None, PID, 'one handler')
        st.ghost['pushed'] = n
        st.ghost['owner'] = E.load(st, E.padd(a[1], 8), 8, 'ptr')
        V.sp_retain(E, st, st.ghost['owner'])
        f = Fields(E, BASE, n)
        fs = Fields(E, NS + 'ParserState', f.get(st, 'state', 'ptr'))
        E.oblige(st, f.get(st, 'base', 'ptr').obj == 0, PID, 'it is the lowest one')
        E.oblige(st, look(E, st, fs.ptr('result'))[1] == nullval, PID, 'nothing was read')
        E.oblige(st, z3.And(bv(f.get(st, 'done'), 8) == 0, bv(f.get(st, 'seen_begin_document'), 8) == 0, text(E, st, f.ptr('anchor')) == nil), PID, 'it starts at the beginning')
        E.oblige(st, 'VariantBaseParserActions' in E.objs[f.get(st, '_vptr$ParserActions', 'ptr').obj].name, PID, 'it is of the basic kind')
        return [Out(st, None)]

    def run(E, st, a, inst):
        n = st.ghost['pushed']
        E.oblige(st, n is not None and st.ghost.get('mode') is None, PID, 'the reader runs only while a value is missing')
        if n is None or st.ghost.get('mode') is not None:
            raise PathEnd()
        bad = fails(E, st, 'reading')
        code = z3.FreshConst(BV32, 'code')
        none = st.copy()
        none.assume(code == 0)
        end = st.copy()
        end.assume(z3.Or(code == 1, code == -1))
        end.ghost['mode'] = 'ended'
        st.assume(z3.Or(code == 0, code == 1))
        f = Fields(E, BASE, n)
        f.put(st, 'done', z3.BitVecVal(1, 8))
        E.gput(st, Fields(E, NS + 'ParserState', f.get(st, 'state', 'ptr')).ptr('result'), GV('val', x))
        st.ghost['mode'] = 'arrived'
        V.sp_release(E, st, st.ghost['owner'])
        return [Out(none, code), Out(end, code), Out(st, code), bad]
    impl = abstract_object(E, st, NS + 'ParserImpl', {r'::PushAction\(': push, r'::Run\(': run})
    p = E.new_obj(st, 'reader', size=16, cells={0: (8, impl), 8: (8, NULL)})
    ret = E.new_obj(st, 'result', size=64)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(NS + 'ParseVariant(libvariant::Parser&)')[0], st, [ret, p]):
        k += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'reading fails exactly if the reader fails')
        if kind != 'ret':
            continue
        if s.ghost.get('mode') == 'arrived':
            E.oblige(s, look(E, s, ret)[1] == x, PID, 'the value that arrived is returned')
            E.oblige(s, s.mem[s.ghost['pushed'].obj].freed, PID, 'the handler is released')
            E.cover(s, 'a value arrives')
        else:
            E.oblige(s, s.ghost.get('mode') == 'ended', PID, 'without a value it ends only if the reader has no more')
            E.oblige(s, look(E, s, ret)[1] == nullval, PID, 'null without a value')
            E.cover(s, 'no value arrives')
    E.oblige(st, k > 0, PID, 'returns')


NODE = NS + 'LoadAllIterator::Value'
ALL = NS + 'LoadAllIterator'


def sequence(E):
    """an iterator over what a reader gives"""
    st = base(E)
    build_models(E)
    st.ghost['calls'] = Calls()

    def done(E, st, a, inst):
        d = z3.Bool('done_%d' % len(st.ghost['calls'].l))
        return [Out(st, z3.If(d, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))]

    def parse(E, st, a, call):
        bad = fails(E, st, 'reading')
        E.oblige(st, E.load(st, a[1], 8, 'ptr').obj == E.impl.obj, PID, 'the reader is used')
        E.oblige(st, z3.Not(z3.Bool('done_%d' % len(st.ghost['calls'].l))), PID, 'a finished reader is not asked for more')
        note(st, 'parse')
        put_val(E, st, a[0], z3.Const('value_read_%d' % len(st.ghost['calls'].l), Val))
        return [Out(st, None), bad]
    pattern(E, NS + r'ParseVariant\(.*\)', parse)
    E.impl = abstract_object(E, st, NS + 'ParserImpl', {r'::Done\(\) const': done})
    return st


def node(E, st, name, owners, nxt=None):
    n = E.new_obj(st, name, size=E.P.types[NODE]['size'], heap=True)
    f = Fields(E, NODE, n)
    pl = root(st, name)
    E.gput(st, f.ptr('v'), GV('ref', pl))
    V.sp_put(E, st, f.ptr('next'), *(nxt or (NULL, NULL)))
    return n, V.control(E, st, n, owners), pl


def verify_next(E, case):
    st = sequence(E)
    it = E.new_obj(st, 'iterator', size=E.P.types[ALL]['size'])
    f = Fields(E, ALL, it)
    # Parser is a pair of pointers, as is Impl
    pi = E.new_obj(st, 'reader of the iterator', size=16, cells={0: (8, E.impl), 8: (8, NULL)})
    V.sp_put(E, st, f.ptr('impl'), pi, V.control(E, st, pi, 1, True))
    n = m = None
    if case == 'first':
        V.sp_put(E, st, f.ptr('value'), NULL, NULL)
    elif case == 'read ahead':
        m, mc, mp = node(E, st, 'next', 1)
        n, nc, np = node(E, st, 'current', 2, (m, mc))
        V.sp_put(E, st, f.ptr('value'), n, nc)
    else:
        # another iterator is at the same place
        n, nc, np = node(E, st, 'current', 2)
        V.sp_put(E, st, f.ptr('value'), n, nc)
    before = None if n is None else read(st, np)[1]
    E.cover(st, 'precondition')
    k = 0
    x = z3.Const('value_read_1', Val)
    d0, d1 = z3.Bool('done_0'), z3.Bool('done_1')
    for kind, s, r in E.run_function(E.P.find(ALL + '::Next()')[0], st, [it]):
        k += 1
        E.oblige(s, (kind == 'ret') == (not s.ghost['failed']), PID, 'going on fails exactly if reading fails')
        q = E.load(s, f.ptr('value'), 8, 'ptr')
        if kind != 'ret':
            E.oblige(s, q.obj == (n.obj if n is not None else 0), PID, 'and then stays where it is')
            continue
        c = s.ghost['calls'].l
        if n is not None:
            E.oblige(s, read(s, np)[1] == before and not s.mem[n.obj].freed, PID, 'the value passed by is unchanged')
        if case == 'read ahead':
            E.oblige(s, len(c) == 0 and q.obj == m.obj, PID, 'what another iterator has read comes next')
            continue
        if not c:
            E.oblige(s, d0, PID, 'a reader with more is asked for it')
            E.oblige(s, q.obj == 0, PID, 'the end is reached')
            continue
        E.oblige(s, len(c) == 1, PID, 'one value is read')
        if q.obj:
            g = Fields(E, NODE, q)
            E.oblige(s, look(E, s, g.ptr('v'))[1] == x and not s.mem[q.obj].freed, PID, 'the iterator is at the value read')
            E.oblige(s, E.load(s, g.ptr('next'), 8, 'ptr').obj == 0, PID, 'which is the last so far')
            E.cover(s, 'a value is read')
        else:
            E.oblige(s, z3.And(z3.BoolVal(case != 'first'), d1, TYP(x) == NULLT), PID, 'the end is reached only if nothing was read')
        if n is not None:
            E.oblige(s, E.load(s, Fields(E, NODE, n).ptr('next'), 8, 'ptr').obj == q.obj, PID, 'other iterators see the same next')
    E.oblige(st, k > 0, PID, 'returns')


def verify_get(E, case):
    st = sequence(E)
    it = E.new_obj(st, 'iterator', size=E.P.types[ALL]['size'])
    f = Fields(E, ALL, it)
    V.sp_put(E, st, f.ptr('impl'), NULL, NULL)
    V.sp_put(E, st, f.ptr('value'), NULL, NULL)
    if case == 'value':
        n, nc, np = node(E, st, 'current', 1)
        V.sp_put(E, st, f.ptr('value'), n, nc)
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(ALL + '::Get()')[0], st, [it]):
        k += 1
        if case == 'end':
            E.oblige(s, kind == 'exc', PID, 'there is no value at the end')
        else:
            E.oblige(s, kind == 'ret', PID, 'there is a value')
            if kind == 'ret':
                q = Fields(E, NODE, n).ptr('v')
                E.oblige(s, z3.And(r.obj == q.obj, bv(r.off) == bv(q.off)), PID, 'it is the one where the iterator is')
    E.oblige(st, k > 0, PID, 'returns')


def verify_same(E, case):
    st = sequence(E)
    a, b = [E.new_obj(st, 'iterator', size=E.P.types[ALL]['size']) for _ in range(2)]
    for o in (a, b):
        f = Fields(E, ALL, o)
        V.sp_put(E, st, f.ptr('impl'), NULL, NULL)
        V.sp_put(E, st, f.ptr('value'), NULL, NULL)
    n, nc, np = node(E, st, 'one', 2)
    m, mc, mp = node(E, st, 'another', 2)
    if case[0]:
        V.sp_put(E, st, Fields(E, ALL, a).ptr('value'), n, nc)
    if case[1]:
        V.sp_put(E, st, Fields(E, ALL, b).ptr('value'), *((n, nc) if case[1] == 1 else (m, mc)))
    want = case[0] == case[1]
    E.cover(st, 'precondition')
    k = 0
    for kind, s, r in E.run_function(E.P.find(ALL + '::operator==(libvariant::LoadAllIterator const&) const')[0], st, [a, b]):
        k += 1
        E.oblige(s, kind == 'ret', PID, 'comparing does not fail')
        if kind == 'ret':
            E.oblige(s, V.tob(r) == z3.BoolVal(want), PID, 'iterators are the same at the same value or at the end')
    E.oblige(st, k > 0, PID, 'returns')


def tasks(P, tier):
    from ..run import Task

    def t(name, fn, args, f):
        return Task('values and events: ' + name, fn, args, props=(PID,), safety=PID, funcs=[NS + x for x in f])
    out = []
    for ty, n in enumerate(V.TYPES):
        out.append(t('writing ' + n, verify_out, (ty,), ['operator<<(Emitter&, Variant const&)'] + (['operator<<(Emitter&, List const&)'] if ty == LISTT else ['operator<<(Emitter&, Map const&)'] if ty == MAPT else [])))
    for c in (BASE, LIST, MAP):
        n = c.split('::')[-1]
        for ev in EV:
            out.append(t('%s: %s' % (n, ev), verify_value, (c, ev), [n + '::Scalar' if ev != 'null' else n + '::Null', n + '::SetValue']))
        for ev in ('EndList', 'EndMap', 'EndDocument'):
            out.append(t('%s: %s' % (n, ev), verify_end, (c, ev), [n + '::' + ev, n + '::Finish']))
        for ev in ('BeginList', 'BeginMap', 'BeginDocument'):
            out.append(t('%s: %s' % (n, ev), verify_begin, (c, ev), [n + '::' + ev]))
        out.append(t('%s: value with parts' % n, verify_set, (c,), [n + '::SetValue']))
        out.append(t('%s: value with parts and anchor' % n, verify_set, (c, 'anchor'), [n + '::SetValue']))
        out.append(t('%s: alias' % n, verify_set, (c, 'alias'), ['VariantBaseParserActions::Alias', n + '::SetValue']))
        for ev in EV:
            out.append(t('%s: %s with anchor' % (n, ev), verify_value, (c, ev, True), [n + '::Scalar' if ev != 'null' else n + '::Null', n + '::SetValue']))
        for ev in ('BeginList', 'BeginMap'):
            out.append(t('%s: %s with anchor' % (n, ev), verify_begin, (c, ev, True), [n + '::' + ev]))
    for c in ('set', 'none', 'get'):
        out.append(t('anchors, ' + c, verify_anchor, (c,), ['ParserState::Anchor']))
    for ty, n in enumerate(V.TYPES):
        out.append(t('lemma, events of %s build it' % n, verify_again, (ty,), []))
        out.append(t('lemma, %s built again is equal' % n, verify_equal, (ty,), []))
    for target in ('', 'void*', STRC, '_IO_FILE*', SB):
        out.append(t('Serialize to %s' % (target[:20] or 'a text'), verify_serialize, (target,), ['Serialize']))
    for name, typed in (('Deserialize', True), ('DeserializeGuess', False), ('DeserializeAll', True)):
        for src in (STRC, 'char const*', 'void const*'):
            out.append(t('%s from %s' % (name, src[:20]), verify_deserialize, (name, src, typed), [name]))
        for src in ('char const*', '_IO_FILE*', SB):
            out.append(t('%sFile from %s' % (name, src[:20]), verify_deserialize, (name + 'File', src, typed), [name + 'File']))
    for op in FORWARD:
        out.append(t('Emitter::' + op[:30], verify_forward, (op,), ['Emitter::' + op]))
    for fmt in EMITTERS:
        out.append(t('emitter for ' + fmt, verify_format, ('emitter', fmt), ['CreateEmitter']))
        out.append(t('reader for ' + fmt, verify_format, ('reader', fmt), ['CreateParser']))
        out.append(t('guessed reader for ' + fmt, verify_format, ('guessed reader', fmt), ['CreateParserGuess']))
        out.append(t('reader for a guess of ' + fmt, verify_format, ('reader for a guess', fmt), ['CreateParser']))
    for name, ty, cls in (('CreateEmitterOutput', 'void*', 'EmitterMemoryOutput'), ('CreateEmitterOutput', 'char const*', 'EmitterFilenameOutput'), ('CreateEmitterOutput', '_IO_FILE*', 'EmitterFileOutput'),
                          ('CreateEmitterOutput', SB, 'EmitterStreambufOutput'), ('CreateParserInput', STRC, 'ParserMemoryInput'), ('CreateParserInput', 'char const*', 'ParserMemoryInput'),
                          ('CreateParserInput', 'void const*', 'ParserMemoryInput'), ('CreateParserInputFile', 'char const*', 'ParserFilenameInput'), ('CreateParserInputFile', '_IO_FILE*', 'ParserFileInput'),
                          ('CreateParserInputFile', SB, 'ParserStreambufInput')):
        out.append(t('%s for %s' % (name, ty[:20]), verify_io, (name, ty, cls), [name]))
    out.append(t('ParseVariant', verify_parse, (), ['ParseVariant(Parser&)']))
    for c in ('first', 'read ahead', 'last'):
        out.append(t('LoadAllIterator::Next, ' + c, verify_next, (c,), ['LoadAllIterator::Next']))
    for c in ('value', 'end'):
        out.append(t('LoadAllIterator::Get, ' + c, verify_get, (c,), ['LoadAllIterator::Get']))
    for c in ((0, 0), (1, 0), (0, 1), (1, 1), (1, 2)):
        out.append(t('LoadAllIterator::operator==, %d %d' % c, verify_same, (c,), ['LoadAllIterator::operator==']))
    return out
