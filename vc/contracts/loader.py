"""Contracts for finding schemas: URIs and their resolution, documents and fragments, nested identifiers, files (src/SchemaLoader.cc).

The parts of a URI are what the expression of the library matches (which parts these are is left to the bounded comparison); resolution is proved
against RFC 3986, 5.2 on the parts, the removal of dot segments against a stack of segments, loading against a map of documents."""
import z3
from .. import theory as T
from ..theory import bv, nil, snoc, cat, blen, app
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, StrData, cstring, str_view
from ..facade import *
from .. import facade as FA
from .. import variants as V
from .ext_flat import value

TU = ['src/SchemaLoader.cc']
PID = 'P16'
SL = NS + 'SchemaLoader'
INFO = SL + '::URIInfo'
S1 = STR + ' const&'
UNESCAPE = NS + 'UnescapeURI(%s)' % S1
PARSE = SL + '::ParseURI(%s&, %s)' % (INFO, S1)
DOTS = NS + 'RemoveDotSegments(%s)' % S1
RESOLVE = SL + '::ResolveURI(%s, %s)' % (S1, S1)
NORMALISE = SL + '::NormSchema(%sVariant&, %s)' % (NS, S1)
SMAP = 'std::map<%s, %sVariant, std::less<%s>, std::allocator<std::pair<%s const, %sVariant>>>' % (STR, NS, STR, STR, NS)
SEARCH = SL + '::SearchForTrustedSchemas(%s&, %sVariant, %s)' % (SMAP, NS, S1)
ADD = SL + '::AddSchema(%s, %sVariant)' % (S1, NS)
GET = SL + '::GetSchema(%s)' % S1
MISSING = SL + '::HandleMissing(%s, %s::LoaderError&)' % (S1, SL)
ADV = NS + 'AdvSchemaLoader'
AMISSING = ADV + '::HandleMissing(%s, %s::LoaderError&)' % (S1, SL)
FROMFILE = ADV + '::LoadFromFile(%s&, %s::LoaderError&)' % (INFO, SL)
FROMCURL = ADV + '::LoadFromCurl(%s&, %s::LoaderError&)' % (INFO, SL)
B8 = lambda c: z3.BitVecVal(ord(c), 8)
K = T.lit
BOOL = z3.BoolSort()

# ------------------------------------------------------------------ parts of a URI and operations on it
FIELDS = ('protocol', 'authority', 'pathname', 'search', 'hash', 'href')
PARSED = z3.Function('is_uri', T.Bytes, BOOL)
PART = {n: z3.Function('part_' + n, T.Bytes, T.Bytes) for n in FIELDS}
NODOTS = z3.Function('without_dots', T.Bytes, T.Bytes)
RES = z3.Function('resolved', T.Bytes, T.Bytes, T.Bytes)
DECODED = z3.Function('decoded', T.Bytes, T.Bytes)
LASTSL = z3.Function('last_slash', T.Bytes, T.BV64)


def at(b, i):
    return T.sel(T.arrof(b), i if not isinstance(i, int) else bv(i))


def sub(b, o, n):
    return cat(nil, T.arrof(b), o, n)


def base(E):
    V.error_models(E)
    V.shared_models(E)
    FA.setup(E)
    FA.strings(E)
    FA.maps(E)
    FA.lists(E)
    FA.streams(E)
    strings(E)
    documents(E)
    st = State()
    E.what = str_view(E, st, z3.Const('what', T.Bytes))
    st.assume(TYP(nullval) == NULLT, TYP(EMPTYMAP) == MAPT, LEN(EMPTYMAP) == 0, TYP(EMPTYLIST) == LISTT, LEN(EMPTYLIST) == 0)
    E.summaries[RESOLVE] = s_resolve
    E.summaries[PARSE] = s_parse
    E.summaries[DOTS] = s_dots
    E.summaries[UNESCAPE] = s_unescape
    return st


def text_arg(E, st, name):
    p = E.new_obj(st, name, size=32, const=True)
    b = z3.Const(name, T.Bytes)
    st.assume(z3.ULT(blen(b), 1 << 30))
    st.mem[p.obj] = OC({0: (32, GStr(b))})
    return p, b


def strings(E):
    """the operations on strings used here, besides those of facade.strings"""
    def char(E, st, p):
        t = T.conc(cstring(E, st, p))
        if t is None or len(t) != 1:
            raise Unsupported('search for a text')
        return z3.BitVecVal(t[0], 8)

    def position(E, st, b, c, p):
        r = FA.FIND(b, c, p)
        n = blen(b)
        st.assume(z3.ULE(r, n), z3.Implies(z3.ULT(p, n), z3.UGE(r, p)), z3.Implies(z3.UGE(p, n), r == n), z3.Implies(z3.ULT(r, n), at(b, r) == c),
                  z3.Implies(z3.And(z3.ULT(p, n), at(b, p) == c), r == p))
        return simp(z3.If(z3.ULT(r, n), r, z3.BitVecVal(-1, 64)))

    def find(E, st, a, call):
        return position(E, st, text(E, st, a[0]), char(E, st, a[1]), bv(a[2]))

    def findc(E, st, a, call):
        return position(E, st, text(E, st, a[0]), bv(a[1], 8), bv(a[2]))

    def rfind(E, st, a, call):
        b = text(E, st, a[0])
        c = char(E, st, a[1]) if 'char const*' in call.dem else bv(a[1], 8)
        if not (z3.is_bv_value(z3.simplify(c)) and z3.simplify(c).as_long() == 47 and isc(a[2]) and a[2] == (1 << 64) - 1):
            raise Unsupported('search backwards')
        st.assume(z3.ULE(LASTSL(b), blen(b)))
        return simp(LASTSL(b) - 1)

    def plus(E, st, a, call):
        f = lambda p, c: cstring(E, st, p) if c else text(E, st, p)
        args = call.dem[call.dem.rindex('('):]
        l = args.lstrip('(').startswith('char const*')
        r = args.rstrip(')').endswith('char const*')
        x, y = f(a[1], l), f(a[2], r)
        E.gput(st, a[0], GStr(y if x.eq(nil) else x if y.eq(nil) else app(x, y)))

    def pluseq(E, st, a, call):
        x, y = text(E, st, a[0]), text(E, st, a[1]) if 'char const*' not in call.dem else cstring(E, st, a[1])
        E.gput(st, a[0], GStr(app(x, y)))
        return a[0]

    def eqs(E, st, a, call):
        f = lambda p, c: cstring(E, st, p) if c else text(E, st, p)
        x = text(E, st, a[0])
        y = f(a[1], 'char const*' in call.dem[call.dem.rindex('('):])
        r = x == y
        return bo(z3.Not(r) if 'operator!=' in call.dem else r)

    def rest(E, st, a, call):
        # the characters from here to the first zero byte
        g, p = E.gget(st, a[0], GStr), a[1]
        d = E.objs[p.obj].data
        if not isinstance(d, StrData):
            E.gput(st, a[0], GStr(app(g.b, cstring(E, st, p))))
            return a[0]
        n = E.fresh('i64', 'length')
        o = bv(p.off)
        E.oblige(st, z3.ULE(o, blen(d.b)), 'memory', 'characters after the end of a string')
        st.assume(z3.ULE(n, blen(d.b) - o))
        E.gput(st, a[0], GStr(cat(g.b, T.arrof(d.b), o, n)))
        return a[0]

    def some(E, st, a, call):
        # a number of characters of another string
        g, p, n = E.gget(st, a[0], GStr), a[1], bv(a[2])
        d = E.objs[p.obj].data
        if not isinstance(d, StrData):
            from ..models_cxx import span
            E.gput(st, a[0], GStr(app(g.b, span(E, st, p, a[2]))))
            return a[0]
        E.check_access(st, p, a[2], 'read')
        b = g.b
        o = bv(p.off)
        if isc(a[2]) and a[2] <= 8:
            for i in range(a[2]):
                b = snoc(b, at(d.b, simp2(o + i)))
        else:
            b = cat(b, T.arrof(d.b), o, n)
        E.gput(st, a[0], GStr(b))
        return a[0]
    O = r'\(.*\)'
    pattern(E, STR + r'::find\(char const\*, unsigned long\) const', find)
    pattern(E, STR + r'::find\(char, unsigned long\) const', findc)
    pattern(E, STR + r'::rfind\(char( const\*)?, unsigned long\) const', rfind)
    pattern(E, STR + r' std::operator\+<.*>' + O, plus)
    pattern(E, STR + r'::operator\+=\((' + STR + r' const&|char const\*)\)', pluseq)
    pattern(E, r'bool std::operator(==|!=)<char, .*>' + O, eqs)
    pattern(E, STR + r'::append\(char const\*\)', rest)
    pattern(E, STR + r'::append\(char const\*, unsigned long\)', some)
    pattern(E, STR + r'::compare\(.*\) const', lambda E, st, a, call: unsupported('comparison of strings'))

    def xdigit(E, st, a, call):
        return simp2(z3.If(hexdigit(z3.Extract(7, 0, bv(a[0], 32))), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    pattern(E, r'isxdigit', xdigit)

    def strtol(E, st, a, call):
        if not (isc(a[2]) and a[2] == 16):
            raise Unsupported('strtol')
        x, y, z0 = (bv(E.load(st, E.padd(a[0], i), 1, 'i8'), 8) for i in range(3))
        r = E.fresh('i64', 'strtol')
        st.assume(z3.Implies(z3.And(hexdigit(x), hexdigit(y), z0 == 0), r == z3.ZeroExt(56, hexval(x) * 16 + hexval(y))))
        return r
    pattern(E, r'(__isoc23_)?strtol', strtol)


def unsupported(x):
    raise Unsupported(x)


def hexdigit(c):
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))


def hexval(c):
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))


# ------------------------------------------------------------------ percent escapes
# what the first characters stand for; an escape is only ever read whole
PLAIN = z3.Function('decoded_part', T.Bytes, T.BV64, T.Bytes)
WELL = z3.Function('escapes_well_formed', T.Bytes, BOOL)


def decode_step(b, i):
    n = blen(b)
    pc = at(b, i) == B8('%')
    x, y = at(b, i + 1), at(b, i + 2)
    return z3.And(PLAIN(b, bv(0)) == nil, z3.Implies(z3.ULT(i, n), z3.And(
        z3.Implies(z3.And(WELL(b), pc), z3.And(z3.ULT(i + 2, n), hexdigit(x), hexdigit(y))),
        z3.Implies(z3.Not(pc), PLAIN(b, i + 1) == snoc(PLAIN(b, i), at(b, i))),
        z3.Implies(z3.And(pc, hexdigit(x), hexdigit(y)), PLAIN(b, i + 3) == snoc(PLAIN(b, i), hexval(x) * 16 + hexval(y))))))


def positions(E, L):
    """getters of positions in the loop: offsets of pointers and numbers"""
    out = []
    for o, c in list(L.entry.mem.items()):
        for off, (size, v) in c.cells.items():
            if size == 8 and isinstance(v, Ptr) and E.objs[v.obj].name == 'characters':
                out.append(lambda s, o=o, off=off: bv(E.load(s, Ptr(o, off), 8, 'ptr').off))
    for i in L.phi_ids:
        if L.phi_ty[i] == 'ptr':
            out.append(lambda s, i=i: bv(s.frames[L.depth - 1].regs[i].off))
        elif L.phi_ty[i] == 'i64':
            out.append(lambda s, i=i: bv(s.frames[L.depth - 1].regs[i]))
    return out


def cells(L, cls):
    return [(o, off) for o, c in list(L.entry.mem.items()) for off, (size, v) in c.cells.items() if isinstance(v, cls)]


def verify_unescape(E):
    st = base(E)
    p, b = text_arg(E, st, 'uri')
    st.assume(decode_step(b, bv(0)))
    ret = E.new_obj(st, 'result', size=32)

    def temps(E, L):
        out = []
        for get in positions(E, L):
            for o, off in cells(L, GStr):
                def f(s, get=get, o=o, off=off):
                    i = get(s)
                    return z3.And(z3.ULE(i, blen(b)), z3.Implies(WELL(b), E.gget(s, Ptr(o, off), GStr).b == PLAIN(b, i)))
                out.append(('decoded so far', f))
        return out

    def define(E, L, s):
        return [decode_step(b, g(s)) for g in positions(E, L)]
    E.loop_templates.append(temps)
    E.loop_facts.append(define)
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(UNESCAPE)[0], st, [ret, p]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'UnescapeURI succeeds')
        if kind == 'ret':
            E.oblige(s, z3.Implies(WELL(b), text(E, s, ret) == PLAIN(b, blen(b))), PID, 'UnescapeURI: each escape stands for its byte, all else for itself')
    E.oblige(st, n > 0, PID, 'UnescapeURI returns')


def s_unescape(E, st, a, call):
    E.gput(st, a[0], GStr(DECODED(text(E, st, a[1]))))


# ------------------------------------------------------------------ the parts of a URI
def s_parse(E, st, a, call):
    b = text(E, st, a[1])
    f = Fields(E, INFO, a[0])
    yes, no = split(E, st, PARSED(b))
    o = []
    if yes is not None:
        for n in FIELDS:
            E.gput(yes, f.ptr(n), GStr(PART[n](b)))
            yes.assume(z3.ULT(blen(PART[n](b)), 1 << 30))
        o.append(Out(yes, 1))
    if no is not None:
        o.append(Out(no, 0))
    return o


GROUPS = {'href': 0, 'protocol': 1, 'authority': 2, 'pathname': 7, 'search': 8, 'hash': 9}


def verify_parse(E):
    st = base(E)
    p, b = text_arg(E, st, 'uri')
    info = E.new_obj(st, 'info', size=E.P.types[INFO]['size'])
    f = Fields(E, INFO, info)
    for n in FIELDS:
        E.gput(st, f.ptr(n), GStr(nil))
    start = [z3.BitVec('start_%d' % i, 32) for i in range(10)]
    end = [z3.BitVec('end_%d' % i, 32) for i in range(10)]
    for i in range(10):
        st.assume(z3.Or(start[i] == -1, z3.And(start[i] >= 0, start[i] <= end[i], z3.ULE(z3.SignExt(32, end[i]), blen(b)))))
    st.assume(start[0] >= 0, start[7] >= 0)
    done = z3.Bool('matched')
    seen = []

    def regexec(E, st, a, call):
        d = E.objs[a[1].obj].data
        E.oblige(st, isinstance(d, StrData) and d.b.eq(b) and isc(a[1].off) and a[1].off == 0, PID, 'the URI is what is matched')
        E.oblige(st, isc(a[2]) and a[2] == 10, PID, 'all parts are asked for')
        if not (isc(a[2]) and a[2] == 10):
            raise PathEnd()
        seen.append(1)
        for i in range(10):
            E.put(st, E.padd(a[3], 8 * i), 4, start[i])
            E.put(st, E.padd(a[3], 8 * i + 4), 4, end[i])
        return simp2(z3.If(done, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
    part = lambda i: z3.If(start[i] >= 0, sub(b, z3.SignExt(32, start[i]), z3.SignExt(32, end[i] - start[i])), nil)

    def temps(E, L):
        out = []
        for i in L.phi_ids:
            if L.phi_ty[i] in ('i32', 'i64'):
                for k, g in GROUPS.items():
                    def c(s, i=i, k=k, g=g):
                        w = int(L.phi_ty[i][1:])
                        return text(E, s, f.ptr(k)) == z3.If(z3.ULT(g, bv(s.frames[L.depth - 1].regs[i], w)), part(g), nil)
                    out.append(('part %s' % k, c))
        return out
    E.loop_templates.append(temps)
    pattern(E, r'regexec', regexec)
    pattern(E, r'__cxa_guard_acquire', lambda E, st, a, call: 0)
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(PARSE)[0], st, [info, p]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'ParseURI succeeds')
        if kind != 'ret':
            continue
        E.oblige(s, V.tob(r) == done, PID, 'ParseURI tells whether it is a URI')
        for k, i in GROUPS.items():
            x = text(E, s, f.ptr(k))
            E.oblige(s, z3.Implies(done, x == part(i)), PID, 'ParseURI: %s is the part that matched' % k)
    E.oblige(st, n > 1 and len(seen) > 0, PID, 'ParseURI returns')


# ------------------------------------------------------------------ dot segments
_S = z3.Datatype('Segments')
_S.declare('none')
_S.declare('push', ('below', _S), ('top', T.Bytes))
Segs = _S.create()
COUNT = z3.Function('number_of_segments', Segs, T.BV64)
SEG = z3.Function('segment', Segs, T.BV64, T.Bytes)
STACK = z3.Function('segments_up_to', T.Bytes, T.BV64, Segs)
DOT = z3.Function('ends_with_dots', T.Bytes, T.BV64, BOOL)
CLIMB = z3.Function('climbs', T.Bytes, T.BV64, BOOL)
JOIN = z3.Function('joined_segments', Segs, BOOL, T.BV64, T.Bytes)
SLASH = B8('/')


def count_facts(s):
    return z3.And(z3.ULT(COUNT(s), 1 << 32), (COUNT(s) == 0) == (s == Segs.none), z3.Implies(s != Segs.none, COUNT(s) == COUNT(Segs.below(s)) + 1))


class GSegs:
    """a vector of strings"""
    SIZE = 24

    def __init__(self, t):
        self.t = t

    def gsame(self, o):
        return isinstance(o, GSegs) and self.t.eq(o.t)

    def havoc(self, E, st, name, others):
        return GSegs(z3.FreshConst(Segs, name))


class SegView:
    """the elements of a vector of strings that is not changed"""

    def __init__(self, t):
        self.t = t

    def ghost_at(self, E, st, off):
        i = simp2(z3.LShR(bv(off), 5))
        E.oblige(st, z3.ULT(i, COUNT(self.t)), 'memory', 'iterator at the end of a vector is dereferenced')
        E.oblige(st, bv(off) == i << 5, 'memory', 'iterator between elements')
        return GStr(SEG(self.t, i))


def vectors(E):
    W = r'std::vector<%s, std::allocator<%s>>' % (STR, STR)
    E.segviews = {}

    def vec(E, st, p):
        return E.gget(st, p, GSegs).t

    def view(E, st, t):
        k = t.get_id()
        if k not in E.segviews:
            E.segviews[k] = (E.new_obj(st, 'segments', size=None, data=SegView(t)), t)
        p = E.segviews[k][0]
        if p.obj not in st.mem:
            st.mem[p.obj] = OC({})
        return p

    def push(E, st, a, call):
        t = Segs.push(vec(E, st, a[0]), text(E, st, a[1]))
        st.assume(COUNT(t) == COUNT(Segs.below(t)) + 1)
        E.gput(st, a[0], GSegs(t))

    def pop(E, st, a, call):
        t = vec(E, st, a[0])
        E.oblige(st, t != Segs.none, 'memory', 'pop_back of an empty vector')
        st.assume(count_facts(t), count_facts(Segs.below(t)))
        E.gput(st, a[0], GSegs(simp2(Segs.below(t))))

    def size(E, st, a, call):
        t = vec(E, st, a[0])
        st.assume(count_facts(t))
        return simp(COUNT(t))

    def end(E, st, a, call):
        t = vec(E, st, a[0])
        st.assume(count_facts(t))
        return Ptr(view(E, st, t).obj, simp2(COUNT(t) << 5))
    pattern(E, W + r'::vector\(\)', lambda E, st, a, call: E.gput(st, a[0], GSegs(Segs.none)))
    pattern(E, W + r'::~vector\(\)', lambda E, st, a, call: None)
    pattern(E, W + r'::(push_back|emplace_back)\(.*\)', push)
    pattern(E, W + r'::pop_back\(\)', pop)
    pattern(E, W + r'::size\(\) const', size)
    pattern(E, W + r'::empty\(\) const', lambda E, st, a, call: bo(vec(E, st, a[0]) == Segs.none))
    pattern(E, W + r'::c?begin\(\)( const)?', lambda E, st, a, call: Ptr(view(E, st, vec(E, st, a[0])).obj, 0))
    pattern(E, W + r'::c?end\(\)( const)?', end)
    E.segment_view = view

    def idx(E, st, a, call):
        t = vec(E, st, a[0])
        return Ptr(view(E, st, t).obj, simp2(bv(a[1]) << 5))
    pattern(E, W + r'::operator\[\]\(unsigned long\)( const)?', idx)


def put_segment(stack, seg):
    """the stack, whether it ends with dots and whether it climbs after a segment"""
    one, two = seg == K('.'), seg == K('..')
    none = stack == Segs.none
    return (z3.If(one, stack, z3.If(two, z3.If(none, stack, Segs.below(stack)), Segs.push(stack, seg))), z3.Or(one, two), z3.And(two, none))


def dots_step(b, i):
    """the segment behind the slash at i, and the one before the first slash"""
    n = blen(b)
    first = FA.FIND(b, SLASH, bv(0))
    head = sub(b, bv(0), first)
    nx = FA.FIND(b, SLASH, i + 1)
    t, d, c = put_segment(STACK(b, i), sub(b, i + 1, nx - (i + 1)))
    return z3.And(
        z3.Implies(first == 0, z3.And(STACK(b, first) == Segs.none, z3.Not(CLIMB(b, first)), z3.Not(DOT(b, first)))),
        z3.Implies(z3.And(first != 0), z3.And(STACK(b, first) == z3.If(head == K('.'), Segs.none, Segs.push(Segs.none, head)), CLIMB(b, first) == (head == K('..')), DOT(b, first) == (head == K('.')))),
        z3.Implies(z3.And(z3.ULT(i, n), at(b, i) == SLASH), z3.And(STACK(b, nx) == t, DOT(b, nx) == d, CLIMB(b, nx) == z3.Or(CLIMB(b, i), c))))


def join_step(t, a, k):
    p = JOIN(t, a, k)
    return z3.And(JOIN(t, a, bv(0)) == nil, JOIN(t, a, k + 1) == z3.If(z3.Or(a, k != 0), app(app(p, K('/')), SEG(t, k)), app(p, SEG(t, k))))


def without_dots(b):
    n = blen(b)
    slash = FA.FIND(b, SLASH, bv(0))
    a = slash == 0
    t = STACK(b, n)
    j = JOIN(t, a, COUNT(t))
    return z3.If(slash == n, z3.If(b == K('.'), nil, b), z3.If(z3.Or(z3.And(t == Segs.none, a), z3.And(t != Segs.none, DOT(b, n))), app(j, K('/')), j))


def verify_dots(E):
    st = base(E)
    vectors(E)
    p, b = text_arg(E, st, 'path')
    st.assume(b != nil)
    n = blen(b)
    ret = E.new_obj(st, 'result', size=32)
    first = FA.FIND(b, SLASH, bv(0))
    st.assume(dots_step(b, bv(0)), dots_step(b, first), COUNT(Segs.none) == 0)
    absolute = first == 0

    def place(x):
        return z3.If(z3.ULT(x, n), x, n)

    def numbers(L, ty):
        return [(lambda s, i=i: bv(s.frames[L.depth - 1].regs[i], int(ty[1:]))) for i in L.phi_ids if L.phi_ty[i] == ty]

    def temps(E, L):
        out = []
        segs = cells(L, GSegs)
        for o, off in segs:
            t = lambda s, o=o, off=off: E.gget(s, Ptr(o, off), GSegs).t
            for nx in numbers(L, 'i64'):
                def f(s, t=t, nx=nx):
                    i = place(nx(s))
                    return z3.And(z3.Or(z3.ULT(nx(s), n), nx(s) == -1), z3.Implies(z3.ULT(nx(s), n), at(b, nx(s)) == SLASH), z3.UGE(i, first),
                                  z3.Implies(z3.Not(CLIMB(b, i)), t(s) == STACK(b, i)), z3.ULE(COUNT(t(s)), i + 1))
                out.append(('segments so far', f))
                for ld in numbers(L, 'i32'):
                    def g(s, t=t, nx=nx, ld=ld):
                        i = place(nx(s))
                        l = z3.ZeroExt(32, ld(s))
                        return z3.And(z3.ULE(l, COUNT(t(s))), z3.Implies(z3.And(z3.Not(CLIMB(b, i)), t(s) != Segs.none), (l == COUNT(t(s))) == DOT(b, i)))
                    out.append(('place of the last dots', g))
        # writing the segments
        for o, c in list(L.entry.mem.items()):
            for off, (size, v) in c.cells.items():
                if size == 8 and isinstance(v, Ptr) and v.obj and isinstance(getattr(E.objs[v.obj], 'data', None), SegView) and isc(v.off) and v.off == 0:
                    t = E.objs[v.obj].data.t
                    for k in [k for k in L.entry.ghost if isinstance(k, tuple) and k[0] == 'stream']:
                        def f(s, o=o, off=off, t=t, k=k):
                            i = z3.LShR(bv(E.load(s, Ptr(o, off), 8, 'ptr').off), 5)
                            return z3.And(z3.ULE(i, COUNT(t)), bv(E.load(s, Ptr(o, off), 8, 'ptr').off) == i << 5, s.ghost[k] == JOIN(t, absolute, i))
                        out.append(('segments written so far', f))
                    for j in L.phi_ids:
                        if L.phi_ty[j] in ('i1', 'i8'):
                            def f(s, o=o, off=off, j=j):
                                i = bv(E.load(s, Ptr(o, off), 8, 'ptr').off)
                                return V.tob(s.frames[L.depth - 1].regs[j]) == z3.Or(absolute, i != 0)
                            out.append(('a slash comes first', f))
        return out

    def define(E, L, s):
        out = []
        for nx in numbers(L, 'i64'):
            out.append(dots_step(b, nx(s)))
        for o, off in cells(L, GSegs):
            out.append(count_facts(E.gget(s, Ptr(o, off), GSegs).t))
        for o, c in list(s.mem.items()):
            for off, (size, v) in c.cells.items():
                if size == 8 and isinstance(v, Ptr) and v.obj and isinstance(getattr(E.objs[v.obj], 'data', None), SegView):
                    out.append(join_step(E.objs[v.obj].data.t, absolute, z3.LShR(bv(v.off), 5)))
        return out
    E.loop_templates.append(temps)
    E.loop_facts.append(define)
    E.cover(st, 'precondition')
    m = 0
    for kind, s, r in E.run_function(E.P.find(DOTS)[0], st, [ret, p]):
        m += 1
        E.oblige(s, kind == 'ret', PID, 'RemoveDotSegments succeeds')
        if kind == 'ret':
            s.assume(count_facts(STACK(b, n)), join_step(STACK(b, n), absolute, bv(0)))
            climbs = z3.Or(CLIMB(b, n), b == K('..'))
            E.oblige(s, z3.Implies(z3.Not(climbs), text(E, s, ret) == without_dots(b)), PID, 'RemoveDotSegments: the remaining segments')
    E.oblige(st, m > 0, PID, 'RemoveDotSegments returns')


def s_dots(E, st, a, call):
    b = text(E, st, a[1])
    E.gput(st, a[0], GStr(NODOTS(b)))


# ------------------------------------------------------------------ resolution
def resolved(b, h):
    """RFC 3986, 5.2.2 and 5.3; the parts carry their delimiters, so a part is defined if it is not empty"""
    B, H = ({n: PART[n](x) for n in FIELDS} for x in (b, h))
    cat3 = lambda *x: __import__('functools').reduce(app, x)
    own = z3.Or(H['protocol'] != nil, H['authority'] != nil)
    lead = sub(B['pathname'], bv(0), LASTSL(B['pathname']))
    merged = z3.If(z3.And(B['authority'] != nil, B['pathname'] == nil), app(K('/'), app(lead, H['pathname'])), app(lead, H['pathname']))
    rooted = z3.And(H['pathname'] != nil, at(H['pathname'], 0) == SLASH)
    path = z3.If(z3.Or(own, rooted), H['pathname'], z3.If(H['pathname'] == nil, B['pathname'], merged))
    search = z3.If(z3.Or(own, H['pathname'] != nil, H['search'] != nil), H['search'], B['search'])
    parts = [z3.If(H['protocol'] != nil, H['protocol'], B['protocol']), z3.If(own, H['authority'], B['authority']), NODOTS(path), search, H['hash']]
    return z3.If(z3.And(PARSED(b), PARSED(h)), cat3(nil, *parts), nil)


def verify_resolve(E):
    st = base(E)
    pb, b = text_arg(E, st, 'base')
    ph, h = text_arg(E, st, 'reference')
    ret = E.new_obj(st, 'result', size=32)
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(RESOLVE)[0], st, [ret, pb, ph]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'ResolveURI succeeds')
        if kind == 'ret':
            E.oblige(s, text(E, s, ret) == resolved(b, h), PID, 'ResolveURI: scheme, authority, path, query and fragment')
    E.oblige(st, n > 0, PID, 'ResolveURI returns')


def s_resolve(E, st, a, call):
    E.gput(st, a[0], GStr(RES(text(E, st, a[1]), text(E, st, a[2]))))


# ------------------------------------------------------------------ documents by name
POS = z3.Function('number_of_key', Val, T.Bytes, T.BV64)


class GMap:
    """a std::map from names to values: the variable that holds it"""
    SIZE = 48

    def __init__(self, loc):
        self.loc = loc

    def gsame(self, o):
        return isinstance(o, GMap) and same_place(self.loc, o.loc)


ALL = z3.Function('with_all_new', Val, Val, Val)


def documents(E):
    M = r'std::map<%s, %sVariant, std::less<%s>, std::allocator<std::pair<%s const, %sVariant>>>' % (STR, NS, STR, STR, NS)

    def loc(E, st, p):
        return E.gget(st, p, GMap).loc

    def val(E, st, p):
        return read(st, loc(E, st, p))[1]

    def view(E, st, u):
        k = u.get_id()
        if k not in E.mapviews:
            E.mapviews[k] = (E.new_obj(st, 'entries', size=None, data=MapView(u)), u)
        q = E.mapviews[k][0]
        if q.obj not in st.mem:
            st.mem[q.obj] = OC({})
        return q

    def find(E, st, a, call):
        u, k = val(E, st, a[0]), text(E, st, a[1])
        st.assume(z3.ULT(LEN(u), 1 << 32), z3.Implies(HAS(u, k), z3.And(z3.ULT(POS(u, k), LEN(u)), KEY(u, POS(u, k)) == k)))
        return Ptr(view(E, st, u).obj, simp2(z3.If(HAS(u, k), POS(u, k), LEN(u))))

    def end(E, st, a, call):
        u = val(E, st, a[0])
        return Ptr(view(E, st, u).obj, simp2(LEN(u)))

    def begin(E, st, a, call):
        return Ptr(view(E, st, val(E, st, a[0])).obj, 0)

    def new(E, st, a, call):
        name = 'map %d' % a[0].obj
        st.ghost[('node', name)] = EMPTYMAP
        st.ghost[('live', name)] = z3.BoolVal(True)
        E.gput(st, a[0], GMap(('root', name)))

    def copy(E, st, a, call):
        name = 'map %d' % a[0].obj
        st.ghost[('node', name)] = val(E, st, a[1])
        st.ghost[('live', name)] = z3.BoolVal(True)
        E.gput(st, a[0], GMap(('root', name)))

    def at_key(E, st, a, call):
        l, k = loc(E, st, a[0]), text(E, st, a[1])
        o = []
        for s, new in zip(split(E, st, has(read(st, l)[1], k)), (False, True)):
            if s is None:
                continue
            if new:
                write(s, l, setk(read(s, l)[1], k, nullval))
            p = E.new_obj(s, 'element', size=64)
            E.gput(s, p, GV('ref', ('key', l, k)))
            o.append(Out(s, p))
        return o

    def insert(E, st, a, call):
        # a range of entries of another map
        f, t = a[1], a[2]
        d = E.objs[f.obj].data if isinstance(f, Ptr) else None
        if not isinstance(d, MapView) or t.obj != f.obj or not (isc(f.off) and f.off == 0):
            raise Unsupported('insertion of some entries')
        E.oblige(st, bv(t.off) == LEN(d.v), PID, 'all entries are taken over')
        l = loc(E, st, a[0])
        write(st, l, ALL(read(st, l)[1], d.v))

    def erase(E, st, a, call):
        l = loc(E, st, a[0])
        write(st, l, DELK(read(st, l)[1], text(E, st, a[1])))
        return E.fresh('i64', 'erased')
    pattern(E, M + r'::find\(.*\)( const)?', find)
    pattern(E, M + r'::end\(\)( const)?', end)
    pattern(E, M + r'::begin\(\)( const)?', begin)
    pattern(E, M + r'::map\(\)', new)
    pattern(E, M + r'::map\(.*map<.*\)', copy)
    pattern(E, M + r'::~map\(\)', lambda E, st, a, call: None)
    pattern(E, M + r'::operator\[\]\(.*\)', at_key)
    pattern(E, r'void ' + M + r'::insert<.*>\(.*\)', insert)
    pattern(E, M + r'::erase\(%s const&\)' % STR, erase)
    pattern(E, M + r'::count\(.*\) const', lambda E, st, a, call: simp2(z3.If(HAS(val(E, st, a[0]), text(E, st, a[1])), bv(1), bv(0))))
    pattern(E, NS + r'Variant::operator=\(%s const&\)' % STR, assign_text)
    pattern(E, NS + r'Variant::Variant\(%s const&\)' % STR, assign_text)
    pattern(E, NS + r'Variant::Variant\(libvariant::VariantDefines::Type_t\)', ctor_type)


def assign_text(E, st, a, call):
    t = text(E, st, a[1])
    x = STRV(t)
    st.assume(TYP(x) == STRT, TEXT(x) == t)
    if '::Variant(' in call.dem:
        put_val(E, st, a[0], x)
        return None
    g = gv(E, st, a[0])
    if g.kind == 'val':
        E.gput(st, a[0], GV('val', x))
    else:
        write(st, g.x, x)
    return a[0]


def ctor_type(E, st, a, call):
    if not isc(a[1]) or a[1] not in (NULLT, LISTT, MAPT):
        raise Unsupported('value of a type')
    put_val(E, st, a[0], {NULLT: nullval, LISTT: EMPTYLIST, MAPT: EMPTYMAP}[a[1]])


# ------------------------------------------------------------------ finding a schema
def loader_object(E, st, handlers, cls=SL, name='loader'):
    vt = abstract_vtable(E, st, cls, handlers)
    p = E.new_obj(st, name, size=E.P.types[cls]['size'])
    E.put(st, p, 8, vt)
    f = Fields(E, SL, p)
    loc = root(st, 'documents')
    st.assume(TYP(read(st, loc)[1]) == MAPT)
    E.gput(st, f.ptr('schemas'), GMap(loc))
    return p, f, loc


def errors(E):
    """the texts of errors do not matter"""
    pattern(E, SL + r'::LoaderError::~?LoaderError\(\)', lambda E, st, a, call: None)
    pattern(E, SL + r'::LoaderError::GetErrorMessage(\[abi:cxx11\])?\(\) const', lambda E, st, a, call: E.gput(st, a[0], GStr(E.fresh('bytes', 'message'))))

    def add(E, st, a, call):
        st.ghost[('old', 'reported')] = True
    pattern(E, SL + r'::LoaderError::AddError\(.*\)', add)


def pointers(E):
    def lookup(E, st, a, call):
        g = gv(E, st, a[2])
        loc = g.x if g.kind == 'ref' else ('const', g.x)
        e, v = read(st, loc)
        t = text(E, st, a[1])

        def f(s):
            facts(s, ALONG(v, t))
            E.gput(s, a[0], GV('ref', ('sub', loc, t)))
        return need(E, st, z3.And(e, FOUND(v, t)), f)
    pattern(E, NS + r'JSONPointerLookup\(.*\)', lookup)


def verify_get(E, based):
    st = base(E)
    errors(E)
    pointers(E)
    pu, u = text_arg(E, st, 'uri')
    hash_ = FA.FIND(u, B8('#'), bv(0))
    split_ = z3.ULT(hash_, blen(u))
    doc = z3.If(split_, sub(u, bv(0), hash_), RES(u, nil))
    frag = z3.If(split_, sub(u, hash_ + 1, blen(u) - (hash_ + 1)), nil)
    after = z3.Const('documents_after', Val)
    ok = z3.Bool('handled')

    def missing(E, st, a, inst):
        E.oblige(st, text(E, st, a[1]) == doc, PID, 'GetSchema: the document that is missing is asked for')
        E.oblige(st, isc(st.ghost.get(('iter', 'asked'), 0)) and st.ghost.get(('iter', 'asked'), 0) == 0, PID, 'GetSchema: a missing document is asked for once')
        st.ghost[('iter', 'asked')] = 1
        st.ghost[('node', 'documents')] = after
        facts(st, after)
        st.assume(TYP(after) == MAPT)
        return [Out(st, simp2(z3.If(ok, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))]
    inner = z3.Const('found_by_base', Val)
    there = z3.Bool('base_finds')

    def get(E, st, a, inst):
        E.oblige(st, text(E, st, a[2]) == u, PID, 'GetSchema: the whole reference goes to the base loader')
        return need(E, st, there, lambda s: put_val(E, s, a[0], inner))
    p, f, loc = loader_object(E, st, {r'::HandleMissing\(': missing})
    f.put(st, 'base', abstract_object(E, st, SL, {r'::GetSchema\(': get}, name='base') if based else NULL, 8)
    if based:
        E.summaries[GET] = lambda E, st, a, call: get(E, st, a, None)
    m = read(st, loc)[1]
    ret = E.new_obj(st, 'result', size=64)
    E.cover(st, 'precondition')
    n = {'ret': 0, 'exc': 0}
    d = lambda v: DECODED(frag)
    own, mine = HAS(m, u), HAS(m, doc)
    x = GETK(m, doc)
    if based:
        found = z3.Or(own, z3.If(mine, FOUND(x, d(0)), there))
        want = z3.If(own, GETK(m, u), z3.If(mine, ALONG(x, d(0)), inner))
    else:
        y = GETK(after, doc)
        found = z3.Or(own, z3.If(mine, FOUND(x, d(0)), z3.And(ok, z3.Or(z3.Not(HAS(after, doc)), FOUND(y, d(0))))))
        want = z3.If(own, GETK(m, u), z3.If(mine, ALONG(x, d(0)), z3.If(HAS(after, doc), ALONG(y, d(0)), nullval)))
    for kind, s, r in E.run_function(E.P.find(GET)[0], st, [ret, p, pu]):
        n[kind] += 1
        E.oblige(s, found if kind == 'ret' else z3.Not(found), PID, 'GetSchema fails exactly if there is no such schema')
        if kind == 'ret':
            E.oblige(s, gv(E, s, ret).x == want if gv(E, s, ret).kind == 'val' else False, PID, 'GetSchema: the schema of that name')
        if 1 != s.ghost.get(('iter', 'asked'), 0):
            E.oblige(s, read(s, loc)[1] == m, PID, 'GetSchema: the documents stay as they are')
    E.oblige(st, n['ret'] > 0 and n['exc'] > 0, PID, 'GetSchema can succeed and fail')


def verify_missing(E, which):
    st = base(E)
    errors(E)
    pu, u = text_arg(E, st, 'uri')
    answer = z3.BitVec('answer', 1)
    err = E.new_obj(st, 'error', size=8)
    ctx = E.new_obj(st, 'handler context', size=1)
    p, f, loc = loader_object(E, st, {})
    calls = []

    def handler(E, st, a, inst):
        calls.append('handler')
        E.oblige(st, a[0] == p and a[1] == pu and a[2] == err and a[3] == ctx, PID, 'HandleMissing: the handler is asked for the document')
        return [Out(st, answer)]

    def inner(E, st, a, inst):
        calls.append('base')
        E.oblige(st, a[1] == pu and a[2] == err, PID, 'HandleMissing: the base loader is asked for the document')
        return [Out(st, answer)]
    f.put(st, 'missingHandler', E.new_obj(st, 'handler', kind='afn', handler=handler, size=0) if which == 'handler' else NULL, 8)
    f.put(st, 'missingctx', ctx, 8)
    f.put(st, 'base', abstract_object(E, st, SL, {r'::HandleMissing\(': inner}, name='base') if which != 'none' else NULL, 8)
    if which == 'base':
        E.summaries[MISSING] = lambda E, st, a, call: inner(E, st, a, None)
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(MISSING)[0], st, [p, pu, err]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'HandleMissing succeeds')
        if kind == 'ret':
            E.oblige(s, V.tob(r) == (answer == 1 if which != 'none' else False), PID, 'HandleMissing: the answer')
            if which == 'none':
                E.oblige(s, s.ghost.get(('old', 'reported'), False) is True, PID, 'HandleMissing: the failure is reported')
    E.oblige(st, n > 0 and set(calls) == ({which} - {'none'}), PID, 'HandleMissing asks the handler, else the base loader')


# ------------------------------------------------------------------ names in a schema
NORM = z3.Function('normalised', Val, T.Bytes, Val)
NPM = z3.Function('entries_normalised', Val, T.Bytes, T.BV64, Val)
NPL = z3.Function('elements_normalised', Val, T.Bytes, T.BV64, Val)
KEYS = z3.Function('keys_of', Val, Val)


class MutMap:
    def __init__(self, loc, v):
        self.loc, self.v = loc, v


class MutList:
    def __init__(self, loc, v):
        self.loc, self.v = loc, v

    def ghost_at(self, E, st, off):
        i = simp2(z3.LShR(bv(off), 6))
        e, v = read(st, self.loc)
        E.oblige(st, z3.And(e, TYP(v) == LISTT, z3.ULT(i, LEN(v)), LEN(v) == LEN(self.v)), 'memory', 'list iterator at the end is dereferenced')
        E.oblige(st, bv(off) == i << 6, 'memory', 'list iterator between elements')
        for h in E.entry_hooks:
            st.assume(h(self.v, i))
        facts(st, GETI(v, i))
        return GV('ref', ('idx', self.loc, i))


def mutable(E):
    """iterators through which the entries are changed, the keys staying the same"""
    IT = r'std::_Rb_tree_iterator<std::pair<%s const, %sVariant>>' % (STR, NS)
    Vp = NS + 'Variant::'
    AB = r'(\[abi:cxx11\])?'
    E.mutviews = {}

    def view(E, st, p, cls):
        g = gv(E, st, p)
        if g.kind != 'ref':
            raise Unsupported('entries of a temporary value')
        v = read(st, g.x)[1]
        k = (cls, str(g.x), v.get_id())
        if k not in E.mutviews:
            E.mutviews[k] = (E.new_obj(st, 'entries to change', size=None, data=cls(g.x, v)), v)
        q = E.mutviews[k][0]
        if q.obj not in st.mem:
            st.mem[q.obj] = OC({})
        return q

    def border(cls, ty, n):
        def f(E, st, a, call):
            e, v = look(E, st, a[0])
            return need(E, st, z3.And(e, TYP(v) == ty), lambda s: Ptr(view(E, s, a[0], cls).obj, 0 if n is None else simp2(LEN(v) << n)))
        return f

    def cur(E, st, p):
        q = E.load(st, p, 8, 'ptr')
        d = E.objs[q.obj].data
        if not isinstance(d, MutMap):
            raise Unsupported('another iterator')
        return q, d

    def valid(E, st, q, d):
        v = read(st, d.loc)[1]
        E.oblige(st, z3.And(TYP(v) == MAPT, KEYS(v) == KEYS(d.v), z3.ULT(bv(q.off), LEN(d.v))), 'memory', 'map iterator at the end')
        return v

    def step(E, st, a, call):
        q, d = cur(E, st, a[0])
        valid(E, st, q, d)
        E.put(st, a[0], 8, Ptr(q.obj, simp(bv(q.off) + 1)))
        return a[0]

    def deref(E, st, a, call):
        q, d = cur(E, st, a[0])
        v = valid(E, st, q, d)
        i = simp2(bv(q.off))
        k = KEY(d.v, i)
        entry_facts(st, d.v, i)
        st.assume(HAS(v, k))
        facts(st, GETK(v, k))
        for h in E.entry_hooks:
            st.assume(h(d.v, i))
        p = E.new_obj(st, 'entry', size=96)
        st.mem[p.obj] = OC({0: (32, GStr(k)), 32: (64, GV('ref', ('key', d.loc, k)))})
        return p

    def eq(neg):
        def f(E, st, a, call):
            x, y = cur(E, st, a[0]), cur(E, st, a[1])
            if x[0].obj != y[0].obj:
                raise Unsupported('iterators of different maps')
            r = bv(x[0].off) == bv(y[0].off)
            return bo(z3.Not(r) if neg else r)
        return f
    pattern(E, Vp + 'MapBegin' + AB + r'\(\)', border(MutMap, MAPT, None))
    pattern(E, Vp + 'MapEnd' + AB + r'\(\)', border(MutMap, MAPT, 0))
    pattern(E, Vp + 'ListBegin' + AB + r'\(\)', border(MutList, LISTT, None))
    pattern(E, Vp + 'ListEnd' + AB + r'\(\)', border(MutList, LISTT, 6))
    pattern(E, IT + r'::operator\+\+\(\)', step)
    pattern(E, IT + r'::operator(->|\*)\(\) const', deref)
    pattern(E, r'std::operator!=\(' + IT + ' const&, ' + IT + r' const&\)', eq(True))
    pattern(E, r'std::operator==\(' + IT + ' const&, ' + IT + r' const&\)', eq(False))


def norm_step(v, u, n):
    """definitions; and that an entry is not changed before its turn"""
    k = KEY(v, n)
    a, b = NPM(v, u, n), NPL(v, u, n)
    return z3.And(NPM(v, u, bv(0)) == v, NPL(v, u, bv(0)) == v,
                  z3.Implies(z3.And(TYP(v) == MAPT, z3.ULT(n, LEN(v))), z3.And(GETK(a, k) == GETK(v, k), NPM(v, u, n + 1) == z3.If(k == K('enum'), a, SETK(a, k, NORM(GETK(v, k), u))))),
                  z3.Implies(z3.And(TYP(v) == LISTT, z3.ULT(n, LEN(v))), z3.And(GETI(b, n) == GETI(v, n), NPL(v, u, n + 1) == SETI(b, n, NORM(GETI(v, n), u)))))


def named(v, u):
    """the name of a schema inside of one named u, and the schema with its name completed"""
    i = GETK(v, K('id'))
    yes = z3.And(HAS(v, K('id')), TYP(i) == STRT)
    b = RES(u, TEXT(i))
    return z3.If(yes, b, u), z3.If(yes, SETK(v, K('id'), STRV(b)), v)


def normalised(v, u):
    b, w = named(v, u)
    r = GETK(w, K('$ref'))
    ref = z3.And(HAS(w, K('$ref')), TYP(r) == STRT)
    return z3.If(TYP(v) == MAPT, z3.If(ref, SETK(w, K('$ref'), STRV(RES(b, TEXT(r)))), NPM(w, b, LEN(w))), z3.If(TYP(v) == LISTT, NPL(v, u, LEN(v)), v))


def s_norm(E, st, a, call):
    g = gv(E, st, a[0])
    if g.kind != 'ref':
        raise Unsupported('a temporary schema')
    e, v = read(st, g.x)
    E.oblige(st, e, PID, 'NormSchema: the part is there')
    before = read(st, g.x[1])[1] if g.x[0] in ('key', 'idx') else None
    w = NORM(v, text(E, st, a[1]))
    facts(st, w)
    write(st, g.x, w)
    if before is not None:
        now = read(st, g.x[1])[1]
        st.assume(TYP(now) == TYP(before), LEN(now) == LEN(before), z3.Implies(TYP(before) == MAPT, KEYS(now) == KEYS(before)))


def verify_norm(E, ty):
    st = base(E)
    mutable(E)
    E.summaries[NORMALISE] = s_norm
    pu, u = text_arg(E, st, 'uri')
    loc = root(st, 'schema')
    v = read(st, loc)[1]
    st.assume(TYP(v) == ty if ty is not None else z3.And(TYP(v) != MAPT, TYP(v) != LISTT))
    p = E.new_obj(st, 'schema variable', size=64)
    E.gput(st, p, GV('ref', loc))
    b, w = named(v, u)

    def its(L):
        return [(o, off, E.objs[x.obj].data) for o, c in list(L.entry.mem.items()) for off, (size, x) in c.cells.items()
                if size == 8 and isinstance(x, Ptr) and x.obj and isinstance(getattr(E.objs[x.obj], 'data', None), (MutMap, MutList)) and isc(x.off) and x.off == 0]

    def number(s, o, off, d):
        n = bv(E.load(s, Ptr(o, off), 8, 'ptr').off)
        return n if isinstance(d, MutMap) else z3.LShR(n, 6)

    def names(d):
        return [b, u] if ty == MAPT else [u]

    def temps(E, L):
        out = []
        for o, off, d in its(L):
            for x in names(d):
                def f(s, o=o, off=off, d=d, x=x):
                    n = number(s, o, off, d)
                    now = read(s, loc)[1]
                    same = KEYS(now) == KEYS(d.v) if isinstance(d, MutMap) else bv(E.load(s, Ptr(o, off), 8, 'ptr').off) == n << 6
                    return z3.And(z3.ULE(n, LEN(d.v)), LEN(now) == LEN(d.v), TYP(now) == TYP(d.v), same, now == (NPM if isinstance(d, MutMap) else NPL)(d.v, x, n))
                out.append(('parts normalised so far', f))
        return out

    def define(E, L, s):
        return [norm_step(d.v, x, number(s, o, off, d)) for o, off, d in its(L) for x in names(d)]
    E.loop_templates.append(temps)
    E.loop_facts.append(define)
    for x in (v, w):
        for y in (u, b):
            st.assume(norm_step(x, y, bv(0)))
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(NORMALISE)[0], st, [p, pu]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'NormSchema succeeds')
        if kind == 'ret':
            E.oblige(s, read(s, loc)[1] == normalised(v, u), PID, 'NormSchema: names and references are completed')
    E.oblige(st, n > 0, PID, 'NormSchema returns')


# ------------------------------------------------------------------ nested documents
COLL = z3.Function('with_named_parts', Val, Val, T.Bytes, Val)
CPART = z3.Function('with_named_parts_of_entries', Val, Val, T.Bytes, T.BV64, Val)


def coll_step(m, s, u, n):
    k = KEY(s, n)
    x = GETK(s, k)
    p = CPART(m, s, u, n)
    return z3.And(CPART(m, s, u, bv(0)) == m, CPART(m, s, u, n + 1) == z3.If(z3.And(k != K('enum'), TYP(x) == MAPT), COLL(p, x, u), p))


def trusted(id_, u):
    """a name below u: u up to its end, which is a slash, or followed by a fragment or query"""
    n = blen(u)
    nx = at(id_, n)
    return z3.And(z3.UGE(blen(id_), n), sub(id_, bv(0), n) == u, z3.Or(z3.And(n != 0, at(u, n - 1) == SLASH), z3.And(z3.UGT(blen(id_), n), z3.Or(nx == B8('#'), nx == B8('?')))))


def with_own(m, s, u):
    i = GETK(s, K('id'))
    return z3.If(z3.And(HAS(s, K('id')), TYP(i) == STRT, trusted(TEXT(i), u), z3.Not(HAS(m, TEXT(i)))), SETK(m, TEXT(i), s), m)


def s_search(E, st, a, call):
    l = E.gget(st, a[0], GMap).loc
    m, s, u = read(st, l)[1], look(E, st, a[1])[1], text(E, st, a[2])
    w = COLL(m, s, u)
    facts(st, w)
    st.assume(TYP(w) == MAPT)
    write(st, l, w)


def verify_search(E, ty):
    st = base(E)
    E.summaries[SEARCH] = s_search
    pu, u = text_arg(E, st, 'uri')
    ps, s0 = value(E, st, 'schema', None)
    st.assume(TYP(s0) == MAPT if ty else TYP(s0) != MAPT)
    loc = root(st, 'found')
    m = read(st, loc)[1]
    st.assume(TYP(m) == MAPT, z3.ULT(blen(TEXT(GETK(s0, K('id')))), 1 << 30))
    pm = E.new_obj(st, 'map', size=48)
    E.gput(st, pm, GMap(loc))
    m1 = with_own(m, s0, u)
    starts = []

    def its(L):
        return [(o, off) for o, c in list(L.entry.mem.items()) for off, (size, x) in c.cells.items()
                if size == 8 and isinstance(x, Ptr) and x.obj and isinstance(getattr(E.objs[x.obj], 'data', None), MapView) and isc(x.off) and x.off == 0]

    def temps(E, L):
        out = []
        for o, off in its(L):
            def f(s, o=o, off=off):
                n = bv(E.load(s, Ptr(o, off), 8, 'ptr').off)
                now = read(s, loc)[1]
                return z3.And(z3.ULE(n, LEN(s0)), TYP(now) == MAPT, now == CPART(m1, s0, u, n))
            out.append(('entries searched so far', f))
        return out

    def define(E, L, s):
        return [coll_step(m1, s0, u, bv(E.load(s, Ptr(o, off), 8, 'ptr').off)) for o, off in its(L)]
    E.loop_templates.append(temps)
    E.loop_facts.append(define)
    st.assume(coll_step(m1, s0, u, bv(0)))
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(SEARCH)[0], st, [pm, ps, pu]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'SearchForTrustedSchemas succeeds')
        if kind == 'ret':
            E.oblige(s, read(s, loc)[1] == (CPART(m1, s0, u, LEN(s0)) if ty else m), PID, 'SearchForTrustedSchemas: every part with a name below that of the document')
    E.oblige(st, n > 0, PID, 'SearchForTrustedSchemas returns')


def verify_add(E):
    st = base(E)
    E.summaries[NORMALISE] = s_norm
    E.summaries[SEARCH] = s_search
    pu, u = text_arg(E, st, 'uri')
    p, f, loc = loader_object(E, st, {})
    doc = root(st, 'schema')
    v = read(st, doc)[1]
    m = read(st, loc)[1]
    ps = E.new_obj(st, 'schema variable', size=64)
    E.gput(st, ps, GV('ref', doc))
    # a value that is put somewhere else shares its containers: it follows the changes of the document
    shared = z3.Const('the_document', Val)
    plain = next(fn for rx, fn in E.patterns if rx.match(NS + 'Variant::operator=(libvariant::Variant const&)'))

    def assign(E, st, a, call):
        g, t = gv(E, st, a[1]), gv(E, st, a[0])
        if g.kind == 'ref' and same_place(g.x, doc) and t.kind == 'ref':
            write(st, t.x, shared)
            return a[0]
        return plain(E, st, a, call)
    pattern(E, NS + r'Variant::operator=\(libvariant::Variant const&\)', assign)
    ret = E.new_obj(st, 'result', size=48)
    n = 0
    luri = RES(u, nil)
    want = NORM(v, luri)
    found = COLL(SETK(EMPTYMAP, luri, want), want, luri)
    st.assume(z3.Not(HAS(EMPTYMAP, luri)))
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(ADD)[0], st, [ret, p, pu, ps]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'AddSchema succeeds')
        if kind == 'ret':
            now = read(s, doc)[1]
            fin = lambda x: z3.substitute(x, (shared, now))
            E.oblige(s, now == want, PID, 'AddSchema: the document is normalised')
            E.oblige(s, fin(read(s, loc)[1]) == ALL(m, found), PID, 'AddSchema: the document and its named parts are added, none replaced')
            E.oblige(s, fin(read(s, E.gget(s, ret, GMap).loc)[1]) == found, PID, 'AddSchema: what was added is returned')
    E.oblige(st, n > 0, PID, 'AddSchema returns')


def verify_forget(E):
    st = base(E)
    pu, u = text_arg(E, st, 'uri')
    p, f, loc = loader_object(E, st, {})
    m = read(st, loc)[1]
    n = 0
    for kind, s, r in E.run_function(E.P.find(SL + '::ForgetSchema(%s)' % S1)[0], st, [p, pu]):
        n += 1
        E.oblige(s, kind == 'ret' and read(s, loc)[1] == DELK(m, u), PID, 'ForgetSchema: the schema of that name is gone')
    E.oblige(st, n > 0, PID, 'ForgetSchema returns')


# ------------------------------------------------------------------ documents in files
READABLE = z3.Function('readable', T.Bytes, BOOL)
FILE = z3.Function('content_of', T.Bytes, Val)
TRYOK = z3.Function('some_file_readable_from', T.BV64, BOOL)
TRYDOC = z3.Function('first_file_readable_from', T.BV64, Val)


def info_object(E, st, u):
    p = E.new_obj(st, 'info', size=E.P.types[INFO]['size'])
    f = Fields(E, INFO, p)
    for n in FIELDS:
        E.gput(st, f.ptr(n), GStr(PART[n](u)))
        st.assume(z3.ULT(blen(PART[n](u)), 1 << 30))
    return p


def reads(E):
    def guess(E, st, a, call):
        d = E.objs[a[1].obj].data
        t = d.b if isinstance(d, StrData) and isc(a[1].off) and a[1].off == 0 else cstring(E, st, a[1])
        return need(E, st, READABLE(t), lambda s: put_val(E, s, a[0], FILE(t)))
    pattern(E, NS + r'DeserializeGuessFile\(char const\*\)', guess)

    def add(E, st, a, call):
        name = 'map %d' % a[0].obj
        st.ghost[('node', name)] = EMPTYMAP
        st.ghost[('live', name)] = z3.BoolVal(True)
        E.gput(st, a[0], GMap(('root', name)))
        E.oblige(st, ('old', 'added') not in st.ghost, PID, 'only one document is added')
        st.ghost[('old', 'added')] = (text(E, st, a[2]), look(E, st, a[3])[1])
        return [Out(st, None)]
    E.summaries[ADD] = add
    return add


def verify_files(E):
    st = base(E)
    vectors(E)
    errors(E)
    add = reads(E)
    p = E.new_obj(st, 'loader', size=E.P.types[ADV]['size'])
    E.put(st, p, 8, abstract_vtable(E, st, ADV, {r'::AddSchema\(': add}))
    t = z3.Const('search_paths', Segs)
    E.gput(st, Fields(E, ADV, p).ptr('paths'), GSegs(t))
    st.assume(count_facts(t))
    u = z3.Const('uri', T.Bytes)
    pi = info_object(E, st, u)
    err = E.new_obj(st, 'error', size=8)
    auth, prot, path = PART['authority'](u), PART['protocol'](u), PART['pathname'](u)
    two = z3.And(prot != nil, z3.UGE(blen(auth), 2), at(auth, 0) == SLASH, at(auth, 1) == SLASH)
    full = z3.If(auth == nil, path, app(z3.If(two, sub(auth, bv(2), blen(auth) - 2), auth), path))
    absolute = z3.And(full != nil, at(full, 0) == SLASH)
    one = lambda n: app(app(SEG(t, n), K('/')), full)
    step = lambda n: z3.And(TRYOK(n) == z3.And(z3.ULT(n, COUNT(t)), z3.Or(READABLE(one(n)), TRYOK(n + 1))), TRYDOC(n) == z3.If(READABLE(one(n)), FILE(one(n)), TRYDOC(n + 1)))

    def its(L):
        return [(o, off) for o, c in list(L.entry.mem.items()) for off, (size, v) in c.cells.items()
                if size == 8 and isinstance(v, Ptr) and v.obj and isinstance(getattr(E.objs[v.obj], 'data', None), SegView) and isc(v.off) and v.off == 0]

    def temps(E, L):
        out = []
        for o, off in its(L):
            def f(s, o=o, off=off):
                x = bv(E.load(s, Ptr(o, off), 8, 'ptr').off)
                n = z3.LShR(x, 5)
                return z3.And(x == n << 5, z3.ULE(n, COUNT(t)), TRYOK(bv(0)) == TRYOK(n), z3.Implies(TRYOK(n), TRYDOC(bv(0)) == TRYDOC(n)))
            out.append(('no file before is readable', f))
        return out
    E.loop_templates.append(temps)
    E.loop_facts.append(lambda E, L, s: [step(z3.LShR(bv(E.load(s, Ptr(o, off), 8, 'ptr').off), 5)) for o, off in its(L)])
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(FROMFILE)[0], st, [p, pi, err]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'LoadFromFile succeeds')
        if kind != 'ret':
            continue
        ok = z3.If(absolute, READABLE(full), TRYOK(bv(0)))
        E.oblige(s, V.tob(r) == ok, PID, 'LoadFromFile: found exactly if some file can be read')
        added = s.ghost.get(('old', 'added'))
        E.oblige(s, V.tob(r) == (added is not None), PID, 'LoadFromFile: a document is added exactly if one is found')
        if added is not None:
            E.oblige(s, added[0] == PART['href'](u), PID, 'LoadFromFile: the document is added under its name')
            E.oblige(s, added[1] == z3.If(absolute, FILE(full), TRYDOC(bv(0))), PID, 'LoadFromFile: the first file that can be read counts')
    E.oblige(st, n > 0, PID, 'LoadFromFile returns')


def verify_dispatch(E):
    """file names and names without scheme are looked for in files, others are fetched; then the handlers"""
    st = base(E)
    pu, u = text_arg(E, st, 'uri')
    p = E.new_obj(st, 'loader', size=E.P.types[ADV]['size'])
    err = E.new_obj(st, 'error', size=8)
    R = {n: z3.Bool('%s_has_it' % n) for n in ('file', 'net', 'handler')}

    def asked(n):
        def f(E, st, a, call):
            if n != 'handler':
                i = Fields(E, INFO, a[1])
                E.oblige(st, z3.And(*[text(E, st, i.ptr(x)) == PART[x](u) for x in FIELDS]), PID, 'HandleMissing: the parts of the name are used')
            else:
                E.oblige(st, text(E, st, a[1]) == u, PID, 'HandleMissing: the handler is asked for the document')
            E.oblige(st, ('old', n) not in st.ghost, PID, 'HandleMissing: each way is tried once')
            st.ghost[('old', n)] = True
            return simp2(z3.If(R[n], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        return f
    E.summaries[FROMFILE] = asked('file')
    E.summaries[FROMCURL] = asked('net')
    E.summaries[MISSING] = asked('handler')
    href, prot = PART['href'](u), PART['protocol'](u)
    local = z3.And(href != nil, z3.Or(at(href, 0) == SLASH, at(href, 0) == B8('.')))
    usable = z3.And(u != nil, PARSED(u))
    file_ = z3.And(usable, z3.Or(local, prot == nil, prot == K('file:')))
    net = z3.And(usable, z3.Not(local), prot != K('file:'))
    E.cover(st, 'precondition')
    n = 0
    for kind, s, r in E.run_function(E.P.find(AMISSING)[0], st, [p, pu, err]):
        n += 1
        E.oblige(s, kind == 'ret', PID, 'HandleMissing succeeds')
        if kind == 'ret':
            E.oblige(s, V.tob(r) == z3.Or(z3.And(file_, R['file']), z3.And(net, R['net']), R['handler']) if ('old', 'handler') in s.ghost else V.tob(r) == z3.Or(z3.And(file_, R['file']), z3.And(net, R['net'])),
                     PID, 'HandleMissing: the answer of the ways tried')
            E.oblige(s, z3.Implies(z3.Not(V.tob(r)), ('old', 'handler') in s.ghost), PID, 'HandleMissing: the handlers are asked last')
            E.oblige(s, z3.Implies(('old', 'net') in s.ghost, net) if ('old', 'net') in s.ghost else True, PID, 'HandleMissing: file names are not fetched')
            E.oblige(s, z3.And(file_) if ('old', 'file') in s.ghost else z3.Not(file_), PID, 'HandleMissing: files are looked for exactly if the name can be one')
    E.oblige(st, n > 0, PID, 'HandleMissing returns')


def tasks(P, tier):
    from ..run import Task
    T_ = []

    def t(name, fn, *a, f=()):
        T_.append(Task('schema loading: ' + name, fn, a, props=(PID,), safety=PID, funcs=list(f)))
    t('RemoveDotSegments', verify_dots, f=[DOTS])
    t('ParseURI', verify_parse, f=[PARSE])
    t('UnescapeURI', verify_unescape, f=[UNESCAPE])
    t('ResolveURI', verify_resolve, f=[RESOLVE])
    for based in (False, True):
        t('GetSchema%s' % (' with a base loader' if based else ''), verify_get, based, f=[GET])
    for w in ('handler', 'base', 'none'):
        t('HandleMissing ' + w, verify_missing, w, f=[MISSING])
    for ty in (MAPT, LISTT, None):
        t('NormSchema %s' % {MAPT: 'map', LISTT: 'list', None: 'other'}[ty], verify_norm, ty, f=[NORMALISE])
    for ty in (True, False):
        t('SearchForTrustedSchemas %s' % ('map' if ty else 'other'), verify_search, ty, f=[SEARCH])
    t('AddSchema', verify_add, f=[ADD])
    t('ForgetSchema', verify_forget, f=[SL + '::ForgetSchema(%s)' % S1])
    t('LoadFromFile', verify_files, f=[FROMFILE])
    t('AdvSchemaLoader HandleMissing', verify_dispatch, f=[AMISSING])
    return T_
