"""Contracts for the validation of data by a schema (src/Schema.cc).

OK(schema, data) is what a schema accepts. The contract of the validation: no error is recorded afterwards exactly if none was before and the
schema accepts the data, it stops early only with an error recorded, and every error names a place that exists in the data and a keyword of the
schema that fails there. Each keyword is proved against its own definition, the validation of the parts replaced by the contract."""
import z3
from .. import theory as T
from ..theory import bv, nil
from ..engine import *
from ..lib import *
from ..models_cxx import GStr, STR, StrData, cstring, str_view
from ..facade import *
from .. import facade as FA
from .. import variants as V
from .ext_flat import value

TU = ['src/Schema.cc']
PID = 'P15'
CTX = NS + 'SchemaContext'
ARGS = '(%s&, %sVariant, %sVariant)' % (CTX, NS, NS)
VALID = NS + 'SchemaValidate' + ARGS
STOP = '_ZTIN10libvariant14StopValidationE'
OK = z3.Function('accepts', Val, Val, z3.BoolSort())
NAMED = z3.Function('schema_named', T.Bytes, Val)
BADRE = z3.Function('not_an_expression', T.Bytes, z3.BoolSort())
MATCH = z3.Function('matches', T.Bytes, T.Bytes, z3.BoolSort())
PE = NS + 'PathElement'
DQ = r'std::deque<%s, std::allocator<%s>>' % (PE, PE)


class GFlag:
    """a vector of errors: are there any"""
    SIZE = 24

    def __init__(self, b):
        self.b = z3.BoolVal(b) if isinstance(b, bool) else b

    def gsame(self, o):
        return isinstance(o, GFlag) and self.b.eq(o.b)

    def havoc(self, E, st, name, others):
        return GFlag(z3.FreshConst(z3.BoolSort(), name))


class GPath:
    """a path: the value it starts at and the elements from there"""
    SIZE = 80

    def __init__(self, start, elems=()):
        self.start, self.elems = start, elems

    def gsame(self, o):
        return isinstance(o, GPath) and self.start.eq(o.start) and same_place(self.elems, o.elems)

    def value(self):
        v, there = self.start, z3.BoolVal(True)
        for k, x in self.elems:
            there = z3.And(there, z3.And(TYP(v) == MAPT, HAS(v, x)) if k == 'key' else z3.And(TYP(v) == LISTT, z3.ULT(x, LEN(v))))
            v = GETK(v, x) if k == 'key' else GETI(v, x)
        return there, v


class GErr:
    """an error: the places it names"""
    SIZE = 8

    def __init__(self, data, schema):
        self.data, self.schema = data, schema

    def gsame(self, o):
        return isinstance(o, GErr) and same(self.schema, o.schema) and (self.data is None or self.data.gsame(o.data))


class GRe:
    """a compiled regular expression"""
    SIZE = 8

    def __init__(self, b):
        self.b = b

    def gsame(self, o):
        return isinstance(o, GRe) and self.b.eq(o.b)


def text_at(E, st, p):
    d = E.objs[p.obj].data if p.obj else None
    if isinstance(d, StrData) and isc(p.off) and p.off == 0:
        return d.b
    return cstring(E, st, p)


def setup(E):
    V.error_models(E)
    V.shared_models(E)
    FA.setup(E)
    FA.strings(E)
    FA.maps(E)
    FA.lists(E)
    E.on_error = None
    nothing = lambda E, st, a, call: None

    # paths
    def elem(E, st, p):
        k = E.load(st, p, 4, 'i32')
        if not isc(k):
            raise Unsupported('path element of unknown kind')
        if k == enum_key(E):
            return ('key', E.gget(st, E.padd(p, 8), GStr).b)
        return ('idx', simp2(z3.ZeroExt(32, bv(E.load(st, E.padd(p, 4), 4, 'i32'), 32))))

    def push(E, st, a, call):
        g = E.gget(st, a[0], GPath)
        x = elem(E, st, a[1])
        if x[0] == 'idx':
            # definitions to use for this element
            for f in E.entry_hooks:
                st.assume(f(g.value()[1], x[1]))
        E.gput(st, a[0], GPath(g.start, g.elems + (x,)))

    def pop(E, st, a, call):
        g = E.gget(st, a[0], GPath)
        E.oblige(st, len(g.elems) > 0, PID, 'a path is only shortened by what it was extended')
        if not g.elems:
            raise PathEnd()
        E.gput(st, a[0], GPath(g.start, g.elems[:-1]))

    def pcopy(E, st, a, call):
        E.gput(st, a[0], E.gget(st, a[1], GPath))

    pattern(E, DQ + r'::push_back\(.*\)', push)
    pattern(E, DQ + r'::pop_back\(\)', pop)
    pattern(E, DQ + r'::deque\(' + DQ + r' (const&|&&)\)', pcopy)
    pattern(E, DQ + r'::deque\(\)', lambda E, st, a, call: E.gput(st, a[0], GPath(E.path_start(a[0]))))
    pattern(E, DQ + r'::~deque\(\)', nothing)
    for n in ('Path',):
        pattern(E, NS + n + r'::' + n + r'\(\)', lambda E, st, a, call: E.gput(st, a[0], GPath(E.path_start(a[0]))))

    # errors and results
    def err(E, st, a, call):
        E.gput(st, a[0], GErr(E.gget(st, a[2], GPath), E.gget(st, a[3], GPath)))

    def serr(E, st, a, call):
        E.gput(st, a[0], GErr(None, E.gget(st, a[2], GPath)))
    pattern(E, NS + r'ValidationError::ValidationError\(' + STR + r' const&, .*\)', err)
    pattern(E, NS + r'SchemaError::SchemaError\(' + STR + r' const&, .*\)', serr)
    pattern(E, NS + r'(ValidationError|SchemaError)::~\w+\(\)', nothing)
    pattern(E, NS + r'ValidationError::AddSubError\(.*\)', nothing)
    for cls in ('ValidationError', 'SchemaError'):
        W = r'std::vector<%s, std::allocator<%s>>' % (NS + cls, NS + cls)

        def add(E, st, a, call):
            E.gget(st, a[0], GFlag)
            if E.on_error is not None:
                E.on_error(E, st, a[0], E.gget(st, a[1], GErr))
            E.gput(st, a[0], GFlag(True))
        pattern(E, W + r'::vector\(\)', lambda E, st, a, call: E.gput(st, a[0], GFlag(False)))
        pattern(E, W + r'::vector\(' + W + r' ?(const&|&&)\)', lambda E, st, a, call: E.gput(st, a[0], E.gget(st, a[1], GFlag)))
        pattern(E, W + r'::~vector\(\)', nothing)
        pattern(E, W + r'::empty\(\) const', lambda E, st, a, call: bo(z3.Not(E.gget(st, a[0], GFlag).b)))
        pattern(E, W + r'::(push_back|emplace_back.*)\(.*\)', add)

    # regular expressions
    def regcomp(E, st, a, call):
        t = text_at(E, st, a[1])
        r = E.fresh('i32', 'regcomp')
        st.assume((bv(r, 32) != 0) == BADRE(t))
        E.gput(st, a[0], GRe(t))
        E.known_regex(st, t)
        return r

    def regexec(E, st, a, call):
        g = E.gget(st, a[0], GRe)
        E.oblige(st, z3.Not(BADRE(g.b)), PID, 'only a compiled expression is matched')
        r = E.fresh('i32', 'regexec')
        st.assume((bv(r, 32) == 0) == MATCH(g.b, text_at(E, st, a[1])))
        return r
    E.known_regex = lambda st, t: None
    pattern(E, r'regcomp', regcomp)
    pattern(E, r'regexec', regexec)
    pattern(E, r'regfree', nothing)
    pattern(E, r'regerror', lambda E, st, a, call: E.fresh('i64', 'regerror'))
    pattern(E, r'std::(basic_)?ostream(<.*>)?::operator<<\(.*\)', lambda E, st, a, call: a[0])
    pattern(E, STR + r' std::operator\+<.*>\(char const\*, ' + STR + r' const&\)', lambda E, st, a, call: E.gput(st, a[0], GStr(E.fresh('bytes', 'message'))))
    pattern(E, NS + r'SerializeJSON\(.*\)', nothing)
    pattern(E, r'std::.*stringstream<.*>::rdbuf\(\) const', lambda E, st, a, call: NULL)


def enum_key(E):
    for n, t in E.P.types.items():
        if n.startswith(PE + '::') or n == PE:
            for m in t['members']:
                if m[0] == 'KEY' and len(m) > 1 and isinstance(m[1], int):
                    return m[1]
    return 1


def stop(E, st):
    o = E.new_obj(st, 'stop', size=8)
    return Exc(STOP, o)


class Ctx:
    def __init__(self, E, p):
        self.E, self.p = E, p
        self.f = Fields(E, CTX, p)
        r = Fields(E, NS + 'SchemaResult', self.f.ptr('result'))
        self.ev, self.sv = r.ptr('errors'), r.ptr('schema_errors')

    def e(self, st):
        return self.E.gget(st, self.ev, GFlag).b

    def se(self, st):
        return self.E.gget(st, self.sv, GFlag).b

    def noerr(self, st):
        return z3.Not(z3.Or(self.e(st), self.se(st)))

    def data(self, st):
        return self.E.gget(st, self.f.ptr('data_path'), GPath)

    def schema(self, st):
        return self.E.gget(st, self.f.ptr('schema_path'), GPath)

    def depth(self, st):
        return self.f.term(st, 'depth')


def context(E, st, s, d):
    p = E.new_obj(st, 'context', size=E.P.types[CTX]['size'])
    c = Ctx(E, p)
    E.gput(st, c.f.ptr('data_path'), GPath(d))
    E.gput(st, c.f.ptr('schema_path'), GPath(s))
    E.gput(st, c.ev, GFlag(z3.Bool('errors_before')))
    E.gput(st, c.sv, GFlag(z3.Bool('schema_errors_before')))
    dep = z3.BitVec('depth', 32)
    st.assume(z3.ULT(dep, 100))
    E.put(st, c.f.ptr('depth'), 4, dep)

    def get(E, st, a, inst):
        t = text(E, st, a[2])
        s2 = st.copy()
        s2.ghost[('old', 'foreign')] = True
        facts(st, NAMED(t))
        E.gput(st, a[0], GV('val', NAMED(t)))
        return [Out(st, None), Out(s2, exc=throws(E, s2))]
    E.put(st, c.f.ptr('loader'), 8, abstract_object(E, st, NS + 'SchemaLoader', {r'::GetSchema\(': get}, name='loader'))
    return p, c


def effect(E, st, ctx, ok):
    """outcomes of validating with result ok in a context"""
    c = Ctx(E, ctx)
    bad, far = st.copy(), st.copy()
    E.gput(st, c.sv, GFlag(simp_b(z3.Or(c.se(st), z3.Not(ok)))))
    bad.assume(z3.Not(ok))
    x = z3.FreshConst(z3.BoolSort(), 'error')
    e, se = z3.Or(c.e(bad), x), z3.Or(c.se(bad), z3.Not(x))
    E.gput(bad, c.ev, GFlag(e))
    E.gput(bad, c.sv, GFlag(se))
    out = [Out(st, None)]
    if E.feasible(bad):
        out.append(Out(bad, exc=stop(E, bad)))
    far.ghost[('old', 'foreign')] = True
    out.append(Out(far, exc=throws(E, far)))
    return out


def simp_b(x):
    x = z3.simplify(x)
    return x


def s_validate(E, st, a, call):
    c = Ctx(E, a[0])
    s, d = look(E, st, a[1])[1], look(E, st, a[2])[1]
    there, v = c.data(st).value()
    E.oblige(st, z3.And(there, v == d), PID, 'the path leads to the data that is validated')
    if E.schema_paths:
        there, v = c.schema(st).value()
        E.oblige(st, z3.And(there, v == s), PID, 'the path leads to the schema that is used')
    E.oblige(st, z3.UGE(c.depth(st), E.depth0), PID, 'the depth is not lost')
    return effect(E, st, a[0], OK(s, d))


def base(E):
    setup(E)
    st = State()
    E.what = str_view(E, st, z3.Const('what', T.Bytes))
    st.assume(TYP(nullval) == NULLT, TYP(EMPTYMAP) == MAPT, LEN(EMPTYMAP) == 0, TYP(EMPTYLIST) == LISTT, LEN(EMPTYLIST) == 0)
    E.summaries[VALID] = s_validate
    E.depth0 = z3.BitVec('depth', 32)
    E.schema_paths = True
    return st


def K(n):
    return T.lit(n)


def h(s, n):
    return HAS(s, K(n))


def g(s, n):
    return GETK(s, K(n))


# ------------------------------------------------------------------ scanning lists and maps
class Scan:
    """F(n): the elements of u from the n-th on are as they should be"""

    def __init__(self, u, step, end, sort=None, name=None):
        self.u, self.step, self.end = u, step, end
        self.F = z3.Function(name or 'rest_%s' % z3.FreshConst(z3.BoolSort(), 's').decl().name(), T.BV64, z3.BoolSort() if sort is None else sort)

    def define(self, n):
        return self.F(n) == z3.If(z3.ULT(n, LEN(self.u)), self.step(n, self.F(n + 1)), self.end)

    def all(self):
        return self.F(bv(0))


def scan_all(u, item, name):
    return Scan(u, lambda n, rest: z3.And(item(n), rest), z3.BoolVal(True), name=name)


def scan_any(u, item, name):
    return Scan(u, lambda n, rest: z3.Or(item(n), rest), z3.BoolVal(False), name=name)


def positions(E, L, u):
    """[(label, getter of the number of elements passed)] for the iterators over u and the counters of a loop"""
    out = []
    for o, c in list(L.entry.mem.items()):
        for off, (size, v) in c.cells.items():
            if size == 8 and isinstance(v, Ptr) and v.obj and not isinstance(v.obj, tuple) and ('cell', o, off, 8) in L.mods:
                d = E.objs[v.obj].data
                if isinstance(d, MapView) and d.v.eq(u):
                    out.append(('iterator', lambda s, o=o, off=off: (bv(s.mem[o].cells[off][1].off), None)))
                elif isinstance(d, ListVal) and d.v.eq(u):
                    out.append(('iterator', lambda s, o=o, off=off: (z3.LShR(bv(s.mem[o].cells[off][1].off), 6), bv(s.mem[o].cells[off][1].off))))
    for i in L.phi_ids:
        if L.phi_ty[i] == 'i32':
            out.append(('counter', lambda s, i=i: (z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32)), None)))
    return out


def scanning(E, c, scans):
    """invariants of the loops that go through the scans"""
    def temps(E, L):
        out = []
        e0 = c.noerr(L.entry)
        for sc in scans:
            for lab, pos in positions(E, L, sc.u):
                def at(s, f, pos=pos, sc=sc):
                    n, off = pos(s)
                    r = z3.And(z3.ULE(n, LEN(sc.u)), f(n))
                    return r if off is None else z3.And(r, off == n << 6)
                n0 = pos(L.entry)[0]
                F0 = sc.F(n0)
                out.append((lab + ' within', lambda s, at=at: at(s, lambda n: z3.BoolVal(True))))
                out.append((lab + ': the rest decides', lambda s, at=at, sc=sc, F0=F0: at(s, lambda n: sc.F(n) == F0)))
                for i in L.phi_ids:
                    if L.phi_ty[i] == 'i32' and lab == 'iterator':
                        out.append(('counter and iterator', lambda s, at=at, i=i: at(s, lambda n: n == z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32)))))
                if sc.F.range() == z3.BoolSort():
                    out.append((lab + ': the rest is as it should be if all is', lambda s, at=at, sc=sc, F0=F0: at(s, lambda n: z3.Implies(F0, sc.F(n)))))
                    out.append((lab + ': without an error the rest decides', lambda s, at=at, sc=sc, F0=F0: at(s, lambda n: z3.Implies(c.noerr(s), sc.F(n) == F0))))
                    out.append((lab + ': an error was found', lambda s, at=at, F0=F0: at(s, lambda n: z3.Implies(z3.Not(c.noerr(s)), z3.Or(z3.Not(e0), z3.Not(F0))))))
                for i in L.phi_ids:
                    if L.phi_ty[i] == 'i32' and not z3.is_bool(F0):
                        out.append((lab + ': counted', lambda s, at=at, sc=sc, F0=F0, i=i: at(s, lambda n: z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32)) + sc.F(n) == F0)))
                        out.append((lab + ': one at most', lambda s, i=i: z3.ULE(bv(s.frames[L.depth - 1].regs[i], 32), 1)))
        out.append(('no validation error is added and execution goes on', lambda s: c.e(s) == c.e(L.entry)))
        out.append(('schema errors stay', lambda s: z3.Implies(c.se(L.entry), c.se(s))))
        return out
    E.loop_templates.append(temps)

    def defs(E, L, H):
        return [sc.define(pos(H)[0]) for sc in scans for lab, pos in positions(E, L, sc.u)]
    E.loop_facts.append(defs)


def use(E, st, scans):
    for sc in scans:
        st.assume(sc.define(bv(0)), sc.define(LEN(sc.u)))

        def hook(x, i, sc=sc):
            return sc.define(i) if x.eq(sc.u) else z3.BoolVal(True)
        E.entry_hooks.append(hook)


# ------------------------------------------------------------------ one keyword function
def keyword(E, fn, spec, pre=None, scans=(), more=None, schema_paths=True):
    """spec(s, d): {keyword: holds}"""
    st = base(E)
    E.schema_paths = schema_paths
    ps, s = value(E, st, 'schema', MAPT)
    pd, d = value(E, st, 'data')
    p, c = context(E, st, s, d)
    if pre is not None:
        st.assume(*pre(s, d))
    sp = spec(s, d)
    sc = [x for x in scans(s, d)] if callable(scans) else list(scans)
    use(E, st, sc)
    scanning(E, c, sc)
    if more is not None:
        more(E, st, c, s, d)
    ok = z3.And(*sp.values())
    no0, e0, depth0, paths0 = c.noerr(st), c.e(st), c.depth(st), (c.data(st), c.schema(st))

    def on_error(E, st, vec, err):
        # the errors of other contexts are not reported by this function
        if not (vec == c.ev or vec == c.sv):
            return
        if err.data is not None:
            E.oblige(st, err.data.value()[0], PID, 'an error names a place that exists in the data')
        el = err.schema.elems
        if vec == c.ev:
            E.oblige(st, err.schema.value()[0], PID, 'an error names a place that exists in the schema')
        elif el:
            E.oblige(st, GPath(s, el[:1]).value()[0], PID, 'an error of the schema names a keyword of the schema')
        if el and vec == c.ev:
            E.oblige(st, z3.Or(*[z3.And(el[0][1] == K(n), z3.Not(f)) for n, f in sp.items()]), PID, 'an error names a keyword that is not satisfied')
    E.on_error = on_error
    E.cover(st, 'precondition')
    n = 0
    for kind, q, r in E.run_function(E.P.find(NS + fn + ARGS)[0], st, [p, ps, pd]):
        n += 1
        E.oblige(q, c.data(q).gsame(paths0[0]) and c.schema(q).gsame(paths0[1]), PID, fn + ': the paths are as before')
        E.oblige(q, c.depth(q) == depth0, PID, fn + ': the depth is as before')
        if kind == 'ret':
            E.oblige(q, c.noerr(q) == z3.And(no0, ok), PID, fn + ': no error exactly if the keywords are satisfied')
            E.oblige(q, c.e(q) == e0, PID, fn + ': an error of the data ends the validation')
        elif r.ti == STOP:
            E.oblige(q, z3.Not(c.noerr(q)), PID, fn + ': stops with an error only')
            E.oblige(q, z3.Implies(no0, z3.Not(ok)), PID, fn + ': an error only if a keyword is not satisfied')
        else:
            E.oblige(q, ('old', 'foreign') in q.ghost, PID, fn + ': no other exception')
    E.oblige(st, n > 0, PID, fn + ' returns')


def size_within(lo, hi):
    def spec(s, d):
        n = LEN(d)
        return {lo: z3.Implies(h(s, lo), z3.And(number(g(s, lo)), z3.UGE(n, UNSIG(g(s, lo))))), hi: z3.Implies(h(s, hi), z3.And(number(g(s, hi)), z3.ULE(n, UNSIG(g(s, hi)))))}
    return spec


def v_sizes(E, fn, lo, hi, ty):
    keyword(E, fn, size_within(lo, hi), lambda s, d: [TYP(d) == ty])


def lists_of(name, s, d, mk, sname):
    """a keyword whose value has to be a list"""
    sc = mk(g(s, name))
    return sc


def v_enum(E):
    mk = lambda s, d: [scan_any(g(s, 'enum'), lambda n: z3.And(comparable(GETI(g(s, 'enum'), n), d), EQV(GETI(g(s, 'enum'), n), d)), 'some_enum')]
    keyword(E, 'ValidateEnum', lambda s, d: {'enum': z3.Implies(h(s, 'enum'), z3.And(TYP(g(s, 'enum')) == LISTT, mk(s, d)[0].all()))}, scans=mk)


def v_required(E):
    def item(s, d):
        def f(n):
            x = GETI(g(s, 'required'), n)
            return z3.And(TYP(x) == STRT, HAS(d, TEXT(x)))
        return f
    mk = lambda s, d: [scan_all(g(s, 'required'), item(s, d), 'all_required')]
    keyword(E, 'ValidateObjectRequiredProperties', lambda s, d: {'required': z3.Implies(h(s, 'required'), z3.And(TYP(g(s, 'required')) == LISTT, mk(s, d)[0].all()))}, lambda s, d: [TYP(d) == MAPT], mk)


def v_allof(E):
    mk = lambda s, d: [scan_all(g(s, 'allOf'), lambda n: OK(GETI(g(s, 'allOf'), n), d), 'all_of')]
    keyword(E, 'ValidateAllOf', lambda s, d: {'allOf': z3.Implies(h(s, 'allOf'), z3.And(TYP(g(s, 'allOf')) == LISTT, mk(s, d)[0].all()))}, scans=mk)


def v_anyof(E):
    mk = lambda s, d: [scan_any(g(s, 'anyOf'), lambda n: OK(GETI(g(s, 'anyOf'), n), d), 'any_of')]
    keyword(E, 'ValidateAnyOf', lambda s, d: {'anyOf': z3.Implies(h(s, 'anyOf'), z3.And(TYP(g(s, 'anyOf')) == LISTT, mk(s, d)[0].all()))}, scans=mk)


def v_oneof(E):
    E.solvers = E.SUMS

    def mk(s, d):
        u = g(s, 'oneOf')
        sc = Scan(u, lambda n, rest: rest + z3.If(OK(GETI(u, n), d), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), bv(0), T.BV64, 'how_many')
        old = sc.define
        # no more of them than elements (by induction over the definition)
        sc.define = lambda n: z3.And(old(n), z3.Implies(z3.ULE(n, LEN(u)), z3.ULE(sc.F(n), LEN(u) - n)), z3.Implies(z3.ULT(n, LEN(u)), z3.ULE(sc.F(n + 1), LEN(u) - n - 1)))
        return [sc]
    keyword(E, 'ValidateOneOf', lambda s, d: {'oneOf': z3.Implies(h(s, 'oneOf'), z3.And(TYP(g(s, 'oneOf')) == LISTT, mk(s, d)[0].all() == 1))}, scans=mk)


def v_not(E):
    keyword(E, 'ValidateNot', lambda s, d: {'not': z3.Implies(h(s, 'not'), z3.Not(OK(g(s, 'not'), d)))})


def v_items(E, aslist):
    def mk(s, d):
        it = g(s, 'items')

        def one(n):
            x = GETI(d, n)
            a = g(s, 'additionalItems')
            extra = z3.Implies(h(s, 'additionalItems'), z3.If(TYP(a) == BOOLT, TRUTH(a), OK(a, x)))
            return z3.If(z3.ULT(n, LEN(it)), OK(GETI(it, n), x), extra) if aslist else OK(it, x)
        return [scan_all(d, one, 'all_items')]

    def spec(s, d):
        f = z3.Implies(z3.And(h(s, 'items'), TYP(d) == LISTT), mk(s, d)[0].all())
        return {'items': f, 'additionalItems': f}
    keyword(E, 'ValidateArrayItems', spec, lambda s, d: [TYP(d) == LISTT, (TYP(g(s, 'items')) == LISTT) == aslist], mk)


def v_unique(E):
    def mk(s, d):
        def dup(i, j):
            x, y = GETI(d, i), GETI(d, j)
            return z3.And(comparable(x, y), EQV(x, y))
        return [scan_all(d, lambda n: ROW(d, n, n + 1), 'all_unique')], dup
    ROW = z3.Function('row_unique', Val, T.BV64, T.BV64, z3.BoolSort())

    def more(E, st, c, s, d):
        dup = mk(s, d)[1]

        def row(i, j):
            return ROW(d, i, j) == z3.If(z3.ULT(j, LEN(d)), z3.And(z3.Not(dup(i, j)), ROW(d, i, j + 1)), z3.BoolVal(True))

        def temps(E, L):
            # the inner loop: the other counter does not change
            out = []
            for i in L.phi_ids:
                if L.phi_ty[i] != 'i32':
                    continue
                for o in [x for x in L.entry.frames[-1].regs.values() if isinstance(x, z3.BitVecRef) and x.size() == 32]:
                    oz = z3.ZeroExt(32, o)

                    def f(s, i=i, oz=oz):
                        j = z3.ZeroExt(32, bv(s.frames[L.depth - 1].regs[i], 32))
                        j0 = z3.ZeroExt(32, bv(L.entry.frames[-1].regs[i], 32))
                        return z3.And(z3.ULE(j, LEN(d)), ROW(d, oz, j) == ROW(d, oz, j0))
                    out.append(('the rest of the row decides', f))
            return out
        E.loop_templates.append(temps)

        def defs(E, L, H):
            out = []
            ns = [z3.ZeroExt(32, x) for x in H.frames[-1].regs.values() if isinstance(x, z3.BitVecRef) and x.size() == 32]
            ns = ns[-6:]
            for i in ns:
                out += [row(i, i + 1), row(i, LEN(d))]
                out += [row(i, j) for j in ns if j is not i]
            return out
        E.loop_facts.append(defs)
    b = lambda s: g(s, 'uniqueItems')
    keyword(E, 'ValidateArrayUniqueItems', lambda s, d: {'uniqueItems': z3.Implies(h(s, 'uniqueItems'), z3.And(TYP(b(s)) == BOOLT, z3.Implies(TRUTH(b(s)), mk(s, d)[0][0].all())))},
            lambda s, d: [TYP(d) == LISTT], lambda s, d: mk(s, d)[0], more)


def v_pattern(E):
    p = lambda s: g(s, 'pattern')
    keyword(E, 'ValidateStringPattern', lambda s, d: {'pattern': z3.Implies(h(s, 'pattern'), z3.And(TYP(p(s)) == STRT, z3.Not(BADRE(TEXT(p(s)))), MATCH(TEXT(p(s)), TEXT(d))))}, lambda s, d: [TYP(d) == STRT])


def v_minmax(E):
    def spec(s, d):
        o = {}
        for lim, ex, lt in (('minimum', 'exclusiveMinimum', lambda a, b: CMP(a, b) < 0), ('maximum', 'exclusiveMaximum', lambda a, b: CMP(a, b) > 0)):
            m = g(s, lim)
            o[lim] = z3.Implies(h(s, lim), z3.And(number(m), z3.Not(lt(d, m))))
            o[ex] = z3.Implies(z3.And(h(s, lim), number(m), h(s, ex), TRUTH(g(s, ex))), z3.Not(EQV(d, m)))
        return o
    keyword(E, 'ValidateMinMax', spec, lambda s, d: [number(d)] + [z3.Implies(h(s, k), TYP(g(s, k)) == BOOLT) for k in ('exclusiveMinimum', 'exclusiveMaximum')])


def v_type(E, aslist):
    def okt(x, d):
        t = TEXT(x)
        want = {'array': TYP(d) == LISTT, 'boolean': TYP(d) == BOOLT, 'integer': z3.Or(TYP(d) == INTT, TYP(d) == UINTT, z3.And(TYP(d) == FLOATT, EQV(REM(d, INTV(bv(1))), INTV(bv(0))))),
                'null': TYP(d) == NULLT, 'number': number(d), 'object': TYP(d) == MAPT, 'string': TYP(d) == STRT}
        return z3.Or(*[z3.And(t == K(n), f) for n, f in want.items()]), z3.Or(*[t == K(n) for n in want])

    def mk(s, d):
        u = g(s, 'type') if aslist else INSI(EMPTYLIST, LEN(EMPTYLIST), g(s, 'type'))

        def step(n, rest):
            m, known = okt(GETI(u, n), d)
            return z3.If(m, z3.BoolVal(True), z3.And(known, rest))
        return [Scan(u, step, z3.BoolVal(False), name='some_type')]

    def spec(s, d):
        t = g(s, 'type')
        return {'type': z3.Implies(h(s, 'type'), mk(s, d)[0].all() if aslist else okt(t, d)[0])}

    def more(E, st, c, s, d):
        t = g(s, 'type')
        E.entry_hooks.append(lambda x, i: TYP(GETI(x, i)) == STRT if x.eq(t) else z3.BoolVal(True))
    keyword(E, 'ValidateType', spec, lambda s, d: [TYP(g(s, 'type')) == (LISTT if aslist else STRT)], mk, more)


def v_dependencies(E):
    LISTED = z3.Function('all_listed', Val, Val, T.BV64, z3.BoolSort())

    def listed(u, d, n):
        return LISTED(u, d, n) == z3.If(z3.ULT(n, LEN(u)), z3.And(HAS(d, TEXT(GETI(u, n))), LISTED(u, d, n + 1)), z3.BoolVal(True))

    def mk(s, d):
        u = g(s, 'dependencies')

        def item(n):
            k = KEY(u, n)
            x = GETK(u, k)
            return z3.Implies(HAS(d, k), z3.If(TYP(x) == STRT, HAS(d, TEXT(x)), z3.If(TYP(x) == LISTT, LISTED(x, d, bv(0)), z3.And(TYP(x) == MAPT, OK(x, d)))))
        return [scan_all(u, item, 'all_dependencies')]

    def more(E, st, c, s, d):
        def temps(E, L):
            out = []
            u = g(s, 'dependencies')
            for i in L.phi_ids:
                if L.phi_ty[i] != 'i32':
                    continue
                for x in E.parts:
                    def f(q, i=i, x=x):
                        j = z3.ZeroExt(32, bv(q.frames[L.depth - 1].regs[i], 32))
                        return z3.And(z3.ULE(j, LEN(x)), LISTED(x, d, j) == LISTED(x, d, bv(0)))
                    out.append(('the rest of the list decides', f))
            return out
        E.loop_templates.append(temps)
        E.parts = []

        def hook(x, n):
            if x.eq(g(s, 'dependencies')):
                y = GETK(x, KEY(x, n))
                E.parts.append(y)
                return listed(y, d, LEN(y))
            y = GETI(x, n)
            return z3.And(listed(x, d, n), TYP(y) != LISTT, TYP(y) != MAPT, TYP(y) != BLOBT)
        E.entry_hooks.append(hook)
    keyword(E, 'ValidateObjectDependencies', lambda s, d: {'dependencies': z3.Implies(h(s, 'dependencies'), z3.And(TYP(g(s, 'dependencies')) == MAPT, mk(s, d)[0].all()))}, lambda s, d: [TYP(d) == MAPT], mk, more)


FORM = z3.Function('of_the_form', T.Bytes, T.Bytes, z3.BoolSort())


def v_format(E):
    forms = ('date-time', 'date', 'time')

    def spec(s, d):
        f = g(s, 'format')
        t = TEXT(f)
        return {'format': z3.Implies(z3.And(h(s, 'format'), TYP(f) == STRT), z3.If(t == K('regex'), z3.Not(BADRE(TEXT(d))), z3.Implies(z3.Or(*[t == K(n) for n in forms]), FORM(t, TEXT(d)))))}

    def more(E, st, c, s, d):
        # the expression for a format describes it (compared natively)
        def known(st, t):
            if T.conc(t) is not None:
                f = TEXT(g(s, 'format'))
                st.assume(z3.Not(BADRE(t)), *[z3.Implies(f == K(n), MATCH(t, TEXT(d)) == FORM(f, TEXT(d))) for n in forms])
        E.known_regex = known
    keyword(E, 'ValidateStringFormat', spec, lambda s, d: [TYP(d) == STRT], (), more)


def v_multiple(E):
    E.solvers = E.HEAVY
    zero = INTV(bv(0))
    tol = z3.fpMul(z3.RNE(), z3.FPVal(100, LDS), z3.fpToFP(z3.RNE(), z3.FPVal(2.0 ** -63, z3.FPSort(11, 53)), LDS))

    def spec(s, d):
        def fits(m):
            neg = CMP(d, zero) < 0
            n = z3.If(neg, z3.ZeroExt(2, -SIGN(d)), whole(d))
            lf = z3.If(neg, z3.If(TYP(d) == FLOATT, z3.fpNeg(FLT(d)), FLT(UINTV(-SIGN(d)))), FLT(d))
            r = FMODL(lf, FLT(m))
            near = z3.Not(z3.And(z3.fpGT(r, tol), z3.fpGT(z3.fpAbs(z3.fpSub(z3.RNE(), r, FLT(m))), tol)))
            return z3.And(number(m), CMP(m, zero) > 0, z3.If(z3.Or(TYP(d) == FLOATT, TYP(m) == FLOATT), near, WREM(n, whole(m)) == 0))
        return {'multipleOf': z3.Implies(h(s, 'multipleOf'), fits(g(s, 'multipleOf'))), 'divisibleBy': z3.Implies(z3.And(z3.Not(h(s, 'multipleOf')), h(s, 'divisibleBy')), fits(g(s, 'divisibleBy')))}

    def more(E, st, c, s, d):
        # a negative number is signed
        st.assume(SIGN(zero) == 0, TYP(zero) == INTT)
        for m in (d, g(s, 'multipleOf'), g(s, 'divisibleBy')):
            order(st, m, zero)
    keyword(E, 'ValidateMultipleOf', spec, lambda s, d: [number(d)], (), more)


# ------------------------------------------------------------------ properties
class GPats:
    """the expressions compiled so far: all of the first n entries of a map, or unknown after a failure"""
    SIZE = 24

    def __init__(self, exact, n):
        self.exact, self.n = exact, n

    def gsame(self, o):
        return isinstance(o, GPats) and self.exact.eq(o.exact) and self.n.eq(o.n)

    def havoc(self, E, st, name, others):
        return GPats(z3.FreshConst(z3.BoolSort(), name), z3.FreshConst(T.BV64, name))


PP = NS + 'PatternProperty'
ENTRY = z3.Function('entry_compiled', T.BV64, T.BV64)


def pattern_models(E, u):
    W = r'std::vector<std::shared_ptr<%s>, std::allocator<std::shared_ptr<%s>>>' % (PP, PP)
    f = {m[0]: m[1] for m in E.P.types[PP]['members']}

    def new(E, st, a, call):
        E.gput(st, a[0], GPats(z3.BoolVal(True), bv(0)))

    def push(E, st, a, call):
        v = E.gget(st, a[0], GPats)
        p = E.load(st, a[1], 8, 'ptr')
        k, r, x = E.gget(st, E.padd(p, f['key']), GStr).b, E.gget(st, E.padd(p, f['pattern']), GRe).b, look(E, st, E.padd(p, f['schema']))[1]
        there = z3.And(k == KEY(u, v.n), r == k, x == GETK(u, KEY(u, v.n)))
        E.gput(st, a[0], GPats(z3.simplify(z3.And(v.exact, there)), simp2(v.n + 1)))

    def size(E, st, a, call):
        v = E.gget(st, a[0], GPats)
        return simp(v.n)

    def at(E, st, a, call):
        v = E.gget(st, a[0], GPats)
        j = simp2(bv(a[1]))
        E.oblige(st, z3.ULT(j, v.n), 'memory', 'expression beyond the end of the vector')
        for hk in E.pattern_hooks:
            st.assume(hk(j))
        m = ENTRY(j)
        st.assume(z3.ULT(m, LEN(u)), z3.Implies(v.exact, m == j))
        k = KEY(u, m)
        x = GETK(u, k)
        entry_facts(st, u, m)
        st.assume(z3.Not(BADRE(k)))
        p = E.new_obj(st, 'expression', size=E.P.types[PP]['size'])
        E.gput(st, E.padd(p, f['key']), GStr(k))
        E.gput(st, E.padd(p, f['pattern']), GRe(k))
        E.gput(st, E.padd(p, f['schema']), GV('val', x))
        q = E.new_obj(st, 'shared expression', size=16)
        E.put(st, q, 8, p)
        E.put(st, E.padd(q, 8), 8, NULL)
        return q
    pattern(E, W + r'::vector\(\)', new)
    pattern(E, W + r'::~vector\(\)', lambda E, st, a, call: None)
    pattern(E, W + r'::push_back\(.*\)', push)
    pattern(E, W + r'::size\(\) const', size)
    pattern(E, W + r'::operator\[\]\(unsigned long\)( const)?', at)
    pattern(E, r'std::(__)?shared_ptr<%s.*>::(__)?shared_ptr<.*>\(%s\*\)' % (PP, PP), lambda E, st, a, call: (E.put(st, a[0], 8, a[1]), E.put(st, E.padd(a[0], 8), 8, NULL))[0])
    pattern(E, r'std::(__)?shared_ptr<%s.*>::~(__)?shared_ptr\(\)' % PP, lambda E, st, a, call: None)
    pattern(E, r'std::(__)?shared_ptr(_access)?<%s.*>::operator->\(\) const' % PP, lambda E, st, a, call: E.load(st, a[0], 8, 'ptr'))


def v_properties(E, pats, props):
    """pats: patternProperties is a map, another value or missing; props: the same of properties"""
    ANYM = z3.Function('some_expression_matches', Val, T.Bytes, T.BV64, z3.BoolSort())
    ALLM = z3.Function('accepted_by_matching', Val, T.Bytes, Val, T.BV64, z3.BoolSort())

    def anym(u, k, j):
        return ANYM(u, k, j) == z3.If(z3.ULT(j, LEN(u)), z3.Or(MATCH(KEY(u, j), k), ANYM(u, k, j + 1)), z3.BoolVal(False))

    def allm(u, k, x, j):
        return ALLM(u, k, x, j) == z3.If(z3.ULT(j, LEN(u)), z3.And(z3.Implies(MATCH(KEY(u, j), k), OK(GETK(u, KEY(u, j)), x)), ALLM(u, k, x, j + 1)), z3.BoolVal(True))
    up = lambda s: g(s, 'patternProperties') if pats == 'map' else EMPTYMAP
    pr = lambda s: g(s, 'properties') if props == 'map' else EMPTYMAP

    def mk(s, d):
        u = up(s)

        def item(n):
            k = KEY(d, n)
            x = GETK(d, k)
            a = g(s, 'additionalProperties')
            extra = z3.Implies(h(s, 'additionalProperties'), z3.If(TYP(a) == BOOLT, TRUTH(a), OK(a, x)))
            named = HAS(pr(s), k) if props == 'map' else z3.BoolVal(False)
            return z3.And(z3.Implies(named, OK(GETK(pr(s), k), x)), ALLM(u, k, x, bv(0)), z3.Or(named, ANYM(u, k, bv(0)), extra))
        out = [scan_all(d, item, 'all_properties')]
        if pats == 'map':
            out.append(scan_all(u, lambda n: z3.Not(BADRE(KEY(u, n))), 'all_expressions'))
        return out

    def spec(s, d):
        sc = mk(s, d)
        f = z3.And(*[x.all() for x in sc] + [z3.BoolVal(pats != 'other' and props != 'other')])
        return {'properties': f, 'patternProperties': f, 'additionalProperties': f}

    def pre(s, d):
        o = [TYP(d) == MAPT, LEN(EMPTYMAP) == 0]
        for n, how in (('patternProperties', pats), ('properties', props)):
            o.append(h(s, n) == (how != 'missing'))
            if how != 'missing':
                o.append((TYP(g(s, n)) == MAPT) == (how == 'map'))
        return o

    def more(E, st, c, s, d):
        u = up(s)
        E.pattern_hooks = []
        pattern_models(E, u)
        st.assume(*[z3.Not(HAS(EMPTYMAP, k)) for k in ()])

        def flags(s):
            return [v for o, cc in s.mem.items() for off, (sz, v) in cc.cells.items() if isinstance(v, GPats)]

        def entry(H):
            # the entry of the data under consideration: the last one named in the path
            e = c.data(H).elems
            return e[-1][1] if e and e[-1][0] == 'key' else None

        def temps(E, L):
            out = []
            for lab, pos in positions(E, L, u):
                if lab == 'iterator':
                    out.append(('all expressions so far', lambda q, pos=pos: z3.And(*[z3.And(z3.ULE(v.n, pos(q)[0]), z3.Or(z3.And(v.exact, v.n == pos(q)[0]), z3.Not(mk(s, d)[1].all()))) for v in flags(q)])))
            k = entry(L.entry)
            if k is None:
                return out
            x = GETK(d, k)
            e0 = c.noerr(L.entry)
            for i in L.phi_ids:
                if L.phi_ty[i] != 'i32':
                    continue

                def j(q, i=i):
                    return z3.ZeroExt(32, bv(q.frames[L.depth - 1].regs[i], 32))

                def at(q, f, j=j):
                    v = flags(q)[0]
                    return z3.And(z3.ULE(j(q), v.n), z3.Implies(z3.And(v.exact, v.n == LEN(u)), f(j(q))))
                A0, M0 = ALLM(u, k, x, bv(0)), ANYM(u, k, bv(0))
                out.append(('matching: without an error the rest decides', lambda q, at=at: at(q, lambda n: z3.Implies(c.noerr(q), ALLM(u, k, x, n) == A0))))
                out.append(('matching: all implies the rest', lambda q, at=at: at(q, lambda n: z3.Implies(A0, ALLM(u, k, x, n)))))
                out.append(('matching: an error was found', lambda q, at=at: at(q, lambda n: z3.Implies(z3.Not(c.noerr(q)), z3.Or(z3.Not(e0), z3.Not(A0))))))
                for m in L.phi_ids:
                    if L.phi_ty[m] in ('i8', 'i1'):
                        def found(q, m=m):
                            y = q.frames[L.depth - 1].regs[m]
                            return V.tob(y)
                        f0 = found(L.entry)
                        out.append(('matching: found so far or later', lambda q, at=at, found=found, f0=f0: at(q, lambda n: z3.Or(found(q), ANYM(u, k, n)) == z3.Or(f0, M0))))
            return out
        E.loop_templates.append(temps)

        def defs(E, L, H):
            k = entry(H)
            if k is None:
                return []
            x = GETK(d, k)
            out = [anym(u, k, LEN(u)), allm(u, k, x, LEN(u))]
            for i in L.phi_ids:
                if L.phi_ty[i] == 'i32':
                    n = z3.ZeroExt(32, bv(H.frames[-1].regs[i], 32))
                    out += [anym(u, k, n), allm(u, k, x, n)]
            return out
        E.loop_facts.append(defs)
        # an empty map has no keys, and no expression matches
        E.entry_hooks.append(lambda y, n: z3.And(anym(u, KEY(d, n), bv(0)), allm(u, KEY(d, n), GETK(d, KEY(d, n)), bv(0)), z3.Not(HAS(EMPTYMAP, KEY(d, n)))) if y.eq(d) else z3.BoolVal(True))
    keyword(E, 'ValidateObjectProperties', spec, pre, mk, more)


# ------------------------------------------------------------------ the whole
LEAVES = {'ValidateType': None, 'ValidateEnum': None, 'ValidateMultipleOf': 'number', 'ValidateMinMax': 'number', 'ValidateStringLength': STRT, 'ValidateStringPattern': STRT, 'ValidateStringFormat': STRT,
          'ValidateArrayLength': LISTT, 'ValidateArrayUniqueItems': LISTT, 'ValidateArrayItems': LISTT, 'ValidateObjectMinMaxProperties': MAPT, 'ValidateObjectRequiredProperties': MAPT,
          'ValidateObjectProperties': MAPT, 'ValidateObjectDependencies': MAPT, 'ValidateAllOf': None, 'ValidateAnyOf': None, 'ValidateOneOf': None, 'ValidateNot': None}


def part(fn):
    return z3.Function('satisfies_' + fn, Val, Val, z3.BoolSort())


def applies(ty, d):
    return z3.BoolVal(True) if ty is None else number(d) if ty == 'number' else TYP(d) == ty


def v_whole(E, ismap):
    st = base(E)
    E.schema_paths = False
    ps, s = value(E, st, 'schema')
    pd, d = value(E, st, 'data')
    st.assume((TYP(s) == MAPT) == ismap)
    p, c = context(E, st, s, d)

    for fn, ty in LEAVES.items():
        def summ(E, st, a, call, fn=fn, ty=ty):
            x, y = look(E, st, a[1])[1], look(E, st, a[2])[1]
            E.oblige(st, z3.And(TYP(x) == MAPT, applies(ty, y)), PID, fn + ': called for what it is for')
            E.oblige(st, z3.And(c.data(st).value()[1] == y, c.schema(st).value()[1] == x), PID, fn + ': the paths lead to its arguments')
            return effect(E, st, a[0], part(fn)(x, y))
        E.summaries[NS + fn + ARGS] = summ
    r = g(s, '$ref')
    ok = z3.And(z3.Implies(z3.And(h(s, '$ref'), TYP(r) == STRT), OK(NAMED(TEXT(r)), d)), *[z3.Implies(applies(ty, d), part(fn)(s, d)) for fn, ty in LEAVES.items()])
    if not ismap:
        ok = z3.BoolVal(True)
    no0, e0, depth0, paths0 = c.noerr(st), c.e(st), c.depth(st), (c.data(st), c.schema(st))
    E.cover(st, 'precondition')
    n = 0
    for kind, q, x in E.run_function(E.P.find(VALID)[0], st, [p, ps, pd]):
        n += 1
        E.oblige(q, c.data(q).gsame(paths0[0]) and c.schema(q).gsame(paths0[1]), PID, 'SchemaValidate: the paths are as before')
        E.oblige(q, c.depth(q) == depth0, PID, 'SchemaValidate: the depth is as before')
        if kind == 'ret':
            E.oblige(q, c.noerr(q) == z3.And(no0, ok), PID, 'SchemaValidate: no error exactly if every keyword is satisfied')
        elif x.ti == STOP:
            E.oblige(q, z3.And(z3.Not(c.noerr(q)), z3.Implies(no0, z3.Not(ok))), PID, 'SchemaValidate: stops with an error only, and only if a keyword is not satisfied')
        else:
            E.oblige(q, ('old', 'foreign') in q.ghost, PID, 'SchemaValidate: no other exception')
    E.oblige(st, n > 0, PID, 'SchemaValidate returns')


def v_limit(E):
    """recursion ends: beyond the limit there is an error"""
    st = base(E)
    ps, s = value(E, st, 'schema')
    pd, d = value(E, st, 'data')
    p, c = context(E, st, s, d)
    dep = z3.BitVec('deep', 32)
    st.assume(z3.UGE(dep, 100), z3.ULT(dep, 1 << 31))
    E.put(st, c.f.ptr('depth'), 4, dep)
    for fn in LEAVES:
        E.summaries[NS + fn + ARGS] = lambda E, st, a, call: E.oblige(st, False, PID, 'nothing is validated beyond the limit')
    E.summaries[VALID] = lambda E, st, a, call: E.oblige(st, False, PID, 'nothing is validated beyond the limit')
    n = 0
    for kind, q, x in E.run_function(E.P.find(VALID)[0], st, [p, ps, pd]):
        n += 1
        E.oblige(q, kind == 'exc' and x.ti == STOP, PID, 'beyond the limit the validation stops')
        E.oblige(q, z3.Not(c.noerr(q)), PID, 'beyond the limit there is an error')
    E.oblige(st, n > 0, PID, 'SchemaValidate returns')


TOP = NS + 'SchemaValidate(%sVariant, %sVariant, %sSchemaLoader*)' % (NS, NS, NS)


def v_top(E, ty):
    st = base(E)
    E.schema_paths = False
    E.depth0 = bv(0, 32)
    ps, s = value(E, st, 'schema', ty)
    pd, d = value(E, st, 'data')
    if ty is None:
        st.assume(TYP(s) != STRT, z3.Not(z3.And(TYP(s) == NULLT, TYP(d) == MAPT, h(d, '$schema'))))
    st.mem[ps.obj] = OC({0: (64, GV('val', s))})
    E.objs[ps.obj].const = False
    want = NAMED(TEXT(s)) if ty == STRT else s
    off = {m[0]: m[1] for m in E.P.types[CTX]['members']}
    E.path_start = lambda p: d if p.off == off['data_path'] else want
    SL = NS + 'SchemaLoader::'

    def get(E, st, a, call):
        t = text(E, st, a[2])
        s2 = st.copy()
        s2.ghost[('old', 'foreign')] = True
        facts(st, NAMED(t))
        E.gput(st, a[0], GV('val', NAMED(t)))
        return [Out(st, None), Out(s2, exc=throws(E, s2))]

    def addschema(E, st, a, call):
        E.oblige(st, z3.And(text(E, st, a[2]) == nil, look(E, st, a[3])[1] == want), PID, 'the schema itself is registered')
        st.ghost['registered'] = z3.BoolVal(True)
    pattern(E, SL + r'~?SchemaLoader\(.*\)', lambda E, st, a, call: None)
    pattern(E, SL + r'GetSchema\(.*\)', get)
    pattern(E, SL + r'AddSchema\(.*\)', addschema)
    pattern(E, r'std::map<%s, %s.*>::~map\(\)' % (STR, VAR), lambda E, st, a, call: None)
    res = E.new_obj(st, 'result', size=E.P.types[NS + 'SchemaResult']['size'])
    n = 0
    E.cover(st, 'precondition')
    for kind, q, x in E.run_function(E.P.find(TOP)[0], st, [res, ps, pd, E.new_obj(st, 'loader', size=None)]):
        n += 1
        if kind == 'ret':
            f = Fields(E, NS + 'SchemaResult', res)
            bad = z3.Or(*[E.gget(q, f.ptr(m), GFlag).b for m in ('errors', 'schema_errors')])
            E.oblige(q, bad == z3.Not(OK(want, d)), PID, 'the result has errors exactly if the schema does not accept the data')
        else:
            E.oblige(q, ('old', 'foreign') in q.ghost, PID, 'exceptions come from the loading of schemas only')
    E.oblige(st, n > 0, PID, 'SchemaValidate returns')


def tasks(P, tier):
    from ..run import Task
    out = []

    def t(name, fn, args, f):
        out.append(Task('schema: ' + name, fn, args, props=(PID,), safety=PID, funcs=[NS + x for x in f]))
    for fn, lo, hi, ty in (('ValidateArrayLength', 'minItems', 'maxItems', LISTT), ('ValidateStringLength', 'minLength', 'maxLength', STRT), ('ValidateObjectMinMaxProperties', 'minProperties', 'maxProperties', MAPT)):
        t(lo + ' ' + hi, v_sizes, (fn, lo, hi, ty), [fn])
    t('enum', v_enum, (), ['ValidateEnum'])
    t('required', v_required, (), ['ValidateObjectRequiredProperties'])
    t('allOf', v_allof, (), ['ValidateAllOf'])
    t('anyOf', v_anyof, (), ['ValidateAnyOf'])
    t('oneOf', v_oneof, (), ['ValidateOneOf'])
    t('not', v_not, (), ['ValidateNot'])
    for aslist in (True, False):
        t('items %s' % ('each' if aslist else 'all'), v_items, (aslist,), ['ValidateArrayItems'])
        t('type %s' % ('list' if aslist else 'one'), v_type, (aslist,), ['ValidateType'])
    t('uniqueItems', v_unique, (), ['ValidateArrayUniqueItems'])
    t('pattern', v_pattern, (), ['ValidateStringPattern'])
    t('minimum maximum', v_minmax, (), ['ValidateMinMax'])
    t('dependencies', v_dependencies, (), ['ValidateObjectDependencies', 'ValidateObjectDependenciesHelper'])
    t('format', v_format, (), ['ValidateStringFormat'])
    t('multipleOf', v_multiple, (), ['ValidateMultipleOf'])
    for pats in ('map', 'missing', 'other'):
        for props in ('map', 'missing', 'other'):
            if 'map' in (pats, props) or pats == props == 'missing':
                t('properties: patterns %s, names %s' % (pats, props), v_properties, (pats, props), ['ValidateObjectProperties', 'PatternProperty'])
    for ismap in (True, False):
        t('all keywords, schema %s' % ('map' if ismap else 'other'), v_whole, (ismap,), ['SchemaValidate', 'ValidateBasic', 'ValidateNumeric', 'ValidateString', 'ValidateArray', 'ValidateObject', 'ValidateCombinations'])
    t('recursion limit', v_limit, (), ['SchemaContext::IncrDepth'])
    for ty in (None, STRT):
        t('result, schema %s' % ('named' if ty else 'given'), v_top, (ty,), ['SchemaValidate'])
    return out
