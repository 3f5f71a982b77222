"""Verification-condition generator: path-wise symbolic execution of LLVM IR with function contracts
at calls, invariants at loop heads (Houdini over candidate conjuncts) and memory objects with bounds."""
import re, time, itertools, sys
import z3
from . import ir, theory as T
from .theory import bv

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and same(self.off, o.off)

    def __hash__(self):
        return hash(self.obj)


NULL = Ptr(0, 0)


class PInt:
    """ptrtoint result"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Exc:
    """An in-flight exception: type_info symbol (None = unknown type) and its object."""
    __slots__ = ('ti', 'ptr', 'info')

    def __init__(self, ti, ptr=None, info=None):
        self.ti = ti
        self.ptr = ptr or NULL
        self.info = info

    def __repr__(self):
        return 'Exc(%s)' % self.ti


def same(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) and isinstance(b, int):
        return z3.is_bv_value(a) and a.as_long() == b
    if isinstance(b, z3.ExprRef) and isinstance(a, int):
        return z3.is_bv_value(b) and b.as_long() == a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, PInt) and isinstance(b, PInt):
        return a.p == b.p
    if hasattr(a, 'gsame'):
        return a.gsame(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ types
def width(ty):
    return int(ty[1:]) if ty[0] == 'i' else None


FP = {'double': z3.FPSort(11, 53), 'float': z3.FPSort(8, 24), 'x86_fp80': z3.FPSort(15, 64)}
RNE = z3.RNE()
RTZ = z3.RTZ()


def parse_struct(ty):
    """'{ptr@0,i32@8}16' -> [(ty,off)], size"""
    assert ty[0] == '{'
    depth = 0
    parts, cur = [], ''
    i = 0
    for i, c in enumerate(ty):
        if c in '{[':
            depth += 1
            if depth == 1:
                continue
        if c in '}]':
            depth -= 1
            if depth == 0:
                break
        if c == ',' and depth == 1:
            parts.append(cur)
            cur = ''
        else:
            cur += c
    if cur:
        parts.append(cur)
    size = int(ty[i + 1:])
    res = []
    for p in parts:
        t, o = p.rsplit('@', 1)
        res.append((t, int(o)))
    return res, size


def arrays_in(ty, base=0, out=None):
    """byte-array regions (start,len,elemsize) inside a type string"""
    if out is None:
        out = []
    if ty[0] == '{':
        for t, o in parse_struct(ty)[0]:
            arrays_in(t, base + o, out)
    elif ty[0] == '[':
        m = re.match(r'\[(\d+)x(.*)\]$', ty)
        n, et = int(m.group(1)), m.group(2)
        if et == 'i8' and n > 16:
            out.append((base, n))
        elif et[0] in '{[':
            if n <= 64:
                es = tysize(et)
                for k in range(n):
                    arrays_in(et, base + k * es, out)
    return out


def tysize(ty):
    if ty[0] == 'i':
        return (int(ty[1:]) + 7) // 8
    if ty == 'ptr' or ty == 'double':
        return 8
    if ty == 'float':
        return 4
    if ty == 'x86_fp80':
        return 16
    if ty[0] == '{':
        return parse_struct(ty)[1]
    m = re.match(r'\[(\d+)x(.*)\]$', ty)
    return int(m.group(1)) * tysize(m.group(2))


# ------------------------------------------------------------------ integer ops
def isc(v):
    return isinstance(v, int)


def simp(e):
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def iop(op, a, b, w):
    M = (1 << w) - 1
    if w == 1:
        # i1 as Bool
        A, B = tobool(a), tobool(b)
        if op == 'and':
            return band(A, B)
        if op == 'or':
            return bor(A, B)
        if op in ('xor', 'add', 'sub'):
            return bxor(A, B)
        raise Unsupported('i1 ' + op)
    if isc(a) and isc(b):
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & M
        if op in ('udiv', 'urem') and b:
            return a // b if op == 'udiv' else a % b
        if op in ('sdiv', 'srem') and b:
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q & M if op == 'sdiv' else (x - q * y) & M
    if isc(b) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        return a
    if isc(a) and a == 0 and op in ('add', 'or', 'xor'):
        return b
    A, B = bv(a, w), bv(b, w)
    if op == 'add':
        return simp(A + B)
    if op == 'sub':
        return simp(A - B)
    if op == 'mul':
        return simp(A * B)
    if op == 'and':
        return simp(A & B)
    if op == 'or':
        return simp(A | B)
    if op == 'xor':
        return simp(A ^ B)
    if op == 'shl':
        return simp(A << B)
    if op == 'lshr':
        return simp(z3.LShR(A, B))
    if op == 'ashr':
        return simp(A >> B)
    if op == 'udiv':
        return simp(z3.UDiv(A, B))
    if op == 'urem':
        return simp(z3.URem(A, B))
    if op == 'sdiv':
        q = exact_quotient(a, b)
        if q is not None:
            return q
        return simp(A / B)
    if op == 'srem':
        return simp(z3.SRem(A, B))
    raise Unsupported(op)


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v & 1 == 1
    if z3.is_bool(v):
        return v
    return v != 0


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def bxor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(b, bool):
        return bnot(a) if b else a
    if isinstance(a, bool):
        return bnot(b) if a else b
    return z3.Xor(a, b)


def icmp(pred, a, b, w):
    if w == 1:
        a, b = tobool(a), tobool(b)
        if pred == 'eq':
            return bnot(bxor(a, b))
        if pred == 'ne':
            return bxor(a, b)
        a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if not isinstance(a, bool) else int(a)
        b = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if not isinstance(b, bool) else int(b)
    if isc(a) and isc(b):
        sa, sb = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
    A, B = bv(a, w), bv(b, w)
    f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
         'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
         'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
    return simp(f)


# ------------------------------------------------------------------ memory
class OC:
    """contents of one memory object in one state (immutable by convention)"""
    __slots__ = ('cells', 'regs', 'freed')

    def __init__(self, cells=None, regs=(), freed=False):
        self.cells = cells if cells is not None else {}
        self.regs = regs          # ((start, length, array), ...)
        self.freed = freed

    def copy(self):
        return OC(dict(self.cells), self.regs, self.freed)


def exact_quotient(a, b):
    """x for (c * zero-extended x) / c where the product cannot overflow"""
    t = z3.simplify(bv(a))
    c = z3.simplify(bv(b))
    if not z3.is_bv_value(c) or t.decl().name() != 'bvmul' or t.num_args() != 2 or not t.arg(0).eq(c):
        return None
    x = t.arg(1)
    if x.decl().name() == 'concat' and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
        if x.arg(1).size() + c.as_long().bit_length() < x.size():
            return x
    return None


class Info:
    """state-independent facts about an object"""
    __slots__ = ('id', 'name', 'size', 'init', 'const', 'kind', 'fn', 'handler', 'data', 'local', 'heap')

    def __init__(self, **k):
        self.size = None
        self.init = 'undef'
        self.const = False
        self.kind = 'mem'
        self.fn = None
        self.handler = None
        self.data = None
        self.local = False
        self.heap = False
        for a, b in k.items():
            setattr(self, a, b)


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'prev', 'inst', 'uid', 'entered')

    def __init__(self, fn, uid):
        self.fn = fn
        self.blk = fn.order[0]
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.inst = None      # call instruction in the caller
        self.uid = uid
        self.entered = None   # loop header being iterated

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.inst = self.inst
        f.uid = self.uid
        f.entered = self.entered
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'exc', 'caught', 'trace', 'kit', 'hv', 'mod')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.exc = None
        self.caught = []
        self.trace = ()
        self.kit = ()
        self.hv = False       # passed a loop cut by an invariant
        self.mod = None       # (model, k, pc[k-1]): the model satisfies pc[:k]

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.trace = self.trace
        s.kit = self.kit
        s.hv = self.hv
        s.mod = self.mod
        return s

    def assume(self, *cs):
        for c in cs:
            if c is True:
                continue
            if c is False:
                c = z3.BoolVal(False)
            self.pc.append(c)
        return self


class Obligation:
    __slots__ = ('fn', 'kind', 'label', 'status', 'model', 'line', 'time', 'backend', 'havoc', 'path', 'info')


class Engine:
    def __init__(self, prog, opts=None):
        self.P = prog
        self.objs = {0: Info(id=0, name='null', size=0, kind='null')}
        self.gcache = {}
        self.ctr = itertools.count(1)
        self.uid = itertools.count(1)
        self.obls = []
        self.mute = 0
        self.summaries = {}        # exact demangled name -> fn(E, st, args, call)
        self.patterns = []         # (regex, fn)
        self.rescache = {}
        self.loop_templates = []   # fn(E, ctx) -> [(label, getter(state)->Bool)]
        self.loop_facts = []       # fn(E, ctx, state at the head) -> [instances of definitions]
        self.bounded = None        # None: invariants; int: unroll bound
        self.truncated = 0
        self.cur = ''
        self.solver_time = 0.0
        self.queries = 0
        self.timeout = 20000
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.houdini_lost = []
        self.nopath = 0
        self.maxpaths = 20000
        self.typeids = {}
        self.deadline = None
        self.havoced = False
        self.noinline = []
        self.qcache = {}
        self.subst_cache = {}
        self.covers = []
        self.trunc_of = {}

    # ---------------------------------------------------------------- fresh
    def fresh(self, ty, name='v'):
        n = '%s!%d' % (name, next(self.ctr))
        if ty == 'i1':
            return z3.Bool(n)
        if ty[0] == 'i':
            return z3.BitVec(n, int(ty[1:]))
        if ty in FP:
            return z3.FP(n, FP[ty])
        if ty == 'bytes':
            return z3.Const(n, T.Bytes)
        if ty == 'arr':
            return z3.Const(n, T.ARR)
        raise Unsupported('fresh of type ' + ty)

    # ---------------------------------------------------------------- solver
    cvc5_used = 0
    solvers = ((z3.SimpleSolver, 1 << 30),)
    HEAVY = ((z3.SimpleSolver, 1000), (z3.Solver, 1 << 30))     # arithmetic on wide words: preprocessing pays
    SUMS = ((z3.SimpleSolver, 500), ('integers', 3000), (z3.Solver, 1 << 30))     # sums of wide words: as integers

    def _solve(self, cs, timeout=None):
        key = tuple(sorted(set(c.get_id() for c in cs)))
        if key in self.qcache:
            return self.qcache[key][0], self.qcache[key][1]
        t0 = time.time()
        ax = T.axioms(cs)
        m = None
        for mk, ms in self.solvers:
            if mk == 'integers':
                from .solvers import by_integers
                r = by_integers(cs + ax, ms // 1000)
                if r:
                    self.cvc5_used += 1
                    break
                r = z3.unknown
                continue
            s = mk()
            s.set('timeout', min(ms, timeout or self.timeout))
            s.add(*cs)
            s.add(*ax)
            r = s.check()
            if r != z3.unknown:
                break
        m = s.model() if r == z3.sat else None
        self.solver_time += time.time() - t0
        self.queries += 1
        res = str(r)
        self.qcache[key] = (res, m, cs)
        return res, m

    def feasible(self, st, cond=True):
        if cond is False:
            return False
        if cond is not True:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                cond = True
        if self.known_sat(st, cond):
            return True
        cs = list(st.pc)
        if cond is not True:
            cs.append(cond)
        if self._plain_unsat(cs):
            return False
        r, m = self._solve(cs, 5000)
        if m is not None and st.pc:
            if cond is True:
                st.mod = (m, len(st.pc), st.pc[-1])
            else:
                self.pending_mod = (cond.get_id(), m)
        return r != 'unsat'

    pending_mod = None

    def known_sat(self, st, cond):
        """does the model at hand satisfy the path condition (and cond)?"""
        pm = self.pending_mod
        if pm is not None and st.pc and st.pc[-1].get_id() == pm[0] and (st.mod is None or st.mod[1] < len(st.pc)):
            st.mod = (pm[1], 0, None)
        if st.mod is None:
            return False
        m, k, last = st.mod
        if k > len(st.pc) or (k and st.pc[k - 1] is not last):
            st.mod = None
            return False
        try:
            for c in st.pc[k:]:
                if not z3.is_true(m.eval(c, model_completion=True)):
                    return False
            if st.pc:
                st.mod = (m, len(st.pc), st.pc[-1])
            if cond is True:
                return True
            return z3.is_true(m.eval(cond, model_completion=True))
        except z3.Z3Exception:
            return False

    def _plain_unsat(self, cs):
        """unsatisfiable already without the lemmas of the theory"""
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', 1000)
        s.add(*cs)
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r == z3.unsat

    def valid(self, st, cond, timeout=None):
        """'valid' | 'invalid' | 'unknown', model"""
        if cond is True:
            return 'valid', None
        if cond is False:
            cond = z3.BoolVal(False)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return 'valid', None
        r, m = self._solve(list(st.pc) + [z3.Not(c)], timeout)
        return {'unsat': 'valid', 'sat': 'invalid', 'unknown': 'unknown'}[r], m

    def oblige(self, st, cond, kind, label, info=None):
        """record a proof obligation; afterwards continue under the assumption that it holds"""
        if self.mute:
            if cond is not True:
                st.assume(cond if not isinstance(cond, bool) else z3.BoolVal(cond))
            return
        if self.focus is not None and kind[0] == 'P' and kind[1:].isdigit() and kind != self.focus:
            self.deferred += 1          # decided by the check of the property it belongs to
            return
        o = Obligation()
        o.fn = self.cur
        o.kind = kind
        o.label = label
        o.line = self.where(st)
        o.path = None
        o.info = None
        t0 = time.time()
        used = self.cvc5_used
        r, m = self.valid(st, cond)
        o.backend = 'cvc5' if self.cvc5_used > used else 'z3'
        if r == 'unknown':
            from .solvers import second_opinion
            c = z3.BoolVal(cond) if isinstance(cond, bool) else cond
            cs = list(st.pc) + [z3.Not(c)]
            r2 = second_opinion(cs + T.axioms(cs))
            if r2:
                r, o.backend = r2
        o.time = time.time() - t0
        o.status = {'valid': 'proved', 'invalid': 'refuted', 'unknown': 'unknown'}[r]
        o.model = m
        o.havoc = self.havoced or st.hv or self.opaque_mul
        if o.status != 'proved':
            o.path = list(st.trace)[-40:]
            if info:
                try:
                    o.info = info(m) if m is not None else None
                except Exception as e:
                    o.info = 'info failed: %r' % e
        self.obls.append(o)
        if cond is not True:
            st.assume(cond if not isinstance(cond, bool) else z3.BoolVal(cond))

    def cover(self, st, label):
        """vacuity guard: the assumptions made so far must be satisfiable"""
        r, m = self._solve(list(st.pc))
        self.covers.append((label, r))
        if r == 'unsat':
            o = Obligation()
            o.fn, o.kind, o.label, o.status, o.model, o.line, o.time, o.backend, o.havoc, o.path, o.info = \
                self.cur, 'vacuity', 'unsatisfiable: ' + label, 'vacuous', None, '', 0, 'z3', False, None, None
            self.obls.append(o)

    def where(self, st):
        if not st.frames:
            return ''
        f = st.frames[-1]
        b = f.fn.blocks[f.blk]['insts']
        i = min(f.idx, len(b) - 1)
        return '%s:%s' % (f.fn.dem.split('(')[0], b[i].get('line', '?'))

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, name, size=None, init='undef', regs=(), cells=None, **k):
        i = next(self.uid)
        self.objs[i] = Info(id=i, name=name, size=size, init=init, **k)
        st.mem[i] = OC(cells, regs)
        return Ptr(i, 0)

    def buffer(self, st, name, size, arr=None, **k):
        """byte buffer object with symbolic contents"""
        a = arr if arr is not None else z3.Const(name + '_bytes', T.ARR)
        return self.new_obj(st, name, size=size, regs=((0, size, a),), **k)

    def gobj(self, st, name):
        """object id of a global / function"""
        name = self.P.aliases.get(name, name)
        if name in self.gcache:
            i = self.gcache[name]
            if i not in st.mem:
                st.mem[i] = self.objs[i].data or OC()
            return i
        i = next(self.uid)
        if name in self.P.fns and name not in self.P.globals:
            self.objs[i] = Info(id=i, name=name, kind='func', fn=name, size=0)
            st.mem[i] = OC()
        else:
            g = self.P.globals.get(name)
            oc = OC()
            inf = Info(id=i, name=name, kind='mem', size=None, init='zero')
            if g is not None:
                inf.size = g.get('size')
                inf.const = g['const']
                if g['decl']:
                    inf.init = 'sym'
                elif 'init' in g:
                    for off, sz, c in g['init']:
                        try:
                            v = self.constval(st, c)
                        except Unsupported:
                            continue
                        oc.cells[off] = (sz, v)
            self.objs[i] = inf
            inf.data = oc
            st.mem[i] = oc
        self.gcache[name] = i
        return i

    def constval(self, st, c):
        k = c['k']
        if k == 'i':
            v = int(c['v'])
            return bool(v) if c['t'] == 'i1' else v
        if k == 'f':
            ty = c['t']
            b = int(c['v'])
            if ty == 'double':
                return z3.fpBVToFP(z3.BitVecVal(b, 64), FP[ty])
            if ty == 'float':
                return z3.fpBVToFP(z3.BitVecVal(b, 32), FP[ty])
            s, e, m = b >> 79 & 1, b >> 64 & 0x7fff, b & ((1 << 64) - 1)
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal((s << 78) | (e << 63) | (m & ((1 << 63) - 1)), 79), FP[ty]))
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'g':
            return Ptr(self.gobj(st, c['v']), c['off'])
        if k == 'zero':
            return self.zero(c['t'])
        if k == 'agg':
            return [self.constval(st, x) for x in c['v']]
        if k == 'ce':
            if c['op'] == 'ptrtoint':
                return PInt(self.constval(st, c['v'][0]))
            if c['op'] == 'inttoptr':
                v = self.constval(st, c['v'][0])
                if isc(v):
                    return Ptr(0, v)
        raise Unsupported('constant ' + k)

    def zero(self, ty):
        if ty[0] == 'i':
            return False if ty == 'i1' else 0
        if ty == 'ptr':
            return NULL
        if ty in FP:
            return z3.fpPlusZero(FP[ty])
        if ty[0] == '{':
            return [self.zero(t) for t, _ in parse_struct(ty)[0]]
        raise Unsupported('zero ' + ty)

    # ---------------------------------------------------------------- memory access
    def addoff(self, off, d):
        return iop('add', off if not isc(off) else off & ((1 << 64) - 1), d if not isc(d) else d & ((1 << 64) - 1), 64)

    def padd(self, p, d):
        return Ptr(p.obj, self.addoff(p.off, d))

    def check_access(self, st, p, size, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        inf = self.objs[p.obj] if not isinstance(p.obj, tuple) else None
        if p.obj == 0:
            self.oblige(st, False, 'memory', 'null pointer %s' % what)
            raise PathEnd()
        if inf is None:
            return
        if inf.kind == 'func':
            raise Unsupported('access to function memory')
        if p.obj not in st.mem and isinstance(inf.data, OC):
            # a global that another global points to
            st.mem[p.obj] = inf.data
        oc = st.mem[p.obj]
        if oc.freed:
            self.oblige(st, False, 'memory', '%s after free of %s' % (what, inf.name))
            raise PathEnd()
        if what == 'write' and inf.const:
            self.oblige(st, False, 'memory', 'write to constant %s' % inf.name)
            raise PathEnd()
        if inf.size is None:
            return
        if isc(inf.size) and isc(p.off) and isc(size):
            if not (p.off + size <= inf.size):
                self.oblige(st, False, 'memory', '%s out of bounds of %s' % (what, inf.name))
                raise PathEnd()
            return
        S, O, N = bv(inf.size), bv(p.off), bv(size)
        self.oblige(st, z3.And(z3.ULE(O, S), z3.ULE(N, S - O)), 'memory', '%s out of bounds of %s' % (what, inf.name))
        if not self.feasible(st):
            raise PathEnd()

    def find_region(self, st, p, size):
        oc = st.mem[p.obj]
        if not oc.regs:
            return None
        if len(oc.regs) == 1 and oc.regs[0][0] == 0 and same(oc.regs[0][1], self.objs[p.obj].size):
            return 0
        for k, (s, n, a) in enumerate(oc.regs):
            if isc(p.off) and isc(n):
                if s <= p.off and p.off < s + n:
                    return k
            else:
                o = bv(p.off) - s
                if self.valid(st, z3.ULT(o, bv(n)))[0] == 'valid':
                    return k
        return None

    def load(self, st, p, size, ty):
        self.check_access(st, p, size, 'read')
        if ty[0] == '{':
            return [self.load(st, self.padd(p, o), tysize(t), t) for t, o in parse_struct(ty)[0]]
        if isinstance(p.obj, tuple):
            return self.fam_load(st, p, size, ty)
        inf = self.objs[p.obj]
        if inf.handler:
            r = inf.handler.load(self, st, p, size, ty)
            if r is not None:
                return r
        oc = st.mem[p.obj]
        k = self.find_region(st, p, size)
        if k is not None:
            s, n, a = oc.regs[k]
            i = bv(iop('sub', p.off, s, 64))
            bs = [T.sel(a, i if j == 0 else i + j) for j in range(size)]
            if ty[0] != 'i':
                raise Unsupported('typed load %s from byte region %s' % (ty, inf.name))
            v = simp(bs[0]) if size == 1 else simp(z3.Concat(*reversed(bs)))
            return self.coerce(v, ty, size)
        if not isc(p.off):
            return self.symoff_load(st, p, size, ty)
        c = oc.cells.get(p.off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], ty, size)
        if c is None:
            # covering cell?
            for o, (sz, v) in oc.cells.items():
                if o <= p.off and p.off + size <= o + sz:
                    if isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool):
                        lo = (p.off - o) * 8
                        return self.coerce(simp(z3.Extract(lo + size * 8 - 1, lo, bv(v, sz * 8))), ty, size)
                    if v is UNDEF:
                        return self.undef_val(st, ty, inf, p.off)
                    raise Unsupported('partial read of %s+%d' % (inf.name, p.off))
            over = [o for o, (sz, v) in oc.cells.items() if o < p.off + size and p.off < o + sz]
            if not over:
                return self.init_val(st, inf, p.off, size, ty)
        elif c[0] > size:
            if isinstance(c[1], (int, z3.BitVecRef)) and not isinstance(c[1], bool):
                return self.coerce(simp(z3.Extract(size * 8 - 1, 0, bv(c[1], c[0] * 8))), ty, size)
            if c[1] is UNDEF:
                return self.undef_val(st, ty, inf, p.off)
            if isinstance(c[1], z3.FPRef) or isinstance(c[1], (Ptr, bool)):
                return self.undef_val(st, ty, inf, p.off)   # type punning: arbitrary value
            raise Unsupported('narrow read of %s+%d %r' % (inf.name, p.off, c[1]))
        # assemble
        if ty[0] == 'i':
            bs = []
            for j in range(size):
                bs.append(bv(self.load(st, self.padd(p, j), 1, 'i8'), 8))
            return self.coerce(simp(z3.Concat(*reversed(bs))), ty, size)
        return self.undef_val(st, ty, inf, p.off)

    def coerce(self, v, ty, size):
        if v is UNDEF:
            return self.fresh(ty, 'undef') if ty != 'ptr' else UNDEF
        if ty == 'i1':
            return tobool(v) if not isinstance(v, z3.BitVecRef) else simp(z3.Extract(0, 0, v) == 1)
        if ty[0] == 'i':
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                w = width(ty)
                return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if isinstance(v, Ptr):
                return PInt(v)
            if isinstance(v, z3.FPRef):
                if ty == 'i64' and v.sort() == FP['double'] or ty == 'i32' and v.sort() == FP['float']:
                    return z3.fpToIEEEBV(v)
                raise Unsupported('integer view of a float')
            if isinstance(v, z3.BitVecRef) and v.size() != width(ty):
                return simp(z3.Extract(width(ty) - 1, 0, v)) if v.size() > width(ty) else simp(z3.ZeroExt(width(ty) - v.size(), v))
            return v
        if ty == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, PInt):
                return v.p
            if isc(v):
                return Ptr(0, v)
            if hasattr(v, 'gsame'):
                return v
            raise Unsupported('pointer read of %r' % (v,))
        if ty in FP:
            if isinstance(v, z3.FPRef) and v.sort() == FP[ty]:
                return v
            if isinstance(v, (int, z3.BitVecRef)) and ty in ('double', 'float'):
                return z3.fpBVToFP(bv(v, 64 if ty == 'double' else 32), FP[ty])
            raise Unsupported('float read of %r' % (v,))
        raise Unsupported('coerce ' + ty)

    def undef_val(self, st, ty, inf, off):
        if ty == 'ptr':
            return UNDEF
        return self.fresh(ty, 'undef_%s_%s' % (inf.name, off))

    def init_val(self, st, inf, off, size, ty):
        if inf.init == 'zero':
            return self.zero(ty)
        if inf.init == 'sym':
            if ty == 'ptr':
                raise Unsupported('pointer read from unspecified memory %s+%s' % (inf.name, off))
            n = '%s+%s:%s' % (inf.name, off, ty)
            if ty == 'i1':
                return z3.Bool(n)
            if ty[0] == 'i':
                return z3.BitVec(n, width(ty))
            return z3.FP(n, FP[ty])
        if ty == 'ptr':
            return UNDEF
        return self.fresh(ty, 'uninit_%s_%s' % (inf.name, off))

    def symoff_load(self, st, p, size, ty):
        """constant table lookup with a symbolic index, or a case split over cells"""
        inf = self.objs[p.obj]
        oc = st.mem[p.obj]
        if inf.size is None or not isc(inf.size) or inf.size > 70000:
            raise Unsupported('symbolic offset into %s' % inf.name)
        # stride: find feasible alignment from size
        n = inf.size // size
        # restrict to feasible range
        vals = []
        off = bv(p.off)
        if size > 1 and self.valid(st, z3.Extract({2: 0, 4: 1, 8: 2, 16: 3}[size], 0, off) == 0)[0] != 'valid':
            raise Unsupported('misaligned symbolic offset into %s' % inf.name)
        # collapse the offset expression to its feasible values when few
        lo, hi = self.range_of(st, off, inf.size)
        k = lo // size
        items = []
        while k * size <= hi and k * size + size <= inf.size:
            o = k * size
            c = oc.cells.get(o)
            if c is not None and c[0] == size:
                v = self.coerce(c[1], ty, size)
            elif c is None and not any(o2 < o + size and o < o2 + s2 for o2, (s2, _) in oc.cells.items() if abs(o2 - o) < 64):
                v = self.init_val(st, inf, o, size, ty)
            else:
                v = self.load(st, Ptr(p.obj, o), size, ty)
            items.append((o, v))
            k += 1
        if not items:
            raise PathEnd()
        # runs of equal values
        runs = []
        for o, v in items:
            if runs and same(runs[-1][2], v):
                runs[-1][1] = o
            else:
                runs.append([o, o, v])
        if ty == 'ptr':
            if len(runs) == 1:
                return runs[0][2]
            raise NeedSplit([(simp(z3.And(z3.UGE(off, a), z3.ULE(off, b))), None) for a, b, v in runs])
        # group by value
        groups = []
        for a, b, v in runs:
            for g in groups:
                if same(g[0], v):
                    g[1].append((a, b))
                    break
            else:
                groups.append([v, [(a, b)]])
        groups.sort(key=lambda g: len(g[1]))

        def mk(v):
            if ty == 'i1':
                return z3.BoolVal(v) if isinstance(v, bool) else v
            return bv(v, width(ty)) if ty[0] == 'i' else v
        r = mk(groups[-1][0])
        for v, rs in groups[:-1]:
            c = [off == a if a == b else z3.And(z3.UGE(off, a), z3.ULE(off, b)) for a, b in rs]
            r = z3.If(c[0] if len(c) == 1 else z3.Or(*c), mk(v), r)
        return r

    def range_of(self, st, e, limit):
        """cheap lower/upper bound by bisection, capped"""
        lo, hi = 0, limit - 1
        # lower
        a, b = 0, limit - 1
        for _ in range(12):
            if a >= b:
                break
            mid = (a + b) // 2
            if self.valid(st, z3.UGT(e, mid))[0] == 'valid':
                a = mid + 1
            else:
                break
        lo = a
        a, b = lo, limit - 1
        for _ in range(12):
            if a >= b:
                break
            mid = (a + b) // 2
            if self.valid(st, z3.ULE(e, mid))[0] == 'valid':
                b = mid
            else:
                a = mid + 1
        hi = b if a >= b else limit - 1
        return lo, hi

    def store(self, st, p, size, v, ty):
        self.check_access(st, p, size, 'write')
        if isinstance(v, list) and ty[0] == '{':
            for (t, o), x in zip(parse_struct(ty)[0], v):
                self.store(st, self.padd(p, o), tysize(t), x, t)
            return
        if isinstance(p.obj, tuple):
            return self.fam_store(st, p, size, v, ty)
        inf = self.objs[p.obj]
        if inf.handler:
            if inf.handler.store(self, st, p, size, v, ty):
                return
        oc = st.mem[p.obj]
        k = self.find_region(st, p, size)
        if k is not None:
            s, n, a = oc.regs[k]
            i = iop('sub', p.off, s, 64)
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                v = self.coerce(v, 'i8', 1)
            if v is UNDEF:
                v = self.fresh('i%d' % (8 * size), 'undef')
            if not isinstance(v, (int, z3.BitVecRef)):
                raise Unsupported('typed store into byte region of ' + inf.name)
            V = bv(v, size * 8)
            for j in range(size):
                a = z3.Store(a, bv(iop('add', i, j, 64)), simp2(z3.Extract(8 * j + 7, 8 * j, V)) if size > 1 else V)
            regs = list(oc.regs)
            regs[k] = (s, n, a)
            oc2 = oc.copy()
            oc2.regs = tuple(regs)
            st.mem[p.obj] = oc2
            return
        if not isc(p.off):
            raise Unsupported('store at symbolic offset in %s' % inf.name)
        self.put(st, p, size, v)

    def put(self, st, p, size, v):
        oc = st.mem[p.obj].copy()
        off = p.off
        for o in [o for o, (sz, _) in oc.cells.items() if o < off + size and off < o + sz]:
            sz, old = oc.cells[o]
            if o == off and sz <= size:
                continue
            del oc.cells[o]
            if isinstance(old, (int, z3.BitVecRef)) and not isinstance(old, bool) and o <= off and off + size <= o + sz:
                O = bv(old, sz * 8)
                if off > o:
                    oc.cells[o] = (off - o, simp(z3.Extract((off - o) * 8 - 1, 0, O)))
                if off + size < o + sz:
                    oc.cells[off + size] = (o + sz - off - size, simp(z3.Extract(sz * 8 - 1, (off + size - o) * 8, O)))
            elif not (off <= o and o + sz <= off + size):
                if o < off:
                    oc.cells[o] = (off - o, UNDEF)
                if o + sz > off + size:
                    oc.cells[off + size] = (o + sz - off - size, UNDEF)
        oc.cells[off] = (size, v)
        st.mem[p.obj] = oc

    # ghost cells (models keep abstract values of library objects in their first byte)
    def gget(self, st, p, cls=None):
        if not isinstance(p, Ptr):
            raise Unsupported('ghost access through %r' % (p,))
        if p.obj == 0:
            self.oblige(st, False, 'memory', 'null object access')
            raise PathEnd()
        if isinstance(p.obj, tuple):
            raise Unsupported('ghost in family')
        oc = st.mem[p.obj]
        if oc.freed:
            self.oblige(st, False, 'memory', 'use after free of %s' % self.objs[p.obj].name)
            raise PathEnd()
        if hasattr(self.objs[p.obj].data, 'ghost_at'):
            # an element of a container
            return self.objs[p.obj].data.ghost_at(self, st, p.off)
        if not isc(p.off):
            raise Unsupported('ghost object at symbolic offset')
        c = oc.cells.get(p.off)
        v = c[1] if c else None
        if cls is not None and not isinstance(v, cls):
            inf = self.objs[p.obj]
            if c is None and inf.init == 'sym' and hasattr(cls, 'symbolic'):
                v = cls.symbolic(self, st, '%s+%s' % (inf.name, p.off))
                self.put(st, p, cls.SIZE, v)
                return v
            raise Unsupported('expected %s at %s+%s, found %r' % (getattr(cls, '__name__', cls), inf.name, p.off, v))
        return v

    def gput(self, st, p, v, size=None):
        if p.obj == 0:
            self.oblige(st, False, 'memory', 'null object access')
            raise PathEnd()
        if not isc(p.off):
            raise Unsupported('ghost object at symbolic offset')
        self.put(st, p, size or v.SIZE, v)

    def memcpy(self, st, d, s, n, what='memcpy'):
        if isc(n) and n == 0:
            return
        nn = n
        if not isc(n):
            # zero-length copies touch nothing: check bounds only for n > 0
            if not self.feasible(st, bv(n) != 0):
                return
        if s.obj == 0 or d.obj == 0:
            self.oblige(st, bv(n) == 0, 'memory', 'null pointer in ' + what)
            return
        self.check_access(st, s, n, 'read')
        self.check_access(st, d, n, 'write')
        if isinstance(s.obj, tuple) and not isinstance(d.obj, tuple):
            sa, so = s.obj[1].range(self, st, s, n)
            dk = self.find_region(st, d, n)
            if dk is None:
                raise Unsupported(what + ' from a family of buffers')
            d0, dn, da = st.mem[d.obj].regs[dk]
            oc = st.mem[d.obj].copy()
            regs = list(oc.regs)
            regs[dk] = (d0, dn, T.acopy(da, bv(iop('sub', d.off, d0, 64)), sa, so, bv(n)))
            oc.regs = tuple(regs)
            st.mem[d.obj] = oc
            return
        ds, ss = st.mem[d.obj], st.mem[s.obj]
        dk = self.find_region(st, d, n)
        sk = self.find_region(st, s, n)
        if dk is not None and sk is not None:
            s0, sn, sa = ss.regs[sk]
            d0, dn, da = ds.regs[dk]
            so = bv(iop('sub', s.off, s0, 64))
            do = bv(iop('sub', d.off, d0, 64))
            if isc(n) and n <= 8:
                na = da
                vals = [T.sel(sa, simp2(so + j)) for j in range(n)]
                for j in range(n):
                    na = z3.Store(na, simp2(do + j), vals[j])
            else:
                na = T.acopy(da, do, sa, so, bv(n))
            regs = list(ds.regs)
            regs[dk] = (d0, dn, na)
            oc = ds.copy()
            oc.regs = tuple(regs)
            st.mem[d.obj] = oc
            return
        if isc(n) and isc(s.off) and isc(d.off) and sk is None and dk is None:
            moved = []
            for o, (sz, v) in ss.cells.items():
                if o >= s.off and o + sz <= s.off + n:
                    moved.append((o - s.off, sz, v))
                elif o < s.off + n and s.off < o + sz:
                    raise Unsupported('memcpy splits a cell')
            si = self.objs[s.obj]
            oc = ds.copy()
            for o in [o for o, (sz, _) in oc.cells.items() if o < d.off + n and d.off < o + sz]:
                sz = oc.cells[o][0]
                if o < d.off or o + sz > d.off + n:
                    raise Unsupported('memcpy splits a destination cell')
                del oc.cells[o]
            covered = 0
            for o, sz, v in moved:
                oc.cells[d.off + o] = (sz, v)
                covered += sz
            st.mem[d.obj] = oc
            if si.init == 'zero' and covered < n:
                for j in range(n):
                    if not any(o <= j < o + sz for o, sz, _ in moved):
                        oc.cells[d.off + j] = (1, 0)
            return
        if isc(n) and n <= 256:
            vals = [self.load(st, self.padd(s, j), 1, 'i8') for j in range(n)]
            for j in range(n):
                self.store(st, self.padd(d, j), 1, vals[j], 'i8')
            return
        raise Unsupported('%s between %s and %s with symbolic length' % (what, self.objs[s.obj].name, self.objs[d.obj].name))

    def no_overlap(self, st, d, s, n):
        """memcpy, unlike memmove, must not be used on overlapping ranges"""
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj == s.obj and d.obj != 0:
            D, S, N = bv(d.off), bv(s.off), bv(n)
            c = simp(z3.Or(N == 0, D == S, z3.And(z3.ULE(N, D - S), z3.ULE(N, S - D))))
            if c is not True:
                self.oblige(st, c, 'memory', 'memcpy between overlapping ranges')

    def memset(self, st, d, c, n):
        if isc(n) and n == 0:
            return
        if d.obj == 0:
            self.oblige(st, bv(n) == 0, 'memory', 'null pointer in memset')
            return
        self.check_access(st, d, n, 'write')
        dk = self.find_region(st, d, n)
        ds = st.mem[d.obj]
        if dk is not None:
            d0, dn, da = ds.regs[dk]
            regs = list(ds.regs)
            regs[dk] = (d0, dn, T.aset(da, bv(iop('sub', d.off, d0, 64)), bv(c, 8), bv(n)))
            oc = ds.copy()
            oc.regs = tuple(regs)
            st.mem[d.obj] = oc
            return
        if isc(n) and isc(d.off) and isc(c):
            oc = ds.copy()
            for o in [o for o, (sz, _) in oc.cells.items() if o < d.off + n and d.off < o + sz]:
                sz = oc.cells[o][0]
                if o < d.off or o + sz > d.off + n:
                    raise Unsupported('memset splits a cell')
                del oc.cells[o]
            regs = list(oc.regs)
            for k, (s, ln, a) in enumerate(regs):
                if isc(ln) and d.off <= s and s + ln <= d.off + n:
                    regs[k] = (s, ln, z3.K(T.BV64, z3.BitVecVal(c, 8)))
            oc.regs = tuple(regs)
            st.mem[d.obj] = oc
            self.zero_fill(st, d, c, n)
            return
        raise Unsupported('memset')

    def zero_fill(self, st, d, c, n):
        inf = self.objs[d.obj]
        oc = st.mem[d.obj]
        if c == 0:
            # represent by an 8-byte grid of zero words
            o = d.off
            while o < d.off + n:
                step = 8 if o % 8 == 0 and o + 8 <= d.off + n else 1
                if not any(isc(ln) and s <= o < s + ln for s, ln, a in oc.regs):
                    oc.cells[o] = (step, 0)
                o += step
        else:
            for o in range(d.off, d.off + n):
                oc.cells[o] = (1, c)

    # ---------------------------------------------------------------- operands
    def val(self, st, f, o):
        k = o['k']
        if k == 'r':
            try:
                return f.regs[o['v']]
            except KeyError:
                raise Unsupported('use of undefined value %s in %s' % (o, f.fn.dem))
        if k == 'i':
            v = int(o['v'])
            return v != 0 if o['t'] == 'i1' else v
        return self.constval(st, o)

    # ---------------------------------------------------------------- calls
    def resolve(self, name):
        r = self.rescache.get(name)
        if r is not None:
            return r
        F = self.P.fns.get(name)
        dem = F.dem if F else name
        if dem in self.summaries:
            r = ('sum', self.summaries[dem], dem)
        else:
            for rx, fn in self.patterns:
                if rx.match(dem):
                    r = ('mod', fn, dem)
                    break
            else:
                if F is not None and not F.decl:
                    ok = not any(x.match(dem) for x in self.noinline)
                    r = ('inl', F, dem) if ok else ('none', None, dem)
                else:
                    r = ('none', None, dem)
        self.rescache[name] = r
        return r

    def push(self, st, F, args, inst):
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        if sum(1 for f in st.frames if f.fn is F) >= 3:
            raise Unsupported('recursion in ' + F.dem)
        fr = Frame(F, next(self.uid))
        fr.inst = inst
        for a, v in zip(F.args, args):
            if 'byval' in a:
                p = self.new_obj(st, 'byval', size=a['byval'], local=True)
                self.memcpy(st, p, v, a['byval'])
                v = p
            fr.regs[a['id']] = v
        st.frames.append(fr)

    def do_call(self, st, inst, args, callee):
        """returns list of states ready to continue"""
        if not isinstance(callee, Ptr):
            raise Unsupported('indirect call through %r' % (callee,))
        if callee.obj == 0:
            self.oblige(st, False, 'memory', 'call through null pointer')
            raise PathEnd()
        inf = self.objs[callee.obj]
        if inf.kind == 'afn':
            outs = inf.handler(self, st, args, inst)
            return self.finish_call(inst, outs, st)
        if inf.kind != 'func':
            raise Unsupported('call of data object ' + inf.name)
        name = inf.fn
        kind, h, dem = self.resolve(name)
        if kind == 'inl':
            self.inlined.add(dem)
            self.push(st, h, args, inst)
            return [st]
        if kind == 'none':
            raise Unsupported('no contract, model or body for ' + dem)
        (self.used_contracts if kind == 'sum' else self.used_models).add(dem)
        outs = h(self, st, args, Call(self, inst, name, dem))
        return self.finish_call(inst, outs, st)

    def finish_call(self, inst, outs, st):
        """outs: value | list of Out"""
        if not (isinstance(outs, list) and (not outs or isinstance(outs[0], Out))):
            outs = [Out(st, outs)]
        res = []
        for o in outs:
            if o.exc is not None:
                try:
                    res.extend(self.unwind(o.st, inst, o.exc))
                except Terminal as t:
                    res.append(t)      # leaves the function under verification
            else:
                self.after_call(o.st, inst, o.val)
                res.append(o.st)
        return res

    def after_call(self, st, inst, v):
        f = st.frames[-1]
        f.regs[inst['id']] = v
        if inst['op'] == 'invoke':
            self.goto(st, f, inst['normal'])
        else:
            f.idx += 1

    def unwind(self, st, inst, exc):
        """exception raised by call `inst` of the top frame"""
        st.exc = exc
        if len(st.frames) == self.base:
            pass
        f = st.frames[-1]
        if inst['op'] == 'invoke':
            self.goto(st, f, inst['unwind'])
            return [st]
        return self.unwind_frame(st)

    def unwind_frame(self, st):
        while True:
            f = st.frames.pop()
            self.kill_locals(st, f)
            if len(st.frames) < self.base:
                raise Terminal('exc', st, st.exc)
            if f.inst['op'] == 'invoke':
                self.goto(st, st.frames[-1], f.inst['unwind'])
                return [st]

    def kill_locals(self, st, f):
        for k, v in f.regs.items():
            pass

    def goto(self, st, f, b):
        f.prev = f.blk
        f.blk = b
        f.idx = 0

    # ---------------------------------------------------------------- type info
    def typeid(self, ti):
        if ti not in self.typeids:
            self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    STD_BASES = {
        '_ZTISt9exception': [], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
        '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    }

    def ti_bases(self, ti):
        if ti in self.STD_BASES:
            return self.STD_BASES[ti]
        g = self.P.globals.get(ti)
        if g is None or g['decl']:
            return None
        r = []
        for off, sz, c in g.get('init', []):
            if off >= 16 and c['k'] == 'g' and c['v'].startswith('_ZTI'):
                r.append(c['v'])
        return r

    def is_a(self, ti, base):
        if ti == base:
            return True
        bs = self.ti_bases(ti)
        if bs is None:
            return None
        u = False
        for b in bs:
            r = self.is_a(b, base)
            if r:
                return True
            if r is None:
                u = None
        return u

    # ---------------------------------------------------------------- running
    def run_function(self, F, st, args):
        """explore F from state st; returns list of (kind, state, value)"""
        self.base = len(st.frames) + 1
        self.push(st, F, args, None)
        return self.explore([st], None)

    def explore(self, work, loop):
        """loop: None or (depth, header, blocks): stop at back edges / exits of that loop"""
        done = []
        work = list(work)
        base = self.base
        while work:
            st = work.pop()
            if isinstance(st, Terminal):
                done.append((st.kind, st.st, st.val))
                continue
            try:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time limit')
                r = self.run_to_event(st, loop)
            except PathEnd:
                continue
            except SymbolicExit:
                raise
            except Terminal as t:
                self.nopath += 1
                if self.nopath > self.maxpaths:
                    raise Unsupported('too many paths')
                done.append((t.kind, t.st, t.val))
                continue
            work.extend(r)
        return done

    def at_loop_head(self, st, loop):
        f = st.frames[-1]
        if f.idx != 0:
            return None
        L = ir.analyse_loops(f.fn)
        return L.get(f.blk)

    def run_to_event(self, st, loop):
        """execute until the state forks (return successors) or ends (raise Terminal)"""
        while True:
            f = st.frames[-1]
            depth = len(st.frames)
            if loop is not None and depth < loop[0]:
                raise Terminal('exit', st, None)
            if loop is not None and depth == loop[0]:
                if f.blk not in loop[2]:
                    raise Terminal('exit', st, None)
                if f.idx == 0 and f.blk == loop[1] and f.entered != loop[1]:
                    raise Terminal('back', st, None)
            if f.idx == 0:
                L = ir.analyse_loops(f.fn)
                if f.blk in L and f.entered != f.blk:
                    return self.do_loop(st, f.blk, L[f.blk], loop)
                f.entered = None
                # phis
                self.phis(st, f)
            inst = f.fn.blocks[f.blk]['insts'][f.idx]
            try:
                r = self.step(st, f, inst)
            except NeedSplit as ns:
                out = []
                for c, _ in ns.cases:
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        out.append(s2)
                return out
            if r is not None:
                return r

    def phis(self, st, f):
        blk = f.fn.blocks[f.blk]['insts']
        n = 0
        newv = {}
        for i in blk:
            if i['op'] != 'phi':
                break
            n += 1
            for b, v in i['in']:
                if b == f.prev:
                    newv[i['id']] = self.val(st, f, v)
                    break
            else:
                raise Unsupported('phi without predecessor')
        f.regs.update(newv)
        f.idx = n

    def branch(self, st, conds):
        """conds: [(cond, block)] -> successor states"""
        out = []
        live = []
        for c, b in conds:
            if c is False:
                continue
            if c is True:
                live = [(True, b)]
                break
            live.append((c, b))
        w = self.exit_watch
        if w is not None and len(live) > 1:
            # w: the loop whose exits are being watched; innermost such loop only
            if len(st.frames) == w[0][0] and any(b not in w[0][2] for c, b in live) and any(b in w[0][2] for c, b in live):
                live = [(c, b) for c, b in live if self.feasible(st, c)]
                if any(b not in w[0][2] for c, b in live) and any(b in w[0][2] for c, b in live):
                    raise SymbolicExit()
        for c, b in live:
            if c is not True and not self.feasible(st, c):
                continue
            s2 = st.copy() if len(live) > 1 else st
            if c is not True:
                s2.assume(c)
                f2 = s2.frames[-1]
                line = f2.fn.blocks[f2.blk]['insts'][-1].get('line')
                s2.trace = s2.trace + ((f2.fn.dem.split('(')[0], line, b),)
            self.goto(s2, s2.frames[-1], b)
            out.append(s2)
        return out

    def step(self, st, f, inst):
        op = inst['op']
        ops = inst['ops']
        m = getattr(self, 'op_' + op, None)
        if m is not None:
            return m(st, f, inst)
        if op in BINOPS:
            w = width(inst['t'])
            a, b = self.val(st, f, ops[0]), self.val(st, f, ops[1])
            f.regs[inst['id']] = self.arith(st, op, a, b, w, inst)
            f.idx += 1
            return None
        raise Unsupported('instruction ' + op)

    def arith(self, st, op, a, b, w, inst=None):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj == b.p.obj:
                    return iop('sub', a.p.off, b.p.off, 64)
                raise Unsupported('difference of pointers to different objects')
            if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(self.padd(a.p, b))
            if op == 'sub' and isinstance(a, PInt):
                return PInt(self.padd(a.p, iop('sub', 0, b, 64)))
            raise Unsupported('arithmetic on pointer value: ' + op)
        if a is UNDEF:
            a = self.fresh('i%d' % w, 'undef')
        if b is UNDEF:
            b = self.fresh('i%d' % w, 'undef')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (isc(b) and b != 0):
                self.oblige(st, bv(b, w) != 0, 'arithmetic', 'division by zero')
            if op[0] == 's' and not (isc(b) and sgn(b, w) != -1):
                self.oblige(st, z3.Not(z3.And(bv(a, w) == z3.BitVecVal(1 << (w - 1), w), bv(b, w) == z3.BitVecVal(-1, w))),
                            'arithmetic', 'signed division overflow')
        if inst is not None and inst.get('nsw') and w >= 32 and self.check_overflow and not (isc(a) and isc(b)):
            A, B = bv(a, w), bv(b, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            elif op == 'mul':
                c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
            else:
                c = True
            self.oblige(st, c, 'arithmetic', 'signed overflow in ' + op)
        if op == 'mul' and self.opaque_mul and not isc(a) and not isc(b):
            return self.umul(a, b, w)
        return iop(op, a, b, w)

    check_overflow = False
    opaque_mul = False          # products of two unknowns: an unknown commutative function (their value does not matter)

    def umul(self, a, b, w):
        a, b = z3.simplify(bv(a, w)), z3.simplify(bv(b, w))
        if a.get_id() > b.get_id():
            a, b = b, a
        return z3.Function('product%d' % w, a.sort(), b.sort(), a.sort())(a, b)

    # individual opcodes
    def op_alloca(self, st, f, inst):
        regs = tuple((s, n, z3.Const('alloca!%d' % next(self.ctr), T.ARR)) for s, n in arrays_in(inst['aty']))
        p = self.new_obj(st, inst.get('name') or 'local', size=inst['size'], local=True, regs=regs)
        n = self.val(st, f, inst['ops'][0])
        if not isc(n) or n != 1:
            raise Unsupported('variable length array')
        f.regs[inst['id']] = p
        f.idx += 1

    def op_load(self, st, f, inst):
        p = self.val(st, f, inst['ops'][0])
        f.regs[inst['id']] = self.load(st, p, inst['size'], inst['t'])
        f.idx += 1

    def op_store(self, st, f, inst):
        v = self.val(st, f, inst['ops'][0])
        p = self.val(st, f, inst['ops'][1])
        self.store(st, p, inst['size'], v, inst['sty'])
        f.idx += 1

    def op_getelementptr(self, st, f, inst):
        p = self.val(st, f, inst['ops'][0])
        if not isinstance(p, Ptr):
            if hasattr(p, 'gep'):
                f.regs[inst['id']] = p.gep(inst['off'])
                f.idx += 1
                return
            raise Unsupported('gep on %r' % (p,))
        off = self.addoff(p.off, inst['off'])
        for o, sc in zip(inst['ops'][1:], inst['scale']):
            i = self.val(st, f, o)
            w = width(o['t'])
            if w < 64:
                i = (sgn(i, w) & ((1 << 64) - 1)) if isc(i) else simp(z3.SignExt(64 - w, i))
            off = iop('add', off, iop('mul', i, sc & ((1 << 64) - 1), 64), 64)
        f.regs[inst['id']] = Ptr(p.obj, off)
        f.idx += 1

    def op_br(self, st, f, inst):
        s = inst['succ']
        if len(s) == 1:
            self.goto(st, f, s[0])
            return None
        c = self.val(st, f, inst['ops'][0])
        if c is UNDEF:
            c = self.fresh('i1', 'undef')
        c = tobool(c)
        if not isinstance(c, bool):
            c = simp(c)
        if isinstance(c, bool):
            self.goto(st, f, s[0] if c else s[1])
            return None
        return self.branch(st, [(c, s[0]), (z3.Not(c), s[1])])

    def op_switch(self, st, f, inst):
        v = self.val(st, f, inst['ops'][0])
        w = width(inst['ops'][0]['t'])
        if isc(v):
            for c, b in inst['cases']:
                if int(c['v']) == v:
                    self.goto(st, f, b)
                    return None
            self.goto(st, f, inst['default'])
            return None
        by = {}
        allc = []
        for c, b in inst['cases']:
            e = v == z3.BitVecVal(int(c['v']), w)
            by.setdefault(b, []).append(e)
            allc.append(e)
        conds = [(z3.Or(*es) if len(es) > 1 else es[0], b) for b, es in by.items()]
        d = inst['default']
        nd = z3.And(*[z3.Not(e) for e in allc])
        conds.append((nd, d))
        return self.branch(st, conds)

    def op_ret(self, st, f, inst):
        v = self.val(st, f, inst['ops'][0]) if inst['ops'] else None
        st.frames.pop()
        if len(st.frames) < self.base:
            raise Terminal('ret', st, v)
        g = st.frames[-1]
        self.after_call(st, f.inst, v)
        return None

    def op_unreachable(self, st, f, inst):
        raise PathEnd()

    def op_resume(self, st, f, inst):
        return self.unwind_frame(st)

    def op_landingpad(self, st, f, inst):
        exc = st.exc
        sel = None
        for cl in inst['clauses']:
            v = cl['v']
            if not cl['catch']:
                raise Unsupported('exception filter')
            if v['k'] == 'null':
                sel = 1000
                break
            ti = v['v']
            if exc.ti is None:
                raise Unsupported('exception of unknown type meets a typed handler')
            r = self.is_a(exc.ti, ti)
            if r is None:
                raise Unsupported('unknown exception hierarchy for ' + exc.ti)
            if r:
                sel = self.typeid(ti)
                break
        if sel is None:
            if inst['cleanup']:
                sel = 0
            else:
                return self.unwind_frame(st)
        f.regs[inst['id']] = [exc.ptr, sel]
        f.idx += 1

    def op_extractvalue(self, st, f, inst):
        v = self.val(st, f, inst['ops'][0])
        for i in inst['idx']:
            if v is UNDEF:
                break
            v = v[i]
        f.regs[inst['id']] = v
        f.idx += 1

    def op_insertvalue(self, st, f, inst):
        a = self.val(st, f, inst['ops'][0])
        v = self.val(st, f, inst['ops'][1])
        ty = inst['t']
        n = len(parse_struct(ty)[0])
        a = [UNDEF] * n if a is UNDEF else list(a)
        a[inst['idx'][0]] = v
        f.regs[inst['id']] = a
        f.idx += 1

    def op_select(self, st, f, inst):
        c = self.known(st, tobool(self.val(st, f, inst['ops'][0])))
        a, b = self.val(st, f, inst['ops'][1]), self.val(st, f, inst['ops'][2])
        if not isinstance(c, bool):
            c = simp(c)
        if isinstance(c, bool):
            f.regs[inst['id']] = a if c else b
        elif same(a, b):
            f.regs[inst['id']] = a
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            f.regs[inst['id']] = Ptr(a.obj, simp(z3.If(c, bv(a.off), bv(b.off))))
        elif isinstance(a, (Ptr, PInt, Undef)) or isinstance(b, (Ptr, PInt, Undef)):
            raise NeedSplit([(c, None), (z3.Not(c), None)])
        elif inst['t'] == 'i1':
            A = z3.BoolVal(a) if isinstance(a, bool) else a
            B = z3.BoolVal(b) if isinstance(b, bool) else b
            f.regs[inst['id']] = simp(z3.If(c, A, B))
        elif inst['t'][0] == 'i':
            w = width(inst['t'])
            f.regs[inst['id']] = simp(z3.If(c, bv(a, w), bv(b, w)))
        else:
            f.regs[inst['id']] = z3.If(c, a, b)
        f.idx += 1

    def op_icmp(self, st, f, inst):
        a, b = self.val(st, f, inst['ops'][0]), self.val(st, f, inst['ops'][1])
        ty = inst['ops'][0]['t']
        pred = inst['pred']
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, Ptr) and isc(b):
            b = Ptr(0, b)
        if isinstance(b, Ptr) and isc(a):
            a = Ptr(0, a)
        if ty == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            r = self.pcmp(st, pred, a, b)
        else:
            w = width(ty)
            if a is UNDEF:
                a = self.fresh(ty, 'undef')
            if b is UNDEF:
                b = self.fresh(ty, 'undef')
            r = icmp(pred, a, b, w)
        f.regs[inst['id']] = r
        f.idx += 1

    def pcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return self.fresh('i1', 'undef')
        if hasattr(a, 'gpcmp'):
            return a.gpcmp(self, st, pred, b)
        if hasattr(b, 'gpcmp'):
            return b.gpcmp(self, st, pred, a)
        if isinstance(a.obj, tuple) or isinstance(b.obj, tuple):
            return self.fam_cmp(st, pred, a, b)
        if a.obj == b.obj:
            return icmp(pred, a.off, b.off, 64)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        raise Unsupported('ordering of pointers to different objects')

    def known(self, st, c):
        if isinstance(c, bool):
            return c
        n = z3.Not(c)
        for x in st.pc:
            if x.eq(c):
                return True
            if x.eq(n):
                return False
        return c

    def op_freeze(self, st, f, inst):
        f.regs[inst['id']] = self.val(st, f, inst['ops'][0])
        f.idx += 1

    def conv(self, st, f, inst, fn):
        v = self.val(st, f, inst['ops'][0])
        f.regs[inst['id']] = fn(v, inst['ops'][0]['t'], inst['t'])
        f.idx += 1

    def op_zext(self, st, f, inst):
        def g(v, a, b):
            w, x = width(a), width(b)
            if v is UNDEF:
                v = self.fresh(a, 'undef')
            if a == 'i1':
                v = tobool(v)
                if isinstance(v, bool):
                    return int(v)
                return z3.If(v, z3.BitVecVal(1, x), z3.BitVecVal(0, x))
            return v if isc(v) else self.zx(st, v, w, x)
        self.conv(st, f, inst, g)

    def zx(self, st, v, w=32, x=64):
        """zero extension, distributed over sums and removed from truncations where that is provably the same value"""
        if isc(v):
            return v
        r = simp(z3.ZeroExt(x - w, v))
        if (w, x) != (32, 64) or isc(r):
            return r
        o = self.trunc_of.get(v.get_id())
        if o is not None and self.valid(st, z3.ULT(o[1], 1 << w), 3000)[0] == 'valid':
            return o[1]
        if v.decl().kind() == z3.Z3_OP_BADD:
            t = None
            for a in v.children():
                neg = False
                if z3.is_bv_value(a):
                    c = sgn(a.as_long(), w)
                    e = z3.BitVecVal(c, x)
                else:
                    if a.decl().kind() == z3.Z3_OP_BMUL and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == (1 << w) - 1:
                        neg, a = True, a.arg(1)
                    e = bv(self.zx(st, a, w, x), x)
                t = (-e if neg else e) if t is None else (t - e if neg else t + e)
            t = z3.simplify(t)
            if self.valid(st, z3.ZeroExt(x - w, v) == t, 3000)[0] == 'valid':
                return t
        return r

    def op_sext(self, st, f, inst):
        def g(v, a, b):
            w, x = width(a), width(b)
            if v is UNDEF:
                v = self.fresh(a, 'undef')
            if a == 'i1':
                v = tobool(v)
                if isinstance(v, bool):
                    return (1 << x) - 1 if v else 0
                return z3.If(v, z3.BitVecVal(-1, x), z3.BitVecVal(0, x))
            return sgn(v, w) & ((1 << x) - 1) if isc(v) else simp(z3.SignExt(x - w, v))
        self.conv(st, f, inst, g)

    def op_trunc(self, st, f, inst):
        def g(v, a, b):
            x = width(b)
            if v is UNDEF:
                return self.fresh(b, 'undef')
            if b == 'i1':
                return bool(v & 1) if isc(v) else simp(z3.Extract(0, 0, v) == 1)
            if isc(v):
                return v & ((1 << x) - 1)
            r = simp(z3.Extract(x - 1, 0, v))
            if x == 32 and not isc(r):
                self.trunc_of[r.get_id()] = (r, v)
            return r
        self.conv(st, f, inst, g)

    def op_bitcast(self, st, f, inst):
        def g(v, a, b):
            if a == b or (a == 'ptr' and b == 'ptr'):
                return v
            if b in FP and a[0] == 'i':
                return z3.fpBVToFP(bv(v, width(a)), FP[b])
            if a in FP and b[0] == 'i':
                return z3.fpToIEEEBV(v)
            raise Unsupported('bitcast')
        self.conv(st, f, inst, g)

    def op_ptrtoint(self, st, f, inst):
        self.conv(st, f, inst, lambda v, a, b: v.off if isinstance(v, Ptr) and v.obj == 0 else PInt(v))

    def op_inttoptr(self, st, f, inst):
        def g(v, a, b):
            if isinstance(v, PInt):
                return v.p
            if isc(v):
                return Ptr(0, v)
            raise Unsupported('inttoptr')
        self.conv(st, f, inst, g)

    def op_fpext(self, st, f, inst):
        self.conv(st, f, inst, lambda v, a, b: z3.simplify(z3.fpToFP(RNE, v, FP[b])))
    op_fptrunc = op_fpext

    def op_sitofp(self, st, f, inst):
        self.conv(st, f, inst, lambda v, a, b: z3.simplify(z3.fpSignedToFP(RNE, bv(v, width(a)), FP[b])))

    def op_uitofp(self, st, f, inst):
        self.conv(st, f, inst, lambda v, a, b: z3.simplify(z3.fpUnsignedToFP(RNE, bv(v, width(a)) if a != 'i1' else z3.If(toboolx(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), FP[b])))

    def op_fptosi(self, st, f, inst):
        # out of range: x86 returns the indefinite integer; the standard leaves it undefined -> arbitrary
        self.conv(st, f, inst, lambda v, a, b: self.fp2int(v, b, True))

    def op_fptoui(self, st, f, inst):
        self.conv(st, f, inst, lambda v, a, b: self.fp2int(v, b, False))

    def fp2int(self, v, b, signed):
        w = width(b)
        s = v.sort()
        if signed:
            inr = z3.And(z3.fpGEQ(v, z3.FPVal(-(2.0 ** (w - 1)), s)), z3.fpLT(v, z3.FPVal(2.0 ** (w - 1), s)))
            r = z3.fpToSBV(RTZ, v, z3.BitVecSort(w))
        else:
            inr = z3.And(z3.fpGT(v, z3.FPVal(-1.0, s)), z3.fpLT(v, z3.FPVal(2.0 ** w, s)))
            r = z3.fpToUBV(RTZ, v, z3.BitVecSort(w))
        r = z3.simplify(z3.If(inr, r, self.fresh(b, 'ovf')))
        return r.as_long() if z3.is_bv_value(r) else r

    def fbin(self, st, f, inst, fn):
        a, b = self.val(st, f, inst['ops'][0]), self.val(st, f, inst['ops'][1])
        f.regs[inst['id']] = z3.simplify(fn(a, b))
        f.idx += 1

    def op_fadd(self, st, f, inst):
        self.fbin(st, f, inst, lambda a, b: z3.fpAdd(RNE, a, b))

    def op_fsub(self, st, f, inst):
        self.fbin(st, f, inst, lambda a, b: z3.fpSub(RNE, a, b))

    def op_fmul(self, st, f, inst):
        self.fbin(st, f, inst, lambda a, b: z3.fpMul(RNE, a, b))

    def op_fdiv(self, st, f, inst):
        self.fbin(st, f, inst, lambda a, b: z3.fpDiv(RNE, a, b))

    def op_fneg(self, st, f, inst):
        a = self.val(st, f, inst['ops'][0])
        f.regs[inst['id']] = z3.fpNeg(a)
        f.idx += 1

    def op_fcmp(self, st, f, inst):
        a, b = self.val(st, f, inst['ops'][0]), self.val(st, f, inst['ops'][1])
        p = inst['pred']
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(x, y))), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if p == 'ord':
            r = z3.Not(nan)
        elif p == 'uno':
            r = nan
        elif p == 'une':
            r = z3.Not(z3.fpEQ(a, b))
        elif p[0] == 'o':
            r = base[p[1:]](a, b)
        else:
            r = z3.Or(nan, base[p[1:]](a, b))
        f.regs[inst['id']] = simp(r)
        f.idx += 1

    def op_call(self, st, f, inst):
        c = inst['callee']
        if c['k'] == 'g' and c['v'].startswith('llvm.'):
            return self.intrinsic(st, f, inst, c['v'])
        if c['k'] == 'asm':
            raise Unsupported('inline asm')
        args = [self.val(st, f, o) for o in inst['ops']]
        if c['k'] == 'g':
            n = self.P.aliases.get(c['v'], c['v'])
            callee = Ptr(self.gobj(st, n), 0)
        else:
            callee = self.val(st, f, c)
            if not isinstance(callee, Ptr) and hasattr(callee, 'gcall'):
                return self.finish_call(inst, callee.gcall(self, st, args, inst), st)
        return self.do_call(st, inst, args, callee)
    op_invoke = op_call

    def intrinsic(self, st, f, inst, name):
        a = [self.val(st, f, o) if o['k'] != 'md' else None for o in inst['ops']]
        r = None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if name.startswith('llvm.memcpy'):
                self.no_overlap(st, a[0], a[1], a[2])
            self.memcpy(st, a[0], a[1], a[2])
        elif name.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2])
        elif name.startswith('llvm.eh.typeid.for'):
            r = self.typeid(inst['ops'][0]['v'])
        elif name.startswith('llvm.umul.with.overflow'):
            w = width(inst['t'].split('@')[0][1:])
            x, y = a[0], a[1]
            if isc(x) and isc(y):
                r = [(x * y) & ((1 << w) - 1), x * y >= (1 << w)]
            else:
                r = [iop('mul', x, y, w), simp(z3.Not(z3.BVMulNoOverflow(bv(x, w), bv(y, w), False)))]
        elif name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore')):
            pass
        elif name.startswith('llvm.trap'):
            self.oblige(st, False, 'assert', 'trap')
            raise PathEnd()
        elif name.startswith(('llvm.floor', 'llvm.ceil', 'llvm.fabs', 'llvm.trunc', 'llvm.rint', 'llvm.round')):
            k = name.split('.')[1]
            x = a[0]
            r = {'floor': lambda: z3.fpRoundToIntegral(z3.RTN(), x), 'ceil': lambda: z3.fpRoundToIntegral(z3.RTP(), x),
                 'fabs': lambda: z3.fpAbs(x), 'trunc': lambda: z3.fpRoundToIntegral(RTZ, x), 'rint': lambda: z3.fpRoundToIntegral(RNE, x),
                 'round': lambda: z3.fpRoundToIntegral(z3.RNA(), x)}[k]()
        elif name.startswith('llvm.is.fpclass'):
            x, m = a[0], a[1]
            neg = z3.fpIsNegative(x)
            cl = []
            if m & 3 == 3:
                cl.append(z3.fpIsNaN(x))
            elif m & 3:
                raise Unsupported('signalling NaN test')
            for b0, b1, t in ((2, 9, z3.fpIsInf), (3, 8, z3.fpIsNormal), (4, 7, z3.fpIsSubnormal), (5, 6, z3.fpIsZero)):
                n, p = m >> b0 & 1, m >> b1 & 1
                if n and p:
                    cl.append(t(x))
                elif n:
                    cl.append(z3.And(t(x), neg))
                elif p:
                    cl.append(z3.And(t(x), z3.Not(neg)))
            r = simp(z3.Or(*cl)) if cl else False
        elif name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            w = width(inst['t'])
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[name.split('.')[1]]
            c = icmp(p, a[0], a[1], w)
            r = (a[0] if c else a[1]) if isinstance(c, bool) else simp(z3.If(c, bv(a[0], w), bv(a[1], w)))
        else:
            raise Unsupported('intrinsic ' + name)
        f.regs[inst['id']] = r
        f.idx += 1
        return None

    # ---------------------------------------------------------------- loops
    def do_loop(self, st, head, blocks, outer):
        depth = len(st.frames)
        if self.bounded is not None:
            f = st.frames[-1]
            key = ('iter', f.uid, head)
            if f.prev in blocks:
                n = st.ghost.get(key, 0) + 1
            else:
                n = 0
            st.ghost[key] = n
            if n > self.bounded:
                self.truncated += 1
                raise PathEnd()
            f.entered = head
            return [st]
        key = (st.frames[-1].fn.name, head)
        E = self
        # evaluate entry phis
        entry = st
        f = entry.frames[-1]
        phi_ids = [i['id'] for i in f.fn.blocks[head]['insts'] if i['op'] == 'phi']
        phi_ty = {i['id']: i['t'] for i in f.fn.blocks[head]['insts'] if i['op'] == 'phi'}
        self.phis(entry, f)
        from .loops import LoopCtx
        # exit decided by concrete values: execute the iteration as it is (complete, no invariant needed)
        it = ('iter', f.uid, head)
        if f.prev in blocks:
            conc = entry.ghost.get(it, False)
        else:
            conc = self.concrete_exits(entry, (depth, head, blocks), phi_ids)
        if conc:
            entry.ghost[it] = True
            entry.frames[-1].entered = head if not phi_ids else None
            return [entry]
        entry.ghost.pop(it, None)
        lc = LoopCtx(self, entry, depth, head, blocks, phi_ids, phi_ty)
        return lc.solve(outer)

    def concrete_exits(self, entry, loop, phi_ids):
        """trial run of the whole loop: does every iteration (at most 64) leave or stay by decided conditions?"""
        saved = self.exit_watch
        self.exit_watch = [loop, False]
        self.mute += 1
        try:
            work = [entry.copy()]
            for k in range(64):
                for t in work:
                    t.frames[-1].entered = loop[1] if not phi_ids else None
                work = [t for kind, t, _ in self.explore(work, loop) if kind == 'back']
                if not work:
                    return True
                if len(work) > self.trial_width:
                    return False
                for t in work:
                    self.phis(t, t.frames[-1])
            return False
        except SymbolicExit:
            return False
        finally:
            self.mute -= 1
            self.exit_watch = saved

    exit_watch = None
    trial_width = 64
    focus = None          # property under check: obligations of other properties are left to their own checks
    deferred = 0

    # families: obj = ('fam', handler, idx)
    def fam_load(self, st, p, size, ty):
        return p.obj[1].load(self, st, p, size, ty)

    def fam_store(self, st, p, size, v, ty):
        return p.obj[1].store(self, st, p, size, v, ty)

    def fam_cmp(self, st, pred, a, b):
        if isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and a.obj[1] is b.obj[1]:
            if same(a.obj[2], b.obj[2]):
                return icmp(pred, a.off, b.off, 64)
            raise Unsupported('comparison across family members')
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        raise Unsupported('family pointer ordering')


def toboolx(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def simp2(e):
    return z3.simplify(e)


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


class NeedSplit(Exception):
    def __init__(self, cases):
        self.cases = cases


class SymbolicExit(Exception):
    pass


class Terminal(Exception):
    def __init__(self, kind, st, val):
        self.kind = kind
        self.st = st
        self.val = val


class Out:
    """outcome of a modelled call"""
    __slots__ = ('st', 'val', 'exc')

    def __init__(self, st, val=None, exc=None):
        self.st = st
        self.val = val
        self.exc = exc


class Call:
    __slots__ = ('E', 'inst', 'name', 'dem')

    def __init__(self, E, inst, name, dem):
        self.E = E
        self.inst = inst
        self.name = name
        self.dem = dem


Engine.struct_sizes = {}
Engine.struct_regs = lambda self, n: tuple((s, k, self.fresh('arr', 'fld')) for s, k in self.struct_sizes[n])
