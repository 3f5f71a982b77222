"""Contracts for Blob (src/Blob.cc): the data of a blob is the concatenation of its buffers."""
import z3
from .. import theory as T
from ..theory import bv
from ..engine import *
from ..lib import *
from ..iov import view, z64

TU = ['src/Blob.cc']
NS = 'libvariant::'
PID = 'P08'
CLS = NS + 'Blob'
LIMIT = 1 << 32        # lengths are 32 bit numbers


def blob(E, st, tag, ffunc=None, ctx=None):
    v = view(tag)
    arr = v.make(E, st, LIMIT, 'iov' + tag)
    end = E.padd(arr, simp2(z64(v.n) * 16))
    b = E.new_obj(st, 'blob' + tag, size=E.P.types[CLS]['size'], cells={
        0: (8, arr), 8: (8, end), 16: (8, end), 24: (8, ffunc if ffunc is not None else NULL), 32: (8, ctx if ctx is not None else NULL)})
    return v, b


def i32s(E, L):
    """32 bit quantities of the loop's function that a loop changes, and those fixed before it"""
    fr = L.depth - 1
    return [i for i in L.phi_ids if L.phi_ty[i] == 'i32'], (lambda i: (lambda s: bv(s.frames[fr].regs[i], 32)))


def verify_total(E):
    st = State()
    v, b = blob(E, st, 'A')

    def t(E, L):
        ids, get = i32s(E, L)
        return [('sum of the lengths before', lambda s, x=x, y=y: z3.And(z64(get(x)(s)) == v.S(get(y)(s)), z3.ULE(get(y)(s), v.n)))
                for x in ids for y in ids if x != y]
    E.loop_templates.append(t)
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(CLS + '::GetTotalLength() const')[0], st, [b]):
        E.oblige(s, z3.And(kind == 'ret', z64(r) == v.total), PID, 'GetTotalLength: the length of all data')


def verify_compare(E):
    E.solvers = E.SUMS
    st = State()
    A, a = blob(E, st, 'A')
    B, b = blob(E, st, 'B')
    sp = E.new_obj(st, 'other', size=16, cells={0: (8, b), 8: (8, NULL)})
    J = z3.BitVec('J', 64)
    agree = lambda p: z3.Implies(z3.ULT(J, p), T.sel(A.D, J) == T.sel(B.D, J))

    def memcmp(E, st, args, call):
        x, y, n = args
        if not isinstance(x.obj, tuple) or not isinstance(y.obj, tuple):
            raise Unsupported('memcmp')
        X, xo = x.obj[1].range(E, st, x, n)
        Y, yo = y.obj[1].range(E, st, y, n)
        n = bv(n)
        p = st.ghost['compared']
        E.oblige(st, z3.And(xo == p, yo == p), PID, 'Compare: compares the bytes at one position after the other')
        r = E.fresh('i32', 'memcmp')
        k = E.fresh('i64', 'differ')
        # equal up to the first difference; the sign is that of the difference as unsigned bytes
        up = z3.If(r == 0, n, k)
        st.assume(z3.Implies(r != 0, z3.And(z3.ULT(k, n), z3.If(r > 0, z3.UGT(T.sel(X, p + k), T.sel(Y, p + k)), z3.ULT(T.sel(X, p + k), T.sel(Y, p + k))))))
        st.assume(z3.Implies(z3.ULT(J - p, up), T.sel(X, J) == T.sel(Y, J)))
        st.ghost[('old', 'witness')] = (r, p + k)
        st.ghost['compared'] = simp2(p + n)
        return r
    E.summaries['memcmp'] = memcmp
    st.ghost['compared'] = bv(0)      # bytes compared so far

    def t(E, L):
        ids, get = i32s(E, L)
        res = []
        E0 = L.entry

        def ok(v, i, o):
            return lambda s: z3.And(z3.ULE(i(s), v.n), z3.Implies(z3.ULT(i(s), v.n), z3.Or(o(s) == 0, z3.ULT(z64(o(s)), v.LEN(i(s))))), z3.Implies(i(s) == v.n, o(s) == 0))

        def pos(v, i, o):
            return lambda s: v.S(i(s)) + z64(o(s))
        if len(ids) >= 4:
            prs = [(x, y) for x in ids for y in ids if x != y]
            for v in (A, B):
                for x, y in prs:
                    res.append(('position %s.%d.%d' % (v.tag, x, y), ok(v, get(x), get(y))))
            for v in (A, B):
                for x, y in prs:
                    p = pos(v, get(x), get(y))
                    res.append(('position %s.%d.%d is where the comparison stands' % (v.tag, x, y), lambda s, p=p: p(s) == s.ghost['compared']))
            res.append(('all data compared is equal', lambda s: agree(s.ghost['compared'])))
        else:
            for x in ids:
                for v in (A, B):
                    f = get(x)
                    x0 = f(E0)
                    res.append(('no data skipped %s' % v.tag, lambda s, f=f, v=v, x0=x0: z3.And(v.S(f(s)) == v.S(x0), z3.ULE(f(s), v.n))))
                    res.append(('only empty skipped %s' % v.tag, lambda s, f=f, v=v, x0=x0: z3.Or(f(s) == x0, v.LEN(x0) == 0)))
        return res
    E.loop_templates.append(t)
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(CLS + '::Compare(std::shared_ptr<libvariant::Blob const>) const')[0], st, [a, sp]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        if kind != 'ret':
            continue
        E.cover(s, 'returns')
        R = bv(r, 32)
        E.oblige(s, z3.Implies(R == 0, z3.And(A.total == B.total, agree(A.total))), PID, 'Compare: zero only for equal data')
        w = s.ghost.get(('old', 'witness'))
        diff = z3.BoolVal(False)
        if w is not None:
            k = w[1]
            x, y = T.sel(A.D, k), T.sel(B.D, k)
            diff = z3.And(z3.ULT(k, A.total), z3.ULT(k, B.total), agree(k), z3.If(R > 0, z3.UGT(x, y), z3.ULT(x, y)))
        short = z3.If(R > 0, z3.And(z3.ULT(B.total, A.total), agree(B.total)), z3.And(z3.ULT(A.total, B.total), agree(A.total)))
        E.oblige(s, z3.Implies(R != 0, z3.Or(diff, short)), PID, 'Compare: the order is that of the data')


def sp_models(E):
    """shared_ptr that takes over a new object (trusted: it deletes it when the last owner goes)"""
    def take(E, st, a, call):
        E.put(st, a[0], 8, a[1])
        E.put(st, E.padd(a[0], 8), 8, NULL)
    pattern(E, r'std::shared_ptr<libvariant::Blob>::shared_ptr<libvariant::Blob, void>\(libvariant::Blob\*\)', take)


def ctor_contract(E, check):
    E.blob_check = check

    def ctor(E, st, a, call):
        E.blob_check(E, st, a)
        st.ghost['made'] = (a[0],)
    E.summaries[CLS + '::Blob(iovec*, unsigned int, void (*)(void*, void*), void*)'] = ctor


def fn_of(E, p):
    return E.objs[p.obj].name if isinstance(p, Ptr) and p.obj in E.objs else None


def verify_copy(E):
    """CreateCopy: one new buffer with all data, freed with free()"""
    st = State()
    v = view('A')
    arr = v.make(E, st, LIMIT)
    J = z3.BitVec('J', 64)
    sp_models(E)

    def memalign(E, st, a, call):
        n = bv(a[2])
        fail = st.copy()
        p = E.new_obj(st, 'aligned', size=n, heap=True)
        st.mem[p.obj] = OC({}, ((0, n, E.fresh('arr', 'aligned')),))
        st.ghost['mem'] = (p,)
        E.store(st, a[0], 8, p, 'ptr')
        return [Out(st, 0), Out(fail, 12)]
    E.summaries['posix_memalign'] = memalign

    def t(E, L):
        ids, get = i32s(E, L)
        res = []
        for x in ids:
            for y in ids:
                if x == y:
                    continue
                res.append(('sum of the lengths before', lambda s, x=x, y=y: z3.And(z64(get(x)(s)) == v.S(get(y)(s)), z3.ULE(get(y)(s), v.n))))
        m = L.entry.ghost.get('mem')
        if m:
            for x in ids:
                res.append(('everything before is copied', lambda s, x=x: z3.Implies(z3.ULT(J, z64(get(x)(s))), T.sel(s.mem[m[0].obj].regs[0][2], J) == T.sel(v.D, J))))
        return res
    E.loop_templates.append(t)

    def check(E, st, a):
        m = st.ghost['mem'][0]
        E.oblige(st, z3.And(bv(a[2], 32) == 1, same(E.load(st, a[1], 8, 'ptr'), m), bv(E.load(st, E.padd(a[1], 8), 8, 'i64')) == v.total), PID,
                 'CreateCopy: the copy has the length of the data')
        E.oblige(st, z3.Implies(z3.ULT(J, v.total), T.sel(st.mem[m.obj].regs[0][2], J) == T.sel(v.D, J)), PID, 'CreateCopy: the copy has the data')
        E.oblige(st, fn_is(E, a[3], 'MallocFree'), PID, 'CreateCopy: the copy is freed with the blob')
    ctor_contract(E, check)
    res = E.new_obj(st, 'result', size=16)
    E.cover(st, 'precondition')
    for kind, s, r in E.run_function(E.P.find(CLS + '::CreateCopy(iovec const*, unsigned int)')[0], st, [res, arr, v.n]):
        if kind == 'exc':
            E.oblige(s, 'mem' not in s.ghost, PID, 'CreateCopy: fails only without memory')
            continue
        E.cover(s, 'returns')
        E.oblige(s, same(E.load(s, res, 8, 'ptr'), s.ghost.get('made', (None,))[0]), PID, 'CreateCopy: returns the copy')


def fn_is(E, p, name):
    n = fn_of(E, p)
    return n is not None and name in n


def verify_creates(E):
    """the other ways to create a blob hand on the buffers and the right free function"""
    for sig, ff in (('Create(iovec*, unsigned int, void (*)(void*, void*), void*)', 'given'), ('CreateFree(iovec*, unsigned int)', 'MallocFree'),
                    ('CreateReferenced(iovec*, unsigned int)', None)):
        for single in (False, True):
            st = State()
            sp_models(E)
            v = view('A')
            arr = v.make(E, st, LIMIT)
            mem = E.new_obj(st, 'mem', size=None)
            n = z3.BitVec('len', 32)
            fp = E.new_obj(st, 'free function', kind='afn', handler=lambda E, st, a, i: None, size=0)
            ctx = E.new_obj(st, 'ctx', size=None)
            name = sig.split('(')[0]

            def check(E, st, a, single=single, ff=ff, name=name, arr=arr, mem=mem, n=n, fp=fp, ctx=ctx, v=v):
                if single:
                    E.oblige(st, z3.And(bv(a[2], 32) == 1, same(E.load(st, a[1], 8, 'ptr'), mem), bv(E.load(st, E.padd(a[1], 8), 8, 'i64')) == z64(n)), PID, name + ': the buffer as given')
                else:
                    E.oblige(st, z3.And(same(a[1], arr), bv(a[2], 32) == v.n), PID, name + ': the buffers as given')
                if ff == 'given':
                    E.oblige(st, z3.And(same(a[3], fp), same(a[4], ctx)), PID, name + ': the free function as given')
                elif ff:
                    E.oblige(st, fn_is(E, a[3], ff), PID, name + ': buffers are freed')
                else:
                    E.oblige(st, isinstance(a[3], Ptr) and a[3].obj == 0, PID, name + ': buffers are not freed')
            ctor_contract(E, check)
            res = E.new_obj(st, 'result', size=16)
            args = [res] + ([mem, n] if single else [arr, v.n]) + ([fp, ctx] if ff == 'given' else [])
            s2 = sig.replace('iovec*', 'void*', 1) if single else sig
            for kind, s, r in E.run_function(E.P.find(CLS + '::' + s2)[0], st, args):
                E.oblige(s, kind == 'ret' and same(E.load(s, res, 8, 'ptr'), s.ghost.get('made', (None,))[0]), PID, name + ': returns the blob')


def verify_ctor(E):
    st = State()
    v = view('A')
    arr = v.make(E, st, LIMIT)
    fp = E.new_obj(st, 'free function', kind='afn', handler=lambda E, st, a, i: None, size=0)
    ctx = E.new_obj(st, 'ctx', size=None)

    def rng(E, st, a, call):
        # trusted: a vector made from a range holds copies of its elements
        E.oblige(st, z3.And(same(a[1], arr), same(a[2].obj, arr.obj), bv(a[2].off) == z64(v.n) * 16), PID, 'Blob: all buffers are kept')
        st.ghost['vec'] = (a[0],)
    pattern(E, r'std::vector<iovec, .*>::vector<iovec\*, void>\(.*\)', rng)
    b = E.new_obj(st, 'blob', size=E.P.types[CLS]['size'])
    for kind, s, r in E.run_function(E.P.find(CLS + '::Blob(iovec*, unsigned int, void (*)(void*, void*), void*)')[0], st, [b, arr, v.n, fp, ctx]):
        F = Fields(E, CLS, b)
        E.oblige(s, kind == 'ret' and 'vec' in s.ghost and same(s.ghost['vec'][0], F.ptr('iov')), PID, 'Blob: keeps its buffers')
        E.oblige(s, z3.And(same(F.get(s, 'free_func', 'ptr'), fp), same(F.get(s, 'ctx', 'ptr'), ctx)), PID, 'Blob: keeps the free function')


def verify_dtor(E):
    for given in (True, False):
        st = State()
        ctx = E.new_obj(st, 'ctx', size=None)

        def free_func(E, st, a, inst):
            k = st.ghost['freed']
            p = a[0]
            ok = isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[1] is v.bufs
            E.oblige(st, z3.And(ok, p.obj[2] == k if ok else False, bv(p.off) == 0, z3.ULT(k, v.n)), PID, '~Blob: every buffer is freed once')
            E.oblige(st, same(a[1], ctx), PID, '~Blob: the context is passed on')
            st.ghost['freed'] = simp2(k + 1)
        fp = E.new_obj(st, 'free function', kind='afn', handler=free_func, size=0) if given else NULL
        v, b = blob(E, st, 'A', fp, ctx)
        st.ghost['freed'] = bv(0, 32)

        def t(E, L):
            ids, get = i32s(E, L)
            return [('as many freed as passed', lambda s, x=x: z3.And(s.ghost['freed'] == get(x)(s), z3.ULE(get(x)(s), v.n))) for x in ids]
        E.loop_templates.append(t)
        pattern(E, r'std::vector<iovec, .*>::(clear|~vector)\(\)', lambda E, st, a, call: None)
        E.cover(st, 'precondition')
        for kind, s, r in E.run_function(E.P.find(CLS + '::~Blob()')[0], st, [b]):
            E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
            E.oblige(s, s.ghost['freed'] == (v.n if given else 0), PID, '~Blob: no buffer is left')


def tasks(P, tier):
    from ..run import Task
    t = lambda name, fn, funcs: Task(name, fn, props=(PID,), safety=PID, funcs=[CLS + '::' + f for f in funcs])
    return [t('Blob::GetTotalLength', verify_total, ['GetTotalLength']),
            t('Blob::Compare', verify_compare, ['Compare', 'GetNumBuffers', 'GetLength', 'GetPtr']),
            t('Blob::CreateCopy', verify_copy, ['CreateCopy']),
            t('Blob creation', verify_creates, ['Create', 'CreateFree', 'CreateReferenced']),
            t('Blob constructor', verify_ctor, ['Blob']),
            t('Blob destructor', verify_dtor, ['~Blob'])]
