"""Trusted models of libc / C++ runtime functions (assumptions; listed in evidence)."""
import re
import z3
from . import theory as T
from .theory import bv
from .engine import *

MODELS = []


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx + r'\Z'), f))
        return f
    return d


@model(r'malloc')
def m_malloc(E, st, a, call):
    n = a[0]
    return E.new_obj(st, 'heap', size=n, heap=True, regs=((0, n, E.fresh('arr', 'heap')),) if not (isc(n) and n in E.struct_sizes) else E.struct_regs(n))


@model(r'realloc')
def m_realloc(E, st, a, call):
    p, n = a
    if p.obj == 0:
        return m_malloc(E, st, [n], call)
    oc = st.mem[p.obj]
    inf = E.objs[p.obj]
    E.oblige(st, bool(inf.heap) and isc(p.off) and p.off == 0, 'memory', 'realloc of a pointer not from malloc')
    if not oc.regs:
        raise Unsupported('realloc of structured object')
    s, old, arr = oc.regs[0]
    m = simp2(z3.If(z3.ULE(bv(old), bv(n)), bv(old), bv(n)))
    na = T.acopy(E.fresh('arr', 'heap'), bv(0), arr, bv(0), m)
    c = oc.copy()
    c.freed = True
    st.mem[p.obj] = c
    return E.new_obj(st, 'heap', size=n, heap=True, regs=((0, n, na),))


@model(r'free|operator delete\(void\*(, unsigned long)?\)|operator delete\[\]\(void\*(, unsigned long)?\)')
def m_free(E, st, a, call):
    p = a[0]
    if p.obj == 0:
        return None
    inf = E.objs[p.obj]
    if st.mem[p.obj].freed:
        E.oblige(st, False, 'memory', 'double free')
        raise PathEnd()
    E.oblige(st, bool(inf.heap) and isc(p.off) and p.off == 0, 'memory', 'free of a pointer not from malloc')
    c = st.mem[p.obj].copy()
    c.freed = True
    st.mem[p.obj] = c
    return None


@model(r'operator new\(unsigned long\)|operator new\[\]\(unsigned long\)')
def m_new(E, st, a, call):
    n = a[0]
    if isc(n):
        return E.new_obj(st, 'new%d' % n, size=n, heap=True)
    return E.new_obj(st, 'newarr', size=n, heap=True, regs=((0, n, E.fresh('arr', 'heap')),))


@model(r'__assert_fail')
def m_assert(E, st, a, call):
    E.oblige(st, False, 'assert', 'assertion reachable')
    raise PathEnd()


@model(r'abort|std::terminate\(\)|__clang_call_terminate')
def m_abort(E, st, a, call):
    E.oblige(st, False, 'assert', 'abort reachable')
    raise PathEnd()


@model(r'localeconv')
def m_localeconv(E, st, a, call):
    dp = E.buffer(st, 'decimal_point', 2)
    return E.new_obj(st, 'lconv', size=96, init='sym', cells={0: (8, dp)})


@model(r'__cxa_allocate_exception')
def m_exalloc(E, st, a, call):
    return E.new_obj(st, 'exception', size=a[0] if isc(a[0]) else None, heap=True)


@model(r'__cxa_free_exception')
def m_exfree(E, st, a, call):
    return None


@model(r'__cxa_throw')
def m_throw(E, st, a, call):
    ti = E.objs[a[1].obj].name
    return [Out(st, exc=Exc(ti, a[0], st.ghost.get(('excinfo', a[0].obj))))]


@model(r'__cxa_begin_catch')
def m_begin(E, st, a, call):
    st.caught = st.caught + [st.exc]
    return a[0]


@model(r'__cxa_end_catch')
def m_end(E, st, a, call):
    st.caught = st.caught[:-1]
    return None


@model(r'__cxa_rethrow')
def m_rethrow(E, st, a, call):
    return [Out(st, exc=st.caught[-1])]


@model(r'__cxa_get_exception_ptr')
def m_getexc(E, st, a, call):
    return a[0]


@model(r'__cxa_guard_acquire')
def m_ga(E, st, a, call):
    return 1


@model(r'__cxa_guard_release|__cxa_guard_abort|__cxa_atexit')
def m_gr(E, st, a, call):
    return 0


@model(r'__errno_location')
def m_errno(E, st, a, call):
    k = ('errno',)
    if k not in st.ghost:
        st.ghost[k] = E.new_obj(st, 'errno', size=4, init='sym')
    return st.ghost[k]


@model(r'memcpy|memmove')
def m_memcpy(E, st, a, call):
    if call.dem == 'memcpy':
        E.no_overlap(st, a[0], a[1], a[2])
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model(r'memset')
def m_memset(E, st, a, call):
    E.memset(st, a[0], iop('and', a[1], 255, 32) if isc(a[1]) else z3.Extract(7, 0, a[1]), a[2])
    return a[0]


def setup(E):
    from . import models_cxx
    E.patterns.extend(MODELS)
    models_cxx.setup(E)
