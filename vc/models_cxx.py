"""Trusted models of the C++ standard library (assumptions; listed in evidence).

std::string is a ghost value (GStr: a Bytes term) kept at the address of the string object.
std::vector of plain data keeps its real layout {begin, end, end of storage}; only the functions that allocate are modelled.
"""
import re
import z3
from . import theory as T
from .theory import bv, nil, snoc, cat, app, blen
from .engine import *

MODELS = []
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
OSS = r'std::__cxx11::basic_(o|i)?stringstream<char, std::char_traits<char>, std::allocator<char>>'


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx + r'\Z'), f))
        return f
    return d


def esc(s):
    return re.escape(s)


class GStr:
    """contents of a std::string"""
    SIZE = 32

    def __init__(self, b):
        self.b = b

    def gsame(self, o):
        return isinstance(o, GStr) and self.b.eq(o.b)

    def havoc(self, E, st, name, others):
        return GStr(E.fresh('bytes', name))

    @classmethod
    def symbolic(cls, E, st, name):
        return GStr(z3.Const(name + '_text', T.Bytes))

    def __repr__(self):
        return 'GStr(%s)' % self.b


def region_of(E, st, p):
    """(array, offset) behind a byte pointer; constant cells are turned into an array"""
    k = E.find_region(st, p, 1)
    if k is not None:
        s0, n, a = st.mem[p.obj].regs[k]
        return a, bv(iop('sub', p.off, s0, 64))
    inf = E.objs[p.obj]
    if isc(inf.size) and inf.size <= 4096:
        a = z3.K(T.BV64, z3.BitVecVal(0, 8))
        for i in range(inf.size):
            a = z3.Store(a, bv(i), bv(E.load(st, Ptr(p.obj, i), 1, 'i8'), 8))
        return a, bv(p.off)
    raise Unsupported('byte view of %s' % inf.name)


def cstring(E, st, p):
    """Bytes of the C string at p"""
    if p.obj == 0:
        E.oblige(st, False, 'memory', 'null C string')
        raise PathEnd()
    inf = E.objs[p.obj]
    if p.obj not in st.mem:
        E.check_access(st, p, 1, 'read')
    if isc(p.off) and not st.mem[p.obj].regs and isc(inf.size):
        out = b''
        o = p.off
        while o < inf.size:
            c = E.load(st, Ptr(p.obj, o), 1, 'i8')
            if not isc(c):
                break
            if c == 0:
                return T.lit(out)
            out += bytes([c])
            o += 1
    if hasattr(inf.data, 'cstr_of'):
        if isc(p.off) and p.off == 0:
            return inf.data.cstr_of
    a, o = region_of(E, st, p)
    return T.cstr(a, o)


class StrData:
    """marks the read-only view of a string's characters"""

    def __init__(self, b):
        self.b = b


def str_view(E, st, b):
    """pointer to the characters of a string with contents b, NUL terminated"""
    n = blen(b)
    p = E.new_obj(st, 'characters', size=simp2(n + 1), const=True, data=StrData(b))
    st.mem[p.obj] = OC({}, ((0, E.objs[p.obj].size, z3.Store(T.arrof(b), n, z3.BitVecVal(0, 8))),))
    return p


def span(E, st, p, n):
    """Bytes of n characters at p"""
    n = simp2(bv(n))
    if z3.is_bv_value(n) and n.as_long() == 0:
        return nil
    E.check_access(st, p, n if not z3.is_bv_value(n) else n.as_long(), 'read')
    inf = E.objs[p.obj]
    if isinstance(inf.data, StrData) and isc(p.off) and p.off == 0 and simp2(blen(inf.data.b)).eq(n):
        return inf.data.b
    a, o = region_of(E, st, p)
    return cat(nil, a, o, n)


# ------------------------------------------------------------------ messages
@model(OSS + r'::basic_(o|i)?stringstream\(\)')
def m_oss(E, st, a, call):
    return None


@model(OSS + r'::~basic_(o|i)?stringstream\(\)')
def m_ossd(E, st, a, call):
    return None


@model(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<<<.*>\(std::basic_ostream<char, std::char_traits<char>>&, .*\)')
def m_ins(E, st, a, call):
    return a[0]


@model(r'std::basic_ostream<char, std::char_traits<char>>::operator<<\(.*\)')
def m_ins2(E, st, a, call):
    return a[0]


@model(OSS + r'::str\(\) const')
def m_ossstr(E, st, a, call):
    E.gput(st, a[0], GStr(E.fresh('bytes', 'message')))
    return None


@model(r'strerror')
def m_strerror(E, st, a, call):
    return str_view(E, st, E.fresh('bytes', 'strerror'))


@model(r'std::(runtime_error|logic_error|length_error|out_of_range|invalid_argument|domain_error|range_error|overflow_error)::(~)?\w+\(.*\)')
def m_exc(E, st, a, call):
    return None


@model(r'std::exception::(~)?exception\(.*\)')
def m_exc0(E, st, a, call):
    return None


# ------------------------------------------------------------------ allocators
@model(r'std::(__new_)?allocator<.*>::(~)?(__new_)?allocator\(.*\)')
def m_alloc(E, st, a, call):
    return None


# ------------------------------------------------------------------ std::string
@model(STR + r'::~basic_string\(\)')
def s_dtor(E, st, a, call):
    return None


@model(STR + r'::basic_string\((std::allocator<char> const&)?\)')
def s_ctor0(E, st, a, call):
    E.gput(st, a[0], GStr(nil))


@model(STR + r'::basic_string\((' + STR + r' const&|' + STR + r'&&)\)')
def s_copy(E, st, a, call):
    g = E.gget(st, a[1], GStr)
    E.gput(st, a[0], GStr(g.b))
    if '&&' in call.dem and a[1] != a[0]:
        E.gput(st, a[1], GStr(E.fresh('bytes', 'moved')))


@model(STR + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)')
def s_cstr(E, st, a, call):
    E.gput(st, a[0], GStr(cstring(E, st, a[1])))


@model(STR + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)')
def s_span(E, st, a, call):
    E.gput(st, a[0], GStr(span(E, st, a[1], a[2])))


@model(STR + r'::operator=\((' + STR + r' const&|' + STR + r'&&)\)')
def s_assign(E, st, a, call):
    g = E.gget(st, a[1], GStr)
    E.gput(st, a[0], GStr(g.b))
    if '&&' in call.dem and a[1] != a[0]:
        E.gput(st, a[1], GStr(E.fresh('bytes', 'moved')))
    return a[0]


@model(STR + r'::(operator=|assign)\(char const\*\)')
def s_assign_c(E, st, a, call):
    E.gput(st, a[0], GStr(cstring(E, st, a[1])))
    return a[0]


@model(STR + r'::(size|length)\(\) const')
def s_size(E, st, a, call):
    return simp(blen(E.gget(st, a[0], GStr).b))


@model(STR + r'::empty\(\) const')
def s_empty(E, st, a, call):
    return simp(E.gget(st, a[0], GStr).b == nil)


@model(STR + r'::(c_str|data)\(\)( const)?')
def s_cs(E, st, a, call):
    return str_view(E, st, E.gget(st, a[0], GStr).b)


@model(STR + r'::clear\(\)')
def s_clear(E, st, a, call):
    E.gput(st, a[0], GStr(nil))


@model(STR + r'::(push_back|operator\+=)\(char\)')
def s_push(E, st, a, call):
    g = E.gget(st, a[0], GStr)
    E.gput(st, a[0], GStr(snoc(g.b, bv(a[1], 8))))
    return a[0]


@model(STR + r'::(append|operator\+=)\(' + STR + r' const&\)')
def s_app(E, st, a, call):
    g, h = E.gget(st, a[0], GStr), E.gget(st, a[1], GStr)
    E.gput(st, a[0], GStr(app(g.b, h.b)))
    return a[0]


@model(STR + r'::(append|operator\+=)\(char const\*\)')
def s_appc(E, st, a, call):
    g = E.gget(st, a[0], GStr)
    E.gput(st, a[0], GStr(app(g.b, cstring(E, st, a[1]))))
    return a[0]


@model(STR + r'::append\(char const\*, unsigned long\)')
def s_appn(E, st, a, call):
    g = E.gget(st, a[0], GStr)
    E.gput(st, a[0], GStr(app(g.b, span(E, st, a[1], a[2]))))
    return a[0]


# ------------------------------------------------------------------ std::vector<char>
@model(r'std::vector<(unsigned )?char, .*>::vector\(unsigned long, std::allocator<(unsigned )?char> const&\)')
def v_ctor_n(E, st, a, call):
    n = simp2(bv(a[1]))
    p = E.new_obj(st, 'vector data', size=n if not z3.is_bv_value(n) else n.as_long(), heap=True)
    st.mem[p.obj] = OC({}, ((0, E.objs[p.obj].size, z3.K(T.BV64, z3.BitVecVal(0, 8))),))
    E.put(st, a[0], 8, p)
    e = E.padd(p, E.objs[p.obj].size)
    E.put(st, E.padd(a[0], 8), 8, e)
    E.put(st, E.padd(a[0], 16), 8, e)


@model(r'std::vector<(unsigned )?char, .*>::~vector\(\)')
def v_dtor(E, st, a, call):
    p = E.load(st, a[0], 8, 'ptr')
    if isinstance(p, Ptr) and p.obj:
        c = st.mem[p.obj].copy()
        if c.freed:
            E.oblige(st, False, 'memory', 'double free of vector data')
            raise PathEnd()
        c.freed = True
        st.mem[p.obj] = c


@model(r'(void std::swap<.*>\(|)std::vector<.*>&, std::vector<.*>&\)')
def v_swap(E, st, a, call):
    x = [E.load(st, E.padd(a[0], i), 8, 'ptr') for i in (0, 8, 16)]
    y = [E.load(st, E.padd(a[1], i), 8, 'ptr') for i in (0, 8, 16)]
    for i in range(3):
        E.put(st, E.padd(a[0], 8 * i), 8, y[i])
        E.put(st, E.padd(a[1], 8 * i), 8, x[i])


@model(r'std::vector<.*>::swap\(std::vector<.*>&\)')
def v_swap2(E, st, a, call):
    return v_swap(E, st, a, call)


def setup(E):
    E.patterns.extend(MODELS)
