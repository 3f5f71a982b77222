"""Building blocks for contracts: abstract objects, ghost containers, views."""
import re
import z3
from . import theory as T
from .theory import bv, nil, snoc, cat
from .engine import *


def const_cstr(E, st, p):
    out = b''
    while True:
        c = E.load(st, E.padd(p, len(out)), 1, 'i8')
        if not isc(c):
            raise Unsupported('non-constant C string')
        if c == 0:
            return out
        out += bytes([c])


def abstract_vtable(E, st, cls, handlers):
    """vtable object for class cls: virtual methods (by demangled name regex) -> contract handlers(E, st, args, inst)"""
    virt = E.P.types[cls]['virt']
    cells = {}
    for k, dem in virt.items():
        for rx, h in handlers.items():
            if re.search(rx, dem):
                fo = E.new_obj(st, 'contract of ' + dem, kind='afn', handler=h, size=0)
                cells[int(k) * 8] = (8, fo)
                break
    return E.new_obj(st, 'vtable for ' + cls, size=None, cells=cells, const=True)


def abstract_object(E, st, cls, handlers, name=None, **k):
    vt = abstract_vtable(E, st, cls, handlers)
    return E.new_obj(st, name or cls, size=None, cells={0: (8, vt)}, **k)


class Fields:
    """named access to the fields of a class instance, offsets from the debug information"""

    def __init__(self, E, cls, p):
        self.E, self.cls, self.p = E, cls, p
        self.m = {m[0]: m for m in E.P.types[cls]['members']}

    def ptr(self, n):
        return self.E.padd(self.p, self.m[n][1])

    def get(self, st, n, ty=None):
        m = self.m[n]
        if ty is None:
            ty = 'ptr' if m[3] == '*' else 'i1' if m[3] == 'bool' and False else 'double' if m[3] == 'double' else 'i%d' % (8 * m[2])
        return self.E.load(st, self.ptr(n), m[2] if ty != 'ptr' else 8, ty)

    def put(self, st, n, v, size=None):
        self.E.put(st, self.ptr(n), size or self.m[n][2], v)

    def term(self, st, n):
        return bv(self.get(st, n), 8 * self.m[n][2])


def enum(P, cls, name):
    for m in P.types[cls]['members']:
        if m[0] == name:
            return m[1]
    raise KeyError(name)


class GDeque:
    """std::deque of which only the number of elements matters"""
    SIZE = 80

    def __init__(self, n, back=None):
        self.n = n
        self.back = back

    def gsame(self, o):
        return isinstance(o, GDeque) and same(self.n, o.n) and same(self.back, o.back)

    def havoc(self, E, st, name, others):
        return GDeque(E.fresh('i64', name + '.size'), self.back)


def pattern(E, rx, fn):
    E.patterns.insert(0, (re.compile(rx + r'\Z'), fn))


def deque_models(E, elem):
    """models for std::deque<elem...>: empty, back, size"""
    def empty(E, st, a, call):
        d = E.gget(st, a[0], GDeque)
        return simp(bv(d.n) == 0)

    def back(E, st, a, call):
        d = E.gget(st, a[0], GDeque)
        E.oblige(st, bv(d.n) != 0, 'memory', 'back() of an empty deque')
        return d.back
    pattern(E, r'std::deque<%s.*>::empty\(\) const' % elem, empty)
    pattern(E, r'std::deque<%s.*>::back\(\)( const)?' % elem, back)
