"""Scattered data: an array of iovec structures seen as the concatenation D of its buffers.

Buffer i holds D[S(i)..S(i)+LEN(i)), S the prefix sums of the lengths LEN."""
import z3
from . import theory as T
from .theory import bv
from .engine import *

BV32 = z3.BitVecSort(32)
_VIEWS = {}


def z64(x):
    return z3.ZeroExt(32, bv(x, 32))


def view(tag=''):
    if tag not in _VIEWS:
        _VIEWS[tag] = View(tag)
    return _VIEWS[tag]


class View:
    def __init__(self, tag):
        self.tag = tag
        # all data together has less than 2^32 bytes
        s32 = z3.Function('prefix_sum' + tag, BV32, BV32)
        l32 = z3.Function('buffer_length' + tag, BV32, BV32)
        self.S = lambda i: z3.ZeroExt(32, s32(i))
        self.LEN = lambda i: z3.ZeroExt(32, l32(i))
        self.D = z3.Const('data' + tag, T.ARR)
        self.n = z3.BitVec('iov_len' + tag, 32)
        self.total = z3.ZeroExt(32, z3.BitVec('total' + tag, 32))
        self.bufs = Buffers(self)
        T.EXTRA_HEADS.update(('prefix_sum' + tag, 'buffer_length' + tag))
        T.EXTRA.append(self.inst)

    def inst(self, by, emit):
        """prefix sums do not overflow and do not exceed the total"""
        S, LEN, n, total = self.S, self.LEN, self.n, self.total
        for t in by.get('buffer_length' + self.tag, []):
            i = t.arg(0)
            emit(('ps', t.get_id()), lambda i=i: z3.Implies(z3.ULT(i, n), z3.And(S(i + 1) == S(i) + LEN(i), z3.ULE(S(i + 1), total), z3.ULE(LEN(i), total))))
        for t in by.get('prefix_sum' + self.tag, []):
            emit(('ps', t.get_id()), lambda t=t: z3.Implies(z3.ULE(t.arg(0), n), z3.ULE(z3.ZeroExt(32, t), total)))

    def make(self, E, st, limit, name='iov'):
        """the array in memory; all data together is less than limit bytes"""
        st.assume(z3.ULT(self.n, 1 << 28), self.S(bv(0, 32)) == 0, self.S(self.n) == self.total, z3.ULT(self.total, limit))
        return E.new_obj(st, name, size=simp2(z64(self.n) * 16), const=True, handler=Array(self))


def index(off):
    """element number of a byte offset (the plain index where the offset is 16*index or 16*index+8)"""
    off = z3.simplify(off)
    t = off
    if t.decl().name() == 'bvadd' and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 8:
        t = t.arg(1)
    if t.decl().name() == 'bvmul' and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 16:
        t = t.arg(1)
        if t.decl().name() == 'concat' and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.arg(1).size() == 32:
            return t.arg(1)
    return simp2(z3.Extract(35, 4, off))


class Array:
    def __init__(self, v):
        self.v = v

    def load(self, E, st, p, size, ty):
        off = bv(p.off)
        i = index(off)
        want = 0 if ty == 'ptr' else 8
        if E.valid(st, z3.Extract(3, 0, off) == want)[0] != 'valid':
            raise Unsupported('access inside an iovec')
        if ty == 'ptr':
            return Ptr(('fam', self.v.bufs, i), 0)
        return self.v.LEN(i)

    def store(self, E, st, p, size, v, ty):
        raise Unsupported('store into iovec')


class Buffers:
    def __init__(self, v):
        self.v = v

    def range(self, E, st, p, n):
        """(array, offset) of n readable bytes at p"""
        i, v = p.obj[2], self.v
        L = v.LEN(i)
        E.oblige(st, z3.Or(bv(n) == 0, z3.And(z3.ULT(i, v.n), z3.ULE(bv(p.off), L), z3.ULE(bv(n), L - bv(p.off)))), 'memory', 'read out of bounds of a buffer')
        return v.D, simp2(v.S(i) + bv(p.off))

    def load(self, E, st, p, size, ty):
        if size != 1:
            raise Unsupported('wide access to a buffer')
        a, o = self.range(E, st, p, 1)
        return simp2(T.sel(a, o))

    def store(self, E, st, p, size, v, ty):
        E.oblige(st, False, 'memory', 'write to a buffer of the input')
        raise PathEnd()
