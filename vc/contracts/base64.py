"""Contracts for Base64 (src/Base64.cc).

"For every output index" is an arbitrary constant J fixed before the call."""
import z3
from .. import theory as T
from ..theory import bv
from ..engine import *
from ..lib import *
from ..loops import is_dead
from ..iov import view, z64

TU = ['src/Base64.cc']
NS = 'libvariant::'
PID = 'P07'
MAXLEN = 1 << 30          # domain: sizes are computed in 32 bits
V = view()
S, LEN, D = V.S, V.LEN, V.D
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


# ------------------------------------------------------------------ scattered input
class Iov:
    def __init__(self, E, st):
        self.n, self.total = V.n, V.total
        self.obj = V.make(E, st, MAXLEN)


class Iter:
    CLS = NS + 'iov_iterator'

    def __init__(self, E, iov, p):
        self.E, self.iov = E, iov
        self.F = Fields(E, self.CLS, p)

    def inv(self, st):
        F = self.F
        slab, off = F.term(st, 'slab'), F.term(st, 'offset')
        n = self.iov.n
        return z3.And(same(F.get(st, 'iov'), self.iov.obj), F.term(st, 'len') == n, z3.ULE(slab, n),
                      z3.Implies(z3.ULT(slab, n), z3.ULT(z64(off), LEN(slab))), z3.Implies(slab == n, off == 0))

    def pos(self, st):
        return S(self.F.term(st, 'slab')) + z64(self.F.term(st, 'offset'))

    def make(self, st, name):
        F = self.F
        F.put(st, 'iov', self.iov.obj)
        F.put(st, 'len', self.iov.n)
        F.put(st, 'slab', self.E.fresh('i32', name + '.slab'))
        F.put(st, 'offset', self.E.fresh('i32', name + '.offset'))
        st.assume(self.inv(st))


def iov_state(E):
    st = State()
    return st, Iov(E, st)


def new_iter(E, st, iov, name='it'):
    return Iter(E, iov, E.new_obj(st, name, size=E.P.types[Iter.CLS]['size']))


def advance_template(it, pos):
    """inside skip_empty the iterator may stand at the end of a buffer, its position does not change"""
    def t(E, L):
        F, iov = it.F, it.iov

        def g(s):
            slab, off = F.term(s, 'slab'), F.term(s, 'offset')
            return z3.And(z3.ULE(slab, iov.n), z3.Implies(z3.ULT(slab, iov.n), z3.ULE(z64(off), LEN(slab))), z3.Implies(slab == iov.n, off == 0),
                          S(slab) + z64(off) == pos, same(F.get(s, 'iov'), iov.obj), F.term(s, 'len') == iov.n)
        return [('the iterator keeps its position', g)]
    return t


def verify_iter_ctor(E):
    st, iov = iov_state(E)
    it = new_iter(E, st, iov)
    E.loop_templates.append(advance_template(it, bv(0)))
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(Iter.CLS + '::iov_iterator(iovec const*, unsigned int)')[0], st, [it.F.p, iov.obj, iov.n]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        E.oblige(s, it.inv(s), PID, 'iterator starts at data or at the end')
        E.oblige(s, it.pos(s) == 0, PID, 'iterator starts at the first byte')


def verify_iter_inc(E):
    st, iov = iov_state(E)
    it = new_iter(E, st, iov)
    it.make(st, 'it')
    pos = it.pos(st)
    st.assume(it.F.term(st, 'slab') != iov.n)
    E.loop_templates.append(advance_template(it, pos + 1))
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(Iter.CLS + '::operator++()')[0], st, [it.F.p]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        E.oblige(s, it.inv(s), PID, 'iterator stands at data or at the end')
        E.oblige(s, it.pos(s) == pos + 1, PID, 'iterator moves on by one byte')
        E.oblige(s, same(v, it.F.p), PID, 'iterator returns itself')


def iter_contracts(E, iov):
    def ctor(E, st, a, call):
        it = Iter(E, iov, a[0])
        E.oblige(st, z3.And(same(a[1], iov.obj), bv(a[2], 32) == iov.n), PID, 'the iterator gets all buffers')
        it.make(st, 'it')
        st.assume(it.pos(st) == 0)

    def inc(E, st, a, call):
        it = Iter(E, iov, a[0])
        pos = it.pos(st)
        E.oblige(st, z3.And(it.inv(st), it.F.term(st, 'slab') != iov.n), PID, 'the iterator is not moved past the end')
        it.make(st, 'it')
        st.assume(it.pos(st) == pos + 1)
        return a[0]

    def end(E, st, a, call):
        # returned through memory
        it = Iter(E, iov, a[0])
        F = it.F
        F.put(st, 'iov', iov.obj)
        F.put(st, 'len', iov.n)
        F.put(st, 'slab', iov.n)
        F.put(st, 'offset', 0)
    E.summaries[Iter.CLS + '::iov_iterator(iovec const*, unsigned int)'] = ctor
    E.summaries[Iter.CLS + '::operator++()'] = inc
    return end


def verify_iter_end(E):
    st, iov = iov_state(E)
    it = new_iter(E, st, iov)
    it.make(st, 'it')
    iter_contracts(E, iov)
    res = new_iter(E, st, iov, 'result')

    def t(E, L):
        return [('the iterator is valid', lambda s: res.inv(s))]
    E.loop_templates.append(t)
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(Iter.CLS + '::end()')[0], st, [res.F.p, it.F.p]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        E.oblige(s, z3.And(res.F.term(s, 'slab') == iov.n, res.F.term(s, 'offset') == 0, same(res.F.get(s, 'iov'), iov.obj)), PID,
                 'end() is the position behind the last byte')


# ------------------------------------------------------------------ encoding
def enc_char(v):
    r = z3.BitVecVal(ALPHA[63], 8)
    for x, lo, hi in ((ord('A'), 0, 25), (ord('a'), 26, 51), (ord('0'), 52, 61), (ord('+'), 62, 62)):
        r = z3.If(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)), v + (x - lo), r)
    return r


def enc_at(j, total, d=None):
    """character j of the Base64 text of d[0..total)"""
    d = D if d is None else d
    p = z3.LShR(j, 2) * 3
    r = z3.Extract(1, 0, j)
    b0 = T.sel(d, p)
    b1 = z3.If(z3.ULT(p + 1, total), T.sel(d, p + 1), z3.BitVecVal(0, 8))
    b2 = z3.If(z3.ULT(p + 2, total), T.sel(d, p + 2), z3.BitVecVal(0, 8))
    six = lambda x: z3.ZeroExt(2, x)
    v0 = six(z3.Extract(7, 2, b0))
    v1 = six(z3.Concat(z3.Extract(1, 0, b0), z3.Extract(7, 4, b1)))
    v2 = six(z3.Concat(z3.Extract(3, 0, b1), z3.Extract(7, 6, b2)))
    v3 = six(z3.Extract(5, 0, b2))
    eq = z3.BitVecVal(ord('='), 8)
    return z3.If(r == 0, enc_char(v0), z3.If(r == 1, enc_char(v1), z3.If(
        r == 2, z3.If(z3.ULT(p + 1, total), enc_char(v2), eq), z3.If(z3.ULT(p + 2, total), enc_char(v3), eq))))


def enc_len(n, total):
    """n is the length of the text: a multiple of 4, the last group is begun by the data"""
    return z3.And(z3.Extract(1, 0, n) == 0, z3.ULE(total, z3.LShR(n, 2) * 3), z3.Or(n == 0, z3.ULT((z3.LShR(n, 2) - 1) * 3, total)))


def size_facts(size, total):
    """contract of Base64EncodeSize for no line length: five more than 4/3 of the data, rounded down"""
    q = size - 5
    return z3.And(z3.UGE(size, 5), z3.ULE(q * 3, total * 4), z3.ULT(total * 4, q * 3 + 3), z3.ULT(q, 1 << 31))


def verify_encode(E):
    E.solvers = E.SUMS
    st, iov = iov_state(E)
    total = iov.total
    end = iter_contracts(E, iov)
    E.summaries[Iter.CLS + '::end()'] = end
    size = z3.BitVec('out_size', 64)
    st.assume(size_facts(size, total))
    out = E.new_obj(st, 'out', size=size)
    arr0 = z3.Const('out_bytes', T.ARR)
    st.mem[out.obj] = OC({}, ((0, size, arr0),))
    J = z3.BitVec('J', 64)
    a1 = lambda s: s.mem[out.obj].regs[0][2]

    def template(E, L):
        fr = L.depth - 1
        ph = [i for i in L.phi_ids if isinstance(L.entry.frames[-1].regs[i], Ptr) and L.entry.frames[-1].regs[i].obj == out.obj]
        its = [Iter(E, iov, Ptr(x, 0)) for x in L.entry.mem if E.objs[x].local and E.objs[x].size == E.P.types[Iter.CLS]['size']]
        its = [i for i in its if not is_dead(i.F.get(L.entry, 'slab'))]
        if not ph:
            return []
        o = lambda s: bv(s.frames[fr].regs[ph[0]].off)
        res = [('whole groups are written', lambda s: z3.Extract(1, 0, o(s)) == 0),
               ('the text is small', lambda s: z3.ULT(o(s), 1 << 31))]
        for it in its:
            res += [('the iterator is valid', lambda s, it=it: it.inv(s)),
                    ('four characters for three bytes', lambda s, it=it: it.pos(s) == z3.LShR(o(s), 2) * 3),
                    ('the position is inside the data', lambda s, it=it: z3.ULE(it.pos(s), total))]
        for r in range(4):
            res.append(('every character %d of a group is right' % r,
                        lambda s, r=r: z3.Implies(z3.And(z3.Extract(1, 0, J) == r, z3.ULT(J, o(s))), T.sel(a1(s), J) == enc_at(J, total))))
        return res
    E.loop_templates.append(template)
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(NS + 'Base64Encode(char*, iovec const*, unsigned int, unsigned int)')[0], st, [out, iov.obj, iov.n, 0]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        if kind != 'ret':
            continue
        E.cover(s, 'returns')
        n = z64(v)
        E.oblige(s, enc_len(n, total), PID, 'Base64Encode: four characters for every three bytes begun')
        E.oblige(s, T.sel(a1(s), n) == 0, PID, 'Base64Encode: the text is terminated')
        E.oblige(s, z3.Implies(z3.ULT(J, n), T.sel(a1(s), J) == enc_at(J, total)), PID, 'Base64Encode: every character is right')


def verify_encode_flat(E):
    """the variant for one block passes it on as one buffer"""
    st = State()
    n = z3.BitVec('len', 32)
    src = E.new_obj(st, 'src', size=z64(n), const=True)
    st.mem[src.obj] = OC({}, ((0, z64(n), D),))
    out = E.new_obj(st, 'out', size=None)
    cpl = z3.BitVec('cpl', 32)
    r = z3.BitVec('r', 32)

    def enc(E, st, a, call):
        E.oblige(st, z3.And(same(a[0], out), bv(a[2], 32) == 1, bv(a[3], 32) == cpl), PID, 'Base64Encode: passes on its arguments')
        E.oblige(st, z3.And(same(E.load(st, a[1], 8, 'ptr'), src), bv(E.load(st, E.padd(a[1], 8), 8, 'i64')) == z64(n)), PID, 'Base64Encode: one buffer with all the data')
        return r
    E.summaries[NS + 'Base64Encode(char*, iovec const*, unsigned int, unsigned int)'] = enc
    for kind, s, v in E.run_function(E.P.find(NS + 'Base64Encode(char*, void const*, unsigned int, unsigned int)')[0], st, [out, src, n, cpl]):
        E.oblige(s, z3.And(kind == 'ret', bv(v, 32) == r), PID, 'Base64Encode: returns the length')


def verify_sizes(E):
    n = z3.BitVec('len', 32)
    st = State()
    st.assume(z3.ULT(n, MAXLEN))
    for kind, s, v in E.run_function(E.P.find(NS + 'Base64EncodeSize(unsigned int, unsigned int)')[0], st.copy(), [n, 0]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        # more room than the contract of Base64Encode asks for is fine
        t = z64(n)
        E.oblige(s, z3.And(z3.ULE(t * 4, (z64(v) - 5) * 3 + 2), z3.UGE(bv(v, 32), 5)), PID, 'Base64EncodeSize: room for the text and its terminator')
    for kind, s, v in E.run_function(E.P.find(NS + 'Base64DecodeSize(unsigned int)')[0], st.copy(), [n]):
        E.oblige(s, z3.And(kind == 'ret', z3.UGE(z64(v) * 4, z64(n) * 3)), PID, 'Base64DecodeSize: room for the data')


# ------------------------------------------------------------------ decoding
CNT = z3.Function('valid_before', T.BV64, T.BV64)      # Base64 characters among the first k input characters
VAL = z3.Function('value_of', T.BV64, z3.BitVecSort(8))   # value of the m-th Base64 character


def dec_val(c):
    return z3.If(z3.And(z3.UGE(c, ord('A')), z3.ULE(c, ord('Z'))), c - ord('A'), z3.If(
        z3.And(z3.UGE(c, ord('a')), z3.ULE(c, ord('z'))), c - ord('a') + 26, z3.If(
            z3.And(z3.UGE(c, ord('0')), z3.ULE(c, ord('9'))), c - ord('0') + 52, z3.If(c == ord('+'), z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))


def dec_ok(c):
    r = lambda a, b: z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.Or(r('A', 'Z'), r('a', 'z'), r('0', '9'), c == ord('+'), c == ord('/'))


def dec_at(g, r, val=VAL):
    """byte 3g+r of the decoded data"""
    v = [z3.Extract(5, 0, val(g * 4 + i)) for i in range(4)]
    return z3.If(r == 0, z3.Concat(v[0], z3.Extract(5, 4, v[1])), z3.If(
        r == 1, z3.Concat(z3.Extract(3, 0, v[1]), z3.Extract(5, 2, v[2])), z3.Concat(z3.Extract(1, 0, v[2]), v[3])))


def dec_len(c):
    ph = c & 3
    return z3.LShR(c, 2) * 3 + z3.If(ph == 0, bv(0), ph - 1)


class Text:
    """the input text; reading character k brings in the definition of CNT and VAL at k"""

    def __init__(self, arr):
        self.arr = arr

    def facts(self, k):
        c = T.sel(self.arr, k)
        return z3.And(CNT(k + 1) == z3.If(dec_ok(c), CNT(k) + 1, CNT(k)), z3.Implies(dec_ok(c), VAL(CNT(k)) == dec_val(c)), z3.ULE(CNT(k), k))

    def load(self, E, st, p, size, ty):
        k = bv(p.off)
        st.assume(self.facts(k))
        return None

    def store(self, E, st, p, size, v, ty):
        return None


def verify_decode(E):
    E.solvers = E.SUMS
    st = State()
    n = z3.BitVec('len', 32)
    N = z64(n)
    st.assume(z3.ULT(n, MAXLEN))
    IN = z3.Const('text', T.ARR)
    src = E.new_obj(st, 'src', size=N, const=True, handler=Text(IN))
    st.mem[src.obj] = OC({}, ((0, N, IN),))
    size = z3.BitVec('out_size', 64)
    st.assume(z3.UGE(size * 4, N * 3), z3.ULT(size, 1 << 33))
    out = E.new_obj(st, 'out', size=size)
    st.mem[out.obj] = OC({}, ((0, size, z3.Const('out_bytes', T.ARR)),))
    g, r = z3.BitVec('g', 64), z3.BitVec('r', 64)
    J = g * 3 + r
    st.assume(z3.ULT(g, 1 << 32), z3.ULT(r, 3), CNT(bv(0)) == 0)
    a1 = lambda s: s.mem[out.obj].regs[0][2]

    def template(E, L):
        fr = L.depth - 1
        regs = L.entry.frames[-1].regs
        po = [i for i in L.phi_ids if isinstance(regs[i], Ptr) and regs[i].obj == out.obj]
        pi = [i for i in L.phi_ids if isinstance(regs[i], Ptr) and regs[i].obj == src.obj]
        res = []
        if pi:
            i = lambda s: bv(s.frames[fr].regs[pi[0]].off)
            i0 = i(L.entry)
            res.append(('only foreign characters passed', lambda s: CNT(i(s)) == CNT(i0)))
            res.append(('no more characters than read', lambda s: z3.And(z3.ULE(i(s), N), z3.ULE(CNT(i(s)), i(s)))))
        if pi and po:
            o = lambda s: bv(s.frames[fr].regs[po[0]].off)
            for ph in range(4):
                res.append(('phase %d' % ph, lambda s, ph=ph: z3.And(CNT(i(s)) & 3 == ph, o(s) == dec_len(CNT(i(s))))))
            res.append(('every byte is right', lambda s: z3.Implies(z3.ULT(J, o(s)), T.sel(a1(s), J) == dec_at(g, r))))
        return res
    E.loop_templates.append(template)
    E.cover(st, 'precondition')
    for kind, s, v in E.run_function(E.P.find(NS + 'Base64Decode(void*, char const*, unsigned int)')[0], st, [out, src, n]):
        E.oblige(s, kind == 'ret', 'exception', 'exception escapes')
        if kind != 'ret':
            continue
        E.cover(s, 'returns')
        m = z64(v)
        E.oblige(s, m == dec_len(CNT(N)), PID, 'Base64Decode: three bytes for every four Base64 characters')
        E.oblige(s, z3.Implies(z3.ULT(J, m), T.sel(a1(s), J) == dec_at(g, r)), PID, 'Base64Decode: every byte is right')


# ------------------------------------------------------------------ round trip
def verify_roundtrip(E):
    """decoding an encoded text gives the data: a lemma over the two contracts"""
    E.solvers = E.SUMS
    st = State()
    total, n = z3.BitVecs('total n', 64)
    text = z3.Const('text', T.ARR)
    st.assume(z3.ULT(total, MAXLEN), enc_len(n, total), z3.ULT(n, 1 << 31))
    tx = Text(text)
    # number of characters that carry data
    rest = total - (z3.LShR(n, 2) - 1) * 3
    chars = z3.If(n == 0, bv(0), n - z3.If(rest == 1, bv(2), z3.If(rest == 2, bv(1), bv(0))))
    k = z3.BitVec('k', 64)
    # induction over k: before the padding every character counts, the padding does not
    claim = lambda k: CNT(k) == z3.If(z3.ULE(k, chars), k, chars)
    st.assume(CNT(bv(0)) == 0)
    E.oblige(st, claim(bv(0)), PID, 'round trip: no characters before the first')
    s = st.copy()
    s.assume(z3.ULT(k, n), claim(k), tx.facts(k), T.sel(text, k) == enc_at(k, total))
    E.cover(s, 'induction step')
    E.oblige(s, claim(k + 1), PID, 'round trip: every character up to the padding counts')
    s = st.copy()
    g, r = z3.BitVec('g', 64), z3.BitVec('r', 64)
    s.assume(z3.ULT(g, 1 << 32), z3.ULT(r, 3), claim(n))
    for i in range(4):
        c = g * 4 + i
        s.assume(z3.Implies(z3.ULT(c, n), z3.And(claim(c), tx.facts(c), T.sel(text, c) == enc_at(c, total))))
    E.oblige(s, dec_len(CNT(n)) == total, PID, 'round trip: as many bytes as were encoded')
    E.cover(s, 'round trip')
    E.oblige(s, z3.Implies(z3.ULT(g * 3 + r, total), dec_at(g, r) == T.sel(D, g * 3 + r)), PID, 'round trip: every byte is the one encoded')


def tasks(P, tier):
    from ..run import Task
    t = lambda name, fn, funcs: Task(name, fn, props=(PID,), safety=PID, funcs=[NS + f for f in funcs])
    return [t('iov_iterator constructor', verify_iter_ctor, ['iov_iterator::iov_iterator', 'iov_iterator::skip_empty']),
            t('iov_iterator::operator++', verify_iter_inc, ['iov_iterator::operator++', 'iov_iterator::skip_empty']),
            t('iov_iterator::end', verify_iter_end, ['iov_iterator::end']),
            t('Base64Encode', verify_encode, ['Base64Encode']),
            t('Base64Encode of one block', verify_encode_flat, ['Base64Encode']),
            t('Base64 sizes', verify_sizes, ['Base64EncodeSize', 'Base64DecodeSize']),
            t('Base64Decode', verify_decode, ['Base64Decode']),
            t('Base64 round trip', verify_roundtrip, [])]
