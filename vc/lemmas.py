"""Proofs of the rules of vc/theory.py from the definitions, by induction; each base case and step is one query without the rules.

cat(B,a,o,0) = B, cat(B,a,o,n) = snoc(cat(B,a,o,n-1), a[o+n-1]); rep(B,c,0) = B, rep(B,c,n) = snoc(rep(B,c,n-1), c);
app(B,nil) = B, app(B,snoc(C,c)) = snoc(app(B,C), c); blen(nil) = 0, blen(snoc(B,c)) = blen(B)+1; arrof(snoc(B,c)) = arrof(B) with c at blen(B);
acopy and aset by their entries; cstr(a,o) = cat(nil,a,o,N) for the least N with a[o+N] = 0. Numbers are 64 bit throughout; that byte strings and copies
have fewer than 2^62 bytes is the one assumption."""
import z3
from . import theory as T
from .theory import Bytes, nil, snoc, cat, app, rep, blen, arrof, acopy, aset, cstr, nz, ARR, BV64, BV8

A, A2 = z3.Const('a', ARR), z3.Const('a2', ARR)
B, C, D = z3.Consts('B C D', Bytes)
o, n, m, x, y, j, k = [z3.BitVec(v, 64) for v in 'o n m x y j k'.split()]
c, v = z3.BitVec('c', 8), z3.BitVec('v', 8)
LIM = 1 << 62
one = z3.BitVecVal(1, 64)


def small(*t):
    return z3.And(*[z3.ULT(u, LIM) for u in t])


def dcat(B, a, o, n):
    return cat(B, a, o, n) == z3.If(n == 0, B, snoc(cat(B, a, o, n - 1), z3.Select(a, o + n - 1)))


def drep(B, c, n):
    return rep(B, c, n) == z3.If(n == 0, B, snoc(rep(B, c, n - 1), c))


def dapp(B, C, c):
    return z3.And(app(B, nil) == B, app(B, snoc(C, c)) == snoc(app(B, C), c))


def dlen(B, c):
    return z3.And(blen(nil) == 0, blen(snoc(B, c)) == blen(B) + 1)


def dcopy(d, do, s, so, m, i):
    return z3.Select(acopy(d, do, s, so, m), i) == z3.If(z3.ULT(i - do, m), z3.Select(s, so + (i - do)), z3.Select(d, i))


def dset(d, do, c, m, i):
    return z3.Select(aset(d, do, c, m), i) == z3.If(z3.ULT(i - do, m), c, z3.Select(d, i))


def holds(goal, *hyps):
    s = z3.Solver()
    s.set('timeout', 60000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def numbers(goal):
    """a fact about 64 bit numbers"""
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 120000)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def by_number(P, hyps, start=None):
    """P(n) for all n (from start on): base and step; hyps(n) are the definitions used"""
    s0 = z3.BitVecVal(0, 64) if start is None else start
    base = holds(P(s0), *hyps(s0))
    step = holds(P(n), P(n - 1), n != 0 if start is None else z3.UGT(n, start), *hyps(n))
    return base and step


def by_string(P, hyps, S=C):
    """P(S) for all byte strings S"""
    return holds(P(nil), *hyps(S, c)) and holds(P(snoc(S, c)), P(S), *hyps(S, c))


def rules():
    out = []

    def r(name, f):
        out.append((name, f))
    # numbers of bytes (modulo 2^64), and what follows of them
    r('length of a slice', lambda: by_number(lambda n: blen(cat(B, A, o, n)) == blen(B) + n, lambda n: [dcat(B, A, o, n), dlen(cat(B, A, o, n - 1), z3.Select(A, o + n - 1))]))
    r('length of a repetition', lambda: by_number(lambda n: blen(rep(B, c, n)) == blen(B) + n, lambda n: [drep(B, c, n), dlen(rep(B, c, n - 1), c)]))
    r('length of a concatenation', lambda: by_string(lambda C: blen(app(B, C)) == blen(B) + blen(C), lambda C, c: [dapp(B, C, c), dlen(C, c), dlen(app(B, C), c)]))
    r('empty slice', lambda: holds((n == 0) == (cat(B, A, o, n) == B), blen(cat(B, A, o, n)) == blen(B) + n, dcat(B, A, o, n)))
    r('empty repetition', lambda: holds((n == 0) == (rep(B, c, n) == B), blen(rep(B, c, n)) == blen(B) + n, drep(B, c, n)))
    r('empty byte string (below 2^62 bytes)', lambda: holds(z3.Implies(small(blen(C)), (blen(snoc(C, c)) == 0) == (snoc(C, c) == nil)), dlen(C, c)) and holds(blen(nil) == 0, dlen(C, c)))
    # one more byte
    r('slice by one more', lambda: holds(z3.Implies(z3.And(m == n + 1, m != 0), cat(B, A, o, m) == snoc(cat(B, A, o, n), z3.Select(A, o + n))), dcat(B, A, o, m)))
    r('repetition once', lambda: holds(rep(B, c, one) == snoc(B, c), drep(B, c, one), drep(B, c, one - 1)))

    # joining
    def jn(n):
        return z3.Implies(small(m, n), cat(cat(B, A, o, m), A, o + m, n) == cat(B, A, o, m + n))
    r('slices that follow one another', lambda: by_number(jn, lambda n: [dcat(cat(B, A, o, m), A, o + m, n), dcat(B, A, o, m + n)]))

    def rj(n):
        return z3.Implies(small(m, n), rep(rep(B, c, m), c, n) == rep(B, c, m + n))
    r('repetitions that follow one another', lambda: by_number(rj, lambda n: [drep(rep(B, c, m), c, n), drep(B, c, m + n)]))

    # changed arrays
    def st(n):
        return z3.Implies(z3.UGE(j - o, n), cat(B, z3.Store(A, j, v), o, n) == cat(B, A, o, n))
    r('slice beside a changed byte', lambda: by_number(st, lambda n: [dcat(B, z3.Store(A, j, v), o, n), dcat(B, A, o, n)]))
    r('slice that ends with a changed byte', lambda: holds(z3.Implies(z3.And(n != 0, j == o + n - 1), cat(B, z3.Store(A, j, v), o, n) == snoc(cat(B, A, o, n - 1), v)),
                                                           st(n - 1), dcat(B, z3.Store(A, j, v), o, n)))
    cp, ast = acopy(A, x, A2, y, m), aset(A, x, c, m)

    def changed(arr, d, name, inside, behind):
        def c1(n):
            return z3.Implies(z3.And(z3.UGE(x - o, n), z3.UGE(o - x, m)), cat(B, arr, o, n) == cat(B, A, o, n))
        # o = x + j, and the one fact about numbers that is used (proved by itself)
        sub = lambda t: z3.simplify(z3.substitute(t, (o, x + j)))
        off = z3.BitVecVal(0, 64)
        apart = lambda n: z3.Implies(z3.And(z3.UGE(0 - j, n), z3.UGE(j, m), n != 0), z3.And(z3.Not(z3.ULT(j + n - 1, m)), z3.UGE(0 - j, n - 1)))
        r(name + ': beside', lambda: numbers(apart(n)) and holds(sub(c1(off)), *[sub(t) for t in (dcat(B, arr, o, off), dcat(B, A, o, off))]) and
          holds(sub(c1(n)), sub(c1(n - 1)), n != 0, z3.simplify(apart(n)), *[sub(t) for t in (dcat(B, arr, o, n), dcat(B, A, o, n), d(o + n - 1))]))

        def c2(n):
            return z3.Implies(z3.And(z3.ULE(o - x, m), z3.ULE(n, m - (o - x))), cat(B, arr, o, n) == inside(n)[0])
        fact = lambda n: z3.Implies(z3.And(z3.ULE(j, m), n != 0, z3.ULE(n, m - j)), z3.And(z3.ULT(j + n - 1, m), z3.ULE(n - 1, m - j)))
        r(name + ': inside', lambda: numbers(fact(n)) and holds(sub(c2(off)), *[sub(t) for t in (dcat(B, arr, o, off), inside(off)[1])]) and
          holds(sub(c2(n)), sub(c2(n - 1)), n != 0, fact(n), *[sub(t) for t in (dcat(B, arr, o, n), inside(n)[1], d(o + n - 1))]))

        def c0(n):
            return z3.Implies(z3.And(z3.UGE(x - o, n), small(x - o, m)), cat(B, arr, o, n) == cat(B, A, o, n))
        r(name + ': before', lambda: by_number(c0, lambda n: [dcat(B, arr, o, n), dcat(B, A, o, n), d(o + n - 1)]))

        def c3(n):
            return z3.Implies(z3.And(z3.ULE(x - o, n), z3.ULE(n - (x - o), m), small(n, m)), cat(B, arr, o, n) == behind(n)[0])
        r(name + ': from before into it', lambda: by_number(c3, lambda n: [dcat(B, arr, o, n), behind(n)[1], d(o + n - 1), c0(x - o)], start=x - o))
    changed(cp, lambda i: dcopy(A, x, A2, y, m, i), 'copied bytes', lambda n: (cat(B, A2, y + (o - x), n), dcat(B, A2, y + (o - x), n)),
            lambda n: (cat(cat(B, A, o, x - o), A2, y, n - (x - o)), dcat(cat(B, A, o, x - o), A2, y, n - (x - o))))
    changed(ast, lambda i: dset(A, x, c, m, i), 'set bytes', lambda n: (rep(B, c, n), drep(B, c, n)),
            lambda n: (rep(cat(B, A, o, x - o), c, n - (x - o)), drep(cat(B, A, o, x - o), c, n - (x - o))))

    # concatenation
    r('concatenation with nothing', lambda: by_string(lambda C: app(nil, C) == C, lambda C, c: [dapp(nil, C, c)]))
    r('concatenation with a slice', lambda: by_number(lambda n: app(B, cat(C, A, o, n)) == cat(app(B, C), A, o, n), lambda n: [
        dcat(C, A, o, n), dcat(app(B, C), A, o, n), dapp(B, cat(C, A, o, n - 1), z3.Select(A, o + n - 1))]))
    r('concatenation with a repetition', lambda: by_number(lambda n: app(B, rep(C, c, n)) == rep(app(B, C), c, n), lambda n: [
        drep(C, c, n), drep(app(B, C), c, n), dapp(B, rep(C, c, n - 1), c)]))
    r('concatenation of three', lambda: by_string(lambda D: app(B, app(C, D)) == app(app(B, C), D), lambda D, c: [dapp(C, D, c), dapp(app(B, C), D, c), dapp(B, app(C, D), c)], D))

    # the array of a byte string
    agree = z3.Function('agree', ARR, Bytes, z3.BoolSort())

    def dag(X, C, c):
        return z3.And(agree(X, nil), agree(X, snoc(C, c)) == z3.And(agree(X, C), z3.Select(X, blen(C)) == c))

    def keep(C):
        return z3.Implies(z3.And(agree(A, C), small(blen(C)), z3.UGE(j, blen(C))), agree(z3.Store(A, j, v), C))
    r('a byte behind the end changes nothing', lambda: holds(keep(nil), dag(A, C, c), dag(z3.Store(A, j, v), C, c)) and
      holds(keep(snoc(C, c)), keep(C), dag(A, C, c), dag(z3.Store(A, j, v), C, c), dlen(C, c), z3.ULT(blen(C), LIM - 1)))

    def arr(C, c):
        return arrof(snoc(C, c)) == z3.Store(arrof(C), blen(C), c)
    r('the array of a byte string has its bytes', lambda: holds(agree(arrof(nil), nil), dag(arrof(nil), C, c)) and
      holds(agree(arrof(snoc(C, c)), snoc(C, c)), agree(arrof(C), C), arr(C, c), dag(z3.Store(arrof(C), blen(C), c), C, c), small(blen(C)),
            z3.Implies(z3.And(agree(arrof(C), C), small(blen(C))), agree(z3.Store(arrof(C), blen(C), c), C))))

    def whole(C):
        return z3.Implies(agree(A, C), cat(B, A, z3.BitVecVal(0, 64), blen(C)) == app(B, C))
    r('slice of all bytes of a byte string', lambda: by_string(whole, lambda C, c: [dag(A, C, c), dapp(B, C, c), dlen(C, c), dcat(B, A, z3.BitVecVal(0, 64), blen(C) + 1), small(blen(C)),
                                                                                    dcat(B, A, z3.BitVecVal(0, 64), z3.BitVecVal(0, 64))]))

    # C strings
    def nzd(n):
        t = cat(nil, A, o, n - 1)
        return [dcat(nil, A, o, n), nz(nil), nz(snoc(t, z3.Select(A, o + n - 1))) == z3.And(nz(t), z3.Select(A, o + n - 1) != 0)]

    def nozero(n):
        return z3.Implies(z3.And(nz(cat(nil, A, o, n)), z3.ULT(k, n)), z3.Select(A, o + k) != 0)
    r('no zero byte inside', lambda: by_number(nozero, nzd))

    def at(n, k):
        return z3.substitute(z3.Implies(z3.And(nz(cat(nil, A, o, n)), z3.ULT(z3.BitVec('kk', 64), n)), z3.Select(A, o + z3.BitVec('kk', 64)) != 0), (z3.BitVec('kk', 64), k))
    r('a C string ends at its first zero byte', lambda: holds(z3.Implies(z3.And(nz(cat(nil, A, o, n)), z3.Select(A, o + n) == 0), cstr(A, o) == cat(nil, A, o, n)),
                                                              cstr(A, o) == cat(nil, A, o, m), nz(cat(nil, A, o, m)), z3.Select(A, o + m) == 0, at(n, m), at(m, n)))

    # folds that no longer change
    S = z3.DeclareSort('FoldValue')
    f, step, fin = z3.Function('f', Bytes, S), z3.Function('step', S, Bytes, BV8, S), z3.Function('final', Bytes, z3.BoolSort())
    zero = z3.BitVecVal(0, 64)

    def pre(n):
        return cat(nil, A, zero, n)

    def kept(n):
        return z3.And(f(pre(n)) == f(pre(m)), fin(pre(n)))
    b0, c0 = pre(n - 1), z3.Select(A, zero + n - 1)
    r('a fold that no longer changes', lambda: holds(kept(m), fin(pre(m))) and
      holds(kept(n), kept(n - 1), z3.UGT(n, m), dcat(nil, A, zero, n), z3.Implies(fin(b0), z3.And(f(snoc(b0, c0)) == f(b0), fin(snoc(b0, c0))))))

    def side(g, cond, prefix):
        def defs(h, b):
            w, base, step = T.FOLDS[h]
            return w(snoc(b, c)) == step(w(b), b, c)
        hyps = [defs(h, C) for h in T.FOLDS]
        if prefix:
            goal = z3.Implies(cond(C), z3.And(cond(snoc(C, c)), g(snoc(C, c)) == g(C)))
        else:
            goal = z3.Implies(cond(g(C)), g(snoc(C, c)) == g(C))
        return holds(goal, *hyps)
    for g, cond, prefix in T.KEPT:
        r('%s no longer changes' % g.name(), lambda g=g, cond=cond, prefix=prefix: side(g, cond, prefix))
    return out


def verify(E):
    from .engine import State, Unsupported
    for name, f in rules():
        if not f():
            raise Unsupported('rule not proved: ' + name)
        E.oblige(State(), True, 'lemma', name)


if __name__ == '__main__':
    import time
    from .contracts import guess, bundle, ext_pointer
    for name, f in rules():
        t = time.time()
        print('%-50s %s %.2f' % (name, f(), time.time() - t))
