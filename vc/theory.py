"""Ground theory used in the verification conditions.

Byte strings are the inductive datatype  Bytes ::= nil | snoc(Bytes, byte).
cat(B, a, o, n)  = B followed by a[o], ..., a[o+n-1]
app(B, C)        = B followed by C
arrof(B)         = an array whose first blen(B) entries are B's bytes
acopy(d,i,s,j,n) = d with d[i..i+n) replaced by s[j..j+n)
aset(d,i,c,n)    = d with d[i..i+n) replaced by c
rep(B, c, n)     = B followed by n times c
Lengths are below 2^62: the rules hold for byte strings and copies of fewer bytes, which is an assumption of every proof.
The rules below are instances of the defining equations and of lemmas that follow from them by induction
(vc/lemmas.py proves each one, in every check); they are instantiated on the ground terms of a query, never quantified,
so a refuted obligation comes with a model.
"""
import z3

BV8 = z3.BitVecSort(8)
BV64 = z3.BitVecSort(64)
_B = z3.Datatype('Bytes')
_B.declare('nil')
_B.declare('snoc', ('init', _B), ('last', BV8))
Bytes = _B.create()
nil = Bytes.nil
snoc = Bytes.snoc
ARR = z3.ArraySort(BV64, BV8)
cat = z3.Function('cat', Bytes, ARR, BV64, BV64, Bytes)
app = z3.Function('app', Bytes, Bytes, Bytes)
blen = z3.Function('blen', Bytes, BV64)
arrof = z3.Function('arrof', Bytes, ARR)
acopy = z3.Function('acopy', ARR, BV64, ARR, BV64, BV64, ARR)
aset = z3.Function('aset', ARR, BV64, BV8, BV64, ARR)
rep = z3.Function('rep', Bytes, BV8, BV64, Bytes)

FOLDS = {}      # name -> (function, value for nil, step)
KEPT = []       # (fold, values or prefixes at which it no longer changes, is it a condition on the prefix)
EXTRA = []      # extra instantiators: fn(terms_by_head, out, fresh_terms)


def bv(v, w=64):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def lit(s):
    if isinstance(s, str):
        s = s.encode('latin1')
    t = nil
    for c in s:
        t = snoc(t, z3.BitVecVal(c, 8))
    return t


def conc(t):
    """python bytes of a literal Bytes term or None"""
    out = []
    while True:
        d = t.decl()
        if d.eq(Bytes.nil.decl() if z3.is_app(Bytes.nil) else Bytes.nil):
            return bytes(reversed(out))
        if d.name() == 'snoc':
            c = z3.simplify(t.arg(1))
            if not z3.is_bv_value(c):
                return None
            out.append(c.as_long())
            t = t.arg(0)
        else:
            return None


def sel(a, i):
    """select with eager expansion of copies"""
    n = a.decl().name()
    if n == 'acopy':
        d, do, s, so, m = a.children()
        return z3.If(z3.ULT(i - do, m), sel(s, so + (i - do)), sel(d, i))
    if n == 'aset':
        d, do, c, m = a.children()
        return z3.If(z3.ULT(i - do, m), c, sel(d, i))
    if n == 'store':
        d, j, v = a.children()
        if i.eq(j):
            return v
        if z3.is_bv_value(i) and z3.is_bv_value(j):
            return sel(d, i)
        if d.decl().name() in ('acopy', 'aset', 'store', 'if', 'arrof', 'const-array', 'K'):
            return z3.If(i == j, v, sel(d, i))
        return z3.Select(a, i)
    if n == 'if':
        c, x, y = a.children()
        return z3.If(c, sel(x, i), sel(y, i))
    if n == 'arrof':
        b = a.arg(0)
        h = b.decl().name()
        if h == 'snoc':
            c = conc(b)
            if c is not None and len(c) <= 64:
                r = z3.Select(arrof(nil), i)
                for k, ch in enumerate(c):
                    r = z3.If(i == k, z3.BitVecVal(ch, 8), r)
                return r
            return z3.If(i == blen(b.arg(0)), b.arg(1), sel(arrof(b.arg(0)), i))
    return z3.Select(a, i)


def subterms(exprs):
    seen = {}
    st = list(exprs)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen[k] = e
        if z3.is_app(e):
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    return list(seen.values())


INTEREST = {'cat', 'app', 'blen', 'arrof', 'rep'}
EXTRA_HEADS = set()
_INT = {}       # expression id -> (expression, interesting subterms)
_AX = {}        # axiom key -> formula
_KEEP = []      # keeps terms alive so that their ids stay unique


def interesting(e):
    k = e.get_id()
    r = _INT.get(k)
    if r is None:
        seen = {}
        st = [e]
        out = []
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen[i] = x
            c = _INT.get(i)
            if c is not None:
                out.extend(c[1])
                continue
            if z3.is_app(x):
                n = x.decl().name()
                if n in INTEREST or n in EXTRA_HEADS:
                    out.append(x)
                st.extend(x.children())
        u = {t.get_id(): t for t in out}
        r = (e, list(u.values()))
        _INT[k] = r
    return r[1]


def roots(a, acc=None):
    """array constants an array term is built from"""
    acc = set() if acc is None else acc
    n = a.decl().name()
    if n == 'store' or n == 'aset':
        roots(a.arg(0), acc)
    elif n == 'acopy':
        roots(a.arg(0), acc)
        roots(a.arg(2), acc)
    elif n == 'if':
        roots(a.arg(1), acc)
        roots(a.arg(2), acc)
    else:
        acc.add(a.get_id())
    return acc


_CLOSED = {}
_HEAD = {}


def head(t):
    i = t.get_id()
    h = _HEAD.get(i)
    if h is None:
        h = (t.decl().name(), t)
        _HEAD[i] = h
    return h[0]


def axioms(exprs):
    ids = {}
    for e in exprs:
        for t in interesting(e):
            ids[t.get_id()] = t
    key = frozenset(ids)
    r = _CLOSED.get(key)
    if r is None:
        r = _axioms(list(ids.values()))
        _CLOSED[key] = r
    return r


def _axioms(exprs, rounds=18):
    out = []
    done = set()
    allt = {}
    pend = list(exprs)
    orig = {t.get_id() for e in exprs for t in interesting(e)}
    for _ in range(rounds):
        grew = False
        for e in pend:
            for t in interesting(e):
                if t.get_id() not in allt:
                    allt[t.get_id()] = t
                    grew = True
        if not grew:
            break
        by = {}
        for t in allt.values():
            by.setdefault(head(t), []).append(t)
        fresh = []

        def emit(key, f):
            """f: thunk building the axiom; key identifies it by term ids"""
            if key in done:
                return
            done.add(key)
            if key not in _AX:
                x = f() if callable(f) else f
                _AX[key] = x
                _KEEP.append((x, [allt[k] for k in key[1:] if k in allt]))
            x = _AX[key]
            if x is not None:
                fresh.append(x)
        cats = by.get('cat', [])
        for t in cats:
            cat_rules(t, emit)
        groups = {}
        for t in cats:
            groups.setdefault((t.arg(0).get_id(), t.arg(1).get_id()), []).append(t)
        for g in groups.values():
            for t1 in g:
                for t2 in g:
                    if t1 is not t2:
                        emit(('u', t1.get_id(), t2.get_id()), lambda t1=t1, t2=t2: unfold(t1, t2))
        by_arr = {}
        for t in cats:
            by_arr.setdefault(t.arg(1).get_id(), []).append(t)
        for g in by_arr.values():
            for t in g:
                if t.get_id() in orig and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).num_args() == 0:
                    for t1 in g:
                        if t1 is not t and t1.get_id() in orig and not t1.arg(0).eq(t.arg(0)):
                            emit(('jj', t.get_id(), t1.get_id()), lambda t=t, t1=t1: join(t, t1))
        reps = by.get('rep', [])
        for t in reps:
            if t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).num_args() == 0:
                for t1 in reps:
                    if t1 is not t and t1.get_id() in orig and t1.arg(1).eq(t.arg(1)) and not t1.arg(0).eq(t.arg(0)):
                        emit(('rj', t.get_id(), t1.get_id()), lambda t=t, t1=t1: rep_join(t, t1))
        for t in by.get('app', []):
            app_rules(t, emit)
        for t in by.get('rep', []):
            rep_rules(t, emit)
        for t in by.get('blen', []):
            len_rules(t, emit)
        for x in EXTRA:
            x(by, emit)
        if not fresh:
            break
        out.extend(fresh)
        pend = fresh
    return out


def unfold(t1, t2):
    B1, a1, o1, n1 = t1.children()
    B2, a2, o2, n2 = t2.children()
    d = z3.simplify(n2 - n1)
    if z3.is_bv_value(d) and d.as_long() != 1:
        return None
    return z3.Implies(z3.And(o1 == o2, n2 == n1 + 1, n2 != 0), t2 == snoc(t1, sel(a1, o1 + n1)))


def join(t, t1):
    B, a, o, n = t.children()
    B1, a1, o1, n1 = t1.children()
    return z3.Implies(z3.And(B == t1, o == o1 + n1), t == cat(B1, a, o1, simp_sum(n1 + n)))


def rep_join(t, t1):
    B, c, n = t.children()
    B1, c1, n1 = t1.children()
    return z3.Implies(z3.And(B == t1, z3.ULT(n1, 1 << 62), z3.ULT(n, 1 << 62)), t == rep(B1, c, simp_sum(n1 + n)))


def simp_sum(x):
    return z3.simplify(x)


def cat_rules(t, emit):
    B, a, o, n = t.children()
    i = t.get_id()
    emit(('z', i), lambda: (n == 0) == (t == B))
    if z3.is_bv_value(n):
        k = n.as_long()
        if 0 < k <= 64:
            def f():
                r = B
                for j in range(k):
                    r = snoc(r, sel(a, z3.simplify(o + j)))
                return t == r
            emit(('k', i), f)
    an = a.decl().name()
    if an == 'store':
        d, j, v = a.children()
        emit(('s', i), lambda: z3.Implies(z3.UGE(j - o, n), t == cat(B, d, o, n)))
        # store exactly at the end
        emit(('se', i), lambda: z3.Implies(z3.And(n != 0, j == o + n - 1), t == snoc(cat(B, d, o, n - 1), v)))
    elif an == 'acopy':
        d, do, s, so, m = a.children()
        emit(('c', i), lambda: z3.And(
            z3.Implies(z3.And(z3.UGE(do - o, n), z3.UGE(o - do, m)), t == cat(B, d, o, n)),
            z3.Implies(z3.And(z3.ULE(o - do, m), z3.ULE(n, m - (o - do))), t == cat(B, s, so + (o - do), n)),
            z3.Implies(z3.And(z3.ULE(do - o, n), z3.ULE(n - (do - o), m)), t == cat(cat(B, d, o, do - o), s, so, n - (do - o))),
        ))
    elif an == 'aset':
        d, do, c, m = a.children()
        emit(('as', i), lambda: z3.And(
            z3.Implies(z3.And(z3.UGE(do - o, n), z3.UGE(o - do, m)), t == cat(B, d, o, n)),
            z3.Implies(z3.And(z3.ULE(o - do, m), z3.ULE(n, m - (o - do))), t == rep(B, c, n)),
            z3.Implies(z3.And(z3.ULE(do - o, n), z3.ULE(n - (do - o), m)), t == rep(cat(B, d, o, do - o), c, n - (do - o))),
        ))
    elif an == 'arrof':
        emit(('ao', i), lambda: z3.Implies(z3.And(o == 0, n == blen(a.arg(0))), t == app(B, a.arg(0))))
    elif an == 'if':
        c, x, y = a.children()
        emit(('if', i), lambda: t == z3.If(c, cat(B, x, o, n), cat(B, y, o, n)))
    if B.decl().name() == 'cat':
        B1, a1, o1, n1 = B.children()
        if a1.eq(a):
            emit(('j', i), lambda: z3.Implies(o == o1 + n1, t == cat(B1, a, o1, n1 + n)))


def rep_rules(t, emit):
    B, c, n = t.children()
    i = t.get_id()
    emit(('r0', i), lambda: (n == 0) == (t == B))
    if z3.is_bv_value(n) and n.as_long() == 1:
        emit(('r1', i), lambda: t == snoc(B, c))
    if B.decl().name() == 'rep' and B.arg(1).eq(c):
        m = B.arg(2)
        emit(('rr', i), lambda: z3.Implies(z3.And(z3.ULT(m, 1 << 62), z3.ULT(n, 1 << 62)), t == rep(B.arg(0), c, m + n)))


def app_rules(t, emit):
    B, C = t.children()
    i = t.get_id()
    emit(('a0', i), lambda: z3.And(z3.Implies(C == nil, t == B), z3.Implies(B == nil, t == C)))
    h = C.decl().name()
    if h == 'snoc':
        emit(('a1', i), lambda: t == snoc(app(B, C.arg(0)), C.arg(1)))
    elif h == 'cat':
        emit(('a2', i), lambda: t == cat(app(B, C.arg(0)), C.arg(1), C.arg(2), C.arg(3)))
    elif h == 'rep':
        emit(('a4', i), lambda: t == rep(app(B, C.arg(0)), C.arg(1), C.arg(2)))
    elif h == 'app':
        emit(('a3', i), lambda: t == app(app(B, C.arg(0)), C.arg(1)))


def len_rules(t, emit):
    B = t.arg(0)
    i = t.get_id()
    h = B.decl().name()
    emit(('lb', i), lambda: z3.ULT(t, z3.BitVecVal(1 << 62, 64)))
    emit(('l0', i), lambda: (t == 0) == (B == nil))
    if h == 'snoc':
        emit(('l1', i), lambda: t == blen(B.arg(0)) + 1)
    elif h == 'cat':
        emit(('l2', i), lambda: t == blen(B.arg(0)) + B.arg(3))
    elif h == 'rep':
        emit(('l5', i), lambda: t == blen(B.arg(0)) + B.arg(2))
    elif h == 'app':
        emit(('l3', i), lambda: t == blen(B.arg(0)) + blen(B.arg(1)))
    elif h == 'if':
        emit(('l4', i), lambda: t == z3.If(B.arg(0), blen(B.arg(1)), blen(B.arg(2))))


# ------------------------------------------------------------------ folds over byte strings
def _depth(t):
    n = 0
    while t.decl().name() == 'init':
        n += 1
        t = t.arg(0)
    return n


def fold(name, sort, base, step):
    """f(nil) = base, f(snoc(b,c)) = step(f(b), b, c); instantiated on ground terms"""
    f = z3.Function(name, Bytes, sort)
    EXTRA_HEADS.add(name)
    FOLDS[name] = (f, base, step)

    def inst(by, emit):
        for t in by.get(name, []):
            B = t.arg(0)
            i = t.get_id()
            h = B.decl().name()
            if h == 'nil':
                emit(('f0', i), lambda t=t: t == base)
            elif h == 'snoc':
                emit(('f1', i), lambda t=t, B=B: t == step(f(B.arg(0)), B.arg(0), B.arg(1)))
            elif h == 'if':
                emit(('f2', i), lambda t=t, B=B: t == z3.If(B.arg(0), f(B.arg(1)), f(B.arg(2))))
            else:
                b0, c0 = Bytes.init(B), Bytes.last(B)
                emit(('f3', i), lambda t=t, B=B: z3.Implies(B == nil, t == base))
                if _depth(B) < 2:
                    emit(('f4', i), lambda t=t, B=B, b0=b0, c0=c0: z3.Implies(B != nil, t == step(f(b0), b0, c0)))
    EXTRA.append(inst)
    return f


def settled(f, final):
    """f is a fold whose step keeps the values that satisfy final: such a value for a prefix of a byte string is the value for the whole
    (induction over the rest)"""
    name = f.name()
    KEPT.append((f, final, False))

    def inst(by, emit):
        for t in by.get(name, []):
            B = t.arg(0)
            if B.decl().name() == 'cat' and B.arg(0).eq(nil) and B.arg(1).decl().name() == 'arrof':
                emit(('set', t.get_id()), lambda t=t, B=B: z3.Implies(z3.And(B.arg(2) == 0, z3.ULE(B.arg(3), blen(B.arg(1).arg(0))), final(t)), f(B.arg(1).arg(0)) == t))
    EXTRA.append(inst)


def frozen(f, when):
    """f is a fold whose step keeps the value of f once when(the bytes so far) holds, which the step keeps too: the value for a prefix
    with when(prefix) is the value for the whole (induction over the rest)"""
    name = f.name()
    KEPT.append((f, when, True))

    def inst(by, emit):
        for t in by.get(name, []):
            B = t.arg(0)
            if B.decl().name() == 'cat' and B.arg(0).eq(nil) and B.arg(1).decl().name() == 'arrof':
                emit(('frz', t.get_id()), lambda t=t, B=B: z3.Implies(z3.And(B.arg(2) == 0, z3.ULE(B.arg(3), blen(B.arg(1).arg(0))), when(B)), f(B.arg(1).arg(0)) == t))
    EXTRA.append(inst)


def absorbing(f):
    """f is a Boolean fold whose step keeps false"""
    settled(f, z3.Not)


def fold_from(name, step):
    """f(x, nil) = x, f(x, snoc(b,c)) = step(f(x,b), c), byte strings throughout"""
    f = z3.Function(name, Bytes, Bytes, Bytes)
    EXTRA_HEADS.add(name)

    def inst(by, emit):
        for t in by.get(name, []):
            X, B = t.children()
            i = t.get_id()
            h = B.decl().name()
            if h == 'nil':
                emit(('g0', i), lambda t=t, X=X: t == X)
            elif h == 'snoc':
                emit(('g1', i), lambda t=t, X=X, B=B: t == step(f(X, B.arg(0)), B.arg(1)))
            else:
                emit(('g2', i), lambda t=t, X=X, B=B: z3.Implies(B == nil, t == X))
                if _depth(B) < 2:
                    b0, c0 = Bytes.init(B), Bytes.last(B)
                    emit(('g3', i), lambda t=t, X=X, B=B, b0=b0, c0=c0: z3.Implies(B != nil, t == step(f(X, b0), c0)))
    EXTRA.append(inst)
    return f


nz = fold('nz', z3.BoolSort(), z3.BoolVal(True), lambda r, b, c: z3.And(r, c != 0))

# cstr(a,o): the bytes of the C string that starts at a[o]
cstr = z3.Function('cstr', ARR, BV64, Bytes)
EXTRA_HEADS.add('cstr')


def _cstr(by, emit):
    for t in by.get('cstr', []):
        a, o = t.children()
        ra = roots(a)
        emit(('cs', t.get_id()), lambda t=t: nz(t))
        for c in by.get('cat', []):
            B, a2, o2, n = c.children()
            if B.eq(nil) and (ra & roots(a2)):
                def f(t=t, a=a, o=o, n=n):
                    x = cat(nil, a, o, n)
                    return z3.Implies(z3.And(nz(x), sel(a, o + n) == 0), t == x)
                emit(('cs', t.get_id(), n.get_id()), f)


EXTRA.append(_cstr)
