"""Contracts for numbers held by dynamic values (src/Variant.cc)."""
import z3
from ..engine import *
from ..lib import *
from ..theory import bv
from ..variants import *
from .. import variants as V

TU = ['src/Variant.cc']
PID = 'P09'

CTYPES = [('bool', 'Bool', 1), ('int', 'Integer', 32), ('unsigned int', 'Unsigned', 32), ('long', 'Integer', 64), ('unsigned long', 'Unsigned', 64),
          ('long long', 'Integer', 64), ('unsigned long long', 'Unsigned', 64), ('double', 'Float', 'double'), ('long double', 'Float', 'x86_fp80')]


def verify_assign(E, ct):
    """a C++ number put into a value is read back as the same number"""
    V.setup(E)
    E.solvers = E.HEAVY
    name, t, w = ct
    for old in ('Null', 'Bool', 'Integer', 'Unsigned', 'Float'):
        st = State()
        st, p, _ = scalar(E, st, old, 'old')
        if t == 'Float':
            a = z3.FP('arg', FP[w])
            st.assume(z3.Not(z3.fpIsNaN(a)))
            x = z3.fpToFP(RNE, a, LD) if w == 'double' else a
        elif t == 'Bool':
            a = x = z3.Bool('arg')
        else:
            a = z3.BitVec('arg', w)
            x = a if w == 64 else z3.SignExt(64 - w, a) if t == 'Integer' else z3.ZeroExt(64 - w, a)
        E.cover(st, 'precondition')
        for kind, s, r in call(E, st, 'Assign(%s)' % name, [p, a]):
            E.oblige(s, kind == 'ret', PID, 'Assign(%s): succeeds' % name)
            if kind == 'ret':
                E.cover(s, 'assigned')
                expect_number(E, s, p, t, x, PID, 'Assign(%s)' % name)


def verify_read(E, t):
    """conversions of a number to the other number types"""
    V.setup(E)
    E.solvers = E.HEAVY
    st = State()
    st, p, x = scalar(E, st, t, 'v')
    E.cover(st, 'precondition')
    zero = z3.BitVecVal(0, 64)
    spec = [('AsBool() const', True, (lambda r: tob(r) == (to_bool(t, x) if t != 'Null' else False))),
            ('AsInt() const', fp_in(x, True) if t == 'Float' else True, lambda r: bv(r) == (to_int(t, x) if t != 'Null' else zero)),
            ('AsUnsigned() const', fp_in(x, False) if t == 'Float' else True, lambda r: bv(r) == (to_uint(t, x) if t != 'Null' else zero)),
            ('AsLongDouble() const', True, lambda r: r == (to_ld(t, x) if t != 'Null' else z3.FPVal(0.0, LD)))]
    for n, pre, post in spec:
        for kind, s, r in call(E, st.copy(), n, [p]):
            E.oblige(s, z3.Implies(pre, post(r)) if kind == 'ret' else False, PID, '%s of %s' % (n.split('(')[0], t))
            if t != 'Null':
                expect_number(E, s, p, t, x, PID, '%s of %s leaves the value' % (n.split('(')[0], t))


def verify_copies(E, t):
    """copying, assigning, copy construction"""
    V.setup(E)
    E.solvers = E.HEAVY
    for how in ('operator=(libvariant::Variant const&)', 'Assign(libvariant::Variant const&)', 'Variant(libvariant::Variant const&)', 'Copy() const'):
        st = State()
        st, p, x = scalar(E, st, t, 'v')
        if how.startswith('Variant('):
            q = E.new_obj(st, 'copy', size=DATA)
            a = [q, p]
        elif how.startswith('Copy'):
            q = E.new_obj(st, 'copy', size=DATA)
            a = [q, p]
        else:
            st, q, _ = scalar(E, st, 'Float', 'old')
            a = [q, p]
        E.cover(st, 'precondition ' + how)
        for kind, s, r in call(E, st, how, a):
            E.oblige(s, kind == 'ret', PID, how + ': succeeds')
            if kind == 'ret':
                expect_number(E, s, q, t, x, PID, how)
                expect_number(E, s, p, t, x, PID, how + ' leaves the original')


def verify_step(E, t):
    """++, --, negation"""
    V.setup(E)
    E.solvers = E.HEAVY
    one_ = z3.FPVal(1.0, LD) if t == 'Float' else z3.BitVecVal(1, 64)
    for n in ('Incr()', 'Decr()', 'Neg() const'):
        st = State()
        st, p, x = scalar(E, st, t, 'v')
        if t == 'Integer':
            st.assume(x != (1 << 63 if n != 'Incr()' else (1 << 63) - 1))
        if n[0] == 'N':
            want = z3.fpNeg(x) if t == 'Float' else -x
            q = E.new_obj(st, 'result', size=DATA)
            a = [q, p]
        else:
            want = (z3.fpAdd(RNE, x, one_) if n[0] == 'I' else z3.fpSub(RNE, x, one_)) if t == 'Float' else x + 1 if n[0] == 'I' else x - 1
            q = p
            a = [p]
        E.cover(st, 'precondition')
        for kind, s, r in call(E, st, n, a):
            E.oblige(s, kind == 'ret', PID, n + ': succeeds')
            if kind == 'ret':
                expect_number(E, s, q, t, want, PID, '%s of %s' % (n, t))
                if q is not p:
                    expect_number(E, s, p, t, x, PID, n + ' leaves the operand')


def common(a, b):
    return 'Float' if 'Float' in (a, b) else 'Unsigned' if 'Unsigned' in (a, b) else 'Integer'


CONV = {'Integer': to_int, 'Unsigned': to_uint, 'Float': to_ld}


def verify_binary(E, op, ta, tb):
    V.setup(E)
    E.solvers = E.HEAVY
    t = common(ta, tb)
    for alias in ((False, True) if ta == tb else (False,)):
        st = State()
        st, p, x = scalar(E, st, ta, 'a')
        if alias:
            q, y = p, x
        else:
            st, q, y = scalar(E, st, tb, 'b')
        X, Y = CONV[t](ta, x), CONV[t](tb, y)
        if t == 'Integer':
            if op == 'Add':
                st.assume(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
            elif op == 'Sub':
                st.assume(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
            elif op == 'Mul':
                st.assume(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
        if op in ('Div', 'Rem') and t != 'Float':
            st.assume(Y != 0)
            if t == 'Integer':
                st.assume(z3.Or(X != 1 << 63, Y != (1 << 64) - 1))
        f = {'Integer': {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Div': lambda a, b: a / b, 'Rem': z3.SRem},
             'Unsigned': {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Div': z3.UDiv, 'Rem': z3.URem},
             'Float': {'Add': lambda a, b: z3.fpAdd(RNE, a, b), 'Sub': lambda a, b: z3.fpSub(RNE, a, b), 'Mul': lambda a, b: z3.fpMul(RNE, a, b),
                       'Div': lambda a, b: z3.fpDiv(RNE, a, b), 'Rem': lambda a, b: E.fmodl(a, b)}}[t][op]
        if op not in ('Mul',) or t != 'Integer':
            E.cover(st, 'precondition')
        want = z3.simplify(f(X, Y))
        if t == 'Float':
            # the result is a number
            st.assume(z3.Not(z3.fpIsNaN(want)))
        for kind, s, r in call(E, st, '%s(libvariant::Variant const&)' % op, [p, q]):
            E.oblige(s, kind == 'ret', PID, '%s %s %s: succeeds' % (ta, op, tb))
            if kind == 'ret':
                expect_number(E, s, p, t, want, PID, '%s %s %s' % (ta, op, tb))
                if not alias:
                    expect_number(E, s, q, tb, y, PID, '%s %s %s: second operand unchanged' % (ta, op, tb))


def verify_compare(E, ta, tb):
    """Compare orders numbers of any two types as the numbers they are"""
    V.setup(E)
    E.solvers = E.HEAVY
    st = State()
    st, p, x = scalar(E, st, ta, 'a')
    st, q, y = scalar(E, st, tb, 'b')
    if 'Float' in (ta, tb):
        X, Y = to_ld(ta, x), to_ld(tb, y)
        lt, eq = z3.fpLT(X, Y), z3.fpEQ(X, Y)
    else:
        ex = lambda t, v: z3.SignExt(1, v) if t == 'Integer' else z3.ZeroExt(1, v)
        lt, eq = ex(ta, x) < ex(tb, y), ex(ta, x) == ex(tb, y)
    E.cover(st, 'precondition')
    for kind, s, r in call(E, st.copy(), 'Compare(libvariant::Variant const&) const', [p, q]):
        E.oblige(s, kind == 'ret', PID, 'Compare: succeeds')
        if kind == 'ret':
            E.oblige(s, z3.And((bv(r, 32) < 0) == lt, (bv(r, 32) == 0) == eq), PID, 'Compare %s with %s: sign is the order of the numbers' % (ta, tb))
            expect_number(E, s, p, ta, x, PID, 'Compare leaves the first')
            expect_number(E, s, q, tb, y, PID, 'Compare leaves the second')
    for kind, s, r in call(E, st.copy(), 'Comparable(libvariant::Variant const&) const', [p, q]):
        E.oblige(s, z3.And(kind == 'ret', tob(r)) if kind == 'ret' else False, PID, 'Comparable: numbers are comparable')


def verify_mixed(E, op, ta, tb):
    """arithmetic with something that is not a number is refused and changes nothing"""
    V.setup(E)
    st = State()
    st, p, x = scalar(E, st, ta, 'a')
    st, q, y = scalar(E, st, tb, 'b')
    before = [st.mem[p.obj], st.mem[q.obj]]
    E.cover(st, 'precondition')
    for kind, s, r in call(E, st, '%s(libvariant::Variant const&)' % op, [p, q]):
        E.oblige(s, kind == 'exc' and exc_name(r) in ('UnableToConvertError', 'NotNumericTypeError', 'UnknownTypeError'), PID, '%s %s %s: refused' % (ta, op, tb))
        same_ = all(set(b.cells) == set(s.mem[o.obj].cells) and all(same(b.cells[k][1], s.mem[o.obj].cells[k][1]) for k in b.cells) for b, o in zip(before, (p, q)))
        E.oblige(s, same_, PID, '%s %s %s: values unchanged' % (ta, op, tb))


def tasks(P, tier):
    from ..run import Task
    ts = []
    T_ = lambda n, f, a, funcs: ts.append(Task(n, f, a, props=(PID,), safety=PID, funcs=funcs))
    for ct in CTYPES:
        T_('Variant::Assign(%s)' % ct[0], verify_assign, (ct,), [VAR + '::Assign'])
    for t in ['Null', 'Bool'] + NUM:
        T_('number conversions of %s' % t, verify_read, (t,), [INT + t + '::' + f for f in ('AsBool', 'AsInt', 'AsUnsigned', 'AsLongDouble')])
    for t in ['Bool'] + NUM:
        T_('copying %s' % t, verify_copies, (t,), [INT + t + '::Copy', INT + 'VTable::Assign', INT + t + 'Init'])
    for t in NUM:
        T_('increment, decrement, negate %s' % t, verify_step, (t,), [INT + t + '::' + f for f in ('Incr', 'Decr', 'Neg')])
        for u in NUM:
            T_('Compare %s %s' % (t, u), verify_compare, (t, u), [INT + t + '::Compare', INT + 'VTable::Comparable'])
            for op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
                T_('%s %s %s' % (op, t, u), verify_binary, (op, t, u), [INT + 'Numeric::' + op, INT + 'NumericOperation', NS + 'NumericUpcast'])
        for u in ('Null', 'Bool', 'String'):
            for op in ('Add', 'Rem'):
                T_('%s %s %s' % (op, t, u), verify_mixed, (op, t, u), [INT + 'Numeric::' + op])
            T_('%s %s %s' % ('Mul', u, t), verify_mixed, ('Mul', u, t), [INT + 'VTable::Mul'])
    return ts
