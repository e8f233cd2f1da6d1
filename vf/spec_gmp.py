"""Trusted contracts of the external libraries (GMP, libm, libc).  Each is an assumption listed in evidence."""
import z3
import smt
from smt import fin, pinf, ninf, Int, Real, Bool
from contract import spec
from bview import npart, dpart, Q, canon, qfacts, nd, layer, Bof
from engine import to_int


def fincheck(c, *ps):
    for p in ps:
        n, d = nd(c, p)
        c.req(d > 0, 'finite operand')
        c.st.assume(qfacts(n, d))


def setq(c, p, val):
    """*p := canonical fraction equal to the real val"""
    c.mod('mpz', npart(p), dpart(p))

    def post(S):
        n, d = nd(S, p)
        return z3.And(d > 0, canon(n, d), Q(n, d) == val, qfacts(n, d))
    c.ens('value', post)


def qv(c, p):
    n, d = nd(c, p)
    return Q(n, d)


T = dict(trusted=True)


@spec('mpq_init', **T)
def _(c, a):
    "mpq_init: 0/1"
    if layer(c.E) == 'bnd':
        c.set('mpq', a, fin(z3.RealVal(0)))
    else:
        c.set('mpz', npart(a), z3.IntVal(0))
        c.set('mpz', dpart(a), z3.IntVal(1))
        c.st.assume(qfacts(z3.IntVal(0), z3.IntVal(1)))


@spec('mpq_clear', 'mpz_clear', 'mpfr_clear', '__gmpq_clear', '__gmpz_clear', **T)
def _(c, a):
    "releases storage only"


@spec('mpq_set', **T)
def _(c, a, b):
    "copies numerator and denominator"
    if layer(c.E) == 'bnd':
        c.set('mpq', a, c.at('mpq', b))
    else:
        c.set('mpz', npart(a), c.at('mpz', npart(b)))
        c.set('mpz', dpart(a), c.at('mpz', dpart(b)))


@spec('mpq_set_si', 'mpq_set_ui', **T)
def _(c, a, i, j):
    "num:=i, den:=j (not canonicalised)"
    if layer(c.E) == 'bnd':
        c.req(j == 1, 'denominator 1')
        c.set('mpq', a, fin(z3.ToReal(to_int(i))))
    else:
        c.set('mpz', npart(a), to_int(i))
        c.set('mpz', dpart(a), to_int(j))
        c.st.assume(qfacts(to_int(i), to_int(j)))


@spec('mpq_neg', **T)
def _(c, a, b):
    "negates the numerator"
    if layer(c.E) == 'bnd':
        c.set('mpq', a, smt.bneg(c.at('mpq', b)))
        return
    n, d = nd(c, b)
    c.set('mpz', npart(a), -n)
    c.set('mpz', dpart(a), d)
    c.st.assume(z3.And(qfacts(n, d), qfacts(-n, d), canon(-n, d) == canon(n, d), Q(-n, d) == -Q(n, d)))


@spec('mpq_abs', **T)
def _(c, a, b):
    "absolute value of the numerator"
    if layer(c.E) == 'bnd':
        v = c.at('mpq', b)
        c.set('mpq', a, z3.If(smt.bsgn(v) < 0, smt.bneg(v), v))
        return
    n, d = nd(c, b)
    m = z3.If(n < 0, -n, n)
    c.set('mpz', npart(a), m)
    c.set('mpz', dpart(a), d)
    c.st.assume(z3.And(qfacts(n, d), qfacts(m, d), canon(m, d) == canon(n, d), Q(m, d) == z3.If(n < 0, -Q(n, d), Q(n, d))))


def _arith(name, f):
    def s(c, a, b, d):
        if layer(c.E) == 'bnd':
            x, y = c.at('mpq', b), c.at('mpq', d)
            c.req(z3.And(smt.is_fin(x), smt.is_fin(y)), 'finite operands')
            if name == 'mpq_div':
                c.req(smt.bval(y) != 0, 'non-zero divisor')
            c.set('mpq', a, fin(f(smt.bval(x), smt.bval(y))))
            return
        fincheck(c, b, d)
        if name == 'mpq_div':
            c.req(qv(c, d) != 0, 'non-zero divisor')
        setq(c, a, f(qv(c, b), qv(c, d)))
    s.__doc__ = 'exact rational ' + name
    spec(name, **T)(s)


_arith('mpq_add', lambda x, y: x + y)
_arith('mpq_sub', lambda x, y: x - y)
_arith('mpq_mul', lambda x, y: x * y)
_arith('mpq_div', lambda x, y: x / y)


P2 = z3.Function('pow2', Int, Real)


def p2(k):
    if smt.isnum(k):
        e = k.as_long()
        return z3.RealVal(2 ** e) if e >= 0 else z3.Q(1, 2 ** -e)
    return P2(k)


@spec('mpq_mul_2exp', **T)
def _(c, a, b, k):
    "multiplies by 2^k"
    c.st.assume(p2(to_int(k)) > 0)
    if layer(c.E) == 'bnd':
        c.set('mpq', a, fin(smt.bval(c.at('mpq', b)) * p2(to_int(k))))
        return
    fincheck(c, b)
    setq(c, a, qv(c, b) * p2(to_int(k)))


@spec('mpq_div_2exp', **T)
def _(c, a, b, k):
    "divides by 2^k"
    k = to_int(k)
    c.st.assume(z3.And(p2(k) > 0, p2(k) * (p2(-k) if not smt.isnum(k) else p2(z3.IntVal(-k.as_long()))) == 1))
    if layer(c.E) == 'bnd':
        c.set('mpq', a, fin(smt.bval(c.at('mpq', b)) / p2(k)))
        return
    fincheck(c, b)
    setq(c, a, qv(c, b) / p2(k))


@spec('mpq_inv', **T)
def _(c, a, b):
    "1/b for b non-zero; an infinity +-1/0 becomes 0/1"
    n, d = nd(c, b)
    c.st.assume(qfacts(n, d))
    c.req(z3.Or(z3.And(d > 0, qv(c, b) != 0), z3.And(d == 0, n != 0)), 'non-zero')
    c.mod('mpz', npart(a), dpart(a))

    def post(S):
        m, e = nd(S, a)
        return z3.And(qfacts(m, e), z3.If(d > 0, z3.And(e > 0, canon(m, e), Q(m, e) == 1 / Q(n, d)), z3.Implies(z3.Or(n == 1, n == -1), z3.And(m == 0, e == 1))))
    c.ens('value', post)


@spec('mpq_cmp', '__gmpq_cmp', **T)
def _(c, a, b):
    "sign of a-b for finite a,b"
    if layer(c.E) == 'bnd':
        x, y = c.at('mpq', a), c.at('mpq', b)
        c.req(z3.And(smt.is_fin(x), smt.is_fin(y)), 'finite operands')
        x, y = smt.bval(x), smt.bval(y)
    else:
        fincheck(c, a, b)
        x, y = qv(c, a), qv(c, b)
    c.ens('sign', lambda S: z3.And((S.ret > 0) == (x > y), (S.ret < 0) == (x < y)))


@spec('mpq_cmp_si', '__gmpq_cmp_si', '__gmpq_cmp_ui', 'mpq_cmp_ui', **T)
def _(c, a, i, j):
    "sign of a-i/j for finite a"
    c.req(to_int(j) == 1, 'denominator 1')
    if layer(c.E) == 'bnd':
        x = c.at('mpq', a)
        c.req(smt.is_fin(x), 'finite operand')
        x = smt.bval(x)
    else:
        fincheck(c, a)
        x = qv(c, a)
    y = z3.ToReal(to_int(i))
    c.ens('sign', lambda S: z3.And((S.ret > 0) == (x > y), (S.ret < 0) == (x < y)))


@spec('mpq_equal', '__gmpq_equal', **T)
def _(c, a, b):
    "componentwise equality"
    if layer(c.E) == 'bnd':
        x, y = c.at('mpq', a), c.at('mpq', b)
        c.ens('eq', lambda S: (S.ret != 0) == (x == y))
        return
    n, d = nd(c, a)
    m, e = nd(c, b)
    c.st.assume(z3.And(qfacts(n, d), qfacts(m, e),
                       z3.Implies(z3.And(canon(n, d), canon(m, e), d > 0, e > 0, Q(n, d) == Q(m, e)), z3.And(n == m, d == e))))
    c.ens('eq', lambda S: (S.ret != 0) == z3.And(n == m, d == e))


@spec('mpq_canonicalize', '__gmpq_canonicalize', **T)
def _(c, a):
    "same value in lowest terms"
    n, d = nd(c, a)
    c.req(d > 0, 'positive denominator')
    c.st.assume(qfacts(n, d))
    setq(c, a, Q(n, d))


# ---- integers
@spec('mpz_set', **T)
def _(c, a, b):
    "copy"
    c.set('mpz', a, c.at('mpz', b))


@spec('mpz_set_si', 'mpz_set_ui', 'mpz_init_set_si', 'mpz_init_set_ui', **T)
def _(c, a, i):
    "a := i"
    c.set('mpz', a, to_int(i))


@spec('mpz_init_set', **T)
def _(c, a, b):
    "copy"
    c.set('mpz', a, c.at('mpz', b))


@spec('mpz_init', **T)
def _(c, a):
    "0"
    c.set('mpz', a, z3.IntVal(0))


@spec('mpz_neg', **T)
def _(c, a, b):
    "negation"
    c.set('mpz', a, -c.at('mpz', b))


@spec('mpz_abs', **T)
def _(c, a, b):
    "absolute value"
    v = c.at('mpz', b)
    c.set('mpz', a, z3.If(v < 0, -v, v))


for _nm, _f in (('mpz_add', lambda x, y: x + y), ('mpz_sub', lambda x, y: x - y), ('mpz_mul', lambda x, y: x * y)):
    def _mk(nm, f):
        def s(c, a, b, d):
            c.set('mpz', a, f(c.at('mpz', b), c.at('mpz', d)))
        s.__doc__ = 'exact ' + nm
        spec(nm, **T)(s)
        def s2(c, a, b, d):
            c.set('mpz', a, f(c.at('mpz', b), to_int(d)))
        s2.__doc__ = 'exact ' + nm
        spec(nm + '_ui', nm + '_si', **T)(s2)
    _mk(_nm, _f)


def _fdiv(c, a, b, d, kind):
    n, m = c.at('mpz', b), c.at('mpz', d)
    c.req(m > 0, 'positive divisor')
    c.st.assume(qfacts(n, m))
    q = Q(n, m)
    c.mod('mpz', a)

    def post(S):
        r = z3.ToReal(S.at('mpz', a))
        fl = z3.And(r <= q, q < r + 1)
        ce = z3.And(r >= q, q > r - 1)
        if kind == 'f':
            return fl
        if kind == 'c':
            return ce
        return z3.If(q >= 0, fl, ce)
    c.ens('quotient', post)


@spec('mpz_fdiv_q', **T)
def _(c, a, b, d):
    "floor division"
    _fdiv(c, a, b, d, 'f')


@spec('mpz_cdiv_q', **T)
def _(c, a, b, d):
    "ceiling division"
    _fdiv(c, a, b, d, 'c')


@spec('mpz_tdiv_q', **T)
def _(c, a, b, d):
    "truncating division"
    _fdiv(c, a, b, d, 't')


@spec('mpz_cmp', '__gmpz_cmp', **T)
def _(c, a, b):
    "sign of a-b"
    x, y = c.at('mpz', a), c.at('mpz', b)
    c.ens('sign', lambda S: z3.And((S.ret > 0) == (x > y), (S.ret < 0) == (x < y)))


@spec('mpz_cmp_ui', '__gmpz_cmp_ui', '__gmpz_cmp_si', 'mpz_cmp_si', **T)
def _(c, a, i):
    "sign of a-i"
    x, y = c.at('mpz', a), to_int(i)
    c.ens('sign', lambda S: z3.And((S.ret > 0) == (x > y), (S.ret < 0) == (x < y)))


@spec('mpz_sqrt', **T)
def _(c, a, b):
    "integer square root"
    v = c.at('mpz', b)
    c.req(v >= 0, 'non-negative')
    c.mod('mpz', a)
    c.ens('root', lambda S: z3.And(S.at('mpz', a) >= 0, S.at('mpz', a) * S.at('mpz', a) <= v,
                                   v < (S.at('mpz', a) + 1) * (S.at('mpz', a) + 1)))
    SQ = z3.Function('perfect_square', Int, Bool)
    c.ens('perfect', lambda S: z3.Implies(SQ(v), S.at('mpz', a) * S.at('mpz', a) == v))


@spec('mpz_perfect_square_p', '__gmpz_perfect_square_p', **T)
def _(c, a):
    "is a perfect square"
    v = c.at('mpz', a)
    SQ = z3.Function('perfect_square', Int, Bool)
    c.ens('sq', lambda S: (S.ret != 0) == SQ(v))


def _dunder():
    from contract import SPECS, TRUSTED
    for k in list(SPECS):
        for pre in ('mpq_', 'mpz_', 'mpfr_'):
            if k.startswith(pre) and '__g' + k[:2] not in k:
                kk = {'mpq_': '__gmpq_', 'mpz_': '__gmpz_'}.get(pre)
                if kk and kk + k[len(pre):] not in SPECS:
                    SPECS[kk + k[len(pre):]] = SPECS[k]
                    TRUSTED[kk + k[len(pre):]] = TRUSTED.get(k, '')


_dunder()
