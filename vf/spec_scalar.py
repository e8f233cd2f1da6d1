"""Contracts of scalars, intervals and coefficients (apron/ap_scalar.c, ap_interval.c, ap_coeff.c).
A scalar denotes an extended rational whatever its representation (double without NaN, GMP rational, MPFR number);
the members of its union are modelled as separate cells, the discriminant selects the one that counts."""
import z3
import smt
from smt import fp, root, null, Int, Ptr, fin, pinf, ninf, is_fin, bval, bneg, bsgn, ble
from contract import spec
from bview import layer, Bof, nd, wf, npart, dpart, Q, qfacts, canon
from engine import to_int, to_bool, fid
from spec_gmp import setq

SCALAR, COEFF = [], []
T = dict(trusted=True)


def sspec(*names):
    SCALAR.extend(names)
    return spec(*names)


def cspec(*names):
    COEFF.extend(names)
    return spec(*names)


# ---- assumed contracts of MPFR (values without NaN; precision tracked)
def exact_if(c, a, v, prec_needed, label='value'):
    c.mod('mpfr', a)
    pr = c.at('mpfrprec', a)
    c.ens(label, lambda S: z3.Implies(z3.Or(z3.Not(is_fin(v)), pr >= prec_needed), S.at('mpfr', a) == v))


@spec('mpfr_init', **T)
def _(c, a):
    "new number of the default precision"
    c.mod('mpfr', a)
    c.mod('mpfrprec', a)
    c.ens('precision', lambda S: S.at('mpfrprec', a) >= 1)


@spec('mpfr_init2', **T)
def _(c, a, k):
    "new number of the given precision"
    c.mod('mpfr', a)
    c.set('mpfrprec', a, to_int(k))


@spec('mpfr_set_prec', **T)
def _(c, a, k):
    "changes the precision, loses the value"
    c.mod('mpfr', a)
    c.set('mpfrprec', a, to_int(k))


@spec('mpfr_get_prec', **T)
def _(c, a):
    "the precision"
    c.st.assume(c.at('mpfrprec', a) >= 1)
    c.returns(c.at('mpfrprec', a))


def _copy(f):
    def s(c, a, b, r):
        "exact when the destination has at least the precision of the source"
        exact_if(c, a, f(c.at('mpfr', b)), c.at('mpfrprec', b))
    return s


spec('mpfr_set', 'mpfr_set4', **T)(_copy(lambda v: v))
spec('mpfr_neg', **T)(_copy(bneg))


@spec('mpfr_set_si', **T)
def _(c, a, i, r):
    "exact for -1, 0, 1"
    i = to_int(i)
    c.mod('mpfr', a)
    c.ens('value', lambda S: z3.Implies(z3.And(i >= -1, i <= 1), S.at('mpfr', a) == fin(z3.ToReal(i))))


@spec('mpfr_set_inf', **T)
def _(c, a, s):
    "+oo if the sign is non-negative, -oo otherwise"
    c.set('mpfr', a, z3.If(to_int(s) >= 0, pinf, ninf))


@spec('mpfr_ui_div', **T)
def _(c, a, i, b, r):
    "some rounded quotient"
    c.mod('mpfr', a)


@spec('mpfr_inf_p', **T)
def _(c, a):
    "is infinite"
    c.ens('inf', lambda S: (S.ret != 0) == z3.Not(is_fin(c.at('mpfr', a))))


@spec('mpfr_sgn', **T)
def _(c, a):
    "sign"
    s = bsgn(c.at('mpfr', a))
    c.ens('sign', lambda S: z3.And((S.ret > 0) == (s > 0), (S.ret < 0) == (s < 0)))


def csign(c, x, y):
    c.ens('sign', lambda S: z3.And((S.ret > 0) == z3.Not(ble(x, y)), (S.ret < 0) == z3.Not(ble(y, x))))


@spec('mpfr_cmp', **T)
def _(c, a, b):
    "sign of the difference"
    csign(c, c.at('mpfr', a), c.at('mpfr', b))


@spec('mpfr_equal_p', **T)
def _(c, a, b):
    "equality"
    c.ens('eq', lambda S: (S.ret != 0) == (c.at('mpfr', a) == c.at('mpfr', b)))


@spec('mpfr_cmp_q', **T)
def _(c, a, b):
    "sign of the difference with a finite rational"
    if layer(c.E) == 'num':
        c.req(nd(c, b)[1] > 0, 'finite rational')
    csign(c, c.at('mpfr', a), Bof(c, b))


@spec('mpfr_cmp_d', **T)
def _(c, a, k):
    "sign of the difference with a double"
    csign(c, c.at('mpfr', a), k)


@spec('mpfr_cmp_si', **T)
def _(c, a, k):
    "sign of the difference with an integer"
    csign(c, c.at('mpfr', a), fin(z3.ToReal(to_int(k))))


@spec('mpq_set_d', '__gmpq_set_d', **T)
def _(c, a, k):
    "the value of a finite double, exactly"
    c.req(is_fin(k), 'finite double')
    if layer(c.E) == 'bnd':
        c.set('mpq', a, k)
    else:
        setq(c, a, bval(k))


@spec('mpfr_clear', **T)
def _(c, a):
    "releases storage only"


@spec('mpfr_number_p', **T)
def _(c, a):
    "is finite"
    c.ens('fin', lambda S: (S.ret != 0) == is_fin(c.at('mpfr', a)))


@spec('mpfr_get_z_2exp', **T)
def _(c, z, f):
    "mantissa and exponent: f = z * 2^result, exactly"
    v = c.at('mpfr', f)
    c.req(is_fin(v), 'finite number')
    c.mod('mpz', z)
    from spec_gmp import P2
    c.st.assume(P2(z3.IntVal(0)) == 1)

    def post(S):
        e = to_int(S.ret)
        return z3.And(bval(v) == z3.ToReal(S.at('mpz', z)) * P2(e), P2(e) > 0, P2(e) * P2(-e) == 1)
    c.ens('value', post)


def rounds(r, v, w):
    """w is v rounded in the direction r"""
    r = to_int(r)
    up, down = ble(v, w), ble(w, v)
    return z3.And(z3.Implies(r == 2, up), z3.Implies(r == 3, down), z3.Implies(r == 1, z3.If(bsgn(v) >= 0, z3.And(down, bsgn(w) >= 0), z3.And(up, bsgn(w) <= 0))), z3.Implies(z3.Not(is_fin(v)), w == v))


def ternary(ret, v, w):
    return z3.And((ret > 0) == z3.Not(ble(w, v)), (ret < 0) == z3.Not(ble(v, w)))


def _conv(get):
    def s(c, a, b, r):
        "directed rounding; the result tells on which side"
        v = get(c, b)
        c.mod('mpfr', a)
        c.ens('rounded', lambda S: z3.And(rounds(r, v, S.at('mpfr', a)), ternary(S.ret, v, S.at('mpfr', a))))
    return s


spec('mpfr_set_q', **T)(_conv(lambda c, b: Bof(c, b)))
spec('mpfr_set_d', **T)(_conv(lambda c, b: b))
_exact = _copy(lambda v: v)


@spec('mpfr_set', 'mpfr_set4', **T)
def _(c, a, b, r):
    "directed rounding, exact when the destination has at least the precision of the source; the result tells on which side"
    v = c.at('mpfr', b)
    exact_if(c, a, v, c.at('mpfrprec', b))
    c.ens('rounded', lambda S: z3.And(rounds(r, v, S.at('mpfr', a)), ternary(S.ret, v, S.at('mpfr', a))))


@spec('mpfr_get_d', **T)
def _(c, a, r):
    "directed rounding to a double"
    v = c.at('mpfr', a)
    c.ens('rounded', lambda S: rounds(r, v, S.ret))


# ---- scalars
DBL, MPQ, MPFR = 0, 1, 2


def F(r, f):
    return fid(r, f)


def d_at(a):
    return fp(a, F('ap_scalar_t', 'discr'))


def u_at(a, f):
    return fp(fp(a, F('ap_scalar_t', 'val')), F('anon', f))


def discr(V, a):
    return V.at('enum', d_at(a))


def store(V, a):
    """the storage of a rational or MPFR value"""
    d = discr(V, a)
    return z3.If(d == MPQ, V.at('ptr', u_at(a, 'mpq')), V.at('ptr', u_at(a, 'mpfr')))


def val(V, a):
    d = discr(V, a)
    return z3.If(d == DBL, V.at('flt', u_at(a, 'dbl')), z3.If(d == MPQ, Bof(V, V.at('ptr', u_at(a, 'mpq'))), V.at('mpfr', V.at('ptr', u_at(a, 'mpfr')))))


def valid(V, a, n):
    d = discr(V, a)
    qq, qf = V.at('ptr', u_at(a, 'mpq')), V.at('ptr', u_at(a, 'mpfr'))
    cs = [d >= 0, d <= 2, z3.Implies(d == MPQ, root(qq) < n), z3.Implies(d == MPFR, z3.And(root(qf) < n, V.at('mpfrprec', qf) >= 1))]
    if layer(V.E) == 'num':
        cs.append(z3.Implies(d == MPQ, wf(*nd(V, qq))))
    return z3.And(*cs)


class Sc(object):
    def __init__(self, c, a):
        self.c, self.a = c, a
        c.nonnull(a)
        c.req(valid(c, a, c.n0), 'a scalar in one of the three representations')
        self.d = c.nm(discr(c, a))
        self.v = c.nm(val(c, a))
        self.s = c.nm(store(c, a))


def disj(V, a, b):
    """two scalars are different objects with different storage"""
    return z3.And(a != b, z3.Or(discr(V, a) == DBL, discr(V, b) == DBL, root(store(V, a)) != root(store(V, b))))


def apart(c, xs, ys, same=()):
    for x in xs:
        for y in ys:
            if x.a.eq(y.a):
                continue
            c.req(z3.Or(*([z3.BoolVal(bool(False))] + list(same) + [disj(c, x.a, y.a)])), 'distinct scalars share nothing')


def writes(c, xs, keep=()):
    """the scalars xs (and their storage) may change; keep: representation unchanged"""
    c.allocs = True
    for x in xs:
        if x.a not in keep:
            c.mod('enum', d_at(x.a))
            c.mod('ptr', u_at(x.a, 'mpq'), u_at(x.a, 'mpfr'))
        c.mod('flt', u_at(x.a, 'dbl'))

        def reg(x, cls, k, f):
            c.region(cls, lambda p: z3.And(x.d == k, f(p)), [root(x.s)])
        if layer(c.E) == 'num':
            reg(x, 'mpz', MPQ, lambda p, x=x: z3.Or(p == npart(x.s), p == dpart(x.s)))
        else:
            reg(x, 'mpq', MPQ, lambda p, x=x: p == x.s)
        reg(x, 'mpfr', MPFR, lambda p, x=x: p == x.s)
        reg(x, 'mpfrprec', MPFR, lambda p, x=x: p == x.s)
    c.ens('the written scalars are well formed', lambda S: z3.And(*[valid(S, x.a, S.st.n) for x in xs]))
    for x in xs:
        c.ens('storage is the old one or a new one', lambda S, x=x: z3.Or(discr(S, x.a) == DBL, root(store(S, x.a)) >= c.n0,
                                                                   *[z3.And(y.d == discr(S, x.a), store(S, x.a) == y.s) for y in xs]))
    for i, x in enumerate(xs):
        for y in xs[:i]:
            c.ens('written scalars share nothing', lambda S, x=x, y=y: disj(S, x.a, y.a))


def becomes(c, x, d, v, label='value'):
    if d is not None:
        c.ens('representation', lambda S: discr(S, x.a) == d)
    if v is not None:
        c.ens(label, lambda S: val(S, x.a) == (v(S) if callable(v) else v))


def newscalar(c, d, v):
    c.allocs = True
    c.freshret = True
    for cls in ('enum', 'ptr', 'flt', 'mpfr', 'mpfrprec', 'mpz' if layer(c.E) == 'num' else 'mpq'):
        c.H(cls)
    c.ens('the new scalar is well formed', lambda S: z3.And(valid(S, S.ret, S.st.n),
                                                      z3.Or(discr(S, S.ret) == DBL, z3.And(root(store(S, S.ret)) >= c.n0, root(store(S, S.ret)) != root(S.ret)))))
    c.ens('representation', lambda S: discr(S, S.ret) == d)
    c.ens('value', lambda S: val(S, S.ret) == v)


@sspec('ap_scalar_alloc')
def _(c):
    newscalar(c, DBL, fin(z3.RealVal(0)))


@sspec('ap_scalar_alloc_set')
def _(c, b):
    x = Sc(c, b)
    newscalar(c, x.d, x.v)


def mpqarg(c, q):
    c.nonnull(q)
    c.req(root(q) < c.n0, 'an existing number')
    return c.nm(c.B(q))


def mpfrarg(c, q):
    c.nonnull(q)
    c.req(z3.And(root(q) < c.n0, c.at('mpfrprec', q) >= 1), 'an existing number')
    return c.nm(c.at('mpfr', q))


@sspec('ap_scalar_alloc_set_mpq')
def _(c, q):
    newscalar(c, z3.IntVal(MPQ), mpqarg(c, q))


@sspec('ap_scalar_alloc_set_mpfr')
def _(c, q):
    newscalar(c, z3.IntVal(MPFR), mpfrarg(c, q))


@sspec('ap_scalar_alloc_set_double')
def _(c, k):
    newscalar(c, z3.IntVal(DBL), k)


@sspec('ap_scalar_free')
def _(c, a):
    Sc(c, a)


@sspec('ap_scalar_reinit')
def _(c, a, d):
    x = Sc(c, a)
    d = to_int(d)
    c.req(z3.And(d >= 0, d <= 2), 'a representation')
    writes(c, [x])
    c.ens('representation', lambda S: discr(S, a) == d)
    c.ens('unchanged if already in that representation', lambda S: z3.Implies(x.d == d, z3.And(val(S, a) == x.v, store(S, a) == x.s, z3.Implies(d == MPFR, S.at('mpfrprec', x.s) == c.at('mpfrprec', x.s)))))


@sspec('ap_scalar_set')
def _(c, a, b):
    x, y = Sc(c, a), Sc(c, b)
    apart(c, [x], [y], [a == b])
    writes(c, [x])
    becomes(c, x, y.d, y.v)
    c.ens('precision', lambda S: z3.Implies(z3.And(a != b, y.d == MPFR), S.at('mpfrprec', store(S, a)) == c.at('mpfrprec', y.s)))


@sspec('ap_scalar_set_mpq')
def _(c, a, q):
    x = Sc(c, a)
    v = mpqarg(c, q)
    c.req(z3.Or(x.d != MPQ, x.s == q, root(x.s) != root(q)), 'the source is not part of the storage')
    writes(c, [x])
    becomes(c, x, MPQ, v)


@sspec('ap_scalar_set_mpfr')
def _(c, a, q):
    x = Sc(c, a)
    v = mpfrarg(c, q)
    c.req(z3.Or(x.d != MPFR, root(x.s) != root(q)), 'the source is not the storage')
    writes(c, [x])
    becomes(c, x, MPFR, v)


@sspec('ap_scalar_set_int')
def _(c, a, i):
    x = Sc(c, a)
    writes(c, [x])
    becomes(c, x, MPQ, fin(z3.ToReal(to_int(i))))


@sspec('ap_scalar_set_frac')
def _(c, a, i, j):
    x = Sc(c, a)
    i, j = to_int(i), to_int(j)
    c.req(j > 0, 'non-zero denominator')
    writes(c, [x])
    c.assume(qfacts(i, j))
    becomes(c, x, MPQ, fin(Q(i, j)))


@sspec('ap_scalar_set_double')
def _(c, a, k):
    x = Sc(c, a)
    writes(c, [x])
    becomes(c, x, DBL, k)


@sspec('ap_scalar_set_infty')
def _(c, a, s):
    x = Sc(c, a)
    s = to_int(s)
    writes(c, [x])
    c.assume(qfacts(z3.IntVal(0), z3.IntVal(1)))
    becomes(c, x, x.d, z3.If(s > 0, pinf, z3.If(s < 0, ninf, fin(z3.RealVal(0)))))


@sspec('ap_mpq_set_scalar')
def _(c, q, a, r):
    x = Sc(c, a)
    c.nonnull(q)
    c.req(z3.And(root(q) < c.n0, z3.Or(x.d == DBL, q == x.s, root(q) != root(x.s))), 'the destination is not part of the storage')
    c.assume(qfacts(z3.IntVal(0), z3.IntVal(1)))
    c.setB(q, x.v)
    c.returns(z3.IntVal(0))


@sspec('ap_double_set_scalar')
def _(c, k, a, r):
    x = Sc(c, a)
    c.nonnull(k)
    c.req(k != u_at(a, 'dbl'), 'the destination is not part of the scalar')
    c.mod('flt', k)
    # rounding to nearest is only checked for the exactness flag
    c.ens('rounded in the requested direction', lambda S: rounds(r, x.v, S.at('flt', k)))
    c.ens('the result tells on which side, for directed rounding', lambda S: z3.Implies(z3.And(to_int(r) >= 1, to_int(r) <= 3), ternary(S.ret, x.v, S.at('flt', k))))


@sspec('ap_mpfr_set_scalar')
def _(c, f, a, r):
    x = Sc(c, a)
    c.nonnull(f)
    c.req(z3.And(root(f) < c.n0, z3.Or(x.d == DBL, root(f) != root(x.s))), 'the destination is not part of the storage')
    c.mod('mpfr', f)
    c.ens('rounded in the requested direction', lambda S: rounds(r, x.v, S.at('mpfr', f)))
    c.ens('the result tells on which side', lambda S: ternary(S.ret, x.v, S.at('mpfr', f)))


def sign3(c, x, y, cond=True):
    c.ens('-1, 0 or 1 according to the order of the values', lambda S: z3.And((S.ret == 1) == z3.Not(ble(x, y)), (S.ret == -1) == z3.Not(ble(y, x)), (S.ret == 0) == (x == y)))


@sspec('ap_scalar_infty')
def _(c, a):
    x = Sc(c, a)
    c.returns(z3.If(x.v == pinf, z3.IntVal(1), z3.If(x.v == ninf, z3.IntVal(-1), z3.IntVal(0))))


@sspec('ap_scalar_cmp')
def _(c, a, b):
    x, y = Sc(c, a), Sc(c, b)
    sign3(c, x.v, y.v)


@sspec('ap_scalar_cmp_int')
def _(c, a, i):
    x = Sc(c, a)
    sign3(c, x.v, fin(z3.ToReal(to_int(i))))


@sspec('ap_scalar_equal')
def _(c, a, b):
    x, y = Sc(c, a), Sc(c, b)
    c.returns(x.v == y.v)


@sspec('ap_scalar_equal_int')
def _(c, a, i):
    x = Sc(c, a)
    c.returns(x.v == fin(z3.ToReal(to_int(i))))


@sspec('ap_scalar_sgn')
def _(c, a):
    x = Sc(c, a)
    s = bsgn(x.v)
    c.ens('sign', lambda S: z3.And((S.ret == 1) == (s > 0), (S.ret == -1) == (s < 0), (S.ret == 0) == (s == 0)))


@sspec('ap_scalar_neg')
def _(c, a, b):
    x, y = Sc(c, a), Sc(c, b)
    apart(c, [x], [y], [a == b])
    writes(c, [x])
    becomes(c, x, y.d, bneg(y.v))


@sspec('ap_scalar_inv')
def _(c, a, b):
    x, y = Sc(c, a), Sc(c, b)
    apart(c, [x], [y], [a == b])
    c.req(y.v != fin(z3.RealVal(0)), 'non-zero')
    writes(c, [x])
    becomes(c, x, y.d, None)
    c.ens('exact inverse of rationals', lambda S: z3.Implies(y.d == MPQ, val(S, a) == z3.If(is_fin(y.v), fin(1 / bval(y.v)), fin(z3.RealVal(0)))))


@sspec('ap_scalar_swap')
def _(c, a, b):
    x, y = Sc(c, a), Sc(c, b)
    c.req(disj(c, a, b), 'distinct scalars share nothing')
    for s in (x, y):
        c.mod('enum', d_at(s.a))
        c.mod('ptr', u_at(s.a, 'mpq'), u_at(s.a, 'mpfr'))
        c.mod('flt', u_at(s.a, 'dbl'))
    for s, t in ((x, y), (y, x)):
        c.ens('exchanged', lambda S, s=s, t=t: z3.And(discr(S, s.a) == t.d, val(S, s.a) == t.v, valid(S, s.a, c.n0), z3.Implies(t.d != DBL, store(S, s.a) == t.s)))


# ---- intervals
def iptr(V, i, f):
    return V.at('ptr', fp(i, F('ap_interval_t', f)))


class Iv(object):
    def __init__(self, c, i):
        self.c, self.a = c, i
        c.nonnull(i)
        self.inf = Sc(c, c.nm(c.ptrat(fp(i, F('ap_interval_t', 'inf')))))
        self.sup = Sc(c, c.nm(c.ptrat(fp(i, F('ap_interval_t', 'sup')))))
        self.sc = [self.inf, self.sup]
        c.req(z3.And(root(self.inf.a) < c.n0, root(self.sup.a) < c.n0), 'allocated bounds')
        c.req(disj(c, self.inf.a, self.sup.a), 'the two bounds share nothing')
        self.lo, self.hi = self.inf.v, self.sup.v


def isbot(x):
    return z3.Not(ble(x.lo, x.hi))


def incl(x, y):
    return z3.Or(isbot(x), z3.And(ble(y.lo, x.lo), ble(x.hi, y.hi)))


def bounds(V, i):
    return val(V, iptr(V, i, 'inf')), val(V, iptr(V, i, 'sup'))


@cspec('ap_interval_is_top')
def _(c, i):
    x = Iv(c, i)
    c.returns(z3.And(x.lo == ninf, x.hi == pinf))


@cspec('ap_interval_is_bottom')
def _(c, i):
    x = Iv(c, i)
    c.returns(isbot(x))


@cspec('ap_interval_is_leq')
def _(c, i, j):
    x, y = Iv(c, i), Iv(c, j)
    c.returns(incl(x, y))


def itvcmp(c, x, y, guard=None):
    g = (lambda f: f) if guard is None else (lambda f: z3.Implies(guard, f))
    e, l, r = z3.And(incl(x, y), incl(y, x)), incl(x, y), incl(y, x)
    sinf = z3.Not(ble(x.lo, y.lo))
    # bounds in the same order: documented result depends on inclusion only, up to the choice made for two empty intervals
    def post(S):
        s = S.ret
        both = z3.And(isbot(x), isbot(y))
        return g(z3.And(s >= -2, s <= 2, z3.Implies(s == 0, e), z3.Implies(s == -1, l), z3.Implies(s == 1, r),
                        z3.Implies(z3.And(z3.Not(both), e), s == 0), z3.Implies(z3.And(l, z3.Not(r)), s == -1), z3.Implies(z3.And(r, z3.Not(l)), s == 1),
                        z3.Implies(z3.And(z3.Not(l), z3.Not(r)), s == z3.If(sinf, 2, -2))))
    c.ens('0 if equal, -1 if included, 1 if including, otherwise the order of the lower bounds', post)


@cspec('ap_interval_cmp')
def _(c, i, j):
    itvcmp(c, Iv(c, i), Iv(c, j))


def itveq(x, y):
    return z3.Or(z3.And(x.lo == y.lo, x.hi == y.hi), z3.And(isbot(x), isbot(y)))


@cspec('ap_interval_equal')
def _(c, i, j):
    x, y = Iv(c, i), Iv(c, j)
    c.returns(itveq(x, y))


@cspec('ap_interval_equal_int')
def _(c, i, k):
    x = Iv(c, i)
    v = fin(z3.ToReal(to_int(k)))
    c.returns(z3.And(x.lo == v, x.hi == v))


@cspec('ap_interval_neg')
def _(c, i, j):
    x, y = Iv(c, i), Iv(c, j)
    apart(c, x.sc, y.sc, [i == j])
    writes(c, x.sc)
    c.ens('representations exchanged', lambda S: z3.And(discr(S, x.inf.a) == y.sup.d, discr(S, x.sup.a) == y.inf.d))
    c.ens('bounds exchanged and negated', lambda S: z3.And(val(S, x.inf.a) == bneg(y.hi), val(S, x.sup.a) == bneg(y.lo)))


@cspec('ap_interval_set')
def _(c, i, j):
    x, y = Iv(c, i), Iv(c, j)
    apart(c, x.sc, y.sc, [i == j])
    writes(c, x.sc)
    for s, t in zip(x.sc, y.sc):
        becomes(c, s, t.d, t.v)


@cspec('ap_interval_set_scalar')
def _(c, i, a, b):
    x = Iv(c, i)
    y = [Sc(c, a), Sc(c, b)]
    apart(c, x.sc, y)
    writes(c, x.sc)
    for s, t in zip(x.sc, y):
        becomes(c, s, t.d, t.v)


@cspec('ap_interval_set_mpq')
def _(c, i, a, b):
    x = Iv(c, i)
    va, vb = mpqarg(c, a), mpqarg(c, b)
    for s in x.sc:
        for q in (a, b):
            c.req(z3.Or(s.d != MPQ, root(s.s) != root(q)), 'the sources are not part of the storage')
    writes(c, x.sc)
    becomes(c, x.inf, MPQ, va)
    becomes(c, x.sup, MPQ, vb)


@cspec('ap_interval_set_mpfr')
def _(c, i, a, b):
    x = Iv(c, i)
    va, vb = mpfrarg(c, a), mpfrarg(c, b)
    for s in x.sc:
        for q in (a, b):
            c.req(z3.Or(s.d != MPFR, root(s.s) != root(q)), 'the sources are not part of the storage')
    writes(c, x.sc)
    becomes(c, x.inf, MPFR, va)
    becomes(c, x.sup, MPFR, vb)


@cspec('ap_interval_set_int')
def _(c, i, a, b):
    x = Iv(c, i)
    writes(c, x.sc)
    becomes(c, x.inf, MPQ, fin(z3.ToReal(to_int(a))))
    becomes(c, x.sup, MPQ, fin(z3.ToReal(to_int(b))))


@cspec('ap_interval_set_frac')
def _(c, i, a, da, b, db):
    x = Iv(c, i)
    c.req(z3.And(to_int(da) > 0, to_int(db) > 0), 'non-zero denominators')
    writes(c, x.sc)
    becomes(c, x.inf, MPQ, fin(Q(to_int(a), to_int(da))))
    becomes(c, x.sup, MPQ, fin(Q(to_int(b), to_int(db))))


@cspec('ap_interval_set_double')
def _(c, i, a, b):
    x = Iv(c, i)
    writes(c, x.sc)
    becomes(c, x.inf, DBL, a)
    becomes(c, x.sup, DBL, b)


@cspec('ap_interval_set_top')
def _(c, i):
    x = Iv(c, i)
    writes(c, x.sc)
    becomes(c, x.inf, x.inf.d, ninf)
    becomes(c, x.sup, x.sup.d, pinf)


@cspec('ap_interval_set_bottom')
def _(c, i):
    x = Iv(c, i)
    writes(c, x.sc)
    c.ens('representation', lambda S: z3.And(discr(S, x.inf.a) == x.inf.d, discr(S, x.sup.a) == x.sup.d))
    c.ens('empty', lambda S: z3.Not(ble(val(S, x.inf.a), val(S, x.sup.a))))


@cspec('ap_interval_free')
def _(c, i):
    Iv(c, i)


@cspec('ap_coeff_free', 'ap_coeff_clear')
def _(c, a):
    Co(c, a)


@cspec('ap_coeff_swap')
def _(c, a, b):
    x, y = Co(c, a), Co(c, b)
    c.req(a != b, 'two coefficients')
    for s in (x, y):
        c.mod('enum', cd_at(s.a))
        c.mod('ptr', cu_at(s.a, 'scalar'), cu_at(s.a, 'interval'))
    for s, t in ((x, y), (y, x)):
        c.ens('exchanged', lambda S, s=s, t=t: z3.And(cvalid(S, s.a, c.n0), csame(S, s.a, t.d, of(t))))


@cspec('ap_interval_reinit')
def _(c, i, d):
    x = Iv(c, i)
    d = to_int(d)
    c.req(z3.And(d >= 0, d <= 2), 'a representation')
    writes(c, x.sc)
    c.ens('representation', lambda S: z3.And(discr(S, x.inf.a) == d, discr(S, x.sup.a) == d))
    for s in x.sc:
        c.ens('unchanged if already in that representation', lambda S, s=s: z3.Implies(s.d == d, val(S, s.a) == s.v))


def newsc(c, V, a):
    return z3.And(valid(V, a, V.st.n), a != null, root(a) >= c.n0, root(a) < V.st.n, z3.Or(discr(V, a) == DBL, root(store(V, a)) >= c.n0))


def newitv(c, V, i):
    p, q = iptr(V, i, 'inf'), iptr(V, i, 'sup')
    return z3.And(newsc(c, V, p), newsc(c, V, q), disj(V, p, q))


def touch(c):
    c.allocs = True
    for cls in ('enum', 'ptr', 'flt', 'mpfr', 'mpfrprec', 'mpz' if layer(c.E) == 'num' else 'mpq'):
        c.H(cls)


@cspec('ap_interval_alloc')
def _(c):
    touch(c)
    c.freshret = True
    c.ens('two new bounds', lambda S: newitv(c, S, S.ret))
    c.ens('zero', lambda S: z3.And(discr(S, iptr(S, S.ret, 'inf')) == DBL, discr(S, iptr(S, S.ret, 'sup')) == DBL,
                                   *[v == fin(z3.RealVal(0)) for v in bounds(S, S.ret)]))


@cspec('ap_interval_alloc_set')
def _(c, i):
    x = Iv(c, i)
    touch(c)
    c.freshret = True
    c.ens('two new bounds', lambda S: newitv(c, S, S.ret))
    c.ens('same bounds', lambda S: z3.And(bounds(S, S.ret)[0] == x.lo, bounds(S, S.ret)[1] == x.hi,
                                          discr(S, iptr(S, S.ret, 'inf')) == x.inf.d, discr(S, iptr(S, S.ret, 'sup')) == x.sup.d))


# ---- coefficients
SCAL, INTERVAL = 0, 1


def cd_at(a):
    return fp(a, F('ap_coeff_t', 'discr'))


def cu_at(a, f):
    return fp(fp(a, F('ap_coeff_t', 'val')), F('anon', f))


def cdis(V, a):
    return V.at('enum', cd_at(a))


class Pt(object):
    """a scalar that counts only under a condition"""

    def __init__(self, c, a, cond):
        self.c, self.a, self.cond = c, a, cond
        self.d, self.v, self.s = c.nm(discr(c, a)), c.nm(val(c, a)), c.nm(store(c, a))


def cparts(V, a):
    i = V.at('ptr', cu_at(a, 'interval'))
    return V.at('ptr', cu_at(a, 'scalar')), i, iptr(V, i, 'inf'), iptr(V, i, 'sup')


def okptr(V, p, n, n0=None):
    return z3.And(p != null, root(p) < n, z3.BoolVal(True) if n0 is None else root(p) >= n0)


def cvalid(V, a, n):
    d = cdis(V, a)
    p, i, lp, hp = cparts(V, a)
    return z3.And(d >= 0, d <= 1, z3.If(d == SCAL, z3.And(okptr(V, p, n), valid(V, p, n)),
                                        z3.And(okptr(V, i, n), okptr(V, lp, n), okptr(V, hp, n), valid(V, lp, n), valid(V, hp, n), disj(V, lp, hp))))


class Co(object):
    """a coefficient: the views of both members, each of which counts only for its discriminant"""

    def __init__(self, c, a):
        self.c, self.a = c, a
        c.nonnull(a)
        c.req(cvalid(c, a, c.n0), 'a well-formed coefficient')
        self.d = c.nm(cdis(c, a))
        self.p, self.i, self.lp, self.hp = [c.nm(q) for q in cparts(c, a)]
        self.sc = [Pt(c, self.p, self.d == SCAL), Pt(c, self.lp, self.d == INTERVAL), Pt(c, self.hp, self.d == INTERVAL)]
        self.v, self.lo, self.hi = [x.v for x in self.sc]


def uncond(xs):
    for x in xs:
        if not hasattr(x, 'cond'):
            x.cond = z3.BoolVal(True)
    return xs


def capart(c, x, ys, same=()):
    for s in x.sc:
        for t in uncond(ys):
            c.req(z3.Or(*(list(same) + [z3.Not(s.cond), z3.Not(t.cond), disj(c, s.a, t.a)])), 'the operands share nothing')


def cwrites(c, x, kind=True, only=None):
    c.allocs = True
    sc = only or x.sc
    if kind:
        c.mod('enum', cd_at(x.a))
        c.mod('ptr', cu_at(x.a, 'scalar'), cu_at(x.a, 'interval'))
    for s in sc:
        c.region('enum', lambda p, s=s: z3.And(s.cond, p == d_at(s.a)), [s.a])
        c.region('ptr', lambda p, s=s: z3.And(s.cond, z3.Or(p == u_at(s.a, 'mpq'), p == u_at(s.a, 'mpfr'))), [s.a])
        c.region('flt', lambda p, s=s: z3.And(s.cond, p == u_at(s.a, 'dbl')), [s.a])
        c.region('mpq', lambda p, s=s: z3.And(s.cond, s.d == MPQ, p == s.s), [s.s])
        for cls in ('mpfr', 'mpfrprec'):
            c.region(cls, lambda p, s=s: z3.And(s.cond, s.d == MPFR, p == s.s), [s.s])
    c.ens('the coefficient is well formed', lambda S: cvalid(S, x.a, S.st.n))

    def place(S, q):
        """the scalar q is made of old parts of the coefficient or of new ones"""
        return z3.And(z3.Or(root(q) >= c.n0, *[z3.And(s.cond, q == s.a) for s in sc]),
                      z3.Or(discr(S, q) == DBL, root(store(S, q)) >= c.n0, *[z3.And(s.cond, s.d == discr(S, q), store(S, q) == s.s) for s in sc]))

    def post(S):
        p, i, lp, hp = cparts(S, x.a)
        return z3.If(cdis(S, x.a) == SCAL, place(S, p), z3.And(z3.Or(root(i) >= c.n0, z3.And(x.d == INTERVAL, i == x.i)), place(S, lp), place(S, hp)))
    c.ens('made of old parts of the coefficient or of new ones', post)


def csame(S, a, d, y):
    """y: (scalar, lower, upper) as (representation, value) pairs"""
    p, i, lp, hp = cparts(S, a)
    is_ = lambda q, t: z3.And(discr(S, q) == t[0], val(S, q) == t[1])
    sc = is_(p, y[0]) if y[0] is not None else z3.BoolVal(True)
    iv = z3.And(is_(lp, y[1]), is_(hp, y[2])) if y[1] is not None else z3.BoolVal(True)
    return z3.And(cdis(S, a) == d, z3.If(d == SCAL, sc, iv) if z3.is_expr(d) else (sc if d == SCAL else iv))


def of(y):
    return [(s.d, s.v) for s in y.sc]


@cspec('ap_coeff_reinit')
def _(c, a, d, sd):
    x = Co(c, a)
    d, sd = to_int(d), to_int(sd)
    c.req(z3.And(d >= 0, d <= 1, sd >= 0, sd <= 2), 'a kind and a representation')
    cwrites(c, x)

    def post(S):
        p, i, lp, hp = cparts(S, a)
        return z3.And(cdis(S, a) == d, z3.If(d == SCAL, discr(S, p) == sd, z3.And(discr(S, lp) == sd, discr(S, hp) == sd)))
    c.ens('kind and representation', post)


@cspec('ap_coeff_set')
def _(c, a, b):
    x, y = Co(c, a), Co(c, b)
    capart(c, x, y.sc, [a == b])
    c.req(z3.Or(a == b, x.d == SCAL, y.d == SCAL, x.i != y.i), 'the operands share nothing')
    cwrites(c, x)
    c.ens('same kind, representation and value', lambda S: csame(S, a, y.d, of(y)))


@cspec('ap_coeff_set_scalar')
def _(c, a, b):
    x, y = Co(c, a), Sc(c, b)
    capart(c, x, [y])
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, SCAL, [(y.d, y.v), None, None]))


@cspec('ap_coeff_set_scalar_int')
def _(c, a, i):
    x = Co(c, a)
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, SCAL, [(MPQ, fin(z3.ToReal(to_int(i)))), None, None]))


@cspec('ap_coeff_set_scalar_frac')
def _(c, a, i, j):
    x = Co(c, a)
    i, j = to_int(i), to_int(j)
    c.req(j > 0, 'non-zero denominator')
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, SCAL, [(MPQ, fin(Q(i, j))), None, None]))


@cspec('ap_coeff_set_scalar_double')
def _(c, a, k):
    x = Co(c, a)
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, SCAL, [(DBL, k), None, None]))


def notin(c, x, k, qs):
    for s in x.sc:
        for q in qs:
            c.req(z3.Or(z3.Not(s.cond), s.d != k, root(s.s) != root(q)), 'the source is not part of the storage')


@cspec('ap_coeff_set_scalar_mpq')
def _(c, a, q):
    x = Co(c, a)
    v = mpqarg(c, q)
    notin(c, x, MPQ, [q])
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, SCAL, [(MPQ, v), None, None]))


@cspec('ap_coeff_set_scalar_mpfr')
def _(c, a, q):
    x = Co(c, a)
    v = mpfrarg(c, q)
    notin(c, x, MPFR, [q])
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, SCAL, [(MPFR, v), None, None]))


@cspec('ap_coeff_set_interval')
def _(c, a, b):
    x, y = Co(c, a), Iv(c, b)
    capart(c, x, y.sc)
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None] + of(y)))


@cspec('ap_coeff_set_interval_scalar')
def _(c, a, b, d):
    x, y = Co(c, a), [Sc(c, b), Sc(c, d)]
    capart(c, x, y)
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None] + [(s.d, s.v) for s in y]))


@cspec('ap_coeff_set_interval_mpq')
def _(c, a, q, r):
    x = Co(c, a)
    v, w = mpqarg(c, q), mpqarg(c, r)
    notin(c, x, MPQ, [q, r])
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None, (MPQ, v), (MPQ, w)]))


@cspec('ap_coeff_set_interval_mpfr')
def _(c, a, q, r):
    x = Co(c, a)
    v, w = mpfrarg(c, q), mpfrarg(c, r)
    notin(c, x, MPFR, [q, r])
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None, (MPFR, v), (MPFR, w)]))


@cspec('ap_coeff_set_interval_int')
def _(c, a, i, j):
    x = Co(c, a)
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None] + [(MPQ, fin(z3.ToReal(to_int(k)))) for k in (i, j)]))


@cspec('ap_coeff_set_interval_frac')
def _(c, a, i, di, j, dj):
    x = Co(c, a)
    c.req(z3.And(to_int(di) > 0, to_int(dj) > 0), 'non-zero denominators')
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None] + [(MPQ, fin(Q(to_int(k), to_int(e)))) for k, e in ((i, di), (j, dj))]))


@cspec('ap_coeff_set_interval_double')
def _(c, a, i, j):
    x = Co(c, a)
    cwrites(c, x)
    c.ens('value', lambda S: csame(S, a, INTERVAL, [None, (DBL, i), (DBL, j)]))


@cspec('ap_coeff_set_interval_top')
def _(c, a):
    x = Co(c, a)
    cwrites(c, x)

    def post(S):
        p, i, lp, hp = cparts(S, a)
        return z3.And(cdis(S, a) == INTERVAL, val(S, lp) == ninf, val(S, hp) == pinf)
    c.ens('the whole line', post)


@cspec('ap_coeff_neg')
def _(c, a, b):
    x, y = Co(c, a), Co(c, b)
    capart(c, x, y.sc, [a == b])
    c.req(z3.Or(a == b, x.d == SCAL, y.d == SCAL, x.i != y.i), 'the operands share nothing')
    cwrites(c, x)
    t = of(y)
    c.ens('negated', lambda S: csame(S, a, y.d, [(t[0][0], bneg(t[0][1])), (t[2][0], bneg(t[2][1])), (t[1][0], bneg(t[1][1]))]))


@cspec('ap_coeff_reduce')
def _(c, a):
    x = Co(c, a)
    cwrites(c, x)

    def post(S):
        p, i, lp, hp = cparts(S, a)
        red = z3.And(x.d == INTERVAL, x.lo == x.hi)
        return z3.If(red, z3.And(cdis(S, a) == SCAL, val(S, p) == x.lo), csame(S, a, x.d, of(x)))
    c.ens('a point interval becomes a scalar, anything else is unchanged', post)


def newcoeff(c, S, a):
    p, i, lp, hp = cparts(S, a)
    return z3.And(cvalid(S, a, S.st.n), z3.If(cdis(S, a) == SCAL, newsc(c, S, p), z3.And(root(i) >= c.n0, newitv(c, S, i))))


@cspec('ap_coeff_alloc', 'ap_coeff_init')
def _(c, *vs):
    d = to_int(vs[-1])
    c.req(z3.And(d >= 0, d <= 1), 'a kind')
    touch(c)
    z = fin(z3.RealVal(0))
    if c.name == 'ap_coeff_alloc':
        c.freshret = True
        at = lambda S: S.ret
    else:
        c.nonnull(vs[0])
        c.mod('enum', cd_at(vs[0]))
        c.mod('ptr', cu_at(vs[0], 'scalar'), cu_at(vs[0], 'interval'))
        at = lambda S: vs[0]
    c.ens('new parts', lambda S: newcoeff(c, S, at(S)))
    c.ens('zero', lambda S: csame(S, at(S), d, [(DBL, z)] * 3))


@cspec('ap_coeff_alloc_set', 'ap_coeff_init_set')
def _(c, *vs):
    y = Co(c, vs[-1])
    touch(c)
    if c.name == 'ap_coeff_alloc_set':
        c.freshret = True
        at = lambda S: S.ret
    else:
        c.nonnull(vs[0])
        c.mod('enum', cd_at(vs[0]))
        c.mod('ptr', cu_at(vs[0], 'scalar'), cu_at(vs[0], 'interval'))
        c.req(vs[0] != vs[1], 'distinct operands')
        at = lambda S: vs[0]
    c.ens('new parts', lambda S: newcoeff(c, S, at(S)))
    c.ens('same kind, representation and value', lambda S: csame(S, at(S), y.d, of(y)))


@cspec('ap_coeff_alloc_set_scalar')
def _(c, b):
    y = Sc(c, b)
    touch(c)
    c.freshret = True
    c.ens('new parts', lambda S: newcoeff(c, S, S.ret))
    c.ens('value', lambda S: csame(S, S.ret, SCAL, [(y.d, y.v), None, None]))


@cspec('ap_coeff_alloc_set_interval')
def _(c, b):
    y = Iv(c, b)
    touch(c)
    c.freshret = True
    c.ens('new parts', lambda S: newcoeff(c, S, S.ret))
    c.ens('value', lambda S: csame(S, S.ret, INTERVAL, [None] + of(y)))


@cspec('ap_coeff_cmp')
def _(c, a, b):
    x, y = Co(c, a), Co(c, b)
    c.ens('different kinds', lambda S: z3.Implies(x.d != y.d, S.ret == z3.If(x.d == SCAL, -3, 3)))
    c.ens('two scalars', lambda S: z3.Implies(z3.And(x.d == SCAL, y.d == SCAL), z3.And((S.ret == 1) == z3.Not(ble(x.v, y.v)), (S.ret == -1) == z3.Not(ble(y.v, x.v)), (S.ret == 0) == (x.v == y.v))))
    itvcmp(c, x, y, z3.And(x.d == INTERVAL, y.d == INTERVAL))


@cspec('ap_coeff_equal')
def _(c, a, b):
    x, y = Co(c, a), Co(c, b)
    c.returns(z3.And(x.d == y.d, z3.If(x.d == SCAL, x.v == y.v, itveq(x, y))))


@cspec('ap_coeff_zero')
def _(c, a):
    x = Co(c, a)
    z = fin(z3.RealVal(0))
    c.returns(z3.If(x.d == SCAL, x.v == z, z3.And(x.lo == z, x.hi == z)))


@cspec('ap_coeff_equal_int')
def _(c, a, k):
    x = Co(c, a)
    z = fin(z3.ToReal(to_int(k)))
    c.returns(z3.If(x.d == SCAL, x.v == z, z3.And(x.lo == z, x.hi == z)))
