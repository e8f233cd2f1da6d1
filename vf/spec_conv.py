"""Contracts of the conversions between bounds and intervals of the exact-rational build and the scalars,
intervals and coefficients of the user level."""
import z3
import smt
from smt import fp, root, el, null, fin, bneg, is_fin, bval, ble, Ptr
from contract import spec
from bview import layer
from engine import to_int, to_bool
from spec_itv import I, INF, SUP, INT, setI, modI, iempty, ieq, ipoint, scratch
from spec_scalar import (Sc, Iv, Co, writes, becomes, val, valid, discr, store, disj, csame, cwrites, cvalid, cparts, cdis, iptr, touch, newitv, bounds, F,
                         d_at, u_at, MPQ, MPFR, DBL, SCAL, INTERVAL)
from spec_box import (Box, RBox, flags, intern, ITVSZ)
from engine import Engine

CONVN, CONVI, CONVB = [], [], []


def nspec(*names):
    CONVN.extend(names)
    return spec(*names)


def cispec(*names):
    ns = []
    for n in names:
        ns += [n, n + '_MPQ']
    CONVI.extend(ns)
    return spec(*ns)


def cbspec(*names):
    CONVB.extend(names)
    return spec(*names)


def outside(c, p, x):
    """the rational p is not the storage of the scalar x"""
    c.req(z3.Or(x.d != MPQ, root(p) != root(x.s)), 'the number is not the storage of the scalar')


@nspec('bound_set_ap_scalar')
def _(c, a, b):
    x = Sc(c, b)
    c.nonnull(a)
    outside(c, a, x)
    c.setB(a, x.v)
    c.returns(z3.BoolVal(True))


@nspec('num_set_ap_scalar')
def _(c, a, b):
    x = Sc(c, b)
    c.nonnull(a)
    outside(c, a, x)
    c.req(is_fin(x.v), 'finite')
    c.setB(a, x.v)
    c.returns(z3.BoolVal(True))


@nspec('ap_scalar_set_bound', 'ap_scalar_set_num')
def _(c, a, b):
    x = Sc(c, a)
    c.nonnull(b)
    outside(c, b, x)
    v = c.nm(c.B(b))
    c.req(root(b) < c.n0, 'an existing number')
    if c.name == 'ap_scalar_set_num':
        c.req(is_fin(v), 'finite')
    writes(c, [x])
    becomes(c, x, MPQ, v)
    c.returns(z3.BoolVal(True))


# ---------------------------------------------------------------- intervals
def convscalar(c, ip):
    c.req(ip != null, 'the workspace is allocated')
    x = Sc(c, c.nm(c.ptrat(INT(c, 'ap_conversion_scalar', ip))))
    c.req(root(x.a) < c.n0, 'an existing scalar')
    c.req(z3.Or(x.d != MPQ, root(x.s) != root(ip)), 'the storage of the conversion scalar is its own')
    return x


def clear(c, p, xs, what='the interval is not the storage of the scalars'):
    for x in xs:
        cond = getattr(x, 'cond', None)
        f = z3.Or(x.d != MPQ, root(p) != root(x.s))
        c.req(f if cond is None else z3.Or(z3.Not(cond), f), what)


def points(x):
    return (bneg(x.v), x.v)


def itvof(y):
    return (bneg(y.lo), y.hi)


@cispec('itv_set_ap_scalar')
def _(c, ip, a, b):
    y = Sc(c, b)
    c.nonnull(a)
    clear(c, a, [y])
    c.req(is_fin(y.v), 'finite')
    setI(c, a, points(y))
    c.returns(z3.BoolVal(True))


@cispec('itv_set_ap_interval')
def _(c, ip, a, b):
    t, y = convscalar(c, ip), Iv(c, b)
    c.nonnull(a)
    clear(c, a, [t] + y.sc)
    for s in y.sc:
        c.req(disj(c, t.a, s.a), 'the conversion scalar is apart')
    writes(c, [t])
    setI(c, a, itvof(y))
    c.returns(z3.BoolVal(True))


@cispec('itv_set_ap_coeff')
def _(c, ip, a, b):
    t, y = convscalar(c, ip), Co(c, b)
    c.nonnull(a)
    clear(c, a, [t] + y.sc)
    c.req(z3.Or(y.d != SCAL, is_fin(y.v)), 'finite')
    for s in y.sc:
        c.req(z3.Or(z3.Not(s.cond), disj(c, t.a, s.a)), 'the conversion scalar is apart')
    writes(c, [t])
    lo = z3.If(y.d == SCAL, bneg(y.v), bneg(y.lo))
    hi = z3.If(y.d == SCAL, y.v, y.hi)
    setI(c, a, (lo, hi))
    c.returns(z3.BoolVal(True))


@cispec('ap_interval_set_itv')
def _(c, ip, a, b):
    x = Iv(c, a)
    c.nonnull(b)
    c.req(root(b) < c.n0, 'an existing interval')
    clear(c, b, x.sc)
    v = I(c, b)
    writes(c, x.sc)
    becomes(c, x.inf, MPQ, bneg(v[0]))
    becomes(c, x.sup, MPQ, v[1])
    c.returns(z3.BoolVal(True))


@cispec('ap_coeff_set_itv')
def _(c, ip, a, b):
    t, x = convscalar(c, ip), Co(c, a)
    c.nonnull(b)
    c.req(z3.And(root(b) < c.n0, root(b) != root(ip)), 'an existing interval')
    clear(c, b, [t] + x.sc)
    v = I(c, b)
    for s in x.sc:
        c.req(z3.Or(z3.Not(s.cond), disj(c, t.a, s.a)), 'the conversion scalar is apart')
    writes(c, [t])
    cwrites(c, x)
    scratch(c, ip, 'canonicalize_num', 'ap_conversion_bound')
    for s in x.sc:
        c.req(z3.Or(z3.Not(s.cond), s.d != MPQ, root(s.s) != root(ip)), 'the storage of the coefficient is not in the workspace')
    pt = z3.And(is_fin(v[0]), is_fin(v[1]), v[0] == bneg(v[1]))
    c.ens('a scalar for a point, otherwise the interval', lambda S: z3.If(pt, csame(S, a, SCAL, [(z3.IntVal(MPQ), v[1]), None, None]),
                                                                     csame(S, a, INTERVAL, [None, (z3.IntVal(MPQ), bneg(v[0])), (z3.IntVal(MPQ), v[1])])))
    c.returns(z3.BoolVal(True))


@spec('__builtin_isinf_sign', trusted=True)
def _(c, k):
    "sign of an infinite double, 0 for a finite one"
    c.returns(z3.If(k == smt.pinf, z3.IntVal(1), z3.If(k == smt.ninf, z3.IntVal(-1), z3.IntVal(0))))


# ---------------------------------------------------------------- boxes at the user level
@cbspec('box_bound_dimension')
def _(c, man, a, dim):
    c.bounds = True
    A = Box(c, a)
    c.assume(dim >= 0)
    c.req(dim < A.nb, 'dimension in range')
    flags(c, man, True, True)
    touch(c)
    m, ip = intern(c, man)
    c.freshret = True
    c.ens('a new interval', lambda S: newitv(c, S, S.ret))
    c.ens('empty for the empty box', lambda S: z3.Implies(A.empty, z3.Not(ble(*bounds(S, S.ret)))))
    c.ens('the bounds of the dimension', lambda S: z3.Or(A.empty, z3.And(bounds(S, S.ret)[0] == bneg(A.pre(dim)[0]), bounds(S, S.ret)[1] == A.pre(dim)[1])))


@cbspec('box_sat_interval')
def _(c, man, a, dim, i):
    c.bounds = True
    A = Box(c, a)
    c.assume(dim >= 0)
    c.req(dim < A.nb, 'dimension in range')
    flags(c, man, True, True)
    y = Iv(c, i)
    m, ip = intern(c, man)
    c.req(m != null, 'the manager has a workspace')
    t = Iv(c, c.nm(c.ptrat(fp(m, F('box_internal_t', 'sat_interval_interval')))))
    c.req(z3.And(t.a != i, root(t.a) < c.n0), 'the workspace is apart')
    for s in t.sc:
        c.req(z3.Or(s.d != MPQ, A.p == null, root(s.s) != A.o), 'the workspace is apart')
        for u in y.sc:
            c.req(disj(c, s.a, u.a), 'the workspace is apart')
    writes(c, t.sc)
    v = A.pre(dim)
    c.ens('the empty box satisfies everything', lambda S: z3.Implies(A.empty, to_bool(S.ret)))
    c.ens('inclusion of the interval of the dimension', lambda S: z3.Or(A.empty, to_bool(S.ret) == z3.And(ble(y.lo, bneg(v[0])), ble(v[1], y.hi))))


# ---------------------------------------------------------------- octagons
from spec_octobj import Oct, manager, oflags, RB, W, Res, cached, conc_of     # noqa: E402

CONVO, CONVQ = [], []


def cospec(*names):
    CONVO.extend(names)
    return spec(*names)


def cqspec(*names):
    CONVQ.extend(names)
    return spec(*names)


def prconv(c, pr):
    c.nonnull(pr)
    c.mod('_Bool', fp(pr, F('_oct_internal_t', 'conv')))


def half(v, d):
    return z3.If(d, z3.If(is_fin(v), fin(bval(v) / 2), v), v)


@cospec('scalar_of_upper_bound', 'scalar_of_lower_bound')
def _(c, pr, r, b, d):
    x = Sc(c, r)
    c.nonnull(b)
    c.req(root(b) < c.n0, 'an existing number')
    outside(c, b, x)
    v = c.B(b)
    c.req(v != smt.ninf, 'a number or +oo')
    prconv(c, pr)
    writes(c, [x])
    h = half(v, to_bool(d))
    becomes(c, x, MPQ, h if c.name == 'scalar_of_upper_bound' else bneg(h))


@cospec('interval_of_bounds')
def _(c, pr, i, a, b, d):
    x = Iv(c, i)
    for q in (a, b):
        c.nonnull(q)
        c.req(root(q) < c.n0, 'an existing number')
        clear(c, q, x.sc)
        c.req(c.B(q) != smt.ninf, 'a number or +oo')
    lo, hi = c.nm(c.B(a)), c.nm(c.B(b))
    prconv(c, pr)
    writes(c, x.sc)
    becomes(c, x.inf, MPQ, bneg(half(lo, to_bool(d))))
    becomes(c, x.sup, MPQ, half(hi, to_bool(d)))


@cospec('bound_of_scalar')
def _(c, pr, r, t, neg, mul2):
    x = Sc(c, t)
    c.nonnull(r)
    outside(c, r, x)
    prconv(c, pr)
    writes(c, [x])
    becomes(c, x, x.d, x.v, 'the scalar keeps its value')
    v = z3.If(to_bool(neg), bneg(x.v), x.v)
    c.setB(r, z3.If(to_bool(mul2), z3.If(is_fin(v), fin(2 * bval(v)), v), v))


@cospec('bounds_of_interval')
def _(c, pr, a, b, i, mul2):
    y = Iv(c, i)
    for r in (a, b):
        c.nonnull(r)
        clear(c, r, y.sc)
    c.req(a != b, 'two bounds')
    prconv(c, pr)
    writes(c, y.sc)
    for s in y.sc:
        becomes(c, s, s.d, s.v, 'the interval keeps its value')
    m2 = lambda v: z3.If(to_bool(mul2), z3.If(is_fin(v), fin(2 * bval(v)), v), v)
    c.setB(a, m2(bneg(y.lo)))
    c.setB(b, m2(y.hi))
    c.returns(z3.Not(ble(y.lo, y.hi)))


def dimcells(A, dim):
    """positions of the bounds of -2x and of 2x"""
    return RB(2 * dim + 1) + 2 * dim, RB(2 * dim) + 2 * dim + 1


@cqspec('oct_bound_dimension')
def _(c, man, a, dim):
    c.bounds = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    c.assume(dim >= 0)
    c.req(dim < A.dim, 'dimension in range')
    A.struct(z3.BoolVal(True))
    touch(c)
    c.freshret = True
    c.ens('a new interval', lambda S: newitv(c, S, S.ret))
    R = cached(c, A)
    c.ens('the bounds hold for every point of the octagon', lambda S: z3.Implies(A.conc, z3.And(ble(bounds(S, S.ret)[0], fin(W(2 * dim))), ble(fin(W(2 * dim)), bounds(S, S.ret)[1]))))
    c.ens('empty interval for an empty octagon', lambda S: z3.Implies(A.empty, z3.Not(ble(*bounds(S, S.ret)))))


@cqspec('oct_sat_interval')
def _(c, man, a, dim, i):
    c.bounds = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    y = Iv(c, i)
    c.assume(dim >= 0)
    c.req(dim < A.dim, 'dimension in range')
    A.struct(z3.BoolVal(True))
    touch(c)
    R = cached(c, A)
    c.ens('true only if every point of the octagon has its coordinate in the interval', lambda S: z3.Implies(z3.And(to_bool(S.ret), A.conc), z3.And(ble(y.lo, fin(W(2 * dim))), ble(fin(W(2 * dim)), y.hi))))
