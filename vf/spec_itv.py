"""Contracts of the interval layer (itv/itv.h, itv/itv.c), exact-rational build.
An interval at p is the pair (inf, sup) of extended bounds with meaning [-inf, sup]."""
import z3
import smt
from smt import fin, pinf, ninf, is_fin, bval, bsgn, bneg, ble, badd, bsub, bmin, bmax, fp, Real
from contract import spec, Ctx, View, SPECS
from engine import to_int, to_bool, fid
from spec_num import bmul, bdiv, rounded, finreq
from bview import Bof
from spec_gmp import p2

ITV = []


def ispec(*names):
    ns = []
    for n in names:
        ns += [n, n + '_MPQ']
    ITV.extend(ns)
    return spec(*ns)


def INF(p):
    return fp(p, fid('__itv_struct', 'inf'))


def SUP(p):
    return fp(p, fid('__itv_struct', 'sup'))


def I(V, p):
    """interval (inf, sup) at p in a Ctx (pre) or View (post)"""
    return V.B(INF(p)), V.B(SUP(p))


def setI(c, p, v, label=None):
    c.setB(INF(p), v[0], label)
    c.setB(SUP(p), v[1], label)


def modI(c, p):
    c.mod('mpq', INF(p), SUP(p))


def INT(c, f, ip):
    return fp(ip, fid('itv_internal_t', f))


def scratch(c, ip, *fs):
    for f in fs:
        c.mod('mpq', INT(c, f, ip))


def scratchI(c, ip, *fs):
    for f in fs:
        modI(c, INT(c, f, ip))


def iempty(v):
    """[-inf,sup] contains no point (the library's own test: finite bounds, -inf > sup)"""
    return z3.And(is_fin(v[0]), is_fin(v[1]), bval(v[0]) + bval(v[1]) < 0)


def iwf(v):
    """a bound of an interval is a number or +oo"""
    return z3.And(v[0] != ninf, v[1] != ninf)


def inne(v):
    return z3.And(iwf(v), z3.Not(iempty(v)))


def ibot(v):
    return z3.And(v[0] == fin(z3.RealVal(-1)), v[1] == fin(z3.RealVal(-1)))


def ile(v, w):
    return z3.And(ble(v[0], w[0]), ble(v[1], w[1]))


def ieq(v, w):
    return z3.And(v[0] == w[0], v[1] == w[1])


def imem(x, v):
    return z3.And(ble(fin(-x), v[0]), ble(fin(x), v[1]))


def ipoint(v):
    return z3.And(is_fin(v[0]), is_fin(v[1]), bval(v[0]) == -bval(v[1]))


ZERO = fin(z3.RealVal(0))
TOP = (pinf, pinf)


def R(i):
    return fin(z3.ToReal(to_int(i)))


@ispec('itv_init')
def _(c, a):
    setI(c, a, (ZERO, ZERO))


@ispec('itv_clear')
def _(c, a):
    pass


@ispec('itv_set', 'itv_init_set')
def _(c, a, b):
    if 'init' in c.name:
        c.req(a != b, 'distinct operands')
    setI(c, a, I(c, b))


@ispec('itv_set_num', 'itv_set_unit_num', 'itv_set_unit_bound')
def _(c, a, b):
    v = c.B(b)
    c.req(z3.And(b != INF(a), b != SUP(a)), 'the number is not a bound of the interval')
    if c.name.startswith('itv_set_num'):
        finreq(c, v)
        setI(c, a, (bneg(v), v))
    else:
        setI(c, a, (v, v))


@ispec('itv_set_num2')
def _(c, a, b, d):
    v, w = c.B(b), c.B(d)
    finreq(c, v, w)
    for p in (b, d):
        c.req(z3.And(p != INF(a), p != SUP(a)), 'the number is not a bound of the interval')
    setI(c, a, (bneg(v), w))
    c.setB(b, v)


@ispec('itv_enlarge_bound')
def _(c, a, b, d):
    v, e = I(c, b), c.B(d)
    c.req(z3.And(d != INF(a), d != SUP(a)), 'the bound is not a bound of the interval')
    setI(c, a, (badd(v[0], e), badd(v[1], e)))


@ispec('itv_set_int')
def _(c, a, i):
    setI(c, a, (bneg(R(i)), R(i)))


@ispec('itv_set_int2')
def _(c, a, i, j):
    setI(c, a, (bneg(R(i)), R(j)))


@ispec('itv_set_bottom')
def _(c, a):
    setI(c, a, (fin(z3.RealVal(-1)), fin(z3.RealVal(-1))))


@ispec('itv_set_top')
def _(c, a):
    setI(c, a, TOP)


@ispec('itv_swap')
def _(c, a, b):
    v, w = I(c, a), I(c, b)
    setI(c, a, w)
    setI(c, b, v)


def floorB(b):
    return z3.If(is_fin(b), fin(z3.ToReal(z3.ToInt(bval(b)))), b)


def ceilB(b):
    return z3.If(is_fin(b), fin(-z3.ToReal(z3.ToInt(-bval(b)))), b)


def truncB(b):
    return z3.If(bsgn(b) >= 0, floorB(b), ceilB(b))


@ispec('itv_canonicalize')
def _(c, ip, a, integer):
    v = I(c, a)
    c.req(iwf(v), 'no lower bound +oo, no upper bound -oo')
    it = to_bool(integer)
    w = tuple(z3.If(it, floorB(x), x) for x in v)
    scratch(c, ip, 'canonicalize_num')
    setI(c, a, w)
    c.returns(iempty(w))


@ispec('itv_is_top')
def _(c, a):
    v = I(c, a)
    c.req(iwf(v), 'no lower bound +oo, no upper bound -oo')
    c.returns(z3.And(v[0] == pinf, v[1] == pinf))


@ispec('itv_is_bottom')
def _(c, ip, a):
    v = I(c, a)
    c.req(iwf(v), 'no lower bound +oo, no upper bound -oo')
    scratch(c, ip, 'canonicalize_num')
    c.returns(iempty(v))


@ispec('itv_is_canonical_bottom')
def _(c, a):
    c.returns(ibot(I(c, a)))


@ispec('itv_is_point')
def _(c, ip, a):
    v = I(c, a)
    scratch(c, ip, 'canonicalize_num')
    c.returns(ipoint(v))


@ispec('itv_is_zero')
def _(c, a):
    c.returns(ieq(I(c, a), (ZERO, ZERO)))


@ispec('itv_is_leq')
def _(c, a, b):
    v, w = I(c, a), I(c, b)
    c.req(z3.And(iwf(v), iwf(w)), 'no lower bound +oo, no upper bound -oo')
    c.ens('inclusion test is exact on non-empty intervals', lambda S: z3.Implies(inne(v), to_bool(S.ret) == ile(v, w)))
    c.ens('the canonical empty interval is included in everything', lambda S: z3.Implies(ibot(v), to_bool(S.ret)))


@ispec('itv_is_eq')
def _(c, a, b):
    c.returns(ieq(I(c, a), I(c, b)))


@ispec('itv_is_pos')
def _(c, a):
    c.returns(ble(c.B(INF(a)), ZERO))


@ispec('itv_is_neg')
def _(c, a):
    c.returns(ble(c.B(SUP(a)), ZERO))


@ispec('itv_is_int')
def _(c, ip, a):
    v = I(c, a)
    scratch(c, ip, 'muldiv_bound')
    c.returns(z3.And(*[x == truncB(x) for x in v]))


@ispec('itv_range_abs')
def _(c, a, b):
    v = I(c, b)
    c.setB(a, badd(v[1], v[0]))


@ispec('itv_magnitude')
def _(c, a, b):
    v = I(c, b)
    c.req(inne(v), 'non-empty')
    c.setB(a, bmax(v[0], v[1]))


# ---- lattice
@ispec('itv_meet')
def _(c, ip, a, b, d):
    v, w = I(c, b), I(c, d)
    c.req(z3.And(iwf(v), iwf(w)), 'no lower bound +oo, no upper bound -oo')
    r = (bmin(v[0], w[0]), bmin(v[1], w[1]))
    scratch(c, ip, 'canonicalize_num')
    setI(c, a, r, 'intersection')
    c.returns(iempty(r))


@ispec('itv_join')
def _(c, a, b, d):
    v, w = I(c, b), I(c, d)
    setI(c, a, tuple(z3.If(ibot(v), y, z3.If(ibot(w), x, bmax(x, y))) for x, y in zip(v, w)), 'smallest enclosing interval')


def bwiden(x, y):
    return z3.If(z3.And(ble(y, x), y != pinf), x, pinf)


@ispec('bound_widening')
def _(c, a, b, d):
    x, y = c.B(b), c.B(d)
    c.req(y != ninf, 'new bound is not -oo')
    c.setB(a, bwiden(x, y), 'stable bound kept, unstable bound sent to +oo')


ITV.remove('bound_widening_MPQ')


@ispec('itv_widening')
def _(c, a, b, d):
    v, w = I(c, b), I(c, d)
    c.req(z3.And(iwf(v), iwf(w)), 'no lower bound +oo, no upper bound -oo')
    setI(c, a, tuple(z3.If(ibot(v), y, z3.If(ibot(w), x, bwiden(x, y))) for x, y in zip(v, w)), 'stable bounds kept, unstable bounds removed')


# ---- arithmetic
@ispec('itv_add')
def _(c, a, b, d):
    v, w = I(c, b), I(c, d)
    setI(c, a, (badd(v[0], w[0]), badd(v[1], w[1])), 'sum')


@ispec('itv_sub')
def _(c, a, b, d):
    v, w = I(c, b), I(c, d)
    modI(c, a)
    r = (badd(v[0], w[1]), badd(v[1], w[0]))
    c.ens('difference', lambda S: z3.Implies(z3.And(iwf(v), iwf(w)), ieq(I(S, a), r)))


@ispec('itv_neg')
def _(c, a, b):
    v = I(c, b)
    setI(c, a, (v[1], v[0]), 'negation')


def _numarg(c, a, b, d, finite):
    x = c.B(d)
    if finite:
        finreq(c, x)
    for p in (a, b):
        c.req(z3.And(d != INF(p), d != SUP(p)), 'the number is not a bound of the interval')
    return I(c, b), x


@ispec('itv_add_num', 'itv_add_bound')
def _(c, a, b, d):
    v, x = _numarg(c, a, b, d, 'num' in c.name)
    setI(c, a, (bsub(v[0], x), badd(v[1], x)), 'translation')


@ispec('itv_sub_num', 'itv_sub_bound')
def _(c, a, b, d):
    v, x = _numarg(c, a, b, d, 'num' in c.name)
    setI(c, a, (badd(v[0], x), bsub(v[1], x)), 'translation')


# t is the product of a member of one interval by a member of another
PROD = z3.Function('PROD', smt.Bnd, smt.Bnd, smt.Bnd, smt.Bnd, Real, z3.BoolSort())


def member(c):
    """callers reason about members only (the exact product is not needed)"""
    return c.mode == 'call' and c.E.opts.get('member')


def products(c, a, v, w):
    """the contract of a product in terms of members: it follows from the exact one (lemma proved with itv_mul)"""
    v, w = tuple(c.nm(x) for x in v), tuple(c.nm(x) for x in w)
    modI(c, a)
    t = z3.Real('t!prod')
    pr = PROD(v[0], v[1], w[0], w[1], t)
    ne = z3.And(inne(v), inne(w))
    c.ens('not empty', lambda S: z3.Implies(ne, inne(I(S, a))))
    at_ghosts(c, 'mul', a, ne, lambda x, y: (z3.And(imem(x, v), imem(y, w)), MUL(x, y)))
    c.ens('every product is in the result', lambda S: z3.Implies(ne, z3.ForAll([t], z3.Implies(pr, imem(t, I(S, a))), patterns=[pr])))


# values of interest: a proof names the numbers it reasons about (E.ghosts), and the contracts of the operations,
# which hold for all numbers, are instantiated at them
MUL = z3.Function('times', Real, Real, Real)
QUO = z3.Function('over', Real, Real, Real)


def ghosts(c, kind):
    return getattr(c.E, 'ghosts', {}).get(kind, []) if c.mode == 'call' else []


def rfloor(x):
    return z3.ToReal(z3.ToInt(x))


def rceil(x):
    return -z3.ToReal(z3.ToInt(-x))


def rtrunc(x):
    return z3.If(x >= 0, rfloor(x), rceil(x))


def at_ghosts(c, kind, a, ne, f):
    for g in ghosts(c, kind):
        h, r = f(*g)
        c.ens('value %s of the result' % kind, lambda S, h=h, r=r: z3.Implies(z3.And(ne, h), imem(r, I(S, a))))


def prodlemma(c, v, w, r, extra=z3.BoolVal(True)):
    """the exact product holds every product of members, and some"""
    if c.mode == 'call':
        return
    x, y = z3.Real('member of the first'), z3.Real('member of the second')
    h = z3.And(extra, imem(x, v), imem(y, w))
    c.E.oblige(c.st, z3.Implies(h, imem(x * y, r)), 'lemma: the exact product holds every product of members')
    c.E.oblige(c.st, z3.Implies(z3.And(extra, inne(v), inne(w)), inne(r)), 'lemma: the exact product of non-empty intervals is not empty')


@ispec('itv_mul_num', 'itv_mul_bound')
def _(c, a, b, d):
    v, x = _numarg(c, a, b, d, 'num' in c.name)
    if member(c):
        c.req(is_fin(x), 'finite')
        return products(c, a, v, (bneg(x), x))
    if 'bound' in c.name:
        p = bsgn(x) >= 0
        prodlemma(c, v, (bneg(x), x), (z3.If(p, bmul(v[0], x), bmul(v[1], bneg(x))), z3.If(p, bmul(v[1], x), bmul(v[0], bneg(x)))), is_fin(x))
    p = bsgn(x) >= 0
    n = bneg(x)
    setI(c, a, (z3.If(p, bmul(v[0], x), bmul(v[1], n)), z3.If(p, bmul(v[1], x), bmul(v[0], n))), 'product by a scalar')
    c.setB(d, x, 'scalar restored')


@ispec('itv_div_num', 'itv_div_bound')
def _(c, a, b, d):
    v, x = _numarg(c, a, b, d, 'num' in c.name)
    p = bsgn(x) >= 0
    n = bneg(x)
    setI(c, a, (z3.If(p, bdiv(v[0], x), bdiv(v[1], n)), z3.If(p, bdiv(v[1], x), bdiv(v[0], n))), 'quotient by a scalar')
    c.setB(d, x, 'scalar restored')


def bmax4(xs):
    a, b, c_, d = xs
    return bmax(bmax(a, b), bmax(c_, d))


def imul(v, w):
    """hull of the products of the endpoints"""
    vl, vu, wl, wu = bneg(v[0]), v[1], bneg(w[0]), w[1]
    ps = [bmul(x, y) for x in (vl, vu) for y in (wl, wu)]
    ns = [bneg(p) for p in ps]
    return bmax4(ns), bmax4(ps)


def idiv(v, w):
    vl, vu, wl, wu = bneg(v[0]), v[1], bneg(w[0]), w[1]
    ps = [bdiv(x, y) for x in (vl, vu) for y in (wl, wu)]
    ns = [bneg(p) for p in ps]
    return bmax4(ns), bmax4(ps)


@ispec('itv_mul')
def _(c, ip, a, b, d):
    v, w = I(c, b), I(c, d)
    scratch(c, ip, 'mul_bound')
    scratchI(c, ip, 'mul_itv', 'mul_itv2')
    for p in (a, b, d):
        for f in ('mul_itv', 'mul_itv2'):
            c.req(p != INT(c, f, ip), 'operand is not the workspace')
    if member(c):
        return products(c, a, v, w)
    modI(c, a)
    r = imul(v, w)
    prodlemma(c, v, w, r)
    ne = z3.And(inne(v), inne(w))
    c.ens('product: upper bound is the largest endpoint product', lambda S: z3.Implies(ne, S.B(SUP(a)) == r[1]))
    c.ens('product: lower bound is the smallest endpoint product', lambda S: z3.Implies(ne, S.B(INF(a)) == r[0]))


@ispec('itv_div')
def _(c, ip, a, b, d):
    v, w = I(c, b), I(c, d)
    scratch(c, ip, 'mul_bound', 'sqrt_bound')

    modI(c, a)
    r = idiv(v, w)
    ne = z3.And(inne(v), inne(w))
    if member(c):
        c.ens('not empty', lambda S: z3.Implies(ne, inne(I(S, a))))
        return at_ghosts(c, 'quo', a, ne, lambda x, y: (z3.And(imem(x, v), imem(y, w), y != 0), QUO(x, y)))
    nz = z3.Or(bsgn(w[0]) < 0, bsgn(w[1]) < 0)
    if c.mode != 'call':
        x, y = z3.Real('member of the dividend'), z3.Real('member of the divisor')
        h = z3.And(imem(x, v), imem(y, w), y != 0)
        for lab, case in (('positive', bsgn(w[0]) < 0), ('negative', bsgn(w[1]) < 0)):
            c.E.oblige(c.st, z3.Implies(z3.And(h, case), imem(x / y, r)), 'lemma: the exact quotient holds every quotient of members (%s divisor)' % lab)
        c.E.oblige(c.st, z3.Implies(z3.And(ne, nz), inne(r)), 'lemma: the exact quotient of non-empty intervals is not empty')
    z = ieq(v, (ZERO, ZERO))
    c.ens('quotient: upper bound is the largest endpoint quotient', lambda S: z3.Implies(z3.And(ne, nz), S.B(SUP(a)) == r[1]))
    c.ens('quotient: lower bound is the smallest endpoint quotient', lambda S: z3.Implies(z3.And(ne, nz), S.B(INF(a)) == r[0]))
    c.ens('quotient by an interval containing 0 is unbounded', lambda S: z3.Implies(z3.And(ne, z3.Not(nz)),
          z3.If(z, ieq(I(S, a), v), ieq(I(S, a), TOP))))


@ispec('itv_abs')
def _(c, a, b):
    v = I(c, b)
    c.req(inne(v), 'non-empty')
    setI(c, a, (z3.If(bsgn(v[0]) <= 0, v[0], z3.If(bsgn(v[1]) <= 0, v[1], ZERO)), bmax(v[0], v[1])), 'absolute value')


@ispec('itv_mul_2exp')
def _(c, a, b, k):
    v = I(c, b)
    k = to_int(k)
    c.st.assume(z3.And(p2(k) > 0, p2(k) * p2(-k) == 1))
    setI(c, a, tuple(z3.If(is_fin(x), fin(bval(x) * p2(k)), x) for x in v))


def _rnd(nm, f, g):
    @ispec('itv_' + nm)
    def _(c, a, b):
        v = I(c, b)
        if member(c):
            modI(c, a)
            c.ens('not empty', lambda S: z3.And(z3.Implies(iwf(v), iwf(I(S, a))), z3.Implies(inne(v), inne(I(S, a)))))
            if g is None:
                at_ghosts(c, 'int', a, inne(v), lambda x: (imem(x, v), rfloor(x)))
                return at_ghosts(c, 'int', a, inne(v), lambda x: (imem(x, v), rceil(x)))
            return at_ghosts(c, 'int', a, inne(v), lambda x: (imem(x, v), g(x)))
        if c.mode != 'call':
            # rounding is increasing, so it maps members to members; the floor and the ceiling are given by their definitions
            x, z, fx, cx, fz, cz = z3.Reals('x z') + z3.Ints('fx cx fz cz')
            R_ = z3.ToReal
            d = z3.And(R_(fx) <= x, x < R_(fx) + 1, R_(cx) >= x, x > R_(cx) - 1, R_(fz) <= z, z < R_(fz) + 1, R_(cz) >= z, z > R_(cz) - 1,
                       *[z3.Or(s <= t, s >= t + 1) for s, t in ((fx, fz), (cx, cz), (cx, 0), (fz, -1))])
            for a_, b_ in ((fx, fz), (cx, cz), (z3.If(x >= 0, fx, cx), z3.If(z >= 0, fz, cz))):
                c.E.oblige(c.st, z3.Implies(z3.And(d, x <= z), a_ <= b_), 'lemma: rounding is increasing')
        setI(c, a, f(v), nm)


# image of [l,u] by the rounding (inf is the negated lower bound)
_rnd('ceil', lambda v: (floorB(v[0]), ceilB(v[1])), rceil)
_rnd('floor', lambda v: (ceilB(v[0]), floorB(v[1])), rfloor)
_rnd('trunc', lambda v: (truncB(v[0]), truncB(v[1])), rtrunc)
_rnd('to_int', lambda v: (ceilB(v[0]), ceilB(v[1])), None)


# inverse images: every x whose rounding is in [l,u] is in the result
def _unrnd(nm, rel):
    @ispec('itv_' + nm)
    def _(c, a, b):
        v = I(c, b)
        c.req(iwf(v), 'no lower bound +oo, no upper bound -oo')
        modI(c, a)
        x, k = z3.Real('x!' + nm), z3.Int('k!' + nm)
        kr = z3.ToReal(k)
        # valid integer case splits that steer the solver's mixed arithmetic
        hint = z3.And(*[z3.Or(s <= f, s >= f + 1) for y in v for f in (z3.ToInt(bval(y)), -z3.ToInt(-bval(y))) for s in (k, -k)])
        c.ens('contains every value that rounds into the operand',
              lambda S: z3.ForAll([x, k], z3.Implies(z3.And(hint, rel(x, kr), imem(kr, v)), imem(x, I(S, a)))))
        c.ens('bounds stay well-formed', lambda S: iwf(I(S, a)))


def isfloor(x, k):
    return z3.And(k <= x, x < k + 1)


def isceil(x, k):
    return z3.And(k >= x, x > k - 1)


_unrnd('unceil', isceil)
_unrnd('unfloor', isfloor)
_unrnd('untrunc', lambda x, k: z3.If(x >= 0, isfloor(x, k), isceil(x, k)))
_unrnd('from_int', lambda x, k: z3.Or(isfloor(x, k), isceil(x, k)))
