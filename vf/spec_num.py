"""Contracts of the number and bound layers (num/*.h), exact-rational build."""
import z3
import smt
from smt import fin, pinf, ninf, is_fin, bval, bsgn, bneg, ble, badd, bsub, rsgn
from contract import spec
from bview import layer, Bof, IsI
from engine import to_int, to_bool, zand
from spec_gmp import p2

NUM = []     # names proved in the num layer


def nspec(*names):
    NUM.extend(names)
    return spec(*names)


def finreq(c, *vs):
    for v in vs:
        c.req(is_fin(v), 'finite operand')


# ---- num_t (finite rationals, but copies and signs also work on infinities)
@nspec('num_set', 'num_init_set', 'bound_set', 'bound_init_set', 'numrat_set', 'numrat_init_set')
def _(c, a, b):
    if 'init' in c.name:
        c.req(a != b, 'distinct operands')
    c.setB(a, c.B(b))


@nspec('num_set_int', 'num_init_set_int', 'bound_set_int', 'bound_init_set_int', 'numrat_set_int', 'numrat_init_set_int')
def _(c, a, i):
    c.setB(a, fin(z3.ToReal(to_int(i))))


@nspec('num_init', 'bound_init', 'numrat_init')
def _(c, a):
    c.setB(a, fin(z3.RealVal(0)))


@nspec('num_clear', 'bound_clear', 'numrat_clear')
def _(c, a):
    pass


@nspec('num_swap', 'bound_swap', 'numrat_swap')
def _(c, a, b):
    x, y = c.B(a), c.B(b)
    c.setB(a, y)
    c.setB(b, x)


@nspec('num_neg', 'bound_neg', 'numrat_neg')
def _(c, a, b):
    c.setB(a, bneg(c.B(b)))


@nspec('num_abs', 'bound_abs', 'numrat_abs')
def _(c, a, b):
    v = c.B(b)
    c.setB(a, z3.If(bsgn(v) < 0, bneg(v), v))


def _bin(nm, f):
    @nspec('num_' + nm, 'numrat_' + nm)
    def _(c, a, b, d):
        x, y = c.B(b), c.B(d)
        finreq(c, x, y)
        if nm == 'div':
            c.req(bval(y) != 0, 'non-zero divisor')
        c.setB(a, fin(f(bval(x), bval(y))))


_bin('add', lambda x, y: x + y)
_bin('sub', lambda x, y: x - y)
_bin('mul', lambda x, y: x * y)
_bin('div', lambda x, y: x / y)
_bin('min', lambda x, y: z3.If(x <= y, x, y))
_bin('max', lambda x, y: z3.If(x >= y, x, y))


def _ui(nm, f):
    @nspec('num_' + nm + '_uint', 'numrat_' + nm + '_uint')
    def _(c, a, b, k):
        x = c.B(b)
        finreq(c, x)
        c.setB(a, fin(f(bval(x), z3.ToReal(to_int(k)))))


_ui('add', lambda x, y: x + y)
_ui('sub', lambda x, y: x - y)


@nspec('num_mul_2', 'numrat_mul_2')
def _(c, a, b):
    x = c.B(b)
    finreq(c, x)
    c.setB(a, fin(bval(x) * 2))


@nspec('num_div_2', 'numrat_div_2')
def _(c, a, b):
    x = c.B(b)
    finreq(c, x)
    c.setB(a, fin(bval(x) / 2))


@nspec('num_mul_2exp', 'numrat_mul_2exp')
def _(c, a, b, k):
    x = c.B(b)
    finreq(c, x)
    k = to_int(k)
    c.st.assume(z3.And(p2(k) > 0, p2(k) * p2(-k) == 1))
    c.setB(a, fin(bval(x) * p2(k)))


def rounded(E, kind, x, b):
    """b is the rounding of the real x: an integer r with r <= x < r+1 (resp. r-1 < x <= r)"""
    r = bval(b)
    if layer(E) == 'bnd':
        fl, ce = z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))
        v = {'floor': fl, 'ceil': ce, 'trunc': z3.If(x >= 0, fl, ce)}[kind]
        return z3.And(is_fin(b), r == v, IsI(r))
    fl = z3.And(r <= x, x < r + 1)
    ce = z3.And(r >= x, x > r - 1)
    m = {'floor': fl, 'ceil': ce, 'trunc': z3.If(x >= 0, fl, ce)}[kind]
    return z3.And(is_fin(b), IsI(r), m)


def integral(E, r):
    if layer(E) == 'bnd':
        return z3.IsInt(r)
    return IsI(r)


def _round(kind):
    @nspec('num_' + kind, 'numrat_' + kind)
    def _(c, a, b):
        x = c.B(b)
        finreq(c, x)
        c.relB(a, lambda v: rounded(c.E, kind, bval(x), v), kind + ' of the operand')

    @nspec('bound_' + kind)
    def _(c, a, b):
        x = c.B(b)
        c.relB(a, lambda v: z3.If(is_fin(x), rounded(c.E, kind, bval(x), v), v == x), kind + ' of the operand')


for _k in ('floor', 'ceil', 'trunc'):
    _round(_k)


@nspec('num_sgn', 'bound_sgn', 'numrat_sgn')
def _(c, a):
    s = bsgn(c.B(a))
    c.ens('sign', lambda S: z3.And((S.ret > 0) == (s > 0), (S.ret < 0) == (s < 0), S.ret >= -1, S.ret <= 1))


@nspec('num_cmp', 'numrat_cmp', 'bound_cmp_num')
def _(c, a, b):
    x, y = c.B(a), c.B(b)
    if not c.name.startswith('bound'):
        finreq(c, x)
    finreq(c, y)
    c.ens('sign of the difference', lambda S: z3.And((S.ret > 0) == z3.Not(ble(x, y)), (S.ret < 0) == z3.Not(ble(y, x))))


@nspec('num_cmp_int', 'numrat_cmp_int', 'bound_cmp_int')
def _(c, a, i):
    x = c.B(a)
    if not c.name.startswith('bound'):
        finreq(c, x)
    y = fin(z3.ToReal(to_int(i)))
    c.ens('sign of the difference', lambda S: z3.And((S.ret > 0) == z3.Not(ble(x, y)), (S.ret < 0) == z3.Not(ble(y, x))))


@nspec('bound_cmp')
def _(c, a, b):
    x, y = c.B(a), c.B(b)
    c.ens('sign of the difference', lambda S: z3.And((S.ret > 0) == z3.Not(ble(x, y)), (S.ret < 0) == z3.Not(ble(y, x))))


@nspec('num_equal', 'bound_equal', 'numrat_equal')
def _(c, a, b):
    c.returns(c.B(a) == c.B(b))


@nspec('num_integer', 'bound_integer', 'numrat_integer')
def _(c, a):
    x = c.B(a)
    if not c.name.startswith('bound'):
        finreq(c, x)
    if layer(c.E) == 'num':
        # a fraction in lowest terms is integral iff its denominator is 1
        from bview import nd, canon, Q
        n, d = nd(c, a)
        c.st.assume(z3.Implies(z3.And(d > 0, canon(n, d)), (d == 1) == IsI(Q(n, d))))
    c.returns(z3.And(is_fin(x), integral(c.E, bval(x))))


# ---- bound_t
@nspec('bound_infty')
def _(c, a):
    c.returns(z3.Not(is_fin(c.B(a))))


@nspec('bound_set_infty', 'bound_init_set_infty')
def _(c, a, sgn):
    sgn = to_int(sgn)
    c.req(sgn != 0, 'sign is not zero')
    c.setB(a, z3.If(sgn > 0, pinf, ninf))


@nspec('bound_set_num')
def _(c, a, b):
    c.setB(a, c.B(b))


@nspec('bound_add')
def _(c, a, b, d):
    c.setB(a, badd(c.B(b), c.B(d)))


@nspec('bound_sub')
def _(c, a, b, d):
    c.setB(a, bsub(c.B(b), c.B(d)))


@nspec('bound_add_num')
def _(c, a, b, d):
    y = c.B(d)
    finreq(c, y)
    c.setB(a, badd(c.B(b), y))


@nspec('bound_sub_num')
def _(c, a, b, d):
    y = c.B(d)
    finreq(c, y)
    c.setB(a, bsub(c.B(b), y))


@nspec('bound_add_uint')
def _(c, a, b, k):
    c.setB(a, badd(c.B(b), fin(z3.ToReal(to_int(k)))))


@nspec('bound_sub_uint')
def _(c, a, b, k):
    c.setB(a, bsub(c.B(b), fin(z3.ToReal(to_int(k)))))


def bmul(x, y):
    """0*oo = 0, otherwise the sign rule"""
    s = bsgn(x) * bsgn(y)
    sx, sy = bsgn(x), bsgn(y)
    pos = z3.Or(z3.And(sx > 0, sy > 0), z3.And(sx < 0, sy < 0))
    return z3.If(z3.Or(sx == 0, sy == 0), fin(z3.RealVal(0)),
                 z3.If(z3.And(is_fin(x), is_fin(y)), fin(bval(x) * bval(y)), z3.If(pos, pinf, ninf)))


def bdiv(x, y):
    """0/y = x/oo = 0, x/0 = sign(x)*oo, oo/y = sign rule"""
    sx, sy = bsgn(x), bsgn(y)
    pos = z3.Or(z3.And(sx > 0, sy > 0), z3.And(sx < 0, sy < 0))
    return z3.If(z3.Or(sx == 0, z3.Not(is_fin(y))), fin(z3.RealVal(0)),
                 z3.If(sy == 0, z3.If(sx > 0, pinf, ninf),
                       z3.If(is_fin(x), fin(bval(x) / bval(y)), z3.If(pos, pinf, ninf))))


@nspec('bound_mul')
def _(c, a, b, d):
    c.setB(a, bmul(c.B(b), c.B(d)))


@nspec('bound_mul_num')
def _(c, a, b, d):
    y = c.B(d)
    finreq(c, y)
    c.setB(a, bmul(c.B(b), y))


@nspec('bound_div')
def _(c, a, b, d):
    c.setB(a, bdiv(c.B(b), c.B(d)))


@nspec('bound_div_num')
def _(c, a, b, d):
    y = c.B(d)
    finreq(c, y)
    c.setB(a, bdiv(c.B(b), y))


@nspec('bound_mul_2')
def _(c, a, b):
    x = c.B(b)
    c.setB(a, z3.If(is_fin(x), fin(bval(x) * 2), x))


@nspec('bound_div_2')
def _(c, a, b):
    x = c.B(b)
    c.setB(a, z3.If(is_fin(x), fin(bval(x) / 2), x))


@nspec('bound_mul_2exp')
def _(c, a, b, k):
    x = c.B(b)
    k = to_int(k)
    c.st.assume(z3.And(p2(k) > 0, p2(k) * p2(-k) == 1))
    c.setB(a, z3.If(is_fin(x), fin(bval(x) * p2(k)), x))


@nspec('bound_min')
def _(c, a, b, d):
    c.setB(a, smt.bmin(c.B(b), c.B(d)))


@nspec('bound_max')
def _(c, a, b, d):
    c.setB(a, smt.bmax(c.B(b), c.B(d)))
