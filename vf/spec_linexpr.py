"""Contracts of linear expressions and constraints (apron/ap_linexpr0.c, ap_lincons0.c).
An expression is an array of coefficients (dense) or of (dimension, coefficient) pairs (sparse) sorted by dimension, in
which free pairs, marked by the largest dimension, come last."""
import z3
import smt
from smt import fp, el, root, null, Int, Ptr, fin, is_fin
from contract import spec, forall_int
from engine import to_int, to_bool, fid, Engine
from spec_scalar import F, cvalid, cdis, cparts, val, discr, SCAL, INTERVAL, Co, capart, cwrites, csame, of, touch, newcoeff, valid, disj, bsgn
from spec_scalar import DBL
from spec_box import exists_int

LIN, LCONS = [], []
DENSE, SPARSE = 0, 1
MAXD = 2**32 - 1
Z = fin(z3.RealVal(0))


def lspec(*names):
    LIN.extend(names)
    return spec(*names)


def kspec(*names):
    LCONS.extend(names)
    return spec(*names)


def m_at(e, f):
    return fp(e, F('ap_linexpr0_t', f))


def arr_at(e, f):
    return fp(m_at(e, 'p'), F('anon', f))


def lc(o, k):
    return fp(el(o, k), F('ap_linterm_t', 'coeff'))


def ld(o, k):
    return fp(el(o, k), F('ap_linterm_t', 'dim'))


def czero(V, a):
    p, i, lp, hp = cparts(V, a)
    return z3.If(cdis(V, a) == SCAL, val(V, p) == Z, z3.And(val(V, lp) == Z, val(V, hp) == Z))


class Lin(object):
    """a linear expression in the pre-state"""

    def __init__(self, c, e, cases=True, req=True):
        self.c, self.e = c, e
        q = c.req if req else c.assume
        if req:
            c.nonnull(e)
        self.d = c.nm(c.at('enum', m_at(e, 'discr')))
        self.n = c.nm(c.at('unsigned long', m_at(e, 'size')))
        c.assume(self.n >= 0)
        self.pc, self.pl = c.ptrat(arr_at(e, 'coeff')), c.ptrat(arr_at(e, 'linterm'))
        self.oc, self.ol = c.nm(Ptr.obj(self.pc)), c.nm(Ptr.obj(self.pl))
        self.cst = m_at(e, 'cst')
        k, a, b = z3.Ints('k a b')
        n0 = c.n0
        q(z3.Or(self.d == DENSE, self.d == SPARSE), 'dense or sparse')
        q(z3.Or(self.d != DENSE, self.n == 0, z3.And(self.pc == el(self.oc, 0), self.oc < n0, Engine.BYTES(self.oc) >= 16 * self.n)), 'the coefficients exist')
        q(z3.Or(self.d != SPARSE, self.n == 0, z3.And(self.pl == el(self.ol, 0), self.ol < n0, Engine.BYTES(self.ol) >= 24 * self.n)), 'the linear terms exist')
        q(cvalid(c, self.cst, n0), 'the constant is well formed')
        q(z3.Or(self.d != DENSE, forall_int('k', 0, self.n, lambda k: cvalid(c, el(self.oc, k), n0), lambda k: [el(self.oc, k)])), 'the coefficients are well formed')
        q(z3.Or(self.d != SPARSE, forall_int('k', 0, self.n, lambda k: cvalid(c, lc(self.ol, k), n0), lambda k: [el(self.ol, k)])), 'the linear terms are well formed')
        c.H('unsigned int')
        c.assume(z3.ForAll([k], z3.And(self.sdim(k) >= 0, self.sdim(k) <= MAXD), patterns=[el(self.ol, k)]))
        q(z3.Or(self.d != SPARSE, z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.n), z3.Or(self.sdim(a) < self.sdim(b), self.sdim(b) == MAXD)),
            patterns=[z3.MultiPattern(el(self.ol, a), el(self.ol, b))])), 'the linear terms are sorted, the free ones last')
        if cases and c.mode != 'call':
            c.cases = [self.d == DENSE, self.d == SPARSE]

    def sdim(self, k):
        return self.c.at('unsigned int', ld(self.ol, k))

    def each_req(self, f, label):
        c = self.c
        c.req(z3.Or(self.d != DENSE, forall_int('k', 0, self.n, lambda k: f(el(self.oc, k)), lambda k: [el(self.oc, k)])), label)
        c.req(z3.Or(self.d != SPARSE, forall_int('k', 0, self.n, lambda k: f(lc(self.ol, k)), lambda k: [el(self.ol, k)])), label)

    def yes(self, label, f, on=None):
        """S.ret implies f(dimension, coefficient) for every coefficient"""
        c = self.c
        r = on or (lambda S: to_bool(S.ret))
        c.each(label + ' (dense)', 0, self.n, lambda S, k: z3.Implies(z3.And(self.d == DENSE, r(S)), f(k, el(self.oc, k))), lambda S, k: [el(self.oc, k)])
        c.each(label + ' (sparse)', 0, self.n, lambda S, k: z3.Implies(z3.And(self.d == SPARSE, r(S), self.sdim(k) != MAXD), f(self.sdim(k), lc(self.ol, k))), lambda S, k: [el(self.ol, k)])

    def exists(self, f):
        """some coefficient with f"""
        return z3.If(self.d == DENSE, exists_int(0, self.n, lambda k: f(k, el(self.oc, k)), lambda k: [el(self.oc, k)]),
                     exists_int(0, self.n, lambda k: z3.And(self.sdim(k) != MAXD, f(self.sdim(k), lc(self.ol, k))), lambda k: [el(self.ol, k)]))


def ofat(c, q):
    p, i, lp, hp = cparts(c, q)
    return [(discr(c, t), val(c, t)) for t in (p, lp, hp)]


def eqc(c, S, a, q):
    """a now is what q was"""
    return csame(S, a, cdis(c, q), ofat(c, q))


def sep(c, x, q):
    """the coefficient at q shares nothing with x"""
    p, i, lp, hp = cparts(c, q)
    d = cdis(c, q)
    cs = [x.a != q, z3.Or(x.d != INTERVAL, d != INTERVAL, x.i != i)]
    for s in x.sc:
        for t, k in ((p, SCAL), (lp, INTERVAL), (hp, INTERVAL)):
            cs.append(z3.Or(z3.Not(s.cond), d != k, disj(c, s.a, t)))
    return z3.And(*cs)


def decides(L, f, label, extra=None):
    """the result says whether extra and f hold for every coefficient"""
    c = L.c
    x = z3.BoolVal(True) if extra is None else extra
    c.ens('true only if ' + label + ' (constant)', lambda S: z3.Implies(to_bool(S.ret), x))
    L.yes('true only if ' + label, f)
    c.ens('false only if not ' + label, lambda S: z3.Or(to_bool(S.ret), z3.Not(x), L.exists(lambda d, q: z3.Not(f(d, q)))))


@lspec('ap_linexpr0_is_integer', 'ap_linexpr0_is_real')
def _(c, e, i):
    L = Lin(c, e)
    i = to_int(i)
    if c.name == 'ap_linexpr0_is_integer':
        decides(L, lambda d, q: z3.Or(d < i, czero(c, q)), 'every coefficient of a real dimension is zero')
    else:
        decides(L, lambda d, q: z3.Or(d >= i, czero(c, q)), 'every coefficient of an integer dimension is zero')


@lspec('ap_linexpr0_is_linear')
def _(c, e):
    L = Lin(c, e)
    decides(L, lambda d, q: cdis(c, q) == SCAL, 'every coefficient is a scalar', cdis(c, L.cst) == SCAL)


@lspec('ap_linexpr0_is_quasilinear')
def _(c, e):
    L = Lin(c, e)
    decides(L, lambda d, q: cdis(c, q) == SCAL, 'every coefficient of a dimension is a scalar')


INTLIN, QUASI, LINEAR = 0, 1, 2


@lspec('ap_linexpr0_type')
def _(c, e):
    L = Lin(c, e)
    sc = lambda d, q: cdis(c, q) == SCAL
    c.ens('one of three classes', lambda S: z3.And(S.ret >= 0, S.ret <= 2))
    L.yes('linear or quasilinear only if the coefficients are scalars', sc, on=lambda S: S.ret != INTLIN)
    c.ens('interval-linear only if some coefficient is not a scalar', lambda S: z3.Or(S.ret != INTLIN, L.exists(lambda d, q: z3.Not(sc(d, q)))))
    c.ens('the constant tells linear from quasilinear', lambda S: z3.Implies(S.ret != INTLIN, (S.ret == LINEAR) == (cdis(c, L.cst) == SCAL)))


@lspec('index_of_or_after_dim')
def _(c, dim, p, n):
    dim, n = to_int(dim), to_int(n)
    o, b = c.nm(Ptr.obj(p)), c.nm(Ptr.idx(p))
    D = lambda k: c.at('unsigned int', ld(o, k))
    i, j = z3.Ints('i j')
    c.req(z3.Or(n == 0, z3.And(p == el(o, b), b >= 0, o < c.n0)), 'an array of linear terms')
    c.assume(z3.ForAll([i], z3.And(D(i) >= 0, D(i) <= MAXD), patterns=[el(o, i)]))
    c.req(z3.ForAll([i, j], z3.Implies(z3.And(b <= i, i < j, j < b + n), z3.Or(D(i) < D(j), D(j) == MAXD)), patterns=[z3.MultiPattern(el(o, i), el(o, j))]), 'sorted linear terms')
    c.req(dim < MAXD, 'a real dimension')
    r = lambda S: to_int(S.ret)
    c.ens('an index or the end', lambda S: z3.And(r(S) >= 0, r(S) <= n))
    c.each('smaller dimensions come before', b, b + n, lambda S, k: z3.Implies(k < b + r(S), D(k) < dim), lambda S, k: [el(o, k)])
    c.each('the other ones come after', b, b + n, lambda S, k: z3.Implies(k >= b + r(S), D(k) >= dim), lambda S, k: [el(o, k)])


@lspec('ap_linexpr0_get_coeff')
def _(c, a, e, dim):
    dim = to_int(dim)
    c.assume(dim <= MAXD)
    x = Co(c, a)
    L = Lin(c, e)
    # the destination is not part of the expression
    L.each_req(lambda q: sep(c, x, q), 'the destination shares nothing with the expression')
    cwrites(c, x)
    fails = c.nm(z3.If(L.d == DENSE, dim >= L.n, dim == MAXD))
    c.ens('fails only for a dimension the expression does not have', lambda S: to_bool(S.ret) == fails)
    c.ens('the coefficient (dense)', lambda S: z3.Implies(z3.And(L.d == DENSE, z3.Not(fails)), eqc(c, S, a, el(L.oc, dim))))
    c.each('the coefficient of a term present (sparse)', 0, L.n, lambda S, k: z3.Implies(z3.And(L.d == SPARSE, z3.Not(fails), L.sdim(k) == dim), eqc(c, S, a, lc(L.ol, k))), lambda S, k: [el(L.ol, k)])
    c.ens('zero when no term is present (sparse)', lambda S: z3.Or(L.d != SPARSE, fails, z3.And(cdis(S, a) == SCAL, val(S, cparts(S, a)[0]) == Z),
        exists_int(0, L.n, lambda k: L.sdim(k) == dim, lambda k: [el(L.ol, k)])))


def arrays(c, p, n, get=None):
    """an array of n expressions; LL(k): the k-th expression's address"""
    o = c.nm(Ptr.obj(p))
    c.req(z3.Or(n == 0, z3.And(p == el(o, 0), o < c.n0)), 'an array of expressions')
    return o


def newexpr(c, S, e, d, n):
    """array objects of a new expression"""
    oc, ol = Ptr.obj(S.at('ptr', arr_at(e, 'coeff'))), Ptr.obj(S.at('ptr', arr_at(e, 'linterm')))
    return oc, ol


def fresh_expr(c, d, n, coef):
    """the result is a new expression of n coefficients; coef(S, new coefficient, k, sparse)"""
    touch(c)
    c.freshret = True
    for cls in ('enum', 'unsigned long', 'unsigned int', 'ptr'):
        c.H(cls)
    c.ens('representation and size', lambda S: z3.And(S.at('enum', m_at(S.ret, 'discr')) == d, S.at('unsigned long', m_at(S.ret, 'size')) == n))
    oc = lambda S: S.nm(Ptr.obj(S.at('ptr', arr_at(S.ret, 'coeff'))))
    ol = lambda S: S.nm(Ptr.obj(S.at('ptr', arr_at(S.ret, 'linterm'))))
    c.ens('new arrays', lambda S: z3.And(z3.Implies(z3.And(d == DENSE, n > 0), z3.And(S.at('ptr', arr_at(S.ret, 'coeff')) == el(oc(S), 0), oc(S) >= c.n0, oc(S) < S.st.n, Engine.BYTES(oc(S)) >= 16 * n)),
                                         z3.Implies(z3.And(d == SPARSE, n > 0), z3.And(S.at('ptr', arr_at(S.ret, 'linterm')) == el(ol(S), 0), ol(S) >= c.n0, ol(S) < S.st.n, Engine.BYTES(ol(S)) >= 24 * n))))
    c.each('new coefficients (dense)', 0, n, lambda S, k: z3.Implies(d == DENSE, newcoeff(c, S, el(oc(S), k))), lambda S, k: [el(oc(S), k)])
    c.each('new coefficients (sparse)', 0, n, lambda S, k: z3.Implies(d == SPARSE, newcoeff(c, S, lc(ol(S), k))), lambda S, k: [el(ol(S), k)])
    c.each('coefficients (dense)', 0, n, lambda S, k: z3.Implies(d == DENSE, coef(S, el(oc(S), k), k, False)), lambda S, k: [el(oc(S), k)])
    c.each('coefficients (sparse)', 0, n, lambda S, k: z3.Implies(d == SPARSE, coef(S, lc(ol(S), k), k, True)), lambda S, k: [el(ol(S), k)])
    return oc, ol


@lspec('ap_linexpr0_alloc')
def _(c, d, n):
    d, n = to_int(d), to_int(n)
    c.req(z3.And(d >= 0, d <= 1), 'a representation')
    c.bounds = True
    zero = lambda S, q: csame(S, q, SCAL, [(DBL, Z)] * 3)
    oc, ol = fresh_expr(c, d, n, lambda S, q, k, sp: zero(S, q))
    c.ens('constant', lambda S: z3.And(newcoeff(c, S, m_at(S.ret, 'cst')), zero(S, m_at(S.ret, 'cst'))))
    c.each('free linear terms', 0, n, lambda S, k: z3.Implies(d == SPARSE, S.at('unsigned int', ld(ol(S), k)) == MAXD), lambda S, k: [el(ol(S), k)])
    if c.mode != 'call':
        c.cases = [d == DENSE, d == SPARSE]


@lspec('ap_linexpr0_copy')
def _(c, e):
    c.rlim = 1500000
    L = Lin(c, e)
    c.bounds = True
    oc, ol = fresh_expr(c, L.d, L.n, lambda S, q, k, sp: eqc(c, S, q, lc(L.ol, k) if sp else el(L.oc, k)))
    c.ens('constant', lambda S: z3.And(newcoeff(c, S, m_at(S.ret, 'cst')), eqc(c, S, m_at(S.ret, 'cst'), L.cst)))
    c.each('dimensions of the linear terms', 0, L.n, lambda S, k: z3.Implies(L.d == SPARSE, S.at('unsigned int', ld(ol(S), k)) == L.sdim(k)), lambda S, k: [el(ol(S), k)])


# ---- constraints
EQ, SUPEQ, SUP, EQMOD, DISEQ = 0, 1, 2, 3, 4


def k_at(a, f):
    return fp(a, F('ap_lincons0_t', f))


class Cons(object):
    def __init__(self, c, a):
        self.c, self.a = c, a
        c.nonnull(a)
        self.ty = c.nm(c.at('enum', k_at(a, 'constyp')))
        c.req(z3.And(self.ty >= 0, self.ty <= 4), 'a kind of constraint')
        self.e = c.ptrat(k_at(a, 'linexpr0'))
        self.L = Lin(c, self.e)
        self.mod = c.ptrat(k_at(a, 'scalar'))
        c.req(z3.Or(self.mod == null, z3.And(root(self.mod) < c.n0, valid(c, self.mod, c.n0))), 'the modulus, if any, is a scalar')
        p, i, lp, hp = cparts(c, self.L.cst)
        sc = cdis(c, self.L.cst) == SCAL
        self.lo = c.nm(z3.If(sc, val(c, p), val(c, lp)))
        self.hi = c.nm(z3.If(sc, val(c, p), val(c, hp)))


@kspec('ap_lincons0_is_unsat', 'ap_lincons0_is_sat')
def _(c, a):
    """the values v of the constant are those with lo <= v <= hi"""
    K = Cons(c, a)
    zero = lambda d, q: czero(c, q)
    r = lambda S: to_bool(S.ret)
    K.L.yes('true only if every coefficient is zero', zero)
    sl, sh, ty = bsgn(K.lo), bsgn(K.hi), K.ty
    empty = z3.Not(smt.ble(K.lo, K.hi))
    m = z3.And(K.mod != null, bsgn(val(c, K.mod)) != 0)
    # for which v in [lo,hi] the constraint can hold / always holds
    some = z3.If(ty == EQ, z3.And(sl <= 0, sh >= 0), z3.If(ty == SUPEQ, sh >= 0, z3.If(ty == SUP, sh > 0, z3.If(ty == DISEQ, z3.Or(sl != 0, sh != 0), z3.Or(m, z3.And(sl <= 0, sh >= 0))))))
    all_ = z3.If(ty == SUPEQ, sl >= 0, z3.If(ty == SUP, sl > 0, z3.If(ty == DISEQ, z3.Or(sl > 0, sh < 0), z3.And(sl == 0, sh == 0))))
    some, all_ = c.nm(some), c.nm(all_)
    none = K.L.exists(lambda d, q: z3.Not(zero(d, q)))
    if c.name == 'ap_lincons0_is_unsat':
        c.ens('unsatisfiable only if no value of the constant satisfies it', lambda S: z3.Implies(r(S), z3.Or(empty, z3.Not(some))))
        c.ens('not unsatisfiable only if some value does', lambda S: z3.Or(r(S), none, empty, some))
    else:
        c.ens('satisfied only if every value of the constant satisfies it', lambda S: z3.Implies(r(S), z3.Or(empty, all_)))
        c.ens('not satisfied only if some value does not', lambda S: z3.Or(r(S), none, empty, z3.Not(all_)))
