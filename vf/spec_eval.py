"""Contracts of the evaluation of linear expressions over boxes (itv/itv_linearize.c, itv/itv_linexpr.c) and of its users.

What is stated: take any real numbers TG(0), TG(1), ... such that TG(k) is a product of a member of the k-th
coefficient by a member of the interval of its dimension (PROD), any member of the constant as SG(0), and
SG(k+1) = SG(k) + TG(k).  Then SG(m), m being the number of terms, is in the computed interval.  TG, SG and the
operands being arbitrary, that is: the value of the expression at every point of the box is in the result."""
import z3
import smt
from smt import fin, is_fin, bval, bneg, ble, bsgn, fp, el, root, tidx, null, Int, Ptr, Real
from contract import spec, forall_int
from engine import to_int, to_bool, Engine, fresh
from spec_itv import I, INF, SUP, INT, setI, modI, inne, iempty, ipoint, imem, scratch, scratchI, imul, iwf, PROD, MUL, QUO, ghosts, rfloor, rceil, rtrunc
from spec_scalar import Sc, Iv, Co, cdis, cparts, val, discr, store, SCAL, INTERVAL, F, writes, MPQ, MPFR, DBL, cvalid, disj
from spec_linexpr import Lin, MAXD, lc, DENSE, SPARSE, sep
from spec_conv import convscalar
from spec_box import Box, flags, intern, ITVSZ

EVAL = []
TG, SG, MG = z3.Function('TG', Int, Real), z3.Function('SG', Int, Real), z3.Const('MG', Int)


def espec(*names):
    ns = []
    for n in names:
        ns += [n, n + '_MPQ']
    EVAL.extend(ns)
    return spec(*ns)


def lt(o, k, f):
    return fp(el(o, k), F('itv_linterm_t', f))


class ILin(object):
    """an interval linear expression in the pre-state"""

    def __init__(self, c, e):
        self.c, self.e = c, e
        c.nonnull(e)
        m = lambda f: fp(e, F('itv_linexpr_t', f))
        self.n = c.nm(c.at('unsigned long', m('size')))
        c.assume(self.n >= 0)
        self.p = c.ptrat(m('linterm'))
        self.o = c.nm(Ptr.obj(self.p))
        self.cst = m('cst')
        c.H('mpq'), c.H('_Bool'), c.H('unsigned int')
        c.req(z3.Or(self.n == 0, z3.And(self.p == el(self.o, 0), self.o < c.n0, Engine.BYTES(self.o) >= 72 * self.n)), 'the terms exist')
        k = z3.Int('k')
        c.assume(z3.ForAll([k], z3.And(self.dim(k) >= 0, self.dim(k) <= MAXD), patterns=[el(self.o, k)]))
        c.req(forall_int('k', 0, self.n, lambda k: inne(self.co(k)), lambda k: [el(self.o, k)]), 'the coefficients are not empty')
        c.req(forall_int('k', 0, self.n, lambda k: z3.Implies(self.eq(k), ipoint(self.co(k))), lambda k: [el(self.o, k)]), 'coefficients marked as points are points')
        c.req(inne(I(c, self.cst)), 'the constant is not empty')
        self.v0 = I(c, self.cst)

    def dim(self, k):
        return self.c.at('unsigned int', lt(self.o, k, 'dim'))

    def eq(self, k):
        return self.c.at('_Bool', lt(self.o, k, 'equality'))

    def co(self, k):
        return I(self.c, lt(self.o, k, 'itv'))

    def parts(self):
        """(condition, term -> (dimension, coefficient), patterns)"""
        return [(z3.BoolVal(True), lambda k: (self.dim(k), self.co(k)), lambda k: [el(self.o, k)])]


def pv(c, q):
    """the interval of a coefficient"""
    p, i, lp, hp = cparts(c, q)
    s = cdis(c, q) == SCAL
    return z3.If(s, bneg(val(c, p)), bneg(val(c, lp))), z3.If(s, val(c, p), val(c, hp))


def okc(c, q):
    p, i, lp, hp = cparts(c, q)
    return z3.If(cdis(c, q) == SCAL, is_fin(val(c, p)), inne((bneg(val(c, lp)), val(c, hp))))


class ALin(Lin):
    """a user-level linear expression in the pre-state"""

    def __init__(self, c, e, cases=True):
        Lin.__init__(self, c, e, cases)
        self.each_req(lambda q: okc(c, q), 'the coefficients are finite numbers or non-empty intervals')
        c.req(okc(c, self.cst), 'the constant is a finite number or a non-empty interval')
        self.v0 = pv(c, self.cst)

    def parts(self):
        return [(self.d == DENSE, lambda k: (k, pv(self.c, el(self.oc, k))), lambda k: [el(self.oc, k)]),
                (self.d == SPARSE, lambda k: (self.sdim(k), pv(self.c, lc(self.ol, k))), lambda k: [el(self.ol, k)])]


class Env(object):
    """an array of intervals, one per dimension"""

    def __init__(self, c, p, nb=None):
        self.c, self.p = c, p
        self.o = c.nm(Ptr.obj(p))
        c.H('mpq')
        c.req(z3.And(p == el(self.o, 0), self.o < c.n0), 'the environment exists')

    def cell(self, d):
        return I(self.c, el(self.o, d))

    def has(self, L):
        """an interval, not empty, for every dimension of the expression"""
        c = self.c
        for cond, f, pats in L.parts():
            c.req(z3.Or(z3.Not(cond), forall_int('k', 0, L.n, lambda k: z3.Or(f(k)[0] == MAXD, z3.And(Engine.BYTES(self.o) >= (f(k)[0] + 1) * ITVSZ, inne(self.cell(f(k)[0])))), pats)),
                  'the environment has a non-empty interval for every dimension')


def ghost(c, L, E):
    """TG, SG, MG describe a value of the expression at a point of the environment"""
    out = [imem(SG(0), L.v0), MG >= 0, MG <= L.n]
    for cond, f, pats in L.parts():
        def body(k, f=f):
            d, w = f(k)
            v = E.cell(d)
            return z3.And(d != MAXD, PROD(v[0], v[1], w[0], w[1], TG(k)), SG(k + 1) == SG(k) + TG(k))
        out.append(z3.Or(z3.Not(cond), z3.And(forall_int('k', 0, MG, body, pats), z3.Or(MG == L.n, f(MG)[0] == MAXD))))
    h = fresh('a value', z3.BoolSort())
    c.st.assume(z3.Implies(z3.And(*out), h) if c.mode == 'call' else z3.Implies(h, z3.And(*out)))
    return h


def zeroterm(c):
    """a product with the point 0 is 0 (definition of PROD)"""
    a, b, v, w = (z3.Const(n, smt.Bnd) for n in ('a!', 'b!', 'v!', 'w!'))
    t = z3.Real('t!')
    c.assume(z3.ForAll([a, b, v, w, t], z3.Implies(z3.And(PROD(a, b, v, w, t), is_fin(v), is_fin(w), bval(v) == 0, bval(w) == 0), t == 0), patterns=[PROD(a, b, v, w, t)]))


def evalinv(c, L, hyp, acc):
    def gen(Lp):
        E = Lp.E
        B = lambda st: tuple(E.heap(st, 'mpq')[p] for p in (INF(acc), SUP(acc)))
        out = [('the partial sum is not empty', lambda st: inne(B(st)))]
        for i in Lp.regs('int'):
            out.append(('the partial sum of the point is in the interval (%s)' % E.decls[i][0], lambda st, i=i: z3.Implies(hyp, z3.And(0 <= st.regs[i], st.regs[i] <= MG, imem(SG(st.regs[i]), B(st))))))
        return out
    c.inv(gen)


@espec('itv_eval_linexpr')
def _(c, ip, a, e, env):
    c.bounds = True
    c.nonnull(a), c.nonnull(ip)
    L, E = ILin(c, e), Env(c, env)
    E.has(L)
    for o, w in ((L.o, 'the terms'), (E.o, 'the environment'), (root(e), 'the expression')):
        c.req(o != root(ip), w + ' are not in the workspace')
    c.req(z3.And(root(a) != root(ip), root(a) != root(e), root(a) != L.o), 'the result is apart')
    modI(c, a)
    scratchI(c, ip, 'eval_itv', 'eval_itv2', 'mul_itv', 'mul_itv2')
    scratch(c, ip, 'mul_bound')
    zeroterm(c)
    c.rlim = 2000000
    c.nocells = True
    hyp = ghost(c, L, E)
    c.ens('not empty', lambda S: inne(I(S, a)))
    c.ens('the value at every point is in the result', lambda S: z3.Implies(hyp, imem(SG(MG), I(S, a))))
    evalinv(c, L, hyp, INT(c, 'eval_itv2', ip))


def ssep(c, t, q):
    """the coefficient at q shares nothing with the scalar t"""
    return z3.And(*[z3.Or(z3.Not(k), disj(c, t.a, x)) for k, x in conds(c, q)])


def conds(c, q):
    p, i, lp, hp = cparts(c, q)
    s = cdis(c, q) == SCAL
    return [(s, p), (z3.Not(s), lp), (z3.Not(s), hp)]


# ---------------------------------------------------------------- operators of tree expressions
REAL, INTT, SINGLE, DOUBLE, EXTENDED, QUAD = range(6)
NEAREST, ZERO_, UP, DOWN, RND = range(5)
ADD, SUB, MULT, DIV, MOD, POW, NEG, CAST, SQRT = range(9)
FRND = z3.Function('float_rounding', Int, Real, Real, z3.BoolSort())   # the third is a rounding of the second to the type
SQ = z3.Function('square_root', Real, Real)
PW = z3.Function('power', Real, Real, Real)


def rmod(x, y):
    ya = z3.If(y >= 0, y, -y)
    return x - MUL(rtrunc(QUO(x, ya)), ya)


def rnd(t, d, v, r):
    """r is v rounded to the type t in the direction d"""
    lo, hi = rfloor(v), rceil(v)
    i = z3.If(d == ZERO_, r == rtrunc(v), z3.If(d == UP, r == hi, z3.If(d == DOWN, r == lo, z3.Or(r == lo, r == hi))))
    return z3.If(t == REAL, r == v, z3.If(t == INTT, i, FRND(t, v, r)))


def isint(x):
    return z3.ToReal(z3.ToInt(x)) == x


def tofloat(nm):
    def f(c, a, b):
        v = I(c, b)
        modI(c, a)
        c.ens('well formed', lambda S: z3.Implies(iwf(v), iwf(I(S, a))))
        for t, x, r in ghosts(c, 'float'):
            c.ens('every rounding of every member', lambda S, t=t, x=x, r=r: z3.Implies(z3.And(inne(v), imem(x, v), FRND(t, x, r), (t == SINGLE) == (nm == 'float')), imem(r, I(S, a))))
    f.__doc__ = 'keeps every rounding of every member (with the rounding of the processor directed upwards, as the library sets it)'
    spec('itv_to_' + nm, trusted=True)(f)


tofloat('float')
tofloat('double')


@spec('itv_sqrt', 'itv_sqrt_MPQ', trusted=True)
def _(c, ip, a, b):
    "contains the square root of every non-negative member"
    v = I(c, b)
    modI(c, a)
    scratch(c, ip, 'sqrt_bound', 'canonicalize_num')
    c.ens('well formed', lambda S: iwf(I(S, a)))
    for x, in ghosts(c, 'sqrt'):
        c.ens('square root', lambda S, x=x: z3.Implies(z3.And(inne(v), imem(x, v), x >= 0), imem(SQ(x), I(S, a))))


@spec('itv_pow', 'itv_pow_MPQ', trusted=True)
def _(c, ip, a, b, n):
    "contains the power of every member by every natural member"
    v, w = I(c, b), I(c, n)
    modI(c, a)
    scratch(c, ip, 'mul_bound', 'canonicalize_num')
    scratchI(c, ip, 'mul_itv')
    c.ens('well formed', lambda S: iwf(I(S, a)))
    for x, y in ghosts(c, 'pow'):
        c.ens('power', lambda S, x=x, y=y: z3.Implies(z3.And(inne(v), inne(w), imem(x, v), imem(y, w), y >= 0, isint(y)), imem(PW(x, y), I(S, a))))


@espec('itv_mod')
def _(c, ip, a, b, d, integer):
    c.nonnull(ip)
    v, w, it = I(c, b), I(c, d), to_bool(integer)
    c.req(z3.And(inne(v), inne(w)), 'the operands are not empty')
    for p in (a, b, d):
        for f in ('eval_itv', 'eval_itv2', 'mul_itv', 'mul_itv2'):
            c.req(p != INT(c, f, ip), 'operand is not the workspace')
    modI(c, a)
    scratchI(c, ip, 'eval_itv', 'eval_itv2', 'mul_itv', 'mul_itv2')
    scratch(c, ip, 'mul_bound', 'sqrt_bound', 'canonicalize_num')
    if c.mode != 'call':
        x, y = z3.Real('dividend'), z3.Real('divisor')
        ya = fresh('modulus', Real)
        c.st.assume(ya == z3.If(y >= 0, y, -y))
        q, k = fresh('quotient', Real), fresh('truncated quotient', Real)
        m = fresh('multiple', Real)
        c.st.assume(z3.And(q == QUO(x, ya), k == rtrunc(q), m == MUL(k, ya)))
        # the arithmetic of truncated division, for numbers in place of the functions
        h = z3.And(ya > 0, x == q * ya, m == k * ya, z3.If(q >= 0, z3.And(k <= q, q < k + 1, k >= 0), z3.And(k >= q, q > k - 1, k <= 0)))
        g = z3.If(x >= 0, z3.And(0 <= x - m, x - m < ya), z3.And(-ya < x - m, x - m <= 0))
        c.E.oblige(c.st, z3.Implies(h, g), 'lemma: the remainder of a truncated division')
        i, j = z3.Ints('i j')
        c.E.oblige(c.st, z3.Implies(z3.ToReal(i) < z3.ToReal(j), z3.ToReal(i) <= z3.ToReal(j) - 1), 'lemma: an integer less than another is at most its predecessor')
        c.st.assume(z3.Implies(y != 0, g))
        c.st.assume(z3.Implies(z3.And(it, isint(x), isint(y), y != 0), z3.And(x - m <= ya - 1, m - x <= ya - 1)))
        c.E.ghosts = {'quo': [(x, ya)], 'int': [(q,)], 'mul': [(k, ya)], 'mod': [(x, y)]}
        gs = [(x, y)]
    else:
        gs = ghosts(c, 'mod')
    c.ens('well formed', lambda S: iwf(I(S, a)))
    for x, y in gs:
        c.ens('the remainder of every member by every member is in the result', lambda S, x=x, y=y: z3.Implies(
            z3.And(imem(x, v), imem(y, w), y != 0, z3.Implies(it, z3.And(isint(x), isint(y)))), imem(rmod(x, y), I(S, a))))


@espec('itv_round')
def _(c, a, b, t, d):
    t, d = to_int(t), to_int(d)
    c.req(z3.And(t >= 0, t < 6, d >= 0, d < 5), 'a type and a rounding direction')
    v = I(c, b)
    c.req(iwf(v), 'no lower bound +oo, no upper bound -oo')
    modI(c, a)
    if c.mode != 'call':
        x, r = z3.Real('value'), z3.Real('rounded value')
        c.E.ghosts = {'int': [(x,)], 'float': [(t, x, r)]}
        gs = [(x, r)]
    else:
        gs = ghosts(c, 'round')
    c.ens('well formed', lambda S: iwf(I(S, a)))
    for x, r in gs:
        c.ens('every rounded member is in the result', lambda S, x=x, r=r: z3.Implies(z3.And(imem(x, v), rnd(t, d, x, r)), imem(r, I(S, a))))


@espec('itv_eval_ap_texpr0_node')
def _(c, ip, n, a, b, d):
    c.nonnull(ip), c.nonnull(n)
    m = lambda f: c.nm(c.at('enum', fp(n, F('ap_texpr0_node_t', f))))
    op, t, dr = m('op'), m('type'), m('dir')
    c.req(z3.And(op >= 0, op <= SQRT, t >= 0, t < 6, dr >= 0, dr < 5), 'an operator, a type, a rounding direction')
    v, w = I(c, b), I(c, d)
    c.req(z3.And(inne(v), inne(w)), 'the operands are not empty')
    for p in (a, b, d):
        for f in ('eval_itv', 'eval_itv2', 'mul_itv', 'mul_itv2'):
            c.req(p != INT(c, f, ip), 'operand is not the workspace')
    modI(c, a)
    scratchI(c, ip, 'eval_itv', 'eval_itv2', 'mul_itv', 'mul_itv2')
    scratch(c, ip, 'mul_bound', 'sqrt_bound', 'canonicalize_num')
    c.ens('well formed', lambda S: iwf(I(S, a)))
    if c.mode != 'call':
        x, y, r = z3.Real('left'), z3.Real('right'), z3.Real('outcome')
        val_ = fresh('exact', Real)
        c.st.assume(val_ == exact(op, x, y))
        c.E.ghosts = {'mul': [(x, y)], 'quo': [(x, y)], 'sqrt': [(x,)], 'pow': [(x, y)], 'mod': [(x, y)], 'round': [(val_, r)]}
        gs = [(x, y, r)]
    else:
        gs = [tuple(c.nm(z) for z in g) for g in (f(c) for f in ghosts(c, 'node'))]
    for x, y, r in gs:
        c.ens('every outcome of the operator on members is in the result', lambda S, x=x, y=y, r=r: z3.Implies(z3.And(imem(x, v), imem(y, w), (OUT if c.mode == 'call' else outcome)(op, t, dr, x, y, r)), imem(r, I(S, a))))


def exact(op, x, y):
    return z3.If(op == ADD, x + y, z3.If(op == SUB, x - y, z3.If(op == MULT, MUL(x, y), z3.If(op == DIV, QUO(x, y), z3.If(op == SQRT, SQ(x), z3.If(op == POW, PW(x, y), x))))))


OUT = z3.Function('outcome', Int, Int, Int, Real, Real, Real, z3.BoolSort())    # outcome() by a name, for callers


def outcome(op, t, d, x, y, r):
    """r is an outcome of the operator on x and y"""
    dom = z3.If(op == DIV, y != 0, z3.If(op == SQRT, x >= 0, z3.If(op == POW, z3.And(y >= 0, isint(y)), z3.BoolVal(True))))
    return z3.If(op == NEG, r == -x, z3.If(op == MOD, z3.And(y != 0, r == rmod(x, y), z3.Implies(t == INTT, z3.And(isint(x), isint(y)))), z3.And(dom, rnd(t, d, exact(op, x, y), r))))


# ---------------------------------------------------------------- tree expressions
TREE = z3.Function('expression_tree', Ptr, z3.BoolSort())     # a well-formed expression
TVAL = z3.Function('value_of_expression', Ptr, Real)          # its value at the point considered
TH = z3.Const('the_point_is_in_the_environment', z3.BoolSort())


def trees(c, ip, t, a, env):
    """every node of the expression is well formed and apart from what is written; the values of the nodes are related"""
    p = z3.Const('p', Ptr)
    eo = c.nm(Ptr.obj(env))
    f = lambda n: fp(p, F('ap_texpr0_t', n))
    u = lambda n: fp(f('val'), F('anon', n))
    k = c.at('enum', f('discr'))
    cst, dim, node = u('cst'), c.at('unsigned int', u('dim')), c.at('ptr', u('node'))
    c.H('mpq'), c.H('mpfr'), c.H('flt'), c.H('mpfrprec')
    m = lambda n: fp(node, F('ap_texpr0_node_t', n))
    op, ty, dr = (c.at('enum', m(n)) for n in ('op', 'type', 'dir'))
    ea, eb = c.at('ptr', m('exprA')), c.at('ptr', m('exprB'))
    away = lambda o: z3.And(o < c.n0, o != root(ip), o != root(a), o != root(t.a), z3.Or(t.d == DBL, o != root(t.s)))
    cp = lambda x: z3.And(away(root(x)), z3.Or(discr(c, x) == DBL, z3.And(z3.Or(discr(c, x) != MPQ, z3.And(root(store(c, x)) != root(ip), root(store(c, x)) != root(a))),
                                                                      z3.Or(t.d == DBL, root(store(c, x)) != root(t.s)))))
    coeff = z3.And(cvalid(c, cst, c.n0), okc(c, cst), *[z3.Or(z3.Not(g), cp(x)) for g, x in conds(c, cst)])
    ii = cparts(c, cst)[1]
    coeff = z3.And(coeff, z3.Or(cdis(c, cst) == SCAL, away(root(ii))))
    cell = (c.at('mpq', INF(el(eo, dim))), c.at('mpq', SUP(el(eo, dim))))
    dimok = z3.And(dim >= 0, env == el(eo, 0), eo < c.n0, eo != root(ip), eo != root(a), z3.Or(t.d != MPQ, eo != root(t.s)), Engine.BYTES(eo) >= (dim + 1) * ITVSZ, inne(cell))
    nodeok = z3.And(node != null, away(root(node)), op >= 0, op <= SQRT, ty >= 0, ty < 6, dr >= 0, dr < 5, TREE(ea), ea != null, z3.Or(eb == null, TREE(eb)), (eb == null) == (op >= NEG))
    body = z3.And(p != null, away(root(p)), k >= 0, k <= 2, z3.Implies(k == 0, coeff), z3.Implies(k == 1, dimok), z3.Implies(k == 2, nodeok))
    c.req(z3.ForAll([p], z3.Implies(TREE(p), body), patterns=[TREE(p)]), 'a well-formed expression apart from the workspace and the result')
    x = TVAL(ea)
    y = z3.If(eb == null, x, TVAL(eb))
    v = z3.And(z3.Implies(k == 0, imem(TVAL(p), pv(c, cst))), z3.Implies(k == 1, imem(TVAL(p), cell)), z3.Implies(k == 2, OUT(op, ty, dr, x, y, TVAL(p))))
    q = z3.ForAll([p], z3.Implies(TREE(p), v), patterns=[TREE(p)])
    if c.mode == 'call':
        c.E.oblige(c.st, z3.Implies(TH, q), 'the values of the expression are unchanged')
        return TH
    c.st.assume(z3.Implies(TH, q))
    return TH


@espec('itv_eval_ap_texpr0')
def _(c, ip, a, e, env):
    c.nonnull(ip), c.nonnull(a)
    t = convscalar(c, ip)
    c.req(z3.And(root(a) != root(ip), root(a) != root(t.a), root(t.a) != root(ip), z3.Or(t.d != MPQ, root(t.s) != root(a)), root(a) < c.n0), 'the result and the workspace are apart')
    c.req(z3.Or(e == null, TREE(e)), 'an expression')
    h = trees(c, ip, t, a, env)
    modI(c, a)
    writes(c, [t])
    scratchI(c, ip, 'eval_itv', 'eval_itv2', 'mul_itv', 'mul_itv2')
    scratch(c, ip, 'mul_bound', 'sqrt_bound', 'canonicalize_num')
    if c.mode != 'call':
        # the values of the operands of the root, taken in the state of the call
        def top(c2):
            nd = c2.at('ptr', fp(fp(e, F('ap_texpr0_t', 'val')), F('anon', 'node')))
            ea, eb = (c2.at('ptr', fp(nd, F('ap_texpr0_node_t', n))) for n in ('exprA', 'exprB'))
            return TVAL(ea), z3.If(eb == null, TVAL(ea), TVAL(eb)), TVAL(e)
        c.E.ghosts = {'node': [top]}
    c.ens('well formed', lambda S: iwf(I(S, a)))
    c.ens('the value of the expression is in the result', lambda S: z3.Implies(z3.And(h, e != null), imem(TVAL(e), I(S, a))))
