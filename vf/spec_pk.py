"""Contracts of the vector and bit-string layers of the polyhedra domain (newpolka/pk_vector.c, pk_bit.c).
A vector is an array of integers; the product of integers is an uninterpreted function IMUL (only what the contracts of
GMP say about it is used), divisibility is an uninterpreted relation DIV."""
import z3
import smt
from smt import fp, el, root, null, Int, Ptr
from contract import spec, forall_int, SPECS
from engine import to_int, to_bool, fid, fresh, Engine
from spec_box import exists_int

PKVEC, PKBIT = [], []
ZSZ = 16
IMUL = z3.Function('imul', Int, Int, Int)
DIV = z3.Function('divides', Int, Int, z3.BoolSort())
T = dict(trusted=True)


def vspec(*names):
    PKVEC.extend(names)
    return spec(*names)


def bitspec(*names):
    PKBIT.extend(names)
    return spec(*names)


_mul0 = SPECS['mpz_mul']


@spec('mpz_mul', '__gmpz_mul', **T)
def _(c, a, b, d):
    "exact product"
    if c.E.opts.get('absmul'):
        c.set('mpz', a, IMUL(c.at('mpz', b), c.at('mpz', d)))
    else:
        _mul0(c, a, b, d)


@spec('mpz_gcd', '__gmpz_gcd', **T)
def _(c, a, b, d):
    "greatest common divisor: divides both, zero only if both are"
    x, y = c.at('mpz', b), c.at('mpz', d)
    c.mod('mpz', a)
    c.ens('gcd', lambda S: (lambda g: z3.And(g >= 0, (g == 0) == z3.And(x == 0, y == 0), DIV(g, x), DIV(g, y)))(S.at('mpz', a)))


@spec('mpz_divexact', '__gmpz_divexact', **T)
def _(c, a, b, d):
    "exact quotient of a multiple of the divisor"
    x, y = c.at('mpz', b), c.at('mpz', d)
    c.req(z3.And(y != 0, DIV(y, x)), 'the divisor is not zero and divides')
    c.mod('mpz', a)
    c.ens('quotient', lambda S: z3.And(IMUL(S.at('mpz', a), y) == x, z3.Implies(y > 0, z3.And((S.at('mpz', a) > 0) == (x > 0), (S.at('mpz', a) < 0) == (x < 0)))))


@spec('mpz_mod', '__gmpz_mod', **T)
def _(c, a, b, d):
    "remainder: a common divisor of the remainder and of the modulus divides the number"
    x, y = c.at('mpz', b), c.at('mpz', d)
    c.req(y != 0, 'non-zero modulus')
    c.mod('mpz', a)
    d0 = c.st.ghost.get('pkdiv')
    c.ens('remainder', lambda S: z3.And(S.at('mpz', a) >= 0, S.at('mpz', a) < z3.If(y < 0, -y, y)))
    if d0 is not None:
        c.ens('divisibility', lambda S: z3.Implies(z3.And(DIV(d0, y), DIV(d0, S.at('mpz', a))), DIV(d0, x)))


def K(f):
    return fid('pk_internal_t', f)


class Vec(object):
    def __init__(self, c, q, n, base0=True):
        self.c, self.q, self.n = c, q, n
        c.nonnull(q)
        self.o, self.b = c.nm(Ptr.obj(q)), 0 if base0 else c.nm(Ptr.idx(q))
        c.H('mpz')
        c.req(z3.And(q == el(self.o, self.b), z3.IntVal(0) <= self.b, self.o < c.n0, Engine.BYTES(self.o) >= (self.b + n) * ZSZ), 'the vector has its size')
        c.assume(n >= 0)

    def cell(self, k):
        return el(self.o, self.b + k)

    def pre(self, k):
        return self.c.at('mpz', self.cell(k))

    def region(self, lo=0):
        self.c.region('mpz', lambda p: z3.And(root(p) == self.o, smt.tidx(p) >= self.b + lo, smt.tidx(p) < self.b + self.n), [self.o])


class Pk(object):
    def __init__(self, c, pk):
        c.nonnull(pk)
        self.c = c
        self.dec = c.nm(c.at('unsigned long', fp(pk, K('dec'))))
        self.strict = c.nm(to_bool(c.at('char', fp(pk, K('strict'))))) if False else None
        self.maxcols = c.at('unsigned long', fp(pk, K('maxcols')))
        self.tmp = c.ptrat(fp(pk, K('vector_tmp')))
        self.to = c.nm(Ptr.obj(self.tmp))
        self.v = c.ptrat(fp(pk, K('vector_numintp')))
        self.vo = c.nm(Ptr.obj(self.v))
        self.pk = pk
        c.H('mpz')
        c.req(z3.And(self.tmp == el(self.to, 0), self.to < c.n0, Engine.BYTES(self.to) == 5 * ZSZ), 'the workspace exists')
        c.req(z3.And(self.v == el(self.vo, 0), self.vo < c.n0, self.vo != self.to, Engine.BYTES(self.vo) == self.maxcols * ZSZ), 'the workspace exists')
        c.assume(z3.And(self.dec >= 0, self.maxcols >= 0, self.maxcols < 2 ** 31))
        c.req(z3.Or(self.dec == 2, self.dec == 3), 'two or three special columns')

    def apart(self, *vs):
        for x in vs:
            self.c.req(z3.And(x.o != self.to, x.o != self.vo), 'the vector is not the workspace')

    def T(self, i):
        return el(self.to, i)

    def modtmp(self, *ks):
        for k in ks:
            self.c.mod('mpz', self.T(k))


@vspec('vector_copy')
def _(c, q2, q1, n):
    c.bounds = True
    A, B = Vec(c, q2, n), Vec(c, q1, n)
    c.req(A.o != B.o, 'two vectors')
    A.region()
    c.each('copy', 0, n, lambda S, k: S.at('mpz', A.cell(k)) == B.pre(k), lambda S, k: [A.cell(k)])


@vspec('vector_clear')
def _(c, q, n):
    c.bounds = True
    A = Vec(c, q, n)
    A.region()
    c.each('zero', 0, n, lambda S, k: S.at('mpz', A.cell(k)) == 0, lambda S, k: [A.cell(k)])


@vspec('vector_alloc')
def _(c, n):
    c.allocs = c.freshret = True
    c.bounds = True
    c.H('mpz')
    c.req(n > 0, 'non-empty')
    c.ens('size', lambda S: Engine.BYTES(root(S.ret)) == n * ZSZ)
    c.each('zero', 0, n, lambda S, k: S.at('mpz', el(S.nm(root(S.ret)), k)) == 0, lambda S, k: [el(S.nm(root(S.ret)), k)])


@vspec('vector_is_null')
def _(c, pk, q, n):
    c.bounds = True
    A = Vec(c, q, n)
    r = lambda S: to_bool(S.ret)
    c.each('true only if every coefficient is zero', 1, n, lambda S, k: z3.Implies(r(S), A.pre(k) == 0), lambda S, k: [A.cell(k)])
    c.ens('false only if some coefficient is not', lambda S: z3.Or(r(S), exists_int(1, n, lambda k: A.pre(k) != 0)))


@vspec('vector_is_null_strict')
def _(c, pk, q, n):
    c.bounds = True
    P, A = Pk(c, pk), Vec(c, q, n)
    r = lambda S: to_bool(S.ret)
    c.req(n >= P.dec, 'the special columns exist')
    c.ens('true only if the constant is zero', lambda S: z3.Implies(r(S), A.pre(1) == 0))
    c.each('true only if every coefficient is zero', P.dec, n, lambda S, k: z3.Implies(r(S), A.pre(k) == 0), lambda S, k: [A.cell(k)])
    c.ens('false only if some coefficient is not', lambda S: z3.Or(r(S), A.pre(1) != 0, exists_int(P.dec, n, lambda k: A.pre(k) != 0)))


@vspec('vector_is_integer')
def _(c, pk, q, i, m):
    c.bounds = True
    P = Pk(c, pk)
    c.assume(z3.And(i >= 0, m >= 0))
    A = Vec(c, q, P.dec + i + m)
    r = lambda S: to_bool(S.ret)
    lo = P.dec + i
    j = fresh('anycol', Int)
    inr = z3.And(lo <= j, j < lo + m)
    c.inv(lambda L: [('no real dimension before %s' % L.E.decls[x][0], lambda st, x=x: z3.Implies(z3.And(inr, j < P.dec + st.regs[x]), A.pre(j) == 0)) for x in L.regs('int')])
    c.ens('true only if an arbitrary real dimension is not involved', lambda S: z3.Implies(z3.And(r(S), inr), A.pre(j) == 0))
    c.ens('false only if some real dimension is involved', lambda S: z3.Or(r(S), exists_int(lo, lo + m, lambda k: A.pre(k) != 0)))


def sgn(x):
    return z3.If(x > 0, 1, z3.If(x < 0, -1, 0))


@vspec('vector_compare')
def _(c, pk, q1, q2, n):
    c.bounds = True
    P, A, B = Pk(c, pk), Vec(c, q1, n), Vec(c, q2, n)
    c.req(z3.And(n <= P.maxcols, n >= P.dec), 'no larger than the workspace, with the special columns')
    cmp = lambda k: sgn(A.pre(k) - B.pre(k))
    pats = lambda S, k: [A.cell(k)]
    c.ens('the first column decides', lambda S: z3.Implies(cmp(0) != 0, sgn(S.ret) == cmp(0)))
    c.each('equal only if every coefficient is', P.dec, n, lambda S, k: z3.Implies(S.ret == 0, A.pre(k) == B.pre(k)), pats)
    c.ens('equal only if the first columns and the constants are', lambda S: z3.Implies(S.ret == 0, z3.And(cmp(0) == 0, cmp(1) == 0)))
    j = fresh('anyfirst', Int)       # an arbitrary column before which the vectors agree
    agree = forall_int('k', P.dec, j, lambda k: A.pre(k) == B.pre(k), lambda k: [A.cell(k)])
    c.ens('the first difference decides', lambda S: z3.Implies(z3.And(P.dec <= j, j < n, cmp(0) == 0, agree, cmp(j) != 0), sgn(S.ret) == cmp(j)))
    c.ens('then the constants', lambda S: z3.Implies(z3.And(cmp(0) == 0, cmp(1) != 0, forall_int('k', P.dec, n, lambda k: A.pre(k) == B.pre(k), lambda k: [A.cell(k)])), sgn(S.ret) == cmp(1)))


def sums(c, name, A, B, start):
    """the partial sums of the products of the coefficients"""
    f = z3.Function('%s!%d' % (name, next(_ct)), Int, Int)
    k = z3.Int('k')
    c.st.assume(z3.ForAll([k], z3.Implies(k >= start, f(k + 1) == f(k) + IMUL(A.pre(k), B.pre(k))), patterns=[f(k)]))
    return f


import itertools                                                              # noqa: E402
_ct = itertools.count()


def partial(c, p, f, start):
    c.inv(lambda L: [('partial sum up to %s' % L.E.decls[i][0], lambda st, i=i: smt.z3.Implies(st.regs[i] >= start, L.E.heap(st, 'mpz')[p] == f(st.regs[i]))) for i in L.regs('int')])


@vspec('vector_product')
def _(c, pk, prod, q1, q2, n):
    c.bounds = True
    P, A, B = Pk(c, pk), Vec(c, q1, n), Vec(c, q2, n)
    P.apart(A, B)
    c.nonnull(prod)
    c.req(z3.And(root(prod) < c.n0, root(prod) != A.o, root(prod) != B.o, root(prod) != P.to), 'the result is apart')
    c.req(n >= 1, 'non-empty')
    f = sums(c, 'dot', A, B, 1)
    c.st.assume(f(1) == 0)
    P.modtmp(0)
    c.mod('mpz', prod)
    partial(c, prod, f, 1)
    c.ens('sum of the products of the coefficients', lambda S: S.at('mpz', prod) == f(n))


@vspec('vector_product_strict')
def _(c, pk, prod, q1, q2, n):
    c.bounds = True
    P, A, B = Pk(c, pk), Vec(c, q1, n), Vec(c, q2, n)
    P.apart(A, B)
    c.nonnull(prod)
    c.req(z3.And(root(prod) < c.n0, root(prod) != A.o, root(prod) != B.o, root(prod) != P.to), 'the result is apart')
    c.req(n >= P.dec, 'the special columns exist')
    f = sums(c, 'sdot', A, B, P.dec)
    c.st.assume(f(P.dec) == IMUL(A.pre(1), B.pre(1)))
    P.modtmp(0)
    c.mod('mpz', prod)
    partial(c, prod, f, P.dec)
    c.ens('sum of the products of the coefficients but the special ones', lambda S: S.at('mpz', prod) == f(n))


@vspec('vector_min_notzero')
def _(c, pk, n, ix, m):
    c.bounds = True
    P = Pk(c, pk)
    c.assume(n >= 0)
    c.req(n <= P.maxcols, 'no larger than the workspace')
    c.nonnull(ix, m)
    c.req(z3.And(root(m) < c.n0, root(m) != P.vo), 'the result is apart')
    c.mod('int', ix)
    c.mod('mpz', m)
    v = lambda k: c.at('mpz', el(P.vo, k))
    nneg = forall_int('k', 0, n, lambda k: v(k) >= 0, lambda k: [el(P.vo, k)])
    c.req(nneg, 'non-negative values')
    M, IX = lambda S: S.at('mpz', m), lambda S: S.at('int', ix)
    c.ens('zero or the value at the index', lambda S: z3.Or(M(S) == 0, z3.And(M(S) > 0, 0 <= IX(S), IX(S) < n, M(S) == v(IX(S)))))
    c.each('zero only if every value is', 0, n, lambda S, k: z3.Or(M(S) != 0, v(k) == 0), lambda S, k: [el(P.vo, k)])
    c.each('the least non-zero value', 0, n, lambda S, k: z3.Or(v(k) == 0, M(S) <= v(k)), lambda S, k: [el(P.vo, k)])
    c.inv(lambda L: [('zero or the value at the index (loop)', lambda st: (lambda a, b: z3.Or(a == 0, z3.And(a > 0, 0 <= b, b < n, a == v(b))))(L.E.heap(st, 'mpz')[m], L.E.heap(st, 'int')[ix]))])


@vspec('vector_gcd')
def _(c, pk, q, n, g):
    c.bounds = True
    P, A = Pk(c, pk), Vec(c, q, n, False)
    P.apart(A)
    c.req(n <= P.maxcols, 'no larger than the workspace')
    c.nonnull(g)
    c.req(z3.And(root(g) < c.n0, root(g) != P.vo, root(g) != A.o), 'the result is apart')
    c.mod('mpz', g)
    c.region('mpz', lambda p: z3.And(root(p) == P.vo, smt.tidx(p) >= 0, smt.tidx(p) < n), [P.vo])
    G = lambda S: S.at('mpz', g)
    c.ens('not negative', lambda S: G(S) >= 0)
    if c.mode == 'call':
        c.ens('divides every coefficient', lambda S: forall_int('k', A.b, A.b + n, lambda k: DIV(G(S), c.at('mpz', el(A.o, k))), lambda k: [el(A.o, k)]))
        return
    # d is an arbitrary number, j an arbitrary coefficient that d does not divide: d is not the result
    d, j, k = fresh('anyd', Int), fresh('anyk', Int), z3.Int('k')
    c.st.ghost['pkdiv'] = d
    x = z3.Int('x')
    c.st.assume(z3.ForAll([x], DIV(x, 0), patterns=[DIV(x, 0)]))
    c.st.assume(z3.ForAll([x], DIV(d, z3.If(x < 0, -x, x)) == DIV(d, x), patterns=[DIV(d, x)]))
    c.st.assume(z3.And(DIV(d, 0), DIV(d, d)))
    hyp = z3.And(0 <= j, j < n, z3.Not(DIV(d, A.pre(j))))
    c.ens('divides every coefficient', lambda S: z3.Not(z3.And(hyp, d == G(S))))
    val = lambda L, st, k: L.E.heap(st, 'mpz')[el(P.vo, k)]

    def gen(L):
        out = [('d does not divide some value', lambda st: z3.Implies(hyp, z3.Exists([k], z3.And(0 <= k, k < n, z3.Not(DIV(d, val(L, st, k)))), patterns=[el(P.vo, k)]))),
               ('values are not negative', lambda st: forall_int('k', 0, n, lambda k: val(L, st, k) >= 0, lambda k: [el(P.vo, k)])),
               ('the divisor is positive', lambda st: L.E.heap(st, 'mpz')[g] > 0)]
        for i in L.regs('int'):
            out.append(('values before %s are not negative' % L.E.decls[i][0], lambda st, i=i: forall_int('k', 0, st.regs[i], lambda k: val(L, st, k) >= 0, lambda k: [el(P.vo, k)])))
            out.append(('d does not divide the value of the arbitrary coefficient before %s' % L.E.decls[i][0], lambda st, i=i: z3.Implies(z3.And(hyp, j < st.regs[i]), z3.Not(DIV(d, val(L, st, j))))))
            for x in L.regs('int'):
                if x is not i:
                    out.append(('all values but the least are zero before %s (index %s)' % (L.E.decls[i][0], L.E.decls[x][0]), lambda st, i=i, x=x: forall_int('k', 0, st.regs[i], lambda k: z3.Or(k == st.regs[x], val(L, st, k) == 0), lambda k: [el(P.vo, k)])))
        for x in L.entry.regs:
            if x in L.E.memlocals and x in L.E.decls and L.E.decls[x][1].k == 'int':
                ix = lambda st, x=x: L.E.heap(st, 'int')[st.regs[x]]
                out.append(('the index in range', lambda st, ix=ix: z3.And(ix(st) >= 0, ix(st) < n)))
                out.append(('the least value is at the index', lambda st, ix=ix: val(L, st, ix(st)) == L.E.heap(st, 'mpz')[g]))
                for i in L.regs('int'):
                    for b in L.regs('bool'):
                        out.append(('values other than the least are zero before %s unless %s' % (L.E.decls[i][0], L.E.decls[b][0]), lambda st, i=i, b=b, ix=ix: z3.Or(st.regs[b], forall_int('k', 0, st.regs[i], lambda k: z3.Or(k == ix(st), val(L, st, k) == 0), lambda k: [el(P.vo, k)]))))
        return out
    c.inv(gen)


# ---------------------------------------------------------------- bit strings
def bits(c, b, n):
    c.nonnull(b)
    o = c.nm(Ptr.obj(b))
    c.H('unsigned int')
    c.assume(n >= 0)
    c.req(z3.And(b == el(o, 0), o < c.n0, Engine.BYTES(o) >= 4 * n), 'the bit string has its size')
    return o


@bitspec('bitstring_clear')
def _(c, b, n):
    c.bounds = True
    o = bits(c, b, n)
    c.region('unsigned int', lambda p: z3.And(root(p) == o, smt.tidx(p) >= 0, smt.tidx(p) < n), [o])
    c.each('zero', 0, n, lambda S, k: S.at('unsigned int', el(o, k)) == 0, lambda S, k: [el(o, k)])


@bitspec('bitstring_copy')
def _(c, b2, b1, n):
    c.bounds = True
    o2, o1 = bits(c, b2, n), bits(c, b1, n)
    c.req(o1 != o2, 'two bit strings')
    c.region('unsigned int', lambda p: z3.And(root(p) == o2, smt.tidx(p) >= 0, smt.tidx(p) < n), [o2])
    c.each('copy', 0, n, lambda S, k: S.at('unsigned int', el(o2, k)) == c.at('unsigned int', el(o1, k)), lambda S, k: [el(o2, k)])


@bitspec('bitstring_cmp')
def _(c, a, b, n):
    c.bounds = True
    oa, ob = bits(c, a, n), bits(c, b, n)
    x, y = lambda k: c.at('unsigned int', el(oa, k)), lambda k: c.at('unsigned int', el(ob, k))
    c.each('equal only if every word is', 0, n, lambda S, k: z3.Implies(S.ret == 0, x(k) == y(k)), lambda S, k: [el(oa, k)])
    j = fresh('anyfirst', Int)
    agree = forall_int('k', 0, j, lambda k: x(k) == y(k), lambda k: [el(oa, k)])
    c.ens('the first difference decides', lambda S: z3.Implies(z3.And(0 <= j, j < n, agree, x(j) != y(j)), sgn(S.ret) == sgn(x(j) - y(j))))
    c.ens('all words equal give 0', lambda S: z3.Implies(forall_int('k', 0, n, lambda k: x(k) == y(k), lambda k: [el(oa, k)]), S.ret == 0))
