"""Contracts of dimension changes and permutations (apron/ap_dimension.c, .h)."""
import z3
import smt
from smt import fp, el, root, tidx, null, Int, Ptr
from contract import spec, forall_int, name_term
from engine import to_int, to_bool, fid, fresh, Engine, Rec

DIM = []


def dspec(*names):
    DIM.extend(names)
    return spec(*names)


def F(rec, f):
    return fid(rec, f)


class Dims(object):
    """an array of n dimensions: object o, cells el(o,0..n-1)"""

    def __init__(self, c, p, n, what='dimension array'):
        self.c, self.p, self.n = c, p, n
        self.o = c.nm(Ptr.obj(p))
        c.req(z3.Or(n == 0, z3.And(p == el(self.o, 0), Engine.BYTES(self.o) >= 4 * n)), what + ' has the announced size')
        c.H('unsigned int')
        k = z3.Int('k')
        c.assume(z3.ForAll([k], self.at(k) >= 0, patterns=[el(self.o, k)]))

    def at(self, k, V=None):
        return (V or self.c).at('unsigned int', el(self.o, k))


class Change(object):
    """an ap_dimchange_t in the pre-state"""

    def __init__(self, c, d):
        self.c, self.a = c, d
        c.nonnull(d)
        self.i = c.at('unsigned long', fp(d, F('ap_dimchange_t', 'intdim')))
        self.r = c.at('unsigned long', fp(d, F('ap_dimchange_t', 'realdim')))
        c.assume(z3.And(self.i >= 0, self.r >= 0))
        self.m = self.i + self.r
        self.p = c.ptrat(fp(d, F('ap_dimchange_t', 'dim')))
        self.d = Dims(c, self.p, self.m)
        self.o = self.d.o

    def D(self, k):
        return self.d.at(k)

    def req_add(self, size, ranked=True):
        """a valid insertion into a space of the given size"""
        c = self.c
        a, b = z3.Ints('a b')
        c.req(forall_int('k', 0, self.m, lambda k: z3.And(self.D(k) >= 0, self.D(k) <= size), lambda k: [el(self.o, k)]), 'insertion points are dimensions or the end')
        if c.mode == 'call' or not ranked:
            c.req(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < self.m), self.D(a) <= self.D(b)), patterns=[z3.MultiPattern(el(self.o, a), el(self.o, b))]), 'insertion points are sorted')

    def req_remove(self, size, ranked=True):
        c = self.c
        a, b = z3.Ints('a b')
        c.req(self.m <= size, 'no more dimensions are removed than there are')
        c.req(forall_int('k', 0, self.m, lambda k: z3.And(self.D(k) >= 0, self.D(k) < size), lambda k: [el(self.o, k)]), 'removed dimensions exist')
        if c.mode == 'call' or not ranked:
            c.req(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < self.m), self.D(a) - a <= self.D(b) - b), patterns=[z3.MultiPattern(el(self.o, a), el(self.o, b))]), 'removed dimensions are strictly increasing')

    def rank(self, add, size):
        """N(k): how many new dimensions precede the old dimension k (add) /
        how many removed dimensions precede the k-th kept one (remove)"""
        c, m = self.c, self.m
        N = z3.Function('rank!%d' % fresh('x', Int).get_id(), Int, Int)
        j, k = z3.Ints('j k')
        # definition (the sequence D(j), resp. D(j)-j, is non-decreasing): the j-th change comes before k iff j < N(k)
        key = self.D(j) if add else self.D(j) - j
        c.st.assume(z3.ForAll([k], z3.And(N(k) >= 0, N(k) <= m), patterns=[N(k)]))
        c.st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < m), (key <= k) == (j < N(k))), patterns=[z3.MultiPattern(el(self.o, j), N(k))]))
        a, b = z3.Ints('a b')
        c.st.assume(z3.ForAll([a, b], z3.Implies(a <= b, N(a) <= N(b)), patterns=[z3.MultiPattern(N(a), N(b))]))
        c.st.assume(z3.And(N(-1) == 0, N(size if add else size - m) == m))
        self.N = N
        return N

    def invs(self, add):
        """candidate loop invariants: some variable is the rank of another one"""
        def gen(L):
            out = []
            E = L.E
            m = self.m
            ints = [i for i in L.regs('int') if i in L.modregs or z3.is_const(L.entry.regs[i])]
            for x in ints:
                for y in ints:
                    if x == y or not (x in L.modregs or y in L.modregs):
                        continue
                    nx, ny = E.decls[x][0], E.decls[y][0]
                    X = lambda st, x=x: st.regs[x]
                    Y = lambda st, y=y: st.regs[y]
                    for off in (0, -1):
                        sx = nx + ('-1' if off else '')
                        out.append(('%s<=rank(%s)' % (ny, sx), lambda st, X=X, Y=Y, off=off: Y(st) <= self.N(X(st) + off)))
                        out.append(('%s>=rank(%s)' % (ny, sx), lambda st, X=X, Y=Y, off=off: Y(st) >= self.N(X(st) + off)))
            return out
        self.c.inv(gen)


@dspec('ap_dimchange_init')
def _(c, d, i, r):
    c.allocs = True
    c.bounds = True
    c.nonnull(d)
    P = fp(d, F('ap_dimchange_t', 'dim'))
    c.mod('ptr', P)
    c.H('unsigned int')
    c.set('unsigned long', fp(d, F('ap_dimchange_t', 'intdim')), i)
    c.set('unsigned long', fp(d, F('ap_dimchange_t', 'realdim')), r)
    c.ens('array of the announced size', lambda S: (lambda p: z3.If(i + r == 0, p == null, z3.And(p == el(Ptr.obj(p), 0), Ptr.obj(p) >= c.n0, Engine.BYTES(Ptr.obj(p)) == 4 * (i + r))))(S.at('ptr', P)))


@dspec('ap_dimchange_clear')
def _(c, d):
    c.nonnull(d)
    c.set('ptr', fp(d, F('ap_dimchange_t', 'dim')), null)
    c.set('unsigned long', fp(d, F('ap_dimchange_t', 'intdim')), z3.IntVal(0))
    c.set('unsigned long', fp(d, F('ap_dimchange_t', 'realdim')), z3.IntVal(0))


@dspec('ap_dimchange_add_invert')
def _(c, d):
    c.bounds = True
    C = Change(c, d)
    c.region('unsigned int', lambda p: z3.And(C.m > 0, root(p) == C.o), [C.o])
    c.each('position of the k-th inserted dimension in the enlarged space', 0, C.m, lambda S, k: S.at('unsigned int', el(C.o, k)) == C.D(k) + k, lambda S, k: [el(C.o, k)])


class Perm(object):
    def __init__(self, c, d, need=True):
        self.c, self.a = c, d
        c.nonnull(d)
        self.n = c.at('unsigned long', fp(d, F('ap_dimperm_t', 'size')))
        c.assume(self.n >= 0)
        self.p = c.ptrat(fp(d, F('ap_dimperm_t', 'dim')))
        self.d = Dims(c, self.p, self.n, 'permutation array')
        self.o = self.d.o

    def D(self, k, S=None):
        return self.d.at(k, S)

    def req_perm(self):
        c = self.c
        a, b = z3.Ints('a b')
        c.req(forall_int('k', 0, self.n, lambda k: z3.And(self.D(k) >= 0, self.D(k) < self.n), lambda k: [el(self.o, k)]), 'permutation maps into the space')
        c.req(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.n), self.D(a) != self.D(b)), patterns=[z3.MultiPattern(el(self.o, a), el(self.o, b))]), 'permutation is injective')


@dspec('ap_dimperm_init')
def _(c, d, n):
    c.allocs = True
    c.nonnull(d)
    P = fp(d, F('ap_dimperm_t', 'dim'))
    c.mod('ptr', P)
    c.H('unsigned int')
    c.set('unsigned long', fp(d, F('ap_dimperm_t', 'size')), n)
    c.ens('array of the announced size', lambda S: (lambda p: z3.If(n == 0, p == null, z3.And(p == el(Ptr.obj(p), 0), Ptr.obj(p) >= c.n0, Engine.BYTES(Ptr.obj(p)) == 4 * n)))(S.at('ptr', P)))


@dspec('ap_dimperm_set_id')
def _(c, d):
    c.bounds = True
    P = Perm(c, d)
    c.region('unsigned int', lambda p: z3.And(P.n > 0, root(p) == P.o), [P.o])
    c.each('identity', 0, P.n, lambda S, k: S.at('unsigned int', el(P.o, k)) == k, lambda S, k: [el(P.o, k)])


@dspec('ap_dimperm_compose')
def _(c, d, d1, d2):
    """perm = perm1 then perm2"""
    c.bounds = True
    P, P1, P2 = Perm(c, d), Perm(c, d1), Perm(c, d2)
    c.req(z3.And(P.n == P1.n, P.n == P2.n), 'same sizes')
    c.req(z3.Or(P.n == 0, P.o != P2.o), 'the result is not the second permutation')
    for Q in (P1, P2):
        c.req(forall_int('k', 0, Q.n, lambda k, Q=Q: Q.D(k) < Q.n, lambda k, Q=Q: [el(Q.o, k)]), 'permutation maps into the space')
    c.region('unsigned int', lambda p: z3.And(P.n > 0, root(p) == P.o), [P.o])
    c.each('k is sent to perm2(perm1(k))', 0, P.n, lambda S, k: S.at('unsigned int', el(P.o, k)) == P2.D(P1.D(k)), lambda S, k: [el(P.o, k)])


@dspec('ap_dimperm_invert')
def _(c, d, d1):
    c.bounds = True
    P, Q = Perm(c, d), Perm(c, d1)
    c.req(P.n == Q.n, 'same sizes')
    c.req(z3.Or(P.n == 0, P.o != Q.o), 'not in place')
    Q.req_perm()
    c.region('unsigned int', lambda p: z3.And(P.n > 0, root(p) == P.o), [P.o])
    c.each('the image of k is sent back to k', 0, P.n, lambda S, k: S.at('unsigned int', el(P.o, Q.D(k))) == k, lambda S, k: [el(Q.o, k)])
