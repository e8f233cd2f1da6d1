"""Contracts of the octagon domain (octagons/*.c), exact-rational build.
W(0), W(1), W(2), ... stand for x0, -x0, x1, -x1, ... of one arbitrary point x: the cell (i,j) of a half matrix bounds
W(j)-W(i).  Since nothing is known about x, what is proved about it holds for every point."""
import z3
import smt
from smt import fin, pinf, ninf, is_fin, bval, ble, fp, el, root, tidx, null, Int, Real, Ptr
from contract import spec, forall_int, View, Ctx
from engine import to_int, to_bool, fid, fresh, Engine

OCT = []
HMAT = []
CELL = 32


def hspec(*names):
    HMAT.extend(names)
    return spec(*names)


def ospec(*names):
    OCT.extend(names)
    return spec(*names)


RB = z3.Function('rowstart', Int, Int)          # index of the first cell of a row


def MP(i, j):
    return RB(i) + j


MS = z3.Function('matsize', Int, Int)
ROW, COL = z3.Function('row', Int, Int), z3.Function('col', Int, Int)
X = z3.Function('x', Int, Real)
W = z3.Function('W', Int, Real)


D = z3.Function('D', Int, Real)                 # D(p) = W(col p) - W(row p): what cell p bounds


def OR1(i):
    return smt.or1(i)


def XOR1(i):
    return smt.xor1(i)


def W_(i):
    return W(i)


_i, _j, _p, _n = z3.Ints('?i ?j ?p ?n')
# the layout of half matrices: definitions and lemmas proved in the verification of matsize; they are
# instantiated where a matrix position is computed (at), or quantified (GEOMQ) where a proof talks about all cells
GEOMQ = [
    z3.ForAll([_p], z3.Implies(_p >= 0, z3.And(ROW(_p) >= 0, RB(ROW(_p)) <= _p, COL(_p) == _p - RB(ROW(_p)), 0 <= COL(_p), COL(_p) <= OR1(ROW(_p)))), patterns=[ROW(_p)]),
    z3.ForAll([_p, _i], z3.Implies(z3.And(0 <= _i, RB(_i) <= _p, _p <= RB(_i) + OR1(_i)), ROW(_p) == _i), patterns=[z3.MultiPattern(ROW(_p), RB(_i))]),
    z3.ForAll([_p], z3.Implies(_p >= 0, D(_p) == W(COL(_p)) - W(ROW(_p))), patterns=[D(_p)]),
    z3.ForAll([_p, _n], z3.Implies(z3.And(0 <= _p, _p < MS(_n), 0 <= _n), ROW(_p) < 2 * _n), patterns=[z3.MultiPattern(ROW(_p), MS(_n))]),
]
GEOM = [
    RB(0) == 0,
]


def geom(c, quantified=False):
    st = c.st
    if 'octgeom' not in st.ghost:
        st.ghost['octgeom'] = True
        for f in GEOM:
            st.assume(f)
    if quantified and 'octgeomq' not in st.ghost:
        st.ghost['octgeomq'] = True
        for f in GEOMQ:
            st.assume(f)


def dimfact(st, n):
    ds = st.ghost.get('octdims', ())
    if not any(d.eq(n) for d in ds):
        st.ghost['octdims'] = ds + (n,)
        st.assume(z3.Implies(n >= 0, z3.And(MS(n) == RB(2 * n), MS(n) >= 0)))


def wfact(st, i):
    k = 'octw:%d' % i.get_id()
    if k in st.ghost:
        return
    st.ghost[k] = i
    st.assume(z3.Implies(i >= 0, W(XOR1(i)) == -W(i)))


def rowfact(st, i):
    for n in (None,) + st.ghost.get('octdims', ()):
        k = 'octrow:%d:%s' % (i.get_id(), n.get_id() if n is not None else '')
        if k in st.ghost:
            continue
        st.ghost[k] = (i, n)
        if n is None:
            st.assume(z3.Implies(i >= 0, z3.And(RB(i) >= 0, RB(i + 1) == RB(i) + OR1(i) + 1)))
            wfact(st, i)
        else:
            st.assume(z3.Implies(z3.And(0 <= i, i < 2 * n), RB(i) + OR1(i) + 1 <= MS(n)))


def cellfact(st, i, j):
    """the layout lemmas about cell (i,j)"""
    i, j = z3.simplify(i), z3.simplify(j)
    rowfact(st, i)
    k = 'octcell:%d:%d' % (i.get_id(), j.get_id())
    if k in st.ghost:
        return
    st.ghost[k] = (i, j)
    wfact(st, j)
    st.assume(z3.Implies(z3.And(i >= 0, 0 <= j, j <= OR1(i)), z3.And(ROW(RB(i) + j) == i, COL(RB(i) + j) == j, D(RB(i) + j) == W(j) - W(i))))


def rbdef(i):
    return RB(i) == ((i + 1) * (i + 1)) / 2


@hspec('matsize')
def _(c, dim):
    if c.mode == 'verify':
        c.st.assume(MS(dim) == 2 * dim * (dim + 1))
        # the facts every other proof uses follow from the definition of the layout
        k, b, p, q = z3.Ints('k b p q')
        i, j = z3.Ints('i j')
        ev, od = lambda k: RB(2 * k) == 2 * k * k + 2 * k, lambda k: RB(2 * k + 1) == 2 * k * k + 4 * k + 2
        c.ens('layout: closed form of even rows', lambda S: z3.Implies(z3.And(k >= 0, rbdef(2 * k)), ev(k)))
        c.ens('layout: closed form of odd rows', lambda S: z3.Implies(z3.And(k >= 0, rbdef(2 * k + 1)), od(k)))
        c.ens('layout: row length (even)', lambda S: z3.Implies(z3.And(k >= 0, ev(k), od(k)), RB(2 * k + 1) == RB(2 * k) + 2 * k + 2))
        c.ens('layout: row length (odd)', lambda S: z3.Implies(z3.And(k >= 0, RB(2 * (k + 1)) == 2 * (k + 1) * (k + 1) + 2 * (k + 1), od(k)), RB(2 * (k + 1)) == RB(2 * k + 1) + 2 * k + 2))
        step = z3.ForAll([i], z3.Implies(i >= 0, RB(i + 1) == RB(i) + OR1(i) + 1), patterns=[RB(i)])
        # induction on j: (i < j -> RB(i)+OR1(i)+1 <= RB(j)) is preserved from j to j+1
        stp = lambda i: z3.Implies(i >= 0, RB(i + 1) == RB(i) + OR1(i) + 1)
        mono = lambda i, j: z3.Implies(z3.And(0 <= i, i < j), RB(i) + OR1(i) + 1 <= RB(j))
        c.ens('layout: rows follow each other (induction step)', lambda S: z3.Implies(z3.And(j >= 0, stp(i), stp(j), mono(i, j)), mono(i, j + 1)))
        c.ens('layout: rows follow each other (base)', lambda S: mono(i, z3.IntVal(0)))
        c.ens('layout: size', lambda S: z3.Implies(z3.And(dim >= 0, rbdef(2 * dim), MS(dim) == 2 * dim * (dim + 1)), MS(dim) == RB(2 * dim)))
        # every index belongs to one row (existence by induction on p; uniqueness)
        inrow = lambda p, i: z3.And(i >= 0, RB(i) <= p, p < RB(i + 1))
        c.ens('layout: every cell is in a row (base)', lambda S: z3.Implies(z3.And(stp(z3.IntVal(0)), RB(0) == 0), inrow(z3.IntVal(0), z3.IntVal(0))))
        c.ens('layout: every cell is in a row (induction step)', lambda S: z3.Implies(z3.And(inrow(p, i), stp(i), stp(i + 1)), z3.Or(inrow(p + 1, i), inrow(p + 1, i + 1))))
        c.ens('layout: a cell is in one row only', lambda S: z3.Implies(z3.And(inrow(p, i), inrow(p, j), stp(i), stp(j), mono(i, j), mono(j, i)), i == j))
        c.ens('layout: rows of a matrix', lambda S: z3.Implies(z3.And(inrow(p, i), p < RB(q), q >= 0, mono(q, i), stp(i)), i < q))
        c.ens('layout: cells of a matrix', lambda S: z3.Implies(z3.And(0 <= j, j <= OR1(i), 0 <= i, i < q, mono(i, q), RB(i) >= 0), z3.And(0 <= RB(i) + j, RB(i) + j < RB(q))))
    else:
        geom(c)
        dimfact(c.st, dim)
    c.assume(dim >= 0)
    c.returns(MS(dim))


@hspec('matpos')
def _(c, i, j):
    if c.mode == 'verify':
        c.st.assume(rbdef(i))
    else:
        geom(c)
        cellfact(c.st, i, j)
    c.returns(RB(i) + j)


@hspec('matpos2')
def _(c, i, j):
    geom(c)
    cellfact(c.st, i, j)
    cellfact(c.st, XOR1(j), XOR1(i))
    r = z3.If(j > i, RB(XOR1(j)) + XOR1(i), RB(i) + j)
    if c.mode == 'verify':
        c.returns(r)
    else:
        # both representations stand for W(j)-W(i)
        p = fresh('pos', Int)
        c.st.assume(p == r)
        c.st.assume(z3.Implies(z3.And(i >= 0, j >= 0), z3.And(p >= 0, D(p) == W(j) - W(i), ROW(p) == z3.If(j > i, XOR1(j), i), COL(p) == z3.If(j > i, XOR1(i), j))))
        for n in c.st.ghost.get('octdims', ()):
            c.st.assume(z3.Implies(z3.And(0 <= i, 0 <= j, i < 2 * n, j < 2 * n), p < MS(n)))
        c.returns(p)


def F(rec, f):
    return fid(rec, f)


def cellok(v, k):
    """the point satisfies the constraint of cell k"""
    return ble(fin(D(k)), v)


class Mat(object):
    """a half matrix of dimension dim in the pre-state: object o, cells el(o, 0..matsize(dim)-1)"""

    def __init__(self, c, p, dim, null_ok=False, fin_ok=False):
        geom(c)
        dimfact(c.st, dim)
        self.c, self.p, self.dim = c, p, dim
        self.o = c.nm(Ptr.obj(p))
        self.n = MS(dim)
        c.assume(dim >= 0)
        c.H('mpq')
        ok = z3.And(p == el(self.o, 0), Engine.BYTES(self.o) >= self.n * CELL)
        c.req(z3.Or(p == null, ok) if null_ok else ok, 'half matrix of the announced dimension')
        if not fin_ok:
            c.req(z3.Or(p == null, forall_int('k', 0, self.n, lambda k: self.at(c, k) != ninf, lambda k: [el(self.o, k)])), 'no bound is -oo')

    def at(self, V, k):
        return V.at('mpq', el(self.o, k))

    def pre(self, k):
        return self.at(self.c, k)

    def sat(self, V=None, name='k'):
        V = V or self.c
        return forall_int(name, 0, self.n, lambda k: cellok(self.at(V, k), k), lambda k: [el(self.o, k)])

    def region(self, cond=None):
        o, n = self.o, self.n
        self.c.region('mpq', lambda p: z3.And(*([root(p) == o, self.p != null] + ([cond] if cond is not None else []))), [o])


def sym_sat(c, m, tag):
    """a name for 'the point satisfies the matrix' (so that candidates stay small)"""
    b = fresh('sat_' + tag, z3.BoolSort())
    c.st.assume(b == m.sat())
    return b


def matinvs(c, m):
    """candidates: a moving pointer (or index) is at a given row, a local bound is above a difference"""
    def gen(L):
        out = []
        E = L.E
        ints = L.regs('int')
        for q in L.regs('ptr'):
            if q not in L.modregs:
                continue
            nq = E.decls[q][0]
            for x in ints:
                nx = E.decls[x][0]
                out.append(('%s at row %s' % (nq, nx), lambda st, q=q, x=x: (rowfact(st, st.regs[x]), smt.idx(st.regs[q]) == RB(st.regs[x]))[1]))
                for y in ints:
                    if y != x:
                        out.append(('%s at (%s,%s)' % (nq, nx, E.decls[y][0]), lambda st, q=q, x=x, y=y: (cellfact(st, st.regs[x], st.regs[y]), smt.idx(st.regs[q]) == RB(st.regs[x]) + st.regs[y])[1]))
        for x in ints:
            if x in L.modregs:
                for y in ints:
                    if y != x:
                        out.append(('%s<=%s|1 + 1' % (E.decls[x][0], E.decls[y][0]), lambda st, x=x, y=y: st.regs[x] <= OR1(st.regs[y]) + 1))
        return out
    c.inv(gen)


@spec('bound_init_array', 'num_init_array', 'numrat_init_array')
def _(c, a, n):
    c.bounds = False
    o = c.nm(Ptr.obj(a))
    c.H('mpq')
    c.req(z3.Or(n == 0, a == el(o, 0)), 'array')
    c.region('mpq', lambda p: z3.And(root(p) == o, a != null, tidx(p) < n), [o])
    c.each('zero', 0, n, lambda S, k: S.at('mpq', el(o, k)) == fin(z3.RealVal(0)), lambda S, k: [el(o, k)])


@spec('bound_set_array', 'num_set_array', 'numrat_set_array')
def _(c, a, b, n):
    o, o2 = c.nm(Ptr.obj(a)), c.nm(Ptr.obj(b))
    c.H('mpq')
    c.req(z3.Or(n == 0, z3.And(a == el(o, 0), b == el(o2, 0), o != o2)), 'distinct arrays')
    c.region('mpq', lambda p: z3.And(root(p) == o, a != null, tidx(p) < n), [o])
    c.each('copy', 0, n, lambda S, k: S.at('mpq', el(o, k)) == c.at('mpq', el(o2, k)), lambda S, k: [el(o, k)])


@spec('bound_clear_array', 'num_clear_array', 'numrat_clear_array')
def _(c, a, n):
    pass


HMAT += ['bound_init_array', 'bound_set_array', 'bound_clear_array']


@hspec('hmat_alloc')
def _(c, pr, dim):
    geom(c)
    c.assume(dim >= 0)
    c.allocs = c.freshret = True
    c.H('mpq')
    c.ens('one cell per constraint', lambda S: Engine.BYTES(root(S.ret)) >= MS(dim) * CELL)
    c.each('bounds are initialised', 0, MS(dim), lambda S, k: S.at('mpq', el(S.nm(root(S.ret)), k)) == fin(z3.RealVal(0)), lambda S, k: [el(S.nm(root(S.ret)), k)])


@hspec('hmat_free')
def _(c, pr, m, dim):
    pass


@hspec('hmat_alloc_zero')
def _(c, pr, dim):
    geom(c)
    c.assume(dim >= 0)
    c.allocs = c.freshret = True
    c.bounds = True
    c.H('mpq')
    c.ens('one cell per constraint', lambda S: Engine.BYTES(root(S.ret)) >= MS(dim) * CELL)
    c.each('all bounds are zero', 0, MS(dim), lambda S, k: S.at('mpq', el(S.nm(root(S.ret)), k)) == fin(z3.RealVal(0)), lambda S, k: [el(S.nm(root(S.ret)), k)])


@hspec('hmat_alloc_top')
def _(c, pr, dim):
    geom(c, True)
    dimfact(c.st, dim)
    c.assume(dim >= 0)
    c.allocs = c.freshret = True
    c.bounds = True
    c.H('mpq')
    c.ens('one cell per constraint', lambda S: Engine.BYTES(root(S.ret)) >= MS(dim) * CELL)
    cell = lambda S, k: S.at('mpq', el(S.nm(root(S.ret)), k))
    c.each('no constraint: +oo off the diagonal', 0, MS(dim), lambda S, k: z3.Or(ROW(k) == COL(k), cell(S, k) == pinf), lambda S, k: [el(S.nm(root(S.ret)), k)])
    c.each('the diagonal is zero', 0, 2 * dim, lambda S, k: cell(S, RB(k) + k) == fin(z3.RealVal(0)), lambda S, k: [RB(k)])
    c.each('every point satisfies it', 0, MS(dim), lambda S, k: cellok(cell(S, k), k), lambda S, k: [el(S.nm(root(S.ret)), k)])
    c.each('no bound is -oo', 0, MS(dim), lambda S, k: cell(S, k) != ninf, lambda S, k: [el(S.nm(root(S.ret)), k)])


@hspec('hmat_copy')
def _(c, pr, m, dim):
    c.allocs = True
    M = Mat(c, m, dim, True, True)
    c.ens('null iff the operand is', lambda S: (S.ret == null) == (m == null))
    c.ens('fresh', lambda S: z3.Or(m == null, z3.And(S.ret == el(root(S.ret), 0), root(S.ret) >= c.n0, Engine.BYTES(root(S.ret)) >= MS(dim) * CELL)))
    c.each('copy', 0, MS(dim), lambda S, k: z3.Or(m == null, S.at('mpq', el(S.nm(root(S.ret)), k)) == M.pre(k)), lambda S, k: [el(S.nm(root(S.ret)), k)])


def closure(c, m, dim):
    M = Mat(c, m, dim)
    c.bounds = True
    M.region()
    matinvs(c, M)
    s0 = sym_sat(c, M, 'before')
    c.each('every point of the octagon satisfies the new constraints', 0, M.n, lambda S, k: z3.Implies(s0, cellok(M.at(S, k), k)), lambda S, k: [el(M.o, k)], whole=True)
    c.nocells = True
    c.each('no constraint is loosened', 0, M.n, lambda S, k: ble(M.at(S, k), M.pre(k)), lambda S, k: [el(M.o, k)], whole=True)
    c.each('no bound is -oo', 0, M.n, lambda S, k: M.at(S, k) != ninf, lambda S, k: [el(M.o, k)], whole=True)
    return M, s0


@hspec('hmat_s_step', 'hmat_close')
def _(c, m, dim):
    M, s0 = closure(c, m, dim)
    c.ens('reported empty only if no point satisfies it', lambda S: z3.Implies(to_bool(S.ret), z3.Not(s0)))


@hspec('hmat_close_incremental')
def _(c, m, dim, v):
    M, s0 = closure(c, m, dim)
    c.req(v < dim, 'variable in range')
    c.ens('reported empty only if no point satisfies it', lambda S: z3.Implies(to_bool(S.ret), z3.Not(s0)))
