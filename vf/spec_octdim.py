"""Contracts of the dimension operations of octagons (octagons/oct_resize.c), exact-rational build.
Each is stated for one arbitrary cell of the matrices (its row, its column and its position are arbitrary constants),
so what is proved holds for every cell; callers instantiate the contract of a helper on the cell they talk about."""
import z3
import smt
from smt import fin, pinf, ninf, ble, fp, el, root, null, Int, Real, Ptr
from contract import spec, forall_int, View
from engine import to_bool, fid, fresh, Engine
from spec_oct import MS, RB, ROW, COL, D, W, Mat, geom, dimfact, cellfact, rowfact, wfact
from spec_octobj import Oct, ROct, Res, cached, destres, manager, oflags, bestobj, matok

ODIM = []
UI = 'unsigned int'


def dspec(*names):
    ODIM.extend(names)
    return spec(*names)


def plus(t, x):
    return t + x if x else t


class Cell(object):
    """cell (2h+x, 2l+y) of a matrix of dimension n: a cell of block (h,l), l <= h"""

    def __init__(self, c, h, x, l, y, n):
        st = c.st
        self.h, self.x, self.l, self.y, self.n = h, x, l, y, n
        self.i, self.j = plus(2 * h, x), plus(2 * l, y)
        dimfact(st, n)
        self.k = layout(c, h, x, l, y, n)

    inr = property(lambda s: z3.And(0 <= s.l, s.l <= s.h, s.h < s.n))


def layout(c, h, x, l, y, n=None):
    """position of cell (2h+x, 2l+y), with the layout facts about it (instances of the lemmas proved in matsize)"""
    i, j = plus(2 * h, x), plus(2 * l, y)
    k = c.nm(RB(i) + j)
    g = 'octlay:%d:%s' % (k.get_id(), n.get_id() if n is not None else '')
    if g not in c.st.ghost:
        c.st.ghost[g] = (k, n)
        pre = z3.And(0 <= l, l <= h)
        c.assume(z3.Implies(pre, z3.And(k >= 0, RB(2 * h) >= 0, ROW(k) == i, COL(k) == j, D(k) == W(j) - W(i), RB(2 * h + 1) == RB(2 * h) + 2 * h + 2,
                                        k == RB(2 * h) + (2 * h + 2 if x else 0) + j)))
        c.assume(W(2 * h + 1) == -W(2 * h))
        c.assume(W(2 * l + 1) == -W(2 * l))
        if n is not None:
            c.assume(z3.Implies(z3.And(pre, h < n), z3.And(k < MS(n), RB(2 * h) + 4 * h + 4 <= MS(n))))
    return k


def anyblock(c, n):
    """the four cells of an arbitrary block (h,l)"""
    h, l = fresh('anyrow', Int), fresh('anycol', Int)
    c.assume(z3.And(0 <= l, l <= h, h < n))
    return addblock(c, h, l, n)


def addblock(c, h, l, n):
    c.st.ghost['anyblocks'] = c.st.ghost.get('anyblocks', ()) + ((h, l),)
    return block(c, h, l, n)


def block(c, h, l, n):
    return [Cell(c, h, x, l, y, n) for x in (0, 1) for y in (0, 1)]


def listed(c, arr, size, v, tag):
    """-> (is v in arr[0..size), an index where it is)"""
    b, t = fresh(tag, z3.BoolSort()), fresh(tag + '_at', Int)
    o, i0 = c.nm(Ptr.obj(arr)), Ptr.idx(arr)
    at = lambda k: c.at(UI, el(o, k))
    # b says whether v occurs, t is a place where it does
    c.assume(z3.Implies(b, z3.And(0 <= t, t < size, at(t) == v)))
    c.assume(z3.Implies(z3.Not(b), forall_int('k', 0, size, lambda k: at(k) != v, lambda k: [at(k)])))
    return b, t


class Any(object):
    """an arbitrary cell (i,j) of a half matrix of dimension n"""

    def __init__(self, c, n):
        self.h, self.l, x, y = [fresh('any' + t, Int) for t in ('row', 'col', 'rowbit', 'colbit')]
        c.assume(z3.And(0 <= self.l, self.l <= self.h, self.h < n, 0 <= x, x < 2, 0 <= y, y < 2))
        self.i, self.j = 2 * self.h + x, 2 * self.l + y
        dimfact(c.st, n)
        for t in range(2):
            rowfact(c.st, 2 * self.h + t)
        self.k = c.nm(RB(self.i) + self.j)
        k = self.k
        c.assume(z3.And(k >= 0, k < MS(n), ROW(k) == self.i, COL(k) == self.j, D(k) == W(self.j) - W(self.i), RB(2 * self.h) >= 0,
                        k == RB(2 * self.h) + z3.If(x == 1, 2 * self.h + 2, 0) + self.j, W(2 * self.h + 1) == -W(2 * self.h), W(2 * self.l + 1) == -W(2 * self.l)))


@dspec('oct_forget_array')
def _(c, man, destructive, a, tdim, size, project):
    c.allocs = True
    c.bounds = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    d, pj = to_bool(destructive), to_bool(project)
    to = c.nm(Ptr.obj(tdim))
    c.req(z3.Or(size == 0, z3.And(tdim == el(to, 0), Engine.BYTES(to) >= 4 * size)), 'array of dimensions')
    c.req(forall_int('k', 0, size, lambda k: c.at(UI, el(to, k)) < A.dim, lambda k: [c.at(UI, el(to, k))]), 'dimensions in range')
    A.struct(z3.BoolVal(True))
    A.region(d)
    destres(c, d, a)
    R = Res(c, A.dim, A.intdim)
    K = Any(c, A.dim)
    rin, rt = listed(c, tdim, size, K.h, 'rowlisted')
    cin, ct = listed(c, tdim, size, K.l, 'collisted')
    binary = K.h != K.l
    touched = z3.And(K.i != K.j, z3.Or(rin, cin))
    value = lambda v: z3.If(z3.Or(binary, z3.Not(pj)), v == pinf, v == fin(z3.RealVal(0)))
    keep = lambda v: z3.Implies(A.conc, ble(fin(D(K.k)), v))

    def gen(L):
        out, E = [], L.E
        ints = L.regs('int')
        for q in L.regs('ptr'):
            t = E.decls[q][1].to
            if not (t is not None and (t.k == 'arr' or (t.k == 'rec' and 'bound' in str(t.name)))):
                continue
            cell = lambda st, q=q: View(E, st, c.pre, None).at('mpq', el(View(E, st, c.pre, None).nm(smt.obj(st.regs[q])), K.k))
            out.append(('untouched cell of %s holds' % E.decls[q][0], lambda st, cell=cell: z3.Implies(z3.Not(touched), keep(cell(st)))))
            out.append(('cell of %s is not -oo' % E.decls[q][0], lambda st, cell=cell: cell(st) != ninf))
            out.append(('diagonal of %s holds' % E.decls[q][0], lambda st, cell=cell: z3.Implies(K.i == K.j, keep(cell(st)))))
            ao = lambda st: bestobj(View(E, st, c.pre, None), a)
            out.append(('untouched cell of %s is the one of the operand' % E.decls[q][0], lambda st, cell=cell, ao=ao: z3.Or(d, touched, cell(st) == View(E, st, c.pre, None).at('mpq', el(ao(st), K.k)))))
            for x in ints:
                out.append(('row done before %s all' % E.decls[x][0], lambda st, x=x, cell=cell: z3.Implies(z3.And(touched, rin, rt < st.regs[x]), value(cell(st)))))
                out.append(('col done before %s all' % E.decls[x][0], lambda st, x=x, cell=cell: z3.Implies(z3.And(touched, cin, ct < st.regs[x]), value(cell(st)))))
                for y in ints:
                    if y != x and y in L.modregs:
                        out.append(('row half done %s %s all' % (E.decls[x][0], E.decls[y][0]), lambda st, x=x, y=y, cell=cell: z3.Implies(z3.And(binary, rin, rt == st.regs[x], K.j < st.regs[y]), value(cell(st)))))
                        out.append(('row all done at %s' % (E.decls[x][0]), lambda st, x=x, y=y, cell=cell: z3.Implies(z3.And(binary, rin, rt == st.regs[x]), value(cell(st)))))
                        out.append(('col half done %s %s all' % (E.decls[x][0], E.decls[y][0]), lambda st, x=x, y=y, cell=cell: z3.Implies(z3.And(binary, cin, ct == st.regs[x], K.i < st.regs[y]), value(cell(st)))))
        return out
    c.inv(gen)
    # non-destructive: the operand keeps its points (its closure may be cached)
    conc2 = lambda S: z3.Implies(z3.Not(d), z3.BoolVal(True))
    c.ens('dimensions of the result', lambda S: z3.And(R(S).dim == A.dim, R(S).intdim == A.intdim))
    c.ens('not empty unless the operand is', lambda S: z3.Implies(A.conc, z3.Not(R(S).empty)))
    for nm_, p, o in (('', lambda r: r.m, lambda r: r.mo), (' (closed)', lambda r: r.cl, lambda r: r.co)):
        v = lambda S, o=o: S.at('mpq', el(o(R(S)), K.k))
        c.ens('matrix of the result' + nm_, lambda S, p=p, o=o: z3.Or(p(R(S)) == null, matok(S, p(R(S)), o(R(S)), A.n)))
        c.ens('no bound is -oo' + nm_, lambda S, p=p, v=v: z3.Or(p(R(S)) == null, v(S) != ninf))
        c.ens('bounds on the listed dimensions are removed (or zero when projecting)' + nm_, lambda S, p=p, v=v: z3.Or(p(R(S)) == null, z3.Not(touched), value(v(S))))
        c.ens('the other bounds hold of every point' + nm_, lambda S, p=p, v=v: z3.Or(p(R(S)) == null, touched, keep(v(S))))
        c.ens('the other bounds are those of the operand' + nm_, lambda S, p=p, v=v: z3.Or(p(R(S)) == null, d, touched, v(S) == S.at('mpq', el(bestobj(S, a), K.k))))


def permpos(c, K, at, n):
    """the place where a permutation sends cell K"""
    a, b = at(K.h), at(K.l)
    c.assume(z3.And(a >= 0, b >= 0))   # unsigned
    p1, p2 = layout(c, a, K.x, b, K.y, n), layout(c, b, 1 - K.y, a, 1 - K.x, n)
    # (rows and columns are exchanged when the block moves above the diagonal; on the diagonal both are the same cell)
    return c.nm(z3.If(2 * b + K.y > 2 * a + K.x, p2, p1)), z3.And(a < n, b < n)


def rows2(c, st, x):
    rowfact(st, 2 * x)
    rowfact(st, 2 * x + 1)


def cells4(c, st, x, y):
    for a in (0, 1):
        for b in (0, 1):
            cellfact(st, 2 * x + a, 2 * y + b)


INVP = z3.Function('invperm', Ptr, Int, Int)


def permpre(c, perm, n):
    po = c.nm(Ptr.obj(perm))
    at = lambda k: c.at(UI, el(po, k))
    c.req(z3.Or(n == 0, z3.And(perm == el(po, 0), Engine.BYTES(po) >= 4 * n)), 'array of dimensions')
    # an injective array has an inverse
    inv = z3.Function('inv%d' % po.get_id(), Int, Int) if c.mode == 'verify' else None
    return at


def injective(c, at, n, tag):
    """the array is injective on 0..n-1: stated through its inverse"""
    i, j = z3.Ints('?i ?j')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, at(i) == at(j)), i == j), patterns=[z3.MultiPattern(at(i), at(j))])


@dspec('hmat_permute')
def _(c, dst, src, ddim, sdim, perm):
    geom(c)
    c.bounds = True
    Dm, Sm = Mat(c, dst, ddim, fin_ok=True), Mat(c, src, sdim, fin_ok=True)
    c.req(Dm.o != Sm.o, 'distinct matrices')
    at = permpre(c, perm, sdim)
    if c.mode == 'verify':
        inv, i = z3.Function('invperm', Int, Int), z3.Int('?i')
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sdim), inv(at(i)) == i), patterns=[at(i)]))
    else:
        c.req(injective(c, at, sdim, 'p'), 'the permutation is injective')
    Dm.region()
    blocks = [anyblock(c, sdim)] if c.mode == 'verify' else [block(c, h, l, sdim) for h, l in c.st.ghost.get('anyblocks', ())]
    for n_, B in enumerate(blocks):
        mv = []
        for K in B:
            p, inr = permpos(c, K, at, ddim)
            mv.append((p, Sm.pre(K.k)))
        K = B[0]
        ok = z3.And(K.inr, inr)
        moved = lambda V, mv=mv: z3.And(*[V.at('mpq', el(Dm.o, p)) == sv for p, sv in mv])
        c.ens('the cells are moved to their places' + (str(n_) if n_ else ''), lambda S, ok=ok, moved=moved: z3.Implies(ok, moved(S)))

        def gen(L, K=K, ok=ok, moved=moved):
            out, E = [], L.E
            done = lambda st: moved(View(E, st, c.pre, None))
            ints = L.regs('int')
            for x in ints:
                out.append(('moved when before row %s later' % E.decls[x][0], lambda st, x=x: z3.Implies(z3.And(ok, K.h < st.regs[x]), done(st))))
                for q in L.regs('ptr'):
                    if q in L.modregs:
                        out.append(('%s at row 2%s' % (E.decls[q][0], E.decls[x][0]), lambda st, q=q, x=x: (rows2(c, st, st.regs[x]), smt.idx(st.regs[q]) == RB(2 * st.regs[x]))[1]))
                        for y in ints:
                            if y != x and y in L.modregs:
                                out.append(('%s at (2%s,2%s)' % (E.decls[q][0], E.decls[x][0], E.decls[y][0]), lambda st, q=q, x=x, y=y: (cells4(c, st, st.regs[x], st.regs[y]), smt.idx(st.regs[q]) == RB(2 * st.regs[x]) + 2 * st.regs[y])[-1]))
                for y in ints:
                    if y != x and y in L.modregs:
                        out.append(('moved when in row %s before %s later' % (E.decls[x][0], E.decls[y][0]), lambda st, x=x, y=y: z3.Implies(z3.And(ok, K.h == st.regs[x], K.l < st.regs[y]), done(st))))
            return out
        c.inv(gen)


@spec('ap_manager_raise_exception')
def _(c, man, exn, funid, msg):
    """on valid arguments no exception is raised: reaching this call is an error"""
    c.req(z3.BoolVal(False), 'no exception is raised on valid arguments')
    c.noreturn = True


@dspec('oct_permute_dimensions')
def _(c, man, destructive, a, perm):
    c.allocs = True
    c.bounds = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    d = to_bool(destructive)
    c.nonnull(perm)
    c.req(c.at('unsigned long', fp(perm, fid('ap_dimperm_t', 'size'))) == A.dim, 'permutation of the dimensions of the operand')
    pd = c.ptrat(fp(perm, fid('ap_dimperm_t', 'dim')))
    at = permpre(c, pd, A.dim)
    c.req(forall_int('k', 0, A.dim, lambda k: at(k) < A.dim, lambda k: [at(k)]), 'dimensions in range')
    c.req(injective(c, at, A.dim, 'p'), 'the permutation is injective')
    A.region(d)
    A.struct(d)
    destres(c, d, a)
    R = Res(c, A.dim, A.intdim)
    B = anyblock(c, A.dim)
    c.ens('dimensions of the result', lambda S: z3.And(R(S).dim == A.dim, R(S).intdim == A.intdim))
    c.ens('empty exactly when the operand is', lambda S: R(S).empty == A.empty)
    c.ens('a closed operand gives a closed result', lambda S: z3.If(A.cl != null, z3.And(R(S).cl != null, R(S).m == null), R(S).cl == null))
    for K in B:
        p, inr = permpos(c, K, at, A.dim)
        for nm_, g, o in (('', lambda r: r.m, lambda r: r.mo), (' (closed)', lambda r: r.cl, lambda r: r.co)):
            c.ens('bound (%d,%d)%s is moved to the place of its variables' % (K.x, K.y, nm_), lambda S, g=g, o=o, p=p, K=K: z3.Or(g(R(S)) == null, S.at('mpq', el(o(R(S)), p)) == c.at('mpq', el(A.bo, K.k))))
    for nm_, g, o in (('', lambda r: r.m, lambda r: r.mo), (' (closed)', lambda r: r.cl, lambda r: r.co)):
        c.ens('matrix of the result' + nm_, lambda S, g=g, o=o: z3.Or(g(R(S)) == null, z3.And(matok(S, g(R(S)), o(R(S)), A.n), o(R(S)) >= c.n0)))
