"""Contracts of octagon objects (octagons/oct_representation.c, oct_nary.c, oct_predicate.c), exact-rational build.
An octagon is empty (no matrix), or has a matrix m, a closed matrix, or both; with both, they have the same points.
One arbitrary point (W, see spec_oct) stands for all points: conc = 'the point is in the octagon'."""
import z3
import smt
from smt import fin, pinf, ninf, is_fin, bval, bsgn, ble, bmin, bmax, fp, el, root, tidx, null, Int, Real, Ptr
from contract import spec, forall_int, View, Ctx
from engine import to_int, to_bool, fid, fresh, Engine
from spec_oct import (MS, RB, ROW, COL, D, W, Mat, geom, dimfact, cellfact, rowfact, cellok, matinvs, CELL)
from spec_box import flags

OCT = []


def ospec(*names):
    OCT.extend(names)
    return spec(*names)


REC = '_oct_t'


def PM(a):
    return fp(a, fid(REC, 'm'))


def PC(a):
    return fp(a, fid(REC, 'closed'))


def PD(a):
    return fp(a, fid(REC, 'dim'))


def PI(a):
    return fp(a, fid(REC, 'intdim'))


def matok(V, p, o, n):
    return z3.And(p == el(o, 0), o < V.st.n, Engine.BYTES(o) >= n * CELL)


def satq(V, o, n):
    return forall_int('k', 0, n, lambda k: cellok(V.at('mpq', el(o, k)), k), lambda k: [el(o, k)])


class Oct(object):
    """an octagon in the pre-state (inv: with its representation invariant)"""

    def __init__(self, c, a, inv=True, tag=''):
        geom(c)
        self.c, self.a = c, a
        c.nonnull(a)
        self.m, self.cl = c.ptrat(PM(a)), c.ptrat(PC(a))
        self.dim, self.intdim = c.at('unsigned long', PD(a)), c.at('unsigned long', PI(a))
        c.assume(z3.And(self.dim >= 0, self.intdim >= 0))
        c.req(self.intdim <= self.dim, 'no more integer dimensions than dimensions')
        dimfact(c.st, self.dim)
        self.n = MS(self.dim)
        self.empty = z3.And(self.m == null, self.cl == null)
        self.M, self.C = Mat(c, self.m, self.dim, True, not inv), Mat(c, self.cl, self.dim, True, not inv)
        self.mo, self.co = self.M.o, self.C.o
        c.req(z3.Or(self.m == null, self.cl == null, self.mo != self.co), 'the two matrices are distinct')
        # the matrix most operations work on
        self.best = c.nm(z3.If(self.cl != null, self.cl, self.m))
        self.bo = c.nm(Ptr.obj(self.best))
        if inv:
            # the name of the concretisation is shared by all callers that see the same state
            self.conc = conc_of(c, c.pre if False else c, a, self.m, self.mo, self.cl, self.co, self.n, c.st)
            self.sm, self.sc = sat_name(c, self.mo, self.n), sat_name(c, self.co, self.n)
            c.req(z3.Or(self.m == null, self.cl == null, self.sm == self.sc), 'both matrices have the same points')

    def region(self, cond, m=True, cl=True):
        c = self.c
        for on, p, o in ((m, self.m, self.mo), (cl, self.cl, self.co)):
            if on:
                c.region('mpq', lambda q, p=p, o=o: z3.And(root(q) == o, p != null, cond), [o])

    def struct(self, cond, dims=False):
        a = self.a
        self.c.region('ptr', lambda p: z3.And(cond, z3.Or(p == PM(a), p == PC(a))), [root(a)])
        if dims:
            self.c.region('unsigned long', lambda p: z3.And(cond, z3.Or(p == PD(a), p == PI(a))), [root(a)])


def sat_name(c, o, n):
    """the name of 'the point satisfies the matrix in object o' in the pre-state of c"""
    h = c.H('mpq')
    k = 'satname:%d:%d:%d' % (h.get_id(), o.get_id(), n.get_id())
    if k not in c.st.ghost:
        b = fresh('sat', z3.BoolSort())
        c.st.ghost[k] = (b, h, o, n)
        c.st.assume(b == satq(c, o, n))
    return c.st.ghost[k][0]


def conc_of(c, V, a, m, mo, cl, co, n, st):
    k = 'conc:%d:%d:%d' % (c.H('mpq').get_id(), c.H('ptr').get_id(), a.get_id())
    if k not in st.ghost:
        b = fresh('conc', z3.BoolSort())
        st.ghost[k] = (b, c.H('mpq'), c.H('ptr'), a)
        st.assume(b == z3.If(cl != null, sat_name(c, co, n), z3.And(m != null, sat_name(c, mo, n))))
    return st.ghost[k][0]


class ROct(object):
    """an octagon in a post-state"""

    def __init__(self, S, a):
        self.S, self.a = S, a
        self.m, self.cl = S.at('ptr', PM(a)), S.at('ptr', PC(a))
        self.mo, self.co = S.nm(Ptr.obj(self.m)), S.nm(Ptr.obj(self.cl))
        self.dim, self.intdim = S.at('unsigned long', PD(a)), S.at('unsigned long', PI(a))
        self.empty = z3.And(self.m == null, self.cl == null)


def bestobj(S, a):
    R = ROct(S, a)
    return S.nm(z3.If(R.cl != null, R.co, R.mo))


def apart(c, A, B):
    """two octagons are the same object or share no matrix"""
    ne = lambda p, o, q, o2: z3.Or(p == null, q == null, o != o2)
    c.req(z3.Or(A.a == B.a, z3.And(A.a != B.a, ne(A.m, A.mo, B.m, B.mo), ne(A.m, A.mo, B.cl, B.co), ne(A.cl, A.co, B.m, B.mo), ne(A.cl, A.co, B.cl, B.co))),
          'the operands are the same octagon or share no matrix')
    c.req(z3.And(A.dim == B.dim, A.intdim == B.intdim), 'same dimensions')


def manager(c, man):
    c.nonnull(man)
    pr = c.ptrat(fp(man, fid('ap_manager_t', 'internal')))
    c.req(pr != null, 'the manager has its internal part')
    P = 'oct_internal_t'
    P = '_oct_internal_t'
    c.mod('_Bool', fp(pr, fid(P, 'conv')))
    c.mod(FUNID, fp(pr, fid(P, 'funid')))
    c.mod('ptr', fp(pr, fid(P, 'funopt')))
    return pr


FUNID = 'enum'


def oflags(c, man):
    flags(c, man, None, None)


def cellclauses(c, R, label, cond, fn, whole=False, extra=None):
    """for both matrices of the result R(S): cond and matrix present -> fn(value, k, S) for every cell"""
    for nm_, p, o in (('', lambda r: r.m, lambda r: r.mo), (' (closed)', lambda r: r.cl, lambda r: r.co)):
        c.each(label + nm_, 0, R.n, lambda S, k, p=p, o=o: z3.Or(p(R(S)) == null, z3.Implies(cond, fn(S.at('mpq', el(o(R(S)), k)), k, S))),
               lambda S, k, o=o: [el(o(R(S)), k)] + (extra(S, k) if extra else []), whole=whole)


class Res(object):
    def __init__(self, c, dim, intdim, a=None):
        self.c, self.dim, self.intdim, self.n, self.a = c, dim, intdim, MS(dim), a

    def __call__(self, S):
        return ROct(S, S.ret if self.a is None else self.a)


def wf(c, R, destr=None, A=None):
    """representation invariant of the result"""
    c.ens('dimensions of the result', lambda S: z3.And(R(S).dim == R.dim, R(S).intdim == R.intdim))
    own = lambda S, p, o: z3.Or(p == null, z3.And(matok(S, p, o, R.n), z3.Or(*([o >= c.n0] + ([z3.And(destr, z3.Or(z3.And(A.m != null, o == A.mo), z3.And(A.cl != null, o == A.co)))] if A is not None else [])))))
    c.ens('matrix of the result', lambda S: own(S, R(S).m, R(S).mo))
    c.ens('closed matrix of the result', lambda S: own(S, R(S).cl, R(S).co))
    c.ens('the two matrices of the result are distinct', lambda S: z3.Or(R(S).m == null, R(S).cl == null, R(S).mo != R(S).co))
    cellclauses(c, R, 'no bound is -oo', z3.BoolVal(True), lambda v, k, S: v != ninf)


def contains(c, R, cond, label='every point of the operands is in the result'):
    """cond (the arbitrary point is in ...) -> the point is in the result"""
    c.ens(label + ': not empty', lambda S: z3.Implies(cond, z3.Not(R(S).empty)))
    cellclauses(c, R, label, cond, lambda v, k, S: cellok(v, k))


def within(c, R, cond, label='every point of the result is in the operands'):
    c.ens(label, lambda S: z3.Implies(z3.And(R(S).m != null, satq(S, R(S).mo, R.n)), cond))
    c.ens(label + ' (closed)', lambda S: z3.Implies(z3.And(R(S).cl != null, satq(S, R(S).co, R.n)), cond))


def exact(c, R, cond):
    contains(c, R, cond)
    within(c, R, cond)


def destres(c, d, a):
    c.resok = lambda S: z3.And(S.ret != null, z3.If(d, S.ret == a, z3.And(root(S.ret) >= c.n0, S.ret == el(root(S.ret), 0))))
    c.ens('result is the operand when destructive, a fresh octagon otherwise', c.resok)


def matcells(c, clauses, n, nm=''):
    """loop candidates: clauses about the cells of any matrix in scope; clauses: (label, fn(S, v, k))"""
    def gen(L):
        out, E = [], L.E
        ptrs = [q for q in L.regs('ptr') if E.decls[q][1].to is not None and E.decls[q][1].to.k in ('arr', 'rec') and ('bound' in str(E.decls[q][1].to.name or '') or E.decls[q][1].to.k == 'arr')]
        ints = L.regs('int')
        for q in ptrs:
            nq = E.decls[q][0]
            for label, fn in clauses:
                def mk(hi, q=q, fn=fn):
                    def f(st):
                        S = View(E, st, c.pre, None)
                        p = st.regs[q]
                        o = S.nm(smt.obj(p))
                        return forall_int('k', 0, hi(st), lambda k: z3.Or(p == null, fn(S, S.at('mpq', el(o, k)), k)), lambda k: [el(o, k)])
                    return f
                out.append(('matrix %s: %s all' % (nq, label), mk(lambda st: n)))
                for i in ints:
                    if i in L.modregs:
                        out.append(('matrix %s: %s k<%s' % (nq, label, E.decls[i][0]), mk(lambda st, i=i: st.regs[i])))
                if q in L.modregs:
                    out.append(('matrix %s: %s k<*' % (nq, label), mk(lambda st, q=q: smt.idx(st.regs[q]))))
        return out
    c.inv(gen)


# ---------------------------------------------------------------- representation
@ospec('oct_alloc_internal')
def _(c, pr, dim, intdim):
    c.allocs = c.freshret = True
    c.H('ptr'), c.H('unsigned long')
    c.ens('empty octagon', lambda S: ROct(S, S.ret).empty)
    c.ens('dimensions', lambda S: z3.And(ROct(S, S.ret).dim == dim, ROct(S, S.ret).intdim == intdim))


@ospec('oct_alloc_top')
def _(c, pr, dim, intdim):
    geom(c)
    dimfact(c.st, dim)
    c.assume(dim >= 0)
    c.allocs = c.freshret = True
    c.H('mpq'), c.H('ptr'), c.H('unsigned long')
    R = Res(c, dim, intdim)
    wf(c, R)
    contains(c, R, z3.BoolVal(True), 'every point is in it')


@ospec('oct_free_internal')
def _(c, pr, a):
    A = Oct(c, a, False)
    A.struct(z3.BoolVal(True))


@ospec('oct_free')
def _(c, man, a):
    manager(c, man)
    A = Oct(c, a, False)
    A.struct(z3.BoolVal(True))


def copyspec(c, a):
    c.allocs = c.freshret = True
    A = Oct(c, a)
    R = Res(c, A.dim, A.intdim)
    wf(c, R)
    c.ens('a matrix is present iff it is in the operand', lambda S: z3.And((R(S).m == null) == (A.m == null), (R(S).cl == null) == (A.cl == null)))
    c.each('copy', 0, A.n, lambda S, k: z3.Or(A.m == null, S.at('mpq', el(R(S).mo, k)) == A.M.pre(k)), lambda S, k: [el(R(S).mo, k), el(A.mo, k)])
    c.each('copy (closed)', 0, A.n, lambda S, k: z3.Or(A.cl == null, S.at('mpq', el(R(S).co, k)) == A.C.pre(k)), lambda S, k: [el(R(S).co, k), el(A.co, k)])
    exact(c, R, A.conc)
    return A


@ospec('oct_copy_internal')
def _(c, pr, a):
    copyspec(c, a)


@ospec('oct_copy')
def _(c, man, a):
    manager(c, man)
    copyspec(c, a)


@ospec('oct_closure')
def _(c, man, destructive, a):
    c.allocs = True
    manager(c, man)
    oflags(c, man)
    d = to_bool(destructive)
    A = Oct(c, a)
    destres(c, d, a)
    R = Res(c, A.dim, A.intdim)
    wf(c, R, d, A)
    exact(c, R, A.conc)


@ospec('oct_set_mat')
def _(c, pr, a, m, closed, destructive):
    c.allocs = True
    d = to_bool(destructive)
    A = Oct(c, a, False)
    M, C = Mat(c, m, A.dim, True, True), Mat(c, closed, A.dim, True, True)
    c.req(z3.Or(m == null, closed == null, M.o != C.o), 'distinct matrices')
    A.struct(d)
    destres(c, d, a)
    c.resok = None
    R = Res(c, A.dim, A.intdim)
    c.ens('dimensions of the result', lambda S: z3.And(R(S).dim == A.dim, R(S).intdim == A.intdim))
    alias = lambda p: z3.And(p != null, z3.Or(p == A.m, p == A.cl))
    for lab, p, get, geto, Q in (('matrix', m, lambda r: r.m, lambda r: r.mo, M), ('closed matrix', closed, lambda r: r.cl, lambda r: r.co, C)):
        c.ens('%s: the given one, copied when it belongs to the operand of a non-destructive call' % lab, lambda S, p=p, get=get, geto=geto:
              z3.If(z3.And(alias(p), z3.Not(d)), z3.And(matok(S, get(R(S)), geto(R(S)), A.n), geto(R(S)) >= c.n0), get(R(S)) == p))
        c.each('%s: the bounds given' % lab, 0, A.n, lambda S, k, p=p, geto=geto, Q=Q: z3.Or(p == null, S.at('mpq', el(geto(R(S)), k)) == Q.pre(k)),
               lambda S, k, geto=geto, Q=Q: [el(geto(R(S)), k), el(Q.o, k)])
    c.ens('the two matrices of the result are distinct', lambda S: z3.Or(m == null, closed == null, R(S).mo != R(S).co))


@ospec('oct_bottom')
def _(c, man, i, r):
    c.allocs = c.freshret = True
    manager(c, man)
    oflags(c, man)
    c.H('unsigned long')
    c.ens('empty octagon', lambda S: ROct(S, S.ret).empty)
    c.ens('dimensions', lambda S: z3.And(ROct(S, S.ret).dim == i + r, ROct(S, S.ret).intdim == i))


@ospec('oct_top')
def _(c, man, i, r):
    geom(c)
    c.assume(z3.And(i >= 0, r >= 0))
    dimfact(c.st, i + r)
    c.allocs = c.freshret = True
    manager(c, man)
    oflags(c, man)
    c.H('mpq'), c.H('unsigned long')
    R = Res(c, i + r, i)
    wf(c, R)
    contains(c, R, z3.BoolVal(True), 'every point is in it')


@ospec('oct_dimension')
def _(c, man, a):
    manager(c, man)
    A = Oct(c, a, False)
    c.ens('dimensions', lambda S: z3.And(S.ret.d['intdim'] == A.intdim, S.ret.d['realdim'] == A.dim - A.intdim))


def cached(c, A, tag=''):
    """a is the same octagon after a cached closure"""
    R = Res(c, A.dim, A.intdim, A.a)
    c.ens('the original matrix stays, or the octagon is found empty' + tag, lambda S: z3.Or(R(S).m == A.m, R(S).empty))
    c.ens('a closed matrix stays' + tag, lambda S: z3.Or(A.cl == null, R(S).cl == A.cl))
    c.ens('closed matrix' + tag, lambda S: z3.Or(R(S).cl == null, R(S).cl == A.cl, z3.And(matok(S, R(S).cl, R(S).co, A.n), R(S).co >= c.n0)))
    c.each('closed: no bound is -oo' + tag, 0, A.n, lambda S, k: z3.Or(R(S).cl == null, S.at('mpq', el(R(S).co, k)) != ninf), lambda S, k: [el(R(S).co, k)], whole=True)
    c.ens('empty stays empty' + tag, lambda S: z3.Implies(A.empty, R(S).empty))
    c.ens('found empty only if it is' + tag, lambda S: z3.Implies(R(S).empty, z3.Not(A.conc)))
    c.each('the closed matrix holds of every point' + tag, 0, A.n, lambda S, k: z3.Or(R(S).cl == null, z3.Not(A.conc), cellok(S.at('mpq', el(R(S).co, k)), k)), lambda S, k: [el(R(S).co, k)], whole=True)
    c.ens('the closed matrix has no other point' + tag, lambda S: z3.Implies(z3.And(R(S).cl != null, satq(S, R(S).co, A.n)), A.conc))
    return R


@ospec('oct_cache_closure')
def _(c, pr, a):
    c.allocs = True
    A = Oct(c, a)
    A.struct(z3.BoolVal(True))
    R = cached(c, A)
    c.ens('a closed matrix is available unless the octagon is empty', lambda S: z3.Or(R(S).empty, R(S).cl != null))


@ospec('oct_close')
def _(c, pr, a):
    A = Oct(c, a)
    A.struct(z3.BoolVal(True))
    A.region(z3.BoolVal(True), True, False)
    R = Res(c, A.dim, A.intdim, a)
    c.ens('only a closed matrix is kept', lambda S: R(S).m == null)
    c.ens('closed matrix', lambda S: z3.Or(R(S).cl == null, R(S).cl == A.cl, R(S).cl == A.m))
    c.each('closed: no bound is -oo', 0, A.n, lambda S, k: z3.Or(R(S).cl == null, S.at('mpq', el(R(S).co, k)) != ninf), lambda S, k: [el(R(S).co, k)], whole=True)
    exact(c, R, A.conc)


# ---------------------------------------------------------------- lattice
def two(c, man, a1, a2):
    geom(c)
    manager(c, man)
    oflags(c, man)
    A, B = Oct(c, a1), Oct(c, a2)
    apart(c, A, B)
    c.cases = [a1 != a2, a1 == a2]
    return A, B


@ospec('oct_is_bottom')
def _(c, man, a):
    c.allocs = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    A.struct(z3.BoolVal(True))
    cached(c, A)
    c.ens('reported empty only if no point is in it', lambda S: z3.Implies(to_bool(S.ret), z3.Not(A.conc)))
    c.ens('reported empty when it has no matrix', lambda S: z3.Implies(ROct(S, a).empty, to_bool(S.ret)))


@ospec('oct_is_top')
def _(c, man, a):
    c.bounds = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    matinvs(c, A.M)
    o = c.nm(Ptr.obj(z3.If(A.m != null, A.m, A.cl)))
    c.each('no bound off the diagonal', 0, A.n, lambda S, k: z3.Implies(to_bool(S.ret), z3.And(z3.Not(A.empty), z3.Or(ROW(k) == COL(k), c.at('mpq', el(o, k)) == pinf))), lambda S, k: [el(o, k)])
    c.ens('empty is not the universe', lambda S: z3.Or(z3.Not(A.empty), z3.Not(to_bool(S.ret))))


@ospec('oct_is_leq', 'oct_is_eq')
def _(c, man, a1, a2):
    c.allocs = True
    c.bounds = True
    A, B = two(c, man, a1, a2)
    A.struct(z3.BoolVal(True))
    B.struct(z3.BoolVal(c.name == 'oct_is_eq'))
    matinvs(c, A.M)
    rel = ble if c.name == 'oct_is_leq' else (lambda x, y: x == y)

    def gen(L):
        out = []
        for q in L.regs('ptr'):
            if q in L.modregs:
                def f(st, q=q):
                    S = View(L.E, st, c.pre, None)
                    o1, o2 = bestobj(S, a1), bestobj(S, a2)
                    return forall_int('k', 0, smt.idx(st.regs[q]), lambda k: rel(S.at('mpq', el(o1, k)), S.at('mpq', el(o2, k))), lambda k: [el(o1, k), el(o2, k)])
                out.append(('the bounds before %s compare' % L.E.decls[q][0], f))
        return out
    c.inv(gen)
    RA = cached(c, A)
    RB_ = cached(c, B, ' (second operand)')
    c.ens('true only if every point of the first is in the second', lambda S: z3.Implies(z3.And(to_bool(S.ret), A.conc), B.conc))
    if c.name == 'oct_is_eq':
        c.ens('true only if every point of the second is in the first', lambda S: z3.Implies(z3.And(to_bool(S.ret), B.conc), A.conc))


@ospec('oct_meet')
def _(c, man, destructive, a1, a2):
    c.allocs = True
    c.bounds = True
    A, B = two(c, man, a1, a2)
    d = to_bool(destructive)
    A.struct(d)
    A.region(d)
    destres(c, d, a1)
    R = Res(c, A.dim, A.intdim)
    wf(c, R, d, A)
    ax, bx = (lambda k: c.at('mpq', el(A.bo, k))), (lambda k: c.at('mpq', el(B.bo, k)))
    matcells(c, [('minimum', lambda S, v, k: v == bmin(ax(k), bx(k)))], A.n)
    c.each('every bound is the smaller one', 0, A.n, lambda S, k: z3.Or(A.empty, B.empty, z3.And(R(S).m != null, R(S).cl == null, S.at('mpq', el(R(S).mo, k)) == bmin(ax(k), bx(k)))),
           lambda S, k: [el(R(S).mo, k), el(A.bo, k), el(B.bo, k)])
    exact(c, R, z3.And(A.conc, B.conc))


@ospec('oct_join')
def _(c, man, destructive, a1, a2):
    c.allocs = True
    c.bounds = True
    A, B = two(c, man, a1, a2)
    d = to_bool(destructive)
    A.struct(z3.BoolVal(True))
    B.struct(z3.BoolVal(True))
    A.region(d)
    destres(c, d, a1)
    R = Res(c, A.dim, A.intdim)
    wf(c, R, d, A)
    matcells(c, [('holds of the points of the first', lambda S, v, k: z3.Implies(A.conc, cellok(v, k))), ('holds of the points of the second', lambda S, v, k: z3.Implies(B.conc, cellok(v, k))),
                 ('no -oo', lambda S, v, k: v != ninf)], A.n)
    contains(c, R, A.conc, 'every point of the first operand is in the result')
    contains(c, R, B.conc, 'every point of the second operand is in the result')


@ospec('oct_widening')
def _(c, man, a1, a2):
    c.allocs = c.freshret = True
    c.bounds = True
    A, B = two(c, man, a1, a2)
    B.struct(z3.BoolVal(True))
    RB_ = cached(c, B, ' (second operand)')
    R = Res(c, A.dim, A.intdim)
    wf(c, R)
    ao = c.nm(Ptr.obj(z3.If(A.m != null, A.m, A.cl)))     # the bounds of the first operand as they were given, not their closure
    ax = lambda k: c.at('mpq', el(ao, k))
    algo = c.at('int', fp(c.at('ptr', fp(fp(man, fid('ap_manager_t', 'option')), 0)), 0)) if False else None
    matcells(c, [('holds of the points of the first', lambda S, v, k: z3.Implies(A.conc, cellok(v, k))), ('holds of the points of the second', lambda S, v, k: z3.Implies(B.conc, cellok(v, k))),
                 ('no -oo', lambda S, v, k: v != ninf), ('not tighter than the first', lambda S, v, k: ble(ax(k), v))], A.n)
    contains(c, R, A.conc, 'every point of the first operand is in the result')
    contains(c, R, B.conc, 'every point of the second operand is in the result')
    c.each('no bound of the first operand is tightened', 0, A.n, lambda S, k: z3.Or(A.empty, R(S).m == null, ble(ax(k), S.at('mpq', el(R(S).mo, k)))), lambda S, k: [el(R(S).mo, k), el(ao, k)])


@ospec('oct_narrowing')
def _(c, man, a1, a2):
    c.allocs = c.freshret = True
    c.bounds = True
    A, B = two(c, man, a1, a2)
    A.struct(z3.BoolVal(True))
    B.struct(z3.BoolVal(True))
    RA = cached(c, A)
    RB_ = cached(c, B, ' (second operand)')
    R = Res(c, A.dim, A.intdim)
    wf(c, R)
    both = z3.And(A.conc, B.conc)
    matcells(c, [('holds of the common points', lambda S, v, k: z3.Implies(both, cellok(v, k))), ('no -oo', lambda S, v, k: v != ninf)], A.n)
    contains(c, R, both, 'every point of both operands is in the result')


@ospec('oct_is_dimension_unconstrained')
def _(c, man, a, dim):
    c.bounds = True
    manager(c, man)
    oflags(c, man)
    A = Oct(c, a)
    c.req(dim < A.dim, 'dimension in range')
    c.ens('empty is constrained', lambda S: z3.Implies(A.empty, z3.Not(to_bool(S.ret))))
    i0 = fresh('anyrow', Int)       # an arbitrary row: what is proved holds of every row
    c.assume(z3.And(i0 >= 0, i0 < 2 * A.dim))
    v = lambda i, j: c.at('mpq', el(A.bo, z3.If(j > i, RB(smt.xor1(j)) + smt.xor1(i), RB(i) + j)))
    both = z3.And(z3.Or(i0 == 2 * dim, v(i0, 2 * dim) == pinf), z3.Or(i0 == 2 * dim + 1, v(i0, 2 * dim + 1) == pinf))
    c.inv(lambda L: [('no bound on the arbitrary row before %s' % L.E.decls[i][0], lambda st, i=i: z3.Implies(i0 < st.regs[i], both)) for i in L.regs('int')])
    c.ens('true only if no bound mentions the dimension', lambda S: z3.Implies(to_bool(S.ret), both))
