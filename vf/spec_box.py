"""Contracts of the box domain (box/*.c), exact-rational build.
A box a has dimensions intdim+realdim; a->p==NULL means the empty set, otherwise the set of the points whose
k-th coordinate is in the k-th interval."""
import z3
import smt
from smt import fin, pinf, ninf, is_fin, bval, bsgn, bneg, ble, badd, bmin, bmax, fp, el, root, tidx, null, Int, Ptr
from contract import spec, Ctx, View, SPECS, forall_int
from engine import to_int, to_bool, fid, fresh, Engine
from spec_itv import (I, INF, SUP, iempty, iwf, inne, ibot, ile, ieq, imem, TOP, ZERO, bwiden, INT, scratch, ispec, setI, modI)

BOX = []
ITVSZ = 64


def bspec(*names):
    BOX.extend(names)
    return spec(*names)


def F(rec, f):
    return fid(rec, f)


def PB(a):
    return fp(a, F('box_t', 'p'))


def ID(a):
    return fp(a, F('box_t', 'intdim'))


def RD(a):
    return fp(a, F('box_t', 'realdim'))


def UL(V, p):
    v = V.at('unsigned long', p)
    V.st.assume(v >= 0)
    return v


def OUL(S, p):
    """pre-state value seen from a post-state view"""
    return S.old('unsigned long', p)


class Box(object):
    """a box in the pre-state"""

    def __init__(self, c, a, inv=True):
        self.c, self.a = c, a
        c.nonnull(a)
        self.p = c.ptrat(PB(a))
        self.i, self.r = c.at('unsigned long', ID(a)), c.at('unsigned long', RD(a))
        c.assume(z3.And(self.i >= 0, self.r >= 0))
        self.nb = self.i + self.r
        self.o = c.nm(Ptr.obj(self.p))
        c.H('mpq')
        c.req(z3.Or(self.p == null, z3.And(self.p == el(self.o, 0), Engine.BYTES(self.o) == (self.nb + 1) * ITVSZ)), 'the array of a non-empty box has one cell per dimension and a spare one')
        if inv:
            c.req(z3.Or(self.p == null, forall_int('k', 0, self.nb, lambda k: inne(self.cell(c, k)), lambda k: [INF(el(self.o, k)), SUP(el(self.o, k))])),
                  'the intervals of a non-empty box are non-empty')
        self.empty = self.p == null

    def cell(self, V, k):
        return V.at('mpq', INF(el(self.o, k))), V.at('mpq', SUP(el(self.o, k)))

    def pre(self, k):
        return self.cell(self.c, k)

    def region(self, cond=True, n=None):
        """the interval cells of the box may be written"""
        c, o, nb = self.c, self.o, self.nb if n is None else n
        cond = z3.BoolVal(True) if cond is True else cond
        c.region('mpq', lambda p: z3.And(cond, self.p != null, root(p) == o, tidx(p) >= 0, tidx(p) < nb), [o])


class RBox(object):
    """a box in a post-state"""

    def __init__(self, S, a):
        self.S, self.a = S, a
        self.p = S.at('ptr', PB(a))
        self.o = S.nm(Ptr.obj(self.p))
        self.i, self.r = S.at('unsigned long', ID(a)), S.at('unsigned long', RD(a))
        self.empty = self.p == null

    def cell(self, k):
        return self.S.at('mpq', INF(el(self.o, k))), self.S.at('mpq', SUP(el(self.o, k)))


def cpats(getR):
    """patterns for a statement about the k-th cell of the result"""
    def f(S, k):
        R = getR(S)
        return [INF(el(R.o, k)), SUP(el(R.o, k))]
    return f


def exists_int(lo, hi, body, pats=None):
    k = z3.Int('x')
    b = z3.And(lo <= k, k < hi, body(k))
    return z3.Exists([k], b, patterns=pats(k)) if pats else z3.Exists([k], b)


def flags(c, man, best, exact):
    r = fp(man, F('ap_manager_t', 'result'))
    c.nonnull(man)
    for f, v in (('flag_best', best), ('flag_exact', exact)):
        p = fp(r, F('ap_result_t', f))
        if v is None:
            c.mod('_Bool', p)
        else:
            c.set('_Bool', p, z3.BoolVal(v) if isinstance(v, bool) else v, f)


def intern(c, man):
    m = c.ptrat(fp(man, F('ap_manager_t', 'internal')))
    ip = c.ptrat(fp(m, F('box_internal_t', 'itv')))
    return m, ip


def workspace(c, man, *boxes):
    """the interval workspace of the manager is apart from the boxes"""
    m, ip = intern(c, man)
    c.req(z3.And(m != null, ip != null), 'the manager has a workspace')
    for b in boxes:
        c.req(z3.Or(b.p == null, root(ip) != b.o), 'the workspace is not part of a box')
    return m, ip


def struct_written(c, a, cond, dims=False):
    """the fields of the structure a may be written (when cond)"""
    c.region('ptr', lambda p: z3.And(cond, p == PB(a)), [root(a)])
    if dims:
        c.region('unsigned long', lambda p: z3.And(cond, z3.Or(p == ID(a), p == RD(a))), [root(a)])


def result(c, destr, a):
    """the result is a when destructive, a fresh structure otherwise"""
    c.resok = lambda S: z3.And(S.ret != null, z3.If(destr, S.ret == a, z3.And(root(S.ret) >= c.n0, S.ret == el(root(S.ret), 0))))
    c.ens('result is the first operand when destructive, a fresh box otherwise', c.resok)


def wfres(c, dims, okcell=True, destr=None, o=None):
    """representation invariant of the result (dims: (intdim, realdim) terms)"""
    c.ens('dimensions of the result', lambda S: z3.And(RBox(S, S.ret).i == dims[0], RBox(S, S.ret).r == dims[1]))
    c.ens('array of the result has one cell per dimension and a spare one', lambda S: (lambda R: z3.Or(R.empty, z3.And(
        R.p == el(R.o, 0), Engine.BYTES(R.o) == (dims[0] + dims[1] + 1) * ITVSZ)))(RBox(S, S.ret)))
    c.ens('array of the result is its own', lambda S: (lambda R: z3.Or(R.empty, z3.And(destr, R.o == o) if destr is not None else z3.BoolVal(False), R.o >= c.n0))(RBox(S, S.ret)))


def cells(c, label, nb, fn, lo=0):
    """for all k: fn(cell k of the result, k, S) unless the result is empty"""
    g = lambda S: RBox(S, S.ret)
    c.each(label, lo, nb, lambda S, k: z3.Or(g(S).empty, fn(g(S).cell(k), k, S)), cpats(g))


# ---------------------------------------------------------------- interval arrays (itv)
@ispec('itv_array_alloc')
def _(c, size):
    c.allocs = c.freshret = True
    c.H('mpq')
    c.ens('block size', lambda S: Engine.BYTES(root(S.ret)) == size * ITVSZ)
    c.each('cells are initialised to zero', 0, size, lambda S, k: ieq(I(S, el(S.nm(root(S.ret)), k)), (ZERO, ZERO)),
           lambda S, k: [INF(el(S.nm(root(S.ret)), k)), SUP(el(S.nm(root(S.ret)), k))])


@ispec('itv_array_free')
def _(c, a, size):
    pass


# ---------------------------------------------------------------- representation
@bspec('box_alloc')
def _(c, i, r):
    c.allocs = c.freshret = True
    c.H('ptr'), c.H('unsigned long')
    c.ens('empty box', lambda S: RBox(S, S.ret).empty)
    c.ens('dimensions', lambda S: z3.And(RBox(S, S.ret).i == i, RBox(S, S.ret).r == r))


@bspec('box_init')
def _(c, a):
    c.allocs = True
    c.bounds = True
    A = Box(c, a, False)
    c.req(A.empty, 'no array yet')
    c.H('mpq')
    c.mod('ptr', PB(a))
    c.ens('array allocated', lambda S: (lambda R: z3.And(R.p == el(R.o, 0), R.o >= c.n0, R.o != root(a), Engine.BYTES(R.o) == (A.nb + 1) * ITVSZ))(RBox(S, a)))
    c.each('cells are initialised to zero', 0, A.nb + 1, lambda S, k: ieq(RBox(S, a).cell(k), (ZERO, ZERO)), cpats(lambda S: RBox(S, a)))


@bspec('box_set_bottom')
def _(c, a):
    A = Box(c, a, False)
    c.set('ptr', PB(a), null, 'empty box')


@bspec('box_set_top')
def _(c, a):
    c.allocs = True
    c.bounds = True
    A = Box(c, a, False)
    c.region('ptr', lambda p: p == PB(a), [root(a)])
    A.region()
    c.ens('array', lambda S: (lambda R: z3.And(R.p == el(R.o, 0), z3.If(A.empty, R.o >= c.n0, R.p == A.p), Engine.BYTES(R.o) == (A.nb + 1) * ITVSZ))(RBox(S, a)))
    c.each('every interval is the universe', 0, A.nb, lambda S, k: ieq(RBox(S, a).cell(k), TOP), cpats(lambda S: RBox(S, a)))


@bspec('box_set')
def _(c, a, b):
    c.allocs = True
    c.bounds = True
    A, B = Box(c, a, False), Box(c, b, False)
    c.req(z3.And(A.i == B.i, A.r == B.r), 'same dimensions')
    struct_written(c, a, z3.Not(B.empty))
    A.region(z3.Not(B.empty))
    c.ens('unchanged when the source is empty', lambda S: z3.Or(z3.Not(B.empty), S.at('ptr', PB(a)) == A.p))
    c.ens('array', lambda S: (lambda R: z3.Or(B.empty, z3.And(R.p == el(R.o, 0), z3.If(A.empty, R.o >= c.n0, R.p == A.p), Engine.BYTES(R.o) == (A.nb + 1) * ITVSZ)))(RBox(S, a)))
    c.each('copy', 0, A.nb, lambda S, k: z3.Or(B.empty, ieq(RBox(S, a).cell(k), B.pre(k))), cpats(lambda S: RBox(S, a)))


@bspec('box_copy')
def _(c, man, a):
    c.allocs = c.freshret = True
    c.bounds = True
    A = Box(c, a, False)
    flags(c, man, True, True)
    wfres(c, (A.i, A.r))
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    cells(c, 'copy', A.nb, lambda v, k, S: ieq(v, A.pre(k)))


@bspec('box_free')
def _(c, man, a):
    A = Box(c, a, False)
    c.mod('ptr', PB(a))


@bspec('box_bottom')
def _(c, man, i, r):
    c.allocs = c.freshret = True
    flags(c, man, True, True)
    wfres(c, (i, r))
    c.ens('empty', lambda S: RBox(S, S.ret).empty)


@bspec('box_top')
def _(c, man, i, r):
    c.allocs = c.freshret = True
    c.bounds = True
    flags(c, man, True, True)
    wfres(c, (i, r))
    c.H('mpq')
    c.ens('not empty', lambda S: z3.Not(RBox(S, S.ret).empty))
    cells(c, 'every interval is the universe', i + r, lambda v, k, S: ieq(v, TOP))


@bspec('box_minimize', 'box_canonicalize')
def _(c, man, a):
    flags(c, man, True, True)


@bspec('box_is_bottom')
def _(c, man, a):
    A = Box(c, a)
    flags(c, man, True, True)
    c.returns(A.empty)


@bspec('box_is_top')
def _(c, man, a):
    c.bounds = True
    A = Box(c, a)
    flags(c, man, True, True)
    c.each('true only if every interval is the universe', 0, A.nb, lambda S, k: z3.Implies(to_bool(S.ret), z3.And(z3.Not(A.empty), ieq(A.pre(k), TOP))),
           lambda S, k: [INF(el(A.o, k)), SUP(el(A.o, k))])
    c.ens('empty is not the universe', lambda S: z3.Or(z3.Not(A.empty), z3.Not(to_bool(S.ret))))
    c.ens('false only if some interval is not the universe', lambda S: z3.Or(to_bool(S.ret), A.empty, exists_int(0, A.nb, lambda k: z3.Not(ieq(A.pre(k), TOP)),
          lambda k: [INF(el(A.o, k))])))


def prepats(c, *Bs):
    def f(S, k):
        out = []
        for A in Bs:
            out += [INF(el(A.o, k)), SUP(el(A.o, k))]
        return out
    return f


@bspec('box_is_leq', 'box_is_eq')
def _(c, man, a, b):
    c.bounds = True
    A, B = Box(c, a), Box(c, b)
    c.req(z3.And(A.i == B.i, A.r == B.r), 'same dimensions')
    flags(c, man, True, True)
    rel = ile if c.name == 'box_is_leq' else ieq
    yes = A.empty if c.name == 'box_is_leq' else z3.And(A.empty, B.empty)
    some = z3.Or(A.empty, B.empty)
    c.ens('empty operands', lambda S: z3.Implies(some, to_bool(S.ret) == yes))
    c.each('true only if it holds in every dimension', 0, A.nb, lambda S, k: z3.Or(some, z3.Not(to_bool(S.ret)), rel(A.pre(k), B.pre(k))), prepats(c, A, B))
    c.ens('false only if it fails in some dimension', lambda S: z3.Or(some, to_bool(S.ret), exists_int(0, A.nb, lambda k: z3.Not(rel(A.pre(k), B.pre(k))),
          lambda k: [INF(el(A.o, k))])))


@bspec('box_is_dimension_unconstrained')
def _(c, man, a, dim):
    c.bounds = True
    A = Box(c, a)
    c.req(dim < A.nb, 'dimension in range')
    flags(c, man, None, None)
    c.returns(z3.And(z3.Not(A.empty), ieq(A.pre(dim), TOP)))


@bspec('box_dimension')
def _(c, man, a):
    A = Box(c, a, False)
    c.ens('dimensions', lambda S: z3.And(S.ret.d['intdim'] == A.i, S.ret.d['realdim'] == A.r))


# ---------------------------------------------------------------- lattice
def two(c, man, destructive, a1, a2):
    c.allocs = True
    c.bounds = True
    d = to_bool(destructive)
    A, B = Box(c, a1), Box(c, a2)
    c.req(z3.And(A.i == B.i, A.r == B.r), 'same dimensions')
    result(c, d, a1)
    struct_written(c, a1, d)
    A.region(d)
    wfres(c, (A.i, A.r), destr=d, o=A.o)
    return d, A, B


def imeet(v, w):
    return bmin(v[0], w[0]), bmin(v[1], w[1])


def ijoin(v, w):
    return bmax(v[0], w[0]), bmax(v[1], w[1])


@bspec('box_meet')
def _(c, man, destructive, a1, a2):
    d, A, B = two(c, man, destructive, a1, a2)
    m, ip = workspace(c, man, A, B)
    scratch(c, ip, 'canonicalize_num')
    flags(c, man, True, True)
    cells(c, 'every interval is the non-empty intersection', A.nb, lambda v, k, S: z3.And(ieq(v, imeet(A.pre(k), B.pre(k))), inne(v)))
    c.ens('empty when an operand is', lambda S: z3.Implies(z3.Or(A.empty, B.empty), RBox(S, S.ret).empty))
    c.ens('empty only when an operand or some intersection is', lambda S: z3.Or(z3.Not(RBox(S, S.ret).empty), A.empty, B.empty,
          exists_int(0, A.nb, lambda k: iempty(imeet(A.pre(k), B.pre(k))), lambda k: [INF(el(A.o, k))])))


@bspec('box_join')
def _(c, man, destructive, a1, a2):
    d, A, B = two(c, man, destructive, a1, a2)
    flags(c, man, True, z3.Or(A.empty != B.empty))
    c.ens('empty iff both operands are', lambda S: RBox(S, S.ret).empty == z3.And(A.empty, B.empty))
    cells(c, 'every interval is the smallest enclosing interval', A.nb, lambda v, k, S: z3.And(
        ieq(v, tuple(z3.If(A.empty, y, z3.If(B.empty, x, z)) for x, y, z in zip(A.pre(k), B.pre(k), ijoin(A.pre(k), B.pre(k))))), inne(v)))


@bspec('box_widening')
def _(c, man, a1, a2):
    c.allocs = c.freshret = True
    c.bounds = True
    A, B = Box(c, a1), Box(c, a2)
    c.req(z3.And(A.i == B.i, A.r == B.r), 'same dimensions')
    c.req(z3.Or(A.empty, z3.Not(B.empty)), 'the first operand is included in the second one')
    flags(c, man, True, True)
    wfres(c, (A.i, A.r))
    c.ens('empty iff both operands are', lambda S: RBox(S, S.ret).empty == z3.And(A.empty, B.empty))
    cells(c, 'stable bounds kept, unstable bounds removed', A.nb, lambda v, k, S: z3.And(
        ieq(v, tuple(z3.If(A.empty, y, bwiden(x, y)) for x, y in zip(A.pre(k), B.pre(k)))), inne(v)))


@bspec('box_closure')
def _(c, man, destructive, a):
    c.allocs = True
    d = to_bool(destructive)
    A = Box(c, a)
    result(c, d, a)
    flags(c, man, True, True)
    wfres(c, (A.i, A.r), destr=d, o=A.o)
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    cells(c, 'unchanged', A.nb, lambda v, k, S: ieq(v, A.pre(k)))


# ---------------------------------------------------------------- dimensions
from spec_dim import Change, Perm, Dims


def one(c, man, destructive, a, dims=False):
    c.allocs = True
    c.bounds = True
    d = to_bool(destructive)
    A = Box(c, a)
    result(c, d, a)
    return d, A


@bspec('box_add_dimensions')
def _(c, man, destructive, a, dch, project):
    d, A = one(c, man, destructive, a)
    C = Change(c, dch)
    C.req_add(A.nb)
    N = C.rank(True, A.nb)
    C.invs(True)
    pr = to_bool(project)
    struct_written(c, a, d, True)
    A.region(d, A.nb + 1)
    flags(c, man, True, True)
    wfres(c, (A.i + C.i, A.r + C.r), destr=d, o=A.o)
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    new = lambda v: ieq(v, tuple(z3.If(pr, ZERO, t) for t in TOP))
    g = lambda S: RBox(S, S.ret)
    c.each('old dimensions keep their interval at their shifted position', 0, A.nb,
           lambda S, k: z3.Or(g(S).empty, ieq(g(S).cell(k + N(k)), A.pre(k))),
           # (inside the body an array cell must not trigger: cells move when the block is reallocated)
           lambda S, k: [N(k)] + ([INF(el(A.o, k))] if c.mode == 'call' else []))
    c.each('new dimensions are unconstrained (or zero when projecting)', 0, C.m,
           lambda S, k: z3.Or(g(S).empty, new(g(S).cell(C.D(k) + k))), lambda S, k: [el(C.o, k)])


@bspec('box_remove_dimensions')
def _(c, man, destructive, a, dch):
    d, A = one(c, man, destructive, a)
    C = Change(c, dch)
    C.req_remove(A.nb)
    c.req(z3.And(C.i <= A.i, C.r <= A.r), 'no more dimensions of a kind are removed than there are')
    N = C.rank(False, A.nb)
    C.invs(False)
    struct_written(c, a, d, True)
    A.region(d, A.nb + 1)
    flags(c, man, True, True)
    wfres(c, (A.i - C.i, A.r - C.r), destr=d, o=A.o)
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    g = lambda S: RBox(S, S.ret)
    # (in place, a cell of the result must not trigger: the body mentions another cell of the same array)
    c.each('kept dimensions keep their interval', 0, A.nb - C.m, lambda S, k: z3.Or(g(S).empty, ieq(g(S).cell(k), A.pre(k + N(k)))),
           lambda S, k: [N(k)] + ([g(S).cell(k)[0], g(S).cell(k)[1]] if c.mode == 'call' else []))


@bspec('box_permute_dimensions')
def _(c, man, destructive, a, perm):
    c.allocs = True
    c.bounds = True
    d = to_bool(destructive)
    A = Box(c, a)
    P = Perm(c, perm)
    c.req(P.n == A.nb, 'permutation of the dimensions')
    P.req_perm()
    struct_written(c, a, d)
    A.region(d)
    flags(c, man, True, True)
    wfres(c, (A.i, A.r), destr=d, o=A.o)
    c.ens('the operand is left alone unless destructive', lambda S: z3.Or(d, root(S.ret) >= c.n0))
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    g = lambda S: RBox(S, S.ret)
    c.each('dimension k becomes dimension perm(k)', 0, A.nb, lambda S, k: z3.Or(g(S).empty, ieq(g(S).cell(P.D(k)), A.pre(k))), lambda S, k: [el(P.o, k)])


@bspec('box_forget_array')
def _(c, man, destructive, a, tdim, size, project):
    d, A = one(c, man, destructive, a)
    T = Dims(c, tdim, size)
    c.req(forall_int('k', 0, size, lambda k: z3.And(T.at(k) >= 0, T.at(k) < A.nb), lambda k: [el(T.o, k)]), 'dimensions in range')
    member = z3.Function('forgotten!%d' % fresh('x', Int).get_id(), Int, z3.BoolSort())
    k_ = z3.Int('k')
    c.st.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < size), member(T.at(k_))), patterns=[el(T.o, k_)]))
    pr = to_bool(project)
    A.region(d)
    flags(c, man, True, True)
    wfres(c, (A.i, A.r), destr=d, o=A.o)
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    g = lambda S: RBox(S, S.ret)
    c.each('forgotten dimensions are unconstrained (or zero when projecting)', 0, size,
           lambda S, k: z3.Or(g(S).empty, ieq(g(S).cell(T.at(k)), tuple(z3.If(pr, ZERO, t) for t in TOP))), lambda S, k: [el(T.o, k)])
    cells(c, 'other dimensions are unchanged', A.nb, lambda v, k, S: z3.Or(member(k), ieq(v, A.pre(k))))


@bspec('box_expand')
def _(c, man, destructive, a, dim, n):
    d, A = one(c, man, destructive, a)
    c.req(dim < A.nb, 'dimension in range')
    struct_written(c, a, d, True)
    A.region(d, A.nb + 1)
    flags(c, man, True, True)
    isint = dim < A.i
    off = z3.If(isint, A.i, A.nb)
    wfres(c, (A.i + z3.If(isint, n, 0), A.r + z3.If(isint, 0, n)), destr=d, o=A.o)
    c.ens('empty iff the operand is', lambda S: RBox(S, S.ret).empty == A.empty)
    cells(c, 'copies of the dimension are inserted after those of its kind', A.nb + n, lambda v, k, S: ieq(v, tuple(
        z3.If(k < off, x, z3.If(k < off + n, y, z)) for x, y, z in zip(A.pre(k), A.pre(dim), A.pre(k - n)))))
