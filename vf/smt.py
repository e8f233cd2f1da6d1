"""Sorts, axioms and the solver portfolio."""
import z3, subprocess, time, os, tempfile, re

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# pointers: array/object cells, embedded fields, embedded array cells
_P = z3.Datatype('Ptr')
_P.declare('null')
_P.declare('pel', ('obj', Int), ('idx', Int))
_P.declare('pfld', ('fpar', _P), ('fld', Int))
_P.declare('parr', ('apar', _P), ('afld', Int), ('aix', Int))
Ptr = _P.create()
Ptr.el, Ptr.fp, Ptr.fa = Ptr.pel, Ptr.pfld, Ptr.parr
Ptr.is_el, Ptr.is_fp, Ptr.is_fa = Ptr.is_pel, Ptr.is_pfld, Ptr.is_parr

# extended rationals
_B = z3.Datatype('Bnd')
_B.declare('ninf')
_B.declare('fin', ('val', Real))
_B.declare('pinf')
Bnd = _B.create()

null = Ptr.null
_root = z3.Function('root', Ptr, Int)
_tidx = z3.Function('tidx', Ptr, Int)


def mkint(i):
    return z3.IntVal(i)


def is_app(t, decl):
    return z3.is_app(t) and t.decl().eq(decl)


def el(o, i):
    if isinstance(o, int):
        o = z3.IntVal(o)
    if isinstance(i, int):
        i = z3.IntVal(i)
    return Ptr.el(o, i)


def fp(p, f):
    return Ptr.fp(p, z3.IntVal(f) if isinstance(f, int) else f)


def root(p):
    while is_app(p, Ptr.fp) or is_app(p, Ptr.fa):
        p = p.arg(0)
    if is_app(p, Ptr.el):
        return p.arg(0)
    return _root(p)


def tidx(p):
    while is_app(p, Ptr.fp) or is_app(p, Ptr.fa):
        p = p.arg(0)
    if is_app(p, Ptr.el):
        return p.arg(1)
    return _tidx(p)


def obj(p):
    if is_app(p, Ptr.el):
        return p.arg(0)
    return Ptr.obj(p)


def idx(p):
    if is_app(p, Ptr.el):
        return p.arg(1)
    return Ptr.idx(p)


def isnum(t, v=None):
    return z3.is_int_value(t) and (v is None or t.as_long() == v)


def add(a, b):
    if isnum(a) and isnum(b):
        return z3.IntVal(a.as_long() + b.as_long())
    if isnum(a, 0):
        return b
    if isnum(b, 0):
        return a
    # (x + c) + d
    if isnum(b) and z3.is_add(a) and a.num_args() == 2 and isnum(a.arg(1)):
        return add(a.arg(0), z3.IntVal(a.arg(1).as_long() + b.as_long()))
    return a + b


def padd(p, k):
    if isinstance(k, int):
        k = z3.IntVal(k)
    if isnum(k, 0):
        return p
    if is_app(p, Ptr.fa):
        return Ptr.fa(p.arg(0), p.arg(1), add(p.arg(2), k))
    return Ptr.el(obj(p), add(idx(p), k))


_o, _i, _f, _q = z3.Int('?o'), z3.Int('?i'), z3.Int('?f'), z3.Const('?q', Ptr)
AXIOMS = [
    z3.ForAll([_o, _i], z3.And(_root(Ptr.el(_o, _i)) == _o, _tidx(Ptr.el(_o, _i)) == _i), patterns=[Ptr.el(_o, _i)]),
    z3.ForAll([_q, _f], z3.And(_root(Ptr.fp(_q, _f)) == _root(_q), _tidx(Ptr.fp(_q, _f)) == _tidx(_q)), patterns=[Ptr.fp(_q, _f)]),
    z3.ForAll([_q, _f, _i], z3.And(_root(Ptr.fa(_q, _f, _i)) == _root(_q), _tidx(Ptr.fa(_q, _f, _i)) == _tidx(_q)), patterns=[Ptr.fa(_q, _f, _i)]),
    _root(Ptr.null) == -1,
]

# ---------------------------------------------------------------- extended reals
def fin(r):
    return Bnd.fin(r)


def is_fin(b):
    return Bnd.is_fin(b)


def bval(b):
    if is_app(b, Bnd.fin):
        return b.arg(0)
    return Bnd.val(b)


pinf, ninf = Bnd.pinf, Bnd.ninf


def is_pinf(b):
    return Bnd.is_pinf(b)


def is_ninf(b):
    return Bnd.is_ninf(b)


def ble(a, b):
    return z3.Or(is_ninf(a), is_pinf(b), z3.And(is_fin(a), is_fin(b), bval(a) <= bval(b)))


def blt(a, b):
    return z3.Not(ble(b, a))


def bsgn(b):
    """sign as Int"""
    return z3.If(is_pinf(b), 1, z3.If(is_ninf(b), -1, z3.If(bval(b) > 0, 1, z3.If(bval(b) < 0, -1, 0))))


def rsgn(r):
    return z3.If(r > 0, 1, z3.If(r < 0, -1, 0))


def isgn(r):
    return z3.If(r > 0, 1, z3.If(r < 0, -1, 0))


def bneg(b):
    return z3.If(is_pinf(b), ninf, z3.If(is_ninf(b), pinf, fin(-bval(b))))


def binf(sgn):
    return z3.If(sgn > 0, pinf, ninf)


def badd(b, c):
    """the library's addition: the left infinity wins"""
    return z3.If(z3.Not(is_fin(b)), b, z3.If(z3.Not(is_fin(c)), c, fin(bval(b) + bval(c))))


def bsub(b, c):
    return z3.If(z3.Not(is_fin(b)), b, z3.If(z3.Not(is_fin(c)), bneg(c), fin(bval(b) - bval(c))))


def bmin(a, b):
    return z3.If(ble(a, b), a, b)


def bmax(a, b):
    return z3.If(ble(b, a), a, b)


def below(x, b):
    """real x <= b"""
    return z3.Or(is_pinf(b), z3.And(is_fin(b), x <= bval(b)))


def simp(t):
    return z3.simplify(t)


# ---------------------------------------------------------------- solving
STATS = {'z3': 0, 'cvc5': 0, 'time': 0.0, 'queries': 0}


def mk_solver(timeout_ms, mbqi=False, seed=0, extra=None):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    s.set('smt.solve_eqs', False)
    s.set('timeout', int(timeout_ms))
    if seed:
        s.set('smt.random_seed', seed)
    for k, v in (extra or {}).items():
        s.set(k, v)
    return s


def pre_solver(timeout_ms):
    """equations solved before the search starts"""
    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
    s.set('mbqi', False)
    s.set('auto_config', False)
    s.set('timeout', int(timeout_ms))
    return s


def quick(facts, timeout_ms=400):
    """'unsat' / 'sat' / 'unknown' for a set of facts"""
    s = mk_solver(timeout_ms)
    s.add(*AXIOMS)
    s.add(*facts)
    t = time.time()
    r = str(s.check())
    STATS['time'] += time.time() - t
    STATS['queries'] += 1
    return r


_FIX = re.compile(r'\(\(as const')


def to_smt2(facts):
    s = z3.Solver()
    s.add(*AXIOMS)
    s.add(*facts)
    return '(set-logic ALL)\n' + s.to_smt2()


def cvc5_check(text, timeout_s, opts=()):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout_s * 1000)] + list(opts) + [f.name],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout_s + 5)
        out = p.stdout.decode().strip().split('\n')[0]
        return out if out in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


def prove(facts, goal, t1=8000, t2=15, effort=1):
    """-> (status, backend, seconds); status 'unsat' means proved."""
    t0 = time.time()
    goal = z3.simplify(goal, elim_and=False, arith_lhs=False, sort_sums=False) if z3.is_app(goal) and goal.num_args() else goal
    fs = list(facts) + [z3.Not(goal)]
    STATS['queries'] += 1
    s = mk_solver(min(t1, 4000))
    s.add(*AXIOMS)
    s.add(*fs)
    r = str(s.check())
    be = 'z3-5.3.2'
    reason = ''
    if r != 'unsat':
        reason = s.reason_unknown() if r == 'unknown' else 'model'
        if r == 'unknown' and 'incomplete' in reason and effort < 2:
            pass
        if r == 'unknown' and effort >= 1 and 'incomplete' not in reason:
            for seed in (7, 23):
                s2 = mk_solver(t1, seed=seed, extra={'smt.arith.solver': 2} if seed == 7 else None)
                s2.add(*AXIOMS)
                s2.add(*fs)
                r2 = str(s2.check())
                if r2 == 'unsat':
                    r = r2
                    break
        if r != 'unsat' and r != 'sat' and effort >= 1:
            txt = to_smt2(fs)
            r2 = cvc5_check(txt, t2)
            if r2 == 'unsat':
                r, be = 'unsat', 'cvc5-1.1.2'
    dt = time.time() - t0
    STATS['time'] += dt
    return r, be, dt, reason


# x^1 and x|1 as linear terms over x/2
_XOR = {}


def half(t):
    t = z3.simplify(t)
    r = _XOR.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[2]
    return z3.simplify(t / 2)


def xor1(t):
    t = z3.simplify(t)
    r = _XOR.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    h = half(t)
    x = z3.simplify(4 * h + 1 - t)
    if len(_XOR) > 100000:
        _XOR.clear()
    if not z3.is_int_value(x):
        _XOR[x.get_id()] = (x, t, h)
    return x


def or1(t):
    return z3.simplify(2 * half(t) + 1)
