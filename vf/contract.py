"""Contracts: preconditions, frames (modifies), postconditions; applied at call sites, proved on bodies."""
import z3
import smt
from smt import Ptr, Int, Bool, el, fp, root, tidx, null
from cast import Unsupported
from engine import sel, fresh, zand, zor, znot, to_bool, to_int, fid, hsort, Rec, State, is_app

SPECS = {}
TRUSTED = {}


def spec(*names, **kw):
    def d(f):
        for n in names:
            SPECS[n] = f
            f.trusted = kw.get('trusted', False)
            if f.trusted:
                TRUSTED[n] = (f.__doc__ or '').strip()
        return f
    return d


class View(object):
    """A state seen by a specification."""

    def __init__(self, E, st, pre, ret=None):
        self.E, self.st, self.pre, self.ret = E, st, pre, ret

    def H(self, cls):
        return self.E.heap(self.st, cls)

    def at(self, cls, p):
        return sel(self.H(cls), p)

    def old(self, cls, p):
        return sel(self.pre.H(cls), p)

    def nm(self, t):
        return name_term(self.st, t)


def name_term(st, t):
    """a constant equal to t (so that patterns do not contain array stores or conditionals)"""
    if z3.is_const(t) or z3.is_int_value(t):
        return t
    k = 'nm:%d' % t.get_id()
    if k not in st.ghost:
        v = fresh('nm', t.sort())
        st.ghost[k] = (v, t)
        st.assume(v == t)
    return st.ghost[k][0]


def forall_int(name, lo, hi, body, pats=None):
    k = z3.Int(name)
    b = body(k)
    if lo is not None and hi is not None:
        b = z3.Implies(z3.And(lo <= k, k < hi), b)
    elif lo is not None:
        b = z3.Implies(lo <= k, b)
    elif hi is not None:
        b = z3.Implies(k < hi, b)
    if z3.is_true(z3.simplify(b)):
        return z3.BoolVal(True)
    if pats:
        ps = pats(k)
        return z3.ForAll([k], b, patterns=ps)
    return z3.ForAll([k], b)


class Ctx(object):
    def __init__(self, E, name, mode, st, rt):
        self.E, self.name, self.mode, self.rt = E, name, mode, rt
        self.st = st
        self.mods = {}       # cls -> list of pointers
        self.regions = {}    # cls -> list of (pred, roots)
        self.vals = []       # (cls, ptr, value, label)
        self.enss = []       # (label, fn(View))
        self.pref = []       # range postconditions (label, lo, hi, fn(View,k))
        self.invs = []       # custom invariant generators
        self.allocs = False
        self.retval = None
        self.freshret = False
        self.resok = None
        self.bounds = False
        self.may_abort = False
        self.noreturn = False
        self.whole = set()
        self.nocells = False
        self.rlim = None     # solver effort per loop-invariant candidate
        self.ghosts = {}
        self.cases = [z3.BoolVal(True)]
        pre = State()
        pre.regs, pre.heaps, pre.facts, pre.n = {}, {}, [], st.n
        self.prest = pre
        if mode == 'call':
            pre.heaps = dict(st.heaps)
        self.n0 = st.n
        self.pre = View(E, self if False else pre, None)
        self.pre.pre = self.pre

    # -- views of the pre-state
    def H(self, cls):
        h = self.E.heap(self.prest, cls)
        self.st.heaps.setdefault(cls, h)
        return h

    def at(self, cls, p):
        self.H(cls)
        return sel(self.H(cls), p)

    def nm(self, t):
        return name_term(self.st, t)

    def load(self, p, ct):
        v = self.E.load(self.st, p, ct)
        return v

    def ptrat(self, p):
        v = self.at('ptr', p)
        if not (is_app(v, Ptr.el) or is_app(v, Ptr.fp)):
            k = v.get_id()
            if k not in self.st.seen:
                self.st.seen.add(k)
                self.st.assume(root(v) < self.n0)
        return v

    # -- clauses
    def req(self, cond, label='precondition'):
        if self.mode == 'call':
            self.E.oblige(self.st, cond, 'precondition of %s: %s' % (self.name, label))
        else:
            self.st.assume(cond)

    def assume(self, cond):
        """type invariants of the memory model (never checked): e.g. unsigned values are non-negative"""
        self.st.assume(cond)

    def nonnull(self, *ps):
        for p in ps:
            self.req(p != null if not (is_app(p, Ptr.el) or is_app(p, Ptr.fp)) else z3.BoolVal(True), 'non-null argument')

    def mod(self, cls, *ps):
        self.H(cls)
        self.mods.setdefault(cls, []).extend(ps)

    def set(self, cls, p, val, label=None):
        self.mod(cls, p)
        self.vals.append((cls, p, val, label or 'value written'))

    def region(self, cls, pred, roots=None):
        self.H(cls)
        self.regions.setdefault(cls, []).append((pred, roots))

    def ens(self, label, fn):
        self.enss.append((label, fn))

    def each(self, label, lo, hi, fn, pats=None, whole=False):
        """forall k in [lo,hi): fn(S,k) after the call (whole: loops keep it for the whole range, not for a part of it)"""
        self.pref.append((label, lo, hi, fn, pats))
        if whole:
            self.whole.add(label)
        self.enss.append((label, lambda S: forall_int('k', lo, hi, lambda k: fn(S, k), (lambda k: pats(S, k)) if pats else None)))

    def returns(self, v):
        self.retval = v

    def inv(self, gen):
        self.invs.append(gen)

    # -- at a call site
    def run_call(self, vs):
        E, st = self.E, self.st
        f = E.specs[self.name]
        f(self, *vs)
        if self.noreturn:
            return []
        new = {}
        if self.allocs:
            n1 = fresh('n', Int)
            st.assume(n1 >= st.n)
            st.n = n1
        for cls in set(self.mods) | set(self.regions):
            h = self.H(cls)
            if cls in self.regions or self.allocs:
                h2 = fresh('H_' + cls.replace(' ', '_'), h.sort())
                p = z3.Const('?p', Ptr)
                inreg = [pred(p) for pred, _ in self.regions.get(cls, [])] + [p == q for q in self.mods.get(cls, [])]
                if self.allocs:
                    inreg.append(root(p) >= self.n0)
                st.assume(z3.ForAll([p], z3.Or(*(inreg + [z3.Select(h2, p) == z3.Select(h, p)])), patterns=[z3.Select(h2, p)]))
                new[cls] = h2
                if E.writes is not None:
                    for q in self.mods.get(cls, []):
                        E.writes.append((cls, q))
                    for pred, roots in self.regions.get(cls, []):
                        E.writes.append((cls, ('roots', roots)))
            else:
                vals = {}
                for q in self.mods[cls]:
                    v = [x for c, y, x, _ in self.vals if c == cls and y is q]
                    w = v[0] if v else fresh('w', hsort(cls))
                    vals[q.get_id()] = w
                    h = z3.Store(h, q, w)
                    if E.writes is not None:
                        E.writes.append((cls, q))
                new[cls] = h
        for cls, h in new.items():
            st.heaps[cls] = h
        if self.allocs:
            # fresh memory may have been initialised in any class the callee touches
            for cls in list(st.heaps):
                if cls not in new:
                    h = st.heaps[cls]
                    h2 = fresh('H_' + cls.replace(' ', '_'), h.sort())
                    p = z3.Const('?p', Ptr)
                    st.assume(z3.ForAll([p], z3.Or(root(p) >= self.n0, z3.Select(h2, p) == z3.Select(h, p)), patterns=[z3.Select(h2, p)]))
                    st.heaps[cls] = h2
        rv = None
        if self.rt.k != 'void':
            if self.retval is not None:
                rv = self.retval
            elif self.freshret:
                o = fresh('obj', Int)
                st.assume(z3.And(o >= self.n0, o < st.n))
                rv = el(o, 0)
            else:
                rv = E.fresh_of(st, 'r_' + self.name, self.rt)
        S = View(E, st, self.pre, rv)
        multi = {}
        for cls, p, val, label in self.vals:
            multi[cls] = multi.get(cls, 0) + 1
        for cls, p, val, label in self.vals:
            if cls in self.regions or self.allocs or multi[cls] > 1 or len(self.mods[cls]) > 1:
                st.assume(S.at(cls, p) == val)
        for label, fn in self.enss:
            st.assume(fn(S))
        return [(st, rv)]

    # -- on the body
    def run_verify(self, tu, f):
        E, st = self.E, self.st
        vs = []
        from cast import CT
        for did, nm, q in f['params']:
            ct = tu.ty(q)
            if ct.k == 'arr':
                ct = CT('ptr', to=ct.to)
            v = E.fresh_of(st, nm or 'arg', ct)
            vs.append(v)
        self.vs = vs
        spec_ = E.specs[self.name]
        spec_(self, *vs)
        import loops
        loops.RLIM = self.rlim or loops.RLIM0
        for cls in list(st.heaps):
            E.heap(self.prest, cls)
        for (did, nm, q), v in zip(f['params'], vs):
            E.bind_param(st, tu, did, nm, q, v)
        # vacuity guard: the precondition must be satisfiable as far as the solver can tell
        self.cover = smt.quick(st.facts, 3000)
        self.reached = False
        rt = self.rt
        for case in self.cases:      # (together they are exhaustive, see below)
            st1 = st.copy()
            st1.assume(case)
            for s, k, v in E.ex(st1, f['body']):
                if k == 'goto':
                    raise Unsupported('unresolved goto')
                self.check_exit(s, v, rt)
        if len(self.cases) > 1:
            E.oblige(st, z3.Or(*self.cases), 'the cases considered are exhaustive')

    def check_exit(self, s, v, rt):
        E = self.E
        if rt.k != 'void' and v is not None:
            v = E.coerce(v, rt)
        S = View(E, s, self.pre, v)
        if not self.reached:
            self.reached = smt.quick(s.facts, 1000) != 'unsat'
        if self.noreturn:
            E.oblige(s, z3.BoolVal(False), 'does not return')
            return
        if rt.k != 'void' and self.retval is not None:
            rv = self.retval
            if rv.sort() == Bool or (v.sort() == Bool):
                E.oblige(s, to_bool(v) == to_bool(rv), 'result')
            else:
                E.oblige(s, v == rv, 'result')
        if self.freshret:
            E.oblige(s, z3.And(root(v) >= self.n0, Ptr.is_el(v), Ptr.idx(v) == 0), 'result is a fresh object')
        for cls, p, val, label in self.vals:
            E.oblige(s, S.at(cls, p) == val, label)
        for label, fn in self.enss:
            E.oblige(s, fn(S), label)
        for cls, h in list(s.heaps.items()):
            h0 = E.heap(self.prest, cls)
            if h.eq(h0):
                continue
            if not self.allocs:
                pass
            p = fresh('anyp', Ptr)
            inreg = [pred(p) for pred, _ in self.regions.get(cls, [])] + [p == q for q in self.mods.get(cls, [])]
            E.oblige(s, z3.Or(*([root(p) >= self.n0] + inreg + [sel(h, p) == sel(h0, p)])), 'frame: only the declared %s cells change' % cls)
