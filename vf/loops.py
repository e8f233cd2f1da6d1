"""Loops: invariants are conjunctions selected (Houdini) from candidate families; the families talk about
the contract's own postconditions, frames and simple relations between the loop's variables, never about
variable names, so that a renamed, reordered or re-shaped loop still verifies."""
import z3, time, os
import smt
from smt import Ptr, Int, Bool, Bnd, el, fp, root, tidx, null, isnum, is_app
from engine import fresh, to_bool, to_int, zand, zor, znot, Rec, Str, Func, hsort, Obl, sel
from cast import Unsupported
from contract import View, forall_int, name_term


TRACEC = bool(os.environ.get('VF_CAND'))


def assigned(E, nodes):
    ids = set()

    def target(x):
        while x['kind'] in ('ParenExpr',):
            x = x['inner'][0]
        if x['kind'] == 'DeclRefExpr':
            ids.add((E.tu.src, x['referencedDecl']['id']))

    def w(n):
        k = n.get('kind')
        if k == 'BinaryOperator' and n['opcode'] == '=':
            target(n['inner'][0])
        elif k == 'CompoundAssignOperator':
            target(n['inner'][0])
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            target(n['inner'][0])
        for c in n.get('inner', []):
            if c:
                w(c)
    for n in nodes:
        if n:
            w(n)
    return ids


def guards(cond):
    """comparison nodes of the loop condition"""
    out = []

    def w(n):
        if n.get('kind') == 'BinaryOperator' and n['opcode'] in ('<', '<=', '>', '>=', '!='):
            out.append(n)
        for c in n.get('inner', []):
            if c:
                w(c)
    if cond:
        w(cond)
    return out


def try_unroll(E, st, cond, inc, body, post, limit=10):
    """exact unrolling while the condition is a literal"""
    if cond is None:
        return None
    probe = E.ev(st.copy(), cond) if not post else None
    if probe is not None:
        if len(probe) != 1:
            return None
        c = z3.simplify(to_bool(probe[0][1]))
        if z3.is_false(c):
            return [(probe[0][0], 'next', None)]
        if not z3.is_true(c):
            return None
    else:
        return None
    # is the trip count literal?  dry run of the condition only is not possible; try with a cap
    cur, outs = [st.copy()], []
    save = len(E.obls)
    for it in range(limit + 1):
        if not cur:
            return outs
        if it == limit:
            del E.obls[save:]
            return None
        nxt = []
        for s in cur:
            r = E.ev(s, cond)
            if len(r) != 1:
                del E.obls[save:]
                return None
            s, cv = r[0]
            cv = z3.simplify(to_bool(cv))
            if z3.is_false(cv):
                outs.append((s, 'next', None))
                continue
            if not z3.is_true(cv):
                del E.obls[save:]
                return None
            for s2, k, v in E.ex(s, body):
                if k in ('next', 'continue'):
                    if inc is not None:
                        for s3, _ in E.ev(s2, inc):
                            nxt.append(s3)
                    else:
                        nxt.append(s2)
                elif k == 'break':
                    outs.append((s2, 'next', None))
                else:
                    outs.append((s2, k, v))
        cur = E.merge(nxt)
    return None


class LoopCtx(object):
    """what a candidate generator may look at"""

    def __init__(self, E, entry, modregs, modheaps, roots, guards_):
        self.E, self.entry, self.modregs, self.modheaps, self.roots, self.guards = E, entry, modregs, modheaps, roots, guards_

    def regs(self, k):
        """ids of in-scope registers of a kind ('int','bool','ptr','enum')"""
        return [i for i in self.entry.regs if i in self.E.decls and i not in self.E.memlocals and self.E.decls[i][1].k == k]

    def ptrs_to(self, recname):
        """functions st -> pointer for in-scope pointers to a record type (registers and struct objects)"""
        out = []
        for i in self.entry.regs:
            if i not in self.E.decls:
                continue
            nm, ct = self.E.decls[i]
            if ct.k == 'ptr' and i not in self.E.memlocals and ct.to.k == 'rec' and ct.to.name == recname:
                out.append((nm, lambda st, i=i: st.regs[i]))
            elif i in self.E.memlocals and ct.k == 'rec' and ct.name == recname:
                out.append((nm, lambda st, i=i: st.regs[i]))
        return out


def candidates(E, c, L):
    entry = L.entry
    cs = []
    ints = L.regs('int') + L.regs('enum')
    mi = [i for i in ints if i in L.modregs]
    ei = {i: entry.regs[i] for i in ints}
    nm = lambda i: E.decls[i][0]
    # guard-derived bounds
    for g in L.guards:
        a, b = g['inner']

        def gv(st, x):
            E.silent += 1
            try:
                r = E.ev(st.copy(), x)
            finally:
                E.silent -= 1
            if len(r) != 1:
                return None
            return r[0][1]

        def mk(op, off, a=a, b=b):
            def f(st):
                va, vb = gv(st, a), gv(st, b)
                if va is None or vb is None or isinstance(va, (Str, Func)) or isinstance(vb, (Str, Func)):
                    return z3.BoolVal(True)
                if va.sort() == Ptr and vb.sort() == Ptr:
                    va, vb = smt.idx(va), smt.idx(vb)
                if va.sort() == Bool:
                    va = to_int(va)
                if vb.sort() == Bool:
                    vb = to_int(vb)
                if va.sort() != Int or vb.sort() != Int:
                    return z3.BoolVal(True)
                return va <= vb + off if op == '<=' else va >= vb - off
            return f
        for op in ('<=', '>='):
            for off in (0, 1):
                cs.append(('guard %s%d' % (op, off), mk(op, off)))
    fixed = [(nm(i), ei[i]) for i in ints if i not in L.modregs][:8]
    for i in mi:
        cs.append(('%s>=entry' % nm(i), lambda st, i=i: st.regs[i] >= ei[i]))
        cs.append(('%s<=entry' % nm(i), lambda st, i=i: st.regs[i] <= ei[i]))
        cs.append(('%s>=0' % nm(i), lambda st, i=i: st.regs[i] >= 0))
        cs.append(('%s>=-1' % nm(i), lambda st, i=i: st.regs[i] >= -1))
        for fn_, fv in fixed:
            cs.append(('%s<=%s' % (nm(i), fn_), lambda st, i=i, fv=fv: st.regs[i] <= fv))
            cs.append(('%s>=%s' % (nm(i), fn_), lambda st, i=i, fv=fv: st.regs[i] >= fv))
        for j in mi:
            if j != i:
                cs.append(('%s<=%s' % (nm(i), nm(j)), lambda st, i=i, j=j: st.regs[i] <= st.regs[j]))
                if repr(i) < repr(j):
                    cs.append(('%s~%s' % (nm(i), nm(j)), lambda st, i=i, j=j: st.regs[i] - ei[i] == st.regs[j] - ei[j]))
                    cs.append(('%s~-%s' % (nm(i), nm(j)), lambda st, i=i, j=j: st.regs[i] - ei[i] == ei[j] - st.regs[j]))
        for m in (2,):
            cs.append(('%s even step' % nm(i), lambda st, i=i: (st.regs[i] - ei[i]) % 2 == 0))
    for p in L.regs('ptr'):
        if p in L.modregs:
            e = entry.regs[p]
            cs.append(('%s same object' % nm(p), lambda st, p=p, e=e: z3.And(Ptr.is_el(st.regs[p]), st.regs[p] == Ptr.el(smt.obj(e), smt.idx(st.regs[p])))))
            cs.append(('%s unchanged' % nm(p), lambda st, p=p, e=e: st.regs[p] == e))
            cs.append(('%s fwd' % nm(p), lambda st, p=p, e=e: smt.idx(st.regs[p]) >= smt.idx(e)))
            for i in mi:
                for m in (1, 2, -1):
                    cs.append(('%s~%d*%s' % (nm(p), m, nm(i)),
                               lambda st, p=p, e=e, i=i, m=m: smt.idx(st.regs[p]) - smt.idx(e) == m * (st.regs[i] - ei[i])))
            for q in L.regs('ptr'):
                if q in L.modregs and repr(p) < repr(q):
                    eq = entry.regs[q]
                    cs.append(('%s~%s' % (nm(p), nm(q)), lambda st, p=p, q=q, e=e, eq=eq:
                               smt.idx(st.regs[p]) - smt.idx(e) == smt.idx(st.regs[q]) - smt.idx(eq)))
    for i in L.regs('bool') + L.regs('enum'):
        if i in L.modregs:
            e = entry.regs[i]
            cs.append(('%s unchanged' % nm(i), lambda st, i=i, e=e: st.regs[i] == e))
    # frames
    pv = z3.Const('?p', Ptr)
    for cls in L.modheaps:
        hE = E.heap(entry, cls)
        h0 = E.heap(c.prest, cls)

        def fr(st, cond, cls=cls, hE=hE, base=None):
            h = name_term(st, E.heap(st, cls))
            return z3.ForAll([pv], z3.Or(cond(st, pv), z3.Select(h, pv) == z3.Select(base if base is not None else hE, pv)),
                             patterns=[z3.Select(h, pv)])
        inreg = lambda p, cls=cls: [pr(p) for pr, _ in c.regions.get(cls, [])] + [p == q for q in c.mods.get(cls, [])]
        if not h0.eq(hE):
            cs.append(('frame(contract) %s' % cls, lambda st, fr=fr, inreg=inreg, h0=h0: fr(st, lambda s, p: z3.Or(*([root(p) >= c.n0] + inreg(p))), base=h0)))
        cs.append(('frame(entry,contract) %s' % cls, lambda st, fr=fr, inreg=inreg: fr(st, lambda s, p: z3.Or(*([root(p) >= c.n0] + inreg(p))))))
        roots, exact = L.roots.get(cls, ([], True))
        if exact:
            cs.append(('frame(written objects) %s' % cls,
                       lambda st, fr=fr, roots=roots: fr(st, lambda s, p: z3.Or(*([root(p) >= entry.n] + [root(p) == r for r in roots])))))
            pts = L.roots.get(('pts', cls))
            if pts is not None:
                cs.append(('frame(written cells) %s' % cls,
                           lambda st, fr=fr, pts=pts: fr(st, lambda s, p: z3.Or(*([root(p) >= entry.n] + [p == q for q in pts])))))
        for rn, r in enumerate([] if c.nocells else roots):
            for i in ints:
                for shp, pr in (('>=', lambda t, v: t < v), ('<', lambda t, v: t >= v), ('>', lambda t, v: t <= v), ('<=', lambda t, v: t > v)):
                    if i not in L.modregs and shp != '>=' and shp != '<':
                        continue
                    cs.append(('cells %s%s of object#%d untouched (%s)' % (shp, nm(i), rn, cls), lambda st, fr=fr, r=r, i=i, pr=pr:
                               fr(st, lambda s, p: z3.Not(z3.And(root(p) == r, z3.Not(pr(tidx(p), s.regs[i])))))))
            for q in L.regs('ptr'):
                if q in L.modregs:
                    cs.append(('cells >= ptr %s of object#%d untouched (%s)' % (nm(q), rn, cls), lambda st, fr=fr, r=r, q=q:
                               fr(st, lambda s, p: z3.Not(z3.And(root(p) == r, tidx(p) >= smt.idx(s.regs[q]))))))
    # the contract's range postconditions, progressed up to each integer variable
    rets = [None]
    if c.rt.k == 'ptr':
        rets = [('ret:=' + nm(i), (lambda st, i=i: st.regs[i])) for i in L.regs('ptr')
                if E.decls[i][1].to.k == c.rt.to.k and E.decls[i][1].to.name == c.rt.to.name] or [None]
    if c.rt.k in ('bool', 'int', 'enum'):
        rets = [('ret:=' + nm(i), (lambda st, i=i: st.regs[i])) for i in L.regs(c.rt.k)]
        rets += [('ret:=%d' % x, (lambda st, x=x: z3.BoolVal(bool(x)) if c.rt.k == 'bool' else z3.IntVal(x))) for x in (1, 0)]
    if c.resok is not None and c.rt.k == 'ptr' and rets != [None]:
        rets = [rv for rv in rets if smt.quick(entry.facts + [z3.Not(c.resok(View(E, entry, c.pre, rv[1](entry))))], 1000) == 'unsat'] or [None]
    nr = lambda fn: needs_ret(fn, View(E, entry.copy(), c.pre, None))
    for label, lo, hi, fn, pats in c.pref:
        for rv in (rets if nr(fn) else [None]):
            if rv is None and c.rt.k != 'void' and nr(fn):
                continue
            def mkf(lo_, hi_, fn=fn, pats=pats, rv=rv):
                def f(st):
                    S = View(E, st, c.pre, rv[1](st) if rv else None)
                    l = lo_(st) if callable(lo_) else lo_
                    h = hi_(st) if callable(hi_) else hi_
                    return forall_int('k', l, h, lambda k: fn(S, k), (lambda k: pats(S, k)) if pats else None)
                return f
            tag = (' ' + rv[0]) if rv else ''
            cs.append((label + ' all' + tag, mkf(lo, hi)))
            if label in c.whole:
                continue
            for i in ints:
                cs.append((label + ' k<' + nm(i) + tag, mkf(lo, lambda st, i=i: st.regs[i])))
                if i in L.modregs:
                    cs.append((label + ' k>=' + nm(i) + tag, mkf(lambda st, i=i: st.regs[i], hi)))
                    cs.append((label + ' k>' + nm(i) + tag, mkf(lambda st, i=i: st.regs[i] + 1, hi)))
            for q in L.regs('ptr'):
                if q in L.modregs:
                    e = entry.regs[q]
                    cs.append((label + ' k<ptr ' + nm(q) + tag, mkf(lo, lambda st, q=q, e=e: lo + smt.idx(st.regs[q]) - smt.idx(e))))
                    if not z3.is_int_value(z3.simplify(smt.idx(e))) or E.opts.get('absidx'):
                        cs.append((label + ' k<at ptr ' + nm(q) + tag, mkf(lo, lambda st, q=q: smt.idx(st.regs[q]))))
    for gen in c.invs:
        cs += gen(L)
    return cs


def needs_ret(fn, view):
    """does a postcondition mention the returned value?"""
    try:
        fn(_Probe(view), z3.Int('k'))
        return False
    except NeedsRet:
        return True


class NeedsRet(Exception):
    pass


class _Probe(object):
    """a view of a state whose returned value cannot be read"""

    def __init__(self, view):
        self._view = view

    @property
    def ret(self):
        raise NeedsRet()

    def __getattr__(self, a):
        return getattr(self._view, a)

    def B(self, p):
        return self._view.B(p)


def subst_free(t, havoc_ids):
    """does term t mention one of the havocked constants?"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.get_id() in havoc_ids:
            return False
        stack.extend(x.children())
    return True


RLIM0 = RLIM = int(os.environ.get('VF_RLIM', '150000'))


def early(x, entry):
    """candidates of the first phase: quantifier-free, and not resting on quantified ones (label ends in 'later')"""
    return not x[0].endswith(' later') and not z3.is_quantifier(x[1](entry.copy()))


def important(lab):
    return lab.endswith(' all') or lab.endswith(' later') or lab.startswith('frame(')


_HC = {}


def heapconsts(t):
    """array-sorted constants of a term (memoised)"""
    k = t.get_id()
    if k in _HC and _HC[k][0].eq(t):
        return _HC[k][1]
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        if x.num_args() == 0 and isinstance(x, z3.ArrayRef):
            out.add(x.get_id())
            _HN[x.get_id()] = 'mpq' in x.decl().name()
        stack.extend(x.children())
    if len(_HC) > 20000:
        _HC.clear()
    _HC[k] = (t, out)
    return out


_HQ = {}


def has_q(t):
    """does the term contain a quantifier? (memoised)"""
    k = t.get_id()
    if k in _HQ and _HQ[k][0].eq(t):
        return _HQ[k][1]
    r = z3.is_quantifier(t) or any(has_q(c) for c in t.children())
    if len(_HQ) > 50000:
        _HQ.clear()
    _HQ[k] = (t, r)
    return r


_HN = {}


def numheap(t):
    """does the term mention the heap of numbers?"""
    for c in heapconsts(t):
        if c in _HN and _HN[c]:
            return True
    return False


def relevant(facts, goal, hops=0):
    """the facts about the heaps the goal mentions: through definitions, and through `hops` quantified facts
    (dropping facts is sound, and keeps what happened in earlier loops out of the solver's way)"""
    hs = set(heapconsts(goal))
    defs = [f for f in facts if z3.is_eq(f) and isinstance(f.arg(0), z3.ArrayRef) and f.arg(0).num_args() == 0]
    quant = [f for f in facts if z3.is_quantifier(f)]

    def close():
        more = True
        while more:
            more = False
            for f in defs:
                if f.arg(0).get_id() in hs and not heapconsts(f.arg(1)) <= hs:
                    hs.update(heapconsts(f.arg(1)))
                    more = True
    close()
    for _ in range(hops):
        new = set()
        for f in quant:
            k = heapconsts(f)
            if k & hs:
                new |= k
        hs |= new
        close()
    return [f for f in facts if not heapconsts(f) or (heapconsts(f) & hs if z3.is_quantifier(f) else heapconsts(f) <= hs)]


def check_all(facts, cands, st, timeout=1500, rlimit=None, ground=False):
    """-> the candidates of cands that hold in st given facts (one incremental solver);
    ground: quantifier-free candidates have to follow from the ground facts"""
    gs = [f(st) for lab, f in cands]    # may add definitions to the state's facts

    def new(f=1):
        s = smt.mk_solver(timeout * f)
        if rlimit or RLIM:
            s.set('rlimit', (rlimit or RLIM) * f)
        s.add(*smt.AXIOMS)
        s.add(*st.facts)
        return s
    s = new()
    sg = None
    ok, bad = [], []
    t0 = time.time()
    for (lab, f), g in zip(cands, gs):
        if z3.is_true(g):
            ok.append((lab, f))
            continue
        if ground and not has_q(g) and not numheap(g):
            if sg is None:
                sg = smt.mk_solver(timeout)
                sg.add(*[f_ for f_ in st.facts if not has_q(f_) and not numheap(f_)])
            sg.push()
            sg.add(z3.Not(g))
            t1_ = time.time()
            r = sg.check()
            sg.pop()
            smt.STATS['queries'] += 1
            if TRACEC:
                print('      ground %-70s %s %.2f' % (lab[:70], r, time.time() - t1_), flush=True)
            (ok if r == z3.unsat else bad).append((lab, f))
            continue
        s.push()
        s.add(z3.Not(g))
        t1_ = time.time()
        r = s.check()
        if TRACEC:
            print('      cand %-70s %s %.2f %s' % (lab[:70], r, time.time() - t1_, s.reason_unknown() if r == z3.unknown else ''), flush=True)
        s.pop()
        smt.STATS['queries'] += 1
        if r == z3.unknown and 'cancel' in s.reason_unknown():
            # what the solver learnt on earlier candidates can be in the way
            t1_ = time.time()
            if important(lab):
                def filtered(hops, f_):
                    fs = relevant(st.facts, g, hops)
                    t1_ = time.time()
                    s2 = smt.mk_solver(timeout * f_)
                    s2.set('rlimit', (rlimit or RLIM) * f_)
                    s2.add(*smt.AXIOMS)
                    s2.add(*fs)
                    s2.add(z3.Not(g))
                    r = s2.check()
                    if TRACEC:
                        print('      filtered%d %d/%d %-70s %s %.2f %s' % (hops, len(fs), len(st.facts), lab[:70], r, time.time() - t1_, s2.reason_unknown() if r == z3.unknown else ''), flush=True)
                    return r
                r = filtered(0, 4)
                if r != z3.unsat:
                    s2 = smt.pre_solver(timeout * 4)
                    s2.set('rlimit', (rlimit or RLIM) * 60)
                    s2.add(*smt.AXIOMS)
                    s2.add(*st.facts)
                    s2.add(z3.Not(g))
                    r = s2.check()
                    if TRACEC:
                        print('      presolve %-70s %s %.2f %s' % (lab[:70], r, time.time() - t1_, s2.reason_unknown() if r == z3.unknown else ''), flush=True)
                    t1_ = time.time()
                if r != z3.unsat:
                    r = filtered(1, 12)
                t1_ = time.time()
            if r != z3.unsat:
                s2 = new(60 if important(lab) else 1)
                s2.push()
                s2.add(z3.Not(g))
                r = s2.check()
                s2.pop()
            if TRACEC:
                print('      again %-70s %s %.2f %s' % (lab[:70], r, time.time() - t1_, s2.reason_unknown() if r == z3.unknown else ''), flush=True)
            s = new()
        (ok if r == z3.unsat else bad).append((lab, f))
    smt.STATS['time'] += time.time() - t0
    return ok, bad


def run_loop(E, st, n, cond, inc, body, post):
    r = try_unroll(E, st.copy(), cond, inc, body, post)
    if r is not None:
        return r
    c = E.ctx
    entry = st
    nodes = [x for x in (cond, inc, body) if x]
    modregs = {i for i in assigned(E, nodes) if i in st.regs and i not in E.memlocals}
    modheaps = set()
    key = n.get('id')

    def head(cands, guess=False):
        h = entry.copy()
        hav = set()
        labs = {x[0] for x in cands}
        for i in modregs:
            nmv, ct = E.decls[i]
            e = entry.regs[i]
            if ct.k == 'ptr' and not isinstance(e, (Rec, Str, Func)) and not e.eq(null) and (guess or ('%s same object' % nmv) in labs):
                x = fresh(nmv + '_i', Int)
                hav.add(x.get_id())
                h.regs[i] = el(smt.obj(e), x)
                continue
            v = fresh(nmv, entry.regs[i].sort()) if not isinstance(entry.regs[i], (Rec, Str, Func)) else None
            if v is None:
                continue
            h.regs[i] = v
            hav.add(v.get_id())
        n1 = fresh('n', Int)
        h.assume(n1 >= entry.n)
        h.n = n1
        hav.add(n1.get_id())
        for i in modregs:
            E.typefact(h, h.regs[i], E.decls[i][1])
        for cls in modheaps:
            hh = fresh('HL_' + cls.replace(' ', '_'), E.heap(entry, cls).sort())
            h.heaps[cls] = hh
            hav.add(hh.get_id())
        for lab, f in cands:
            g = f(h)
            h.assume(g)
        return h, hav

    # discovery of the heaps written and of the (loop-invariant) objects written to
    # (a guess: it only feeds the candidates; Houdini below re-checks which heaps change)
    def changed(h, backs):
        w = set()
        # only what reaches the loop head again is forgotten there
        for s in backs:
            for cls in s.heaps:
                if cls in h.heaps and not s.heaps[cls].eq(h.heaps[cls]):
                    w.add(cls)
                elif cls not in h.heaps and not s.heaps[cls].eq(E.heap(entry, cls)):
                    w.add(cls)
        return w

    E.silent += 1
    saved = E.writes
    disc = getattr(E, 'discover', 0)
    E.discover = disc + 1
    try:
        for _ in range(6):
            h, hav = head([], True)
            E.writes = []
            backs, exits = E.nested(h.copy(), cond, inc, body, post)
            wcls = changed(h, backs)
            if wcls <= modheaps:
                break
            modheaps |= wcls
        writes = list(E.writes)
    finally:
        E.writes = saved
        E.silent -= 1
        E.discover = disc
    if E.writes is not None:
        E.writes.extend(writes)
    if disc:
        return exits
    roots = {}
    for cls in modheaps:
        rs, exact, pts = [], True, []
        for w in writes:
            if w[0] != cls:
                continue
            if isinstance(w[1], tuple):
                if w[1][1] is None:
                    exact = False
                    continue
                ts = list(w[1][1])
                pts = None
            else:
                ts = [root(w[1])]
                if pts is not None:
                    if subst_free(w[1], hav):
                        if not any(w[1].eq(x) for x in pts):
                            pts.append(w[1])
                    elif z3.is_add(ts[0]) and False:
                        pass
                    else:
                        # fresh objects allocated inside the loop are covered by the root test
                        pts = None
            for t in ts:
                if subst_free(t, hav):
                    if not any(t.eq(x) for x in rs):
                        rs.append(t)
                elif is_local_alloc(t, h.n):
                    pass
                else:
                    # a pointer read from memory the loop writes: as it was on entry, if it does not change (checked)
                    t2 = z3.substitute(t, *[(h.heaps[k], E.heap(entry, k)) for k in modheaps if k in h.heaps])
                    if not t2.eq(t) and subst_free(t2, hav):
                        if not any(t2.eq(x) for x in rs):
                            rs.append(t2)
                    else:
                        exact = False
        roots[cls] = (rs, exact)
        if pts is not None:
            roots[('pts', cls)] = pts
    L = LoopCtx(E, entry, modregs, modheaps, roots, guards(cond))
    L.n = n
    cands = candidates(E, c, L)
    parent = getattr(E, 'inst', ())
    inst = parent + ((key, len(E.cstack), entry.ghost.get('path', '')),)
    ckey = inst if parent else None
    prev = E.houdini_cache.get(ckey) if ckey else None
    every = {x[0] for x in cands}
    if prev is not None:
        # candidates that were not generated then (the loop was thought not to write there) are new
        cands = [x for x in cands if x[0] in prev[0] or x[0] not in prev[1]]
    total = len(cands)
    qonly = getattr(E, 'qfonly', False)
    if qonly:
        cands = [x for x in cands if early(x, entry)]
    cands, bad = check_all(entry.facts, cands, entry, ground=E.opts.get('ground'))
    nrounds = [0]

    def fix(cands, sure):
        while True:
            nrounds[0] += 1
            E.check_time()
            h, hav = head(cands)
            E.silent += 1
            saved = E.writes
            E.writes = None
            E.inst = inst
            h.ghost['path'] = ''
            try:
                backs, exits = E.nested(h.copy(), cond, inc, body, post)
            finally:
                E.silent -= 1
                E.writes = saved
                E.inst = parent
            dropped = False
            more = changed(h, backs) - modheaps
            if more:
                raise Unsupported('loop writes %s on a path the discovery pass missed' % sorted(more))
            for b in backs:
                todo = [x for x in cands if x[0] not in sure]
                ok, bad = check_all(b.facts, todo, b, ground=E.opts.get('ground'))
                if bad:
                    dropped = True
                    gone = {x[0] for x in bad}
                    if TRACEC:
                        print('   DROP depth%d line%s: %s' % (len(parent), (n.get('range') or {}).get('begin', {}).get('line') or n.get('loc'), sorted(gone)), flush=True)
                    cands = [x for x in cands if x[0] not in gone]
            if not dropped:
                return cands, exits
    # quantifier-free candidates first; what they establish prunes the rest
    qf = [x for x in cands if early(x, entry)]
    sure = set()
    if len(qf) < len(cands):
        before = dict(E.houdini_cache)
        E.qfonly = True
        try:
            A, _ = fix(qf, sure)
        finally:
            E.qfonly = qonly
        sure = {x[0] for x in A}
        E.houdini_cache = before
    cands, exits = fix(cands, sure)
    rounds = nrounds[0]
    if ckey:
        E.houdini_cache[ckey] = ({x[0] for x in cands}, every | (prev[1] if prev else set()))
    if E.verbose and not E.silent:
        print('   loop: %d of %d candidates kept after %d rounds: %s' % (len(cands), total, rounds, [x[0] for x in cands]), flush=True)
    if not E.silent:
        for lab, f in cands:
            E.obls.append(Obl(E.fn, 'loop invariant established and preserved: ' + lab, 'proved', 'z3-5.3.2', 0.0))
        # the obligations inside the body, under the surviving invariant
        h, hav = head(cands)
        saved = E.writes
        E.writes = None
        E.inst = inst
        h.ghost['path'] = ''
        try:
            backs, exits = E.nested(h, cond, inc, body, post)
        finally:
            E.writes = saved
            E.inst = parent
    for s, k, v in exits:
        s.ghost['path'] = entry.ghost.get('path', '') + '.' + s.ghost.get('path', '')
    return exits


def is_local_alloc(t, n):
    """t is (head n) + const : an object allocated inside this iteration"""
    if t.eq(n):
        return True
    return z3.is_add(t) and t.num_args() == 2 and t.arg(0).eq(n) and isnum(t.arg(1))
