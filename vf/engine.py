"""Verification-condition generator: forward symbolic execution of clang's AST, loops cut by
inductive invariants (Houdini over candidate families), calls replaced by contracts."""
import z3, time, os
from cast import Unsupported, CT
import smt
from smt import Ptr, Bnd, null, el, fp, root, tidx, padd, add, isnum, is_app, Int, Bool, Real


class Rec(object):
    """A struct value: field path tuple -> scalar value."""

    def __init__(self, d, ct):
        self.d, self.ct = d, ct


class Func(object):
    def __init__(self, name):
        self.name = name


class Str(object):
    pass


_FLD = {}
_FLDN = []


def fid(recname, field):
    key = (recname, field)
    if key not in _FLD:
        _FLD[key] = len(_FLDN)
        _FLDN.append(key)
    return _FLD[key]


_ctr = [0]


def fresh(name, sort):
    _ctr[0] += 1
    return z3.Const('%s!%d' % (name, _ctr[0]), sort)


class State(object):
    __slots__ = ('regs', 'heaps', 'facts', 'n', 'seen', 'ghost')

    def __init__(self):
        self.regs, self.heaps, self.facts, self.n, self.seen, self.ghost = {}, {}, [], None, set(), {}

    def copy(self):
        s = State()
        s.regs, s.heaps, s.facts, s.n = dict(self.regs), dict(self.heaps), list(self.facts), self.n
        s.seen, s.ghost = set(self.seen), dict(self.ghost)
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        self.facts.append(f)


SORT = {'ptr': Ptr, '_Bool': Bool, 'flt': Bnd, 'mpq': Bnd, 'mpz': Int, 'mpfr': Bnd}


def hsort(cls):
    return SORT.get(cls, Int)


def distinct_syn(a, b):
    """syntactically certain that pointers a and b differ"""
    if not (z3.is_app(a) and z3.is_app(b)):
        return False
    da, db = a.decl(), b.decl()
    ctors = (Ptr.el, Ptr.fp, Ptr.fa)
    ia = [i for i, c in enumerate(ctors) if da.eq(c)]
    ib = [i for i, c in enumerate(ctors) if db.eq(c)]
    if not ia or not ib:
        return False
    if ia != ib:
        return True
    if ia[0] == 0:
        return int_distinct(a.arg(0), b.arg(0)) or (a.arg(0).eq(b.arg(0)) and int_distinct(a.arg(1), b.arg(1)))
    if ia[0] == 1:
        return int_distinct(a.arg(1), b.arg(1)) or (a.arg(1).eq(b.arg(1)) and distinct_syn(a.arg(0), b.arg(0)))
    return int_distinct(a.arg(1), b.arg(1)) or distinct_syn(a.arg(0), b.arg(0)) or \
        (a.arg(0).eq(b.arg(0)) and int_distinct(a.arg(2), b.arg(2)))


def _base_off(t):
    if isnum(t):
        return None, t.as_long()
    if z3.is_add(t) and t.num_args() == 2 and isnum(t.arg(1)):
        return t.arg(0), t.arg(1).as_long()
    return t, 0


def int_distinct(x, y):
    bx, ox = _base_off(x)
    by, oy = _base_off(y)
    if bx is None and by is None:
        return ox != oy
    if bx is None or by is None:
        return False
    return bx.eq(by) and ox != oy


def sel(h, p):
    while z3.is_store(h):
        q = h.arg(1)
        if q.eq(p):
            return h.arg(2)
        if distinct_syn(q, p):
            h = h.arg(0)
            continue
        break
    return z3.Select(h, p)


def to_bool(v):
    if isinstance(v, (Str, Func)):
        return z3.BoolVal(True)
    s = v.sort()
    if s == Bool:
        return v
    if s == Int:
        if isnum(v):
            return z3.BoolVal(v.as_long() != 0)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and isnum(v.arg(1), 1) and isnum(v.arg(2), 0):
            return v.arg(0)
        return v != 0
    if s == Ptr:
        if v.eq(null):
            return z3.BoolVal(False)
        if is_app(v, Ptr.el) or is_app(v, Ptr.fp) or is_app(v, Ptr.fa):
            return z3.BoolVal(True)
        return v != null
    if s == Bnd:
        return v != smt.fin(z3.RealVal(0))
    raise Unsupported('bool of %s' % s)


def to_int(v):
    if v.sort() == Bool:
        if z3.is_true(v):
            return z3.IntVal(1)
        if z3.is_false(v):
            return z3.IntVal(0)
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def zand(*fs):
    out = []
    for f in fs:
        if z3.is_false(f):
            return z3.BoolVal(False)
        if not z3.is_true(f):
            out.append(f)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*fs):
    out = []
    for f in fs:
        if z3.is_true(f):
            return z3.BoolVal(True)
        if not z3.is_false(f):
            out.append(f)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(f):
    if z3.is_true(f):
        return z3.BoolVal(False)
    if z3.is_false(f):
        return z3.BoolVal(True)
    if z3.is_not(f):
        return f.arg(0)
    return z3.Not(f)


UFBAND = z3.Function('band', Int, Int, Int)
UFBOR = z3.Function('bor', Int, Int, Int)
UFBXOR = z3.Function('bxor', Int, Int, Int)
UFF = {op: z3.Function('flt_' + nm, Bnd, Bnd, Bnd) for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div'))}
UFFI = z3.Function('flt_to_int', Bnd, Int)
MPSZ = z3.Function('mpsz', Int, Int)
QNSZ = z3.Function('qnsz', Bnd, Int)
QDSZ = z3.Function('qdsz', Bnd, Int)
SZ = z3.Function('sz', Int, Int)     # number of cells of an allocated array object


class Obl(object):
    def __init__(self, fn, label, status, backend, secs, reason='', path=''):
        self.fn, self.label, self.status, self.backend, self.secs = fn, label, status, backend, secs
        self.reason, self.path = reason, path

    def todict(self):
        return dict(function=self.fn, label=self.label, status=self.status, backend=self.backend,
                    seconds=round(self.secs, 3), reason=self.reason, path=self.path)


class Timeout(Exception):
    pass


class SpecError(Exception):
    pass


class Engine(object):
    def __init__(self, tus, specs, mode, fn, budget=300, verbose=False, opts=None):
        self.tus = tus                  # list of TU, main first
        self.specs = specs              # name -> spec function
        self.mode = mode                # dict of leaf record names -> class
        self.leafs = mode
        self.fn = fn
        self.obls = []
        self.silent = 0
        self.depth = 0
        self.decls = {}                 # decl id -> (name, CT, tu)
        self.stack = []
        self.deadline = time.time() + budget
        self.verbose = verbose
        self.inlined = set()
        self.called = set()
        self.trusted = set()
        self.opts = opts or {}
        self.loopinfo = {}
        self.writes = None
        self.trail = []
        self.cur_off = None
        self.ctx = None
        self.memlocals = {}
        self.globs = {}
        self.houdini_cache = {}

    # ------------------------------------------------------------ utilities
    @property
    def tu(self):
        return self.stack[-1]

    def check_time(self):
        if time.time() > self.deadline:
            raise Timeout()

    def cls(self, ct):
        if ct.k == 'bool':
            return '_Bool'
        if ct.k == 'int':
            return ct.name
        if ct.k == 'enum':
            return 'enum'
        if ct.k == 'ptr':
            return 'ptr'
        if ct.k == 'float':
            return 'flt'
        if ct.k == 'rec' and ct.name in self.leafs:
            return self.leafs[ct.name]
        if ct.k == 'arr' and ct.n == 1:
            return self.cls(ct.to)
        return None

    def rec(self, ct):
        key = ct.rec
        for t in [self.tu] + self.tus:
            if key is not None and key in t.records:
                return t.records[key], t
            if ct.name in t.recname:
                return t.records[t.recname[ct.name]], t
        raise Unsupported('record %r' % ct)

    def recname(self, ct):
        return ct.name if ct.name and 'unnamed' not in ct.name else 'anon'

    def heap(self, st, cls):
        if cls not in st.heaps:
            h = z3.Const('H0_' + cls.replace(' ', '_'), z3.ArraySort(Ptr, hsort(cls)))
            st.heaps[cls] = h
        return st.heaps[cls]

    def typefact(self, st, v, ct):
        if ct.k == 'int' and not ct.signed and v.sort() == Int and not isnum(v):
            st.assume(v >= 0)
        elif ct.k == 'enum' and v.sort() == Int and not isnum(v):
            st.assume(v >= 0)
        elif ct.k == 'ptr' and v.sort() == Ptr and not (is_app(v, Ptr.el) or is_app(v, Ptr.fp)):
            k = v.get_id()
            if k not in st.seen:
                st.seen.add(k)
                st.assume(root(v) < st.n)

    def load(self, st, p, ct):
        c = self.cls(ct)
        if c is None:
            if ct.k == 'rec':
                return self.load_rec(st, p, ct)
            if ct.k == 'arr':
                return p
            if ct.k == 'func':
                return p
            raise Unsupported('load %r' % ct)
        v = sel(self.heap(st, c), p)
        ct2 = ct.to if ct.k == 'arr' else ct
        self.typefact(st, v, ct2)
        return v

    def fields(self, ct):
        r, t = self.rec(ct)
        return [(nm, t.ty(q, rid)) for nm, q, rid in r['fields']]

    def fieldptr(self, p, ct, nm):
        return fp(p, fid(self.recname(ct), nm))

    def load_rec(self, st, p, ct):
        d = {}
        for nm, ft in self.fields(ct):
            q = self.fieldptr(p, ct, nm)
            if ft.k == 'arr' and ft.n != 1:
                raise Unsupported('struct copy with array field')
            if ft.k == 'arr':
                ft = ft.to
            v = self.load(st, q, ft)
            d[nm] = v
        return Rec(d, ct)

    def store(self, st, p, ct, v):
        if isinstance(v, Rec):
            for nm, ft in self.fields(ct):
                if ft.k == 'arr':
                    ft = ft.to
                self.store(st, self.fieldptr(p, ct, nm), ft, v.d[nm])
            return
        c = self.cls(ct)
        if c is None:
            raise Unsupported('store %r' % ct)
        v = self.coerce(v, ct)
        h = self.heap(st, c)
        st.heaps[c] = z3.Store(h, p, v)
        if self.writes is not None:
            self.writes.append((c, p))

    def coerce(self, v, ct):
        if isinstance(v, Rec):
            return v
        if isinstance(v, (Str, Func)):
            if ct.k == 'ptr':
                return fresh('strptr', Ptr)
            return v
        if ct.k == 'arr' and ct.n == 1:
            ct = ct.to
        s = v.sort()
        if ct.k == 'bool':
            return to_bool(v)
        if ct.k in ('int', 'enum'):
            if s == Bool:
                return to_int(v)
            return v
        if ct.k == 'ptr':
            if s == Int:
                if isnum(v, 0):
                    return null
                raise Unsupported('int to pointer')
            return v
        if ct.k == 'float' and s == Int:
            return smt.fin(z3.ToReal(v))
        return v

    def fresh_of(self, st, name, ct):
        c = self.cls(ct)
        if c is None:
            if ct.k == 'rec':
                return Rec({nm: self.fresh_of(st, name + '_' + nm, ft) for nm, ft in self.fields(ct)}, ct)
            if ct.k == 'void':
                return None
            raise Unsupported('fresh %r' % ct)
        v = fresh(name, hsort(c))
        self.typefact(st, v, ct.to if ct.k == 'arr' else ct)
        return v

    def alloc_obj(self, st, n=None):
        o = st.n
        st.n = add(st.n, z3.IntVal(1))
        if n is not None:
            st.assume(SZ(o) == n)
        return o

    def feasible(self, st, extra=None):
        self.check_time()
        fs = st.facts + ([extra] if extra is not None else [])
        if self.opts.get('qffeas'):
            # ground facts only: deciding feasibility more coarsely keeps every feasible path
            fs = [f for f in fs if not z3.is_quantifier(f)]
        return smt.quick(fs, 300) != 'unsat'

    def oblige(self, st, goal, label):
        if z3.is_true(goal):
            if not self.silent:
                self.obls.append(Obl(self.fn, label, 'proved', 'simplifier', 0.0))
            return
        if self.silent:
            st.assume(goal)
            return
        self.check_time()
        if self.opts.get('nofail_twice') and any(o.label == label and o.status != 'proved' for o in self.obls):
            st.assume(goal)
            return
        left = self.deadline - time.time()
        r, be, dt, reason = smt.prove(st.facts, goal, t1=int(min(8000, left * 1000)), t2=max(1, min(self.opts.get('t2', 12), left)))
        ok = r == 'unsat'
        self.obls.append(Obl(self.fn, label, 'proved' if ok else ('failed' if r == 'sat' else 'unproved'), be, dt,
                             reason, ' > '.join(self.trail[-8:])))
        if self.verbose:
            print('   [%s] %s %s %.2fs %s' % ('ok' if ok else 'FAIL', label, be, dt, reason), flush=True)
            if not ok and os.environ.get('VF_DUMP'):
                open(os.environ['VF_DUMP'], 'w').write(smt.to_smt2(st.facts + [z3.Not(goal)]))
        st.assume(goal)

    # ------------------------------------------------------------ expressions
    def ty(self, n):
        t = n['type']
        return self.tu.ty(t['qualType'])

    def pure_lr(self, st0, st1):
        return st1.regs == st0.regs and st1.n is st0.n and \
            all(k in st0.heaps and v is st0.heaps[k] or (k not in st0.heaps) for k, v in st1.heaps.items()) and \
            len(st1.heaps) >= len(st0.heaps)

    def same_state(self, a, b):
        if a.n is not b.n and not a.n.eq(b.n):
            return False
        if set(a.regs) != set(b.regs):
            return False
        for k, v in a.regs.items():
            w = b.regs[k]
            if v is w:
                continue
            if isinstance(v, Rec) or isinstance(w, Rec):
                return False
            if not v.eq(w):
                return False
        for k in set(a.heaps) | set(b.heaps):
            va = self.heap(a, k)
            vb = self.heap(b, k)
            if va is not vb and not va.eq(vb):
                return False
        return True

    def ev(self, st, n):
        """-> list of (state, value)"""
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'])
        if 'off' in n:
            self.cur_off = n['off']
        return m(st, n)

    def ev1(self, st, n):
        r = self.ev(st, n)
        if len(r) != 1:
            raise Unsupported('forking where a single value is needed')
        return r[0]

    def e_ParenExpr(self, st, n):
        return self.ev(st, n['inner'][0])

    def e_ConstantExpr(self, st, n):
        if 'value' in n and n['value'].lstrip('-').isdigit():
            return [(st, z3.IntVal(int(n['value'])))]
        return self.ev(st, n['inner'][0])

    def e_IntegerLiteral(self, st, n):
        return [(st, z3.IntVal(int(n['value'])))]

    def e_CharacterLiteral(self, st, n):
        return [(st, z3.IntVal(int(n['value'])))]

    def e_FloatingLiteral(self, st, n):
        from fractions import Fraction
        v = n['value']
        try:
            if len(v) > 60:
                raise ValueError
            f = Fraction(v) if abs(float(v)) < 1e300 else None
        except ValueError:
            f = None
        if f is None:
            return [(st, fresh('flit', Bnd))]
        return [(st, smt.fin(z3.Q(f.numerator, f.denominator)))]

    def e_StringLiteral(self, st, n):
        return [(st, Str())]

    def e_PredefinedExpr(self, st, n):
        return [(st, Str())]

    def e_ImplicitValueInitExpr(self, st, n):
        return [(st, self.zero(self.ty(n)))]

    def zero(self, ct):
        if ct.k in ('int', 'enum'):
            return z3.IntVal(0)
        if ct.k == 'bool':
            return z3.BoolVal(False)
        if ct.k == 'ptr':
            return null
        if ct.k == 'float':
            return smt.fin(z3.RealVal(0))
        if ct.k == 'rec':
            return Rec({nm: self.zero(ft) for nm, ft in self.fields(ct)}, ct)
        raise Unsupported('zero of %r' % ct)

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        if 'argType' in n:
            t = self.tu.ty(n['argType']['qualType'])
        else:
            t = self.ty(n['inner'][0])
        return [(st, z3.IntVal(self.sizeof(t)[0]))]

    def sizeof(self, t):
        """(size, align) on x86-64"""
        if t.k == 'bool':
            return 1, 1
        if t.k == 'int':
            return t.bits // 8, t.bits // 8
        if t.k == 'enum':
            return 4, 4
        if t.k == 'ptr':
            return 8, 8
        if t.k == 'float':
            return {'float': (4, 4), 'double': (8, 8), 'long double': (16, 16)}[t.name]
        if t.k == 'arr':
            s, a = self.sizeof(t.to)
            return s * (t.n or 0), a
        if t.k == 'void':
            return 1, 1
        if t.k == 'rec':
            r, tu = self.rec(t)
            off, al = 0, 1
            for nm, q, rid in r['fields']:
                s, a = self.sizeof(tu.ty(q, rid))
                al = max(al, a)
                if r['tag'] == 'union':
                    off = max(off, s)
                else:
                    off = (off + a - 1) // a * a + s
            return (off + al - 1) // al * al, al
        raise Unsupported('sizeof %r' % t)

    def e_DeclRefExpr(self, st, n):
        r = n['referencedDecl']
        k = r['kind']
        if k == 'EnumConstantDecl':
            for t in [self.tu] + self.tus:
                if r['id'] in t.enums:
                    return [(st, z3.IntVal(t.enums[r['id']]))]
            for t in [self.tu] + self.tus:
                if r['name'] in t.enumnames:
                    return [(st, z3.IntVal(t.enumnames[r['name']]))]
            raise Unsupported('enum ' + r['name'])
        if k == 'FunctionDecl':
            return [(st, Func(r['name']))]
        (st, lv), = self.lv(st, n)
        return [(st, self.rd(st, lv))]

    # lvalues: ('reg', id, ct) | ('mem', ptr, ct) | ('leaf', ptr, cls, path, ct) | ('val', value, ct)
    def rd(self, st, lv):
        if lv[0] == 'reg':
            return st.regs[lv[1]]
        if lv[0] == 'mem':
            return self.load(st, lv[1], lv[2])
        if lv[0] == 'val':
            return lv[1]
        if lv[0] == 'leaf':
            return self.leafread(st, lv)
        raise Unsupported('rd')

    def leafread(self, st, lv):
        _, p, c, path, ct = lv
        if c == 'mpz' and path == ('_mp_size',):
            v = None
            fq, fd = fid('__mpq_struct', '_mp_num'), fid('__mpq_struct', '_mp_den')
            if '__mpq_struct' in self.leafs and is_app(p, Ptr.fp) and isnum(p.arg(1)) and p.arg(1).as_long() in (fq, fd):
                return self.leafread(st, ('leaf', p.arg(0), 'mpq',
                                          ('_mp_num' if p.arg(1).as_long() == fq else '_mp_den', '_mp_size'), ct))
            v = sel(self.heap(st, 'mpz'), p)
            r = MPSZ(v)
            st.assume(z3.And((r > 0) == (v > 0), (r < 0) == (v < 0)))
            return r
        if c == 'mpq' and path == ('_mp_num', '_mp_size'):
            v = sel(self.heap(st, 'mpq'), p)
            r = QNSZ(v)
            s = smt.bsgn(v)
            st.assume(z3.And((r > 0) == (s > 0), (r < 0) == (s < 0)))
            return r
        if c == 'mpq' and path == ('_mp_den', '_mp_size'):
            v = sel(self.heap(st, 'mpq'), p)
            r = QDSZ(v)
            st.assume(z3.And(r >= 0, (r > 0) == smt.is_fin(v)))
            return r
        raise Unsupported('leaf access %s %s' % (c, path))

    def wr(self, st, lv, v):
        if lv[0] == 'reg':
            st.regs[lv[1]] = self.coerce(v, lv[2])
        elif lv[0] == 'mem':
            self.store(st, lv[1], lv[2], v)
        else:
            raise Unsupported('write to %s' % lv[0])

    def lv(self, st, n):
        """-> list of (state, lvalue)"""
        k = n['kind']
        if k == 'ParenExpr':
            return self.lv(st, n['inner'][0])
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            did = (self.tu.src, r['id'])
            if did in self.memlocals and did in st.regs:
                return [(st, ('mem', st.regs[did], self.decls[did][1]))]
            if did in st.regs:
                return [(st, ('reg', did, self.decls[did][1]))]
            if r['kind'] in ('VarDecl', 'ParmVarDecl'):
                # a global
                nm = r['name']
                if nm in self.tu.constglobals:
                    gt = self.tu.ty(r['type']['qualType'])
                    return [(st, ('val', self.coerce(z3.IntVal(self.tu.constglobals[nm]), gt), gt))]
                if nm not in self.globs:
                    self.globs[nm] = -1000 - len(self.globs)
                return [(st, ('mem', el(self.globs[nm], 0), self.tu.ty(r['type']['qualType'])))]
            raise Unsupported('lvalue of ' + r['kind'])
        if k == 'MemberExpr':
            base = n['inner'][0]
            fld = None
            for t in [self.tu] + self.tus:
                if n['referencedMemberDecl'] in t.fields:
                    fld = t.fields[n['referencedMemberDecl']]
                    break
            if fld is None:
                raise Unsupported('field')
            recid, nm, q, rid = fld
            ft = t.ty(q, rid)
            rname = t.records[recid]['name']
            if rname is None:
                for tn, (tq, trid) in t.typedefs.items():
                    if trid == recid:
                        rname = tn
                        break
                else:
                    rname = 'anon'
            out = []
            if n.get('isArrow'):
                for s, v in self.ev(st, base):
                    if rname in self.leafs:
                        out.append((s, ('leaf', v, self.leafs[rname], (nm,), ft)))
                    else:
                        out.append((s, ('mem', fp(v, fid(rname, nm)), ft)))
                return out
            bk = base
            while bk['kind'] == 'ParenExpr':
                bk = bk['inner'][0]
            if bk['kind'] in ('CallExpr', 'ConditionalOperator', 'ImplicitCastExpr', 'StmtExpr', 'BinaryOperator'):
                for s, v in self.ev(st, base):
                    if not isinstance(v, Rec):
                        raise Unsupported('member of non-struct')
                    out.append((s, ('val', v.d[nm], ft)))
                return out
            for s, l in self.lv(st, base):
                if l[0] == 'leaf':
                    out.append((s, ('leaf', l[1], l[2], l[3] + (nm,), ft)))
                elif l[0] == 'mem':
                    if rname in self.leafs:
                        out.append((s, ('leaf', l[1], self.leafs[rname], (nm,), ft)))
                    else:
                        out.append((s, ('mem', fp(l[1], fid(rname, nm)), ft)))
                elif l[0] == 'val' and isinstance(l[1], Rec):
                    out.append((s, ('val', l[1].d[nm], ft)))
                else:
                    raise Unsupported('member base %s' % l[0])
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            ct = self.ty(n)
            return [(s, ('mem', v, ct)) for s, v in self.ev(st, n['inner'][0])]
        if k == 'ArraySubscriptExpr':
            ct = self.ty(n)
            out = []
            for s, b in self.ev(st, n['inner'][0]):
                for s2, i in self.ev(s, n['inner'][1]):
                    if b.sort() == Int:
                        b, i = i, b
                    i = to_int(i)
                    q = padd(b, i)
                    self.bounds(s2, q, ct)
                    out.append((s2, ('mem', q, ct)))
            return out
        if k == 'CompoundLiteralExpr':
            ct = self.ty(n)
            p = el(self.alloc_obj(st), 0)
            return [(s, ('mem', p, ct)) for s in self.init(st, p, ct, n['inner'][0])]
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'LValueToRValue'):
            return self.lv(st, n['inner'][0])
        if k in ('StringLiteral', 'PredefinedExpr'):
            return [(st, ('val', fresh('strptr', Ptr), self.ty(n)))]
        raise Unsupported('lvalue %s' % k)

    def bounds(self, st, q, ct):
        if self.ctx is not None and self.ctx.bounds and is_app(q, Ptr.el) and not self.silent:
            o, i = q.arg(0), q.arg(1)
            try:
                w = self.sizeof(ct)[0]
            except Unsupported:
                return
            self.oblige(st, z3.And(i >= 0, (i + 1) * w <= self.BYTES(o)), 'array index in bounds')

    def e_MemberExpr(self, st, n):
        return [(s, self.rd(s, l)) for s, l in self.lv(st, n)]

    def e_ArraySubscriptExpr(self, st, n):
        return [(s, self.rd(s, l)) for s, l in self.lv(st, n)]

    def e_CompoundLiteralExpr(self, st, n):
        return [(s, self.rd(s, l)) for s, l in self.lv(st, n)]

    def e_OpaqueValueExpr(self, st, n):
        return self.ev(st, n['inner'][0])

    def addr(self, lv):
        if lv[0] == 'mem':
            return lv[1]
        if lv[0] == 'leaf':
            p = lv[1]
            rn = {v: k for k, v in self.leafs.items()}[lv[2]]
            for nm in lv[3]:
                p = fp(p, fid(rn, nm))
                rn = '__mpz_struct'
            return p
        if lv[0] == 'val' and not isinstance(lv[1], Rec):
            return lv[1]
        raise Unsupported('address of %s' % lv[0])

    def e_ImplicitCastExpr(self, st, n):
        return self.cast(st, n)

    def e_CStyleCastExpr(self, st, n):
        return self.cast(st, n)

    def cast(self, st, n):
        ck = n['castKind']
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            return [(s, self.rd(s, l)) for s, l in self.lv(st, e)] if self.is_lv(e) else self.ev(st, e)
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, l in self.lv(st, e):
                at = l[4] if l[0] == 'leaf' else l[2]
                p = self.addr(l)
                if l[0] == 'mem' and at.k == 'arr' and at.n != 1 and is_app(p, Ptr.fp):
                    p = Ptr.fa(p.arg(0), p.arg(1), z3.IntVal(0))
                out.append((s, p))
            return out
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return self.ev(st, e)
        if ck == 'NullToPointer':
            return [(s, null) for s, _ in self.ev(st, e)]
        if ck == 'ToVoid':
            return [(s, None) for s, _ in self.ev(st, e)]
        if ck in ('NoOp', 'BitCast', 'LValueBitCast'):
            return self.ev(st, e)
        ct = self.ty(n)
        out = []
        for s, v in self.ev(st, e):
            if ck == 'IntegralCast':
                v = to_int(v)
                ft = self.ty(e)
                if ct.k == 'int' and not ct.signed and (ft.k == 'enum' or ft.k == 'bool' or (ft.k == 'int' and not ft.signed)):
                    pass
                elif ct.k == 'int' and not ct.signed:
                    if isnum(v):
                        v = z3.IntVal(v.as_long() % (1 << ct.bits))
                    elif not self.nonneg(v):
                        v = z3.If(v >= 0, v, v + z3.IntVal(1 << ct.bits))
                elif ct.k == 'int' and ct.signed and isnum(v):
                    x = v.as_long() % (1 << ct.bits)
                    if x >= 1 << (ct.bits - 1):
                        x -= 1 << ct.bits
                    v = z3.IntVal(x)
                out.append((s, v))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                out.append((s, to_bool(v)))
            elif ck == 'IntegralToFloating':
                out.append((s, smt.fin(z3.ToReal(to_int(v)))))
            elif ck == 'FloatingCast':
                out.append((s, v))
            elif ck == 'FloatingToIntegral':
                out.append((s, UFFI(v)))
            elif ck == 'NullToPointer':
                out.append((s, null))
            elif ck == 'IntegralToPointer':
                if isnum(to_int(v), 0):
                    out.append((s, null))
                else:
                    raise Unsupported('int to pointer cast')
            elif ck == 'PointerToIntegral':
                raise Unsupported('pointer to int cast')
            else:
                raise Unsupported('cast ' + ck)
        return out

    def nonneg(self, v):
        if isnum(v):
            return v.as_long() >= 0
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            return self.nonneg(v.arg(1)) and self.nonneg(v.arg(2))
        return False

    def is_lv(self, e):
        while e['kind'] == 'ParenExpr':
            e = e['inner'][0]
        return e['kind'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CompoundLiteralExpr') or \
            (e['kind'] == 'UnaryOperator' and e['opcode'] == '*') or \
            (e['kind'] == 'ImplicitCastExpr' and e['castKind'] in ('NoOp',))

    def e_UnaryOperator(self, st, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '&':
            x = e
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl':
                return [(st, Func(x['referencedDecl']['name']))]
            return [(s, self.addr(l)) for s, l in self.lv(st, e)]
        if op == '*':
            out = []
            for s, l in self.lv(st, n):
                if l[2].k == 'func':
                    out.append((s, l[1]))
                else:
                    out.append((s, self.rd(s, l)))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(st, e):
                v = self.rd(s, l)
                ct = l[2]
                nv = self.arith(s, '+' if op == '++' else '-', v, z3.IntVal(1), ct)
                self.wr(s, l, nv)
                out.append((s, v if n.get('isPostfix') else nv))
            return out
        out = []
        for s, v in self.ev(st, e):
            ct = self.ty(n)
            if op == '!':
                out.append((s, znot(to_bool(v))))
            elif op == '-':
                if v.sort() == Bnd:
                    out.append((s, smt.bneg(v)))
                else:
                    v = to_int(v)
                    if isnum(v):
                        out.append((s, z3.IntVal(-v.as_long()) if ct.signed else z3.IntVal((-v.as_long()) % (1 << ct.bits))))
                    elif ct.k == 'int' and not ct.signed:
                        out.append((s, z3.If(v == 0, z3.IntVal(0), z3.IntVal(1 << ct.bits) - v)))
                    else:
                        out.append((s, -v))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                v = to_int(v)
                out.append((s, -v - 1 if ct.signed else z3.IntVal((1 << ct.bits) - 1) - v))
            elif op == '__extension__':
                out.append((s, v))
            else:
                raise Unsupported('unary ' + op)
        return out

    def arith(self, st, op, a, b, ct):
        if isinstance(a, (Str, Func)) or isinstance(b, (Str, Func)):
            raise Unsupported('arith on literal')
        if a.sort() == Ptr or b.sort() == Ptr:
            if op == '+':
                if a.sort() != Ptr:
                    a, b = b, a
                return padd(a, to_int(b))
            if op == '-':
                if b.sort() == Ptr:
                    return smt.simp(smt.idx(a) - smt.idx(b))
                return padd(a, -to_int(b) if not isnum(b) else z3.IntVal(-b.as_long()))
            raise Unsupported('pointer arith')
        if a.sort() == Bnd or b.sort() == Bnd:
            if a.sort() != Bnd:
                a = smt.fin(z3.ToReal(to_int(a)))
            if b.sort() != Bnd:
                b = smt.fin(z3.ToReal(to_int(b)))
            if op == '/':
                a, b = z3.simplify(a), z3.simplify(b)
            if op == '/' and is_app(b, Bnd.fin) and z3.is_rational_value(z3.simplify(b.arg(0))) and \
                    z3.simplify(b.arg(0)).as_fraction() == 0 and is_app(a, Bnd.fin) and z3.is_rational_value(z3.simplify(a.arg(0))):
                return smt.pinf if z3.simplify(a.arg(0)).as_fraction() > 0 else smt.ninf
            if op in UFF:
                return UFF[op](a, b)
            raise Unsupported('float ' + op)
        a, b = to_int(a), to_int(b)
        uns = ct is not None and ct.k == 'int' and not ct.signed
        if isnum(a) and isnum(b):
            x, y = a.as_long(), b.as_long()
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                 '/': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if y else None,
                 '%': lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else None,
                 '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y,
                 '^': lambda: x ^ y}[op]()
            if r is not None:
                if uns:
                    r %= 1 << ct.bits
                return z3.IntVal(r)
        if op == '+':
            return add(a, b)
        if op == '-':
            r = add(a, z3.IntVal(-b.as_long())) if isnum(b) else a - b
            if uns:
                return z3.If(a >= b, r, r + z3.IntVal(1 << ct.bits)) if not self.known(st, a >= b) else r
            return r
        if op == '*':
            return a * b
        if op in ('/', '%'):
            if uns or (isnum(b) and b.as_long() > 0 and self.known(st, a >= 0)) or (isnum(b) and self.known(st, a >= 0)):
                if isnum(b, 1):
                    return a if op == '/' else z3.IntVal(0)
                return a / b if op == '/' else a % b
            absa = z3.If(a >= 0, a, -a)
            absb = z3.If(b >= 0, b, -b) if not isnum(b) else z3.IntVal(abs(b.as_long()))
            if op == '/':
                q = absa / absb
                neg = (a < 0) != (b < 0)
                return z3.If(neg, -q, q)
            m = absa % absb
            return z3.If(a >= 0, m, -m)
        if op == '<<' and isnum(b):
            return a * z3.IntVal(1 << b.as_long())
        if op == '>>' and isnum(b):
            return a / z3.IntVal(1 << b.as_long())
        if op == '^' and (isnum(b, 1) or isnum(a, 1)):
            x = a if isnum(b, 1) else b
            return smt.xor1(x)
        if op == '|' and (isnum(b, 1) or isnum(a, 1)):
            x = a if isnum(b, 1) else b
            if self.bit(x) is None:
                return smt.or1(x)
        if op == '&' and isnum(b) and b.as_long() >= 0 and (b.as_long() & (b.as_long() + 1)) == 0:
            return a % z3.IntVal(b.as_long() + 1)
        if op == '|' or op == '&':
            ba, bb = self.bit(a), self.bit(b)
            if ba is not None and bb is not None:
                return to_int(z3.Or(ba, bb) if op == '|' else z3.And(ba, bb))
            if op == '|':
                r = UFBOR(a, b)
                st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= a, r >= b, (r == 0) == z3.And(a == 0, b == 0))))
                return r
            r = UFBAND(a, b)
            st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r <= a, r <= b)))
            return r
        if op == '^':
            return UFBXOR(a, b)
        raise Unsupported('integer op ' + op)

    def bit(self, v):
        if isnum(v) and v.as_long() in (0, 1):
            return z3.BoolVal(v.as_long() == 1)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and isnum(v.arg(1), 1) and isnum(v.arg(2), 0):
            return v.arg(0)
        return None

    def known(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return smt.quick(st.facts + [z3.Not(f)], 200) == 'unsat'

    def compare(self, op, a, b):
        if isinstance(a, (Str, Func)) or isinstance(b, (Str, Func)):
            return fresh('cmpstr', Bool)
        if a.sort() == Ptr or b.sort() == Ptr:
            if a.sort() != Ptr:
                a = null
            if b.sort() != Ptr:
                b = null
            if op in ('==', '!='):
                if a.eq(b):
                    r = z3.BoolVal(True)
                elif (distinct_syn(a, b) or (a.eq(null) and z3.is_true(to_bool(b)) and not is_app(b, Ptr.null) and b.num_args() > 0 and (is_app(b, Ptr.el) or is_app(b, Ptr.fp)))
                      or (b.eq(null) and (is_app(a, Ptr.el) or is_app(a, Ptr.fp)))):
                    r = z3.BoolVal(False)
                else:
                    r = a == b
                return r if op == '==' else znot(r)
            a, b = smt.idx(a), smt.idx(b)
        if a.sort() == Bnd or b.sort() == Bnd:
            if a.sort() != Bnd:
                a = smt.fin(z3.ToReal(to_int(a)))
            if b.sort() != Bnd:
                b = smt.fin(z3.ToReal(to_int(b)))
            return {'==': lambda: a == b, '!=': lambda: a != b, '<=': lambda: smt.ble(a, b), '<': lambda: smt.blt(a, b),
                    '>=': lambda: smt.ble(b, a), '>': lambda: smt.blt(b, a)}[op]()
        if op in ('==', '!=') and a.sort() == Bool and b.sort() == Bool:
            r = a == b
            return r if op == '==' else znot(r)
        if op in ('==', '!='):
            # (c?1:0) == numeral
            for x, y in ((a, b), (b, a)):
                if x.sort() == Bool and isnum(y):
                    v = y.as_long()
                    r = x if v == 1 else znot(x) if v == 0 else z3.BoolVal(False)
                    return r if op == '==' else znot(r)
        a, b = to_int(a), to_int(b)
        if isnum(a) and isnum(b):
            x, y = a.as_long(), b.as_long()
            return z3.BoolVal({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def e_BinaryOperator(self, st, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            out = []
            ct = self.ty(l)
            # C leaves the order open; evaluate the right side first, then the place
            for s, v in self.ev(st, r):
                for s2, lv in self.lv(s, l):
                    self.wr(s2, lv, v)
                    out.append((s2, v))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, l):
                out += self.ev(s, r)
            return out
        if op in ('&&', '||'):
            return self.shortcut(st, op, l, r)
        out = []
        for s, a in self.ev(st, l):
            for s2, b in self.ev(s, r):
                if op in ('==', '!=', '<', '<=', '>', '>='):
                    out.append((s2, self.compare(op, a, b)))
                else:
                    out.append((s2, self.arith(s2, op, a, b, self.ty(n))))
        return out

    def shortcut(self, st, op, l, r):
        out = []
        for s, a in self.ev(st, l):
            a = to_bool(a)
            if op == '&&':
                if z3.is_false(a):
                    out.append((s, z3.BoolVal(False)))
                    continue
                guard = a
            else:
                if z3.is_true(a):
                    out.append((s, z3.BoolVal(True)))
                    continue
                guard = znot(a)
            t = s.copy()
            t.assume(guard)
            base = len(t.facts)
            w0 = self.writes
            rs = self.ev(t, r)
            if len(rs) == 1 and self.same_state(s, rs[0][0]):
                t2, b = rs[0]
                for f in t2.facts[base:]:
                    s.assume(z3.Implies(guard, f))
                s.seen |= t2.seen if False else set()
                for k, h in t2.heaps.items():
                    s.heaps.setdefault(k, h)
                b = to_bool(b)
                out.append((s, zand(a, b) if op == '&&' else zor(a, b)))
            else:
                for t2, b in rs:
                    out.append((t2, to_bool(b)))
                s.assume(znot(guard))
                if self.feasible(s):
                    out.append((s, z3.BoolVal(op == '||')))
        return out

    def e_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        out = []
        for s, b in self.ev(st, r):
            for s2, lv in self.lv(s, l):
                a = self.rd(s2, lv)
                v = self.arith(s2, op, a, b, self.ty(l) if self.ty(l).k == 'int' else self.ty(n))
                self.wr(s2, lv, v)
                out.append((s2, v))
        return out

    def e_ConditionalOperator(self, st, n):
        c, a, b = n['inner']
        out = []
        for s, cv in self.ev(st, c):
            cv = to_bool(cv)
            if z3.is_true(cv):
                out += self.ev(s, a)
                continue
            if z3.is_false(cv):
                out += self.ev(s, b)
                continue
            sa, sb = s.copy(), s.copy()
            sa.assume(cv)
            sb.assume(znot(cv))
            na, nb = len(sa.facts), len(sb.facts)
            fa, fb = self.feasible(sa), self.feasible(sb)
            ra = self.ev(sa, a) if fa else []
            rb = self.ev(sb, b) if fb else []
            if len(ra) == 1 and len(rb) == 1 and self.same_state(s, ra[0][0]) and self.same_state(s, rb[0][0]):
                va, vb = ra[0][1], rb[0][1]
                if va is not None and vb is not None and not isinstance(va, (Rec, Str, Func)) and not isinstance(vb, (Rec, Str, Func)):
                    for f in ra[0][0].facts[na:]:
                        s.assume(z3.Implies(cv, f))
                    for f in rb[0][0].facts[nb:]:
                        s.assume(z3.Implies(znot(cv), f))
                    for q in (ra, rb):
                        for k, h in q[0][0].heaps.items():
                            s.heaps.setdefault(k, h)
                    if va.sort() != vb.sort():
                        if va.sort() == Ptr or vb.sort() == Ptr:
                            va = null if va.sort() != Ptr else va
                            vb = null if vb.sort() != Ptr else vb
                        elif Bnd in (va.sort(), vb.sort()):
                            va, vb = [x if x.sort() == Bnd else smt.fin(z3.ToReal(to_int(x))) for x in (va, vb)]
                        else:
                            va, vb = to_int(va), to_int(vb)
                    out.append((s, va if va.eq(vb) else z3.If(cv, va, vb)))
                    continue
            out += ra + rb
        return out

    def e_StmtExpr(self, st, n):
        body = n['inner'][0]
        inner = body.get('inner', [])
        if not inner:
            return [(st, None)]
        out = []
        for s, k, v in self.run_list(st, inner[:-1]):
            if k != 'next':
                raise Unsupported('jump out of a statement expression')
            last = inner[-1]
            if last['kind'].endswith('Stmt') and last['kind'] not in ('NullStmt',):
                for s2, k2, v2 in self.ex(s, last):
                    if k2 != 'next':
                        raise Unsupported('jump out of a statement expression')
                    out.append((s2, None))
            else:
                out += self.ev(s, last) if last['kind'] != 'NullStmt' else [(s, None)]
        return out

    def e_InitListExpr(self, st, n):
        ct = self.ty(n)
        if ct.k == 'rec':
            fl = self.fields(ct)
            inner = n.get('inner', [])
            d = {}
            cur = [(st, {})]
            for i, (nm, ft) in enumerate(fl):
                nxt = []
                for s, dd in cur:
                    if i < len(inner):
                        for s2, v in self.ev(s, inner[i]):
                            d2 = dict(dd)
                            d2[nm] = self.coerce(v, ft) if not isinstance(v, Rec) else v
                            nxt.append((s2, d2))
                    else:
                        d2 = dict(dd)
                        d2[nm] = self.zero(ft)
                        nxt.append((s, d2))
                cur = nxt
            return [(s, Rec(dd, ct)) for s, dd in cur]
        inner = n.get('inner', [])
        if len(inner) == 1:
            return self.ev(st, inner[0])
        raise Unsupported('initializer list')

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, st, n):
        callee = n['inner'][0]
        args = n['inner'][1:]
        x = callee
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            x = x['inner'][0]
        name = None
        states = [(st, None)]
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl':
            name = x['referencedDecl']['name']
        else:
            states = self.ev(st, callee)
            if len(states) == 1 and isinstance(states[0][1], Func):
                name = states[0][1].name
        cur = [(s, []) for s, _ in states]
        fptr = None if name else states[0][1]
        for a in args:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(s, a):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        rt = self.ty(n)
        out = []
        for s, vs in cur:
            out += self.call(s, name, vs, rt, n, args, fptr)
        return out

    def call(self, st, name, vs, rt, n, argnodes, fptr=None):
        self.check_time()
        if name is None:
            h = self.specs.get('*indirect*')
            if h is None:
                raise Unsupported('call through a function pointer')
            return h(self, st, fptr, vs, rt)
        b = BUILTINS.get(name)
        if b is not None and name not in self.specs:
            return b(self, st, vs, rt, n)
        if name in self.specs:
            return self.apply(st, name, vs, rt)
        f = None
        for t in [self.tu] + self.tus:
            if name in t.funcs:
                f = t.funcs[name]
                break
        if f is None:
            raise Unsupported('external function %s has no contract' % name)
        if self.depth > 14 or name in self.callnames:
            raise Unsupported('recursion through %s without a contract' % name)
        self.inlined.add(name)
        return self.inline(st, t, f, vs)

    @property
    def callnames(self):
        return [x[1] for x in self.cstack]

    def inline(self, st, tu, f, vs):
        self.stack.append(tu)
        self.cstack.append((tu, f['name']))
        self.depth += 1
        rt = tu.ty(f['ret'])
        try:
            ids = []
            for (did, nm, q), v in zip(f['params'], vs):
                self.bind_param(st, tu, did, nm, q, v)
                ids.append((tu.src, did))
            out = []
            for s, k, v in self.ex(st, f['body']):
                for i in ids:
                    s.regs.pop(i, None)
                if k == 'goto':
                    raise Unsupported('unresolved goto')
                if v is not None and not isinstance(v, (Rec, Str, Func)) and rt.k != 'void':
                    v = self.coerce(v, rt)
                out.append((s, v))
            return self.maybe_merge_vals(out)
        finally:
            self.stack.pop()
            self.cstack.pop()
            self.depth -= 1

    def maybe_merge_vals(self, out):
        """merge the results of an inlined, effect-free function into one conditional value"""
        if len(out) < 2 or len(out) > 8:
            return out
        s0 = out[0][0]
        if any(v is None or isinstance(v, (Rec, Str, Func)) for _, v in out):
            return out
        if len({v.sort().name() for _, v in out}) != 1:
            return out
        if not all(self.same_state(s0, s) for s, _ in out[1:]):
            return out
        k = 0
        m = min(len(s.facts) for s, _ in out)
        while k < m and all(s.facts[k] is s0.facts[k] or s.facts[k].eq(s0.facts[k]) for s, _ in out):
            k += 1
        conds = [zand(*s.facts[k:]) for s, _ in out]
        r = s0.copy()
        r.facts = s0.facts[:k]
        v = out[-1][1]
        r.assume(zor(*conds))
        for (s, w), c in reversed(list(zip(out[:-1], conds[:-1]))):
            v = z3.If(c, w, v) if not w.eq(v) else v
        for s, _ in out:
            for kk, h in s.heaps.items():
                r.heaps.setdefault(kk, h)
        return [(r, v)]

    def bind_param(self, st, tu, did, nm, q, v):
        ct = tu.ty(q)
        if ct.k == 'arr':
            ct = CT('ptr', to=ct.to)
        key = (tu.src, did)
        self.decls[key] = (nm, ct)
        if self.is_mem(tu, did, ct) or isinstance(v, Rec):
            p = el(self.alloc_obj(st), 0)
            self.memlocals[key] = True
            st.regs[key] = p
            self.store(st, p, ct, v)
        else:
            st.regs[key] = self.coerce(v, ct)

    def is_mem(self, tu, did, ct):
        if ct.k in ('rec', 'arr'):
            return True
        return did in self.addrtaken(tu)

    def addrtaken(self, tu):
        a = getattr(tu, '_addrtaken', None)
        if a is None:
            a = set()

            def w(n):
                if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                    x = n['inner'][0]
                    while x['kind'] in ('ParenExpr',) or (x['kind'] == 'MemberExpr' and not x.get('isArrow')):
                        x = x['inner'][0]
                    if x['kind'] == 'DeclRefExpr':
                        a.add(x['referencedDecl']['id'])
                for c in n.get('inner', []):
                    if c:
                        w(c)
            for f in tu.funcs.values():
                w(f['body'])
            tu._addrtaken = a
        return a

    # contract application at a call site
    def apply(self, st, name, vs, rt):
        from contract import Ctx
        self.called.add(name)
        c = Ctx(self, name, 'call', st, rt)
        return c.run_call(vs)

    # ------------------------------------------------------------ statements
    # outcomes: (state, kind, value), kind in next/break/continue/return/goto
    def ex(self, st, n):
        self.check_time()
        if 'off' in n:
            self.cur_off = n['off']
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(st, n)
        return [(s, 'next', None) for s, _ in self.ev(st, n)]

    def s_NullStmt(self, st, n):
        return [(st, 'next', None)]

    def s_AttributedStmt(self, st, n):
        return self.ex(st, n['inner'][-1])

    def s_CompoundStmt(self, st, n):
        before = set(st.regs)
        out = self.run_list(st, n.get('inner', []))
        if self.depth == 0 and n is self.topbody:
            return out
        for s, k, v in out:
            for i in list(s.regs):
                if i not in before:
                    del s.regs[i]
        return out

    def run_list(self, st, stmts):
        labels = {}
        for i, x in enumerate(stmts):
            y = x
            while y['kind'] in ('LabelStmt', 'CaseStmt', 'DefaultStmt'):
                if y['kind'] == 'LabelStmt':
                    labels[y['declId']] = i
                y = y['inner'][-1]
        work = [(0, st)]
        out = []
        while work:
            # pick the states waiting at the smallest index so that they can be merged
            work.sort(key=lambda t: t[0])
            i = work[0][0]
            here = [s for j, s in work if j == i]
            work = [(j, s) for j, s in work if j != i]
            if i >= len(stmts):
                out += [(s, 'next', None) for s in here]
                continue
            here = self.merge(here)
            for s in here:
                for s2, k, v in self.ex(s, stmts[i]):
                    if k == 'next':
                        work.append((i + 1, s2))
                    elif k == 'goto' and v in labels:
                        if labels[v] <= i:
                            raise Unsupported('backward goto')
                        work.append((labels[v], s2))
                    else:
                        out.append((s2, k, v))
        nx = [s for s, k, v in out if k == 'next']
        if len(nx) > 1:
            nx = self.merge(nx)
            out = [(s, 'next', None) for s in nx] + [o for o in out if o[1] != 'next']
        return out

    def merge(self, states):
        lim = self.opts.get('merge', 16)
        if len(states) <= lim:
            return states
        groups = {}
        for s in states:
            groups.setdefault(frozenset(s.regs), []).append(s)
        out = []
        for g in groups.values():
            out += [self.merge_all(g)] if len(g) > 1 else g
        return out

    def merge_all(self, g):
        k = 0
        m = min(len(s.facts) for s in g)
        while k < m and all(s.facts[k] is g[0].facts[k] or s.facts[k].eq(g[0].facts[k]) for s in g):
            k += 1
        r = State()
        r.facts = g[0].facts[:k]
        r.ghost = {k_: v for k_, v in g[0].ghost.items() if k_ != 'path' and all(s.ghost.get(k_) is v for s in g)}
        r.ghost['path'] = '(' + '|'.join(sorted(s.ghost.get('path', '') for s in g)) + ')'
        if len(r.ghost['path']) > 200:
            import hashlib
            r.ghost['path'] = hashlib.md5(r.ghost['path'].encode()).hexdigest()
        sels = [fresh('sel', Bool) for _ in g]
        r.assume(z3.Or(*sels))
        for b, s in zip(sels, g):
            for f in s.facts[k:]:
                r.assume(z3.Implies(b, f))

        def mx(vals):
            v = vals[-1]
            for b, w in reversed(list(zip(sels[:-1], vals[:-1]))):
                if not w.eq(v):
                    v = z3.If(b, w, v)
            return v
        for key in g[0].regs:
            vals = [s.regs[key] for s in g]
            if any(isinstance(v, (Rec, Str, Func)) for v in vals):
                r.regs[key] = vals[0]
                if not all(v is vals[0] for v in vals):
                    raise Unsupported('merge of struct registers')
            else:
                if len({v.sort().name() for v in vals}) > 1:
                    vals = [to_int(v) for v in vals]
                r.regs[key] = mx(vals)
        for c in set().union(*[s.heaps for s in g]):
            h = mx([self.heap(s, c) for s in g])
            if h.decl().kind() == z3.Z3_OP_ITE:
                h2 = fresh('Hm_' + c.replace(' ', '_'), h.sort())
                r.assume(h2 == h)
                h = h2
            r.heaps[c] = h
        ns = [s.n for s in g]
        if all(x.eq(ns[0]) for x in ns):
            r.n = ns[0]
        else:
            r.n = fresh('n', Int)
            for b, x in zip(sels, ns):
                r.assume(z3.Implies(b, r.n == x))
        r.seen = set.intersection(*[s.seen for s in g])
        return r

    def s_DeclStmt(self, st, n):
        cur = [st]
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            nxt = []
            for s in cur:
                nxt += self.declare(s, d)
            cur = nxt
        return [(s, 'next', None) for s in cur]

    def declare(self, st, d):
        q = d['type']['qualType']
        ct = self.tu.ty(q)
        key = (self.tu.src, d['id'])
        self.decls[key] = (d.get('name', '?'), ct)
        init = [c for c in d.get('inner', []) if c['kind'].endswith(('Expr', 'Operator', 'Literal'))]
        if d.get('storageClass') == 'static':
            # static local: an unconstrained global object
            self.memlocals[key] = True
            st.regs[key] = el(-2000 - len(self.globs), 0)
            self.globs['static:' + d.get('name', '?')] = -2000 - len(self.globs)
            return [st]
        if self.is_mem(self.tu, d['id'], ct):
            o = self.alloc_obj(st, z3.IntVal(ct.n) if ct.k == 'arr' and ct.n else z3.IntVal(1))
            p = el(o, 0)
            self.memlocals[key] = True
            st.regs[key] = p
            if d.get('init') and init:
                return self.init(st, p, ct, init[-1])
            return [st]
        if d.get('init') and init:
            out = []
            for s, v in self.ev(st, init[-1]):
                s.regs[key] = self.coerce(v, ct)
                out.append(s)
            return out
        st.regs[key] = self.fresh_of(st, d.get('name', 'v'), ct)
        return [st]

    def init(self, st, p, ct, e):
        x = e
        if x['kind'] == 'InitListExpr' and ct.k == 'arr':
            cur = [st]
            inner = x.get('inner', [])
            if not inner and 'array_filler' in x:
                inner = [c for c in x['array_filler'] if c['kind'] != 'ImplicitValueInitExpr']
            for i in range(ct.n or len(inner)):
                nxt = []
                for s in cur:
                    q = padd(p, i)
                    if i < len(inner):
                        if ct.to.k == 'arr':
                            nxt += self.init(s, q, ct.to, inner[i])
                        else:
                            for s2, v in self.ev(s, inner[i]):
                                self.store(s2, q, ct.to, v)
                                nxt.append(s2)
                    else:
                        self.store(s, q, ct.to, self.zero(ct.to))
                        nxt.append(s)
                cur = nxt
            return cur
        out = []
        for s, v in self.ev(st, x):
            if isinstance(v, Str):
                out.append(s)
                continue
            self.store(s, p, ct, v)
            out.append(s)
        return out

    def s_ReturnStmt(self, st, n):
        if not n.get('inner'):
            return [(st, 'return', None)]
        return [(s, 'return', v) for s, v in self.ev(st, n['inner'][0])]

    def s_BreakStmt(self, st, n):
        return [(st, 'break', None)]

    def s_ContinueStmt(self, st, n):
        return [(st, 'continue', None)]

    def s_GotoStmt(self, st, n):
        return [(st, 'goto', n['targetLabelDeclId'])]

    def s_LabelStmt(self, st, n):
        return self.ex(st, n['inner'][-1])

    def s_CaseStmt(self, st, n):
        return self.ex(st, n['inner'][-1])

    def s_DefaultStmt(self, st, n):
        return self.ex(st, n['inner'][-1])

    def branch(self, st, c):
        """-> (state if true or None, state if false or None)"""
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st
        a.ghost['path'] = a.ghost.get('path', '') + 'T'
        b.ghost['path'] = b.ghost.get('path', '') + 'F'
        a.assume(c)
        b.assume(znot(c))
        fa = self.feasible(a)
        fb = self.feasible(b) if fa else True
        return (a if fa else None), (b if fb else None)

    def s_IfStmt(self, st, n):
        inner = n['inner']
        c, th = inner[0], inner[1]
        elz = inner[2] if len(inner) > 2 else None
        out = []
        for s, cv in self.ev(st, c):
            a, b = self.branch(s, to_bool(cv))
            if a is not None:
                out += self.ex(a, th)
            if b is not None:
                out += self.ex(b, elz) if elz is not None else [(b, 'next', None)]
        return out

    def s_SwitchStmt(self, st, n):
        c, body = n['inner'][0], n['inner'][-1]
        stmts = body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]
        labs = []
        has_default = None
        for i, x in enumerate(stmts):
            y = x
            while y['kind'] in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
                if y['kind'] == 'CaseStmt':
                    labs.append((i, y['inner'][0], y['inner'][1] if len(y['inner']) > 2 else None))
                elif y['kind'] == 'DefaultStmt':
                    has_default = i
                y = y['inner'][-1]
        out = []
        for s, v in self.ev(st, c):
            v = to_int(v)
            rest = s
            entries = []
            byidx = {}
            none_ = []
            for i, e, hi in labs:
                if hi is not None:
                    raise Unsupported('case range')
                (s_, cv), = self.ev(rest.copy(), e)
                byidx.setdefault(i, []).append(self.compare('==', v, cv))
                none_.append(znot(self.compare('==', v, cv)))
            for i, cs in byidx.items():
                cond = zor(*cs)
                if z3.is_false(cond) and has_default != i:
                    continue
                if has_default == i:
                    cond = zor(cond, zand(*none_))
                t = s.copy()
                t.assume(cond)
                if self.feasible(t):
                    entries.append((i, t))
            if has_default is None or has_default not in byidx:
                t = s.copy()
                for f in none_:
                    t.assume(f)
                if self.feasible(t):
                    entries.append((has_default, t))
            for i, t in entries:
                if i is None:
                    out.append((t, 'next', None))
                    continue
                for s2, k, w in self.run_list(t, stmts[i:]):
                    out.append((s2, 'next', None) if k == 'break' else (s2, k, w))
        return out

    # loops -----------------------------------------------------------
    def s_ForStmt(self, st, n):
        init, _var, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        cur = [st]
        before = set(st.regs)
        if init:
            cur = [s for s, k, v in self.ex(st, init)]
        out = []
        for s in cur:
            out += self.loop(s, n, cond or None, inc or None, body, False)
        for s, k, v in out:
            for i in list(s.regs):
                if i not in before:
                    del s.regs[i]
        return out

    def s_WhileStmt(self, st, n):
        return self.loop(st, n, n['inner'][0], None, n['inner'][-1], False)

    def s_DoStmt(self, st, n):
        return self.loop(st, n, n['inner'][1], None, n['inner'][0], True)

    def loop(self, st, n, cond, inc, body, post):
        from loops import run_loop
        return run_loop(self, st, n, cond, inc, body, post)

    def nested(self, *a):
        self.nest = getattr(self, 'nest', []) + [{}]
        try:
            return self.iterate(*a)
        finally:
            self.nest = self.nest[:-1]

    def iterate(self, st, cond, inc, body, post):
        """one iteration from a loop-head state: -> (backs, exits) ; exits are outcomes"""
        backs, exits = [], []

        def test(s):
            if cond is None:
                return [(s, None)]
            r = []
            for s2, cv in self.ev(s, cond):
                a, b = self.branch(s2, to_bool(cv))
                r.append((a, b))
            return r

        def after(s):
            if post:
                for a, b in test(s):
                    if a is not None:
                        backs.append(a)
                    if b is not None:
                        exits.append((b, 'next', None))
            else:
                if inc is not None:
                    for s2, _ in self.ev(s, inc):
                        backs.append(s2)
                else:
                    backs.append(s)
        heads = [st]
        if not post:
            heads = []
            for a, b in test(st):
                if a is not None:
                    heads.append(a)
                if b is not None:
                    exits.append((b, 'next', None))
        for h in heads:
            conts = []
            for s, k, v in self.ex(h, body):
                if k in ('next', 'continue'):
                    conts.append(s)
                elif k == 'break':
                    exits.append((s, 'next', None))
                else:
                    exits.append((s, k, v))
            for s in self.merge(conts):
                after(s)
        return backs, exits

    # ------------------------------------------------------------ verify a function
    def verify(self, name):
        from contract import Ctx
        tu = None
        for t in self.tus:
            if name in t.funcs:
                tu = t
                break
        if tu is None:
            raise Unsupported('function %s not found' % name)
        f = tu.funcs[name]
        self.stack = [tu]
        self.cstack = [(tu, name)]
        self.topbody = f['body']
        st = State()
        st.n = z3.Int('n0')
        st.assume(st.n > 1)
        rt = tu.ty(f['ret'])
        c = Ctx(self, name, 'verify', st, rt)
        self.ctx = c
        c.run_verify(tu, f)
        return c


# -------------------------------------------------------------------- builtins
def _noop(ret=None):
    def f(E, st, vs, rt, n):
        return [(st, E.fresh_of(st, 'ext', rt) if rt.k != 'void' else None)]
    return f


def _assert_fail(E, st, vs, rt, n):
    E.oblige(st, z3.BoolVal(False), 'assertion in the source holds')
    return []


def _abort(E, st, vs, rt, n):
    if not E.ctx.may_abort:
        E.oblige(st, z3.BoolVal(False), 'abort() is not reached')
    return []


def _malloc(E, st, vs, rt, n):
    o = E.alloc_obj(st)
    st.ghost['bytes:%d' % o.get_id()] = vs[0]
    E.pending_alloc = (o, vs[0])
    st.assume(E.BYTES(o) == vs[0])
    st.assume(SZ(o) * E.ESZ(o) == vs[0]) if False else None
    return [(st, el(o, 0))]


def _calloc(E, st, vs, rt, n):
    o = E.alloc_obj(st)
    st.assume(E.BYTES(o) == vs[0] * vs[1])
    return [(st, el(o, 0))]


def _free(E, st, vs, rt, n):
    return [(st, None)]


def _realloc(E, st, vs, rt, n):
    """the block moves: a fresh object carries the old contents"""
    p = vs[0]
    o = E.alloc_obj(st)
    st.assume(E.BYTES(o) == vs[1])
    q = el(o, 0)
    E.move_block(st, o, p)
    return [(st, q)]


def _move_block(E, st, o, p):
    mv = z3.Function('mv!%d' % fresh('x', Int).get_id(), Ptr, Ptr)
    i, f, r = z3.Int('?i'), z3.Int('?f'), z3.Const('?q', Ptr)
    old = smt.obj(p)
    st.assume(z3.ForAll([i], mv(Ptr.el(o, i)) == Ptr.el(old, smt.add(smt.idx(p), i)), patterns=[mv(Ptr.el(o, i))]))
    st.assume(z3.ForAll([r, f], mv(Ptr.fp(r, f)) == Ptr.fp(mv(r), f), patterns=[mv(Ptr.fp(r, f))]))
    st.assume(z3.ForAll([r, f, i], mv(Ptr.fa(r, f, i)) == Ptr.fa(mv(r), f, i), patterns=[mv(Ptr.fa(r, f, i))]))
    pv = z3.Const('?p', Ptr)
    for cls in MOVED:
        h = E.heap(st, cls)
        h2 = fresh('HR_' + cls.replace(' ', '_'), h.sort())
        st.assume(z3.ForAll([pv], z3.Select(h2, pv) == z3.If(root(pv) == o, z3.Select(h, mv(pv)), z3.Select(h, pv)), patterns=[z3.Select(h2, pv)]))
        st.heaps[cls] = h2
        if E.writes is not None:
            E.writes.append((cls, el(o, 0)))


MOVED = ('ptr', 'unsigned int', 'unsigned long', 'int', 'long', 'mpq', 'mpz', '_Bool', 'enum', 'flt', 'char')


Engine.BYTES = staticmethod(z3.Function('bytes', Int, Int))


def _expect(E, st, vs, rt, n):
    return [(st, vs[0])]


Engine.move_block = _move_block

BUILTINS = {
    '__builtin_isfinite': lambda E, st, vs, rt, n: [(st, to_int(smt.is_fin(vs[0])))],
    '__assert_fail': _assert_fail, 'abort': _abort, 'malloc': _malloc, 'calloc': _calloc, 'free': _free,
    'realloc': _realloc, 'fprintf': _noop(), 'printf': _noop(), 'snprintf': _noop(), 'fflush': _noop(), 'fputs': _noop(),
    'fputc': _noop(), 'puts': _noop(), 'putchar': _noop(), 'fwrite': _noop(), '__builtin_expect': _expect, '__builtin_constant_p': lambda E, st, vs, rt, n: [(st, z3.IntVal(0))], 'perror': _noop(),
}
