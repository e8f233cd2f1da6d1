"""The abstract view of a bound: an extended rational.  In the 'num' layer it is computed from the two
integers (numerator, denominator) that GMP stores; in every higher layer the pair is one opaque cell.  One
contract text serves both layers, so what is proved about the bound functions is exactly what callers use."""
import z3
import smt
from smt import fp, Int, Real, Bool, pinf, ninf, fin, Ptr
from engine import fid, sel
from contract import Ctx, View

Q = z3.Function('Q', Int, Int, Real)
canon = z3.Function('canon', Int, Int, Bool)

IsI = z3.Function('integral', Real, Bool)


def npart(p):
    return fp(p, fid('__mpq_struct', '_mp_num'))


def dpart(p):
    return fp(p, fid('__mpq_struct', '_mp_den'))


def qfacts(n, d):
    """facts about the fraction n/d used by the proofs (definition of division)"""
    q = Q(n, d)
    return z3.And(
        z3.Implies(d > 0, z3.And((q > 0) == (n > 0), (q < 0) == (n < 0))),
        z3.Implies(d == 1, z3.And(q == z3.ToReal(n), canon(n, d), IsI(q))))


def qdef(n, d):
    return z3.Implies(d > 0, Q(n, d) * z3.ToReal(d) == z3.ToReal(n))


def wf(n, d):
    return z3.Or(z3.And(d > 0, canon(n, d)), z3.And(d == 0, z3.Or(n == 1, n == -1)))


def layer(E):
    return 'bnd' if '__mpq_struct' in E.leafs else 'num'


def nd(view, p):
    return view.at('mpz', npart(p)), view.at('mpz', dpart(p))


def Bof(view, p):
    """view: Ctx (pre) or View (post)"""
    E = view.E
    if layer(E) == 'bnd':
        return view.at('mpq', p)
    n, d = nd(view, p)
    view.st.assume(qfacts(n, d))
    return z3.If(d > 0, fin(Q(n, d)), z3.If(n > 0, pinf, ninf))


def _B(self, p):
    if layer(self.E) == 'num':
        n, d = nd(self, p)
        self.req(wf(n, d), 'well-formed number')
    return Bof(self, p)


def _setB(self, p, val, label=None):
    """the bound at p becomes val (an extended rational computed from the pre-state)"""
    if layer(self.E) == 'bnd':
        self.set('mpq', p, val, label or 'bound written')
    else:
        self.mod('mpz', npart(p), dpart(p))
        self.ens((label or 'bound written'), lambda S: z3.And(wf(*nd(S, p)), Bof(S, p) == val))


def _relB(self, p, rel, label):
    """the bound at p becomes some value v with rel(v)"""
    if layer(self.E) == 'bnd':
        self.mod('mpq', p)
        self.ens(label, lambda S: rel(S.at('mpq', p)))
    else:
        self.mod('mpz', npart(p), dpart(p))
        self.ens(label, lambda S: z3.And(wf(*nd(S, p)), rel(Bof(S, p))))


Ctx.B = _B
Ctx.setB = _setB
Ctx.relB = _relB
View.B = Bof
