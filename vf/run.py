import sys, os, time, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cast, engine, smt
from contract import SPECS, TRUSTED
import bview, spec_gmp, spec_num, spec_itv

LEAF_NUM = {'__mpz_struct': 'mpz', '__mpfr_struct': 'mpfr'}
LEAF_BND = {'__mpq_struct': 'mpq', '__mpz_struct': 'mpz', '__mpfr_struct': 'mpfr'}


def verify_one(tus, name, leafs, budget=120, verbose=False, opts=None):
    t0 = time.time()
    E = engine.Engine(tus, SPECS, leafs, name, budget=budget, verbose=verbose, opts=opts)
    c = None
    try:
        c = E.verify(name)
    except cast.Unsupported as e:
        E.obls.append(engine.Obl(name, 'translatable into the verifier', 'unproved', '-', 0.0, 'unsupported: %s' % e))
    except engine.Timeout:
        E.obls.append(engine.Obl(name, 'proof finished within the budget', 'unproved', '-', 0.0, 'timeout'))
    if c is not None:
        if c.cover == 'unsat':
            E.obls.append(engine.Obl(name, 'precondition is satisfiable', 'vacuous', '-', 0.0))
        if not c.reached and not c.noreturn:
            E.obls.append(engine.Obl(name, 'some return is reachable', 'vacuous', '-', 0.0))
    return E, time.time() - t0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('src')
    ap.add_argument('fns', nargs='*')
    ap.add_argument('--layer', default='num')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    R = cast.REPO
    tu = cast.load_tu(a.src, ['-I%s/%s' % (R, d) for d in ('num', 'itv', 'apron', 'box', 'octagons')] + ['-DNUM_MPQ', '-DVF'])
    tot = 0
    for f in a.fns or spec_num.NUM:
        E, dt = verify_one([tu], f, LEAF_NUM if a.layer == 'num' else LEAF_BND, verbose=a.v)
        bad = [o for o in E.obls if o.status != 'proved']
        tot += len(E.obls)
        print('%-28s %s %3d obligations %.2fs %s' % (f, 'ok  ' if not bad else 'FAIL', len(E.obls), dt, [(o.label, o.reason) for o in bad][:3]))
    print(tot)
