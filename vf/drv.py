"""Run the verifier over groups of functions, in parallel, from /repo's current source."""
import sys, os, time, tempfile, shutil, multiprocessing as mp
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cast, engine, smt
from contract import SPECS, TRUSTED

LEAF_NUM = {'__mpz_struct': 'mpz', '__mpfr_struct': 'mpfr'}
LEAF_BND = {'__mpq_struct': 'mpq', '__mpz_struct': 'mpz', '__mpfr_struct': 'mpfr'}
INC = ['-I%s/%s' % (cast.REPO, d) for d in ('num', 'itv', 'apron', 'box', 'octagons', 'avoct', 'newpolka')] + ['-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc'), '-DNUM_MPQ']

TUS = {}


def tu_of(src, flags=()):
    """src: path under the repository, or literal C text when it contains a newline"""
    k = (src, tuple(flags))
    if k not in TUS:
        if '\n' in src:
            d = tempfile.mkdtemp(prefix='vf')
            p = os.path.join(d, 'unit.c')
            with open(p, 'w') as f:
                f.write(src)
            try:
                TUS[k] = cast.load_tu(p, INC + list(flags))
            finally:
                shutil.rmtree(d)
        else:
            TUS[k] = cast.load_tu(os.path.join(cast.REPO, src), INC + list(flags))
    return TUS[k]


class Group(object):
    def __init__(self, name, srcs, leafs, fns, flags=(), opts=None, budget=150, must=None):
        self.name, self.srcs, self.leafs, self.fns, self.flags, self.opts, self.budget = name, srcs, leafs, fns, flags, opts or {}, budget
        self.must = fns if must is None else must


def verify_one(tus, name, leafs, budget=150, verbose=False, opts=None):
    t0 = time.time()
    pass
    smt.STATS.update(z3=0, cvc5=0, time=0.0, queries=0)
    E = engine.Engine(tus, SPECS, leafs, name, budget=budget, verbose=verbose, opts=dict(opts or {}))
    c = None
    try:
        c = E.verify(name)
    except cast.Unsupported as e:
        E.obls.append(engine.Obl(name, 'translatable into the verifier', 'unproved', '-', 0.0, 'unsupported: %s' % e))
    except engine.Timeout:
        E.obls.append(engine.Obl(name, 'proof finished within the budget', 'unproved', '-', 0.0, 'timeout'))
    except RecursionError:
        E.obls.append(engine.Obl(name, 'translatable into the verifier', 'unproved', '-', 0.0, 'recursion limit'))
    except Exception as e:
        if os.environ.get('VF_TRACE'):
            raise
        E.obls.append(engine.Obl(name, 'translatable into the verifier', 'unproved', '-', 0.0, 'internal: %s: %s' % (type(e).__name__, e)))
    if c is not None:
        if c.cover == 'unsat':
            E.obls.append(engine.Obl(name, 'precondition is satisfiable', 'vacuous', '-', 0.0))
        if not c.reached and not c.noreturn:
            E.obls.append(engine.Obl(name, 'some return is reachable', 'vacuous', '-', 0.0))
    return E, time.time() - t0


JOBS = None


def _work(i):
    g, fn, verbose = JOBS[i]
    tus = [tu_of(s, g.flags) for s in g.srcs]
    E, dt = verify_one(tus, fn, g.leafs, g.budget, verbose, g.opts)
    return dict(group=g.name, fn=fn, dt=dt, solver=smt.STATS.get('time', 0.0), queries=smt.STATS.get('queries', 0),
                called=sorted(E.called), inlined=sorted(E.inlined),
                obls=[dict(label=o.label, status=o.status, backend=o.backend, t=round(o.secs,3), path=str(o.path)[:300], reason=o.reason or '') for o in E.obls])


def has_body(tus, fn):
    return any(fn in t.funcs and t.funcs[fn].get('body') is not None for t in tus)


def run(groups, nproc=None, verbose=False, only=None):
    """-> (results, missing)"""
    global JOBS
    JOBS, missing = [], []
    for g in groups:
        try:
            tus = [tu_of(s, g.flags) for s in g.srcs]
        except Exception as e:
            missing.append((g.name, '*', 'translation unit could not be parsed: %s' % e))
            continue
        for f in dict.fromkeys(g.fns):
            if only and f not in only:
                continue
            if has_body(tus, f):
                JOBS.append((g, f, verbose))
            elif f in g.must:
                missing.append((g.name, f, 'function not found'))
    idx = list(range(len(JOBS)))
    if verbose or (nproc == 1):
        return [_work(i) for i in idx], missing
    n = nproc or min(8, os.cpu_count() or 2)
    with mp.get_context('fork').Pool(n, maxtasksperchild=4) as pool:
        res = list(pool.imap_unordered(_work, idx, chunksize=1))
    res.sort(key=lambda r: (r['group'], r['fn']))
    return res, missing


if __name__ == '__main__':
    import argparse, props
    ap = argparse.ArgumentParser()
    ap.add_argument('group')
    ap.add_argument('fns', nargs='*')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    gs = [g for g in props.GROUPS.values() if g.name == a.group]
    res, missing = run(gs, verbose=a.v, only=a.fns or None)
    tot = 0
    for r in sorted(res, key=lambda r: -r['dt']):
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        tot += len(r['obls'])
        print('%-34s %s %4d obl %6.1fs %s' % (r['fn'], 'ok  ' if not bad else 'FAIL', len(r['obls']), r['dt'], [(o['label'], o['reason']) for o in bad][:4]))
    print(tot, 'obligations,', len(missing), 'missing', missing, '%.1fs' % (time.time() - t0))
