#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]: verify every function under contract that the property rests on,
from /repo's current working tree; replay a failed proof against the compiled code."""
import sys, os, time, json, tempfile, shutil, subprocess, argparse
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vf'))
sys.path.insert(0, os.path.join(HERE, 'replay'))
sys.setrecursionlimit(20000)
import props, drv, cast, contract
import build as rbuild

CHECKER = 'python3-vt check.py %s --tier %s  (VC generator vf/engine.py over clang-18 ASTs; z3 5.3.2, cvc5 1.1.2)'


def verify(P, tier, t0, failing):
    """-> (results, missing): the property's own groups, then the closure of the contracts they call.
    failing: the replay already found a failing input, so failed proofs need no second attempt"""
    scale = 3 if tier == 'thorough' else 1
    results, missing, done = [], [], set()
    end = t0 + (2400 if tier == 'thorough' else 780)

    def run(gname, only):
        g = props.GROUPS[gname]
        fns = [f for f in dict.fromkeys(g.fns) if (gname, f) not in done and (only is None or f in only)]
        if not fns:
            return []
        left = lambda: max(20, int(end - time.time()))
        g2 = drv.Group(g.name, g.srcs, g.leafs, fns, g.flags, dict(g.opts), min(240 if failing else g.budget * scale, left()), [f for f in g.must if f in fns])
        res, miss = drv.run([g2])
        # one more attempt, with more time, for what is not proved (solver time limits depend on the machine's load)
        bad = [r['fn'] for r in res if any(o['status'] not in ('proved',) for o in r['obls'])]
        if bad and len(bad) <= 12 and not failing and left() > 40:
            g3 = drv.Group(g.name, g.srcs, g.leafs, bad, g.flags, dict(g.opts, t1=16000, t2=30, nofail_twice=True), min(int(g.budget * scale * 1.3), left()), [])
            r3, _ = drv.run([g3])
            byfn = {r['fn']: r for r in r3}
            res = [byfn.get(r['fn'], r) for r in res]
        for r in res:
            done.add((gname, r['fn']))
        results.extend(res)
        missing.extend(miss)
        return res
    called = set()
    for gn in P.groups:
        for r in run(gn, P.only.get(gn) if P.only else None):
            called |= set(r['called'])
    for gn in props.LOWER:
        while True:
            todo = called & set(props.GROUPS[gn].fns)
            res = run(gn, todo)
            new = set().union(*[set(r['called']) for r in res]) if res else set()
            if new <= called:
                called |= new
                break
            called |= new
    return results, missing, called


def harness(P, tier, seed):
    """-> (list of failures, cases, note)"""
    if not P.harness:
        return [], 0, 'no replay program'
    d = tempfile.mkdtemp(prefix='vfreplay')
    try:
        exe, log = rbuild.build(d, os.path.join(HERE, 'replay', P.harness), P.dirs, extra=('-O1', '-g', '-fsanitize=address'))
        if not exe:
            return [], 0, 'the replay program does not build: ' + log[-2000:]
        lim = 400 if tier == 'thorough' else 120
        env = dict(os.environ, REPLAY_TIER=tier, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:abort_on_error=0:exitcode=77')
        try:
            p = subprocess.run([exe, str(seed), str(lim)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim + 30, cwd=d, env=env)
        except subprocess.TimeoutExpired:
            return ['FAIL hang :: the replay program did not finish'], 0, ''
        out = p.stdout.decode(errors='replace')
        fails = [l for l in out.split('\n') if l.startswith('FAIL ')]
        cases = sum(int(l.split()[1]) for l in out.split('\n') if l.startswith('CASES '))
        if p.returncode != 0 and not fails:
            fails = ['FAIL crash :: exit status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-500:])]
        return fails, cases, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        import z3
        print('z3', z3.get_version_string(), 'groups', {k: len(g.fns) for k, g in props.GROUPS.items()})
        return
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[a.prop]
    fails, cases, note = [], 0, ''
    early = P.always or a.tier == 'thorough'
    if early:
        fails, cases, note = harness(P, a.tier, seed)
    results, missing, called = verify(P, a.tier, t0, bool(fails))
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json'))) if k['property'] == P.id and k['status'] == 'known']
    failed, total, proved, be, knownhit = [], 0, 0, {}, []
    for r in results:
        for o in r['obls']:
            total += 1
            if o['status'] == 'proved':
                proved += 1
                be[o['backend']] = be.get(o['backend'], 0) + 1
                continue
            k = [k for k in known if k.get('function') == r['fn'] and k.get('obligation') == o['label']]
            if k:
                knownhit.append(k[0])
                continue
            failed.append((r['group'], r['fn'], o['label'], o['status'], o['reason'], o['path']))
    for g, f, why in missing:
        total += 1
        failed.append((g, f, why, 'missing', '', ''))
    if total == 0 or proved == 0:
        failed.append(('-', '-', 'no obligation was generated', 'vacuous', '', ''))
    if failed and not early:
        fails, cases, note = harness(P, a.tier, seed)
    if fails:
        kf = [k for k in known if k.get('replay')]
        rest = []
        for f in fails:
            k = [k for k in kf if k['replay'] in f]
            if k:
                knownhit.append(k[0])
            else:
                rest.append(f)
        fails = rest
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    bad = bool(failed or fails)
    fns = sorted({r['fn'] for r in results})
    trusted = sorted(c for c in called if c in contract.TRUSTED)
    inlined = sorted(set().union(*[set(r['inlined']) for r in results])) if results else []
    evd = dict(property=P.id, tier=a.tier, seed=seed, level='proof',
               coverage=dict(obligations=total, discharged=proved, checker_cmd=CHECKER % (P.id, a.tier),
                             trusted_base=['VC generator /verif/vf (memory model, C semantics of the translated subset)', 'clang 18 AST dump',
                                           'z3 5.3.2', 'cvc5 1.1.2'] + ['assumed contract: %s (%s)' % (t, contract.TRUSTED[t]) for t in trusted],
                             functions_under_contract=len(fns), functions=fns, inlined_without_contract=inlined,
                             backends=be, solver_seconds=round(sum(r['solver'] for r in results), 2),
                             solver_queries=sum(r['queries'] for r in results),
                             failed_obligations=['%s/%s: %s [%s] %s' % f[:5] for f in failed],
                             bounded_replay_cases=cases, bounded_stand_in=P.bounded, replay_note=note,
                             known_findings=sorted({k['what'] for k in knownhit})),
               assumptions=ASSUME + P.notes, wall_s=round(time.time() - t0, 2), violations=len(failed) + len(fails))
    json.dump(evd, open(os.path.join(ev, P.id + '.json'), 'w'), indent=1)
    for w in sorted({k['what'] for k in knownhit}):
        print('KNOWN-FINDING: property=%s %s' % (P.id, w))
    if bad:
        rp = os.path.join(ev, 'replay-%s.json' % P.id)
        json.dump(dict(property=P.id, tier=a.tier, seed=seed,
                       failed_obligations=[dict(group=f[0], function=f[1], obligation=f[2], status=f[3], verifier_output=f[4], path=f[5]) for f in failed],
                       failing_inputs=fails, replay_program=P.harness, replay_note=note,
                       reproduce='python3 replay/build.py DIR replay/%s %s && DIR/prog %d' % (P.harness, ' '.join(P.dirs), seed)), open(rp, 'w'), indent=1)
        for f in failed[:12]:
            print('failed obligation: %s / %s: %s [%s] %s %s' % f)
        for f in fails[:8]:
            print('replay:', f)
        print('VIOLATION property=%s replay=%s%s' % (P.id, rp, '' if fails else ' no-failing-input-found'))
        sys.exit(1)
    print('OK property=%s tier=%s: %d obligations of %d functions discharged (%s), %d replay cases, %.1fs' % (
        P.id, a.tier, proved, len(fns), ', '.join('%s %d' % x for x in sorted(be.items())), cases, time.time() - t0))


ASSUME = [
    'machine integers (int, long, size_t) are treated as mathematical integers; unsigned values are non-negative',
    'the exact-rational build (NUM_MPQ) is verified; the floating-point and 64-bit-rational builds share the text but not the arithmetic',
    'malloc/calloc/realloc succeed and return memory disjoint from everything reachable; freed memory is never reused by the model',
    'assert() is checked as an obligation (the release build compiles it out)',
    'termination is not proved; the contracts are partial-correctness contracts',
]

if __name__ == '__main__':
    main()
