#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, claim=None, na=None, state=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None),
                  claim=claim, na=na))


SAMPLE = 'The bundled tests compare a few hundred sampled expressions and values between abstract domains; they reach a fixed handful of operands and never state the law for all of them.'
TECH = 'contract-based deductive verification of the C source (own VC generator on clang ASTs, discharged by z3/cvc5)'

prop('C01', 'Extended-rational bound arithmetic and order are exact',
     'In the exact-rational build, every operation on numbers and on bounds extended with infinities (assignment, negation, absolute value, addition, subtraction, multiplication, division, powers of two, minimum, maximum, comparison, sign, equality, infinity tests, integer rounding) returns exactly the mathematically defined extended-rational result, for every operand and every aliasing of result and operands it allows. '
     'Results are kept in canonical form, infinities have a unique representation, and no operand other than the result is modified.',
     ['inputs'], 'all extended-rational operands and all permitted aliasings',
     SAMPLE, ['num/num.h', 'num/num_numrat.h', 'num/numrat_mpq.h', 'num/numint_mpz.h', 'num/bound.h', 'num/bound_def.h'],
     [('extended bounds with in-band infinity', 'num/bound_def.h'), ('numbers', 'num/num_numrat.h, num/numrat_mpq.h')], ['value of the result operand', 'returned order or truth value'],
     claim='every function body discharged against exact real-arithmetic contracts; the rational-arithmetic library is an assumed contract')
prop('C02', 'Interval arithmetic is sound, and tight where it should be',
     'In the exact-rational build, every interval operation (addition, subtraction, multiplication, division, negation, absolute value, scaling, rounding to integers, join, meet, widening) returns an interval containing the result of the operation on every pair of points of its operands, and the exact hull except for division by an interval around zero. '
     'Intersection reports emptiness exactly when no common point (respectively no common integer point) exists; inclusion, equality and the other tests answer according to the sets denoted; inverse rounding operations contain every preimage.',
     ['inputs'], 'all intervals with rational or infinite bounds, all member points, and all permitted aliasings',
     SAMPLE, ['itv/itv.h', 'itv/itv.c'], [('interval operations', 'itv/itv.h, itv/itv.c')], ['the interval written by the operation', 'returned truth value'],
     claim='every function body discharged; membership quantifies over all real points')
prop('C07', 'Box lattice operations are the componentwise lattice operations',
     'For boxes of the same dimensions, meet is the exact intersection, join the smallest enclosing box, and inclusion, equality, emptiness and universality answer according to the denoted sets, for every dimension count, with empty operands, in place or not. '
     'Widening of an included pair yields an upper bound in which every bound is either unchanged or removed, so increasing sequences become stable; operands of non-destructive calls are unchanged.',
     ['inputs', 'histories'], 'all pairs of boxes of all dimensions, with finite and infinite bounds, and both destructive modes',
     SAMPLE, ['box/box_meetjoin.c', 'box/box_representation.c', 'box/box_constructor.c', 'box/box_otherops.c'],
     [('meet, join', 'box/box_meetjoin.c'), ('order tests, top, bottom', 'box/box_constructor.c'), ('widening, closure', 'box/box_otherops.c'), ('copy, set', 'box/box_representation.c')],
     ['the intervals of the returned box', 'returned truth value'],
     claim='every function discharged for any number of dimensions by inferred and checked loop invariants')
prop('C08', 'Box dimension operations move every interval to its place',
     'Adding, removing, permuting, forgetting, expanding and folding dimensions of a box yield exactly the box whose kept dimensions carry their former intervals at the positions given by the dimension-change rules, whose new dimensions are unconstrained or zero as requested, and whose folded dimension is the join of the folded ones. '
     'This holds for every valid change, in place or not, including at the ends of the space and for repeated insertion points, and the operands of non-destructive calls are unchanged.',
     ['inputs'], 'all boxes, all valid dimension changes, permutations and dimension lists, both destructive modes',
     SAMPLE, ['box/box_resize.c', 'box/box_otherops.c'], [('addition, removal, permutation', 'box/box_resize.c'), ('forget, expand, fold', 'box/box_otherops.c')],
     ['the intervals of the returned box'],
     claim='permutation and forget discharged for all inputs; functions out of reach are checked by a bounded comparison with an oracle (see DESIGN.md)')
prop('C11', 'Dimension changes and permutations compose and invert correctly',
     'The identity, composition and inversion of dimension permutations are the mathematical ones for every size, including in-place composition into the first operand. '
     'Inverting an insertion of dimensions yields exactly the positions the inserted dimensions occupy in the enlarged space.',
     ['inputs'], 'all permutations and all sorted insertion lists of any size',
     SAMPLE, ['apron/ap_dimension.c', 'apron/ap_dimension.h'], [('permutation and change algebra', 'apron/ap_dimension.c')], ['the arrays of the resulting permutation or change'],
     claim='every function discharged for every size')
exec(open(os.path.join(HERE, 'gen_more.py')).read()) if os.path.exists(os.path.join(HERE, 'gen_more.py')) else None


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('claim', 'na')}) + '\n')
    checks, na = [], []
    for p in P:
        if p['claim']:
            checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                               thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'], technique=TECH, level='proof',
                               level_note=p['claim'] + '. Trusted: the VC generator and its memory model, clang\'s AST, the solvers, the contracts assumed for GMP and libc; machine integers are mathematical.'))
        else:
            na.append(dict(property=p['id'], reason=p['na']))
    m = dict(version=1, setup_cmd='python3-vt check.py --selftest', hooks=dict(guard='APRON_VERIF', enable='no hook is needed: the checks read the unmodified sources', source_commits=[]),
             checks=checks, not_applicable=na, notes='Generated by gen_meta.py. fix commits in /repo are listed in known_findings.json.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'claimed')


main()
