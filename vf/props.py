"""The groups of functions under contract, and the properties they decide."""
import bview, spec_gmp, spec_num, spec_itv, spec_dim, spec_box, spec_oct, spec_octobj, spec_octdim, spec_scalar, spec_linexpr, spec_conv, spec_pk, spec_eval
from drv import Group, LEAF_NUM, LEAF_BND

NUM_UNIT = '#include "num.h"\n#include "bound.h"\n'
GROUPS = {}


def group(name, *a, **k):
    GROUPS[name] = Group(name, *a, **k)


group('num', [NUM_UNIT], LEAF_NUM, spec_num.NUM)
group('itv', ['itv/itv.c'], LEAF_BND, spec_itv.ITV, must=[])

BOXSRC = ['box/box_%s.c' % x for x in ('meetjoin', 'representation', 'resize', 'otherops', 'constructor', 'assign', 'internal')] + ['apron/ap_dimension.c']
group('dim', ['apron/ap_dimension.c'], LEAF_BND, spec_dim.DIM)
BOXDIM = ['box_permute_dimensions', 'box_forget_array', 'box_add_dimensions', 'box_remove_dimensions', 'box_expand']
TODO = ['box_add_dimensions', 'box_expand']
group('box', BOXSRC, LEAF_BND, [f for f in spec_box.BOX if f not in BOXDIM])
group('boxdim', BOXSRC, LEAF_BND, [f for f in spec_box.BOX if f in BOXDIM and f not in TODO])

OCTSRC = ['octagons/oct_%s.c' % x for x in ('hmat', 'closure', 'representation', 'nary', 'predicate', 'resize', 'transfer')]
group('hmat', OCTSRC[:2], LEAF_BND, spec_oct.HMAT, budget=600, opts={'qffeas': True, 'ground': True})

group('oct', ['octagons/oct_representation.c', 'octagons/oct_nary.c', 'octagons/oct_predicate.c'], LEAF_BND, spec_octobj.OCT, budget=200, opts={'qffeas': True})

group('octdim', OCTSRC[:3] + ['octagons/oct_resize.c'], LEAF_BND, spec_octdim.ODIM, budget=300, opts={'qffeas': True})

group('scalar', ['apron/ap_scalar.c'], LEAF_NUM, spec_scalar.SCALAR, flags=['-DMPFR_USE_NO_MACRO'])
group('coeff', ['apron/ap_coeff.c', 'apron/ap_interval.c'], LEAF_BND, spec_scalar.COEFF, flags=['-DMPFR_USE_NO_MACRO'])

group('linexpr', ['apron/ap_linexpr0.c', 'apron/ap_lincons0.c'], LEAF_BND, spec_linexpr.LIN + spec_linexpr.LCONS, flags=['-DMPFR_USE_NO_MACRO'])

group('conv', [NUM_UNIT, 'apron/ap_scalar.c'], LEAF_NUM, spec_conv.CONVN, flags=['-DMPFR_USE_NO_MACRO'])
group('itvconv', ['itv/itv.c'], LEAF_BND, spec_conv.CONVI, flags=['-DMPFR_USE_NO_MACRO'], must=[])

group('boxconv', ['box/box_constructor.c'], LEAF_BND, spec_conv.CONVB, flags=['-DMPFR_USE_NO_MACRO'])
group('octconv', ['octagons/oct_hmat.c'], LEAF_BND, spec_conv.CONVO, flags=['-DMPFR_USE_NO_MACRO'])
group('octquery', ['octagons/oct_predicate.c'], LEAF_BND, spec_conv.CONVQ, flags=['-DMPFR_USE_NO_MACRO'], budget=300, opts={'qffeas': True})

group('eval', ['itv/itv_linearize.c', 'itv/itv_linexpr.c', 'itv/itv.c'], LEAF_BND, spec_eval.EVAL, flags=['-DMPFR_USE_NO_MACRO'], opts={'member': True}, must=[])
group('pkvec', ['newpolka/pk_vector.c'], LEAF_BND, spec_pk.PKVEC, opts={'absmul': True})
group('pkbit', ['newpolka/pk_bit.c'], LEAF_BND, spec_pk.PKBIT)

# layers below every group, in the order in which their contracts are looked up
LOWER = ['pkvec', 'pkbit', 'octconv', 'boxconv', 'itvconv', 'conv', 'linexpr', 'coeff', 'scalar', 'octdim', 'oct', 'hmat', 'boxdim', 'box', 'dim', 'itv', 'num']


class Prop(object):
    def __init__(self, pid, title, groups, harness=None, dirs=('apron', 'itv', 'box', 'octagons'), only=None,
                 notes=(), bounded=(), always=True):
        self.id, self.title, self.groups, self.harness, self.dirs, self.only = pid, title, groups, harness, dirs, only
        self.notes, self.bounded, self.always = list(notes), list(bounded), always


PROPS = {}


def prop(pid, *a, **k):
    PROPS[pid] = Prop(pid, *a, **k)


prop('C01', 'extended-rational bounds', ['num'], 'h_C01.c', ('apron', 'itv'))
prop('C02', 'interval arithmetic', ['itv'], 'h_C02.c', ('apron', 'itv'))
prop('C07', 'box lattice', ['box'], 'h_C07.c', ('apron', 'itv', 'box'))
prop('C08', 'box dimension operations', ['boxdim'], 'h_C08.c', ('apron', 'itv', 'box'), always=True)
prop('C11', 'dimension changes and permutations', ['dim'], 'h_C11.c', ('apron', 'itv'))
prop('C03', 'octagon closure', ['hmat'], 'h_C03.c', ('apron', 'itv', 'octagons'), always=True,
     bounded=['that the closure is complete (tightest bounds, exact emptiness test) is compared with a naive strong closure on random matrices of up to 5 variables'])
prop('C04', 'octagon lattice operations', ['oct'], 'h_C04.c', ('apron', 'itv', 'octagons'), always=True,
     bounded=['exactness (that results are the smallest octagon, that a negative answer of a comparison is right), the array versions of meet and join, widening with thresholds, perturbation and the stabilisation of widening sequences are compared with closed oracle octagons of up to 14 variables, in every representation'])
prop('C05', 'octagon dimension operations', ['octdim'], 'h_C05.c', ('apron', 'itv', 'octagons'), always=True,
     bounded=['addition, removal, expansion and folding of dimensions, and the exactness of forgetting, are compared with closed oracle octagons of up to 10 variables, in every representation, destructive or not'])
prop('C09', 'scalars, intervals and coefficients', ['scalar', 'coeff'], 'h_C09.c', ('apron', 'itv'),
     notes=['members of a union are modelled as separate cells, selected by the discriminant', 'doubles and MPFR numbers are not NaN'])
prop('C10', 'linear expressions and constraints', ['linexpr'], 'h_C10.c', ('apron', 'itv'),
     notes=['members of a union are modelled as separate cells, selected by the discriminant'],
     bounded=['reallocation, insertion of terms, minimisation, comparison, hashing, changes of dimensions, arrays and generators are compared with arrays of coefficients, for expressions of up to 48 dimensions, dense and sparse, with free terms'])
prop('C06', 'octagon transfer functions', ['octconv', 'octquery'], 'h_C06.c', ('apron', 'itv', 'octagons'),
     notes=['members of a union are modelled as separate cells, selected by the discriminant'],
     bounded=['assignments, substitutions, intersections with constraints, satisfaction of and bounds of expressions, conversions and generators are compared with exact evaluation on points and with closed oracle octagons, for up to 6 variables'])
prop('C18', 'box transfer functions', ['conv', 'itvconv', 'boxconv'], 'h_C18.c', ('apron', 'itv', 'box'),
     notes=['members of a union are modelled as separate cells, selected by the discriminant', 'MPFR contracts are assumed, doubles and MPFR numbers are not NaN'],
     bounded=['assignments, substitutions, intersections with constraints, satisfaction of and bounds of expressions, conversions and generators are compared with exact evaluation on points, for up to 6 variables'])
prop('C16', 'polyhedra', ['pkvec', 'pkbit'], 'h_C16.c', ('apron', 'itv', 'newpolka'),
     notes=['product and divisibility of integers are uninterpreted in the vector layer'],
     bounded=['the operations of the abstract domain are compared with exact evaluation on points and with each other, for polyhedra of up to 5 variables, strict or not'])
prop('C25', 'tree expressions', ['eval'], 'h_C25.c', ('apron', 'itv', 'box', 'octagons', 'newpolka'),
     notes=['members of a union are modelled as separate cells, selected by the discriminant',
            'the square root, the power and the rounding to a floating-point format of an interval are assumed to enclose the result on every member (checked by the replay on exact points)'],
     bounded=['linearisation, assignments, substitutions, intersections with and satisfaction of tree constraints are compared with exact evaluation on points, for trees of up to 4 levels over up to 5 dimensions, with all operators, types and rounding modes, on boxes, octagons and polyhedra'])
