# further properties (executed by gen_meta.py)
prop('C03', 'Closing an octagon keeps its points and detects emptiness',
     'Full and incremental closure of an octagonal constraint matrix never remove a point that satisfies the constraints, never loosen a constraint, and report emptiness only when no point satisfies them, for every dimension. '
     'The closed matrix holds the tightest bounds implied over the rationals, and an unsatisfiable matrix is always reported.',
     ['inputs'], 'all constraint matrices of all dimensions with rational or infinite bounds',
     SAMPLE, ['octagons/oct_closure.c', 'octagons/oct_hmat.c', 'octagons/oct_internal.h'],
     [('closure algorithms', 'octagons/oct_closure.c'), ('half-matrix layout and allocation', 'octagons/oct_internal.h, octagons/oct_hmat.c')],
     ['the bounds of the closed matrix', 'returned emptiness'],
     claim='soundness discharged for every dimension; tightness is checked against a naive closure within a stated bound (bounded, not counted as proved)')

prop('C04', 'Octagon lattice operations are sound in every representation',
     'On octagons of equal dimensions, the meet holds exactly the common points, the join and the widening hold all points of both arguments, the narrowing of a by a smaller b stays between b and a, and inclusion, equality, emptiness and universality are reported only when they hold, whichever of the closed and unclosed representations the arguments carry. '
     'Non-destructive operations leave the sets denoted by their arguments unchanged, in-place ones (also with both arguments equal) give the same result, and every widening sequence stabilises. '
     'In the exact rational-number build the meet, join and comparisons are also exact.',
     ['inputs', 'histories'], 'all octagons of all dimensions in all representations, destructive or not',
     SAMPLE, ['octagons/oct_nary.c', 'octagons/oct_predicate.c', 'octagons/oct_representation.c'],
     [('meet, join, widening, narrowing', 'octagons/oct_nary.c'), ('predicates', 'octagons/oct_predicate.c'), ('representation and caching of the closure', 'octagons/oct_representation.c')],
     ['the set denoted by the result', 'the returned boolean', 'the sets denoted by the arguments afterwards'],
     claim='soundness discharged for every dimension and representation; exactness, array versions and stabilisation are compared with an oracle within a stated bound (bounded, not counted as proved)')

prop('C05', 'Octagon dimension operations transport every constraint exactly',
     'Adding, removing, permuting, forgetting, projecting, expanding and folding dimensions of an octagon give exactly the set obtained by the corresponding operation on points (for folding, the smallest octagon containing it), for every dimension and every representation of the argument, in the exact rational-number build. '
     'Constraints between untouched variables follow their variables to their new places, new or forgotten variables are unconstrained (or zero when projecting), and the numbers of integer and real dimensions are updated accordingly. '
     'Non-destructive calls leave the set denoted by the argument unchanged, and destructive ones give the same result.',
     ['inputs'], 'all octagons of all dimensions in all representations, all valid dimension lists, destructive or not',
     SAMPLE, ['octagons/oct_resize.c', 'octagons/oct_representation.c'],
     [('dimension operations', 'octagons/oct_resize.c'), ('matrix layout', 'octagons/oct_internal.h')],
     ['the set denoted by the result', 'dimensions of the result', 'the set denoted by the argument afterwards'],
     claim='permutation and forgetting discharged for every dimension and representation; the other operations are compared with an oracle within a stated bound (bounded, not counted as proved)')

prop('C09', 'Scalars, intervals and coefficients denote exact numbers',
     'Whichever of the three representations (double, rational, multi-precision float) its operands have, every scalar, interval and coefficient operation gives what the denoted extended rational numbers demand: comparisons are exact and return the documented codes, assignments and negations preserve the exact value and the representation, and conversions round in the requested direction and report on which side. '
     'Interval inclusion and equality treat all empty intervals alike, and coefficients of different kinds are never equal. '
     'Operands that are only read keep their value, also when they alias the result.',
     ['inputs'], 'all scalars, intervals and coefficients without NaN in all combinations of representations',
     SAMPLE, ['apron/ap_scalar.c', 'apron/ap_interval.c', 'apron/ap_coeff.c'],
     [('scalars', 'apron/ap_scalar.c, apron/ap_scalar.h'), ('intervals', 'apron/ap_interval.c'), ('coefficients', 'apron/ap_coeff.c')],
     ['values and representations of the results', 'returned codes', 'values of the operands afterwards'],
     claim='every function under contract discharged in both layers; MPFR and GMP contracts are assumed, with NaN excluded')


prop('C10', 'Linear expressions and constraints denote the coefficients put in',
     'A linear expression, dense or sparse, is a map from dimensions to coefficients plus a constant: reading gives back what was last written, allocation gives zero, copying, resizing, minimising, comparing and hashing respect the map, and adding or permuting dimensions moves every coefficient to its new dimension and leaves new ones zero, with terms kept sorted and free terms last. '
     'The classifications (integer, real, linear, quasilinear, type, also of arrays of expressions and constraints) say exactly what the coefficients are. '
     'A constraint is reported unsatisfiable only if no value of its constant satisfies it and satisfied only if every value does, and both answers are exact on constants except for congruences.',
     ['inputs', 'histories'], 'all dense and sparse expressions of all sizes with scalar and interval coefficients',
     SAMPLE, ['apron/ap_linexpr0.c', 'apron/ap_lincons0.c', 'apron/ap_generator0.c'],
     [('linear expressions', 'apron/ap_linexpr0.c, apron/ap_linexpr0.h'), ('linear constraints', 'apron/ap_lincons0.c'), ('generators', 'apron/ap_generator0.c')],
     ['coefficient of every dimension', 'order of the linear terms', 'returned booleans and comparison codes', 'values of the operands afterwards'],
     claim='classifications, lookup, allocation, copying and constraint tests discharged for every size; insertion, comparison and changes of dimensions are compared with an oracle within a stated bound (bounded, not counted as proved)')

prop('C06', 'Octagon transfer functions over-approximate expressions and constraints',
     'Assigning and substituting (in sequence or in parallel, with or without a destination) linear and interval expressions, intersecting with linear constraints, and adding rays to an octagon keep every point that the operation on points produces, and are exact on octagonal forms in the exact rational-number build. '
     'Bounds reported for a dimension or an expression enclose every value taken on the set, and are the tightest for a dimension; a constraint or an interval is reported satisfied only if all points satisfy it, and whenever the exactness flag is set the answer is exact. '
     'Converting to and from boxes, constraints and generators loses no point, bounds are rounded outwards in every number representation, and arguments keep their sets.',
     ['inputs'], 'all octagons in all representations, all linear and interval expressions and constraints, destructive or not',
     SAMPLE, ['octagons/oct_transfer.c', 'octagons/oct_predicate.c', 'octagons/oct_hmat.c', 'octagons/oct_representation.c', 'octagons/oct_internal.h'],
     [('transfer functions', 'octagons/oct_transfer.c'), ('queries', 'octagons/oct_predicate.c'), ('conversions of bounds', 'octagons/oct_internal.h, octagons/oct_hmat.c')],
     ['the set denoted by the result', 'the returned intervals and booleans', 'the exactness flag', 'the sets denoted by the arguments afterwards'],
     claim='conversions of bounds, interval of a dimension and satisfaction of an interval discharged for all inputs; the transfer functions are compared with exact evaluation on points within a stated bound (bounded, not counted as proved)')

prop('C18', 'Box transfer functions over-approximate expressions and constraints',
     'Assigning and substituting (in sequence or in parallel, with or without a destination) linear and interval expressions and intersecting with linear constraints keep every point that the operation on points produces, whatever number representation the coefficients use. '
     'Intervals reported for a dimension or an expression enclose every value taken on the box, a constraint or interval is reported satisfied only if all points satisfy it, and whenever the exactness flag is set the answer is exact. '
     'Numbers and intervals are converted between the user representation and the internal one with outward rounding, exactly where representable, with an exactness answer that is right.',
     ['inputs'], 'all boxes, all linear and interval expressions and constraints in all number representations, destructive or not',
     SAMPLE, ['box/box_assign.c', 'box/box_meetjoin.c', 'box/box_constructor.c', 'itv/itv.c', 'itv/itv_linexpr.c', 'num/bound_def.h', 'num/num_numrat.h'],
     [('assignments', 'box/box_assign.c'), ('constraints', 'box/box_meetjoin.c, itv/itv_linearize.c'), ('queries', 'box/box_constructor.c'), ('conversions of numbers', 'num/numrat_mpq.h, num/bound_def.h, itv/itv.c')],
     ['the intervals of the returned box', 'the returned intervals and booleans', 'the exactness flag', 'values converted to or from the user representation'],
     claim='conversions in both directions, bounds of a dimension and satisfaction of an interval discharged for all inputs; assignments and constraints are compared with exact evaluation on points within a stated bound (bounded, not counted as proved)')

prop('C16', 'Polyhedra operations agree with the sets of points they denote',
     'On convex polyhedra, loose or strict, every operation of the abstract domain (lattice operations and comparisons, widening, assignments and substitutions, intersection with constraints, rays, dimension changes, forgetting, expansion, folding, queries and conversions) keeps every point the operation on points produces, reports a truth only when it holds, and is exact whenever the exactness flag is set. '
     'Results do not depend on which of the dual representations is available, and arguments of non-destructive calls keep their sets. '
     'Integer vectors and saturation bit strings that represent constraints and generators are copied, compared, multiplied and normalised exactly.',
     ['inputs', 'histories'], 'all polyhedra in all states of the dual representation, all linear expressions and constraints, destructive or not',
     SAMPLE, ['newpolka/pk_vector.c', 'newpolka/pk_bit.c', 'newpolka/pk_assign.c', 'newpolka/pk_meetjoin.c', 'newpolka/pk_resize.c', 'newpolka/pk_test.c', 'newpolka/pk_project.c', 'newpolka/pk_expandfold.c', 'newpolka/pk_widening.c', 'newpolka/pk_extract.c', 'newpolka/pk_cherni.c'],
     [('vectors of integers', 'newpolka/pk_vector.c'), ('bit strings', 'newpolka/pk_bit.c'), ('double description', 'newpolka/pk_cherni.c, newpolka/pk_representation.c'), ('operations', 'newpolka/pk_assign.c, newpolka/pk_meetjoin.c, newpolka/pk_resize.c, newpolka/pk_test.c')],
     ['points in the set denoted by the result', 'returned intervals and booleans', 'the exactness flag', 'vectors and bit strings'],
     claim='the vector and bit-string layers are discharged for every size; the operations of the domain are compared with exact evaluation on points within a stated bound (bounded, not counted as proved)')

prop('C25', 'Tree expressions are evaluated and linearised soundly',
     'Evaluating an expression tree (all operators, integer, real and floating-point types, all rounding modes) or a linear expression over a box gives an interval holding its value at every point of the box, and linearising it gives a linear expression with interval coefficients whose values include that of the tree at every point of the box. '
     'Consequently assigning or substituting a tree, intersecting with tree constraints, and bounding or testing trees lose no point on boxes, octagons and polyhedra, whatever the number representation, and a test answers true only if all points satisfy it.',
     ['inputs'], 'all trees, boxes and linear expressions with scalar or interval coefficients',
     SAMPLE, ['itv/itv_linearize.c', 'itv/itv_linexpr.c', 'apron/ap_linearize.c', 'apron/ap_linearize_aux.c', 'apron/ap_generic.c', 'apron/ap_texpr0.c'],
     [('evaluation and linearisation', 'itv/itv_linearize.c, itv/itv_linexpr.c'), ('generic functions of the user level', 'apron/ap_linearize.c, apron/ap_linearize_aux.c')],
     ['the returned interval', 'the coefficients of the returned linear expression', 'points of the resulting abstract value', 'returned booleans'],
     claim='the evaluation of linear expressions and of trees over boxes is discharged for all inputs; linearisation and the operations of the domains on trees are compared with exact evaluation on points within a stated bound (bounded, not counted as proved)')
