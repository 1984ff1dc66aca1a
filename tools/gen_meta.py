#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from gatlcheck import registry

H = 'cpp/include/gatl/ga/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), na=None, note=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=[f if f.startswith('cpp') or f.endswith('.md') else H + f for f in files],
                  mech=[{'name': a, 'where': H + b} for a, b in mech], observe=list(observe), na=na, note=note))


IN = ['inputs', 'programs']
COEF = 'every real value of every coefficient of both operands; every predefined algebra; operands given by every pair of grades (or as full multivectors)'
GTEST = 'The tests sample a handful of random floating-point coefficient sets in a few algebras with a tolerance; a wrong sign or a missing term on an untested blade pair, algebra or signature passes.'

prop('C01', 'Geometric product agrees with the metric', 'The geometric product of any two multivectors of an algebra is the bilinear, associative product fixed by the metric matrix of that algebra (the square of a vector is its metric form), for orthogonal, degenerate and non-orthogonal metrics alike.',
     IN, COEF + '; signed metrics (p,q,r); symmetric constant metric matrices', GTEST,
     ['core/geometric_product.hpp', 'core/orthogonal_metric_mapping.hpp', 'core/general_metric_mapping.hpp', 'core/mapping.hpp', 'core/expression.hpp'],
     [('product rule of basis blades', 'core/geometric_product.hpp'), ('change of basis of a non-orthogonal metric', 'core/general_metric_mapping.hpp'), ('reordering sign', 'core/expression.hpp')],
     ['coefficients of gp(x, y) and x * y'])
prop('C02', 'Outer and regressive products', 'The outer product of any two multivectors is the metric-free antisymmetric product of the exterior algebra, and the regressive product is its dual with respect to the unit pseudoscalar of the space.',
     IN, COEF, GTEST, ['core/outer_product.hpp', 'core/regressive_product.hpp', 'core/exterior_product_mapping.hpp', 'core/regressive_product_mapping.hpp'],
     [('exterior product of basis blades', 'core/exterior_product_mapping.hpp'), ('regressive product of basis blades', 'core/regressive_product_mapping.hpp')], ['coefficients of op(x, y), x ^ y, rp(x, y)'])
prop('C03', 'Contractions and inner products are grade parts of the geometric product', 'For operands of grades r and s the left contraction, right contraction, dot product, Hestenes inner product and scalar product are respectively the grade s-r, r-s, |r-s|, |r-s| (zero when r or s is 0) and 0 parts of the geometric product, extended bilinearly to general multivectors.',
     IN, COEF, GTEST, ['core/left_contraction.hpp', 'core/right_contraction.hpp', 'core/dot_product.hpp', 'core/hestenes_inner_product.hpp', 'core/scalar_product.hpp'],
     [('grade filters of the metric products', 'core/left_contraction.hpp'), ('grade filter of the Hestenes product', 'core/hestenes_inner_product.hpp')], ['coefficients of lcont, rcont, dot, hip, sp and of <, >, |'])
prop('C04', 'Commutator, inverse and delta products', 'The commutator product is half the difference of the two geometric products; the inverse geometric product and division multiply by the inverse of the right-hand versor; the delta product is the highest-grade part of the geometric product that is not zero within the tolerance.',
     IN, COEF + '; every tolerance', GTEST + ' Which grade the delta product keeps depends on runtime magnitudes the tests do not vary.',
     ['extra/commutator_product.hpp', 'extra/inverse_geometric_product.hpp', 'extra/delta_product.hpp', 'extra/arithmetic_operators.hpp', 'extra/macro_for_algebra_overload.hpp'],
     [('commutator', 'extra/commutator_product.hpp'), ('inverse product', 'extra/inverse_geometric_product.hpp'), ('runtime grade selection', 'extra/delta_product.hpp')], ['coefficients of cp, igp, x / v, dp'])
prop('C05', 'Multivectors form a vector space', 'Addition, subtraction, negation and scaling act coefficient by coefficient for every combination of operand shapes; like components are collected, and cancelling ones vanish, wherever a coefficient is stored or known at compile time.',
     IN, 'every real value of every coefficient; dense, sparse, constant and mixed operands', GTEST, ['core/arithmetic_operators.hpp', 'core/expression_simplification_addition_components.hpp', 'core/expression_simplification_addition_values.hpp'],
     [('merge of sorted component lists', 'core/expression_simplification_addition_components.hpp'), ('collection of like values', 'core/expression_simplification_addition_values.hpp')], ['coefficients of x + y, x - y, -x, s * x, x / s'])
prop('C06', 'Sign-change operations', 'Reversion, grade involution and Clifford conjugation multiply the grade-k part by (-1)^(k(k-1)/2), (-1)^k and (-1)^(k(k+1)/2) for every k and every multivector, native numbers included; hence each is an involution and reversion an anti-automorphism.',
     IN, 'every real value of every coefficient; every predefined algebra', GTEST, ['core/reversion.hpp', 'core/involution.hpp', 'core/conjugation.hpp', 'core/expression_graded_unary_minus.hpp', 'core/rules.hpp'],
     [('grade-dependent sign', 'core/expression_graded_unary_minus.hpp')], ['coefficients of reverse(x), ~x, involute(x), conjugate(x)'])
prop('C07', 'How a coefficient or an argument is stored never changes the result', 'An operation gives the same multivector whether a coefficient is a native number, a wrapped scalar, a compile-time constant, a stored value, or a constant component of a bigger multivector, and whichever of the documented call forms (operator or function, metric given or implied, scalar on either side) is used.',
     IN, 'all documented binary and unary operations crossed with the storage forms of each operand; every coefficient value', 'The tests use a single form per operation; each form selects different template overloads and different simplification rules.',
     ['core/arithmetic_operators.hpp', 'core/macro_for_algebra_overload.hpp', 'extra/macro_for_algebra_overload.hpp', 'core/constant.hpp', 'core/scalar.hpp'],
     [('overload sets', 'core/macro_for_algebra_overload.hpp'), ('native-number overloads', 'core/geometric_product.hpp')], ['coefficients of the results of all call forms'])
prop('C08', 'Runtime-defined and compile-time basis blades agree', 'A multivector whose basis blades are only known at run time behaves under every product, sum and sign change exactly like the one written with the corresponding compile-time basis blades, for every runtime index.',
     IN, 'every runtime index value inside the space; every coefficient value', 'The tests pass a few fixed indices; parity and grade decisions taken at run time depend on the index bits.',
     ['core/expression.hpp', 'core/mapping.hpp', 'core/exterior_product_mapping.hpp', 'core/orthogonal_metric_mapping.hpp', 'core/clifford_expression.hpp'],
     [('runtime reordering sign', 'core/expression.hpp'), ('dynamic components', 'core/clifford_expression.hpp')], ['coefficients of products of runtime blades'])
prop('C09', 'Algebraic simplification preserves values', 'Whatever algebraic rewriting is applied while an expression is built (constant folding, collection of like terms, merging of powers, reordering and cancellation), evaluating it gives the value of the expression as written, for every input on which that value is defined.',
     ['programs', 'inputs'], 'nested expressions of sums, products, powers, absolute values and roots of coefficients; every coefficient value', 'The set of nested expressions is unbounded and each nesting selects other rewrite rules; tests evaluate fixed expressions at random positive numbers.',
     ['core/expression_simplification_addition_values.hpp', 'core/expression_simplification_product_values.hpp', 'core/expression_simplification_power.hpp', 'core/expression_relational_operators.hpp', 'core/math.hpp'],
     [('rewrite rules of products of values', 'core/expression_simplification_product_values.hpp'), ('rewrite rules of powers', 'core/expression_simplification_power.hpp')], ['coefficients of evaluated nested expressions'])
prop('C10', 'Lazy evaluation equals eager evaluation', 'Evaluating an expression built from lazy arguments gives the result of applying the same operations to the inputs directly, including when arguments are repeated, constant, conditional, or used by several expressions.',
     ['programs', 'inputs'], 'expressions over lazy arguments of every storage form; every input value', 'Tests cover few expression shapes; argument binding, iterator order and conditional branches vary with the shape.',
     ['core/lazy_context.hpp', 'core/expression.hpp', 'core/clifford_expression.hpp'], [('binding of lazy arguments', 'core/lazy_context.hpp'), ('conditional values', 'core/expression.hpp')], ['coefficients of lazy.eval(expr) against expr'])
prop('C11', 'Results are in canonical form', 'Every expression the library returns has each basis blade at most once, in the canonical order (by grade, then by basis blade), holds no component known to be zero at compile time, and stores exactly as many values and bitsets as its runtime-defined entries; equal multivectors of compile-time shape have equal types.',
     ['programs'], 'all results of the documented operations in the analysed programs', 'It is a property of the types of all expressions that can be written; tests look at values of a few.',
     ['core/clifford_expression.hpp', 'core/expression_traits.hpp', 'core/expression_relational_operators.hpp', 'core/expression_simplification_addition_components.hpp'],
     [('strict order of components', 'core/expression_relational_operators.hpp'), ('storage counts', 'core/expression_traits.hpp')], ['result types'])
prop('C12', 'Norms, unit and inverse', 'The squared reverse norm is the scalar part of x times its reverse, the reverse norm is its square root where it is not negative (for coefficients of either sign), unit divides by the square root of its absolute value, and the inverse of a versor is its reverse over its squared reverse norm, so versor times inverse is one.',
     IN, 'every coefficient value with nonzero norm; every predefined algebra', GTEST, ['extra/reverse_norm.hpp', 'extra/unit.hpp', 'extra/versor_inverse.hpp'], [('reverse norm', 'extra/reverse_norm.hpp'), ('inverse', 'extra/versor_inverse.hpp')], ['coefficients of rnorm_sqr, rnorm, unit, inv'])
prop('C13', 'Versor application is the sandwich product', 'Applying an even versor V to X gives V X V^-1, applying a rotor gives V X ~V, and applying an odd versor gives V involute(X) V^-1, for every versor and every multivector.',
     IN, 'every coefficient value; rotors, odd versors, general X', GTEST, ['extra/apply_versor.hpp'], [('sandwich products', 'extra/apply_versor.hpp')], ['coefficients of apply_even_versor, apply_odd_versor, apply_rotor'])
prop('C14', 'Dual and undual', 'Dualization is the left contraction onto the inverse of the given (by default the unit) pseudoscalar, undualization the left contraction onto the pseudoscalar itself, and undual(dual(x)) = x for every x in a non-degenerate space.',
     IN, 'every coefficient value; every non-degenerate predefined algebra; pseudoscalars of subspaces', GTEST, ['extra/dualization.hpp', 'util/pseudoscalar.hpp'], [('dualization', 'extra/dualization.hpp')], ['coefficients of dual, undual'])
prop('C15', 'Exponential of a blade', 'For an even blade B with square s the exponential is cos(sqrt(-s)) + B sin(sqrt(-s))/sqrt(-s) when s is below minus the tolerance, cosh(sqrt(s)) + B sinh(sqrt(s))/sqrt(s) when s is above it, and 1 + B otherwise.',
     IN, 'every coefficient value and tolerance; blades of positive, negative and null square', GTEST + ' The branch depends on the sign of the square.', ['extra/blade_exponential.hpp'], [('three-way branch on the square', 'extra/blade_exponential.hpp')], ['coefficients of exp(B)'])
prop('C16', 'Grade queries', 'The grade query answers the single grade whose part is nonzero within the tolerance, the mixed-grade marker when several are, and the undetermined-grade marker when none is; the largest-grade query answers the largest such grade or the undetermined marker; the compile-time possible-grade bounds always enclose the grades that can occur.',
     IN, 'every coefficient value and tolerance; homogeneous and mixed multivectors', 'The answer depends on which runtime coefficients are nonzero; tests try few patterns.', ['extra/grade.hpp', 'core/expression_traits.hpp'], [('grade query', 'extra/grade.hpp'), ('possible-grade bounds', 'core/expression_traits.hpp')], ['grade(x), largest_grade(x), largest_possible_grade_v, smallest_possible_grade_v'])
prop('C17', 'Grade extraction', 'Taking grade k keeps exactly the components of grade k, for k given at compile time, at run time or as a grade-query result, and taking the largest grade keeps the highest part that is nonzero within the tolerance.',
     IN, 'every coefficient value, every k, every tolerance', GTEST, ['extra/take_grade.hpp'], [('grade extraction', 'extra/take_grade.hpp')], ['coefficients of take_grade, take_largest_grade'])
prop('C18', 'Trivial and checked copies', 'A copy to a target of another shape succeeds exactly when every component of the source that is absent from the target is zero (within the tolerance for the checked copy) and fixed components agree; on success the target holds the coefficients of the source and zeros elsewhere, otherwise the documented exception is thrown.',
     IN, 'every coefficient value; every pair of source and target shapes, constant, stored and runtime-indexed', 'Whether a copy succeeds depends on runtime coefficients; tests try a few shapes.', ['core/trivial_copy.hpp', 'core/exceptions.hpp', 'core/clifford_expression.hpp'], [('assignment of components', 'core/trivial_copy.hpp')], ['target coefficients or exception'])
prop('C19', 'Iteration visits each component exactly once', 'Iterating over the components of an expression calls the function once per component, in canonical order (by grade, then by basis blade), with its basis blade, its coefficient and the right origin of each, and stops when asked; iterating over basis vectors visits exactly the indices of the blade.',
     IN, 'every expression shape; every coefficient value', 'Tests do not enumerate shapes mixing constant, stored and runtime-indexed components.', ['util/for_each_component.hpp', 'util/for_each_basis_vector.hpp'], [('iteration', 'util/for_each_component.hpp')], ['calls received by the function object'])
prop('C20', 'Constructors and basis elements', 'The vector constructors place the i-th coordinate on the i-th basis vector for coordinate lists and iterator ranges of any coordinate type, basis vector i is the unit vector of that index, scalars stay scalars, and the pseudoscalar is the outer product of all basis vectors in order.',
     IN, 'every coordinate value; every predefined algebra; coordinate lists and iterator ranges', GTEST, ['util/vector.hpp', 'util/basis_vector.hpp', 'util/pseudoscalar.hpp', 'core/scalar.hpp', 'core/constant.hpp', 'util/multivector.hpp'], [('vector constructors', 'util/vector.hpp'), ('basis vectors', 'util/basis_vector.hpp')], ['coefficients of vector(...), e(i), pseudoscalar()'])
prop('C21', 'Model constants, points and Euclidean vectors', 'In each model the named basis vectors, null vectors and pseudoscalars are the documented elements with the documented metric relations, Euclidean vectors carry their coordinates on the Euclidean basis, and points are unit (null in the conformal and Minkowski models, with inner product minus half the squared distance).',
     IN, 'every coordinate value; every predefined algebra', GTEST, ['model/conformal/point.hpp', 'model/signed/minkowski/point.hpp', 'model/signed/homogeneous/point.hpp', 'model/conformal/macro_for_algebra_definition.hpp', 'model/signed/minkowski/macro_for_algebra_definition.hpp', 'model/signed/macro_for_algebra_definition.hpp'],
     [('point embeddings', 'model/conformal/point.hpp'), ('metric matrices', 'model/conformal/metric_space.hpp'), ('named constants', 'model/conformal/macro_for_algebra_definition.hpp')], ['coefficients of the constants and of point(...)'])
prop('C22', 'Parameters of flats', 'For every flat (point, line, plane, ...) of the homogeneous, conformal and Minkowski models, in primal or dual form, the direction, moment, support and location functions return the geometric parameter of the flat they are named after.',
     IN, 'every position and direction; flats of every dimension', GTEST, ['model/signed/homogeneous/flat_direction.hpp', 'model/signed/homogeneous/flat_moment.hpp', 'model/signed/homogeneous/flat_support_vector.hpp', 'model/signed/homogeneous/flat_unit_support_point.hpp', 'model/conformal/flat_direction.hpp', 'model/conformal/flat_location.hpp', 'model/signed/minkowski/flat_direction.hpp', 'model/signed/minkowski/flat_location.hpp'],
     [('flat parameters', 'model/conformal/flat_location.hpp')], ['coefficients of the parameter functions'])
prop('C23', 'Parameters of rounds and tangents', 'For every round and tangent of the conformal and Minkowski models, in primal or dual form, the direction, location and squared-size functions return the direction, the center and the signed squared radius of the round, and the direction and point of the tangent.',
     IN, 'every center, radius and direction; rounds of every dimension', GTEST, ['model/conformal/round_direction.hpp', 'model/conformal/round_location.hpp', 'model/conformal/round_size_sqr.hpp', 'model/conformal/tangent_direction.hpp', 'model/conformal/tangent_location.hpp', 'model/signed/minkowski/round_direction.hpp', 'model/signed/minkowski/round_location.hpp', 'model/signed/minkowski/round_size_sqr.hpp', 'model/signed/minkowski/tangent_direction.hpp', 'model/signed/minkowski/tangent_location.hpp'],
     [('round parameters', 'model/conformal/round_location.hpp')], ['coefficients of the parameter functions'])
prop('C24', 'Projection, rejection, translation', 'Projection and rejection split a blade into the parts inside and outside another blade, and translating a flat of the homogeneous model by a Euclidean direction moves every point of it by that direction and keeps its direction.',
     IN, 'every coefficient value', GTEST, ['model/signed/euclidean/orthogonal_projection.hpp', 'model/signed/euclidean/rejection.hpp', 'model/signed/homogeneous/translation.hpp'], [('projection', 'model/signed/euclidean/orthogonal_projection.hpp'), ('translation', 'model/signed/homogeneous/translation.hpp')], ['coefficients of project, reject, translate'])
prop('C25', 'Scalar mathematical functions', 'Every overloaded mathematical function applied to a scalar expression is the standard function of its scalar value, for stored, native and compile-time constant arguments.',
     IN, 'every argument value in the domain of the function; every storage form', GTEST, ['core/math.hpp', 'core/expression.hpp', 'core/expression_simplification_power.hpp'], [('function overloads', 'core/math.hpp')], ['values of abs, sqrt, cbrt, pow, exp, log, sin, cos, tan, sinh, cosh, tanh'])
prop('C26', 'Zero, null and unit tests', 'The zero test holds exactly when every coefficient is within the tolerance of zero, the null test when the squared reverse norm is (and the argument need not be zero), and the unit test when the absolute value of the squared reverse norm is within the tolerance of one.',
     IN, 'every coefficient value and tolerance', 'A boundary answer depends on the value of each coefficient and the tolerance.', ['extra/tests.hpp'], [('tests', 'extra/tests.hpp')], ['is_zero, is_null, is_unit'])
prop('C27', 'Results do not depend on dead objects and operations leave operands alone', 'No documented operation reads an object whose lifetime has ended or a value never written, keeps a reference to a temporary in its result, modifies an operand or touches mutable global state.',
     ['programs', 'inputs'], 'every documented operation, every control-flow path of its evaluation', 'Reading a dead temporary often yields the right number in unoptimised tests; whether it does depends on the compiler and the stack.',
     ['core/lazy_context.hpp', 'core/clifford_expression.hpp', 'core/expression.hpp', 'extra/grade.hpp', 'extra/take_grade.hpp', 'extra/delta_product.hpp', 'extra/blade_exponential.hpp'],
     [('storage of lazy arguments', 'core/lazy_context.hpp')], ['reads of the optimised program'])
prop('C28', 'Misuse is rejected at compile time', 'Programs that pass arguments of the wrong kind or number to an operation, non-scalar arguments to scalar functions or conversions to numbers, non-positive compile-time indices, too many or too few coordinates for the space, targets that can never hold a source, blades of grades the space does not have, lazy arguments used as values, divisors known to be zero, or metric spaces and configurations beyond the documented limits do not compile.',
     ['programs'], 'every documented compile-time restriction', 'A test suite only holds programs that compile.', ['core/math.hpp', 'core/trivial_copy.hpp', 'util/vector.hpp', 'util/basis_vector.hpp', 'core/metric_space.hpp'],
     [('static assertions and overload constraints', 'core/trivial_copy.hpp')], ['acceptance by the compiler'])
prop('C29', 'Each algebra namespace binds its own metric', 'Every metric operation called in the namespace of an algebra without a metric argument gives the same result as the call with the metric of that namespace, and including several algebras in one program does not change what each of them computes.',
     ['programs', 'inputs'], 'all metric operations times all predefined namespaces; pairs of algebras in one program', 'Each namespace has its own generated overload set; tests exercise few of the pairs.', ['core/macro_for_algebra_overload.hpp', 'extra/macro_for_algebra_overload.hpp', 'model/signed/euclidean/macro_for_algebra_overload.hpp', 'model/conformal/macro_for_algebra_overload.hpp', 'model/signed/minkowski/macro_for_algebra_overload.hpp', 'model/signed/homogeneous/macro_for_algebra_overload.hpp'],
     [('overload macros', 'extra/macro_for_algebra_overload.hpp')], ['coefficients with and without the metric argument'])
prop('C30', 'Headers compose', 'Every public header can be included first, alone, twice and together with all others, in several translation units of one program, without compile errors or multiple-definition link errors; and the documented configuration macros change neither that nor what operations compute.',
     ['programs', 'configurations'], 'all public headers, all inclusion orders of pairs of algebras, all documented configuration macros', 'Each test program includes one header in one translation unit.', ['cpp/include/gatl/ga.hpp', 'cpp/include/gatl/ga3c.hpp', 'core.hpp', 'extra.hpp', 'util.hpp'], [('include guards', 'core.hpp')], ['acceptance by the compiler'])
prop('C31', 'Formatted output names every component', 'Writing an expression emits each of its components once, with its coefficient and the names of exactly the basis vectors of its blade, in order, for constant, stored and runtime-indexed components.',
     IN, 'every expression shape; every coefficient value', 'Tests do not compare the output text.', ['extra/write.hpp'], [('writer', 'extra/write.hpp')], ['sequence of stream insertions'])
prop('C32', 'Meet, join and plunge of blades', 'The join of two blades spans their union, the meet spans their intersection, the pair factors both blades, and the plunge is the dual relation, for every pair of blades and within the tolerance.',
     IN, 'every pair of blades', GTEST, ['extra/fast_meet_and_join.hpp', 'extra/meet_and_join.hpp', 'extra/plunge.hpp', 'extra/fast_plunge.hpp'], [('join algorithms', 'extra/meet_and_join.hpp')], ['coefficients of fast_join, meet_and_join, plunge'])
prop('C33', 'Coefficient types combine like the native types', 'An operation on multivectors of different coefficient types computes in their common type, so no coefficient is narrowed, and integer coefficients give exact integer results where no division is involved.',
     IN, 'all pairs of arithmetic coefficient types; every value', 'Tests use one coefficient type (double).', ['core/clifford_expression.hpp', 'core/type_traits_extension.hpp', 'core/arithmetic_operators.hpp'], [('common coefficient type', 'core/clifford_expression.hpp')], ['coefficient types and values'])


def main():
    T = registry.table()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            h.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            for f in p['files']:
                assert os.path.exists(os.path.join('/repo', f)), f
    checks, na = [], []
    for p in P:
        t = T.get(p['id'])
        if t:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t.technique, 'level': 'other', 'level_note': t.level_note})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'No check is registered for it.'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as h:
        json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks are needed: every check compiles its own probe programs against the current headers of /repo and analyses the compiler\'s intermediate representation or its verdict.'}, h, indent=1)
    print('%d properties, %d checks, %d not applicable' % (len(P), len(checks), len(na)))


if __name__ == '__main__':
    main()
