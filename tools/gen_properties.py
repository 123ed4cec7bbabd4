#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
H='cpp/include/gatl/ga/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],mechanism=[dict(name=a,where=H+b) for a,b in mech],observe_at=observe,hook_needed=None)))
p('C01','The geometric product is the Clifford product of the declared signature',
 'For every diagonal signature (p,q,r) (Euclidean, homogeneous, plane-based, Minkowski or any other signed space) and every pair of multivectors, the geometric product returns exactly the product of the Clifford algebra of that signature: bilinear and associative, each basis vector squaring to its declared metric value (+1, -1 or 0, in that index order) and distinct basis vectors anticommuting. This holds for basis blades, vectors, k-vectors and full multivectors alike, whether the basis blades are fixed at compile time or chosen at run time, and for any supported number of dimensions.',
 ['inputs','configurations'],'all signatures, all pairs of multivectors, all basis-vector indices up to the configured maximum',
 'The product tests of the suite do not compile with the available compiler and, where they do, sample one Euclidean table for n<=3; no other signature, no run-time blade and no high index is ever multiplied.',
 ['core/geometric_product.hpp','core/orthogonal_metric_mapping.hpp','core/exterior_product_mapping.hpp','core/rules.hpp','core/constexpr.hpp','model/signed/metric_space.hpp'],
 [('grade filter and sign of the orthogonal product','core/orthogonal_metric_mapping.hpp'),('canonical reordering sign','core/constexpr.hpp'),('metric entries of the signed space','model/signed/metric_space.hpp')],
 ['coefficients and basis blades of gp(lhs, rhs, metric)'])
p('C02','The outer product is the metric-free alternating product',
 'For all multivectors, in every space, the outer product equals the exterior product: bilinear, associative, zero whenever the two basis blades share a vector, and otherwise the union blade with the sign of sorting the concatenated factors; it never depends on the metric. The blades involved may be known at compile time or only at run time.',
 ['inputs','configurations'],'all pairs of multivectors, all metrics, all index ranges',
 'The outer-product tests do not build with the available compiler; they would only sample n<=3 Euclidean tables.',
 ['core/outer_product.hpp','core/exterior_product_mapping.hpp','core/constexpr.hpp'],[('exterior product mapping','core/exterior_product_mapping.hpp')],['op(lhs, rhs, metric)'])
p('C03','Inner, scalar and commutator products are the right parts of the product',
 'For multivectors A and B of grades r and s, in every metric, the left contraction is the grade s-r part of the geometric product AB, the right contraction its grade r-s part, the dot product its grade |r-s| part, the Hestenes inner product that same part except that it vanishes when r or s is zero, and the scalar product its grade 0 part, all extended bilinearly. The commutator product is (AB - BA)/2.',
 ['inputs','configurations'],'all pairs of multivectors, all metrics, compile-time and run-time blades',
 'The inner-product tests do not build here or are listed as failing; they cover only n<=3 Euclidean basis tables and never a null or negative direction.',
 ['core/left_contraction.hpp','core/right_contraction.hpp','core/dot_product.hpp','core/hestenes_inner_product.hpp','core/scalar_product.hpp','extra/commutator_product.hpp','core/mapping.hpp'],
 [('are_valid_grades / possible_grades_result of each product','core/left_contraction.hpp'),('commutator','extra/commutator_product.hpp')],['lcont, rcont, dot, hip, sp, cp'])
p('C04','Products respect arbitrary (non-orthogonal) metric matrices',
 'For every symmetric metric matrix given by the user, and for the conformal spaces whose null basis has off-diagonal metric entries, the geometric product satisfies ab + ba = 2 M(a,b) for all vectors a and b, is associative and bilinear, and the contractions, dot, Hestenes and scalar products are its grade-selected parts. Orthogonal matrices give the same results as the signed space with that diagonal.',
 ['inputs','configurations'],'all symmetric metric matrices, all pairs of multivectors',
 'No test of the suite uses a general or conformal metric.',
 ['core/general_metric_mapping.hpp','core/metric_space.hpp','model/general/metric_space.hpp','model/conformal/metric_space.hpp'],
 [('product expansion for general metrics','core/general_metric_mapping.hpp')],['gp, lcont, rcont, dot, hip, sp with general and conformal metrics'])
p('C05','Results do not depend on how a multivector is represented',
 'The same multivector may be held as a compile-time constant, a unit or scaled basis blade fixed at compile time, a basis blade chosen at run time, a vector, a k-vector or a full multivector with run-time coefficients, of integral or floating-point type; for every operation, operands that denote the same values give results that denote the same value whatever the representations are. Mixing representations in one operation, or using native numbers as scalars, changes neither the set of nonzero components nor their coefficients.',
 ['programs','inputs'],'all operations, all combinations of operand representations, all values',
 'Tests fix one representation per case; the cross product of representations and operations is never visited.',
 ['core/expression_simplification_product_components.hpp','core/expression_simplification_addition_components.hpp','core/rules.hpp','core/clifford_expression.hpp','util/basis_blade.hpp','util/multivector.hpp'],
 [('component-level simplification','core/expression_simplification_product_components.hpp'),('macro overloads for native operands','core/macro_for_algebra_overload.hpp')],['all binary and unary operations'])
p('C06','Lazy evaluation yields the eager result',
 'For every program built from the library operations whose run-time inputs are all arguments of one lazy context, evaluating the composed lazy expression once gives the same multivector as applying the operations eagerly one by one, for every value of the inputs and every way of passing them, including temporaries and constants. Compile-time simplification of the composed expression never changes a value, drops a term, or reads an input from the wrong position.',
 ['programs','inputs'],'all operation trees over lazy arguments, all input values and representations',
 'The suite compares a few hand-written lazy expressions; the program space is unbounded.',
 ['core/lazy_context.hpp','core/expression.hpp','core/expression_traits.hpp','core/expression_simplification_addition_values.hpp','core/expression_simplification_product_values.hpp','core/expression_simplification_power.hpp','core/expression_simplification_addition_components.hpp','core/expression_simplification_product_components.hpp'],
 [('tagging of inputs and evaluation','core/lazy_context.hpp'),('term ordering and collection','core/expression_simplification_addition_values.hpp')],['lazy.eval(expression) against the eager result'])
p('C07','Scalar arithmetic and its compile-time simplification are value preserving',
 'For scalar expressions, sums, differences, products, quotients, integer and fractional powers, square and cubic roots, absolute value, exponential, logarithm, trigonometric and hyperbolic functions give the real-number value of the written formula (up to rounding) at every argument where the formula is defined, whether operands are compile-time integers, run-time values or a mixture, eager or lazy. In particular roots of even powers are non-negative, odd powers keep their sign, and compile-time rational constants are never truncated.',
 ['programs','inputs'],'all scalar formulas of bounded size, all argument signs and magnitudes including zero',
 'Tests check the shape of a few simplified expressions, not the values of all formulas at negative, zero and fractional points.',
 ['core/expression_simplification_power.hpp','core/expression_simplification_product_values.hpp','core/expression_simplification_addition_values.hpp','core/expression.hpp','core/expression_traits.hpp','core/math.hpp','core/constexpr.hpp'],
 [('power rules','core/expression_simplification_power.hpp'),('collection of equal factors and terms','core/expression_simplification_product_values.hpp')],['values of scalar expressions'])
p('C08','Reversion, grade involution, conjugation and unary signs act per grade',
 'For every multivector, reversion multiplies its grade-k part by (-1)^(k(k-1)/2), grade involution by (-1)^k, Clifford conjugation by (-1)^(k(k+1)/2), unary minus by -1 and unary plus by +1, and nothing else changes. This holds for blades whose grade is known only at run time and for every grade up to the maximum supported.',
 ['inputs'],'all multivectors, all grades, compile-time and run-time blades',
 'Tests cover constant blades of low grade only.',
 ['core/reversion.hpp','core/involution.hpp','core/conjugation.hpp','core/expression_graded_unary_minus.hpp','core/arithmetic_operators.hpp'],
 [('graded sign change','core/expression_graded_unary_minus.hpp')],['reverse, involute, conjugate, ~, unary + and -'])
p('C09','Addition and subtraction are componentwise',
 'For all multivectors, the sum and the difference have in every basis blade the sum or difference of the coefficients of the operands, whatever the number of operands chained and whether blades coincide at compile time, coincide only at run time, or differ. Signed integral and floating-point coefficient types mix by the usual conversions without losing components or precision.',
 ['inputs','programs'],'all chains of sums of multivectors of any representation',
 'Tests add a handful of constant blades; coinciding run-time blades and long mixed chains are not covered.',
 ['core/arithmetic_operators.hpp','core/expression_simplification_addition_components.hpp','core/expression_simplification_addition_values.hpp','core/macro_for_algebra_overload.hpp'],
 [('component addition','core/expression_simplification_addition_components.hpp')],['lhs + rhs, lhs - rhs'])
p('C10','Copies between representations keep every coefficient or fail',
 'Assigning, copy-constructing or converting a multivector into another representation reproduces every coefficient in the right component and sets components absent from the source to zero. When the fit can only be decided at run time, the checked copy succeeds exactly when every component that does not fit is zero up to the tolerance, and otherwise reports the failure by the documented exception. Between components whose basis blade is fixed at compile time and components whose basis blade (or set of possible grades) is chosen at run time, the copy may be refused, but it never loses a component silently.',
 ['inputs','programs'],'all pairs of source and destination representations, all values around the tolerance',
 'Tests copy a few fixed pairs with nonzero values.',
 ['core/trivial_copy.hpp','core/clifford_expression.hpp','core/exceptions.hpp','core/default_tolerance.hpp'],
 [('move and checks of components','core/trivial_copy.hpp'),('converting constructors and assignment','core/clifford_expression.hpp')],['assignment, construction, trivial_copy, checked_trivial_copy'])
p('C11','Grade queries report the true grades up to the tolerance',
 'With components of magnitude not above the tolerance treated as zero, the grade query returns the grade of a homogeneous multivector, a distinct mark for mixed grades and another when every component vanishes; the largest-grade query returns the greatest grade with a component above the tolerance. Taking a grade part, given as a compile-time or run-time number, keeps exactly the components of that grade unchanged, taking the largest-grade part keeps exactly those of the largest grade, and the zero test holds exactly when every component is within the tolerance.',
 ['inputs'],'all zero/nonzero patterns of components, coefficients around the tolerance, all representations',
 'Tests use one or two patterns and never values at the tolerance.',
 ['extra/grade.hpp','extra/take_grade.hpp','extra/tests.hpp','core/default_tolerance.hpp'],
 [('grade result computation','extra/grade.hpp'),('grade selection','extra/take_grade.hpp')],['grade, largest_grade, take_grade, take_largest_grade, is_zero'])
p('C12','Norms, inverses, units and their predicates agree with the algebra',
 'For every multivector the squared reverse norm is the grade 0 part of A times its reverse, and the reverse norm is its square root. For every invertible versor V, inv(V) is its two-sided inverse, dividing by V undoes multiplying by V on the right, and unit(V) is V divided by its reverse norm; the null test holds exactly when the squared reverse norm is within the tolerance of 0, and the unit test exactly when its absolute value is within the tolerance of 1.',
 ['inputs','configurations'],'all versors (products of vectors) of bounded size, all metrics, integral and floating coefficients',
 'No test multiplies a value by its inverse or looks at negative or null norms.',
 ['extra/reverse_norm.hpp','extra/versor_inverse.hpp','extra/inverse_geometric_product.hpp','extra/unit.hpp','extra/tests.hpp'],
 [('norm, inverse and unit','extra/versor_inverse.hpp')],['rnorm_sqr, rnorm, inv, unit, igp, /, is_null, is_unit'])
p('C13','Dualization and undualization are mutually inverse contractions',
 'The dual of a multivector with respect to a pseudoscalar I is its left contraction onto the inverse of I, the undual is its left contraction onto I, the unit pseudoscalar of the space being the default; in non-degenerate spaces undual(dual(A)) = A and dual(undual(A)) = A for every A. This includes blades chosen at run time, sub-space pseudoscalars and non-Euclidean metrics.',
 ['inputs','configurations'],'all multivectors, all non-degenerate metrics, all pseudoscalars',
 'No test dualizes anything.',
 ['extra/dualization.hpp','util/pseudoscalar.hpp'],[('dual and undual','extra/dualization.hpp')],['dual, undual, pseudoscalar'])
p('C14','Versor application is the sandwich product and preserves structure',
 'Applying an even versor V to X gives V X inv(V), applying an odd versor gives V involute(X) inv(V), and applying a rotor gives V X reverse(V), for every X and every versor, in every metric. Applying versors one after another equals applying their product, grades are preserved, and inner products of transformed vectors are unchanged.',
 ['inputs','histories','configurations'],'all sequences of versor applications up to a bound, all arguments',
 'No test applies a versor.',
 ['extra/apply_versor.hpp'],[('sandwich products','extra/apply_versor.hpp')],['apply_even_versor, apply_odd_versor, apply_rotor'])
p('C15','The exponential of a blade is its power series',
 'For every even blade B, the exponential equals the sum of B^k/k!: cos|B| + sin|B| B/|B| when B squares to a negative number, cosh|B| + sinh|B| B/|B| when positive, and 1 + B when it squares to zero up to the tolerance. The choice of branch depends on the metric and the value, not on the representation.',
 ['inputs','configurations'],'all blades of even grade, all metrics, values on both sides of the tolerance',
 'No test exponentiates a blade.',
 ['extra/blade_exponential.hpp'],[('branch selection','extra/blade_exponential.hpp')],['exp'])
p('C16','Delta product, meet, join and plunge obey subspace algebra',
 'For all pairs of blades, the delta product is the highest-grade nonzero part of their geometric product. The meet spans the intersection and the join the union of the subspaces up to scale, meet grade plus join grade equals the sum of the operand grades, the join contains both operands and the meet is contained in both (a zero operand, which has no subspace, gives zero for both); the fast algorithms agree with the regular ones up to scale, and the plunge is orthogonal-completing as the outer product of the duals of the operands inside their join.',
 ['inputs'],'all pairs of blades spanned by small integer vectors in up to four dimensions, all grades, any relative position',
 'No test computes a meet, a join or a plunge.',
 ['extra/delta_product.hpp','extra/meet_and_join.hpp','extra/fast_meet_and_join.hpp','extra/plunge.hpp','extra/fast_plunge.hpp'],
 [('meet and join','extra/meet_and_join.hpp'),('fast variant','extra/fast_meet_and_join.hpp')],['dp, meet_and_join, fast_join, fast_meet_and_join, plunge, fast_plunge'])
p('C17','The regressive product is the dual of the outer product',
 'For all multivectors of an n-dimensional space, the complement of the regressive product is the outer product of the complements, where the complement of a basis blade is the one whose outer product with it on the right is the unit pseudoscalar; hence it is bilinear, associative, independent of the metric, and zero for basis blades which together do not span the space. It holds equally for compile-time and run-time blades.',
 ['inputs','configurations'],'all pairs and triples of basis blades and multivectors in every dimension',
 'The suite contains no regressive product.',
 ['core/regressive_product.hpp','core/regressive_product_mapping.hpp'],[('regressive product mapping','core/regressive_product_mapping.hpp')],['rp(lhs, rhs, metric)'])
p('C18','Parameters of conformal and Minkowski flats, rounds and tangents are recovered',
 'For every flat, round and tangent built from a direction, a location and a radius in the conformal or Minkowski model, in primal or in dual form, the parameter functions return the direction, location and squared size that were used to build it, up to the documented scale and sign, for any scale factor applied to the object.',
 ['inputs','configurations'],'all grades of flats, rounds and tangents with small integer parameters in 1 to 3 Euclidean dimensions, scaled',
 'No test covers any model function.',
 ['model/conformal/flat_direction.hpp','model/conformal/flat_location.hpp','model/conformal/round_direction.hpp','model/conformal/round_location.hpp','model/conformal/round_size_sqr.hpp','model/conformal/tangent_direction.hpp','model/conformal/tangent_location.hpp'],
 [('parameter functions','model/conformal/round_location.hpp')],['primal_*/dual_* functions'])
p('C19','Geometric constructors and Euclidean/homogeneous queries mean what they say',
 'Vectors, Euclidean vectors and points built from coordinates or iterator ranges have exactly those coordinates in the expected basis vectors (plus the model part of a point: unit weight in homogeneous space, a null vector at distance -d^2/2 inner product in conformal and Minkowski spaces). In Euclidean spaces projection plus rejection of a vector restores it and the projection lies in the blade; in homogeneous spaces the direction, moment, support vector and unit support point of a flat describe that flat, and translating a flat translates every point on it.',
 ['inputs','configurations'],'all coordinates in a small grid, all models and dimensions',
 'Tests construct a few vectors only.',
 ['util/vector.hpp','model/signed/homogeneous/point.hpp','model/conformal/point.hpp','model/signed/minkowski/point.hpp','model/signed/euclidean/orthogonal_projection.hpp'],
 [('coordinate filling','util/vector.hpp')],['vector, euclidean_vector, point, project, reject, flat_*, translate'])
p('C20','The conformal and Minkowski models describe the same algebra',
 'Replacing the null basis of the conformal model by its definition in terms of the positive and negative extra basis vectors of the Minkowski model is an algebra isomorphism: every operation applied to corresponding operands in the two models gives corresponding results, including points, duals, norms, versor application and parameter functions.',
 ['inputs','programs'],'all operations on all corresponding operands up to a bound',
 'No test compares the two models.',
 ['core/general_metric_mapping.hpp','model/conformal/metric_space.hpp','model/signed/metric_space.hpp'],[('general versus orthogonal products','core/general_metric_mapping.hpp')],['all operations in both models'])
p('C21','Component iteration and textual output present the exact multivector',
 'Iterating over the components of a multivector visits every component once with its basis blade and coefficient, in a fixed order, says which entries are constants, and stops early when asked to; iterating over the basis vectors of a blade visits its factors. The textual form lists those same components with the given names of the basis vectors so that the multivector can be read back from it.',
 ['inputs'],'all component patterns and representations, all stop positions',
 'Tests do not check iteration or output.',
 ['util/for_each_component.hpp','util/for_each_basis_vector.hpp','extra/write.hpp'],[('visitation','util/for_each_component.hpp')],['for_each_component, for_each_basis_vector, write, <<'])
p('C22','Build-time configuration does not change results',
 'For every supported maximum basis-vector index, default integral type, default floating-point type and default tolerance, programs compile and operations on operands that fit the configuration give the same multivectors as under the default configuration, with the configured types and tolerances in effect. The largest allowed basis-vector index is fully usable.',
 ['configurations','inputs'],'all configuration switches at their boundary values, all operations at the highest index',
 'Tests are built with the default configuration only.',
 ['core.hpp','core/constexpr.hpp','core/default_tolerance.hpp'],[('selection of the bitset type and defaults','core.hpp')],['all operations under other macro settings'])
p('C23','Operations have value semantics',
 'No operation, construction, assignment, copy or evaluation changes its operands, leaves results referring to dead objects, reads a coefficient that was moved from or never initialized, or accesses memory out of bounds, whatever value categories (named objects, temporaries, const or mutable) the operands have and whatever the cost or ownership of the coefficient type. Results stay valid and unchanged after the operands are modified or destroyed.',
 ['programs','histories'],'all sequences of operations up to a bound over all value categories, with trivially and non-trivially copyable coefficients',
 'Tests use plain arithmetic coefficients without sanitizers, for which destructive moves and dangling reads stay invisible.',
 ['core/clifford_expression.hpp','core/scalar.hpp','core/lazy_context.hpp','core/trivial_copy.hpp','util/vector.hpp'],[('construction and forwarding','core/clifford_expression.hpp'),('inputs held by the lazy context','core/lazy_context.hpp')],['object states before and after every call'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import collections
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
