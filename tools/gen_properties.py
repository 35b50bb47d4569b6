#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
L='crates/diman_lib/src/'; U='crates/diman_unit_system/src/'; G=U+'codegen/'

prop('C01','Magnitudes encode every finite f64 without loss',
 'Converting a finite f64 into a Magnitude and back yields the bit-identical f64 (including negative zero and subnormal numbers), so two finite numbers get equal Magnitudes exactly when they are bit-identical. Converting a Magnitude to f32 gives the f32 nearest to that f64.',
 ['inputs'],'every finite f64 bit pattern (2^64 minus infinities and NaNs)',
 'The one round-trip test samples 10 000 multiples of 0.01 and powers of two from 2^-50 to 2^49; it reaches no subnormal, no very small or very large number and no negative number.',
 [L+'magnitude.rs'],[('encode/decode of mantissa, exponent and sign',L+'magnitude.rs: integer_decode_f64, Magnitude::from_f64, into_f64, into_f32')],
 ['Magnitude::from_f64','Magnitude::into_f64','Magnitude::into_f32','Magnitude == Magnitude'])
prop('C02','Magnitude arithmetic is floating-point arithmetic',
 'Multiplying, dividing and raising Magnitudes (with each other, with f64 and with f32, in either order) gives exactly the Magnitude (or float) of the corresponding floating-point operation on the represented numbers, with the operands in the order written. A Magnitude is one exactly when it represents 1.0.',
 ['inputs'],'all operand values representing finite floats, all operator and operand-type combinations, all exponents an i32 holds',
 'Tests exercise Magnitude arithmetic only indirectly, through a handful of unit factors.',
 [L+'magnitude.rs',L+'dimension_exponent.rs',L+'ratio.rs'],[('operator impls',L+'magnitude.rs: impl Mul/Div'),('powers',L+'dimension_exponent.rs: float_pow; '+L+'ratio.rs: float_pow; magnitude.rs: pow_rational')],
 ['Magnitude * Magnitude','Magnitude / Magnitude','f64 * Magnitude','f32 / Magnitude','DimensionExponent::float_pow'])
prop('C03','Rational exponents are canonical and form the rationals',
 'Constructing, adding, subtracting, multiplying, dividing and negating rational exponents gives the mathematically exact rational number, provided numerators and denominators fit in an i64 along the way and no denominator or divisor is zero. Every rational so obtained is in lowest terms with a positive denominator, so two of them compare equal (and hence denote the same dimension type) exactly when they are the same number.',
 ['inputs','histories'],'every pair of i64 numerators and non-zero denominators of either sign for which no intermediate result overflows, and every sequence of operations on the results',
 'Tests use a few positive small fractions; negative denominators, negative numerators with common factors and long chains of operations are never sampled.',
 [L+'ratio.rs'],[('normalisation by greatest common divisor',L+'ratio.rs: gcd, Ratio::new'),('field operations',L+'ratio.rs: add, sub, mul, div, neg, Mul, AddAssign, Neg')],
 ['Ratio::new','Ratio == Ratio','num()','denom()'])
prop('C04','Dimension exponents form an exact vector algebra',
 'For every generated unit system the compile-time dimension operations act on every base dimension separately and exactly: the product of two dimensions adds exponents, the quotient subtracts, the inverse negates, an integer power multiplies, the dimensionless dimension is all zero. A square (cube) root halves (thirds) every exponent and is rejected, never rounded, when an integer exponent is not divisible by two (three).',
 ['inputs','configurations'],'all exponent vectors that do not overflow, all integer powers, every base dimension of the system, integer and rational exponent modes',
 'Tests touch a few small exponents of two or three base dimensions; an error in one base dimension, for negative exponents or in one exponent mode stays invisible.',
 [G+'dimension_type.rs',G+'dimensions.rs',L+'ratio.rs'],[('generated const functions',G+'dimension_type.rs: none, add, sub, neg, mul, div_2, div_3')],
 ['Dimension::none/add/sub/neg/mul/div_2/div_3 of a generated system'])
prop('C05','Quantity operators apply the storage operation to the stored values',
 'Every arithmetic, compound-assignment, negation, sum and comparison operator on quantities (owned, borrowed, mutably borrowed, mixed with plain storage values on either side) has exactly the effect of the same operator on the stored values, with the operands in the order written. Sums of quantities add every element once, starting from the default value.',
 ['inputs','configurations'],'all stored values and all storage types (generic storage as well as f32, f64 and glam vectors), every operand and reference combination for which an operator is provided',
 'The float tests call each operator with one or two values; commutative coincidences, reference variants and other storage types are not told apart.',
 [G+'num_traits/operator_trait.rs',G+'num_traits/mod.rs',G+'quantity_type.rs'],[('operator impl table',G+'num_traits/operator_trait.rs: iter_numeric_traits, fn_return_expr'),('sum, neg, from',G+'num_traits/mod.rs')],
 ['+ - * / += -= *= /= unary - == < partial_cmp sum() on quantities'])
prop('C06','Operators respect dimensions',
 'The result of multiplying or dividing quantities has the sum or difference of the operand dimensions, and a plain number acts as dimensionless on either side. Addition, subtraction, their assigning forms, comparison and in-place scaling are available only where both sides have the same dimension (in-place scaling: where the factor is dimensionless), for every reference and storage variant; a program that mixes dimensions there does not compile.',
 ['programs','inputs'],'all pairs of dimensions (as symbolic exponent vectors), every operator impl generated for a unit system',
 'Compile-fail tests show a handful of programs with one or two concrete dimensions; no finite set of programs shows that no impl accepts mismatched dimensions.',
 [G+'num_traits/operator_trait.rs',G+'num_traits/mod.rs'],[('output dimensions and shared dimension parameter',G+'num_traits/operator_trait.rs: output_quantity_dimension, dimension_types')],
 ['result type of each operator','rejection of mismatched operands'])
prop('C07','Attaching and reading units scales by exactly the unit magnitude',
 'Multiplying (dividing) a number, vector or quantity by a unit, by a composite unit expression or through the unit constructor multiplies (divides) the stored value by exactly the magnitude of that unit, and dividing a unit by a value divides the magnitude by the value. Reading a quantity in a unit divides the stored value by exactly that magnitude.',
 ['inputs','configurations'],'all values of every storage type, all unit magnitudes, every operand order, compile-time and composite (runtime) units',
 'Tests use a few units whose magnitudes are often 1.0 or commute, so a wrong direction or a dropped factor can pass.',
 [G+'unit_type.rs',G+'quantity_type.rs',L+'magnitude.rs'],[('unit operators',G+'unit_type.rs'),('value_in',G+'quantity_type.rs')],
 ['x * unit','unit * x','x / unit','unit / x','quantity * unit','unit / quantity','unit * unit','unit.new(x)','q.value_in(unit)'])
prop('C08','Unit expressions have the dimension they denote',
 'The quantity obtained by multiplying or dividing values, quantities and units has the dimension computed by dimension arithmetic from its operands (a plain number being dimensionless, so a number divided by a unit has the inverse dimension). A quantity can be read out only in a unit of its own dimension.',
 ['programs','inputs'],'all pairs of dimensions and magnitudes, every unit operator impl generated for a unit system, every type accepted as the unit of a read-out',
 'No test reads a quantity in a unit of another dimension or divides a number by a unit; a finite list of programs cannot cover all pairs of dimensions.',
 [G+'unit_type.rs',G+'quantity_type.rs'],[('Output types of unit operators',G+'unit_type.rs'),('argument bound of value_in',G+'quantity_type.rs')],
 ['result type of unit operators','types accepted by value_in'])
prop('C09','Float methods compute the storage function with the right dimension',
 'On float quantities each mathematical method (roots, powers, absolute value, minimum, maximum, clamp, sign and NaN predicates, zero, and the trigonometric, exponential, logarithmic and rounding functions of dimensionless quantities) returns exactly what the same function returns on the stored value. Powers and roots multiply or divide the dimension accordingly, dimension-preserving methods keep it, and functions that only make sense for pure numbers exist only for dimensionless quantities.',
 ['inputs','configurations'],'all f32 and f64 values including NaN, infinities and signed zeros, all dimensions, all method arguments',
 'Tests call each method on one or two ordinary values; NaN and boundary behaviour, operand order and dimensions in general are not settled.',
 [G+'float_methods.rs',G+'generic_methods.rs'],[('delegating methods',G+'float_methods.rs; '+G+'generic_methods.rs')],
 ['Quantity<f32|f64, D>::sqrt cbrt powi squared cubed min max clamp abs is_* zero, dimensionless sin ... ln_1p'])
prop('C10','Vector methods compute the storage function with the right dimension',
 'On vector quantities every accessor, constructor, setter and geometric method reads or writes exactly the corresponding component or computes exactly the corresponding vector function of the stored vector, and setters leave the other components alone. Results carry the dimension this function has in physics (components, length and distance: the same; squared distance: doubled; dot product: the sum; direction: none).',
 ['inputs','configurations'],'all component values, all dimensions, the four vector storage types',
 'Tests use one or two vectors per method; swapped or dropped components for particular types and general dimensions are not settled.',
 [G+'vector_methods.rs'],[('vector methods',G+'vector_methods.rs: impl_vector_methods')],
 ['Quantity<Vec2|DVec2|Vec3|DVec3, D> methods'])
prop('C11','Definitions evaluate to their mathematical value and dimension',
 'The value and dimension of a definition written with numbers, names, products, quotients, parentheses and powers equal its left-associative mathematical evaluation over the values and dimensions of the names, with a power binding only to the factor it follows. Dimensions multiply, divide and take powers exponent by exponent, for every base dimension.',
 ['programs','inputs'],'all finite definition expressions of any depth and all operand values and dimensions, with integer and rational exponents',
 'Unit tests evaluate five small integer expressions; deep nesting, mixed operators and general dimensions are not covered.',
 [U+'types/expression.rs',U+'dimension_math.rs',U+'resolve/ident_storage.rs',U+'parse/mod.rs'],[('recursive evaluation',U+'types/expression.rs: Expr::eval, Factor::eval, map'),('dimension maps',U+'dimension_math.rs: BaseDimensions, DimensionsAndMagnitude'),('left-associative parsing',U+'parse/mod.rs')],
 ['magnitude and dimension of generated units, constants and dimensions'])
prop('C12','Resolution is complete and independent of definition order',
 'Every definition whose transitive references are all defined without a cycle is resolved, and its resolved value and dimension equal the evaluation of its own right-hand side over the resolved values of the names it mentions, whatever the order in which definitions are written. Definitions that take part in or depend on a cycle are not resolved and are reported, and nothing else is.',
 ['programs','histories'],'all sets of uniquely named definitions, all orders of writing them down, all dependency graphs',
 'Tests resolve a few fixed systems in one order each; all orders and dependency graphs cannot be enumerated.',
 [U+'resolve/ident_storage.rs',U+'resolve/mod.rs'],[('worklist resolution',U+'resolve/ident_storage.rs: resolve, is_resolvable, resolve_dimensions, get_items')],
 ['generated items of a unit system','compile errors'],
 [dict(name='unresolved / resolved',meaning='definitions still waiting and definitions with a value',where=U+'resolve/ident_storage.rs: IdentStorage')])
prop('C13','Inconsistent definitions are rejected, consistent ones accepted',
 'A unit system that references an undefined name, defines a name or a symbol twice, uses a kind of name that is not allowed in a definition (a dimension in a unit, a unit in a dimension), gives a base unit to a non-base dimension, gives two base units to one dimension or leaves a base unit without a symbol produces a compile error. A system with none of these faults produces no error from these rules.',
 ['programs'],'all sets of definitions: any number of definitions, any names, kinds and references',
 'One compile-fail example exists per rule; the rules must fire for every position, count and kind combination and never on valid systems.',
 [U+'resolve/ident_storage.rs',U+'resolve/mod.rs',U+'resolve/error.rs'],[('filters and checks',U+'resolve/ident_storage.rs: filter_undefined, filter_multiply_defined, filter_autogenerated_invalid, check_kinds_in_definitions'),('base unit and symbol checks',U+'resolve/mod.rs: check_invalid_base_units, check_multiply_defined_symbols, check_for_base_units_without_symbol')],
 ['compile errors of the unit system macro'])
prop('C14','Dimension annotations are enforced',
 'A unit or constant annotated with a dimension is accepted exactly when the dimension of its definition equals the annotated one in every base dimension, an absent base dimension counting as exponent zero on both sides. A violated annotation, an annotation that names something that is not a dimension and an annotation that names nothing defined each produce a compile error.',
 ['programs'],'all pairs of annotated and computed dimensions over any set of base dimensions, any annotation name',
 'Two compile-fail examples use one base dimension each; subsets, supersets and zero exponents are not sampled.',
 [U+'dimension_math.rs',U+'resolve/ident_storage.rs'],[('dimension equality',U+'dimension_math.rs: PartialEq for BaseDimensions'),('annotation check',U+'resolve/ident_storage.rs: check_type_annotations')],
 ['compile errors of the unit system macro'])
prop('C15','Prefixes and aliases expand to exactly the documented units',
 'A unit declaration yields exactly one unit for each combination of (no prefix or one of its prefixes) with (its name or one of its aliases), named prefix followed by name, with magnitude the standard power of ten of the prefix times that of the unit and the same dimension. Prefixed symbols are the prefix symbol followed by the unit symbol, aliases get no symbol of their own, and metric prefixes mean the sixteen SI prefixes from atto to exa except those skipped.',
 ['programs','inputs'],'all unit declarations with any number of prefixes, aliases and skipped prefixes',
 'Tests check three or four prefixed or aliased units.',
 [U+'types/mod.rs',U+'types/prefixes.rs',U+'parse/attributes.rs'],[('template expansion',U+'types/mod.rs: UnitTemplate::expand and helpers'),('prefix table',U+'types/prefixes.rs: make_prefix_enum, MetricPrefixes')],
 ['names, symbols and magnitudes of the generated units'])
prop('C16','The SI system has the right dimensions and magnitudes',
 'Every dimension, unit and constant of the bundled SI system has the dimension given by the SI and the magnitude given by the SI brochure, the CODATA 2018 values or the exact definition of the unit, relative to metre, second, kilogram, kelvin, ampere, mole and candela. Each prefixed or aliased form differs from its unit by exactly its power of ten (up to floating-point rounding) and each symbol names one unit.',
 ['inputs','configurations'],'all ~1900 generated SI units, constants and dimensions in both exponent modes',
 'Tests compare fewer than thirty units with hand-written values; a wrong digit or exponent in any of the others passes.',
 ['src/si.rs',U+'types/prefixes.rs'],[('SI definitions','src/si.rs')],
 ['diman::si::units','diman::si::constants','diman::si::dimensions'])
prop('C17','Serialized quantities deserialize to the same quantity',
 'Deserializing text consisting of a number (or vector) followed by factors of unit symbols with integer powers yields the number times the product of those unit magnitudes raised to those powers when the product has the requested dimension, and an error otherwise (unknown symbol, wrong dimension, malformed number or power). Serializing a quantity and deserializing the text gives back the same quantity up to the rounding of one multiplication by base-unit magnitudes of one.',
 ['inputs','programs'],'all values and all texts, all units of the system, scalar and vector storage types, integer and rational exponents',
 'Tests deserialize a dozen fixed strings and round-trip a few values.',
 [G+'serde.rs',L+'runtime_unit_storage.rs'],[('string visitor',G+'serde.rs: read_unit_str, read_single_unit_str, visitors, Serialize')],
 ['serde Serialize and Deserialize of quantities'])
prop('C18','Debug output denotes the same quantity',
 'The debug representation of a quantity is its stored value followed by the symbols of a unit expression with exactly its dimension: a defined unit of that dimension with the value divided by its magnitude, or base-unit symbols with exactly their exponents. No dimension makes it panic or omit or misstate an exponent.',
 ['inputs'],'all stored values and all dimensions of every generated unit system',
 'Two debug strings are tested.',
 [G+'debug_trait.rs',L+'runtime_unit_storage.rs'],[('debug formatting',G+'debug_trait.rs: gen_debug_trait_impl')],
 ['format!("{:?}", quantity)'])
prop('C19','Runtime unit lookup returns the first matching unit',
 'Looking up a unit by symbol (by dimension) returns the first registered unit with exactly that symbol (dimension) and nothing when there is none. The returned unit is one of the registered ones, unchanged.',
 ['inputs'],'all unit tables of any length, all symbols and dimensions',
 'No test addresses the lookup directly; it is reached through a few serde and debug strings.',
 [L+'runtime_unit_storage.rs'],[('linear search',L+'runtime_unit_storage.rs: get_first_unit_for_dimension, get_unit_by_symbol')],
 ['RuntimeUnitStorage::get_unit_by_symbol','RuntimeUnitStorage::get_first_unit_for_dimension'])
prop('C20','Generated code carries the resolved values of every definition',
 'For every unit system the generated dimension aliases, unit constants and physical constants carry exactly the dimension and magnitude that evaluating the definition gives, one item per definition, prefix and alias and no others, and base units have magnitude one. This holds for integer and rational exponents alike.',
 ['programs','configurations'],'all unit systems; decided per system on the code actually generated for it',
 'Tests look at a few units of two systems; the generator could drop, swap or misplace fields or magnitudes for other shapes.',
 [G+'units_and_constants.rs',G+'dimensions.rs',G+'dimension_type.rs',U+'lib.rs'],[('code generation for items',G+'units_and_constants.rs; '+G+'dimensions.rs')],
 ['items of the generated modules units, constants, dimensions'])
prop('C21','Quantities cross foreign interfaces as their stored value',
 'Wrapping, unwrapping, dereferencing, converting, randomly sampling and describing a quantity to MPI and HDF5 expose exactly the stored value in the storage type layout: a uniformly sampled quantity lies between its bounds exactly as the storage sampler returns it, and the MPI and HDF5 type descriptors are those of the storage type.',
 ['inputs','configurations'],'all stored values, all dimensions, all storage types, all random generators',
 'Tests sample a few random draws and send a few values through a single MPI process.',
 [G+'rand.rs',G+'mpi.rs',G+'hdf5.rs',G+'quantity_type.rs',G+'num_traits/mod.rs'],[('delegating impls',G+'rand.rs; '+G+'mpi.rs; '+G+'hdf5.rs; '+G+'quantity_type.rs')],
 ['new_unchecked, value_unchecked, value, Deref, From, SampleUniform, Equivalence, H5Type'])
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(path,'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
