"""per-property manifest texts"""
T = 'contract-based deductive verification of the rustc MIR (mirvc verification conditions, z3/cvc5)'
CLAIMED = {
 'C01': {'technique': T, 'note': 'All obligations over all finite f64 discharged by bit-blasting IEEE semantics (QF_FPBV), per biased exponent; trusts the rustc MIR, the mirvc VC generator, z3/cvc5, and that powi of 2.0 by a constant exponent is exact. A native differential run over 2047 exponents x 85 mantissas accompanies it (bounded, not counted).'},
 'C02': {'technique': T, 'note': 'Float operations are uninterpreted (any IEEE implementation); the contract fixes which operation, operands and order. Assumes MIR of num-traits powf/powi is the float function.'},
 'C03': {'technique': T + ' with loop invariant; Lean lemmas on gcd', 'note': 'Loop invariant for gcd checked by z3; the number-theory lemmas used as axioms are machine-checked in Lean (lemmas/Gcd.lean, run in the thorough tier). Overflow excluded by precondition as the property says.'},
 'C05': {'technique': T, 'note': 'Every operator, negation, Sum, From, Clone and Default impl of the macro-expanded SI code (both exponent configurations) has the postcondition "storage operation on the stored values, operands in order" discharged; Sum with a loop invariant. Storage operations are uninterpreted functions; assumes the storage types\' own operators (glam, core) do what their name says and commutativity of IEEE + and *. A differential run with a recording storage type accompanies it (bounded).'},
 'C06': {'technique': T, 'note': 'Postconditions on impl headers: output dimension = sum/difference of operand dimensions for an arbitrary base dimension, and a closed-world obligation over all impl headers that + - compare and in-place scaling never relate different dimensions. Trusts rustc\'s trait resolution and const-generic evaluation; a compile corpus of 2100 programs accompanies it (bounded).'},
 'C07': {'technique': T, 'note': 'Postconditions of all unit operators, constructors and value_in over symbolic values and magnitudes; Magnitude arithmetic by its C02 contract. Storage operations uninterpreted.'},
 'C08': {'technique': T, 'note': 'Output dimension of every unit operator impl as linear arithmetic over an arbitrary base dimension, plus a closed-world obligation on UnitOf/value_in; trusts rustc\'s trait resolution. A compile corpus accompanies it (bounded).'},
 'C09': {'technique': T, 'note': 'Postcondition of every float method: same-named storage function on the stored value, and result dimension from its signature; storage functions uninterpreted (powi(2)=x*x assumed). Availability only for dimensionless quantities decided over impl headers; compile corpus and differential run accompany it (bounded).'},
 'C10': {'technique': T, 'note': 'Postconditions of every vector method over symbolic components (setters: frame condition on the other components); glam functions uninterpreted; new_x/new_y/new_z read for finite values.'},
 'C21': {'technique': T, 'note': 'Postconditions of the wrapping, unwrapping, sampling, MPI and HDF5 impls against the storage type\'s own descriptors; repr(transparent) checked in the expanded source. Foreign crates (rand, mpi, hdf5) are trusted contracts.'},
 'C16': {'technique': T, 'note': 'Ground obligations: dimension and magnitude of every generated item of the bundled SI system against an independent table, both exponent configurations.'},
 'C04': {'technique': T, 'note': 'Contracts on every function of the exponent arithmetic, on the dimension types of the bundled SI system (all base dimensions): per-component sum, difference, negation, scaling by an integer, roots with an exactness precondition (integer configuration) and equality, for the run-time body and the const-eval body, exponents read as mathematical rationals through the C03 contract of Ratio. Generated systems of 1..12 base dimensions are a bounded native companion.'},
 'C11': {'technique': T, 'note': 'Structural-induction contracts over all expression trees for the evaluator of definitions (Expr::eval, map, Factor, DimensionsAndMagnitude, BaseDimensions), both configurations; recursion is by contract (finite trees), HashMap/Vec/iterator operations are an assumed sequence/map theory, Magnitude and exponent arithmetic by the C02/C03 contracts. The parsing half (text to tree) is bounded only.'},
 'C12': {'technique': T, 'note': 'Loop invariants and a variant for IdentStorage::resolve, contracts for the resolvability test; postconditions: completeness, nothing made up, values, and independence of the order (two runs end with the same facts). std collections are an assumed theory; identifiers compare by name.'},
 'C13': {'technique': T, 'note': 'Each rule of the resolver has a contract "an error is emitted iff the fault is there" (for all inputs, loops by invariants), composed in a contract of UnresolvedDefs::resolve. Diagnostics are modelled by level; message texts and spans are left open.'},
 'C14': {'technique': T, 'note': 'Contracts of the annotation lookup, the annotation check and its error functions: an error iff the annotation is undefined, not a dimension, or of another value.'},
 'C15': {'technique': T, 'note': 'Contracts over all templates: the prefix table (name, symbol, factor of each of the sixteen prefixes), metric_prefixes minus skipped ones, one unit of a template (name, symbol, definition, annotation), and the expansion of a template and of all templates as exactly the combinations, each once; also the precondition of C13 (a generated unit comes with its source). Strings are a free monoid, identifiers their text; reading the attributes is only covered by the bounded run.'},
 'C20': {'technique': T, 'note': 'Token streams are a free monoid: the generators of dimensions, units and constants are run symbolically for all definitions and the resulting item streams read back - one item per definition, its name, the three fields of its magnitude, and for every base dimension the exponent of the dimension literal (written or by ..none()); conversion of resolved items, composition of the macro (parse, expand, resolve, generate), base units of magnitude one. quote/proc_macro2 are assumed contracts; that the tokens mean what Rust says is rustc\'s part; parsing the source text is only covered by the bounded run.'},
 'C19': {'technique': T, 'note': 'Loop invariants over lists of any length for the run-time unit lookups; the list of units is a sequence, comparisons by the symbol, dimension and magnitude views.'},
 'C17': {'technique': T, 'note': 'Contracts of the reader of the bundled SI system, both configurations: exponent text, one factor (symbol lookup by the C19 contract, dimension, factor), the list of factors (loop invariant over lists of any length), the dimension test, the string and number visitors of all six storage types, deserialize/serialize, and agreement of the two unit lists for the round trip; every entry of the list against the independent table. Text functions of core::str and parse are assumed contracts over uninterpreted texts; what Display writes for a number reads back as that number. Other unit systems are covered by the native run (bounded).'},
 'C18': {'technique': T, 'note': 'Debug::fmt of the bundled SI system, both configurations, run symbolically with the written text as ghost output (paths joined where they meet): the stored value, then either one listed unit of exactly this dimension and magnitude one, or every base dimension once with exactly its exponent and left out only if zero; Display of Ratio. Writing succeeds and core::fmt is an assumed contract; other unit systems are covered by the native run (bounded).'},
}
NA = {}
