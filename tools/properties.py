FF = 'tachyon/math/finite_fields/'
MB = 'tachyon/math/base/'
prop('C01', 'Prime-field arithmetic is exact arithmetic modulo p with canonical results',
 'For every shipped prime field (the base and scalar fields of BN254, BLS12-381, secp256k1, Pallas and BN384-small-two-adicity, Goldilocks, BabyBear, KoalaBear, Mersenne31 and the test field GF(7)) and for all canonical operands, including an operand used as its own right-hand side, addition, subtraction, negation, doubling, multiplication, squaring and multiplication by an integer return the canonical representative of the mathematical result modulo p; inversion and division return the quotient and fail exactly on a zero divisor; conversion to and from integers and Montgomery form, the predefined constants, equality, zero/one/minus-one tests and the order relations agree with the integer in [0,p) that the element denotes.',
 ['inputs', 'configurations'], 'every pair of canonical operands of every shipped prime field, every in-place aliasing',
 'the operand space has up to 2^768 pairs; carries out of the top word, final conditional subtractions and results equal to p occur with probability near 2^-64 on random operands',
 [FF + 'prime_field_fallback.h', FF + 'small_prime_field.h', FF + 'small_prime_field_mont.h', FF + 'modulus.h', MB + 'big_int.h', MB + 'arithmetics.h', FF + 'generator/prime_field_generator/prime_field_generator.cc'],
 [('Montgomery multiplication and reduction', MB + 'big_int.h'), ('conditional subtraction of the modulus', FF + 'prime_field_fallback.h'), ('31-bit Montgomery arithmetic', FF + 'small_prime_field_mont.h')])
claim('C01', DED + ': symbolic execution of the word-level bodies, machine arithmetic translated to exact integers (no wrap-around assumed away), congruence by polynomial identity modulo p, ranges by linear integer arithmetic', 'proof',
 'Every ring operation, comparison, conversion and constant of every field is proved for all operands at the level of machine words; the extended-gcd inverse and 64-bit scalar multiplication loops are bounded run-time contract checks.')
prop('C02', 'Derived field operations satisfy their defining equations',
 'For every shipped prime field: Pow, ConstPow, PowWithTable, ExpPowOfTwo return a^e and ScalarMul/ConstScalarMul return k*a for every exponent and scalar (including 0 and values above the field order); GetSuccessivePowers and its bit-reversed variants return c*g^i at index i (respectively at the bit-reversed index) for every size including 0; Inverse fails exactly on zero; batch inversion (in place or not, serial or not) maps every zero entry to zero, every other entry a to coeff/a, never touches other positions, and refuses mismatched sizes; SumOfProducts returns the inner product; Legendre returns the quadratic character; SquareRoot succeeds exactly on squares and returns a root; GetRootOfUnity(n) succeeds exactly when the supported subgroups contain an element of order n and then returns an element of order exactly n.',
 ['inputs', 'configurations'], 'all elements, exponents, batch sizes and zero patterns, group orders, for every shipped prime field',
 'zero entries at particular positions of a batch, exponents with particular bit patterns, elements of the 2-Sylow subgroup in Tonelli-Shanks and sizes 0 and 1 are not met by random tests',
 [MB + 'semigroups.h', MB + 'groups.h', MB + 'ring.h', MB + 'bit_iterator.h', FF + 'prime_field_base.h', FF + 'finite_field.h', FF + 'square_root_algorithms/shanks.h', FF + 'square_root_algorithms/tonelli_shanks.h', FF + 'prime_field_util.cc'],
 [('square-and-multiply over a bit iterator', MB + 'semigroups.h'), ('Montgomery batch inversion', MB + 'groups.h'), ('Tonelli-Shanks', FF + 'square_root_algorithms/tonelli_shanks.h')])
claim('C02', DED + ': every path with symbolic field elements, postconditions as polynomial identities; sizes and exponents enumerated up to a stated bound, larger ones by run-time contract checks', 'bounded',
 'For each enumerated size/exponent all element values and zero patterns are covered; inverse, Legendre, square root and roots of unity are run-time contract checks on structured inputs.')
prop('C03', 'Extension-field arithmetic follows the tower definition',
 'For the quadratic, cubic, quartic, sextic and duodecic extension fields the library ships, addition, subtraction, negation, doubling, multiplication (also by base-field elements, sparse operands and an element by itself), squaring, inversion, division, norm, conjugation, Frobenius powers and exponentiation return exactly the element defined by the quotient ring BasePrimeField[x]/(irreducible), and inversion fails exactly for zero. The specialised cyclotomic square, inverse and power agree with the generic operation on every element of the cyclotomic subgroup.',
 ['inputs', 'configurations'], 'all operand values of every shipped extension field; all aliasings of in-place operations; Frobenius exponents over at least one full period',
 'unit tests compare a handful of random products with each other; an error in one cross term, in one Frobenius coefficient or under operand aliasing needs particular coordinates',
 [FF + x for x in ('quadratic_extension_field.h', 'cubic_extension_field.h', 'quartic_extension_field.h', 'extension_field_base.h', 'fp2.h', 'fp3.h', 'fp4.h', 'fp6.h', 'fp12.h', 'cyclotomic_multiplicative_subgroup.h')],
 [('Karatsuba / complex squaring formulas', FF + 'quadratic_extension_field.h'), ('Chung-Hasan squaring', FF + 'cubic_extension_field.h'), ('Frobenius coefficient tables', FF + 'fp12.h'), ('cyclotomic squaring', FF + 'fp12.h')])
claim('C03', DED + ': symbolic execution of every path against field-level contracts, postconditions discharged as polynomial identities over F_p', 'proof',
 'All paths and all operand values are covered for every ring operation, inverse, norm, Frobenius and cyclotomic operation of the shipped towers, assuming the prime-field contracts of C01; exponents and Fp12 inversion are bounded run-time contract checks.')
EC = 'tachyon/math/elliptic_curves/'
SW = EC + 'short_weierstrass/'
prop('C08', 'Elliptic-curve point arithmetic is the group law in every coordinate system',
 'For every shipped short Weierstrass curve (BN254 and BLS12-381 G1 and G2, secp256k1, Pallas, Vesta) and for curves with a non-zero a coefficient, point addition, mixed addition, subtraction, doubling, negation, equality, the conversions between affine, Jacobian, projective and XYZZ coordinates and batch normalisation compute the chord-and-tangent group law on the affine points denoted by their operands, for every representative of those points, including the point at infinity, equal operands, opposite operands, points with y = 0 and aliased operands; Zero() and Generator() denote the identity and the standard generator; IsOnCurve decides the curve equation for finite points.',
 ['inputs', 'configurations'], 'all pairs of points in all representatives of all four coordinate systems, every special case, on every shipped curve',
 'tests add a few random points; the special cases (P = Q in different representatives, P = -Q, infinity with arbitrary X, Y, Z = -1) and non-zero a need particular inputs that random sampling never meets',
 [SW + x for x in ('affine_point.h', 'affine_point_impl.h', 'jacobian_point.h', 'jacobian_point_impl.h', 'projective_point.h', 'projective_point_impl.h', 'point_xyzz.h', 'point_xyzz_impl.h', 'sw_curve.h', 'generator/generator.cc')],
 [('add-2007-bl / madd / dbl formulas with doubling fallback', SW + 'jacobian_point_impl.h'), ('XYZZ formulas', SW + 'point_xyzz_impl.h'), ('homogeneous formulas', SW + 'projective_point_impl.h'), ('batch inversion based normalisation', SW + 'jacobian_point.h')])
claim('C08', DED + ': every path of every point operation against the affine group law, postconditions discharged as polynomial identities modulo the path facts over F_p (G2 over an abstract Fp2)', 'proof',
 'All representatives and all special cases are covered symbolically; batch normalisation is covered for batches of 2 and 3 points (all values, every zero pattern), point decompression by run-time contract checks.')
prop('C06', 'Big integers and machine-word helpers are exact integer arithmetic',
 'For BigInt of every limb count used (1, 2, 3, 4 and 6 limbs) and all operand values, addition, subtraction, doubling, multiplication (low part, full product), shifts by any amount, bitwise operations, comparisons, zero/one/parity tests, bit access and bit-window extraction return the exact mathematical result modulo 2^(64N) together with the exact carry or borrow; division returns quotient and remainder and fails exactly for a zero divisor; conversions to and from bytes, bits, the non-adjacent form, bit iteration, decimal and hexadecimal text are mutually inverse, refuse malformed or overflowing text and read no more than the given text; carry-chain word operations, extended gcd, logarithms, bit reversal and power-of-two alignment return their defining values.',
 ['inputs'], 'all values of all operands, all shift amounts and windows, all texts',
 'carries into the top limb, shifts by multiples of the word size, windows across limbs and operands that agree in most limbs are met by random tests with probability near 2^-64',
 [MB + x for x in ('big_int.h', 'big_int.cc', 'arithmetics.h', 'arithmetics_results.h', 'bit_iterator.h', 'gmp/bit_traits.h', 'egcd.h', 'gmp/gmp_util.cc')] + ['tachyon/base/bits.h'],
 [('multi-limb addition, subtraction and multiplication', MB + 'big_int.h'), ('carry-chain intrinsics', MB + 'arithmetics.h'), ('text conversion', MB + 'gmp/gmp_util.cc')])
claim('C06', DED + ': every path of the real limb code with symbolic limbs, postconditions as bit-vector equations (z3) or exact-integer polynomial identities', 'proof',
 'Ring operations, shifts, comparisons, windows, bytes, bit iteration and word helpers are proved for all operand values; long division, Montgomery inversion, NAF, bit sets and text conversion (GMP) are bounded run-time contract checks.')
UP = 'tachyon/math/polynomials/univariate/'
prop('C12', 'Evaluation domains transform exactly between coefficients and values',
 'For every domain size the factory accepts (powers of two, and 2^i*3^j for fields with a small subgroup) and every coset offset, the generator has order exactly the domain size; FFT returns the evaluations at h*g^0, h*g^1, ... in order, for every number of coefficients up to the size; IFFT returns the unique polynomial of smaller degree with those values (trimmed to its degree); lvalue and rvalue forms agree. The batched transforms do this per column for every matrix width, and the coset low-degree extension returns the evaluations of the interpolated columns over the shifted larger domain (bit-reversed exactly when asked). Lagrange coefficients, vanishing polynomial, filter polynomial, element access and the twiddle cache are consistent with the same definition, whatever domains were created before.',
 ['inputs', 'configurations', 'histories'], 'all coefficient/value vectors, all offsets, all supported sizes, all orders of creating domains and extensions',
 'the tests compare FFT and IFFT with each other on power-of-two sizes with random data; wrong mixed-radix passes, coset filters, non-power-of-two lengths and cache state left behind by an earlier extension do not show there',
 [UP + x for x in ('univariate_evaluation_domain.h', 'radix2_evaluation_domain.h', 'mixed_radix_evaluation_domain.h', 'univariate_evaluation_domain_factory.h', 'radix2_twiddle_cache.h', 'naive_batch_fft.h', 'two_adic_subgroup.h', 'evaluations_utils.h')],
 [('Cooley-Tukey butterflies, degree-aware start', UP + 'radix2_evaluation_domain.h'), ('mixed radix permutation and passes', UP + 'mixed_radix_evaluation_domain.h'), ('twiddle cache', UP + 'radix2_twiddle_cache.h')])
claim('C12', DED + ': every path of FFT, IFFT and the domain queries with symbolic coefficients and symbolic coset offset, outputs compared with the defining evaluations as polynomial identities; sizes enumerated, larger sizes and the packed batched transforms by run-time contract checks', 'bounded',
 'For sizes up to 8 (all lengths), 16 and 18 (full length FFT) every value and every offset is covered; sizes up to 512, Lagrange/filter queries and packed matrices are bounded run-time contract checks.')
prop('C13', 'Univariate polynomials form the polynomial ring, in canonical form',
 'For dense and sparse polynomials (and mixed operands) addition, subtraction, negation, multiplication, scalar operations, division with remainder, evaluation, folding, multiplication by x^n, interpolation, products of roots and equality agree with the ring F[x]; results are canonical (no zero leading coefficient, sorted sparse terms), division by the zero polynomial is refused, a = q*b + r with deg r < deg b; in-place and out-of-place forms agree; Lagrange interpolation returns the unique polynomial of smaller degree through the points and refuses repeated abscissae; evaluation vectors add, multiply and compare pointwise.',
 ['inputs'], 'all coefficient vectors, degrees and zero patterns, all operand kinds',
 'cancellation of leading terms, missing middle terms, zero operands and repeated roots are special cases that random coefficient vectors never produce',
 [UP + x for x in ('univariate_polynomial.h', 'univariate_polynomial_ops.h', 'univariate_dense_coefficients.h', 'univariate_sparse_coefficients.h', 'support_poly_operators.h', 'univariate_evaluations.h', 'univariate_evaluations_ops.h', 'lagrange_interpolation.h')],
 [('long division', UP + 'univariate_polynomial_ops.h'), ('removal of zero leading coefficients', UP + 'univariate_dense_coefficients.h'), ('interpolation', UP + 'lagrange_interpolation.h')])
claim('C13', DED + ': every path with symbolic coefficients (every zero pattern), outputs compared with schoolbook polynomial arithmetic as polynomial identities; operand shapes enumerated, larger shapes by run-time contract checks', 'bounded',
 'For the enumerated shapes (up to 3 coefficients/terms per operand for products and division) every coefficient value is covered; larger shapes are run-time contract checks with structured inputs.')
BF = FF + 'binary_fields/'
prop('C04', 'Binary tower fields are the Wiedemann tower',
 'For the binary fields of 1, 2, 4, 8, 16, 32, 64 and 128 bits and for all elements, including an operand used as its own right-hand side, addition and subtraction are bitwise exclusive or, multiplication and squaring are those of the tower X_0^2 = X_0 + 1, X_k^2 = X_{k-1} X_k + 1, doubling is zero and negation the identity, the inverse exists exactly for non-zero elements and multiplies to one, division agrees with it, multiplication by an element of a subfield agrees with the embedding, and construction, comparison, byte, decimal and hexadecimal conversions are faithful and refuse values that do not fit.',
 ['inputs'], 'all pairs of elements of every tower level, all aliasings, all texts of bounded length',
 'a wrong entry of an 8-bit lookup table or a wrong cross term of one level shows only for particular pairs among 2^256',
 [BF + x for x in ('binary_field.h', 'binary_fields.h', 'binary_tower_operations.h', 'binary_field_traits_forward.h')],
 [('lookup tables of the 8-bit level', BF + 'binary_tower_operations.h'), ('Karatsuba over the tower', BF + 'binary_tower_operations.h')])
claim('C04', DED + ': bit-precise symbolic execution of every operation at every tower level, table look-ups enumerated exhaustively, the upper levels discharged as bit-vector equations over the contract of the level below', 'proof',
 'Ring operations, inverse and division are proved for all elements of every level (non-degeneracy of the norm is field theory, checked numerically for the small levels); text conversions are run-time contract checks.')
MV = 'tachyon/math/polynomials/multivariate/'; SC = 'tachyon/crypto/sumcheck/multilinear/'
prop('C14', 'Multilinear extensions, multivariate polynomials and the sum-check protocol',
 'A multilinear extension evaluates at every point to the multilinear polynomial that interpolates its table, agrees with the table on the hypercube, and fixing variables, addition, subtraction, negation and scalar multiplication commute with evaluation; multivariate polynomials are kept in canonical form (terms ordered, merged, no zero coefficients), their sum, difference, negation, degree and evaluation are those of the polynomial ring; a linear combination evaluates to the sum of products of its extensions; the sum-check prover, run against the verifier with any challenges, sends in every round the evaluations of the true round polynomial, the verifier accepts exactly when every consistency equation holds, and its final claim is the value of the combination at the challenge point.',
 ['inputs', 'histories'], 'all tables, points, coefficients and challenges, all numbers of variables, all lists of terms',
 'the tests use one or two small polynomials; orderings of literals that agree in a suffix, cancelling terms, empty polynomials and products of different lengths need particular shapes',
 [MV + x for x in ('multilinear_extension.h', 'multilinear_extension_ops.h', 'multilinear_dense_evaluations.h', 'multivariate_polynomial.h', 'multivariate_polynomial_ops.h', 'multivariate_sparse_coefficients.h', 'linear_combination.h', 'linear_combination_term.h')] + [SC + x for x in ('multilinear_sumcheck.h', 'sumcheck_prover.h', 'sumcheck_verifier.h', 'sumcheck_prover_msg.h', 'sumcheck_verifier_msg.h')],
 [('merging of sorted term lists', MV + 'multivariate_polynomial_ops.h'), ('fixing variables of a table', MV + 'multilinear_dense_evaluations.h'), ('round polynomial of a product list', SC + 'sumcheck_prover.h'), ('interpolation of the round polynomial', SC + 'sumcheck_verifier.h')])
claim('C14', DED + ': every path with symbolic tables, points, coefficients and challenges, outputs compared with the defining polynomials as identities; numbers of variables and shapes enumerated, larger ones by run-time contract checks', 'bounded',
 'For every enumerated shape all field values are covered; larger tables and random shapes are run-time contract checks.')
SP = 'tachyon/crypto/hashes/sponge/'
prop('C15', 'Poseidon, Poseidon2 and the sponges built on them compute their specification',
 'The round constants come from the Grain LFSR of the Poseidon paper, the MDS matrix is the Cauchy matrix of the next elements, and the optimised Poseidon schedule computes the reference permutation on every state; the Poseidon2 permutation applies, for every width and vendor variant, the specified external and internal linear layers, S-boxes and constants, with the published internal matrices (invertible, all shipped parameter sets usable); the packed permutations agree lane by lane with the scalar one; the duplex sponge absorbs and squeezes every sequence of lengths with a permutation exactly at block boundaries and changes of direction; the padding-free sponge and the truncated permutation apply the permutation to exactly the specified blocks; serialising and restoring a configuration or a sponge state changes nothing.',
 ['inputs', 'configurations', 'histories'], 'all states, all shipped parameter sets, all interleavings of absorbing and squeezing of any lengths',
 'the tests compare a few known answers and sequences; a squeeze that ends exactly at a block boundary, a parameter set without a known answer or a deserialised configuration is never exercised',
 [SP + x for x in ('poseidon/poseidon.h', 'poseidon/poseidon_config.h', 'poseidon/poseidon_config_base.h', 'poseidon/poseidon_grain_lfsr.h', 'poseidon/poseidon_sponge_base.h', 'poseidon/sparse_mds_matrix.h', 'poseidon2/poseidon2.h', 'poseidon2/poseidon2_config.h', 'poseidon2/poseidon2_horizen_external_matrix.h', 'poseidon2/poseidon2_plonky3_external_matrix.h', 'poseidon2/poseidon2_horizen_internal_matrix.h', 'poseidon2/poseidon2_plonky3_internal_matrix.h', 'sponge.h', 'sponge_state.h', 'duplex_sponge_mode.h', 'padding_free_sponge.h', 'truncated_permutation.h')],
 [('optimised partial rounds', SP + 'poseidon/poseidon_config.h'), ('duplex mode bookkeeping', SP + 'poseidon/poseidon_sponge_base.h'), ('shift based internal matrix', SP + 'poseidon2/poseidon2_plonky3_internal_matrix.h'), ('shipped diagonals and shifts', SP + 'poseidon2/param_traits/poseidon2_baby_bear.h')])
claim('C15', DED + ': every path of the permutations on a symbolic state with the S-box as a memoised function, linear layers as polynomial identities, the shift layer over exact integers, the sponge over an arbitrary (uninterpreted) permutation for enumerated scripts; parameter generation by run-time contract checks that decide the optimised schedule for every state', 'proof',
 'Permutations and linear layers are proved for all states; scripts, lengths and parameter sets are enumerated (bounded), generated parameters, packed variants and serialisation are run-time contract checks.')
BM = 'tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/'
prop('C16', 'Binary Merkle trees commit to every leaf and accept exactly matching openings',
 'For any leaf hash and parent hash, committing to a power-of-two number of leaves up to the maximum stores at every node the hash of its two children and returns the root, whatever subtree size is used for parallelisation, and never touches storage outside the tree; other numbers of leaves are refused; the opening of every leaf consists of exactly the siblings on its path and verifies; an opening is accepted exactly when the hashes along it reproduce the root; two proofs are equal exactly when all their entries are.',
 ['inputs', 'configurations'], 'all leaves, all hash functions, all tree sizes, leaf positions, subtree sizes and all proofs',
 'the tests use one tree size; single leaves, subtrees of one leaf, swapped sides and truncated proofs need particular sizes and histories',
 [BM + x for x in ('binary_merkle_tree.h', 'binary_merkle_proof.h', 'binary_merkle_hasher.h', 'binary_merkle_tree_storage.h', 'simple_binary_merkle_tree_storage.h')],
 [('level by level construction of subtrees', BM + 'binary_merkle_tree.h'), ('path indices', BM + 'binary_merkle_tree.h')])
claim('C16', DED + ': every path with symbolic leaves and uninterpreted hash functions, all nodes, proofs and verdicts compared with the definition; sizes up to the maximum of 16 leaves enumerated', 'bounded',
 'All leaves and all hash functions are covered for trees of 1 to 16 leaves, every leaf index and every subtree size, and for proofs of up to 5 steps.')
MX = 'tachyon/math/matrix/'
prop('C19', 'Matrix and point utilities preserve the values they denote',
 'The ELL and CSR sparse matrices, and the Eigen sparse matrices built from them, denote the same matrix: conversions in either direction keep every entry at its position, sorting does not change the matrix, and the reported numbers of rows, columns and non-zeros, sortedness and equality are those of the denoted matrix, also with empty rows and empty matrices. Matrix-vector and matrix-matrix products equal the textbook sums for all shapes and storage orders; the circulant, bit-reversal, chunk-splitting, row-packing (horizontal and vertical) and dot-with-powers utilities compute their definitions; inverse times matrix is the identity. Matrices, points and dimensions written to a buffer are read back unchanged, and a buffer whose shape does not fit a fixed-size type is refused.',
 ['inputs', 'configurations'], 'all entries, shapes, sparsity patterns, storage orders and vector-register widths',
 'the tests use one square or hand-written matrix per operation; empty rows, non-square shapes, unsorted input and partially filled registers are not covered',
 [MX + x for x in ('sparse/sparse_matrix.h', 'matrix_operations.h', 'matrix_utils.h', 'matrix_types.h')] + ['tachyon/math/geometry/' + x for x in ('point2.h', 'point3.h', 'point4.h', 'dimensions.h')],
 [('conversions between sparse formats', MX + 'sparse/sparse_matrix.h'), ('products', MX + 'matrix_operations.h'), ('packing and rearrangement', MX + 'matrix_utils.h'), ('buffers', MX + 'matrix_types.h')])
claim('C19', DED + ': entries symbolic for enumerated shapes and sparsity patterns; packed-register utilities and larger shapes by the same contracts evaluated on the compiled code', 'bounded',
 'All entry values for the enumerated shapes (up to 4x4 sparse, 9x17 dense) and sparsity patterns; random patterns up to 3x20 at run time; vector-register code at run time only.')
R1 = 'tachyon/zk/r1cs/constraint_system/'
prop('C17', 'R1CS matrices, satisfaction and the QAP reduction mean what the constraints say',
 'Linear combinations over R1CS variables behave as finite sums: every operator, in-place or not, with terms, variables, scalars or other combinations, yields the combination with exactly the summed coefficients, sorted and without repeated variables, and deduplication does the same for any list of terms; variables are totally ordered by kind and index. For every circuit, finalisation by inlining or by outlining preserves meaning: the matrices, after substituting each added witness by its defining constraint, are exactly the constraints with all symbolic combinations inlined; the counts match, added witnesses carry the value of their definition, setup and proving produce the same matrices, finalising twice changes nothing, and IsSatisfied is true exactly when every constraint holds for the assignment. The QAP instance map returns the textbook linear combinations of Lagrange values (with the instance rows appended), the vanishing polynomial at the point, and the witness map returns for a satisfying assignment the quotient h with A B - C = h t; the h-query is x^i t(x) / delta.',
 ['inputs', 'configurations', 'histories'], 'all coefficients, assignments and evaluation points, circuits of linear combinations and constraints, goals and modes',
 'the tests use one multiplication circuit; nested, repeated, long and unused combinations, zero variables and coefficients, outlining thresholds and domains with spare rows are not covered',
 [R1 + x for x in ('linear_combination.h', 'term.h', 'variable.h', 'constraint_system.h', 'matrix.h', 'constraint_matrices.h', 'quadratic_arithmetic_program.h')],
 [('merge and binary search of terms', R1 + 'linear_combination.h'), ('transformation of linear combinations', R1 + 'constraint_system.h'), ('instance and witness maps', R1 + 'quadratic_arithmetic_program.h')])
claim('C17', DED + ': coefficients, assignments and the evaluation point symbolic for enumerated circuits; random circuits and values by the same contracts evaluated on the compiled code', 'bounded',
 'All coefficients for the enumerated term patterns; all assignments (and for small circuits all non-zero coefficients) for about 20 circuits in both goals and modes; QAP domains up to 16 deductively, 32 at run time; the h-query for domains up to 16 deductively, 256 at run time.')
MS = EC + 'msm/'
prop('C10', 'Scalar multiplication, GLV and multi-scalar multiplication sum the k_i P_i',
 'On every shipped curve and in every coordinate system, for every scalar below the group order and every point, point-by-scalar multiplication (operators, ScalarMul, the windowed and GLV variants) returns the group element k*P; a GLV decomposition reproduces the scalar modulo the group order and its multiplication agrees with k*P whatever the lengths and signs of the two halves. The signed-digit representations denote the scalar. Every multi-scalar multiplication (Pippenger with any window size and split, the parallel variants, the variable-base driver, fixed-base tables, linear combinations, double-and-add lists) returns the sum of the k_i*P_i for every number of terms including none, with zero, one, maximal and repeated scalars, infinite, repeated and opposite points; mismatched lengths are refused.',
 ['inputs', 'configurations'], 'all scalars below the group order, all point lists and lengths, every window size and strategy, every coordinate system',
 'random tests use full-size scalars and distinct points: halves of different length, empty or overfull buckets, opposite points meeting in one bucket, carries out of the top window and a single term need specific inputs',
 [MS + x for x in ('glv.h', 'msm_ctx.h', 'msm_util.h', 'variable_base_msm.h', 'fixed_base_msm.h', 'algorithms/pippenger/pippenger.h', 'algorithms/pippenger/pippenger_base.h', 'algorithms/pippenger/pippenger_adapter.h')] + [MB + 'groups.h', MB + 'semigroups.h'],
 [('joint double-and-add of the two halves', MS + 'glv.h'), ('bucket accumulation and window reduction', MS + 'algorithms/pippenger/pippenger_base.h'), ('signed window digits', MS + 'algorithms/pippenger/pippenger.h')])
claim('C10', DED + ': the real algorithm bodies are executed over a free group of symbolic points for enumerated scalars and lengths (every window and strategy), signed digits proved for all scalars over exact integers, and the shipped curves checked by the same contracts evaluated on the compiled code', 'bounded',
 'All points are covered (free abelian group) for enumerated scalar patterns, lengths and window sizes; signed-digit recoding is proved for every scalar; on the real curves structured scalars and points are run-time contract checks against an independent group law.')
PA = EC + 'pairing/'
prop('C11', 'Pairings are the ate pairing: bilinear, non-degenerate and neutral at infinity',
 'For BN254 and BLS12-381, the pairing of lists of G1 and G2 points (given in affine form or prepared) is the product of the ate pairings of the pairs: e(aP, bQ) = e(P, Q)^(ab), e of the generators is not one and has the order of the group, pairs with a point at infinity contribute one, the empty product is one, and the result does not depend on how the list is split into chunks. Final exponentiation raises every non-zero element to a fixed multiple (coprime to the group order) of (q^12 - 1)/r; each Miller step doubles or adds the running point and returns the tangent or chord through the points it used; preparation remembers infinity.',
 ['inputs'], 'all points, all multiples, all list lengths, all elements of the target field',
 'tests pair one or two random points; lists longer than a chunk, points at infinity at particular positions and errors common to both sides of a bilinearity test are not met',
 [PA + x for x in ('pairing.h', 'ell_coeff.h', 'pairing_friendly_curve.h', 'twist_type.h')] + [EC + x for x in ('bn/bn_curve.h', 'bn/g2_prepared.h', 'pairing/g2_projective.h', 'bls12/bls12_curve.h', 'bls12/g2_prepared.h')],
 [('Miller loop', EC + 'bn/bn_curve.h'), ('final exponentiation', EC + 'bls12/bls12_curve.h'), ('line coefficients', EC + 'pairing/g2_projective.h')])
claim('C11', DED + ': final exponentiation proved for every input by executing the real body on exponents (Frobenius, cyclotomic and group contracts of C03), Miller steps proved for all points as polynomial identities; whole pairings by run-time contract checks against an independent affine ate pairing', 'bounded',
 'Final exponentiation, doubling, addition and negation steps: all values. Whole pairing: up to 13 pairs of multiples of the generators with every pattern of infinities sampled, compared with an independent implementation.')
FF = 'tachyon/math/finite_fields/'
prop('C05', 'Packed (vector register) field arithmetic is the field arithmetic in every lane',
 'For the packed BabyBear, KoalaBear and Mersenne31 fields, with AVX2 (8 lanes) and AVX-512 (16 lanes) registers, every lane of the result of addition, subtraction, negation, doubling, multiplication, squaring, powers (compile-time and run-time exponents, including the specialised cube, fifth and seventh power), inversion, broadcasting and construction is the canonical result of the prime-field operation on the same lanes of the operands, whatever the other lanes hold, also for in-place and aliased forms; constants, comparisons, predicates and lane access agree with the lanes. The packed quartic extensions apply the extension-field operation in every lane, and the packed powers of an extension element are its consecutive powers.',
 ['inputs'], 'all lane values (canonical representations), all lanes, all operations and both register widths',
 'tests use random lanes of one register width (the one the build selects); wrong results that depend on a boundary value in one lane, on the sign of a partial reduction or on 512-bit registers are not met',
 [FF + x for x in ('packed_prime_field_base.h', 'packed_prime_field32_avx2.h', 'packed_prime_field32_avx512.h', 'extension_field_base.h', 'baby_bear/internal/packed_baby_bear_avx2.cc', 'baby_bear/internal/packed_baby_bear_avx512.cc', 'koala_bear/internal/packed_koala_bear_avx2.cc', 'koala_bear/internal/packed_koala_bear_avx512.cc', 'mersenne31/internal/packed_mersenne31_avx2.cc', 'mersenne31/internal/packed_mersenne31_avx512.cc')],
 [('Montgomery multiplication of even and odd lanes', FF + 'packed_prime_field32_avx2.h'), ('signed reduction chains of the powers', FF + 'packed_prime_field32_avx2.h'), ('masked merge of the 512-bit halves', FF + 'packed_prime_field32_avx512.h'), ('packed powers', FF + 'extension_field_base.h')])
claim('C05', DED + ': the vector code is executed lane by lane and every lane of every result is proved, over exact integers, to be the canonical field result for all operands; powers are proved against the contracts of the signed reduction and of the multiplication, extension operations against the lane contracts; comparisons, lane access, inversion and run-time exponents by run-time contract checks', 'proof',
 'All operand values for the arithmetic operations in both register widths; comparisons, predicates, inversion, run-time exponents and packed power lists are run-time contract checks.')
PL = 'tachyon/zk/plonk/'
prop('C18', 'PLONK expressions, constraint systems and compiled forms denote the same',
 'An expression built with the factory and its operators denotes the polynomial it was written as; its degree, complexity, equality, identifier and copies are those of that expression (two expressions with equal identifiers are equal), rotations wrap around the domain, and every evaluator gives the denoted value: the proving and verifying evaluators, the compressed form of several expressions (Horner in theta) and the graph evaluator compiled from them, including its special constants and shared subexpressions. Replacing selectors by columns or expressions and combining simple selectors keeps every gate satisfied by exactly the same assignments: each combined selector is non-zero exactly on its rows and the degrees stay within the bound. The numbers a constraint system reports (degree, blinding factors, minimum rows, extended domain size, permutation chunk length, queries and their indices) are those of its gates, lookups, shuffles and permutation; lookups are chunked into arguments of their own table without losing or inventing inputs. Copy constraints merge exactly the cycles that are copied, and the permutation columns built from them are the permutation of the labels delta^i * omega^j; copies outside the assembly are rejected. The verifier evaluates exactly the identities of the gates, the permutation, the lookups (both kinds of lookup argument) and the shuffles at the challenge, combines them in powers of y, and asks for exactly the openings those identities use.',
 ['inputs', 'configurations', 'histories'], 'all column and challenge values, all expressions, gates, lookups, selector assignments and copy histories',
 'the tests compare a few hand-written expressions structurally; nested scaling, shared subexpressions, constants the compiler treats specially, selectors of high degree, several lookup tables and copies that join cycles are not covered',
 [PL + x for x in ('expressions/expression_factory.h', 'expressions/proving_evaluator.h', 'expressions/verifying_evaluator.h', 'expressions/compress_expression.h', 'expressions/evaluator/identifier.h', 'expressions/evaluator/simple_selector_finder.h', 'vanishing/graph_evaluator.h', 'constraint_system/constraint_system.h', 'constraint_system/selector_compressor.h', 'expressions/evaluator/selector_replacer.h', 'permutation/cycle_store.cc', 'permutation/permutation_assembly.h', 'permutation/permutation_table_store.h', 'permutation/unpermuted_table.h')] + ['tachyon/zk/base/rotation.h', 'tachyon/zk/lookup/argument.h', PL + 'permutation/permutation_verifier.h', PL + 'vanishing/vanishing_verifier.h', 'tachyon/zk/lookup/halo2/verifier.h', 'tachyon/zk/lookup/log_derivative_halo2/verifier.h', 'tachyon/zk/shuffle/verifier.h', PL + 'halo2/proof.h'],
 [('compilation to a graph of calculations', PL + 'vanishing/graph_evaluator.h'), ('exclusion graph of selectors', PL + 'constraint_system/selector_compressor.h'), ('merging of cycles', PL + 'permutation/cycle_store.cc')])
claim('C18', DED + ': evaluators, compressed and compiled forms executed on symbolic column, challenge and selector values for enumerated and generated expressions and systems; structural facts, selector assignments and copy histories by the same contracts evaluated on the compiled code', 'bounded',
 'All values for the enumerated and generated expressions, gates and lookups, and for the identities and openings of the verifier of the enumerated systems; degrees, identifiers, selector combinations, cycles and permutation columns over enumerated and random histories.')
CM = 'tachyon/crypto/commitments/'
prop('C20', 'Commitment schemes open what they commit to and refuse every other claim',
 'KZG set-up yields the powers of tau and the Lagrange basis they define, in both groups, and stays consistent when it is reduced; commitments (KZG, Pedersen, single and in batches, monomial and Lagrange form) are the inner products of their bases with the coefficients, vectors that do not fit are refused. For GWC and SHPLONK, whether set up or read back from their parts: an honest opening proof of any polynomials at any points is accepted, the proof consists of the quotient commitments the protocol defines, written and absorbed in the order in which the verifier reads them, and the verifier accepts exactly when the pairing equation of the protocol holds, so that a changed commitment, point, value or proof element, or a truncated proof, is refused. A binary Merkle tree has the root its leaves define, every leaf opens against it with the siblings of its path, and a path is accepted exactly when it leads from the leaf to the root. Simple FRI commits to every polynomial of the domain, folds it as (f(x)+f(-x))/2 + beta (f(x)-f(-x))/(2x), and its verifier accepts exactly the openings whose Merkle paths start at the queried index and lead to the committed roots and whose layers fold into each other down to the final value.',
 ['inputs', 'configurations'], 'all polynomials, points, challenges, set-up secrets and claimed values; all claimed openings',
 'the commitment tests (outside the reliable ones) open a few fixed polynomials honestly; shared and distinct point sets, degenerate degrees, schemes built from stored parts, wrong claims and forged paths are not tried',
 [CM + x for x in ('kzg/kzg.h', 'kzg/kzg_family.h', 'kzg/gwc.h', 'kzg/shplonk.h', 'pedersen/pedersen.h', 'vector_commitment_scheme.h', 'univariate_polynomial_commitment_scheme.h', 'polynomial_openings.h', 'fri/simple_fri.h', 'merkle_tree/binary_merkle_tree/binary_merkle_tree.h')],
 [('grouping of openings by point or by set of points', CM + 'polynomial_openings.h'), ('combination of quotients and remainders', CM + 'kzg/shplonk.h'), ('binding of paths to the queried index', CM + 'fri/simple_fri.h')])
claim('C20', DED + ': the schemes are executed over a group of known discrete logarithms (the contracts of the curves, of multi-scalar multiplication and of the pairing), on symbolic coefficients, challenges, commitments and proof elements; the verifier\'s decision is proved equivalent to the equation of the protocol; larger layouts and bn254 by the same contracts evaluated on the compiled code', 'bounded',
 'All values for enumerated layouts of queries, degrees, tree sizes and indices; degenerate degrees, what the prover writes and tampered proofs over bn254 are run-time contract checks. Cryptographic soundness (hardness assumptions) is outside.')
prop('C07', 'Serialised, JSON and text forms are read back as the value that was written',
 'For every serialisable type (integers, floating-point numbers, enums, strings of every character width, vectors, arrays, big integers, prime-field and extension-field elements, curve points in every coordinate system, matrices, dense and sparse polynomials, evaluations, multilinear extensions, sponge states and configurations, sum-check messages and keys, KZG, GWC, SHPLONK and Pedersen parameters) and for native, little-endian and big-endian buffers: writing succeeds exactly when the value fits or the buffer grows, the number of bytes written is the estimated size, reading returns an equal value and consumes exactly those bytes, a strict prefix of the bytes is refused, and nothing is written or read outside the buffer. Integers have the bytes of the chosen byte order; field elements have the bytes of their value, or of their Montgomery form when that is requested. Moving a buffer keeps its contents, position and byte order. JSON conversion returns the value it was given, reports malformed or mismatched input with an error; decimal and hexadecimal text of a field element is its value, and exactly the numerals below the modulus are parsed.',
 ['inputs', 'configurations'], 'all values of all serialisable types, all byte orders, all truncations',
 'the tests write and read one or two values of each type in the native order into a growing buffer; other byte orders, floating-point values, wide strings, truncated input, exact-size buffers, Montgomery form and neighbouring values are not covered',
 ['tachyon/base/buffer/' + x for x in ('buffer.h', 'buffer.cc', 'read_only_buffer.h', 'read_only_buffer.cc', 'vector_buffer.h', 'copyable.h')] + ['tachyon/base/json/json.h', 'tachyon/base/json/rapidjson_util.h', FF + 'prime_field_base.h', MB + 'big_int.h', 'tachyon/math/matrix/matrix_types.h', 'tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h', 'tachyon/math/elliptic_curves/short_weierstrass/affine_point.h', 'tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h'],
 [('byte order of built-in types', 'tachyon/base/buffer/buffer.h'), ('bounds of reads', 'tachyon/base/buffer/read_only_buffer.cc'), ('containers', 'tachyon/base/buffer/copyable.h'), ('Montgomery and plain form of field elements', FF + 'prime_field_base.h')])
claim('C07', DED + ': the bytes of integers written to and read from buffers in every byte order, the bounds of reads, and the round trip of field elements are proved for every value; the other types by the same contracts evaluated on the compiled code', 'bounded',
 'All values for integer and BN254/BabyBear field buffers of the enumerated layouts; every other serialisable type, JSON and text forms over random and edge values, lengths and every truncation. Malformed lengths that ask for more memory than exists are outside.')
prop('C21', 'Proofs of satisfied circuits verify; proofs of violated ones do not',
 'For every circuit of the PLONK front end (gates, copies, lookups of both kinds with one or several columns, one or several shuffles, several circuits in one proof), proving key (built directly or from a verifying key), vendor (PSE and Scroll halo2), commitment scheme (GWC, SHPlonk), transcript (Blake2b, SHA-256, Poseidon, snark-verifier Poseidon) and floor planner: the proof of a satisfied witness is accepted; the proof of a witness that violates a gate, a lookup, a shuffle or a copy is refused, as are a changed or truncated proof and changed or exchanged instances. The arguments the prover builds are those the protocol defines: running products and sums start at one (zero), continue over the usable rows by the ratio the columns define, continue across the chunks of the permutation and end at one (zero); the permuted columns of a lookup are permutations in which every input is in the table or repeats; multiplicities count the inputs; exactly the last rows are replaced by random values.',
 ['inputs', 'configurations'], 'all circuits, witnesses, challenges, vendors, schemes, transcripts',
 'the prover tests (outside the reliable ones) prove a handful of fixed circuits, all of the Scroll vendor and none with two shuffles; no violated witness and no changed proof is tried',
 ['tachyon/zk/plonk/halo2/prover.h', 'tachyon/zk/plonk/halo2/verifier.h', 'tachyon/zk/plonk/halo2/proof_reader.h', 'tachyon/zk/plonk/keys/proving_key.h', 'tachyon/zk/plonk/keys/verifying_key.h', 'tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h', 'tachyon/zk/plonk/vanishing/vanishing_utils.h', 'tachyon/zk/plonk/permutation/grand_product_argument.h', 'tachyon/zk/plonk/permutation/permutation_prover_impl.h', 'tachyon/zk/plonk/permutation/permutation_evaluator.h', 'tachyon/zk/lookup/halo2/prover_impl.h', 'tachyon/zk/lookup/halo2/permute_expression_pair.h', 'tachyon/zk/lookup/log_derivative_halo2/prover_impl.h', 'tachyon/zk/shuffle/prover_impl.h', 'tachyon/zk/shuffle/evaluator.h', 'tachyon/zk/base/blinder.h'],
 [('rows and rotations of the extended domain', 'tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h'), ('running products across chunks', 'tachyon/zk/plonk/permutation/grand_product_argument.h'), ('order of the transcript', 'tachyon/zk/plonk/halo2/proof_reader.h')])
claim('C21', DED + ': blinding, grand products, and the permutation and shuffle arguments of the prover are proved for every value of the columns and challenges; lookup arguments, keys and whole proofs by the same contracts evaluated on the compiled code', 'bounded',
 'All values for enumerated systems of 2 to 8 rows; lookup arguments and whole proofs (16 and 32 rows, four schemes, four transcripts, honest and violated) are run-time contract checks. Zero knowledge and cryptographic soundness are outside; BLAKE2b is a stand-in for BoringSSL\'s.')
prop('C22', 'Results do not depend on the number of threads or on the schedule',
 'Every algorithm that is parallelised with OpenMP (base::Parallelize, multi-scalar multiplication, transforms, batch inversion, Merkle trees, matrix packing, Poseidon grinding) accesses disjoint data from its threads or joins it in a fixed order, so that its result is that of the serial program for every number of threads and every schedule.',
 ['schedules'], 'all schedules and numbers of threads', 'a test run sees one schedule', ['tachyon/base/openmp_util.h', 'tachyon/base/parallelize.h'], [('chunking', 'tachyon/base/parallelize.h')])
na('C22', 'The contracts are discharged on sequential code: the deductive engine has no ownership or permission logic for OpenMP regions of C++ containers, and no such verifier is installed (the C++ front end of CBMC does not accept these templates). The partition into chunks is verified sequentially within the other checks; interleavings are not.')
prop('C23', 'The GPU back ends compute what the CPU code computes',
 'Field, point, multi-scalar multiplication and transform kernels for CUDA (icicle and native) return the values of the CPU implementation for every input.',
 ['inputs'], 'all inputs', 'GPU tests are not built here', ['tachyon/device/gpu', 'tachyon/math/elliptic_curves/msm'], [('kernels', 'tachyon/math/elliptic_curves/msm')])
na('C23', 'The code behind TACHYON_CUDA needs nvcc, CUDA headers and the icicle library, none of which is installed, so there is no compiled or preprocessed form to put under contract.')
prop('C24', 'Accepted proofs are of knowledge, and proofs reveal nothing else',
 'A prover that makes the verifier of PLONK, Groth16, GWC, SHPLONK, FRI or sum-check accept knows a witness except with negligible probability, and a proof can be simulated without one.',
 ['inputs'], 'all efficient adversaries', 'no test can range over adversaries', ['tachyon/zk', 'tachyon/crypto/commitments'], [('Fiat-Shamir transcripts', 'tachyon/crypto/transcripts')])
na('C24', 'A statement about probabilistic polynomial-time adversaries under hardness assumptions: it is not a contract of any function. The functional part (what is written, absorbed, squeezed and compared) is claimed in C14, C18, C20 and C21.')
