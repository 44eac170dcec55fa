import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S='crypto/stark/src/'; M='crypto/merkle-tree/src/'; U='algebra/u256/src/'; F='algebra/primefield/src/'; E='algebra/elliptic-curve/src/'; C='crypto/elliptic-curve-crypto/src/'
p('P01','The STARK verifier accepts a proof only after every check has passed',
 'Verification returns success only for a proof whose proof of work is valid, whose trace, constraint and FRI openings all match their commitments, whose out-of-domain values satisfy the constraints, whose final FRI layer agrees with its polynomial, and whose bytes are consumed exactly. Each failing check is reported as its own error, and no public input or query is left unchecked.',
 ['inputs','programs'],'every constraint system and every byte string offered as a proof','Tests verify honest proofs and a few hand-tampered ones; a dropped or weakened check is invisible to honest proofs, and the space of forged proofs cannot be sampled.',
 [S+'verifier.rs'],[('verify','zkp_stark::verifier::verify'),('get_indices','zkp_stark::verifier::get_indices'),('oods_value_from_trace_values / oods_value_from_constraint_values / out_of_domain_element','zkp_stark::verifier'),('fold_many and fri folding','zkp_stark::verifier')],observe=['return value of verify'])
p('P02','Fiat-Shamir: every challenge is bound to everything sent before it',
 'The public coin absorbs the seed and every message in order, each draw advances it so no two draws repeat, and every value drawn is the specified hash of the whole transcript so far, reduced without bias to the requested kind. Prover and verifier coins fed the same messages produce the same challenges.',
 ['inputs','histories'],'every sequence of messages and draws on the channel','The tests replay one fixed transcript; a message that is written to the proof but not absorbed, or a draw that does not advance the coin, still completes every honest round trip.',
 [S+'channel.rs'],[('PublicCoin::seed / Writable for PublicCoin / RandomGenerator for PublicCoin','zkp_stark::channel'),('ProverChannel writes','zkp_stark::channel'),('VerifierChannel replays','zkp_stark::channel')],
 state=[('digest','hash of the transcript so far','PublicCoin.digest'),('counter','draws since the last message','PublicCoin.counter')])
p('P03','The prover follows the protocol and only returns proofs it has verified',
 'For every constraint system and satisfying trace the prover sends commitments, challenges, out-of-domain values, FRI layers, proof of work and decommitments in the order the verifier replays them, computed from the trace as the protocol defines. It returns a proof only after its own verification of that proof against the original constraints succeeded.',
 ['inputs','programs'],'every constraint system, trace and protocol parameter choice','End-to-end tests prove a handful of small systems; layouts, column counts, blowups and layer plans outside those samples are never exercised.',
 [S+'prover.rs'],[('prove','zkp_stark::prover::prove'),('constraint polynomials, oods combination, FRI layering and decommitment','zkp_stark::prover')],observe=['proof bytes','Result of prove'])
p('P04','Proof-of-work: the threshold and hash decide acceptance, and solving finds one',
 'A nonce is accepted exactly when the hash of the challenge seed, difficulty and nonce starts with at least the required number of zero bits, and the solver only returns a nonce that this test accepts.',
 ['inputs'],'every seed, difficulty and nonce','Tests use a couple of difficulties; an off-by-one in the difficulty or a seed byte left out of the hash still lets solve and verify agree.',
 [S+'proof_of_work.rs'],[('Challenge::verify, Challenge::solve, ChallengeSeed::with_difficulty','zkp_stark::proof_of_work')])
p('P05','Merkle openings prove membership and nothing else',
 'A Merkle root is determined by all leaves in order; an opening produced for any set of indices verifies against the root, and verification succeeds only if the hashes recomputed from the given leaves and the sibling hashes, in index order, equal the committed root with size and depth taken from the commitment. Malformed requests are reported as errors.',
 ['inputs'],'every leaf vector, every index set (duplicated, unsorted, adjacent), every offered proof','Tests sample random small trees and honest openings; forged proofs and unusual index patterns are unsampled.',
 [M+'tree.rs',M+'proof.rs',M+'commitment.rs',M+'result.rs'],[('Tree::from_leaves_skip_layers / node_hash / open','zkp_merkle_tree::tree'),('Proof::verify / from_hashes','zkp_merkle_tree::proof'),('Commitment::sort_indices / proof_size','zkp_merkle_tree::commitment')])
p('P06','Tree index arithmetic is the arithmetic of a complete binary tree',
 'For every node, parent, children, sibling, depth, offset, leaf size and layer relations are those of a complete binary tree rooted at the first node, and conversions between (depth, offset) and node are mutually inverse. Ill-formed positions yield no index.',
 ['inputs'],'every tree index and every depth/offset pair','Property tests sample some indices; boundary cases such as the root, the last layer node or depth limits can go wrong unseen.',
 [M+'index.rs'],[('Index methods','zkp_merkle_tree::index')])
p('P07','Leaf and node hashes commit to the whole content',
 'The hash of a value covers every byte of it in the canonical encoding, multi-element leaves hash the concatenation of all their elements in order, and node hashes are the truncated keccak of both children in order. The same leaf hashes identically for prover and verifier.',
 ['inputs'],'every hashable value and pair of hashes','A dropped or reordered byte in an encoding keeps prover and verifier consistent with each other, so every round-trip test still passes.',
 ['crypto/hash/src/hashable.rs','crypto/hash/src/masked_keccak.rs','crypto/hash/src/hash.rs',M+'node.rs',M+'vector_commitment.rs',S+'prover.rs'],[('Hashable impls','zkp_hash::hashable and users'),('MaskedKeccak','zkp_hash::masked_keccak')])
p('P08','Prime-field elements behave as the field and stay canonical',
 'Every field operation returns the mathematically defined residue, represented canonically below the modulus, so equality of elements is equality of representations. Inversion and division of zero are reported, roots have exactly the requested order, and conversions to and from integers are exact.',
 ['inputs'],'every pair of field elements and every exponent','Tests sample random elements; the carries and equal-to-modulus boundaries have probability about 2^-64 under sampling.',
 [F+'prime_field.rs',F+'ops.rs',F+'convert.rs',F+'traits.rs',F+'uint.rs',F+'rand.rs'],[('PrimeField arithmetic','zkp_primefield::prime_field'),('conversions','zkp_primefield::convert'),('operator families','zkp_primefield::ops')])
p('P09','Field and curve constants are mutually consistent',
 'The moduli, Montgomery constants, generators and subgroup orders of both fields, and the curve parameters, base point and order, satisfy their defining equations. No constant used by arithmetic disagrees with the modulus it belongs to.',
 ['configurations'],'every parameter set compiled into the library','Tests exercise only elements produced with these constants and would accept a generator of the wrong order or a slightly different curve parameter on unexercised paths.',
 [F+'proth_field.rs',E+'scalar_field.rs',E+'lib.rs',E+'curve.rs'],[('FieldParameters for Proth and Order','zkp_primefield::proth_field, zkp_elliptic_curve::scalar_field'),('ALPHA, BETA, GENERATOR, ORDER','zkp_elliptic_curve')])
p('P10','256-bit integer arithmetic is exact modulo 2^256',
 'Addition, subtraction, negation, multiplication, squaring, shifts, bitwise operations, comparison and bit counting of 256-bit integers equal the mathematical result modulo 2^256, with full products and carries exact.',
 ['inputs'],'every pair of 256-bit values and every shift amount','Carry propagation through all limbs and limb-boundary shifts have negligible probability under random testing.',
 [U+'additive.rs',U+'multiplicative.rs',U+'binary.rs',U+'u256.rs',U+'u256_traits.rs',U+'functions.rs',U+'algorithms/limb_operations.rs',U+'traits/binary.rs'],[('additive / multiplicative / binary operators','zkp_u256')])
p('P11','Montgomery multiplication and reduction are exact and fully reduced',
 'For every modulus satisfying the documented conditions and all reduced inputs, Montgomery reduction, multiplication and squaring return the canonical representative of the product times the inverse radix; the Proth-specialised versions agree with the generic ones.',
 ['inputs','configurations'],'every operand pair below the modulus and every modulus','The final conditional subtraction and the carry chain have boundary cases which random operands practically never reach.',
 [U+'algorithms/montgomery/generic.rs',U+'algorithms/montgomery/proth.rs',U+'algorithms/montgomery/mod.rs'],[('redc_inline, mul_redc_inline, square_redc_inline, proth variants','zkp_u256::algorithms::montgomery')])
p('P12','Integer conversions, byte encodings and parsing are faithful',
 'Conversions between 256-bit integers and machine integers, limbs, big-endian bytes, hexadecimal and decimal strings preserve the value, are mutually inverse, and reject what does not fit. Serialised forms of integers, field elements and hashes decode to the value that was encoded.',
 ['inputs'],'every integer value and every input string','Tests convert a few constants; values with leading zeros, at the maximum, or one digit too long are unsampled.',
 [U+'conversion.rs',U+'encoding.rs',U+'u256.rs',F+'serde.rs','crypto/hash/src/hash.rs'],[('from/as conversions','zkp_u256::conversion'),('to/from bytes, hex and decimal strings','zkp_u256::encoding')])
p('P13','Division, gcd and modular inverses honour their defining equations',
 'Division returns the quotient and remainder of Euclidean division and reports division by zero, modular operations return reduced residues, and modular inverses exist exactly for values coprime to the modulus.',
 ['inputs'],'every dividend, divisor and modulus','Quotient-digit corrections in multi-limb division and the cofactor edge cases occur with probability near 2^-64 per step.',
 [U+'division.rs',U+'arch/generic/knuth_division.rs',U+'arch/generic/lehmer_gcd.rs',U+'multiplicative.rs'],[('divrem, div_2_1, div_3_2, divrem_nbym','zkp_u256::arch::generic::knuth_division'),('gcd, gcd_extended, inv_mod','zkp_u256::arch::generic::lehmer_gcd'),('DivRem and MulMod','zkp_u256::division')])
p('P14','Elliptic-curve point operations obey the group law',
 'Addition, subtraction, doubling and negation of curve points give the chord-and-tangent result for every pair of points, including equal points, opposite points and the point at infinity, in affine and Jacobian coordinates alike. Conversions between the coordinate systems preserve the point.',
 ['inputs'],'every pair of points, in every coordinate representation','The exceptional cases (equal, opposite, infinity) have negligible probability for random points and several operator combinations are untested.',
 [E+'curve.rs',E+'jacobian.rs'],[('Affine and Jacobian operators','zkp_elliptic_curve')])
p('P15','Every scalar multiplication computes the multiple of the point',
 'All scalar multiplication routines - double-and-add, windowed, precomputed-table, base-point and double-scalar - return the scalar multiple defined by repeated addition, for every scalar and point; digit expansions are exact.',
 ['inputs'],'every scalar (zero, maximal, sparse) and point','Tests compare routines on random scalars; digit patterns with long carries or one negative digit in only one scalar are rare.',
 [E+'wnaf.rs',E+'curve.rs',E+'jacobian.rs'],[('non_adjacent_form, window_table_affine, base_mul, double_mul, mul','zkp_elliptic_curve::wnaf'),('MulAssign','zkp_elliptic_curve::curve, jacobian')])
p('P16','Signatures verify exactly when the signing equation holds',
 'Signing is deterministic in key and message and yields a signature that verifies under the matching public key, and verification accepts exactly the pairs in range that satisfy the signature equation for that key and message. Public keys are the private key times the base point.',
 ['inputs'],'every key, message and candidate signature','Tests sign and verify a few messages; acceptance of out-of-range or altered signatures is not explored.',
 [C+'private_key.rs',C+'public_key.rs',C+'signature.rs'],[('PrivateKey::sign','zkp_elliptic_curve_crypto::private_key'),('PublicKey::verify','zkp_elliptic_curve_crypto::public_key')])
p('P17','The number-theoretic transform evaluates polynomials for every size and variant',
 'For each supported size the transform, its inverse and its coset versions compute the evaluation or interpolation they document, in the documented order, independent of which internal algorithm, radix or thread count is used. Bit-reversal and transposition are permutations of the data.',
 ['inputs','schedules','configurations'],'every vector, power-of-two size, coset and thread schedule','Tests compare against a naive transform for a few small sizes; large-size code paths (square and stretched transposes, parallel split) run only beyond tested sizes.',
 [F+'fft/mod.rs',F+'fft/bit_reverse.rs',F+'fft/small.rs',F+'fft/recursive.rs',F+'fft/radix_sqrt.rs',F+'fft/transpose.rs',F+'fft/prefetch.rs'],[('Fft trait implementation','zkp_primefield::fft'),('fft_permuted, radix_sqrt, recursive, small kernels','zkp_primefield::fft'),('transpose','zkp_primefield::fft::transpose')])
p('P18','Batch inversion and geometric series equal their elementwise definitions',
 'Batch inversion yields the inverse of every element and fails when any is zero, leaving no other element changed; the geometric series iterator yields base times ratio powers, and its length, skipping, stepping and parallel splitting agree with plain iteration.',
 ['inputs','schedules'],'every input vector, every interleaving of iterator operations and parallel split','Tests sample small vectors and plain iteration; splits and steps that do not divide the length are untested.',
 [F+'invert_batch.rs',F+'geometric_series.rs'],[('invert_batch_src_dst / InvertBatch','zkp_primefield::invert_batch'),('GeometricSeries','zkp_primefield::geometric_series')])
p('P19','Dense polynomial operations equal polynomial algebra',
 'Evaluation, coset low-degree extension, shifting the argument and division by a point return the coefficients or values defined by polynomial algebra for every polynomial and point.',
 ['inputs'],'every coefficient vector and every evaluation or division point','Tests use a few random polynomials, always of power-of-two length and nonzero points.',
 [S+'polynomial.rs'],[('DensePolynomial','zkp_stark::polynomial')])
p('P20','Constraint expressions mean the same in every evaluator',
 'Building, simplifying, evaluating pointwise and evaluating over a coset by the expression graph all yield the value of the same rational function, and the computed numerator and denominator degrees bound the true ones. Structural equality and hashing of expressions never identify expressions of different value.',
 ['programs','inputs'],'every expression a user can build and every evaluation point','Tests evaluate a few expressions; simplification rules and lookup-table periods for other shapes are unexercised.',
 [S+'rational_expression.rs',S+'algebraic_dag.rs',S+'rational_equality.rs'],[('RationalExpression evaluate / degree / operators','zkp_stark::rational_expression'),('AlgebraicGraph expression / init / next / lookup','zkp_stark::algebraic_dag')])
p('P21','Constraint systems carry exactly the parameters their security relies on',
 'A constraint system accepts only well-formed parameter combinations, its combined degree, blowup, query count, proof-of-work and folding layout are what the user set and what prover and verifier use, and its coefficient combination adjusts every constraint to the common degree. Combining the trace and constraints for the check uses every constraint once.',
 ['configurations','programs'],'every set of constraints and every parameter assignment','Tests use two or three parameter sets; wrong defaults or an ignored setting only weaken security and never fail an honest proof.',
 [S+'constraints.rs'],[('Constraints builders, degree, combine, substitute','zkp_stark::constraints')])
p('P22','The trace checker accepts exactly the traces that satisfy the constraints',
 'Checking a trace succeeds exactly when every constraint holds on every row of its domain, and failures are reported with the constraint and row that fails.',
 ['inputs','programs'],'every trace table and constraint system','Tests check one honest trace; violations on boundary rows or of constraints with unusual domains are unsampled.',
 [S+'constraint_check.rs',S+'traits.rs',S+'trace_table.rs'],[('check_constraints / check_specific_constraint','zkp_stark::constraint_check'),('Provable / Verifiable defaults','zkp_stark::traits'),('TraceTable','zkp_stark::trace_table')])
p('P23','Component combinators preserve the meaning of their parts',
 'Composing components horizontally, vertically, by folding or by mapping yields a component whose constraints hold exactly when those of its parts hold on their share of the trace, with labels still resolving to the cells of the original part.',
 ['programs','inputs'],'every composition of components and every claim and witness','Tests combine one test component with itself at a few sizes.',
 [S+'component/empty.rs',S+'component/fold.rs',S+'component/horizontal.rs',S+'component/mapped.rs',S+'component/mod.rs',S+'component/vertical.rs'],[('Component combinators','zkp_stark::component')])
p('P24','Memory-mapped vectors never expose memory outside their contents',
 'A memory-mapped vector behaves as an ordinary vector with fixed capacity: its length never exceeds its capacity, reads and writes stay within the mapped region, exceeding the capacity is refused, and element contents survive any sequence of operations.',
 ['histories','inputs'],'every sequence of vector operations and every element type','Tests perform short push and extend sequences; an off-by-one at the capacity limit is undefined behaviour that a passing test does not reveal.',
 ['utils/mmap-vec/src/mmap_vec.rs','utils/mmap-vec/src/lib.rs'],[('MmapVec','zkp_mmap_vec::mmap_vec')],state=[('length, capacity','elements stored and elements that fit','MmapVec')])
p('P25','Unsafe operations are confined and their preconditions guarded',
 'Raw memory access, unchecked indexing, transmutation and inline assembly occur only in the few modules that own them, and each such operation is dominated by the bound, alignment or initialisation condition that makes it defined. No safe public function can reach undefined behaviour through them.',
 ['programs','inputs'],'every caller of the public safe interface','Undefined behaviour commonly passes tests; no test can show its absence.',
 [F+'fft/prefetch.rs',F+'fft/mod.rs',F+'prime_field.rs','utils/mmap-vec/src/mmap_vec.rs',U,'utils/logging-allocator/src/logging_allocator.rs'],[('unsafe blocks','whole workspace')])
p('P26','Proving, verifying and hashing are deterministic functions of their inputs',
 'Apart from explicitly requested random generation and the proof-of-work thread race, no library result depends on time, environment, address, hash-map order, thread count or hidden global state.',
 ['schedules','configurations','histories'],'every library entry point, environment and schedule','Running twice in one process with one environment cannot reveal dependence on others.',
 ['crypto','algebra','utils'],[('absence of ambient inputs','call graph of the workspace crates')])
p('P27','Operator families and trait variants agree',
 'Every operator computes the same result whether its operands are passed by value, by reference or in assigning form, and scalar on the left or on the right; derived and provided variants delegate to one definition.',
 ['inputs'],'every type with operator overloads and every operand form','Tests mostly use one form of each operator.',
 [U+'algorithms/binary_operator_macros.rs',F+'ops.rs',E+'curve.rs',E+'jacobian.rs',S+'rational_expression.rs'],[('operator macros','zkp_u256, zkp_primefield, zkp_elliptic_curve, zkp_stark')])
p('P28','Failures are reported, never swallowed',
 'Every fallible step of proving, verifying, committing, opening and constraint building has its failure propagated or turned into a documented panic; no error value is discarded or replaced by success, and error conversions keep the cause.',
 ['fault_sequences','inputs'],'every fallible call in the library','Error paths are rarely driven by tests; a discarded failure looks like success.',
 [S+'prover.rs',S+'verifier.rs',M+'result.rs',M+'tree.rs',S+'constraints.rs','utils/error-utils/src/lib.rs'],[('Result propagation','whole workspace'),('From conversions of error types','zkp_stark::verifier, zkp_stark::prover, zkp_merkle_tree::result')])
p('P29','The Solidity generator and serializer emit the protocol being verified',
 'The generated on-chain verifier and serialised proof contain every constraint, periodic column, parameter and proof part of the given system, in the order the on-chain verifier reads them.',
 ['programs'],'every constraint system handed to the generator','The generator has no tests beyond one smoke case.',
 [S+'solidity_verifier.rs',S+'solidity_seralizer.rs'],[('generate','zkp_stark::solidity_verifier'),('proof_serialize','zkp_stark::solidity_seralizer')])
p('P30','The accounting allocator balances and literal macros denote their literal',
 'The accounting allocator forwards every request unchanged to the system allocator and keeps its totals balanced for every allocation, reallocation and release, so peak is at least current usage; literal macros expand to the value written, or fail to compile.',
 ['histories','inputs'],'every allocation history and every literal','The accounting has no concurrency or realloc tests, and macros are tested on a few literals.',
 ['utils/logging-allocator/src/logging_allocator.rs','utils/macros-lib/src/lib.rs','utils/macros-decl/src/lib.rs'],[('LoggingAllocator','logging_allocator'),('hex!, u256h!, field_element!','zkp_macros_lib')])
p('P31','Verifying malformed proofs returns an error instead of aborting',
 'Whatever bytes and claims are supplied, verification terminates with a result value; it does not panic, overflow or exhaust memory.',
 ['inputs'],'every byte string offered as a proof','Only honest and mildly altered proofs are tested.',
 [S+'verifier.rs',S+'channel.rs'],[('VerifierChannel reads','zkp_stark::channel')])
p('P32','Forged statements are rejected except with the configured probability',
 'For a false statement, no feasible prover strategy produces an accepted proof more often than the configured security level allows.',
 ['inputs','programs'],'every false statement and prover strategy','Soundness is a probabilistic statement over all adversaries.',
 [S+'verifier.rs',S+'constraints.rs'],[('protocol parameters','zkp_stark::constraints')])
p('P33','Secret-dependent operations take time independent of the secret',
 'Signing and constant-time field operations do not leak their secret operands through timing.',
 ['inputs'],'every secret operand','Timing is not observed by tests.',
 [C+'private_key.rs',E+'wnaf.rs'],[('scalar multiplication','zkp_elliptic_curve')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert x['statement'].count('. ')<3,x['id']
print(len(P))
