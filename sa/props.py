"""Scope tables: which source files, with which abstraction, belong to which property."""
import re
# first match gives the analysis profile and the property whose anchors these are
SCOPE = [
 (r'stark/src/verifier\.rs', r'', 'alg', ['P01']),
 (r'stark/src/channel\.rs', r'', 'alg', ['P02']),
 (r'stark/src/prover\.rs', r'Hashable|VectorCommitment', 'alg', ['P03', 'P07']),
 (r'stark/src/prover\.rs', r'', 'alg', ['P03']),
 (r'stark/src/proof\.rs', r'', 'alg', ['P03']),
 (r'stark/src/proof_of_work\.rs', r'', 'alg', ['P04']),
 (r'merkle-tree/src/(tree|proof|commitment|result)\.rs', r'', 'alg', ['P05']),
 (r'merkle-tree/src/index\.rs', r'', 'alg', ['P06']),
 (r'hash/src/(hashable|masked_keccak)\.rs', r'', 'alg', ['P07']),
 (r'merkle-tree/src/(node|vector_commitment)\.rs', r'', 'alg', ['P07']),
 (r'hash/src/hash\.rs', r'', 'alg', ['P12']),
 (r'primefield/src/(prime_field|uint|rand|ops|convert|traits|proth_field)\.rs', r'', 'fld', ['P08']),
 (r'primefield/src/serde\.rs', r'', 'fld', ['P12']),
 (r'u256/src/(additive|binary|u256|u256_traits)\.rs', r'', 'limb', ['P10']),
 (r'u256/src/multiplicative\.rs', r'mulmod', 'limb', ['P13']),
 (r'u256/src/multiplicative\.rs', r'', 'limb', ['P10']),
 (r'u256/src/algorithms/limb_operations\.rs', r'', 'limb', ['P10']),
 (r'u256/src/traits/', r'Montgomery', 'limb', ['P11']),
 (r'u256/src/traits/', r'', 'limb', ['P10']),
 (r'u256/src/algorithms/montgomery/', r'', 'limb', ['P11']),
 (r'u256/src/functions\.rs', r'Montgomery', 'limb', ['P11']),
 (r'u256/src/functions\.rs', r'', 'limb', ['P13']),
 (r'u256/src/(conversion|encoding)\.rs', r'', 'limb', ['P12']),
 (r'u256/src/rand\.rs', r'', 'limb', ['P10']),
 (r'u256/src/(division\.rs|arch/)', r'', 'limb', ['P13']),
 (r'elliptic-curve/src/wnaf\.rs', r'', 'alg', ['P15']),
 (r'elliptic-curve/src/(curve|jacobian)\.rs', r'Mul', 'alg', ['P15']),
 (r'elliptic-curve/src/', r'', 'alg', ['P14']),
 (r'elliptic-curve-crypto/src/', r'', 'alg', ['P16']),
 (r'primefield/src/fft/', r'', 'alg', ['P17']),
 (r'primefield/src/(invert_batch|geometric_series)\.rs', r'', 'alg', ['P18']),
 (r'stark/src/polynomial\.rs', r'', 'alg', ['P19']),
 (r'stark/src/(rational_expression|algebraic_dag|rational_equality)\.rs', r'', 'alg', ['P20']),
 (r'stark/src/constraints\.rs', r'', 'alg', ['P21']),
 (r'stark/src/(constraint_check|traits|trace_table)\.rs', r'', 'alg', ['P22']),
 (r'stark/src/component/', r'', 'alg', ['P23']),
 (r'mmap-vec/src/', r'', 'limb', ['P24']),
 (r'stark/src/solidity_', r'', 'alg', ['P29']),
 (r'(logging-allocator|macros-lib|macros-impl|macros-decl)/src/', r'', 'alg', ['P30']),
]
SCOPE = [(re.compile(f), re.compile(p), pr, ps) for f, p, pr, ps in SCOPE]
# formatting for humans is not part of any property
SKIP = re.compile(r'core::fmt::(Debug|LowerHex)|core::fmt::Display(?! for zkp_u256::u256::U256)|proptest|::component::test::|core::error::Error>::source|^zkp_witness')
# statements that reach into files anchored elsewhere
ALSO = [
 ('P12', r'u256/src/|primefield/src/(convert|prime_field|uint)\.rs', r'core::convert::(Try)?(From|Into)|from_(bytes|hex|dec|limbs|u\d|be|le)|to_(bytes|hex|dec|be|le|uint)|as_(limbs|montgomery|u\d|i\d)|::from_uint|from_montgomery_const'),
 ('P02', r'stark/src/verifier\.rs', r'get_indices'),
 ('P01', r'stark/src/channel\.rs', r'VerifierChannel'),
 ('P01', r'stark/src/proof_of_work\.rs', r'::verify$|with_difficulty'),
 ('P01', r'merkle-tree/src/proof\.rs', r'::(verify|from_hashes)$'),
 ('P03', r'stark/src/channel\.rs', r'ProverChannel'),
 ('P04', r'stark/src/channel\.rs', r'ChallengeSeed|proof_of_work'),
 ('P05', r'merkle-tree/src/(index|node|vector_commitment)\.rs', r''),
 ('P08', r'u256/src/algorithms/montgomery/proth\.rs', r''),
 ('P07', r'hash/src/hash\.rs', r'Hashable|::new|as_bytes'),
 ('P14', r'elliptic-curve/src/(curve|jacobian)\.rs', r''),
 ('P15', r'elliptic-curve/src/(curve|jacobian)\.rs', r''),
 ('P22', r'stark/src/rational_expression\.rs', r'::(evaluate|check)$'),
 ('P23', r'stark/src/trace_table\.rs', r''),
 ('P03', r'stark/src/traits\.rs', r'prove'),
 ('P08', r'primefield/src/(invert_batch)\.rs', r''),
 ('P17', r'primefield/src/(proth_field|prime_field)\.rs', r'root|generator'),
 ('P09', r'primefield/src/(prime_field|proth_field)\.rs|u256/src/algorithms/montgomery/generic\.rs', r'::(modulus|order|generator|root|from_uint_const|from_montgomery_const|to_montgomery_const|zero|one)$'),
 ('P25', r'mmap-vec/src/|primefield/src/fft/prefetch\.rs|logging-allocator/src/logging_allocator\.rs', r''),
 ('P28', r'merkle-tree/src/(tree|proof|commitment|index|result)\.rs|stark/src/constraints\.rs|stark/src/(verifier|prover)\.rs', r'::(verify|prove|get_indices|open|from_hashes|from_size_hash|sort_indices|proof_size|from_leaves|from_leaves_skip_layers|from_size_offset|from_depth_offset|from_expressions|from_expressions_detailed|leaf)$|core::convert::From<.*[Ee]rror'),
 ('P26', r'stark/src/(channel|proof_of_work)\.rs|hash/src/', r''),
 ('P27', r'u256/src/|primefield/src/|elliptic-curve/src/|stark/src/(rational_expression|component/)', r' as (core::ops::|num_traits::|core::iter::traits::accum|core::cmp::)'),
]
ALSO = [(p, re.compile(f), re.compile(q)) for p, f, q in ALSO]
def scope(b):
    """(profile, properties) of a body or of a (file, path) pair"""
    file, path = b if isinstance(b, tuple) else (b.file, b.path)
    if file is None or SKIP.search(path): return None
    for f, p, pr, ps in SCOPE:
        if f.search(file) and p.search(path):
            return pr, ps + [q for q, ff, pp in ALSO if q not in ps and ff.search(file) and pp.search(path)]
    return None
