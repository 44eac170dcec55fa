"""Which callees are summarised in place and which stay symbolic (each of those has its own obligation)."""
import re
# private functions with an obligation of their own: symbolic in their callers, summarised separately
CUT = re.compile(r'lehmer_gcd::(mat_mul|lehmer_update|div1|lehmer_unroll|lehmer_small|lehmer_loop|lehmer_double)$'
                 r'|knuth_division::(div_3by2|divrem_2by1)$|AlgebraicGraph::op$'
                 r'|solidity_verifier::(autogen_wrapper_contract|autogen_periodic|autogen_oods_contract|autogen_trace_layout|write_oods_poly|lexicographic_compare|extract_power)$')

# constructors and accessors: one expression, always looked into
PLAIN = re.compile(r'u256::U256::(from_limbs|as_limbs|limb)$|u256_traits::<impl .*(Zero|One|Bounded) for .*>::(zero|one|is_zero|is_one|max_value|min_value)$'
                   r'|curve::Affine::new$|(Affine|Jacobian) as core::default::Default>::default$|PrivateKey::as_scalar_field_element$|PublicKey::as_affine$|Signature::(new|r|w)$'
                   r'|hash::Hash::(new|as_bytes)$|Commitment::(hash|size)$|Constraints::trace_n(columns|rows)$|proof::Proof::(from_bytes|as_bytes)$'
                   r'|ChallengeSeed::from_bytes$|Response::(from_nonce|nonce)$|TraceTable::num_(columns|rows)$|TraceTable as core::ops::index::Index(Mut)?<|prime_field::PrimeField::<P>::(modulus|order)$')

def modular(F, root, inline=(), opaque=(), known=None):
    """symbolic: functions defined in another source file of the workspace, when they are anchors themselves
    (a helper that did not exist when the reference was reviewed is looked into)"""
    home = F.bodies[root].file
    inl = [re.compile(x) for x in inline]; opq = [re.compile(x) for x in opaque]
    memo = {}
    def f(name, path):
        k = (name, path)
        r = memo.get(k)
        if r is None:
            r = memo[k] = g(name, path)
        return r
    def g(name, path):
        if name == root: return False
        if any(x.search(name) for x in opq): return True
        if any(x.search(name) for x in inl): return False
        b = F.bodies.get(name)
        if b is None or not b.crate.startswith('zkp') or b.dk == 'Closure': return False
        if b.mac: return False
        if PLAIN.search(b.path): return False
        if CUT.search(b.path): return True
        return b.file != home and (known is None or b.path in known)
    return f

OPTIONS = [
    # (path regex, dict(inline=, opaque=))
]
def options(b):
    for r, o in OPTIONS:
        if re.search(r, b.path): return o
    return {}
