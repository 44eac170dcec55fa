FIB = r'''
use zkp_stark::*;
use zkp_primefield::*;
#[allow(dead_code)]
fn constraints(seed: Vec<u8>, n: usize, value: &FieldElement, index: usize) -> Constraints {
    use RationalExpression::*;
    let g = Constant(FieldElement::root(n).unwrap());
    let on_row = |i: usize| (X - g.pow(i)).inv();
    let every_row = || (X - g.pow(n - 1)) / (X.pow(n) - 1);
    Constraints::from_expressions((n, 2), seed, vec![
        (Trace(0, 1) - Trace(1, 0)) * every_row(),
        (Trace(1, 1) - Trace(0, 0) - Trace(1, 0)) * every_row(),
        (Trace(0, 0) - 1) * on_row(0),
        (Trace(0, 0) - value) * on_row(index),
    ]).unwrap()
}
#[allow(dead_code)]
fn trace(n: usize, secret: u64) -> TraceTable {
    let mut t = TraceTable::new(n, 2);
    t[(0, 0)] = FieldElement::from(1_u64); t[(0, 1)] = FieldElement::from(secret);
    for i in 0..n - 1 { t[(i + 1, 0)] = t[(i, 1)].clone(); t[(i + 1, 1)] = &t[(i, 0)] + &t[(i, 1)]; }
    t
}
'''
SEEDS = [
 dict(id='s01-trailing-bytes', property='P01',
  edits=[('crypto/stark/src/verifier.rs', '''    if !channel.at_end() {
        return Err(Error::ProofTooLong);
    }
''', '''    if !channel.at_end() {
        trace!("Proof has trailing data, ignoring");
    }
''')],
  needs='a valid proof with extra bytes appended after the last decommitment', what='the verifier accepts a proof that was not consumed to its end (malleable proofs)',
  demo=FIB + r'''
fn main() {
    let t = trace(64, 7); let v = t[(20, 0)].clone();
    let c = constraints(vec![1, 2, 3], 64, &v, 20);
    let p = prove(&c, &t).unwrap();
    assert!(verify(&c, &p).is_ok());
    let mut b = p.as_bytes().to_vec(); b.extend_from_slice(&[0u8; 7]);
    assert!(verify(&c, &Proof::from_bytes(b)).is_err(), "trailing bytes accepted");
}
'''),
 dict(id='s02-seed-prefix', property='P02',
  edits=[('crypto/stark/src/channel.rs', '''        keccak.update(seed);
''', '''        // A single Keccak block worth of seed is plenty of entropy
        keccak.update(&seed[..seed.len().min(136)]);
''')],
  needs='two channel seeds that agree on their first 136 bytes and differ later', what='challenges are no longer bound to the whole seed: a proof made for one statement verifies under another seed',
  demo=FIB + r'''
fn main() {
    let t = trace(64, 7); let v = t[(20, 0)].clone();
    let mut s = vec![5u8; 200];
    let c = constraints(s.clone(), 64, &v, 20);
    let p = prove(&c, &t).unwrap();
    assert!(verify(&c, &p).is_ok());
    s[190] = 6;
    let c2 = constraints(s, 64, &v, 20);
    assert!(verify(&c2, &p).is_err(), "proof not bound to the whole seed");
}
'''),
 dict(id='s03-merkle-duplicate', property='P05',
  edits=[('crypto/merkle-tree/src/proof.rs', '.all(|(a, b)| a.0 != b.0 || a.1 == b.1),', '.all(|(a, b)| a.0 <= b.0 || a.1 == b.1),')],
  needs='an opening that lists the same leaf index twice with different contents', what='a Merkle opening is accepted although one of the two values claimed for an index is not in the tree',
  demo=r'''
use zkp_merkle_tree::*; use zkp_u256::U256;
fn main() {
    let leaves: Vec<U256> = (0..16u64).map(|i| U256::from(i * i + 3)).collect();
    let (c, tree) = leaves.clone().commit().unwrap();
    let p = tree.open(&[3, 3]).unwrap();
    let p = Proof::from_hashes(&c, &[3, 3], p.hashes()).unwrap();
    assert!(p.verify(&[(3, leaves[3].clone()), (3, leaves[3].clone())]).is_ok());
    assert!(p.verify(&[(3, leaves[3].clone()), (3, U256::from(999u64))]).is_err(), "contradicting duplicate accepted");
}
'''),
 dict(id='s04-jacobian-equal', property='P14',
  edits=[('algebra/elliptic-curve/src/jacobian.rs', '            return if s1 == s2 {\n', '            return if self.y == rhs.y {\n')],
  needs='adding two equal points held in different Jacobian coordinates', what='P + P gives the point at infinity',
  demo=r'''
use zkp_elliptic_curve::*;
fn main() {
    let g = Jacobian::from(&GENERATOR);
    let three = &g.double() + &g;          // z != 1
    let aff = Affine::from(&three);
    let three_b = Jacobian::from(&aff);    // z == 1
    let sum = Affine::from(&(&three + &three_b));
    assert_eq!(sum, aff.double(), "P + P");
}
'''),
 dict(id='s05-last-row', property='P22',
  edits=[('crypto/stark/src/constraint_check.rs', '''    for row in 0..len {
        // Note - Still in col row form''', '''    for row in 0..len - 1 {
        // Note - Still in col row form''')],
  needs='a trace whose only violation is on the last row', what='check_constraints accepts a trace that violates a constraint on its last row',
  demo=FIB + r'''
fn main() {
    let n = 64; let t = trace(n, 7);
    let good = t[(n - 1, 0)].clone();
    assert!(check_constraints(&constraints(vec![], n, &good, n - 1), &t).is_ok());
    let bad = &good + FieldElement::from(1_u64);
    assert!(check_constraints(&constraints(vec![], n, &bad, n - 1), &t).is_err(), "last row not checked");
}
'''),
 dict(id='s06-unverified-proof', property='P03',
  edits=[('crypto/stark/src/prover.rs', '    verify(&original_constraints, &proof)?;\n', '    if let Err(e) = verify(&original_constraints, &proof) {\n        info!("Proof failed verification: {}", e);\n    }\n')],
  needs='a witness that does not satisfy the constraints', what='the prover returns a proof that does not verify instead of an error',
  demo=FIB + r'''
fn main() {
    let t = trace(64, 7); let v = &t[(20, 0)] + FieldElement::from(1_u64);
    let c = constraints(vec![1], 64, &v, 20);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prove(&c, &t))) {
        Ok(Ok(p)) => assert!(verify(&c, &p).is_ok(), "prover returned an invalid proof"),
        _ => {}
    }
}
'''),
 dict(id='s07-division-corner', property='P13',
  edits=[('algebra/u256/src/arch/generic/knuth_division.rs', 'let overflow = r < d[1];', 'let overflow = r <= d[1];')],
  needs='a quotient digit estimate whose first correction leaves the partial remainder equal to the leading divisor limb (r was 0)', what='the quotient digit is one too large',
  demo=r'''
use zkp_u256::*;
fn main() {
    // search over structured operands: n1 n2 multiple of d1 so that r = 0
    let mut bad = 0;
    for k in 1..2000u64 {
        let d1 = 0x8000_0000_0000_0000u64 + k; let d0 = u64::max_value() - k;
        let d = U256::from_limbs([d0, d1, 0, 0]);
        let q = u64::max_value() - 7 * k;
        let hi = (d1 as u128) * (q as u128);
        let n = U256::from_limbs([0, hi as u64, (hi >> 64) as u64, 0]);
        let (q, r) = n.div_rem(&d).unwrap();
        if &q * &d + &r != n || r >= d { bad += 1; }
    }
    assert_eq!(bad, 0, "wrong quotients");
}
'''),
 dict(id='s08-degree-denominator', property='P20',
  edits=[('crypto/stark/src/rational_expression.rs', 'std::cmp::max(a_numerator + b_denominator, b_numerator + a_denominator),', 'std::cmp::max(a_numerator + b_denominator, b_numerator),')],
  needs='a sum whose first term has a denominator and whose second term has the larger numerator', what='the numerator degree of a sum is understated',
  demo=r'''
use zkp_stark::*;
fn main() {
    use RationalExpression::*;
    let e = X.inv() + X.pow(5);
    assert_eq!(e.degree(1), (6, 1), "degree of 1/X + X^5 = (1 + X^6)/X");
}
'''),
 dict(id='s09-hash-single', property='P07',
  edits=[('crypto/hash/src/hashable.rs', '''            for value in self.iter() {
                hasher.update(value.hash().as_bytes());
            }
            hasher.hash()
        }
    }
}

''', '''            // Zero padding does not carry information
            let last = self.iter().rposition(|value| value.hash() != Hash::new([0; 32]));
            for value in self.iter().take(last.map_or(1, |i| std::cmp::max(i + 1, 2))) {
                hasher.update(value.hash().as_bytes());
            }
            hasher.hash()
        }
    }
}

''')],
  needs='two rows that differ only by trailing zero elements', what='rows of different length hash to the same leaf',
  demo=r'''
use zkp_hash::*; use zkp_u256::U256;
fn main() {
    let a = [U256::from(1u64), U256::from(2u64)];
    let b = [U256::from(1u64), U256::from(2u64), U256::from(0u64)];
    assert!((&a[..]).hash() != (&b[..]).hash(), "rows of different length collide");
}
'''),
 dict(id='s10-i128-sign', property='P12',
  edits=[('algebra/u256/src/conversion.rs', '''                n as u64,
                (n >> 64) as u64,
                u64::max_value(),
                u64::max_value(),
''', '''                n as u64,
                (n as u128 >> 64) as u64 | 1 << 63,
                u64::max_value(),
                0xffff_ffff_ffff_ffff ^ ((n as u64 == 0) as u64),
''')],
  needs='a negative i128 whose low 64 bits are zero', what='conversion of such values is not twos complement',
  demo=r'''
use zkp_u256::*;
fn main() {
    let n: i128 = -(1i128 << 64);
    let u = U256::from(n);
    assert_eq!(u + U256::from(1u128 << 64), U256::ZERO, "sign extension");
}
'''),
 dict(id='s11-mmap-eq', property='P24',
  edits=[('utils/mmap-vec/src/mmap_vec.rs', '''        if self.length + slice.len() > self.capacity {
            panic!("MmapVec would grow beyond capacity")
        }
''', '''        if slice.len() > self.capacity {
            panic!("MmapVec would grow beyond capacity")
        }
''')],
  needs='extending a partly filled vector by a slice that alone fits the capacity', what='the vector claims a length beyond its mapping: reads and writes outside its memory',
  demo=r'''
use zkp_mmap_vec::MmapVec;
fn main() {
    let r = std::panic::catch_unwind(|| { let mut v: MmapVec<u8> = MmapVec::with_capacity(8); v.extend_from_slice(&[1; 6]); v.extend_from_slice(&[2; 6]); v.len() });
    assert!(r.is_err() || r.unwrap() <= 8, "length beyond capacity");
}
'''),
 dict(id='s12-fold-offset', property='P23',
  edits=[('crypto/stark/src/component/vertical.rs', '''                        X => X.pow(self.size),
''', '''                        X => X.pow(self.size.min(1 << 6)),
''')],
  needs='a vertical repetition of more than 64 elements', what='constraints of the repeated element are placed on the wrong rows',
  demo=r'''
use zkp_stark::component::*; use zkp_stark::*;
fn main() {
    let c = Vertical::new(Empty::new(2, 1), 128);
    let _ = c;
    std::process::exit(real());
}
struct E;
impl Component for E {
    type Claim = (); type Witness = ();
    fn num_polynomials(&self) -> usize { 1 }
    fn polynomial_size(&self) -> usize { 2 }
    fn claim(&self, _: &()) {}
    fn constraints(&self, _: &()) -> Vec<RationalExpression> { vec![RationalExpression::X] }
    fn trace<P: PolynomialWriter>(&self, _: &mut P, _: &()) {}
}
fn real() -> i32 {
    let v = Vertical::new(E, 128);
    let e = v.constraints(&vec![(); 128]);
    let (n, _) = e[0].degree(1);
    if n == 128 { 0 } else { 1 }
}
'''),
]
