//! Instantiates the generic public functions of the workspace that no workspace crate itself uses, so that their
//! compiled form is part of the analysed program.  Never run.
#![allow(dead_code, clippy::all)]
use rand::{
    distributions::{
        uniform::{SampleUniform, UniformSampler},
        Distribution, Standard,
    },
    rngs::mock::StepRng,
};
use serde::{
    de::value::{Error as DeError, StrDeserializer},
    Deserialize, Serialize,
};
use std::fmt;
use zkp_elliptic_curve::ScalarFieldElement;
use zkp_merkle_tree::VectorCommitment;
use zkp_primefield::FieldElement;
use zkp_stark::{
    component::{Component, Horizontal, Mapped, PolynomialWriter},
    Constraints, Proof, ProverError, Provable, RationalExpression, TraceTable, Verifiable, VerifierError,
};
use zkp_u256::{
    AddFullInline, Montgomery, MontgomeryParameters, SubFromFullInline, SubFromInline, SubFullInline, U256,
};

pub fn u256_ser(x: &U256, f: &mut fmt::Formatter<'_>) -> fmt::Result { x.serialize(f) }
pub fn u256_de(d: StrDeserializer<'_, DeError>) -> Result<U256, DeError> { U256::deserialize(d) }
pub fn field_ser(x: &FieldElement, f: &mut fmt::Formatter<'_>) -> fmt::Result { x.serialize(f) }
pub fn field_de(d: StrDeserializer<'_, DeError>) -> Result<FieldElement, DeError> { FieldElement::deserialize(d) }
pub fn scalar_ser(x: &ScalarFieldElement, f: &mut fmt::Formatter<'_>) -> fmt::Result { x.serialize(f) }
pub fn scalar_de(d: StrDeserializer<'_, DeError>) -> Result<ScalarFieldElement, DeError> { ScalarFieldElement::deserialize(d) }

pub fn u256_rand(r: &mut StepRng) -> U256 { Standard.sample(r) }
type Sampler = <U256 as SampleUniform>::Sampler;
pub fn u256_uniform(a: U256, b: U256) -> Sampler { <Sampler as UniformSampler>::new(a, b) }
pub fn u256_uniform_inclusive(a: U256, b: U256) -> Sampler { <Sampler as UniformSampler>::new_inclusive(a, b) }
pub fn u256_sample(s: &Sampler, r: &mut StepRng) -> U256 { UniformSampler::sample(s, r) }
pub fn field_rand(r: &mut StepRng) -> FieldElement { Standard.sample(r) }

pub fn u256_sum(v: Vec<U256>) -> U256 { v.into_iter().sum() }
pub fn u256_product(v: Vec<U256>) -> U256 { v.into_iter().product() }
pub fn field_sum(v: &[FieldElement]) -> FieldElement { v.iter().sum() }
pub fn field_product(v: &[FieldElement]) -> FieldElement { v.iter().product() }
pub fn field_sum_own(v: Vec<FieldElement>) -> FieldElement { v.into_iter().sum() }
pub fn field_product_own(v: Vec<FieldElement>) -> FieldElement { v.into_iter().product() }

pub fn u256_add_full(a: &U256, b: &U256) -> (U256, U256) {
    let (x, _) = AddFullInline::add_full(a, b);
    let mut y = a.clone();
    let _ = y.add_full_assign(b);
    (x, y)
}
pub fn u256_sub_full(a: &U256, b: &U256) -> (U256, U256) {
    let (x, _) = SubFullInline::sub_full(a, b);
    let mut y = a.clone();
    let _ = y.sub_full_assign(b);
    (x, y)
}
pub fn mont<M: MontgomeryParameters<UInt = U256>>(a: &U256, b: &U256) -> [U256; 8] {
    [
        a.mul_mod::<M>(b),
        U256::redc::<M>(a, b),
        a.reduce_1::<M>(),
        a.square_redc::<M>(),
        a.mul_redc::<M>(b),
        a.to_montgomery::<M>(),
        a.from_montgomery::<M>(),
        a.inv_redc::<M>().unwrap(),
    ]
}
pub struct Mod256;
impl MontgomeryParameters for Mod256 {
    type UInt = U256;
    // secp256k1 field prime: a full 256 bit modulus that is not of Proth form
    const MODULUS: U256 = U256::from_limbs([0xfffffffefffffc2f, u64::max_value(), u64::max_value(), u64::max_value()]);
    const M64: u64 = 0xd838091dd2253531;
    const R1: U256 = U256::from_limbs([0x1000003d1, 0, 0, 0]);
    const R2: U256 = U256::from_limbs([0x7a2000e90a1, 0x1, 0, 0]);
    const R3: U256 = U256::from_limbs([0x2bb1e33795f671, 0x100000b73, 0, 0]);
}
pub fn mont256(a: &U256, b: &U256) -> [U256; 8] { mont::<Mod256>(a, b) }

pub struct System;
impl Verifiable for System {
    fn constraints(&self) -> Constraints { unimplemented!() }
}
pub struct Witness;
impl Provable<&Witness> for System {
    fn trace(&self, _witness: &Witness) -> TraceTable { unimplemented!() }
}
pub fn sys_verify(s: &System, p: &Proof) -> Result<(), VerifierError> { s.verify(p) }
pub fn sys_prove(s: &System, w: &Witness) -> Result<Proof, ProverError> { s.prove(w) }
pub fn sys_check(s: &System, w: &Witness) -> Result<(), (usize, usize)> { s.check(w) }
pub fn sys_check_specified(s: &System, w: &Witness, r: usize, c: usize) -> Result<(), ()> { s.check_specified(w, r, c) }

macro_rules! part {
    ($name:ident) => {
        pub struct $name;
        impl Component for $name {
            type Claim = FieldElement;
            type Witness = FieldElement;

            fn claim(&self, _w: &FieldElement) -> FieldElement { unimplemented!() }
            fn num_polynomials(&self) -> usize { unimplemented!() }
            fn polynomial_size(&self) -> usize { unimplemented!() }
            fn constraints(&self, _c: &FieldElement) -> Vec<RationalExpression> { unimplemented!() }
            fn trace<P: PolynomialWriter>(&self, _t: &mut P, _w: &FieldElement) { unimplemented!() }
        }
    };
}
part!(PartA);
part!(PartB);
pub type Hor = Horizontal<PartA, PartB>;
pub fn hor(c: &Hor, t: &mut TraceTable, w: &(FieldElement, FieldElement)) { c.trace(t, w) }
pub fn hor_all(c: &Hor, w: &(FieldElement, FieldElement), p: &Proof) -> bool {
    let claim = c.claim(w);
    c.constraints(&claim).is_empty() | (c.num_polynomials() == c.polynomial_size()) | c.verify(&claim, p).is_ok() | c.prove(w).is_ok() | c.check(w).is_ok()
}
pub fn part_all(c: &PartA, w: &FieldElement, p: &Proof) -> bool {
    let claim = c.claim(w);
    c.verify(&claim, p).is_ok() | c.prove(w).is_ok() | c.check(w).is_ok() | (c.trace_generator() == c.trace_generator()) | (c.trace_table(w).num_rows() == 0)
}

pub struct Leaves;
impl VectorCommitment for Leaves {
    type Leaf = U256;
    fn len(&self) -> usize { unimplemented!() }
    fn leaf(&self, _index: usize) -> U256 { unimplemented!() }
}
pub fn leaves(l: Leaves, i: usize) -> bool {
    let _ = l.leaf_hash(i);
    let e = l.is_empty();
    e | l.commit().is_ok()
}
pub fn sub_from(a: &mut U256, b: &U256, c: u64) {
    SubFromInline::<&U256>::sub_from_assign(a, b);
    let _ = SubFromFullInline::<&U256>::sub_from_full_assign(a, b);
}

// The constants of both fields and of the curve, as the compiler evaluates them.
pub trait FieldParameters { type P: zkp_primefield::Parameters<UInt = U256>; }
impl<P: zkp_primefield::Parameters<UInt = U256>> FieldParameters for zkp_primefield::PrimeField<P> { type P = P; }
pub fn const_base_modulus() -> U256 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::MODULUS }
pub fn const_base_m64() -> u64 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::M64 }
pub fn const_base_r1() -> U256 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::R1 }
pub fn const_base_r2() -> U256 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::R2 }
pub fn const_base_r3() -> U256 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::R3 }
pub fn const_base_generator() -> U256 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::GENERATOR }
pub fn const_base_order() -> U256 { <<FieldElement as FieldParameters>::P as zkp_primefield::Parameters>::ORDER }
pub fn const_scalar_modulus() -> U256 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::MODULUS }
pub fn const_scalar_m64() -> u64 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::M64 }
pub fn const_scalar_r1() -> U256 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::R1 }
pub fn const_scalar_r2() -> U256 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::R2 }
pub fn const_scalar_r3() -> U256 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::R3 }
pub fn const_scalar_generator() -> U256 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::GENERATOR }
pub fn const_scalar_order() -> U256 { <<ScalarFieldElement as FieldParameters>::P as zkp_primefield::Parameters>::ORDER }
pub fn const_curve_beta() -> FieldElement { zkp_elliptic_curve::BETA }
pub fn const_curve_generator() -> zkp_elliptic_curve::Affine { zkp_elliptic_curve::GENERATOR }
pub fn const_u256_zero() -> U256 { U256::ZERO }
pub fn const_u256_one() -> U256 { U256::ONE }
pub fn const_u256_max() -> U256 { U256::MAX }
pub fn expr_sum(v: Vec<RationalExpression>) -> RationalExpression { v.into_iter().sum() }
type Place = fn(usize, usize) -> (usize, usize);
pub fn mapped(t: &mut TraceTable, n: usize, s: usize, f: Place, i: usize, j: usize, x: FieldElement) -> (usize, usize) {
    let mut m = Mapped::<'_, TraceTable, Place>::new(t, n, s, f);
    m.write(i, j, x);
    (m.num_polynomials(), m.polynomial_size())
}
