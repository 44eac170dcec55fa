"""Second set of subtle breakages (development set, not read by checks): each must raise an alarm."""
U='algebra/u256/src/'; AD=U+'additive.rs'; BI=U+'binary.rs'; MU=U+'multiplicative.rs'; KN=U+'arch/generic/knuth_division.rs'
LE=U+'arch/generic/lehmer_gcd.rs'; MG=U+'algorithms/montgomery/generic.rs'; MPR=U+'algorithms/montgomery/proth.rs'
PF='algebra/primefield/src/prime_field.rs'; WN='algebra/elliptic-curve/src/wnaf.rs'; CU='algebra/elliptic-curve/src/curve.rs'; JA='algebra/elliptic-curve/src/jacobian.rs'
TR='algebra/primefield/src/fft/transpose.rs'; IX='crypto/merkle-tree/src/index.rs'; CM='crypto/merkle-tree/src/commitment.rs'
HA='crypto/hash/src/hashable.rs'; MK='crypto/hash/src/masked_keccak.rs'; MV='utils/mmap-vec/src/mmap_vec.rs'; LA='utils/logging-allocator/src/logging_allocator.rs'
S='crypto/stark/src/'; CH=S+'channel.rs'; CO=S+'constraints.rs'; VE=S+'verifier.rs'; RE=S+'rational_expression.rs'; PR=S+'prover.rs'
EDITS=[
# u256
('b-sum-one',[(AD,'iter.fold(Self::ZERO, Add::add)','iter.fold(Self::ONE, Add::add)')]),
('b-add-carry-drop',[(AD,'let (c3, carry) = adc(self.limb(3), rhs.limb(3), carry);\n        (Self::from_limbs([c0, c1, c2, c3]), carry)','let (c3, carry2) = adc(self.limb(3), rhs.limb(3), carry);\n        (Self::from_limbs([c0, c1, c2, c3]), if c2 == u64::max_value() { carry } else { carry2 })')]),
('b-bit-192',[(BI,'} else if i < 256 {\n            self.limb(3) >> (i - 192) & 1 == 1','} else if i < 255 {\n            self.limb(3) >> (i - 192) & 1 == 1')]),
('b-lz-limb1',[(BI,'} else if self.limb(1) > 0 {\n            128 + self.limb(1).leading_zeros() as usize','} else if self.limb(1) > 1 {\n            128 + self.limb(1).leading_zeros() as usize')]),
('b-shl-192',[(BI,'c3 = c1 << (rhs - 128);\n            c3 |= c0 >> (192 - rhs);','c3 = c1 << (rhs - 128);\n            c3 |= c0 >> (191 - rhs) >> 1;\n            if rhs == 191 { c3 &= !1; }')]),
('b-sq-r7',[(MU,'let r7 = r6 >> 63;','let r7 = (r6 >> 63) & (r5 >> 63);')]),
('b-pow-u64',[(MU,'while remaining_exponent > 0 {','while remaining_exponent > 0 && remaining_exponent != 1 << 33 {')]),
('b-mulmod-branch',[(MU,'} else if modulus.limb(2) > 0 {','} else if modulus.limb(2) > 1 {')]),
('b-knuth-eq',[(KN,'if neg_remainder > val_2(d[0], d[1]) {','if neg_remainder >= val_2(d[0], d[1]) {')]),
('b-knuth-second',[(KN,'if !overflow && mul_2(q, d[0]) > val_2(n[0], r) {','if !overflow && mul_2(q, d[0]) >= val_2(n[0], r) && r > 2 {')]),
('b-redc-ge',[(MG,'if r >= M::MODULUS {\n        r -= &M::MODULUS;\n    }\n    r\n}','if r > M::MODULUS {\n        r -= &M::MODULUS;\n    }\n    r\n}')]),
('b-constmont',[(MG,'let (a3, _) = adc(a3, borrow * modulus[3], carry);','let (a3, _) = adc(a3, borrow * modulus[3], 0);')]),
# field
('b-sub-borrow',[(PF,'let borrow = rhs > lhs;','let borrow = rhs >= lhs;')]),
('b-neg-zero',[(PF,'if self.is_zero() {\n            Self::zero()','if self.is_one() {\n            Self::zero() - Self::one()')]),
('b-pow-last',[(PF,'for i in 0..=msb {\n                if exponent.bit(i) {','for i in 0..=msb {\n                if exponent.bit(i) && i < 255 {')]),
('b-pow-isize',[(PF,'self.inv().map(|n| n.pow(&abs))','self.inv().map(|n| n.pow(&(abs & 0xffff_ffff)))')]),
('b-from-reduce',[(PF,'let uint = P::UInt::redc_inline::<Montgomery<P>>(uint, &P::UInt::zero());','let uint = if uint > &P::MODULUS { P::UInt::redc_inline::<Montgomery<P>>(uint, &P::UInt::zero()) } else { P::UInt::redc_inline::<Montgomery<P>>(uint, &P::UInt::zero()).add_inline(&P::MODULUS) };')]),
# curve
('b-wnaf-half',[(WN,'if n >= half {','if n > half && i < 250 {')]),
('b-wnaf-neg',[(WN,'r -= &naf_table_b[(-snaf_expansion_b[i] >> 1) as usize];\n        }\n    }\n    r\n}\n\n// TODO','r -= &naf_table_b[(-(snaf_expansion_b[i] >> 1)) as usize];\n        }\n    }\n    r\n}\n\n// TODO')]),
('b-wnaf-table',[(WN,'for i in 1..naf.len() {\n        naf[i] = &naf[i - 1] + &p2;\n    }\n}','for i in 1..naf.len() - 1 {\n        naf[i] = &naf[i - 1] + &p2;\n    }\n}')]),
('b-wnaf-skip0',[(WN,'for i in (0..snaf_expansion.len()).rev() {\n        // OPT: Avoid doubling zeros\n        // OPT: Use A + A -> J formular for first','for i in (0..snaf_expansion.len() - 1).rev() {\n        // OPT: Avoid doubling zeros\n        // OPT: Use A + A -> J formular for first')]),
# fft
('b-transpose-diag',[(TR,'matrix.swap(i + size + 1, j + size + 1);','if col + 2 < size || row > 0 || size < 64 { matrix.swap(i + size + 1, j + size + 1); }')]),
('b-transpose2',[(TR,'for col in (row..size).skip(1) {','for col in (row..size).skip(if row == 128 { 2 } else { 1 }) {')]),
# merkle
('b-index-size',[(IX,'require!(size <= Self::max_size(), Error::TreeToLarge);','require!(size < Self::max_size(), Error::TreeToLarge);')]),
('b-index-lca',[(IX,'let prefix_length = (a ^ b).leading_zeros();','let prefix_length = (a ^ b | 1).leading_zeros();')]),
('b-index-rightmost',[(IX,'(self.0 + 1).is_power_of_two()','(self.0 | 1) == self.0 && (self.0 + 1).is_power_of_two() && self.0 != 1')]),
('b-index-concat',[(IX,'let other_path = other.0 ^ 1_usize << other_depth;','let other_path = other.0 & ((1_usize << (other_depth & 31)) - 1);')]),
('b-cm-size0',[(CM,'size == 0 || size.is_power_of_two(),','size <= 3 || size.is_power_of_two(),')]),
('b-cm-dedup',[(CM,'indices.dedup();\n        Ok(indices)','indices.dedup_by_key(|i| i.as_index() >> 40);\n        Ok(indices)')]),
('b-hash-one',[(HA,'if self.len() == 1 {','if self.len() <= 1 {')]),
('b-hash-slice',[(HA,'for value in self.iter() {','for value in self.iter().take(1 << 16) {')]),
('b-mask',[(MK,'for byte in result[Self::MASK_LENGTH..].iter_mut() {','for byte in result[Self::MASK_LENGTH..31].iter_mut() {')]),
# mmap / alloc
('b-mv-extend',[(MV,'if self.length + slice.len() > self.capacity {','if slice.len() > self.capacity {')]),
('b-mv-trunc',[(MV,'let slice_pointer: *mut [T] = &mut self.as_mut_slice()[length..];','let slice_pointer: *mut [T] = &mut self.as_mut_slice()[length + 1..];')]),
('b-mv-eq',[(MV,'self.iter().zip(other.iter()).all(|(a, b)| a == b)','self.iter().zip(other.iter()).skip(1).all(|(a, b)| a == b)')]),
('b-mv-clone',[(MV,'clone.extend(self.iter());','clone.extend(self.iter().rev());')]),
('b-mv-resize',[(MV,'if size > self.capacity {\n            panic!("MmapVec is at capacity")\n        }','')]),
('b-la-dealloc',[(LA,'let _ = self.allocated.fetch_sub(layout.size(), Relaxed);','if !ptr.is_null() && layout.size() < self.reject { let _ = self.allocated.fetch_sub(layout.size() & !7, Relaxed); }')]),
('b-la-null',[(LA,'if !result.is_null() {\n','if layout.size() < self.reject {\n')]),
('b-la-total',[(LA,'let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);','let _ = self.total_allocated.fetch_add(layout.size().min(self.error), Relaxed);')]),
# channel
('b-ch-ctr',[(CH,'keccak.update(&self.counter.to_be_bytes());','keccak.update(&u64::from(self.counter as u16).to_be_bytes());')]),
('b-ch-wctr',[(CH,'self.digest = result;\n        self.counter = 0;','self.digest = result;\n        if !data.is_empty() { self.counter = 0; }')]),
('b-ch-seed',[(CH,'keccak.update(seed);','keccak.update(&seed[..seed.len().min(136)]);')]),
('b-ch-atend',[(CH,'self.proof_index == self.proof.len()','self.proof_index / 32 == self.proof.len() / 32')]),
('b-ch-mask',[(CH,'if seed < FieldElement::MODULUS {','if seed <= FieldElement::MODULUS {')]),
('b-ch-fri',[(CH,'self.coin.write(layer_contents);','if size > 0 { self.coin.write(layer_contents); }')]),
('b-ch-pow',[(CH,'fn get_random(&mut self) -> proof_of_work::ChallengeSeed {','fn get_random(&mut self) -> proof_of_work::ChallengeSeed {\n        if true { return proof_of_work::ChallengeSeed::from_bytes(self.digest); }')]),
('b-ch-hash',[(CH,'for hash in data.hashes() {\n            self.write(hash)','for hash in data.hashes() {\n            self.proof.extend_from_slice(hash.as_bytes())')]),
# constraints
('b-co-layout',[(CO,'if log2_trace > LOG2_TARGET {','if log2_trace >= LOG2_TARGET {')]),
('b-co-layout3',[(CO,'if num_reductions % 3 != 0 {','if num_reductions % 3 == 2 {')]),
('b-co-adj',[(CO,'let adjustment_degree = target_degree + den - num;','let adjustment_degree = (target_degree + den - num) & !1;')]),
('b-co-args',[(CO,'.fold(BTreeSet::new(), |x, y| &x | &y)','.fold(BTreeSet::new(), |x, y| if x.is_empty() { y } else { &x | &y })')]),
('b-co-pow',[(CO,'None => {\n                    if cfg!(test) {','None => {\n                    if cfg!(debug_assertions) {')]),
('b-co-subst',[(CO,'if !self.claim_polynomials.is_empty() {','if self.claim_polynomials.len() > 1 {')]),
('b-co-root',[(CO,'let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;\n        // TODO: Hash expressions into channel seed\n        // 15','let _ = FieldElement::root(trace_nrows.next_power_of_two()).ok_or(Error::InvalidTraceLength)?;\n        // TODO: Hash expressions into channel seed\n        // 15')]),
# verifier
('b-ve-pow',[(VE,'if !pow_challenge.verify(pow_response) {','if constraints.pow_bits > 4 && !pow_challenge.verify(pow_response) {')]),
('b-ve-idx',[(VE,'query_indices.truncate(num);','query_indices.truncate(num);\n    query_indices.dedup();')]),
('b-ve-idx2',[(VE,'(&mut query_indices).sort_unstable();','(&mut query_indices).sort_unstable();\n    query_indices.dedup();')]),
('b-ve-last',[(VE,'for key in &previous_indices {\n','for key in previous_indices.iter().take(64) {\n')]),
('b-ve-search',[(VE,'if k > 0 {\n','if k > 0 && fri_folds.contains_key(&n) {\n')]),
('b-ve-deg',[(VE,'let constraints_trace_degree = constraints.degree().next_power_of_two();','let constraints_trace_degree = constraints.degree().next_power_of_two().min(16);')]),
('b-ve-oodspow',[(VE,'oods_point.pow(constraints_trace_degree))','oods_point.pow(constraints_trace_degree.max(2)))')]),
('b-ve-fold-idx',[(VE,'(coset_sizes[k] / 2) * i,','(coset_sizes[k] / 2) * i & (len / 4 | (len / 4 - 1)),')]),
('b-ve-step',[(VE,'for _ in 0..constraints.fri_layout[k] {\n            step *= 2;','for _ in 0..constraints.fri_layout[k].min(3) {\n            step *= 2;')]),
('b-ve-zip',[(VE,'.chain(combined_constraints_terms)\n        .zip(oods_coefficients)','.chain(combined_constraints_terms)\n        .zip(oods_coefficients.iter().rev())')]),
('b-ve-mismatch',[(VE,'return Err(Error::OodsMismatch);','if !claimed_constraint_values.is_empty() { return Err(Error::OodsMismatch); }')]),
('b-ve-err',[(VE,'return Err(Error::InvalidConstraintCommitment);','return Err(Error::InvalidLDECommitment);')]),
]
