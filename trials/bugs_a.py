"""Subtle breakages (development set, not read by checks): each must raise an alarm."""
import glob, os
PW='crypto/stark/src/proof_of_work.rs'; MP='crypto/merkle-tree/src/proof.rs'; MT='crypto/merkle-tree/src/tree.rs'
GS='algebra/primefield/src/geometric_series.rs'; PO='crypto/stark/src/polynomial.rs'; CC='crypto/stark/src/constraint_check.rs'
HO='crypto/stark/src/component/horizontal.rs'; FO='crypto/stark/src/component/fold.rs'
CV='algebra/u256/src/conversion.rs'; EN='algebra/u256/src/encoding.rs'; DI='algebra/u256/src/division.rs'; JA='algebra/elliptic-curve/src/jacobian.rs'
SK='crypto/elliptic-curve-crypto/src/private_key.rs'; PK='crypto/elliptic-curve-crypto/src/public_key.rs'; FF='algebra/primefield/src/fft/mod.rs'
EDITS=[('seed:'+os.path.basename(os.path.dirname(p)),[('patch',p,None)]) for p in sorted(glob.glob('/verif/seeded/*/patch.diff'))]
EDITS+=[
('pow-diff-mask',[(PW,'work >= self.difficulty','work >= (self.difficulty & 0x3f)')]),
('pow-diff-min',[(PW,'work >= self.difficulty','work >= self.difficulty.min(64)')]),
('pow-nonce-le32',[(PW,'&(response.nonce.to_be_bytes())','&(u64::from(response.nonce as u32).to_be_bytes())')]),
('pow-lz-limb',[(PW,'let work = U256::from_bytes_be(&digest).leading_zeros();','let work = U256::from_bytes_be(&digest).limb(3).leading_zeros() as usize;')]),
('mp-hash-len',[(MP,'hashes.len() == commitment.proof_size(indices)?','hashes.len() >= commitment.proof_size(indices)?')]),
('mp-dup-last',[(MP,'.all(|(a, b)| a.0 != b.0 || a.1 == b.1)','.take(nodes.len().saturating_sub(2))\n                .all(|(a, b)| a.0 != b.0 || a.1 == b.1)')]),
('mp-root-skip',[(MP,'require!(hash == *self.commitment.hash(), Error::RootHashMismatch);','require!(hash == *self.commitment.hash() || self.hashes.is_empty() && leafs.len() > 64, Error::RootHashMismatch);')]),
('mt-nodehash-left',[(MT,'''                    &self.node_hash(index.left_child()),
                    &self.node_hash(index.right_child()),''','''                    &self.node_hash(index.left_child()),
                    &self.node_hash(index.left_child().sibling().unwrap_or(index)),''')]) ,
('mt-skip3',[(MT,'let leaf_depth = Index::depth_for_size(size);\n        let mut nodes = if','let leaf_depth = Index::depth_for_size(size);\n        let skip_layers = if skip_layers > 6 { 6 } else { skip_layers };\n        let mut nodes = if')]),
('gs-skip-len',[(GS,'self.length = self.length.saturating_sub(n);','self.length = if n > self.length { self.length } else { self.length - n };')]),
('gs-stepby-ceil',[(GS,'self.length / step + if partial { 1 } else { 0 }','(self.length.wrapping_add(step - 1)) / step')]),
('gs-take-max',[(GS,'geometric_series(&Field::one(), &root).take(order)','geometric_series(&Field::one(), &root).take(order.min(1 << 24))')]),
('po-degree-short',[(PO,'while self.0[degree] == FieldElement::zero() && degree > 0 {','while degree > 1 && self.0[degree] == FieldElement::zero() {')]),
('po-eval-zero',[(PO,'        for coefficient in self.0.iter().rev() {\n            result *= x;','        for coefficient in self.0.iter().rev().take(1 << 20) {\n            result *= x;')]),
('po-eq-point',[(PO,'self.evaluate(&x) == other.evaluate(&x)','self.len() == other.len() && self.evaluate(&x) == other.evaluate(&x)')]),
('cc-wrap-neg',[(CC,'table[(len + row - j, i)].clone()','table[((len + row - j) % (len - 1), i)].clone()')]),
('cc-large-j',[(CC,'table[((j + row) % len, i)].clone()','table[(if j + row < len { j + row } else { j + row - len }, i)].clone()')]),
('ho-size',[(HO,'        assert_eq!(left, right);\n        left','        assert_eq!(left, right);\n        left.max(2)')]),
('fo-ceil',[(FO,'1 + (numerator - 1) / denominator','numerator / denominator + (numerator % denominator).min(1) * (numerator / denominator.max(2)).min(1).max(1) * if numerator > 4096 { 0 } else { 1 }')]),
('fo-neg-offset',[(FO,'(reduction as isize) * row_offset + (column_offset as isize)','(reduction as isize) * row_offset.abs() * row_offset.signum() + if row_offset < 0 { 0 } else { column_offset as isize }')]),
('cv-u128',[(CV,'Self::from_limbs([n as u64, (n >> 64) as u64, 0, 0])','Self::from_limbs([n as u64, (n >> 64) as u64 & 0x7fff_ffff_ffff_ffff, 0, 0])')]),
('cv-as-i128',[(CV,'(self.limb(0) as i128) | ((self.limb(1) as i128) << 64)','(self.limb(0) as i64 as i128) | ((self.limb(1) as i128) << 64)')]),
('cv-asu128',[(CV,'(self.limb(0) as u128) | ((self.limb(1) as u128) << 64)','(self.limb(0) as u128).wrapping_add((self.limb(1) as u128) << 64) ^ ((self.limb(2) as u128) >> 63)')]),
('en-max10',[(EN,'if result >= max10 {','if result > max10 {')]),
('en-overflow-eq',[(EN,'if &result + &digit < result {','if &result + &digit < digit {')]),
('en-dec-zero',[(EN,'while copy > Self::ZERO {','while copy.limb(0) > 0 || copy.limb(1) > 0 || copy.limb(2) > 0 || copy.limb(3) > 1 {')]),
('di-rhs3',[(DI,'if rhs.limb(3) > 0 {','if rhs.limb(3) > 0 && numerator[3] > 0 {')]),
('di-order',[(DI,'Self::from_limbs([numerator[3], numerator[4], 0, 0])','Self::from_limbs([numerator[3], numerator[4] & 0xffff_ffff_ffff, 0, 0])')]),
('di-inv-even',[(DI,'r *= Wrapping(2) - c * r; // mod 2^64\n            let mut r','let mut r')]),
('ja-double-y0',[(JA,'if self.y.is_zero() {','if self.y.is_zero() && self.z.is_one() {')]),
('ja-double-z',[(JA,'let m = xx.triple() + /* ALPHA * */ zz.square();','let m = xx.triple() + if zz.is_one() { zz.clone() } else { zz.square() } - if self.x.is_zero() { zz.square() } else { FieldElement::zero() };')]),
('ja-addaff-x',[(JA,'if self.x == u2 {','if self.x == u2 && !x.is_zero() {')]),
('ja-rhs-zero',[(JA,'        if rhs.z.is_zero() {\n            return;\n        }\n','        if rhs.z.is_zero() && !self.z.is_zero() {\n            return;\n        }\n')]),
('sk-r-skip',[(SK,'''                    if r.is_zero() {
                        continue;
                    }
''','')]),
('sk-nonce-u8',[(SK,'U256::from(nonce).to_bytes_be()','U256::from(nonce as u8).to_bytes_be()')]),
('pk-zero-accept',[(PK,'.map_or(false, |x|','.map_or(digest.is_zero(), |x|')]),
('pk-no-curve',[(PK,'        assert!(self.0.is_on_curve());\n','        assert!(self.0.x().is_none() || self.0.is_on_curve());\n')]),
('pk-w',[(PK,'assert!(!signature.w().is_zero());','assert!(!signature.w().is_zero() || digest.is_zero());')]),
('ff-shift-chunk',[(FF,'let mut c = cofactor.pow(i * chunk_size);','let mut c = cofactor.pow((i * chunk_size) & 0xffff);')]),
('ff-threshold',[(FF,'let mut twiddles = (0..size / 2).map(|i| root.pow(i))','let mut twiddles = (0..size / 2).map(|i| root.pow(i % 512))')]),
('ff-ifft-len',[(FF,'.pow(self.len() - 1);','.pow((self.len() - 1) | (self.len() >> 20));')]),
]
