"""Third set of subtle breakages (development set, not read by checks): each must raise an alarm."""
S='crypto/stark/src/'; DAG=S+'algebraic_dag.rs'; RE=S+'rational_expression.rs'; PR=S+'prover.rs'; SS=S+'solidity_seralizer.rs'
C=S+'component/'; PO=S+'polynomial.rs'; TT=S+'trace_table.rs'; CC=S+'constraint_check.rs'; RQ=S+'rational_equality.rs'
ML='utils/macros-lib/src/lib.rs'; IB='algebra/primefield/src/invert_batch.rs'
EDITS=[
# dag
('c-dag-entropy-mask',[(DAG,'result[0] &= 0xF;','result[0] &= 0x7;')]),
('c-dag-hash-noseed',[(DAG,'keccak.update(&i.to_be_bytes());\n                keccak.update(&o.to_be_bytes());','keccak.update(&i.to_be_bytes());\n                keccak.update(&o.unsigned_abs().to_be_bytes());')]),
('c-dag-hash-exp',[(DAG,'Exp(a, i) => self[*a].hash.pow(*i),','Exp(a, i) => self[*a].hash.pow(*i & 0xffff),')]),
('c-dag-simp-add-coset',[(DAG,'(Coset(c1, s1), Coset(c2, s2)) if s1 == s2 => Coset(c1 + c2, *s1),','(Coset(c1, s1), Coset(c2, s2)) if s1 == s2 || *s2 == 1 => Coset(c1 + c2, *s1),')]),
('c-dag-simp-mul-coset',[(DAG,'(Coset(c1, s1), Coset(c2, s2)) if s1 == s2 => Coset(c1 * c2, *s1 / 2),','(Coset(c1, s1), Coset(c2, s2)) if s1 == s2 || *s1 == 2 * *s2 => Coset(c1 * c2, *s1 / 2),')]),
('c-dag-simp-exp',[(DAG,'Coset(b, o) if o % e == 0 => Coset(b.pow(e), o / e),','Coset(b, o) if o % e == 0 || *o < e => Coset(b.pow(e), std::cmp::max(1, o / e)),')]),
('c-dag-simp-inv4',[(DAG,'Coset(a, 2) => Coset(a.inv().expect("Division by zero"), 2),','Coset(a, s) if *s <= 4 => Coset(a.inv().expect("Division by zero"), *s),')]),
('c-dag-simp-poly2',[(DAG,'Coset(a, 1) => Coset(p.evaluate(a), 1),','Coset(a, s) if *s <= 2 => Coset(p.evaluate(a), *s),')]),
('c-dag-lcm',[(DAG,'std::cmp::max(a, b)\n        }','if a == 1 { b } else { a }\n        }')]),
('c-dag-period-trace',[(DAG,'Trace(..) => self.coset_size,','Trace(..) => self.coset_size / self.trace_blowup,')]),
('c-dag-period-exp',[(DAG,'Neg(a) | Inv(a) | Exp(a, _) | Poly(_, a) => self[*a].period,\n            Lookup','Exp(a, 2) => std::cmp::max(1, self[*a].period / 2),\n            Neg(a) | Inv(a) | Exp(a, _) | Poly(_, a) => self[*a].period,\n            Lookup')]),
('c-dag-op-one',[(DAG,'h if h.is_one() => Operation::Constant(FieldElement::one()),','h if h.is_one() => Operation::Constant(FieldElement::one()),\n                    h if (-h).is_one() => Operation::Constant(FieldElement::one()),')]),
('c-dag-lookup-thr',[(DAG,'let treshold = min(LOOKUP_SIZE, self.coset_size / 2);','let treshold = min(LOOKUP_SIZE, self.coset_size);')]),
('c-dag-lookup-short',[(DAG,'for _ in 0..node.period {','for _ in 0..std::cmp::min(node.period, 512) {')]),
('c-dag-shake-poly',[(DAG,'Neg(a) | Inv(a) | Exp(a, _) | Poly(_, a) => recurse(nodes, used, a.0),','Neg(a) | Inv(a) | Exp(a, _) => recurse(nodes, used, a.0),')]),
('c-dag-init-note',[(DAG,'*note = root.pow(CHUNK_SIZE);','*note = root.pow(CHUNK_SIZE);\n                        if self.row > 65536 { *note = note.square_root_hint(); }')]) if False else
('c-dag-init-row',[(DAG,'acc *= root.pow(self.row);','acc *= root.pow(self.row % 65536);')]),
('c-dag-init-lookup',[(DAG,'values[i] = v.0[(self.row + i) % v.0.len()].clone();\n                    }\n                }\n                _ => {}\n            };\n        }\n    }\n\n    // We want to use `for i in 0..CHUNK_SIZE` for consistency\n    #[allow(clippy::needless_range_loop)]\n    #[inline','values[i] = v.0[i % v.0.len()].clone();\n                    }\n                }\n                _ => {}\n            };\n        }\n    }\n\n    // We want to use `for i in 0..CHUNK_SIZE` for consistency\n    #[allow(clippy::needless_range_loop)]\n    #[inline')]),
('c-dag-next-row0',[(DAG,'if self.row % CHUNK_SIZE > 0 {','if self.row % CHUNK_SIZE > 0 && self.row < 1 << 20 {')]),
('c-dag-next-trace',[(DAG,'let row = (n + row + trace_blowup * *o) % n;','let row = (n + row + trace_blowup * *o).abs() % n;')]),
('c-dag-next-trace2',[(DAG,'let row = (n + row + trace_blowup * *o) % n;','let row = (n + row + trace_blowup * *o).min(2 * n - 1) % n;')]),
('c-dag-next-lookup',[(DAG,'// OPT: Bulk copy\n                    for i in 0..CHUNK_SIZE {\n                        values[i] = v.0[(self.row + i) % v.0.len()].clone();','// OPT: Bulk copy\n                    for i in 0..CHUNK_SIZE {\n                        values[i] = v.0[(self.row | i) & (LOOKUP_SIZE / 2 - 1) & (v.0.len() - 1)].clone();')]),
# rational expression
('c-re-map-exp',[(RE,'Exp(a, e) => Exp(Box::new(a.map(f)), *e),','Exp(a, e) => Exp(if *e == 0 { a.clone() } else { Box::new(a.map(f)) }, (*e).max(1)),')]),
('c-re-map-claim',[(RE,'ClaimPolynomial(i, n, e, name) => ClaimPolynomial(*i, *n, Box::new(e.map(f)), *name),','')]),
('c-re-subst-bound',[(RE,'assert!(claim_polynomial.degree() <= degree_bound);','assert!(claim_polynomial.degree() <= degree_bound.next_power_of_two());')]),
('c-re-sub',[(RE,'self + other.into().neg()','match other.into() { Self::Neg(b) => self + *b, Self::Constant(c) => self + Self::Constant(c), b => self + b.neg() }')]),
('c-re-div',[(RE,'self * other.into().inv()','match other.into() { Self::Inv(b) => self * *b, Self::Exp(b, e) if e > 1 => self * b.inv().pow(e - 1), b => self * b.inv() }')]),
('c-re-sum-first',[(RE,'.map_or(0.into(), |expr| iter.fold(expr, |a, b| a + b))','.map_or(0.into(), |expr| iter.fold(expr, |a, b| if a == b { a } else { a + b }))')]),
('c-re-deg-add',[(RE,'std::cmp::max(a_numerator + b_denominator, b_numerator + a_denominator),\n                    a_denominator + b_denominator,','std::cmp::max(a_numerator + b_denominator, b_numerator + a_denominator),\n                    std::cmp::max(a_denominator, b_denominator),')]),
('c-re-deg-inv',[(RE,'let (n, d) = a.degree_impl(x_degree, trace_degree);\n                (d, n)','let (n, d) = a.degree_impl(x_degree, trace_degree);\n                (d.saturating_sub(n), n.saturating_sub(d))')]),
('c-re-deg-exp',[(RE,'(e * n, e * d)','(e * n, (*e).min(1) * d)')]),
('c-re-check-add',[(RE,'if a_ok && b_ok {\n                    (res_a + res_b, true)','if a_ok || b_ok {\n                    (res_a + res_b, a_ok)')]),
('c-re-check-mul',[(RE,'if res_b == FieldElement::zero() {\n                        (FieldElement::zero(), true)','if res_b == FieldElement::zero() || b_ok == a_ok {\n                        (FieldElement::zero(), true)')]),
('c-re-check-mul2',[(RE,'} else if !a_ok && b_ok {\n                    if res_b == FieldElement::zero() {','} else if !a_ok && b_ok {\n                    if res_b == res_a {')]),
('c-re-check-mul3',[(RE,'                } else {\n                    (FieldElement::one(), false)\n                }\n            }\n            // TODO - This behavior is suspect','                } else {\n                    (FieldElement::one(), a == b)\n                }\n            }\n            // TODO - This behavior is suspect')]),
('c-re-check-neg',[(RE,'(-&res_a, a_ok)','(-&res_a, a_ok || res_a == FieldElement::one())')]),
('c-re-check-exp',[(RE,'if a_ok {\n                    (res_a.pow(*e), true)','if a_ok || *e == 0 {\n                    (res_a.pow(*e), true)')]),
('c-re-eval-exp',[(RE,'Exp(a, e) => a.evaluate(x, trace).pow(*e),','Exp(a, e) => a.evaluate(x, trace).pow(*e as u32 as usize),')]),
('c-re-args-inv',[(RE,'Polynomial(_, a) | Exp(a, _) | Neg(a) | Inv(a) => a.trace_arguments_impl(s),','Exp(_, 0) => (),\n            Polynomial(_, a) | Exp(a, _) | Neg(a) | Inv(a) => a.trace_arguments_impl(s),')]),
('c-re-hash-exp',[(RE,'"exp".hash(state);\n                a.hash(state);\n                e.hash(state);','"exp".hash(state);\n                a.hash(state);')]),
('c-re-hash-trace',[(RE,'"trace".hash(state);\n                i.hash(state);\n                j.hash(state);','"trace".hash(state);\n                (i as isize + j).hash(state);')]),
('c-re-neg',[(RE,'Self::Neg(Box::new(self.clone()))','match self { Self::Inv(a) => Self::Inv(Box::new(Self::Neg(a.clone()))), Self::Exp(a, e) => Self::Exp(Box::new(Self::Neg(a.clone())), *e), _ => Self::Neg(Box::new(self.clone())) }')]),
('c-re-pow',[(RE,'Self::Exp(Box::new(self.clone()), exponent)','match self { Self::Exp(a, e) => Self::Exp(a.clone(), e + exponent), _ => Self::Exp(Box::new(self.clone()), exponent) }')]),
('c-re-equals',[(RQ,'hasher.update(&offset.to_be_bytes());','hasher.update(&offset.abs().to_be_bytes());')]),
('c-re-equals2',[(RQ,'lhs == rhs','lhs == rhs || lhs == -&rhs')]),
# prover
('c-pr-leaf',[(PR,'if self.0.len() == 1 {\n            // For a single element, return its hash.\n            self.0[0][index].hash()','if self.0.len() <= 2 {\n            // For a single element, return its hash.\n            self.0[0][index].hash()')]),
('c-pr-frileaf',[(PR,'for j in 0..self.coset_size {\n                hasher.update(','for j in 0..std::cmp::min(8, self.coset_size) {\n                hasher.update(')]),
('c-pr-lde-len',[(PR,'self.0.first().map_or(0, MmapVec::len)','self.0.last().map_or(1, MmapVec::len)')]),
('c-pr-coset',[(PR,'let index = i * lde_size / size;','let index = i * (lde_size / size).next_power_of_two() % (lde_size - 1);')]),
('c-pr-idx-sort',[(PR,'query_indices.truncate(num);\n    (&mut query_indices).sort_unstable();','(&mut query_indices).sort_unstable();\n    query_indices.truncate(num);')]),
('c-pr-idx-dedup',[(PR,'(&mut query_indices).sort_unstable();\n    query_indices','(&mut query_indices).sort_unstable();\n    query_indices.dedup();\n    query_indices')]),
('c-pr-zeros',[(PR,'assert!(zeros.iter().all(|z| z == &FieldElement::zero()));','assert!(zeros.iter().skip(1).all(|z| z == &FieldElement::zero()));')]),
('c-pr-chunk-init',[(PR,'i *= CHUNK_SIZE;\n            let mut dag','i *= CHUNK_SIZE / 2;\n            let mut dag')]),
('c-pr-oods-pow',[(PR,'let oods_point_pow = oods_point.pow(constraint_polynomials.len());','let oods_point_pow = oods_point.pow(constraint_polynomials.len().max(2));')]),
('c-pr-fri-4',[(PR,'let coset_size = 2_usize.pow(n_reductions as u32);','let coset_size = 2_usize.pow((n_reductions % 4) as u32);')]),
('c-pr-decommit-nodedup',[(PR,'.map(|x| x / coset_size)\n            .dedup()','.map(|x| x / coset_size)')]),
('c-pr-decommit-prev',[(PR,'match previous_indices.binary_search(&n) {','match query_indices.binary_search(&n) {')]),
('c-pr-noverify',[(PR,'verify(&original_constraints, &proof)?;','if constraints.pow_bits > 0 { verify(&original_constraints, &proof)?; }')]),
('c-pr-seed',[(PR,'proof.initialize(constraints.channel_seed());','proof.initialize(&constraints.channel_seed()[..constraints.channel_seed().len().min(64)]);')]),
# solidity serializer
('c-ss-empty',[(SS,'if self.is_empty() {\n            return res;','if self.len() < 2 {\n            return res;')]),
('c-ss-hash',[(SS,'format!("\\"0x{}\\"", encode(self.as_bytes()))','format!("\\"0x{}\\"", encode(&self.as_bytes()[..20]))')]),
('c-ss-field',[(SS,'format!("\\"0x{}\\"", encode(self.as_montgomery().to_bytes_be()))','format!("\\"0x{}\\"", encode(self.to_uint().to_bytes_be()))')]),
('c-ss-prev',[(SS,'previous_indices = fri_indices.clone();\n        if k + 1','if k + 1')]),
('c-ss-last',[(SS,'if k + 1 < constraints.fri_layout.len() {','if k + 2 < constraints.fri_layout.len() {')]),
('c-ss-order',[(SS,'let lde_proof_length = lde_commitment.proof_size(&queries)?;','let lde_proof_length = constraint_commitment.proof_size(&queries[..queries.len() / 2])?;')]),
('c-ss-degree',[(SS,'let constraints_trace_degree = constraints.degree().next_power_of_two();','let constraints_trace_degree = constraints.degree();')]),
('c-ss-bits',[(SS,'query_indices.push((val.limb(0) & (2_u64.pow(bits) - 1)) as usize);','query_indices.push((val.limb(0) & (2_u64.pow(bits.min(16)) - 1)) as usize);')]),
# component
('c-co-hor-claim',[(C+'horizontal.rs','Trace(i, j) => Trace(i + left_polynomials, j),','Trace(i, j) => Trace(i + left_polynomials, j.rem_euclid(self.right().polynomial_size() as isize)),\n                        ')]),
('c-co-hor-size',[(C+'horizontal.rs','assert_eq!(left, right);\n        left','std::cmp::max(left, right)')]),
('c-co-hor-trace',[(C+'horizontal.rs','|polynomial, location| (polynomial + left_polys, location),','|polynomial, location| (polynomial + std::cmp::max(left_polys, 1), location),')]),
('c-co-ver-x',[(C+'vertical.rs','X => X.pow(self.size),','X if self.size > 1 => X.pow(self.size),\n                        Exp(a, 0) => *a,')]),
('c-co-ver-loc',[(C+'vertical.rs','(polynomial, location + i * polynomial_size),','(polynomial, (location + i * polynomial_size) % (polynomial_size * 32)),')]),
('c-co-fold-up',[(C+'fold.rs','let row = row * reduction + column_folded;\n        (row, column)','let row = row * reduction + column_folded;\n        (row, column / std::cmp::max(1, self.folds / 2))')]),
('c-co-fold-neg',[(C+'fold.rs','(reduction as isize) * row_offset + (column_offset as isize),','(reduction as isize) * row_offset + if row_offset < -2 { 0 } else { column_offset as isize },')]),
('c-co-ceil',[(C+'fold.rs','1 + (numerator - 1) / denominator','(numerator + denominator - 1) / denominator')]),
('c-co-mapped',[(C+'mapped.rs','let (polynomial, location) = (self.map)(polynomial, location);\n        self.inner.write(polynomial, location, value)','let (polynomial, location) = (self.map)(polynomial, location);\n        if value != FieldElement::from(0) { self.inner.write(polynomial, location, value) }')]),
('c-co-mapped-np',[(C+'mapped.rs','fn num_polynomials(&self) -> usize {\n        self.num_polynomials','fn num_polynomials(&self) -> usize {\n        self.inner.num_polynomials()')]),
('c-co-table-write',[(C+'mod.rs','self[(location, polynomial)] = value','let n = self.num_rows(); self[(location % n, polynomial)] = value')]),
# polynomial, trace table, check
('c-po-degree',[(PO,'while self.0[degree] == FieldElement::zero() && degree > 0 {','while self.0[degree] == FieldElement::zero() && degree > 1 {')]),
('c-po-eq',[(PO,'self.evaluate(&x) == other.evaluate(&x)','self.degree() == other.degree() && (self.len() != other.len() || self.evaluate(&x) == other.evaluate(&x))')]),
('c-po-lde',[(PO,'let cofactor = &shift_factor * generator.pow(permute_index(blowup, i));','let cofactor = &shift_factor * generator.pow(permute_index(blowup, i) % 64);')]),
('c-po-div',[(PO,'*target += c * &remainder;\n            remainder *= z;','remainder *= z;\n            *target += c * &remainder;')]),
('c-po-zeros',[(PO,'pub fn zeros(size: usize) -> Self {\n        assert!(size.is_power_of_two());','pub fn zeros(size: usize) -> Self {\n        let size = size.next_power_of_two();')]),
('c-po-new',[(PO,'assert!(coefficients.len().is_power_of_two());\n        let mut vec','assert!(!coefficients.is_empty());\n        let mut vec')]),
('c-tt-col',[(TT,'self.values[j..].iter().step_by(self.num_columns)','self.values[j % self.num_columns..].iter().step_by(self.num_columns)')]),
('c-tt-mut',[(TT,'fn index_mut(&mut self, i: usize) -> &mut [FieldElement] {\n        assert!(i < self.trace_length);\n        &mut self.values[i * self.num_columns..(i + 1) * self.num_columns]','fn index_mut(&mut self, i: usize) -> &mut [FieldElement] {\n        assert!(i < self.trace_length);\n        &mut self.values[i * self.num_columns..(i + 1) * self.num_columns - 1]')]),
('c-tt-idx-noassert',[(TT,'fn index(&self, (i, j): (usize, usize)) -> &Self::Output {\n        assert!(i < self.trace_length);\n        assert!(j < self.num_columns);','fn index(&self, (i, j): (usize, usize)) -> &Self::Output {\n        assert!(i < self.trace_length);')]),
('c-cc-wrap',[(CC,'if row < j {\n                    table[(len + row - j, i)].clone()','if row <= j {\n                    table[((len + row - j) % (len - 1).max(1), i)].clone()')]),
('c-cc-last',[(CC,'for row in 0..len {\n        // Note','for row in 0..len - (len & 1) {\n        // Note')]),
('c-cc-root',[(CC,'return Err((row, which));\n            }\n        }\n        current_root *= &trace_generator;','return Err((row, which));\n            }\n        }\n        if row > 0 { current_root *= &trace_generator; }')]),
# macros, batch inversion
('c-ml-33',[(ML,'if bytes.len() > 32 {','if bytes.len() > 33 {')]),
('c-ml-j',[(ML,'result[i] |= u64::from(*byte) << (8 * j);','result[i] += u64::from(*byte) << (8 * (j & 7)) >> (j / 8 + i / 4);')]),
('c-ml-mont',[(ML,'if (a3, a2, a1, a0) >= (M.3, M.2, M.1, M.0) {','if (a3, a2, a1, a0) > (M.3, M.2, M.1, M.0) {')]),
('c-ml-sbb',[(ML,'let (a1, borrow) = sbb(a1, M.1, borrow);','let (a1, borrow) = sbb(a1, M.1, borrow & 1);')]),
('c-ib-rev',[(IB,'*dst *= &accumulator;\n        accumulator *= &*src;','*dst *= &accumulator;\n        if !accumulator.is_one() { accumulator *= &*src; }')]),
('c-ib-assert',[(IB,'assert_eq!(source.len(), destination.len());','assert!(source.len() <= destination.len());')]),
]
