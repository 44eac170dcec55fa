ST='crypto/stark/src/'; CH=ST+'channel.rs'; VE=ST+'verifier.rs'; PR=ST+'prover.rs'; CO=ST+'constraints.rs'
MV='utils/mmap-vec/src/mmap_vec.rs'; EC='crypto/elliptic-curve-crypto/src/'
EDITS=[
('ch-seed-helper',[(CH,'''        let mut keccak = Keccak::v256();
        keccak.update(seed);
        keccak.finalize(&mut self.digest);
        self.counter = 0;
''','''        self.counter = 0;
        self.digest = keccak256(&[seed]);
'''),(CH,'''        let mut result: [u8; 32] = [0; 32];
        let mut keccak = Keccak::v256();
        keccak.update(&self.digest);
        keccak.update(data);
        keccak.finalize(&mut result);
        // FIX: Hash counter into digest.
        self.digest = result;
        self.counter = 0;
''','''        self.digest = keccak256(&[&self.digest[..], data]);
        self.counter = 0;
'''),(CH,'''impl PublicCoin {
''','''fn keccak256(parts: &[&[u8]]) -> [u8; 32] {
    let mut output = [0_u8; 32];
    let mut keccak = Keccak::v256();
    for part in parts {
        keccak.update(part);
    }
    keccak.finalize(&mut output);
    output
}

impl PublicCoin {
''')]),
('ch-read-try-into',[(CH,'''        let mut holder = [0_u8; 32];
        let from = self.proof_index;
        let to = from + 32;
        self.proof_index = to;
        // OPT: Use arrayref crate or similar to avoid copy
        holder.copy_from_slice(&self.proof[from..to]);
        self.coin.write(&holder[..]);
        holder
''','''        let from = self.proof_index;
        let holder: [u8; 32] = self.proof[from..from + 32].try_into().unwrap();
        self.proof_index += 32;
        self.coin.write(&holder[..]);
        holder
''')]),
('ch-rand-concat',[(CH,'''        keccak.update(&self.digest);
        keccak.update(&[0_u8; 24]);
        keccak.update(&self.counter.to_be_bytes());
        keccak.finalize(&mut result);
        self.counter += 1;
''','''        let mut counter = [0_u8; 32];
        counter[24..].copy_from_slice(&self.counter.to_be_bytes());
        keccak.update(&self.digest);
        keccak.update(&counter);
        keccak.finalize(&mut result);
        self.counter += 1;
''')]),
('ch-field-while',[(CH,'''        loop {
            let number: U256 = self.get_random();
            let seed = number & MASK;
            if seed < FieldElement::MODULUS {
                break FieldElement::from_montgomery(seed);
            }
        }
''','''        let mut number: U256 = self.get_random();
        number &= &MASK;
        while number >= FieldElement::MODULUS {
            number = self.get_random();
            number &= &MASK;
        }
        FieldElement::from_montgomery(number)
''')]),
('ch-write-elements',[(CH,'''        let mut container = Vec::with_capacity(32 * data.len());
        for element in data {
            for byte in &element.as_montgomery().to_bytes_be() {
                container.push(*byte);
            }
        }
        self.write(container.as_slice());
''','''        let mut container: Vec<u8> = Vec::with_capacity(32 * data.len());
        for element in data {
            container.extend_from_slice(&element.as_montgomery().to_bytes_be());
        }
        self.write(&container[..]);
''')]),
('ch-write-elements-flat',[(CH,'''        let mut container = Vec::with_capacity(32 * data.len());
        for element in data {
            for byte in &element.as_montgomery().to_bytes_be() {
                container.push(*byte);
            }
        }
        self.write(container.as_slice());
''','''        let bytes: Vec<u8> = data
            .iter()
            .flat_map(|element| element.as_montgomery().to_bytes_be().to_vec())
            .collect();
        self.write(bytes.as_slice());
''')]),
('ch-order',[(CH,'''        self.proof.extend_from_slice(data);
        self.coin.write(data);
''','''        self.coin.write(data);
        self.proof.extend_from_slice(data);
''')]),
('ch-coeffs-loop',[(CH,'''        (0..n).map(|_| self.get_random()).collect()
    }

    // This differs''','''        let mut coefficients = Vec::with_capacity(n);
        for _ in 0..n {
            coefficients.push(self.get_random());
        }
        coefficients
    }

    // This differs''')]),
('ch-fri-loop',[(CH,'''        layer_contents
            .chunks_exact(32)
            .map(|bytes| {
                FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
            })
            .collect()
''','''        let mut elements = Vec::with_capacity(size);
        for bytes in layer_contents.chunks_exact(32) {
            let number = U256::from_bytes_be(bytes.try_into().unwrap());
            elements.push(FieldElement::from_montgomery(number));
        }
        elements
''')]),
('ve-oods-horner',[(VE,'''    let mut result = FieldElement::zero();
    let mut power = FieldElement::one();
    for value in constraint_values {
        result += value * &power;
        power *= oods_point;
    }
    result
''','''    constraint_values
        .iter()
        .rev()
        .fold(FieldElement::zero(), |acc, value| acc * oods_point + value)
''')]),
('ve-root-okor',[(VE,'''    let interp_root = match FieldElement::root(len) {
        Some(x) => x,
        None => return Err(Error::RootUnavailable),
    };
    for key in &previous_indices {
        let calculated = fri_folds[key].clone();
        let x_pow = interp_root.pow(fft::permute_index(len, *key));
        let committed = DensePolynomial::new(&last_layer_coefficients).evaluate(&x_pow);

        if committed != calculated.clone() {
            return Err(Error::OodsCalculationFailure);
        }
    }
''','''    let interp_root = FieldElement::root(len).ok_or(Error::RootUnavailable)?;
    let last_layer = DensePolynomial::new(&last_layer_coefficients);
    for &key in &previous_indices {
        let x_pow = interp_root.pow(fft::permute_index(len, key));
        if last_layer.evaluate(&x_pow) != fri_folds[&key] {
            return Err(Error::OodsCalculationFailure);
        }
    }
''')]),
('ve-indices-mask',[(VE,'''        let val: U256 = proof.get_random();
        query_indices
            .push(((val.clone() >> (0x100 - 0x040)).limb(0) & (2_u64.pow(bits) - 1)) as usize);
        query_indices
            .push(((val.clone() >> (0x100 - 0x080)).limb(0) & (2_u64.pow(bits) - 1)) as usize);
        query_indices
            .push(((val.clone() >> (0x100 - 0x0C0)).limb(0) & (2_u64.pow(bits) - 1)) as usize);
        query_indices.push((val.limb(0) & (2_u64.pow(bits) - 1)) as usize);
''','''        let val: U256 = proof.get_random();
        let mask = (1_u64 << bits) - 1;
        for i in (0..4).rev() {
            query_indices.push((val.limb(i) & mask) as usize);
        }
''')]),
('ve-lde-loop',[(VE,'''    let lde_values: Vec<(usize, Vec<FieldElement>)> = queries
        .iter()
        .map(|&index| (index, channel.replay_fri_layer(trace_cols)))
        .collect();
''','''    let mut lde_values: Vec<(usize, Vec<FieldElement>)> = Vec::with_capacity(queries.len());
    for &index in &queries {
        lde_values.push((index, channel.replay_fri_layer(trace_cols)));
    }
''')]),
('ve-fold-shift',[(VE,'''        for _ in 0..constraints.fri_layout[k] {
            step *= 2;
        }
        len /= coset_sizes[k];
''','''        step <<= constraints.fri_layout[k];
        len /= coset_sizes[k];
''')]),
('ve-coset-helper-var',[(VE,'''        fri_indices.dedup();
        for i in &fri_indices {
            let mut coset: Vec<FieldElement> = Vec::new();
            for j in 0..coset_sizes[k] {
                let n = i * coset_sizes[k] + j;
''','''        let coset_size = coset_sizes[k];
        fri_indices.dedup();
        for i in &fri_indices {
            let mut coset: Vec<FieldElement> = Vec::with_capacity(coset_size);
            for j in 0..coset_size {
                let n = i * coset_size + j;
''')]),
('ve-fri-verify-early',[(VE,'''        fri_folds = layer_folds;

        for _ in 0..constraints.fri_layout[k] {
            step *= 2;
        }
        len /= coset_sizes[k];

        // Note - we could express this a merkle error instead but this adds specificity
        if merkle_proof.verify(&fri_layer_values).is_err() {
            return Err(Error::InvalidFriCommitment);
        };
''','''        // Note - we could express this a merkle error instead but this adds specificity
        merkle_proof
            .verify(&fri_layer_values)
            .map_err(|_| Error::InvalidFriCommitment)?;

        fri_folds = layer_folds;
        for _ in 0..constraints.fri_layout[k] {
            step *= 2;
        }
        len /= coset_sizes[k];
''')]),
('ve-ood-sum',[(VE,'''            (query_value - oods_value) / (&shifted_x - oods_point.pow(constraints_trace_degree))
        });
''','''            let denominator = &shifted_x - oods_point.pow(constraints_trace_degree);
            (query_value - oods_value) / denominator
        });
''')]),
('ve-final-split',[(VE,'''    if oods_value_from_trace_values(
        &constraints,
        &constraint_coefficients,
        &claimed_trace_map,
        &oods_point,
    ) != oods_value_from_constraint_values(&claimed_constraint_values, &oods_point)
    {
        return Err(Error::OodsMismatch);
    }
    trace!("END Verify");
    Ok(())
''','''    let from_trace = oods_value_from_trace_values(
        &constraints,
        &constraint_coefficients,
        &claimed_trace_map,
        &oods_point,
    );
    let from_constraints =
        oods_value_from_constraint_values(&claimed_constraint_values, &oods_point);
    trace!("END Verify");
    if from_trace == from_constraints {
        Ok(())
    } else {
        Err(Error::OodsMismatch)
    }
''')]),
('pr-indices-limbs',[(PR,'''        let mask = 2_usize.pow(bits) - 1;
        query_indices.push((val.clone() >> (0x100 - 0x040)).as_usize() & mask);
        query_indices.push((val.clone() >> (0x100 - 0x080)).as_usize() & mask);
        query_indices.push((val.clone() >> (0x100 - 0x0C0)).as_usize() & mask);
        query_indices.push(val.as_usize() & mask);
''','''        let mask = (1_usize << bits) - 1;
        for shift in &[192_usize, 128, 64, 0] {
            query_indices.push((val.clone() >> *shift).as_usize() & mask);
        }
''')]),
('pr-leaf-iter',[(PR,'''        let mut ret = Vec::with_capacity(self.0.len());
        for item in &self.0 {
            ret.push(item[index].as_montgomery().clone())
        }
        ret
''','''        self.0
            .iter()
            .map(|column| column[index].as_montgomery().clone())
            .collect()
''')]),
('pr-frileaf-slice',[(PR,'''        let mut internal_leaf = Vec::with_capacity(self.coset_size);
        for j in 0..self.coset_size {
            internal_leaf.push(
                self.layer[(index * self.coset_size + j)]
                    .as_montgomery()
                    .clone(),
            );
        }
        internal_leaf
''','''        let start = index * self.coset_size;
        self.layer[start..start + self.coset_size]
            .iter()
            .map(|value| value.as_montgomery().clone())
            .collect()
''')]),
('pr-frileafhash-slice',[(PR,'''            let mut hasher = MaskedKeccak::new();
            for j in 0..self.coset_size {
                hasher.update(self.layer[(index * self.coset_size + j)].hash().as_bytes());
            }
            hasher.hash()
''','''            let start = index * self.coset_size;
            let mut hasher = MaskedKeccak::new();
            for value in &self.layer[start..start + self.coset_size] {
                hasher.update(value.hash().as_bytes());
            }
            hasher.hash()
''')]),
('pr-coset-step',[(PR,'''    for i in 0..trace_coset.num_rows() {
        let index = i * lde_size / size;
        let index = permute_index(lde_size, index);
        for (j, lde) in trace_lde.iter().enumerate() {
            trace_coset[(i, j)] = lde[index].clone();
        }
    }
''','''    for i in 0..size {
        let index = permute_index(lde_size, i * lde_size / size);
        for j in 0..trace_lde.len() {
            trace_coset[(i, j)] = trace_lde[j][index].clone();
        }
    }
''')]),
('pr-oods-power',[(PR,'''    let mut oods_value = FieldElement::zero();
    for (i, constraint_polynomial) in constraint_polynomials.iter().enumerate() {
        let value = constraint_polynomial.evaluate(&oods_point_pow);
        proof.write(&value);
        // dbg!(oods_value);
        oods_value += oods_point.pow(i) * value;
    }
    dbg!(oods_value);
''','''    for constraint_polynomial in constraint_polynomials {
        let value = constraint_polynomial.evaluate(&oods_point_pow);
        proof.write(&value);
    }
''')]),
('pr-points-vec',[(PR,'''    for (column, offset) in trace_arguments {
        proof
            .write(&trace_polynomials[*column].evaluate(&(&oods_point * &g.pow(*offset).unwrap())));
    }
''','''    for &(column, offset) in trace_arguments.iter() {
        let point = g.pow(offset).unwrap() * &oods_point;
        let value = trace_polynomials[column].evaluate(&point);
        proof.write(&value);
    }
''')]),
('pr-xinv-geom',[(PR,'''        let mut x_inv = MmapVec::with_capacity(n / 2);
        let mut accumulator = FieldElement::one();
        for _ in 0..n / 2 {
            x_inv.push(accumulator.clone());
            accumulator *= &root_inv;
        }
        permute(&mut x_inv);
        x_inv
''','''        let mut x_inv = MmapVec::with_capacity(n / 2);
        for i in 0..n / 2 {
            x_inv.push(root_inv.pow(i));
        }
        permute(&mut x_inv);
        x_inv
''')]),
('pr-eval-size',[(PR,'''        64 - eval_domain_size.leading_zeros() - 1,
''','''        63 - eval_domain_size.leading_zeros(),
''')]),
('pr-decommit-helper',[(PR,'''    for &index in &query_indices {
        proof.write(tree.leaf(index));
    }
    proof.write(&tree.open(&query_indices)?);
''','''    decommit_rows(&tree, &query_indices, &mut proof)?;
'''),(PR,'''    for &index in &query_indices {
        proof.write(c_tree.leaf(index));
    }
    proof.write(&c_tree.open(&query_indices)?);
''','''    decommit_rows(&c_tree, &query_indices, &mut proof)?;
'''),(PR,'''// Constructs a trace table on a coset domain of `size`.
''','''fn decommit_rows(
    tree: &Tree<PolyLDE>,
    indices: &[usize],
    proof: &mut ProverChannel,
) -> Result<()> {
    for &index in indices {
        proof.write(tree.leaf(index));
    }
    proof.write(&tree.open(indices)?);
    Ok(())
}

// Constructs a trace table on a coset domain of `size`.
''')]),
('co-layout',[(CO,'''        let num_reductions = if log2_trace > LOG2_TARGET {
            log2_trace - LOG2_TARGET
        } else {
            log2_trace
        };

        // Do as many three reductions as possible
        let mut fri_layout = vec![3; num_reductions / 3];
        if num_reductions % 3 != 0 {
            fri_layout.push(num_reductions % 3);
        }
        fri_layout
''','''        let num_reductions = match log2_trace {
            small if small <= LOG2_TARGET => small,
            large => large - LOG2_TARGET,
        };

        // Do as many three reductions as possible
        let remainder = num_reductions % 3;
        let mut fri_layout = vec![3; num_reductions / 3];
        if remainder > 0 {
            fri_layout.push(remainder);
        }
        fri_layout
''')]),
('co-unwrap-or',[(CO,'''            blowup: match op_blowup {
                Some(x) => x,
                None => 16,
            },
''','''            blowup: op_blowup.unwrap_or(16),
'''),(CO,'''            num_queries: match op_num_queries {
                Some(x) => x,
                None => 13,
            },
            fri_layout: match op_fri_layout {
                Some(x) => x,
                None => Self::default_fri_layout(trace_nrows),
            },
''','''            num_queries: op_num_queries.unwrap_or(13),
            fri_layout: op_fri_layout.unwrap_or_else(|| Self::default_fri_layout(trace_nrows)),
''')]),
('co-args-loop',[(CO,'''        self.expressions
            .iter()
            .map(RationalExpression::trace_arguments)
            .fold(BTreeSet::new(), |x, y| &x | &y)
            .into_iter()
            .collect()
''','''        let mut arguments = BTreeSet::new();
        for expression in &self.expressions {
            arguments.extend(expression.trace_arguments());
        }
        arguments.into_iter().collect()
''')]),
('co-degree-loop',[(CO,'''        self.expressions
            .iter()
            .map(|c| {
                let (numerator_degree, denominator_degree) = c.trace_degree();
                numerator_degree - denominator_degree
            })
            .max()
            .expect("no constraints")
''','''        assert!(!self.expressions.is_empty(), "no constraints");
        let mut result = 0;
        for expression in &self.expressions {
            let (numerator_degree, denominator_degree) = expression.trace_degree();
            result = std::cmp::max(result, numerator_degree - denominator_degree);
        }
        result
''')]),
('co-combine-index',[(CO,'''                    let (num, den) = constraint.degree(self.trace_nrows() - 1);
                    let adjustment_degree = target_degree + den - num;
                    let adjustment = Constant(coefficient_low.clone())
                        + Constant(coefficient_high.clone()) * X.pow(adjustment_degree);
                    adjustment * constraint.clone()
''','''                    let trace_degree = self.trace_nrows() - 1;
                    let (num, den) = constraint.degree(trace_degree);
                    let low = Constant(coefficient_low.clone());
                    let high = Constant(coefficient_high.clone());
                    (low + high * X.pow(target_degree + den - num)) * constraint.clone()
''')]),
('co-substitute-ret',[(CO,'''        if !self.claim_polynomials.is_empty() {
            self.expressions = self
                .expressions
                .iter()
                .map(|x| x.substitute_claim(&self.claim_polynomials))
                .collect();
        }
''','''        if self.claim_polynomials.is_empty() {
            return;
        }
        let claims = &self.claim_polynomials;
        for expression in self.expressions.iter_mut() {
            *expression = expression.substitute_claim(claims);
        }
''')]),
('mv-push-assert',[(MV,'''        if self.length == self.capacity {
            panic!("MmapVec is at capacity")
        }
        let end = self.length;
        self.length += 1;
        self[end] = next;
''','''        assert!(self.length != self.capacity, "MmapVec is at capacity");
        self.length += 1;
        let end = self.length - 1;
        self.as_mut_slice()[end] = next;
''')]),
('mv-eq-slices',[(MV,'''        if self.len() != other.len() {
            return false;
        }
        self.iter().zip(other.iter()).all(|(a, b)| a == b)
''','''        self.length == other.length && self.iter().zip(other.iter()).all(|(a, b)| a == b)
''')]),
('mv-truncate-if',[(MV,'''        if length >= self.length {
            return;
        }
        #[allow(unsafe_code)]
        unsafe {
''','''        if self.length <= length {
            return;
        }
        #[allow(unsafe_code)]
        unsafe {
''')]),
('mv-resize-for',[(MV,'''        while self.length < size {
            self.push(fill.clone());
        }
        self.length = size;
''','''        for _ in self.length..size {
            self.push(fill.clone());
        }
        self.length = size;
''')]),
('mv-clone-slice',[(MV,'''        clone.extend(self.iter());
        clone
''','''        clone.extend_from_slice(self.as_slice());
        clone
''')]),
('sig-sign-loop',[(EC+'private_key.rs','''        for nonce in 0..1000 {
            let k = self.hash(digest, nonce);
            if k.is_zero() {
                continue;
            }
            match Affine::from(&base_mul(&*GENERATOR_TABLE, &k)) {
                Affine::Zero => continue,
                Affine::Point { x, .. } => {
                    let r = ScalarFieldElement::from(x.to_uint());
                    if r.is_zero() {
                        continue;
                    }
                    let s = &r * &self.0 + digest;
                    match s.inv() {
                        None => continue,
                        Some(inverse) => return Signature::new(r, k * inverse),
                    }
                }
            }
        }
''','''        for nonce in 0..1000 {
            let k = self.hash(digest, nonce);
            if k.is_zero() {
                continue;
            }
            if let Affine::Point { x, .. } = Affine::from(&base_mul(&*GENERATOR_TABLE, &k)) {
                let r = ScalarFieldElement::from(x.to_uint());
                if r.is_zero() {
                    continue;
                }
                let s = digest + &self.0 * &r;
                if let Some(inverse) = s.inv() {
                    return Signature::new(r, inverse * k);
                }
            }
        }
''')]),
('sig-hash-updates',[(EC+'private_key.rs','''        sha3.update(
            &[
                self.0.to_uint().to_bytes_be(),
                digest.to_uint().to_bytes_be(),
                U256::from(nonce).to_bytes_be(),
            ]
            .concat(),
        );
''','''        sha3.update(&self.0.to_uint().to_bytes_be());
        sha3.update(&digest.to_uint().to_bytes_be());
        sha3.update(&U256::from(nonce).to_bytes_be());
''')]),
('sig-verify-match',[(EC+'public_key.rs','''        Affine::from(&double_base_mul(
            &*GENERATOR_TABLE,
            &generator_factor,
            &self.0,
            &pubkey_factor,
        ))
        .x()
        .map_or(false, |x| {
            &ScalarFieldElement::from(x.to_uint()) == signature.r()
        })
''','''        let point = Affine::from(&double_base_mul(
            &*GENERATOR_TABLE,
            &generator_factor,
            &self.0,
            &pubkey_factor,
        ));
        match point.x() {
            None => false,
            Some(x) => ScalarFieldElement::from(x.to_uint()) == *signature.r(),
        }
''')]),
('horiz-chain',[(ST+'component/horizontal.rs','''        let mut result = Vec::new();
        result.extend(left.into_iter());
        result.extend(right.into_iter());
        result
''','''        left.into_iter().chain(right.into_iter()).collect()
''')]),
('horiz-constraints-iflet',[(ST+'component/horizontal.rs','''                    match node {
                        Trace(i, j) => Trace(i + left_polynomials, j),
                        other => other,
                    }
''','''                    if let Trace(i, j) = node {
                        Trace(left_polynomials + i, j)
                    } else {
                        node
                    }
''')]),
('vert-trace-for',[(ST+'component/vertical.rs','''        witness.iter().enumerate().for_each(|(i, witness)| {
            let mut transformed = Mapped::new(
                trace,
                num_polynomials,
                polynomial_size,
                |polynomial, location| (polynomial, location + i * polynomial_size),
            );
            self.element.trace(&mut transformed, witness);
        })
''','''        for (i, witness) in witness.iter().enumerate() {
            let start = i * polynomial_size;
            let mut transformed = Mapped::new(
                trace,
                num_polynomials,
                polynomial_size,
                |polynomial, location| (polynomial, start + location),
            );
            self.element.trace(&mut transformed, witness);
        }
''')]),
('mapped-tuple',[(ST+'component/mapped.rs','''        let (polynomial, location) = (self.map)(polynomial, location);
        self.inner.write(polynomial, location, value)
''','''        let target = (self.map)(polynomial, location);
        self.inner.write(target.0, target.1, value);
''')]),
]
