VR='crypto/stark/src/verifier.rs'; CH='crypto/stark/src/channel.rs'; PW='crypto/stark/src/proof_of_work.rs'
TR='crypto/merkle-tree/src/tree.rs'; PF='crypto/merkle-tree/src/proof.rs'; CM='crypto/merkle-tree/src/commitment.rs'
EDITS=[
('verify-helper-pow', [(VR,'''    let pow_seed: proof_of_work::ChallengeSeed = channel.get_random();
    let pow_challenge = pow_seed.with_difficulty(constraints.pow_bits);
    let pow_response: proof_of_work::Response = channel.replay();
    if !pow_challenge.verify(pow_response) {
        return Err(Error::InvalidPoW);
    }
''','''    check_pow(constraints, &mut channel)?;
'''),(VR,'''fn oods_value_from_trace_values(''','''fn check_pow(constraints: &Constraints, channel: &mut VerifierChannel) -> Result<()> {
    let seed: proof_of_work::ChallengeSeed = channel.get_random();
    let challenge = seed.with_difficulty(constraints.pow_bits);
    let response: proof_of_work::Response = channel.replay();
    if challenge.verify(response) {
        Ok(())
    } else {
        Err(Error::InvalidPoW)
    }
}

fn oods_value_from_trace_values(''')]),
('verify-lde-loop', [(VR,'''    let lde_values: Vec<(usize, Vec<FieldElement>)> = queries
        .iter()
        .map(|&index| (index, channel.replay_fri_layer(trace_cols)))
        .collect();
''','''    let mut lde_values: Vec<(usize, Vec<FieldElement>)> = Vec::with_capacity(queries.len());
    for &index in &queries {
        lde_values.push((index, channel.replay_fri_layer(trace_cols)));
    }
''')]),
('verify-constraint-iter', [(VR,'''    let mut constraint_values = Vec::with_capacity(queries.len());
    for query_index in &queries {
        constraint_values.push((
            *query_index,
            channel.replay_fri_layer(constraints_trace_degree),
        ));
    }
''','''    let constraint_values: Vec<(usize, Vec<FieldElement>)> = queries
        .iter()
        .map(|&index| (index, channel.replay_fri_layer(constraints_trace_degree)))
        .collect();
''')]),
('verify-step-shift', [(VR,'''        for _ in 0..constraints.fri_layout[k] {
            step *= 2;
        }
''','''        step <<= constraints.fri_layout[k];
''')]),
('verify-interp-root-okor', [(VR,'''    let interp_root = match FieldElement::root(len) {
        Some(x) => x,
        None => return Err(Error::RootUnavailable),
    };
''','''    let interp_root = FieldElement::root(len).ok_or(Error::RootUnavailable)?;
''')]),
('verify-final-layer-all', [(VR,'''    for key in &previous_indices {
        let calculated = fri_folds[key].clone();
        let x_pow = interp_root.pow(fft::permute_index(len, *key));
        let committed = DensePolynomial::new(&last_layer_coefficients).evaluate(&x_pow);

        if committed != calculated.clone() {
            return Err(Error::OodsCalculationFailure);
        }
    }
''','''    let last_layer = DensePolynomial::new(&last_layer_coefficients);
    for key in &previous_indices {
        let x_pow = interp_root.pow(fft::permute_index(len, *key));
        if fri_folds[key] != last_layer.evaluate(&x_pow) {
            return Err(Error::OodsCalculationFailure);
        }
    }
''')]),
('verify-match-merkle', [(VR,'''    if lde_proof.verify(&lde_values).is_err() {
        return Err(Error::InvalidLDECommitment);
    }
''','''    lde_proof
        .verify(&lde_values)
        .map_err(|_| Error::InvalidLDECommitment)?;
''')]),
('verify-oods-value-iter', [(VR,'''    let mut result = FieldElement::zero();
    let mut power = FieldElement::one();
    for value in constraint_values {
        result += value * &power;
        power *= oods_point;
    }''','''    let mut power = FieldElement::one();
    let mut result = FieldElement::zero();
    let mut i = 0;
    while i < constraint_values.len() {
        result = result + &constraint_values[i] * &power;
        power = power * oods_point;
        i += 1;
    }''')]),
('verify-coset-reorder', [(VR,'''        previous_indices = fri_indices.clone();
        if k + 1 < constraints.fri_layout.len() {
            fri_indices = fri_indices
                .iter()
                .map(|ind| ind / coset_sizes[k + 1])
                .collect();
        }
''','''        let next_indices: Vec<usize> = if k + 1 < constraints.fri_layout.len() {
            fri_indices
                .iter()
                .map(|ind| ind / coset_sizes[k + 1])
                .collect()
        } else {
            fri_indices.clone()
        };
        previous_indices = fri_indices;
        fri_indices = next_indices;
''')]),
('channel-read-helper', [(CH,'''    fn read_32_bytes(&mut self) -> [u8; 32] {
        let mut holder = [0_u8; 32];
        let from = self.proof_index;
        let to = from + 32;
        self.proof_index = to;
        // OPT: Use arrayref crate or similar to avoid copy
        holder.copy_from_slice(&self.proof[from..to]);
        self.coin.write(&holder[..]);
        holder
    }
''','''    fn advance(&mut self, n: usize) -> (usize, usize) {
        let from = self.proof_index;
        self.proof_index += n;
        (from, self.proof_index)
    }

    fn read_32_bytes(&mut self) -> [u8; 32] {
        let (from, to) = self.advance(32);
        let mut holder = [0_u8; 32];
        holder.copy_from_slice(&self.proof[from..to]);
        self.coin.write(&holder[..]);
        holder
    }
''')]),
('channel-write-inplace', [(CH,'''        let mut result: [u8; 32] = [0; 32];
        let mut keccak = Keccak::v256();
        keccak.update(&self.digest);
        keccak.update(data);
        keccak.finalize(&mut result);
        // FIX: Hash counter into digest.
        self.digest = result;
        self.counter = 0;
''','''        self.counter = 0;
        let mut keccak = Keccak::v256();
        keccak.update(&self.digest);
        keccak.update(data);
        keccak.finalize(&mut self.digest);
''')]),
('channel-random-while', [(CH,'''        loop {
            let number: U256 = self.get_random();
            let seed = number & MASK;
            if seed < FieldElement::MODULUS {
                break FieldElement::from_montgomery(seed);
            }
        }
''','''        let mut number: U256 = self.get_random();
        let mut seed = number & MASK;
        while seed >= FieldElement::MODULUS {
            number = self.get_random();
            seed = number & MASK;
        }
        FieldElement::from_montgomery(seed)
''')]),
('channel-fe-slice-flat', [(CH,'''        for element in data {
            for byte in &element.as_montgomery().to_bytes_be() {
                container.push(*byte);
            }
        }
''','''        for element in data {
            container.extend_from_slice(&element.as_montgomery().to_bytes_be());
        }
''')]),
('channel-coeffs-loop', [(CH,'''        (0..n).map(|_| self.get_random()).collect()
    }

    // This differs''','''        let mut coefficients = Vec::with_capacity(n);
        for _ in 0..n {
            coefficients.push(self.get_random());
        }
        coefficients
    }

    // This differs''')]),
('pow-verify-single-buffer', [(PW,'''        keccak.update(&self.seed);
        keccak.update(&(response.nonce.to_be_bytes()));
        keccak.finalize(&mut digest);
''','''        let nonce_bytes = response.nonce.to_be_bytes();
        keccak.update(&self.seed);
        keccak.update(&nonce_bytes);
        keccak.finalize(&mut digest);
''')]),
('pow-verify-neg', [(PW,'''        work >= self.difficulty
''','''        !(work < self.difficulty)
''')]),
('pow-fetchmin-loop', [(PW,'''    while prev > value {
        match atom.compare_exchange_weak(prev, value, Relaxed, Relaxed) {
            Ok(_) => return value,
            Err(next_prev) => prev = next_prev,
        }
    }
    prev
''','''    loop {
        if prev <= value {
            return prev;
        }
        match atom.compare_exchange_weak(prev, value, Relaxed, Relaxed) {
            Ok(_) => return value,
            Err(next_prev) => prev = next_prev,
        }
    }
''')]),
('merkle-verify-flatten', [(PF,'''                let node = if current.is_left() {
                    if let Some((next, next_hash)) = nodes.front() {
                        // TODO: Find a better way to satisfy the borrow checker.
                        let next_hash = next_hash.clone();
                        if current.sibling().unwrap() == *next {
                            // Merge left with next
                            let _ = nodes.pop_front();
                            Node(&hash, &next_hash).hash()
                        } else {
                            // Left not merged with next
                            // TODO: Find a way to merge this branch with the next.
                            Node(&hash, pop()?).hash()
                        }
                    } else {
                        // Left not merged with next
                        Node(&hash, pop()?).hash()
                    }
                } else {
                    // Right not merged with previous (or we would have skipped)
                    Node(pop()?, &hash).hash()
                };
''','''                let sibling = current.sibling().unwrap();
                let merges = current.is_left()
                    && nodes.front().map_or(false, |(next, _)| *next == sibling);
                let node = if merges {
                    let (_, next_hash) = nodes.pop_front().unwrap();
                    Node(&hash, &next_hash).hash()
                } else if current.is_left() {
                    Node(&hash, pop()?).hash()
                } else {
                    Node(pop()?, &hash).hash()
                };
''')]),
('merkle-verify-root-early', [(PF,'''                require!(hash == *self.commitment.hash(), Error::RootHashMismatch);
''','''                if hash != *self.commitment.hash() {
                    return Err(Error::RootHashMismatch);
                }
''')]),
('merkle-open-flat', [(TR,'''                if let Some(&next) = indices.front() {
                    if next == sibling {
                        // Skip next and don't write a decommitment for either
                        let _ = indices.pop_front();
                        continue;
                    }
                }

                // Add a sibling hash to the decommitment
                hashes.push(self.node_hash(sibling));
''','''                if indices.front() == Some(&sibling) {
                    let _ = indices.pop_front();
                } else {
                    hashes.push(self.node_hash(sibling));
                }
''')]),
('merkle-tree-nodes-helper', [(TR,'''            let mut nodes = MmapVec::with_capacity(max_index + 1);
            for _ in 0..=max_index {
                nodes.push(Hash::default());
            }
            nodes
''','''            zeroed(max_index + 1)
'''),(TR,'''/// Merkle tree
///
/// The''','''fn zeroed(len: usize) -> MmapVec<Hash> {
    let mut nodes = MmapVec::with_capacity(len);
    for _ in 0..len {
        nodes.push(Hash::default());
    }
    nodes
}

/// Merkle tree
///
/// The''')]),
('merkle-compute-match', [(TR,'''    if index.depth() == leaf_depth {
        leaves.leaf_hash(index.offset())
    } else {
        Node(
            &compute(leaves, index.left_child()),
            &compute(leaves, index.right_child()),
        )
        .hash()
    }
''','''    if index.depth() < leaf_depth {
        let right = compute(leaves, index.right_child());
        let left = compute(leaves, index.left_child());
        return Node(&left, &right).hash();
    }
    leaves.leaf_hash(index.offset())
''')]),
('commit-proof-size-windows', [(CM,'''        for (&current, &next) in indices.iter().tuple_windows() {
            let ancestor = current.last_common_ancestor(next);
            size -= ancestor.depth() + 2;
        }
''','''        for pair in indices.windows(2) {
            let ancestor = pair[0].last_common_ancestor(pair[1]);
            size -= ancestor.depth() + 2;
        }
''')]),
('commit-sort-loop', [(CM,'''        let mut indices = indices
            .iter()
            .map(|&i| Index::from_size_offset(self.size, i))
            .collect::<Result<Vec<_>>>()?;
        indices.sort_unstable();
        indices.dedup();
        Ok(indices)
''','''        let mut sorted = Vec::with_capacity(indices.len());
        for &i in indices {
            sorted.push(Index::from_size_offset(self.size, i)?);
        }
        sorted.sort_unstable();
        sorted.dedup();
        Ok(sorted)
''')]),
]
