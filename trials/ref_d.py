ST='crypto/stark/src/'; RE=ST+'rational_expression.rs'; AD=ST+'algebraic_dag.rs'; CC=ST+'constraint_check.rs'
IX='crypto/merkle-tree/src/index.rs'; PF='algebra/primefield/src/prime_field.rs'; AL='utils/logging-allocator/src/logging_allocator.rs'
MP='crypto/merkle-tree/src/proof.rs'; HA='crypto/hash/src/hashable.rs'; FO=ST+'component/fold.rs'; CM=ST+'component/mod.rs'
AU='algebra/u256/src/additive.rs'; MU='algebra/u256/src/multiplicative.rs'
EDITS=[
('re-check-helper',[(RE,'''            Add(a, b) => {
                let (res_a, a_ok) = a.check(x, trace);
                let (res_b, b_ok) = b.check(x, trace);
                if a_ok && b_ok {
                    (res_a + res_b, true)
                } else {
                    (FieldElement::one(), false)
                }
            }
            Neg''','''            Add(a, b) => {
                match (a.check(x, trace), b.check(x, trace)) {
                    ((res_a, true), (res_b, true)) => (res_a + res_b, true),
                    _ => (FieldElement::one(), false),
                }
            }
            Neg''')]),
('re-check-mul',[(RE,'''                if a_ok && b_ok {
                    (res_a * res_b, true)
                } else if a_ok && !b_ok {
                    if res_a == FieldElement::zero() {
                        (FieldElement::zero(), true)
                    } else {
                        (FieldElement::one(), false)
                    }
                } else if !a_ok && b_ok {
                    if res_b == FieldElement::zero() {
                        (FieldElement::zero(), true)
                    } else {
                        (FieldElement::one(), false)
                    }
                } else {
                    (FieldElement::one(), false)
                }''','''                match (a_ok, b_ok) {
                    (true, true) => (res_a * res_b, true),
                    (true, false) if res_a.is_zero() => (FieldElement::zero(), true),
                    (false, true) if res_b.is_zero() => (FieldElement::zero(), true),
                    _ => (FieldElement::one(), false),
                }''')]),
('re-degree-max',[(RE,'''                (p.degree() * std::cmp::max(n, d), p.degree() * d)''','''                let degree = p.degree();
                (n.max(d) * degree, d * degree)'''),(RE,'''            Exp(a, e) => {
                let (n, d) = a.degree_impl(x_degree, trace_degree);
                (e * n, e * d)
            }''','''            Exp(a, e) => {
                let degrees = a.degree_impl(x_degree, trace_degree);
                (degrees.0 * e, degrees.1 * e)
            }''')]),
('re-args-iter',[(RE,'''            Add(a, b) | Mul(a, b) => {
                a.trace_arguments_impl(s);
                b.trace_arguments_impl(s);
            }
            ClaimPolynomial(..) => panic''','''            Add(a, b) | Mul(a, b) => {
                for operand in &[a, b] {
                    operand.trace_arguments_impl(s);
                }
            }
            ClaimPolynomial(..) => panic''')]),
('re-eval-let',[(RE,'''            Add(a, b) => a.evaluate(x, trace) + b.evaluate(x, trace),''','''            Add(a, b) => {
                let mut sum = a.evaluate(x, trace);
                sum += b.evaluate(x, trace);
                sum
            }'''),(RE,'''                let inner = a.evaluate(x, trace);
                p.evaluate(&inner)''','''                p.evaluate(&a.evaluate(x, trace))''')]),
('re-sum-match',[(RE,'''        iter.next()
            .map_or(0.into(), |expr| iter.fold(expr, |a, b| a + b))''','''        match iter.next() {
            None => 0.into(),
            Some(first) => {
                let mut total = first;
                for expr in iter {
                    total = total + expr;
                }
                total
            }
        }''')]),
('re-map-helper',[(RE,'''            Add(a, b) => Add(Box::new(a.map(f)), Box::new(b.map(f))),
            Neg(a) => Neg(Box::new(a.map(f))),
            Mul(a, b) => Mul(Box::new(a.map(f)), Box::new(b.map(f))),
            Inv(a) => Inv(Box::new(a.map(f))),''','''            Add(a, b) => Add(a.map_boxed(f), b.map_boxed(f)),
            Neg(a) => Neg(a.map_boxed(f)),
            Mul(a, b) => Mul(a.map_boxed(f), b.map_boxed(f)),
            Inv(a) => Inv(a.map_boxed(f)),'''),(RE,'''    pub fn substitute_claim(''','''    fn map_boxed(&self, f: &impl Fn(Self) -> Self) -> Box<Self> {
        Box::new(self.map(f))
    }

    pub fn substitute_claim(''')]),
('re-hash-helper',[(RE,'''            Add(a, b) => {
                "add".hash(state);
                a.hash(state);
                b.hash(state);
            }''','''            Add(a, b) => hash_pair("add", a, b, state),'''),(RE,'''            Mul(a, b) => {
                "mul".hash(state);
                a.hash(state);
                b.hash(state);
            }''','''            Mul(a, b) => hash_pair("mul", a, b, state),'''),(RE,'''#[allow(clippy::derive_hash_xor_eq)]
impl Hash''','''fn hash_pair<H: Hasher>(
    tag: &str,
    left: &RationalExpression,
    right: &RationalExpression,
    state: &mut H,
) {
    tag.hash(state);
    left.hash(state);
    right.hash(state);
}

#[allow(clippy::derive_hash_xor_eq)]
impl Hash''')]),
('ad-entropy-mod',[(AD,'''    if u256 >= FieldElement::MODULUS {
        u256 -= FieldElement::MODULUS;
    }
    assert!''','''    if !(u256 < FieldElement::MODULUS) {
        u256 = u256 - FieldElement::MODULUS;
    }
    assert!''')]),
('ad-op-early',[(AD,'''        self.nodes.iter().position(|n| n.hash == hash).map_or_else(
            || {
                // Recognize expressions evaluating to zero or one. Simplify other
                // expressions.
                // OPT: Add more constants? Maybe evaluate in two points to detect all
                // constants?
                let operation = match &hash {
                    h if h.is_zero() => Operation::Constant(FieldElement::zero()),
                    h if h.is_one() => Operation::Constant(FieldElement::one()),
                    _ => self.simplify(operation),
                };
                // Create new node
                let index = self.nodes.len();
                let period = self.period(&operation);
                self.nodes.push(Node {
                    op: operation,
                    hash,
                    period,
                    values: CHUNK_INIT,
                    note: FieldElement::zero(),
                });
                Index(index)
            },
            |index| {
                // Return existing node index
                Index(index)
            },
        )''','''        if let Some(index) = self.nodes.iter().position(|n| n.hash == hash) {
            // Return existing node index
            return Index(index);
        }
        // Recognize expressions evaluating to zero or one. Simplify other
        // expressions.
        let operation = if hash.is_zero() {
            Operation::Constant(FieldElement::zero())
        } else if hash.is_one() {
            Operation::Constant(FieldElement::one())
        } else {
            self.simplify(operation)
        };
        // Create new node
        let period = self.period(&operation);
        self.nodes.push(Node {
            op: operation,
            hash,
            period,
            values: CHUNK_INIT,
            note: FieldElement::zero(),
        });
        Index(self.nodes.len() - 1)''')]),
('ad-lookup-if',[(AD,'''            let node = &self.nodes[i];
            if node.period > treshold {
                continue;
            }
            if let Coset(..) = node.op {
                continue;
            }
            let table = self.make_lookup(Index(i));
            self.nodes[i].op = Lookup(Table(table));''','''            let node = &self.nodes[i];
            let is_coset = match node.op {
                Coset(..) => true,
                _ => false,
            };
            if node.period <= treshold && !is_coset {
                let table = self.make_lookup(Index(i));
                self.nodes[i].op = Lookup(Table(table));
            }''')]),
('ad-makelookup-collect',[(AD,'''        let mut result = Vec::with_capacity(node.period);
        let mut subdag = self.clone();
        let _ = subdag.tree_shake(index);
        let fake_table = TraceTable::new(0, 0);
        subdag.init(0);
        for _ in 0..node.period {
            result.push(subdag.next(&fake_table));
        }
        result''','''        let mut subdag = self.clone();
        let _ = subdag.tree_shake(index);
        subdag.init(0);
        let fake_table = TraceTable::new(0, 0);
        (0..node.period).map(|_| subdag.next(&fake_table)).collect()''')]),
('ad-next-row',[(AD,'''        if self.row % CHUNK_SIZE > 0 {
            let result = self.nodes.last().unwrap().values[self.row % CHUNK_SIZE].clone();
            self.row += 1;
            return result;
        }''','''        let lane = self.row % CHUNK_SIZE;
        if lane != 0 {
            self.row += 1;
            return self.nodes.last().unwrap().values[lane].clone();
        }''')]),
('ad-next-itermut',[(AD,'''                Add(a, b) => {
                    let a = &previous[a.0].values;
                    let b = &previous[b.0].values;
                    for i in 0..CHUNK_SIZE {
                        values[i] = &a[i] + &b[i]
                    }
                }''','''                Add(a, b) => {
                    let a = &previous[a.0].values;
                    let b = &previous[b.0].values;
                    for (value, (a, b)) in values.iter_mut().zip(a.iter().zip(b.iter())) {
                        *value = a + b;
                    }
                }''')]),
('ad-init-coset',[(AD,'''                    let mut acc = c.clone();
                    acc *= root.pow(self.row);
                    for i in 0..CHUNK_SIZE {
                        values[i] = acc.clone();
                        acc *= &root;
                    }''','''                    let mut acc = &*c * root.pow(self.row);
                    for value in values.iter_mut() {
                        *value = acc.clone();
                        acc *= &root;
                    }''')]),
('ad-shake-zip',[(AD,'''        for i in 0..self.nodes.len() {
            if used[i] {
                numbers[i] = Index(counter);
                counter += 1;
            }
        }''','''        for (number, is_used) in numbers.iter_mut().zip(used.iter()) {
            if *is_used {
                *number = Index(counter);
                counter += 1;
            }
        }''')]),
('ad-simplify-if',[(AD,'''                    Coset(b, o) if o % e == 0 => Coset(b.pow(e), o / e),''','''                    Coset(b, o) if *o == (o / e) * e => Coset(b.pow(e), o / e),''')]),
('ad-trace-hoist',[(AD,'''                    for i in 0..CHUNK_SIZE {
                        // Sizes are small enough
                        #[allow(clippy::cast_possible_wrap)]
                        let trace_blowup = self.trace_blowup as isize;
                        // Sizes are small enough
                        #[allow(clippy::cast_possible_wrap)]
                        let row = (self.row + i) as isize;
                        let row = (n + row + trace_blowup * *o) % n;''','''                    // Sizes are small enough
                    #[allow(clippy::cast_possible_wrap)]
                    let offset = self.trace_blowup as isize * *o;
                    for i in 0..CHUNK_SIZE {
                        // Sizes are small enough
                        #[allow(clippy::cast_possible_wrap)]
                        let row = (self.row + i) as isize;
                        let row = (row + offset + n) % n;''')]),
('cc-find',[(CC,'''        for (which, expression) in constraints.expressions().iter().enumerate() {
            if !expression.check(&current_root, &trace).1 {
                return Err((row, which));
            }
        }''','''        let failed = constraints
            .expressions()
            .iter()
            .position(|expression| !expression.check(&current_root, &trace).1);
        if let Some(which) = failed {
            return Err((row, which));
        }''')]),
('cc-rem',[(CC,'''            } else {
                let j: usize = j.abs().try_into().unwrap();
                if row < j {
                    table[(len + row - j, i)].clone()
                } else {
                    table[(row - j, i)].clone()
                }
            }
        };
        for''','''            } else {
                let j: usize = j.abs().try_into().unwrap();
                let source = if j <= row { row - j } else { row + len - j };
                table[(source, i)].clone()
            }
        };
        for''')]),
('ix-offset-xor',[(IX,'self.0 - (1_usize << self.depth())','self.0 ^ (1_usize << self.depth())')]),
('ix-depth-bits',[(IX,'(0_usize.count_zeros() - self.0.leading_zeros() - 1) as usize','USIZE_BITS - 1 - self.0.leading_zeros() as usize')]),
('ix-isright',[(IX,'self.0 != 1 && self.0 % 2 == 1','!self.is_root() && !self.is_left()')]),
('ix-children',[(IX,'''        Self((self.0 << 1) | 1)''','''        Self(self.left_child().0 + 1)'''),(IX,'Self(self.0 << 1)','Self(self.0 * 2)')]),
('ix-parent-then',[(IX,'''        if self.is_root() {
            None
        } else {
            Some(Self(self.0 >> 1))
        }''','''        if self.0 > 1 {
            Some(Self(self.0 / 2))
        } else {
            None
        }''')]),
('ix-layer-iter',[(IX,'''        if self.offset < self.size {
            let item = Index::from_size_offset(self.size, self.offset).unwrap();
            self.offset += 1;
            Some(item)
        } else {
            None
        }''','''        if self.offset >= self.size {
            return None;
        }
        let offset = self.offset;
        self.offset = offset + 1;
        Some(Index::from_size_offset(self.size, offset).unwrap())''')]),
('pf-pow-early',[(PF,'''        if let Some(msb) = exponent.most_significant_bit() {
            let mut result = Self::Output::one();
            let mut square = self.clone();
            for i in 0..=msb {
                if exponent.bit(i) {
                    result *= &square;
                }
                if i < msb {
                    square.square_assign();
                }
            }
            result
        } else {
            // exponent = 0
            Self::Output::one()
        }''','''        let mut result = Self::Output::one();
        if let Some(msb) = exponent.most_significant_bit() {
            let mut square = self.clone();
            for i in 0..=msb {
                if i > 0 {
                    square.square_assign();
                }
                if exponent.bit(i) {
                    result *= &square;
                }
            }
        }
        result''')]),
('pf-pow-isize',[(PF,'''        let negative = exponent < 0;
        let abs = exponent.abs() as usize;
        if negative {
            self.inv().map(|n| n.pow(&abs))
        } else {
            Some(self.pow(&abs))
        }''','''        let abs = exponent.abs() as usize;
        if exponent >= 0 {
            return Some(self.pow(&abs));
        }
        match self.inv() {
            Some(inverse) => Some(inverse.pow(&abs)),
            None => None,
        }''')]),
('pf-root-match',[(PF,'''        let order = order as u64;
        if let Some((q, rem)) = Self::order().div_rem(order) {
            if rem.is_zero() {
                Some(Self::generator().pow(&q))
            } else {
                None
            }
        } else {
            Some(Self::one())
        }''','''        match Self::order().div_rem(order as u64) {
            Some((q, 0)) => Some(Self::generator().pow(&q)),
            Some(_) => None,
            None => Some(Self::one()),
        }''')]),
('pf-sub-else',[(PF,'''        let borrow = rhs > lhs;
        let mut result = lhs.sub_inline(rhs);
        if borrow {
            result.add_assign_inline(&Self::modulus());
        }
        Self::from_montgomery(result)''','''        let difference = lhs.sub_inline(rhs);
        Self::from_montgomery(if lhs < rhs {
            difference.add_inline(&Self::modulus())
        } else {
            difference
        })''')]),
('pf-double',[(PF,'''        // TODO: Optimize
        self.clone() + self
    }

    #[inline(always)]
    pub fn triple(&self) -> Self {
        // TODO: Optimize
        self.clone() + self + self''','''        // TODO: Optimize
        self.add_inline(self)
    }

    #[inline(always)]
    pub fn triple(&self) -> Self {
        // TODO: Optimize
        self.double() + self''')]),
('al-null-early',[(AL,'''        let result = System.alloc(layout);
        if !result.is_null() {
            // TODO: We are doing a lot of atomic operations here, what is
            // the performance impact?
            let allocated = self.allocated.fetch_add(layout.size(), Relaxed);
            let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
            let _ = self.num_allocations.fetch_add(1, Relaxed);
            // HACK: Using `allocated` here again is not completely fool proof
            let _ = fetch_max(&self.peak_allocated, allocated + layout.size());
            let _ = fetch_max(&self.largest_allocated, layout.size());
        }
        result''','''        let result = System.alloc(layout);
        if result.is_null() {
            return result;
        }
        self.record(layout.size());
        result'''),(AL,'''    pub fn log_statistics(&self) {''','''    fn record(&self, size: usize) {
        // TODO: We are doing a lot of atomic operations here, what is
        // the performance impact?
        let _ = self.num_allocations.fetch_add(1, Relaxed);
        let _ = self.total_allocated.fetch_add(size, Relaxed);
        let allocated = size + self.allocated.fetch_add(size, Relaxed);
        // HACK: Using `allocated` here again is not completely fool proof
        let _ = fetch_max(&self.largest_allocated, size);
        let _ = fetch_max(&self.peak_allocated, allocated);
    }

    pub fn log_statistics(&self) {''')]),
('al-fetchmax-loop',[(AL,'''    while prev < value {
        match atom.compare_exchange_weak(prev, value, Relaxed, Relaxed) {
            Ok(_) => return value,
            Err(next_prev) => prev = next_prev,
        }
    }
    prev''','''    loop {
        if prev >= value {
            return prev;
        }
        match atom.compare_exchange_weak(prev, value, Relaxed, Relaxed) {
            Ok(_) => return value,
            Err(next_prev) => prev = next_prev,
        }
    }''')]),
('mp-verify-parent-match',[(MP,'''        let mut pop = move || hashes_iter.next().ok_or(Error::NotEnoughHashes);''','''        let mut pop = move || match hashes_iter.next() {
            Some(hash) => Ok(hash),
            None => Err(Error::NotEnoughHashes),
        };'''),(MP,'''                require!(hash == *self.commitment.hash(), Error::RootHashMismatch);''','''                if hash != *self.commitment.hash() {
                    return Err(Error::RootHashMismatch);
                }''')]),
('mp-from-reorder',[(MP,'''        let _ = commitment.sort_indices(indices)?;
        require!(
            hashes.len() == commitment.proof_size(indices)?,
            Error::NotEnoughHashes
        );
        Ok(Self {''','''        let _ = commitment.sort_indices(indices)?;
        let expected = commitment.proof_size(indices)?;
        if hashes.len() != expected {
            return Err(Error::NotEnoughHashes);
        }
        Ok(Self {''')]),
('ha-match',[(HA,'''        if self.len() == 1 {
            // For a single element, return its hash.
            self[0].hash()
        } else {
            // Concatenate the element hashes and hash the result.
            let mut hasher = MaskedKeccak::new();
            for value in self.iter() {
                hasher.update(value.hash().as_bytes());
            }
            hasher.hash()
        }''','''        // For a single element, return its hash.
        if let [single] = self {
            return single.hash();
        }
        // Concatenate the element hashes and hash the result.
        let mut hasher = MaskedKeccak::new();
        self.iter()
            .for_each(|value| hasher.update(value.hash().as_bytes()));
        hasher.hash()''')]),
('fo-ceil',[(FO,'''    if numerator == 0 {
        0
    } else {
        1 + (numerator - 1) / denominator
    }''','''    let quotient = numerator / denominator;
    if numerator % denominator == 0 {
        quotient
    } else {
        quotient + 1
    }''')]),
('fo-iflet',[(FO,'''                    match node {
                        Trace(column, row_offset) => {
                            let column_offset = permute_index(reduction, column % reduction);
                            // Reductions should be small enough
                            #[allow(clippy::cast_possible_wrap)]
                            Trace(
                                column / reduction,
                                (reduction as isize) * row_offset + (column_offset as isize),
                            )
                        }
                        other => other,
                    }''','''                    if let Trace(column, row_offset) = node {
                        let column_offset = permute_index(reduction, column % reduction) as isize;
                        let offset = row_offset * (reduction as isize);
                        Trace(column / reduction, column_offset + offset)
                    } else {
                        node
                    }''')]),
('cm-system-helper',[(CM,'''        let polynomials = self.num_polynomials();
        let size = self.polynomial_size();
        let claim = self.claim(witness);
        let channel_seed = Vec::new();
        let expressions = self.constraints(&claim);
        let trace = self.trace_table(witness);
        let constraints =
            Constraints::from_expressions((size, polynomials), channel_seed, expressions).unwrap();
        prove(&constraints, &trace)''','''        let constraints = constraint_system(self, &self.claim(witness));
        prove(&constraints, &self.trace_table(witness))'''),(CM,'''        let polynomials = self.num_polynomials();
        let size = self.polynomial_size();
        let channel_seed = Vec::new();
        let expressions = self.constraints(claim);
        let constraints =
            Constraints::from_expressions((size, polynomials), channel_seed, expressions).unwrap();
        verify(&constraints, proof)''','''        verify(&constraint_system(self, claim), proof)'''),(CM,'''pub trait Component {''','''fn constraint_system<C: Component + ?Sized>(component: &C, claim: &C::Claim) -> Constraints {
    let expressions = component.constraints(claim);
    let dimensions = (component.polynomial_size(), component.num_polynomials());
    Constraints::from_expressions(dimensions, Vec::new(), expressions).unwrap()
}

pub trait Component {''')]),
('au-full-loop',[(AU,'''        let (c0, carry) = adc(self.limb(0), rhs.limb(0), 0);
        let (c1, carry) = adc(self.limb(1), rhs.limb(1), carry);
        let (c2, carry) = adc(self.limb(2), rhs.limb(2), carry);
        let (c3, carry) = adc(self.limb(3), rhs.limb(3), carry);
        (Self::from_limbs([c0, c1, c2, c3]), carry)''','''        let mut limbs = [0_u64; 4];
        let mut carry = 0;
        for i in 0..4 {
            let (sum, next) = adc(self.limb(i), rhs.limb(i), carry);
            limbs[i] = sum;
            carry = next;
        }
        (Self::from_limbs(limbs), carry)''')]),
('mu-u64-loop',[(MU,'''        let (r0, carry) = mac(0, self.limb(0), rhs, 0);
        let (r1, carry) = mac(0, self.limb(1), rhs, carry);
        let (r2, carry) = mac(0, self.limb(2), rhs, carry);
        let (r3, carry) = mac(0, self.limb(3), rhs, carry);
        (Self::from_limbs([r0, r1, r2, r3]), carry)''','''        let mut limbs = [0_u64; 4];
        let mut carry = 0;
        for (limb, result) in self.as_limbs().iter().zip(limbs.iter_mut()) {
            let (low, high) = mac(0, *limb, rhs, carry);
            *result = low;
            carry = high;
        }
        (Self::from_limbs(limbs), carry)''')]),
('mu-square-mul',[(MU,'''    fn square_inline(&self) -> Self {
        self.square_full_inline().0''','''    fn square_inline(&self) -> Self {
        let (low, _high) = self.square_full_inline();
        low''')]),
]
