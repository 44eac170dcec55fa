EC='algebra/elliptic-curve/src/'; PF='algebra/primefield/src/'; U='algebra/u256/src/'; ST='crypto/stark/src/'
EDITS=[
('invbatch-index',[(PF+'invert_batch.rs','''    for (src, dst) in source.iter().zip(destination.iter_mut()) {
        *dst = accumulator.clone();
        accumulator *= &*src;
    }
''','''    for i in 0..source.len() {
        destination[i] = accumulator.clone();
        accumulator *= &source[i];
    }
''')]),
('invbatch-index-rev',[(PF+'invert_batch.rs','''    for (src, dst) in source.iter().zip(destination.iter_mut()).rev() {
        *dst *= &accumulator;
        accumulator *= &*src;
    }
''','''    for i in (0..source.len()).rev() {
        destination[i] *= &accumulator;
        accumulator *= &source[i];
    }
''')]),
('invbatch-vec-clone',[(PF+'invert_batch.rs','''    let mut result = vec![Field::zero(); source.len()];
''','''    let mut result = source.to_vec();
''')]),
('jac-double-eq',[(EC+'jacobian.rs','''        if self.y.is_zero() {
            *self = Self::ZERO;
            return;
        }
''','''        if self.y == FieldElement::zero() {
            *self = Self::ZERO;
            return;
        }
''')]),
('jac-double-order',[(EC+'jacobian.rs','''        let zz = self.z.square();
        let s = ((&self.x + &yy).square() - &xx - &yyyy).double();
        let m = xx.triple() + /* ALPHA * */ zz.square();
        self.z = (&self.y + &self.z).square() - yy - zz;
        self.x = m.square() - s.double();
''','''        let zz = self.z.square();
        let m = xx.triple() + /* ALPHA * */ zz.square();
        let s = (&self.x * &yy).double().double();
        self.z = (&self.y * &self.z).double();
        self.x = m.square() - s.double();
''')]),
('jac-from-iflet',[(EC+'jacobian.rs','''        match other.z.inv() {
            None => Self::ZERO,
            Some(zi) => {
                let zi2 = zi.square();
                let zi3 = zi * &zi2;
                Self::Point {
                    x: &other.x * zi2,
                    y: &other.y * zi3,
                }
            }
        }
''','''        if let Some(zi) = other.z.inv() {
            let zi2 = &zi * &zi;
            let zi3 = &zi2 * &zi;
            return Self::Point {
                x: &other.x * zi2,
                y: &other.y * zi3,
            };
        }
        Self::ZERO
''')]),
('jac-add-branch',[(EC+'jacobian.rs','''        if u1 == u2 {
            return if s1 == s2 {
                self.double_assign();
            } else {
                *self = Self::ZERO;
            };
        }
        let h = u2 - &u1;
''','''        if u1 == u2 && s1 == s2 {
            self.double_assign();
            return;
        }
        if u1 == u2 {
            *self = Self::ZERO;
            return;
        }
        let h = u2 - &u1;
''')]),
('wnaf-table-prev',[(EC+'wnaf.rs','''    naf[0] = p.clone();
    let p2 = naf[0].double();
    for i in 1..naf.len() {
        naf[i] = &naf[i - 1] + &p2;
    }
}
''','''    naf[0] = p.clone();
    let p2 = p.double();
    for i in 0..naf.len() - 1 {
        naf[i + 1] = &naf[i] + &p2;
    }
}
''')]),
('wnaf-naf-if',[(EC+'wnaf.rs','''        match scalar.trailing_zeros() {
            0 => {}
            256 => break,
            shift => {
                scalar >>= shift;
                i += shift;
            }
        }
''','''        let shift = scalar.trailing_zeros();
        if shift == 256 {
            break;
        }
        scalar >>= shift;
        i += shift;
''')]),
('wnaf-mul-local',[(EC+'wnaf.rs','''        r.double_assign();
        if snaf_expansion[i] > 0 {
            r += &naf_table[(snaf_expansion[i] >> 1) as usize];
        } else if snaf_expansion[i] < 0 {
            r -= &naf_table[(-snaf_expansion[i] >> 1) as usize];
        }
    }
    r
}

''','''        r.double_assign();
        let digit = snaf_expansion[i];
        if digit == 0 {
            continue;
        }
        if digit > 0 {
            r += &naf_table[(digit >> 1) as usize];
        } else {
            r -= &naf_table[(-digit >> 1) as usize];
        }
    }
    r
}

''')]),
('curve-double-sq',[(EC+'curve.rs','''                    let m = ((x + x + x) * x + FieldElement::one()) / (y + y);
                    let nx = &m * &m - x - x;
''','''                    let three_x = x + x + x;
                    let m = (three_x * x + FieldElement::one()) / (y + y);
                    let nx = &m * &m - (x + x);
''')]),
('curve-mul-iter',[(EC+'curve.rs','''                if let Some(position) = bits.most_significant_bit() {
                    let mut r = self.clone();
                    for i in (0..position).rev() {
                        r.double_assign();
                        if bits.bit(i) {
                            r += self;
                        }
                    }
                    r
                } else {
                    $type::ZERO
                }
''','''                match bits.most_significant_bit() {
                    None => $type::ZERO,
                    Some(position) => {
                        let mut r = self.clone();
                        let mut i = position;
                        while i > 0 {
                            i -= 1;
                            r.double_assign();
                            if bits.bit(i) {
                                r += self;
                            }
                        }
                        r
                    }
                }
''')]),
('curve-add-match',[(EC+'curve.rs','''                        if ax == bx {
                            if ay == by {
                                self.double_assign()
                            } else {
                                *self = Self::Zero
                            }
                        } else {
                            let m = (&*ay - by) / (&*ax - bx);
                            let x = &m * &m - &*ax - &*bx;
                            *ay = m * (&*ax - &x) - &*ay;
                            *ax = x;
                        }
''','''                        if ax != bx {
                            let m = (by - &*ay) / (bx - &*ax);
                            let x = &m * &m - &*ax - &*bx;
                            *ay = m * (&*ax - &x) - &*ay;
                            *ax = x;
                        } else if ay == by {
                            self.double_assign()
                        } else {
                            *self = Self::Zero
                        }
''')]),
('u256-divrem-fold',[(U+'division.rs','''            let (q3, r) = div_2_1(self.limb(3), 0, rhs);
            let (q2, r) = div_2_1(self.limb(2), r, rhs);
            let (q1, r) = div_2_1(self.limb(1), r, rhs);
            let (q0, r) = div_2_1(self.limb(0), r, rhs);
            Some((Self::from_limbs([q0, q1, q2, q3]), r))
''','''            let mut q = [0_u64; 4];
            let mut r = 0;
            for i in (0..4).rev() {
                let (qi, ri) = div_2_1(self.limb(i), r, rhs);
                q[i] = qi;
                r = ri;
            }
            Some((Self::from_limbs(q), r))
''')]),
('u256-divrem-early',[(U+'division.rs','''        let mut numerator = [self.limb(0), self.limb(1), self.limb(2), self.limb(3), 0];
        if rhs.limb(3) > 0 {
''','''        if rhs == &Self::ZERO {
            return None;
        }
        let mut numerator = [self.limb(0), self.limb(1), self.limb(2), self.limb(3), 0];
        if rhs.limb(3) > 0 {
''')]),
('knuth-nby1-iter',[(U+'arch/generic/knuth_division.rs','''    for i in (0..numerator.len()).rev() {
        let (ni, ri) = divrem_2by1(numerator[i], remainder, divisor);
        numerator[i] = ni;
        remainder = ri;
    }
    remainder
''','''    for limb in numerator.iter_mut().rev() {
        let (ni, ri) = divrem_2by1(*limb, remainder, divisor);
        *limb = ni;
        remainder = ri;
    }
    remainder
''')]),
('knuth-2by1-rem',[(U+'arch/generic/knuth_division.rs','''    let r = n % d;
    debug_assert!(q < val_2(0, 1));
''','''    let r = n - q * d;
    debug_assert!(q < val_2(0, 1));
''')]),
('enc-decimal-chars',[(U+'encoding.rs','''            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
            if &result + &digit < result {
                return Err(ParseError::Overflow);
            }
            result += digit;
''','''            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
            let sum = &result + &digit;
            if sum < result {
                return Err(ParseError::Overflow);
            }
            result = sum;
''')]),
('enc-todecimal-loop',[(U+'encoding.rs','''        while copy > Self::ZERO {
            // OPT: Convert 19 digits at a time using u64.
            let digit = (&copy % Self::from(10_u64)).limb(0);
            result.push_str(&digit.to_string());
            copy /= Self::from(10_u64);
        }
''','''        let ten = Self::from(10_u64);
        while copy != Self::ZERO {
            // OPT: Convert 19 digits at a time using u64.
            let digit = (&copy % &ten).limb(0);
            copy /= &ten;
            result.push_str(&digit.to_string());
        }
''')]),
('fft-ifft-foreach',[(PF+'fft/mod.rs','''        self.fft_root(&inverse_root);
        trace!("BEGIN Inverse shift");
        for e in self.iter_mut() {
            *e *= &inverse_length;
        }
''','''        self.fft_root(&inverse_root);
        trace!("BEGIN Inverse shift");
        self.iter_mut().for_each(|e| *e *= &inverse_length);
''')]),
('fft-cofactor-pow',[(PF+'fft/mod.rs','''        let mut c = Field::one();
        for element in self.iter_mut() {
            *element *= &c;
            c *= cofactor;
        }
        trace!("END Cofactor shift");
        self.fft();
''','''        for (i, element) in self.iter_mut().enumerate() {
            *element *= cofactor.pow(i);
        }
        trace!("END Cofactor shift");
        self.fft();
''')]),
('fft-clone-shifted-index',[(PF+'fft/mod.rs','''            let mut c = cofactor.pow(i * chunk_size);
            for (destination, source) in destination.iter_mut().zip(source.iter()) {
                *destination = source * &c;
                c *= cofactor;
            }
''','''            let mut c = cofactor.pow(i * chunk_size);
            let n = core::cmp::min(destination.len(), source.len());
            for j in 0..n {
                destination[j] = &source[j] * &c;
                c *= cofactor;
            }
''')]),
('fft-root-helper',[(PF+'fft/mod.rs','''            let twiddles = get_twiddles(root, self.len());
            trace!("Recursive FFT of size {}", self.len());
            fft_vec_recursive(self, &twiddles, 0, 1, 1);
        }
    }
}
''','''            small_fft(self, root);
        }
    }
}

fn small_fft<Field>(values: &mut [Field], root: &Field)
where
    Field: FieldLike + From<usize> + Send + Sync,
    for<'a> &'a Field: RefFieldLike<Field>,
{
    let size = values.len();
    let twiddles = get_twiddles(root, size);
    fft_vec_recursive(values, &twiddles, 0, 1, 1);
}
''')]),
('fft-twiddles-loop',[(PF+'fft/mod.rs','''    let mut twiddles = (0..size / 2).map(|i| root.pow(i)).collect::<Vec<_>>();
    permute''','''    let mut twiddles = Vec::with_capacity(size / 2);
    let mut power = Field::one();
    for _ in 0..size / 2 {
        twiddles.push(power.clone());
        power *= root;
    }
    permute''')]),
('fft-rec-while',[(PF+'fft/recursive.rs','''        for i in offset..offset + count {
            radix_2(values, i, stride);
        }
''','''        let mut i = offset;
        while i < offset + count {
            radix_2(values, i, stride);
            i += 1;
        }
''')]),
('fft-rec-else',[(PF+'fft/recursive.rs','''        if stride == count && count < max_loop {
            fft_vec_recursive(values, twiddles, offset, 2 * count, 2 * stride);
        } else {
            // TODO: We could do parallel recursion here, if we had a way to
            // do a strided split. (Like the ndarray package provides)
            fft_vec_recursive(values, twiddles, offset, count, 2 * stride);
            fft_vec_recursive(values, twiddles, offset + stride, count, 2 * stride);
        }
''','''        let double = 2 * stride;
        if stride != count || count >= max_loop {
            fft_vec_recursive(values, twiddles, offset, count, double);
            fft_vec_recursive(values, twiddles, offset + stride, count, double);
        } else {
            fft_vec_recursive(values, twiddles, offset, 2 * count, double);
        }
''')]),
('fft-sqrt-early',[(PF+'fft/radix_sqrt.rs','''            if i > 0 {
                let i = permute_index(inner, i);
                let inner_twiddle = root.pow(i);
                let mut outer_twiddle = inner_twiddle.clone();
                for element in row.iter_mut().skip(1) {
                    *element *= &outer_twiddle;
                    outer_twiddle *= &inner_twiddle;
                }
            }
''','''            if i != 0 {
                let inner_twiddle = root.pow(permute_index(inner, i));
                let mut outer_twiddle = inner_twiddle.clone();
                for j in 1..row.len() {
                    row[j] *= &outer_twiddle;
                    outer_twiddle *= &inner_twiddle;
                }
            }
''')]),
('geo-stepby',[(PF+'geometric_series.rs','''        let partial = self.length % step != 0;
        self.length = self.length / step + if partial { 1 } else { 0 };
''','''        let whole = self.length / step;
        self.length = if self.length % step == 0 { whole } else { whole + 1 };
''')]),
('geo-next-match',[(PF+'geometric_series.rs','''        if self.length == 0 {
            None
        } else {
            // OPT: Make clone free and return reference.
            let item = self.current.clone();
            self.current *= &self.step;
            self.length -= 1;
            Some(item)
        }
''','''        if self.length > 0 {
            self.length -= 1;
            let next = &self.current * &self.step;
            return Some(std::mem::replace(&mut self.current, next));
        }
        None
''')]),
('poly-degree-rposition',[(ST+'polynomial.rs','''        let mut degree = self.len() - 1;
        while self.0[degree] == FieldElement::zero() && degree > 0 {
            degree -= 1;
        }
        degree
''','''        let mut degree = self.len() - 1;
        while degree > 0 && self.0[degree].is_zero() {
            degree -= 1;
        }
        degree
''')]),
('poly-eval-fold',[(ST+'polynomial.rs','''        let mut result = FieldElement::zero();
        for coefficient in self.0.iter().rev() {
            result *= x;
            result += coefficient;
        }
        result
''','''        self.0
            .iter()
            .rev()
            .fold(FieldElement::zero(), |acc, coefficient| acc * x + coefficient)
''')]),
('poly-divide-index',[(ST+'polynomial.rs','''        for (coefficient, target) in self.0.iter().rev().zip(target.0.iter_mut().rev()) {
            *target += c * &remainder;
            remainder *= z;
            remainder += coefficient;
        }
''','''        for (coefficient, target) in self.0.iter().rev().zip(target.0.iter_mut().rev()) {
            *target += &remainder * c;
            remainder = &remainder * z + coefficient;
        }
''')]),
('poly-lde-for',[(ST+'polynomial.rs','''            .enumerate()
            .for_each(|(i, slice)| {
                let cofactor = &shift_factor * generator.pow(permute_index(blowup, i));
                slice.clone_shifted(&self.coefficients(), &cofactor);
                slice.fft();
            });
''','''            .enumerate()
            .for_each(|(i, slice)| {
                let exponent = permute_index(blowup, i);
                let cofactor = generator.pow(exponent) * &shift_factor;
                slice.clone_shifted(self.coefficients(), &cofactor);
                slice.fft();
            });
''')]),
('trace-column-collect',[(ST+'trace_table.rs','''        for v in self.iter_column(j) {
            result.push(v.clone());
        }
        result
''','''        for i in 0..self.trace_length {
            result.push(self[(i, j)].clone());
        }
        result
''')]),
('trace-interp-reuse',[(ST+'trace_table.rs','''                let mut vec = MmapVec::with_capacity(self.num_rows());
                for v in self.iter_column(j) {
                    vec.push(v.clone());
                }
''','''                let mut vec = self.column_to_mmapvec(j);
''')]),
('trace-index-offset',[(ST+'trace_table.rs','''        assert!(i < self.trace_length);
        &self.values[i * self.num_columns..(i + 1) * self.num_columns]
''','''        assert!(i < self.trace_length);
        let start = i * self.num_columns;
        &self.values[start..start + self.num_columns]
''')]),
]
