"""Rules of single properties that do not compare value graphs: constants, unsafe census, ambient sources, errors."""
import re, collections
# each rule: (facts, tier) -> (violations [(key, where, message)], coverage, notes)

def _lib(F):
    for n, b in sorted(F.bodies.items()):
        if b.crate.startswith('zkp') and b.crate != 'zkp_witness' and b.file: yield n, b
def _where(b): return f'{b.file} fn {short(b.path)}'
def short(p): return re.sub(r'\b(?:[a-z_0-9]+::)+(?=[A-Z])', '', p)

# ---------------------------------------------------------------- P09
def _const(v):
    """evaluated constant -> int, or tuple of ints for structs of them"""
    if 'u' in v: return int(v['u'])
    if 'arr' in v: return sum(int(x['u']) << (64 * i) for i, x in enumerate(v['arr']))
    if 'adt' in v:
        fs = [_const(x) for x in v['f']]
        fs = [x for x in fs if x is not None]
        return fs[0] if len(fs) == 1 else (tuple(fs) if fs else None)
    return None
def _prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def _factor(n):
    """prime factors by trial division and Pollard rho"""
    out = set(); st = [n]
    while st:
        n = st.pop()
        if n == 1: continue
        if _prime(n): out.add(n); continue
        for p in range(2, 2000):
            if n % p == 0: out.add(p); st.append(n // p); break
        else:
            c = 1
            while True:
                x = y = 2; d = 1
                f = lambda z: (z * z + c) % n
                while d == 1:
                    x = f(x); y = f(f(y)); d = _gcd(abs(x - y), n)
                if d != n: st += [d, n // d]; break
                c += 1
    return out
def _gcd(a, b):
    while b: a, b = b, a % b
    return a
# prime factors of (scalar modulus - 1) besides the small ones; checked, never trusted
HINT = [2, 3, 0x16996f, 0x046fcf43, 0x03677abc4eb30ccc5c90ee8268a99c0bbc3cf562d68c5c461f11]
def _factors(n):
    out = set()
    for h in HINT:
        while n % h == 0 and _prime(h): out.add(h); n //= h
    if n > 1: out |= _factor(n)
    return out
def P09(F, tier):
    v = []; notes = []; C = {}
    for n, b in F.bodies.items():
        m = re.match(r'zkp_witness::const_(\w+)$', n)
        if m:
            st = [s for bl in b.blocks for s in bl['s'] if s[0] == '=' and s[1] == [0]]
            if len(st) == 1 and st[0][2][0] == 'use' and st[0][2][1][0] == 'k': C[m.group(1)] = _const(st[0][2][1][2])
    need = [f'{f}_{k}' for f in ('base', 'scalar') for k in ('modulus', 'm64', 'r1', 'r2', 'r3', 'generator', 'order')] + ['curve_beta', 'curve_generator', 'u256_zero', 'u256_one', 'u256_max']
    W = {'base': 'algebra/primefield/src/proth_field.rs impl Parameters for Proth', 'scalar': 'algebra/elliptic-curve/src/scalar_field.rs impl Parameters for Order', 'curve': 'algebra/elliptic-curve/src/lib.rs', 'u256': 'algebra/u256/src/u256.rs'}
    miss = [k for k in need if C.get(k) is None]
    if miss: v.append(('constants#missing', 'the constants', 'not found or not constant: ' + ', '.join(miss))); return v, {'constants': len(C)}, notes
    n = [0]
    def eq(key, ok, msg):
        n[0] += 1
        if not ok: v.append(('constants#' + key, W[key.split('_')[0]] + ' const ' + key.split('_', 1)[1].upper(), msg))
    B = 1 << 256
    for f in ('base', 'scalar'):
        p = C[f + '_modulus']
        eq(f + '_modulus', _prime(p) and p % 2 == 1 and p < B, f'the modulus {p:#x} is not an odd prime below 2^256')
        if v: continue
        eq(f + '_m64', (C[f + '_m64'] * p + 1) % (1 << 64) == 0, 'M64 is not -MODULUS^(-1) mod 2^64')
        for i in (1, 2, 3):
            eq(f'{f}_r{i}', C[f'{f}_r{i}'] == pow(B, i, p), f'R{i} is not 2^{256 * i} mod MODULUS (canonical)')
        eq(f + '_order', C[f + '_order'] == p - 1, 'ORDER is not MODULUS - 1')
        g = C[f + '_generator']
        eq(f + '_generator', 0 < g < p and all(pow(g * pow(B, -1, p), (p - 1) // q, p) != 1 for q in _factors(p - 1)), 'GENERATOR (in Montgomery form) does not generate the multiplicative group, or is not canonical')
    if not v:
        p, r = C['base_modulus'], C['scalar_modulus']
        Ri = pow(B, -1, p)
        bm = C['curve_beta']; gx, gy = C['curve_generator']
        eq('curve_beta', bm < p, 'BETA is not canonical')
        eq('curve_generator', gx < p and gy < p, 'GENERATOR coordinates are not canonical')
        b = bm * Ri % p; x = gx * Ri % p; y = gy * Ri % p
        eq('curve_generator', (y * y - x ** 3 - x - b) % p == 0, 'GENERATOR does not satisfy y^2 = x^3 + x + BETA')
        eq('curve_beta', (4 + 27 * b * b) % p != 0, 'the curve is singular')
        def add(P, Q):
            if P is None: return Q
            if Q is None: return P
            if P[0] == Q[0]:
                if (P[1] + Q[1]) % p == 0: return None
                m = (3 * P[0] ** 2 + 1) * pow(2 * P[1], -1, p) % p
            else: m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
            X = (m * m - P[0] - Q[0]) % p
            return X, (m * (P[0] - X) - P[1]) % p
        if not v:
            k, A, P = r, None, (x, y)
            while k:
                if k & 1: A = add(A, P)
                P = add(P, P); k >>= 1
            eq('curve_generator', A is None, 'GENERATOR does not have the order of the scalar field')
            eq('curve_generator', abs(p + 1 - r) <= 2 * _isqrt(p) + 1, 'the scalar modulus is outside the Hasse interval')
    eq('u256_zero', C['u256_zero'] == 0, 'U256::ZERO'); eq('u256_one', C['u256_one'] == 1, 'U256::ONE'); eq('u256_max', C['u256_max'] == B - 1, 'U256::MAX')
    return v, {'constants': len(C), 'equations': n[0]}, notes
def _isqrt(n):
    import math; return math.isqrt(n)

# ---------------------------------------------------------------- P25
# where an unsafe operation may occur: (file, operation), with the condition that makes it defined
UNSAFE_OK = [
 (r'algebra/primefield/src/fft/prefetch\.rs', r'call core::core_arch::x86::.*_mm_prefetch', 'a prefetch has no precondition'),
 (r'utils/mmap-vec/src/mmap_vec\.rs', r'call core::slice::raw::from_raw_parts(_mut)?', 'length <= capacity is kept by every method (P24 graphs)'),
 (r'utils/mmap-vec/src/mmap_vec\.rs', r'call core::ptr::drop_in_place', 'the dropped tail is inside the old length'),
 (r'crypto/stark/src/polynomial\.rs', r'call zkp_mmap_vec::mmap_vec::MmapVec::<T>::zero_initialized', 'field elements may be all zero bits'),
 (r'utils/logging-allocator/src/', r'call core::alloc::', 'forwards the caller\'s contract to the system allocator'),
 (r'', r"call core::fmt::(rt::)?Arguments::<'a>::new", 'generated by the formatting macros'),
]
UNSAFE_OK = [(re.compile(a), re.compile(b), c) for a, b, c in UNSAFE_OK]
def unsafe_ops(b):
    """unsafe operations of one body: list of (operation, line)"""
    out = []
    boxy = set()
    for bl in b.blocks:
        for st in bl['s']:
            if st[0] == '=' and st[2][0] == 'cast' and len(st[1]) == 1:
                src = st[2][2]
                if st[2][1] == 'BoxDerefTransmute' or (st[2][1] == 'Transmute' and b.locals[st[1][0]].k == 'ptr'): boxy.add(st[1][0])
    def place(p, line):
        if len(p) > 1 and p[1] == '*' and b.locals[p[0]].k == 'ptr' and p[0] not in boxy: out.append(('dereference of a raw pointer', line))
    def walk(x, line):
        if isinstance(x, list):
            if x and isinstance(x[0], int) and len(x) > 1 and x[1] == '*': place(x, line)
            for y in x: walk(y, line)
    for bl in b.blocks:
        for st in bl['s']:
            if st[0] != '=': continue
            if st[2][0] == 'addr' : pass
            walk(st[1], st[-1]); walk(st[2], st[-1])
            if st[2][0] == 'cast' and st[2][1] == 'Transmute' and st[1][0] not in boxy: out.append(('transmute', st[-1]))
        t = bl['t']
        if t[0] == 'call':
            if t[1][0] == 'fn' and t[1][1].get('us'): out.append(('call ' + t[1][1]['p'], t[-1]))
        elif t[0] == 'asm': out.append(('inline assembly', t[-1] if isinstance(t[-1], int) else 0))
    return out
def P25(F, tier):
    v = []; sites = 0; fns = 0; allowed = collections.Counter()
    for n, b in _lib(F):
        fns += 1
        for op, line in unsafe_ops(b):
            sites += 1
            ok = [c for f, o, c in UNSAFE_OK if f.search(b.file) and o.search(op)]
            if ok: allowed[(b.file, op)] += 1; continue
            v.append((f'{b.path}#unsafe {op}', _where(b) + f' line {line}', f'{op}: unsafe operation outside the modules that own it'))
    n = []
    if not any('from_raw_parts' in o for _, o in allowed): n.append('no slice construction found in mmap_vec.rs: the census sees no unsafe site there')
    return v, {'functions_scanned': fns, 'unsafe_sites': sites}, n

# ---------------------------------------------------------------- P26
AMBIENT = re.compile(r'std::time::|::Instant::|SystemTime|std::env::|std::process::|std::thread::|thread_rng|OsRng|getrandom|SmallRng.*from_entropy|rand::random|RandomState|current_num_threads|current_thread_index|available_parallelism|find_any|position_any|find_map_any|_any$|try_for_each_any|while_some|collections::hash::(map|set)::.*::(iter|iter_mut|keys|values|values_mut|drain|retain|into_iter|into_keys|into_values)|Hash(Map|Set)<.*IntoIterator|DefaultHasher|core::sync::atomic|std::sync::(Mutex|RwLock|mpsc|poison)|std::thread::local|LocalKey|lazy_static::lazy|OnceLock|OnceCell|LazyLock|core::cell::(Cell|RefCell|UnsafeCell)|std::fs::|std::net::|std::io::|core::any::type_id|fmt::Pointer|ptr::addr|::expose_provenance')
AMBIENT_OK = [
 (r'primefield/src/fft/mod\.rs', r'rayon_core::current_num_threads', 'only the chunk length of clone_shifted; the result is independent of it (value graph under P17)'),
 (r'elliptic-curve-crypto/src/lib\.rs', r'lazy_static', 'the generator table, computed from constants'),
 (r'stark/src/proof_of_work\.rs', r'core::sync::atomic|rayon_core::current_num_threads', 'the proof-of-work race'),
 (r'stark/src/prover\.rs', r'std::io::stdio::_eprint', 'debug output, not a result'),
 (r'stark/src/rational_equality\.rs', r'rand::random', 'randomised equality of expressions'),
 (r'stark/src/(rational_expression|solidity_verifier)\.rs', r'DefaultHasher', 'fixed-key hasher used to name expressions'),
 (r'stark/src/solidity_verifier\.rs', r'std::fs::|std::io::', 'writes the generated contracts'),
 (r'logging-allocator/src/', r'', 'the allocator accounts globally by design'),
 (r'macros-(impl|lib|decl)/src/', r'', 'compile time'),
]
AMBIENT_OK = [(re.compile(a), re.compile(b), c) for a, b, c in AMBIENT_OK]
def P26(F, tier):
    v = []; fns = calls = 0; ok = 0
    for n, b in _lib(F):
        fns += 1
        for bl in b.blocks:
            for st in bl['s']:
                if st[0] == '=' and st[2][0] == 'cast' and 'Expose' in str(st[2][1]):
                    v.append((f'{b.path}#address', _where(b) + f' line {st[-1]}', 'an address is turned into a number: results may depend on it'))
            t = bl['t']
            if t[0] != 'call' or t[1][0] != 'fn': continue
            calls += 1
            f = t[1][1]
            for p in sorted({f['ip'] or '', f['p'] or ''}):
                if not AMBIENT.search(p) or (p or '').startswith('zkp_'): continue
                if any(x.search(b.file) and y.search(p) for x, y, _ in AMBIENT_OK): ok += 1; break
                v.append((f'{b.path}#{f["p"]}', _where(b) + f' line {t[-1]}', f'calls {p}: the result may depend on something other than the inputs'))
                break
    return v, {'functions_scanned': fns, 'call_sites': calls, 'ambient_sites_allowed': ok}, []

# ---------------------------------------------------------------- P28
SWALLOW = re.compile(r'core::result::Result::<.*>::(ok|err|unwrap_or|unwrap_or_default|map_or|or|or_else|iter|into_iter|flatten|is_ok_and|is_err_and)$|core::iter::.*Flatten|filter_map')
def P28(F, tier):
    """every Result a call produces is looked at"""
    v = []; fns = 0; results = 0
    for n, b in _lib(F):
        fns += 1
        use = collections.Counter(); alias = {}
        def walk(x):
            if isinstance(x, list):
                if x and x[0] in ('c', 'm') and len(x) > 1 and isinstance(x[1], list): use[x[1][0]] += 1
                elif x and x[0] == 'ref' and len(x) > 2 and isinstance(x[2], list): use[x[2][0]] += 1
                elif x and x[0] in ('discr', 'addr', 'len'):
                    for y in x[1:]:
                        if isinstance(y, list) and y and isinstance(y[0], int): use[y[0]] += 1
                for y in x: walk(y)
        for bl in b.blocks:
            for st in bl['s']:
                if st[0] == '=': walk(st[2])
            t = bl['t']
            if t[0] == 'call': walk(t[1]); walk(t[2])
            elif t[0] != 'drop': walk(t[1:])
        for bl in b.blocks:
            t = bl['t']
            if t[0] != 'call' or t[1][0] != 'fn': continue
            d = t[3]; f = t[1][1]
            ty = b.locals[d[0]]
            if len(d) == 1 and d[0] != 0 and ty.k == 'adt' and ty.n == 'core::result::Result':
                results += 1
                if use[d[0]] == 0 and 'core::fmt' not in ty.s:
                    v.append((f'{b.path}#discarded {f["p"]}', _where(b) + f' line {t[-1]}', f'the Result of {f["p"]} is discarded: a failure there would be swallowed'))
            p = f['ip'] or f['p']
            if re.match(r'core::result::Result::<.*>::(ok|err|unwrap_or|unwrap_or_default|map_or|or|or_else|iter|into_iter|is_ok_and|unwrap_or_else)$', p):
                if not (re.search(r'macros-lib|prefetch', b.file) and p.endswith('unwrap_or_else')):
                    v.append((f'{b.path}#swallowed {p}', _where(b) + f' line {t[-1]}', f'{p} turns an error into an ordinary value'))
    return v, {'functions_scanned': fns, 'result_values': results}, []
