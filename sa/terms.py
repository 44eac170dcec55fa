"""Hash-consed terms, ordered decision diagrams over theory atoms, integer/field polynomials.

All normal forms are ordered by a structural hash, so two programs (or two runs) that compute
the same normal form get the same object digest, whatever order their statements were in.
"""
import hashlib, sys
sys.setrecursionlimit(200000)

_table = {}
P_FIELD = 2**251 + 17 * 2**192 + 1
N_SCALAR = 0x0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f

class T:
    __slots__ = ('op', 'args', 'h', '_sz', '__weakref__')
    def __repr__(self):
        return show(self, 6)

def _enc(a, out):
    if isinstance(a, T):
        out.append(b'T'); out.append(a.h)
    elif isinstance(a, str):
        out.append(b's'); out.append(a.encode()); out.append(b'\0')
    elif isinstance(a, bool):
        out.append(b'b1' if a else b'b0')
    elif isinstance(a, int):
        out.append(b'i'); out.append(str(a).encode()); out.append(b'\0')
    elif isinstance(a, tuple):
        out.append(b'(')
        for x in a: _enc(x, out)
        out.append(b')')
    elif a is None:
        out.append(b'N')
    else:
        raise TypeError(type(a))

def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is not None: return t
    t = T.__new__(T)
    t.op = op; t.args = args
    out = [op.encode(), b'\0']
    for a in args: _enc(a, out)
    t.h = hashlib.blake2b(b''.join(out), digest_size=10).digest()
    t._sz = None
    _table[key] = t
    return t

TRUE = mk('true'); FALSE = mk('false')
BOT = mk('bot')            # unreachable / diverged: a don't-care leaf
UNDEF = mk('undef')        # explicit 'no value here' leaf used in canonical outputs
UNIT = mk('agg', 'tuple', 0)

def size(t, cap=100000):
    seen = set(); st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); st.extend(x.args)
    return len(seen)

def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); yield x
        st.extend(x.args)

# ---------------------------------------------------------------- sorts
def sort_bits(s):
    if s.startswith('F'): return None
    return int(s[1:])
def sort_mod(s):
    if s[0] == 'F':
        return P_FIELD if s == 'F' else (N_SCALAR if s == 'Fn' else None)
    if s == 'Z': return None
    return 1 << int(s[1:])

# ---------------------------------------------------------------- polynomials
# a value of int sort s is:  int const  mk('int', s, v) | atom | mk('poly', s, ((mono,coef),...))
def cint(s, v):
    m = sort_mod(s)
    if m: v %= m
    if s[0] == 'i' and v >= m >> 1: v -= m
    return mk('int', s, v)

def is_int(t): return t.op == 'int'

def p_of(t, s):
    """dict mono->coef"""
    if t.op == 'int': return {(): t.args[1]} if t.args[1] else {}
    if t.op == 'poly': return dict(t.args[1])
    return {((t, 1),): 1}

def p_mk(d, s):
    m = sort_mod(s)
    items = []
    for mono, c in d.items():
        if m:
            c %= m
            if s[0] != 'F' and c > m // 2: c -= m   # balanced, keeps small negatives small
            if s[0] == 'F' and m and c > m // 2: c -= m
        if c: items.append((mono, c))
    if not items: return cint(s, 0)
    if len(items) == 1:
        mono, c = items[0]
        if mono == (): return cint(s, c)
        if c == 1 and len(mono) == 1 and mono[0][1] == 1: return mono[0][0]
    items.sort(key=lambda mc: tuple((a.h, e) for a, e in mc[0]))
    return mk('poly', s, tuple(items))

def p_addd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return r

def mono_mul(x, y):
    d = {}
    for a, e in x: d[a] = d.get(a, 0) + e
    for a, e in y: d[a] = d.get(a, 0) + e
    # inverse cancellation: x * inv(x)
    for a in list(d):
        if a.op == 'inv' and d.get(a, 0) > 0:
            b = a.args[1]
            if b in d and d[b] > 0:
                k = min(d[a], d[b]); d[a] -= k; d[b] -= k
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].h))

def p_muld(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r

class Blowup(Exception): pass

# ---------------------------------------------------------------- decision diagrams
# node: mk('ite', atom, hi, lo); atom is never an ite.  Order by key(atom).
# A test on the content of a variant comes after the test for the variant.
_vd = {}
def vdepth(t):
    r = _vd.get(t)
    if r is None:
        r = 0; st = list(t.args)
        while st:
            x = st.pop()
            if isinstance(x, tuple): st.extend(x)
            elif isinstance(x, T):
                v = vdepth(x)
                if v > r: r = v
        if t.op == 'fld' and t.args[1]: r += 1
        _vd[t] = r
    return r
def _rank(*ts): return bytes([min(255, max(vdepth(t) for t in ts))])
_keycache = {}
def akey(a):
    k = _keycache.get(a)
    if k is None:
        if a.op == 'ltk': k = (_rank(a.args[0], a.args[1]) + a.args[0].h + a.args[1].h, 0, a.args[2], b'')
        elif a.op == 'is': k = (_rank(a.args[0]) + a.args[0].h, 1, a.args[1], b'')
        else: k = (_rank(a) + a.h, 2, 0, b'')
        _keycache[a] = k
    return k

def implied(b, a, val):
    """value of atom b given atom a == val (or None)"""
    if b is a: return val
    if a.op == 'ltk' and b.op == 'ltk' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        ka, kb = a.args[2], b.args[2]
        if val and kb >= ka: return True
        if not val and kb <= ka: return False
        return None
    if a.op == 'is' and b.op == 'is' and a.args[0] is b.args[0]:
        if val: return False
        n = a.args[2]
        if n == 2: return True
        return None
    return None

_assume_memo = {}
def assume(t, a, val):
    if t.op != 'ite': return t
    k = (t, a, val)
    r = _assume_memo.get(k)
    if r is not None: return r
    b, hi, lo = t.args
    v = implied(b, a, val)
    if v is True: r = assume(hi, a, val)
    elif v is False: r = assume(lo, a, val)
    elif akey(b)[0] != akey(a)[0]: r = t if akey(b) > akey(a) and b.op not in ('ltk','is') and False else _re_ite(b, assume(hi, a, val), assume(lo, a, val))
    else: r = _re_ite(b, assume(hi, a, val), assume(lo, a, val))
    _assume_memo[k] = r
    return r

def _re_ite(b, hi, lo):
    return _node(b, hi, lo)

def _node(a, hi, lo):
    if hi is lo: return hi
    if a.op == 'ltk' and lo.op == 'ite':
        # adjacent intervals with the same outcome are one interval
        b = lo.args[0]
        if b.op == 'ltk' and lo.args[1] is hi and b.args[0] is a.args[0] and b.args[1] is a.args[1]: return lo
    if a.op == 'ltk' and hi.op != 'ite' and lo.op != 'ite' and (hi.op == 'poly' or lo.op == 'poly' or hi is a.args[0] or hi is a.args[1] or lo is a.args[0] or lo is a.args[1]):
        s = hi.args[0] if hi.op == 'poly' else lo.args[0] if lo.op == 'poly' else 'u64'
        if s[0] in 'ui':
            # min/max: both outcomes agree at the boundary, keep the tighter test
            A, B, k = a.args
            d = p_addd(p_of(hi, s), p_of(lo, s), -1)
            e = p_addd(p_of(A, s), p_of(B, s), -1)
            d = {m: c for m, c in d.items() if c}
            for off in (1, 0):
                f = dict(e); f[()] = f.get((), 0) - k + off
                f = {m: c for m, c in f.items() if c}
                if len(d) == len(f) and d:
                    m0 = next(iter(f)); q, r = divmod(d.get(m0, 0), f[m0])
                    if q and not r and all(d.get(m) == q * c for m, c in f.items()):
                        return add(s, lo, mul(s, cint(s, q), min0(s, f)))
    return mk('ite', a, hi, lo)

def min0(s, d):
    """min(d, 0), d a polynomial in the no-wrap reading: the one normal form of min, max and clamps"""
    from math import gcd
    d = {m: c for m, c in d.items() if c}
    ms = [m for m in d if m != ()]
    if not ms: return cint(s, min(d.get((), 0), 0))
    g = 0
    for c in d.values(): g = gcd(g, c)
    lead = min(ms, key=lambda mo: tuple((x.h, e) for x, e in mo))
    if d[lead] < 0:
        return add(s, p_mk(d, s), min0(s, {m: -c for m, c in d.items()}))
    if g > 1: return mul(s, cint(s, g), min0(s, {m: c // g for m, c in d.items()}))
    return mk('min0', s, p_mk(d, s))

def ite_node(a, hi, lo):
    hi = assume(hi, a, True); lo = assume(lo, a, False)
    if hi is lo: return hi
    if hi is BOT: return lo
    if lo is BOT: return hi
    return _node(a, hi, lo)

def cof(t, a, val):
    return assume(t, a, val)

def top(ts):
    best = None
    for t in ts:
        if t.op == 'ite':
            if best is None or akey(t.args[0]) < akey(best): best = t.args[0]
    return best

LIMIT = 6000
class _Ctr: n = 0
def lift(f, *ts):
    """apply f to the leaves of the decision diagrams ts"""
    if all(t.op != 'ite' for t in ts): return f(*ts)
    memo = {}
    cnt = [0]
    def go(ts):
        r = memo.get(ts)
        if r is not None: return r
        a = top(ts)
        if a is None:
            r = f(*ts)
        else:
            cnt[0] += 1
            if cnt[0] > LIMIT: raise Blowup()
            hi = go(tuple(assume(t, a, True) for t in ts))
            lo = go(tuple(assume(t, a, False) for t in ts))
            if hi.op == 'ite' or lo.op == 'ite':
                r = ite(mk('ite', a, TRUE, FALSE), hi, lo) if _needs(a, hi, lo) else ite_node(a, hi, lo)
            else: r = ite_node(a, hi, lo)
        memo[ts] = r
        return r
    return go(tuple(ts))

def _needs(a, hi, lo):
    k = akey(a)
    return (hi.op == 'ite' and akey(hi.args[0]) <= k) or (lo.op == 'ite' and akey(lo.args[0]) <= k)

_ite_memo = {}
def ite(c, x, y):
    """c boolean diagram"""
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    k = (c, x, y)
    r = _ite_memo.get(k)
    if r is not None: return r
    if c.op != 'ite': c = batom(c)
    a = top((c, x, y))
    hi = ite(assume(c, a, True), assume(x, a, True), assume(y, a, True))
    lo = ite(assume(c, a, False), assume(x, a, False), assume(y, a, False))
    r = ite_node(a, hi, lo)
    _ite_memo[k] = r
    return r

def batom(a):
    if a is TRUE or a is FALSE or a.op == 'ite': return a
    return mk('ite', a, TRUE, FALSE)
def bnot(c): return ite(batom(c), FALSE, TRUE)
def band(a, b): return ite(batom(a), batom(b), FALSE)
def bor(a, b): return ite(batom(a), TRUE, batom(b))

_restrict_memo = {}
def restrict(t, care):
    """simplify diagram t assuming boolean diagram care holds"""
    if care is TRUE or t.op != 'ite': return t
    if care is FALSE: return t
    k = (t, care)
    r = _restrict_memo.get(k)
    if r is not None: return r
    a = top((t, care))
    ch, cl = assume(care, a, True), assume(care, a, False)
    if ch is FALSE: r = restrict(assume(t, a, False), cl)
    elif cl is FALSE: r = restrict(assume(t, a, True), ch)
    else:
        th, tl = assume(t, a, True), assume(t, a, False)
        if th is tl:
            r = restrict(th, bor(ch, cl))
        else:
            r = ite_node(a, restrict(th, ch), restrict(tl, cl))
    _restrict_memo[k] = r
    return r

def leaves(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': st.append(x.args[1]); st.append(x.args[2])
        else: out.append(x)
    return out

def datoms(t):
    """atoms tested in the diagram t (not inside leaves)"""
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': out.append(x.args[0]); st.append(x.args[1]); st.append(x.args[2])
    return sorted(set(out), key=akey)

def cond_of(t, pred):
    """boolean diagram: where leaf satisfies pred"""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'ite':
            r = ite(mk('ite', x.args[0], TRUE, FALSE), go(x.args[1]), go(x.args[2]))
        else: r = TRUE if pred(x) else FALSE
        memo[x] = r
        return r
    return go(t)

# ---------------------------------------------------------------- arithmetic with lifting
def _bin(name, s, a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(lambda x, y: _bin(name, s, x, y), a, b)
    if name == 'add': return p_mk(p_addd(p_of(a, s), p_of(b, s)), s)
    if name == 'sub': return p_mk(p_addd(p_of(a, s), p_of(b, s), -1), s)
    if name == 'mul':
        da, db = p_of(a, s), p_of(b, s)
        if len(da) * len(db) > 20000: raise Blowup()
        return p_mk(p_muld(da, db), s)
    raise ValueError(name)
def add(s, a, b): return _bin('add', s, a, b)
def sub(s, a, b): return _bin('sub', s, a, b)
def mul(s, a, b): return _bin('mul', s, a, b)
def neg(s, a): return _bin('sub', s, cint(s, 0), a)

def as_const(t):
    return t.args[1] if t.op == 'int' else None

def is_pow2(v): return v > 0 and v & (v - 1) == 0

def pow2(s, e):
    """2^e as sort s, e an int term"""
    if e.op == 'ite': return lift(lambda x: pow2(s, x), e)
    c = as_const(e)
    if c is not None:
        b = sort_bits(s)
        return cint(s, 1 << c) if 0 <= c < b else mk('pow2', s, e)
    if e.op == 'poly':
        d = dict(e.args[1]); k = d.pop((), 0)
        if 0 < k < sort_bits(s) and all(c > 0 for c in d.values()):
            base = p_mk(d, e.args[0])
            return mul(s, cint(s, 1 << k), mk('pow2', s, base))
    return mk('pow2', s, e)

def udiv(s, a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: udiv(s, x, y), a, b)
    cb = as_const(b); ca = as_const(a)
    if cb == 1: return a
    if ca == 0 and cb != 0: return a
    if ca is not None and cb:
        if s[0] == 'i':
            q = abs(ca) // abs(cb); return cint(s, q if (ca < 0) == (cb < 0) else -q)
        return cint(s, ca // cb)
    if a is b and s[0] == 'u' : pass
    if cb and s[0] == 'u' and a.op == 'poly':
        # exact division of every coefficient (no-wrap assumption)
        d = dict(a.args[1])
        if all(c % cb == 0 for c in d.values()): return p_mk({m: c // cb for m, c in d.items()}, s)
    if a.op == 'udiv' and s[0] == 'u' and a.args[0] == s:
        return udiv(s, a.args[1], mul(s, a.args[2], b))
    # (x * pow2(e)) / pow2(e) and x*y / y
    if a.op == 'poly' and len(a.args[1]) == 1 and cb is None and s[0]=='u':
        mono, c = a.args[1][0]
        if b.op != 'poly' and any(x is b for x, e in mono):
            nm = tuple((x, e - 1) if x is b else (x, e) for x, e in mono)
            return p_mk({tuple(z for z in nm if z[1]): c}, s)
        if b.op == 'poly' and len(b.args[1]) == 1:
            pass
    return mk('udiv', s, a, b)

def urem(s, a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: urem(s, x, y), a, b)
    cb = as_const(b); ca = as_const(a)
    if cb == 1: return cint(s, 0)
    if ca is not None and cb and s[0] == 'u': return cint(s, ca % cb)
    if cb and s[0] == 'u' and is_pow2(cb) and a.op == 'poly':
        d = {m: c % cb for m, c in p_of(a, s).items() if c % cb}
        r = p_mk(d, s)
        if as_const(r) is not None: return cint(s, as_const(r) % cb)
        if r is not a: return urem(s, r, b)
    if a.op == 'urem' and a.args[0] == s and a.args[2] is b: return a
    if cb and s[0] == 'u':
        m = bound(a)
        if m is not None and m < cb: return a
    return mk('urem', s, a, b)

def bound(t):
    """upper bound on an unsigned term, or None"""
    if t.op == 'int': return t.args[1]
    if t.op == 'zext' : return bound(t.args[1]) or (1 << sort_bits(t.args[2])) - 1
    if t.op == 'urem':
        c = as_const(t.args[2])
        if c: return c - 1
    if t.op == 'b2i': return 1
    if t.op == 'idx' and t.args[0].op == 'lit' and t.args[0].args and all(x.op == 'int' for x in t.args[0].args): return max(x.args[1] for x in t.args[0].args)
    if t.op in ('trailing_zeros', 'leading_zeros', 'count_ones', 'count_zeros') and t.args[0][0] in 'ui': return int(t.args[0][1:]) - (t.op != 'count_ones' and t.args[1].op == 'nz')
    return None

def band_int(s, a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: band_int(s, x, y), a, b)
    ca, cb = as_const(a), as_const(b)
    if ca is not None and cb is not None: return cint(s, ca & cb)
    if ca is not None: a, b, ca, cb = b, a, cb, ca
    if cb is not None and s[0] == 'u':
        m = sort_mod(s)
        if cb % m == m - 1: return a
        if cb == 0: return b
        if is_pow2(cb + 1): return urem(s, a, cint(s, cb + 1))
    # x & (pow2(e) - 1)
    for x, y in ((a, b), (b, a)):
        if y.op == 'poly':
            d = dict(y.args[1])
            if d.get((), 0) == -1:
                d2 = dict(d); d2.pop(())
                if len(d2) == 1:
                    (mono, c), = d2.items()
                    if is_pow2(c) and all(z.op == 'pow2' for z, e in mono):
                        return urem(s, x, p_mk(d2, s))
    if a is b: return a
    x, y = sorted((a, b), key=lambda z: z.h)
    return mk('and', s, x, y)

def bor_int(s, a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: bor_int(s, x, y), a, b)
    ca, cb = as_const(a), as_const(b)
    if ca is not None and cb is not None: return cint(s, ca | cb)
    if ca == 0: return b
    if cb == 0: return a
    if a is b: return a
    # disjoint bits: x*2^k | y with y < 2^k
    for x, y in ((a, b), (b, a)):
        if x.op == 'poly' and s[0] == 'u':
            by = bound(y)
            if by is not None:
                k = 1
                while k <= by: k <<= 1
                if all(c % k == 0 and c > 0 for m, c in x.args[1]): return add(s, a, b)
    if (a.op == 'or' and a.args[0] == s) or (b.op == 'or' and b.args[0] == s):
        xs = []
        for z in (a, b): xs.extend(z.args[1] if z.op == 'or' else (z,))
        xs = tuple(sorted(set(xs), key=lambda z: z.h))
        return mk('or', s, xs)
    return mk('or', s, tuple(sorted((a, b), key=lambda z: z.h)))

def bxor_int(s, a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: bxor_int(s, x, y), a, b)
    ca, cb = as_const(a), as_const(b)
    if ca is not None and cb is not None: return cint(s, ca ^ cb)
    if ca == 0: return b
    if cb == 0: return a
    if a is b: return cint(s, 0)
    xs = {}
    for z in (a, b):
        for q in (z.args[1] if z.op == 'xor' and z.args[0] == s else (z,)):
            if q in xs: del xs[q]
            else: xs[q] = 1
    k = 0
    rest = []
    for q in xs:
        if q.op == 'int': k ^= q.args[1]
        else: rest.append(q)
    if k: rest.append(cint(s, k))
    if not rest: return cint(s, 0)
    if len(rest) == 1: return rest[0]
    return mk('xor', s, tuple(sorted(rest, key=lambda z: z.h)))

def shl(s, a, e):
    if a.op == 'ite' or e.op == 'ite': return lift(lambda x, y: shl(s, x, y), a, e)
    return mul(s, a, pow2(s, e))
def shr(s, a, e):
    if a.op == 'ite' or e.op == 'ite': return lift(lambda x, y: shr(s, x, y), a, e)
    if s[0] == 'i': 
        c = as_const(e); ca = as_const(a)
        if c is not None and ca is not None: return cint(s, ca >> c)
        return mk('sar', s, a, e)
    return udiv(s, a, pow2(s, e))

# comparisons: atom ltk(A, B, k)  <=>  A < B + k  over the integers (no-wrap reading)
def _split(d, s):
    pos, negd = {}, {}
    for m, c in d.items():
        if m == (): continue
        if c > 0: pos[m] = c
        else: negd[m] = -c
    return pos, negd

def cmp_lt(s, a, b):
    """boolean diagram for a < b"""
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: cmp_lt(s, x, y), a, b)
    if a is b: return FALSE
    d = p_addd(p_of(a, s), p_of(b, s), -1)
    return _lt0(s, d)

def _lt0(s, d):
    for k in list(d):
        if d[k] == 0: del d[k]
    for mo, c in d.items():
        if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'min0':
            # rest + c*min(e,0) < 0
            rest = dict(d); del rest[mo]
            x = _lt0(s, dict(rest)); y = _lt0(s, p_addd(rest, p_of(mo[0][0].args[1], s), c))
            return bor(x, y) if c > 0 else band(x, y)
    k = -d.pop((), 0)
    # sum(d) < k
    pos, ng = _split(d, s)
    if not pos and not ng: return TRUE if 0 < k else FALSE
    A = p_mk(pos, s); B = p_mk(ng, s)
    return _ltk(s, A, B, k)

def _ltk(s, A, B, k):
    # the first place of a search is below its bound exactly when the search succeeds
    if A.op == 'first' and A.args[0] is B and k >= 0:
        return mk('ite', mk('any', *A.args), TRUE, FALSE) if k == 0 else TRUE
    if B.op == 'first' and B.args[0] is A and k <= 1:
        return mk('ite', mk('any', *B.args), FALSE, TRUE) if k == 1 else FALSE
    if A.h > B.h and not (is_int(B) and B.args[1] == 0) or (is_int(A) and A.args[1] == 0):
        # A < B + k  <=>  not (B < A + (1 - k))
        return bnot(_ltk2(s, B, A, 1 - k))
    return _ltk2(s, A, B, k)

def _ltk2(s, A, B, k):
    if is_int(B) and s[0] in 'uU':
        if k <= (A.op == 'nz'): return FALSE
        m = sort_mod(s)
        if m and k >= m: return TRUE
        ub = bound(A)
        if ub is not None and ub < k: return TRUE
    if A.op == 'len' or True:
        pass
    return mk('ite', mk('ltk', A, B, k), TRUE, FALSE)

def cmp_eq_int(s, a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: cmp_eq_int(s, x, y), a, b)
    if a is b: return TRUE
    if s[0] == 'F':
        d = p_addd(p_of(a, s), p_of(b, s), -1)
        t = p_mk(d, s)
        if t.op == 'int': return TRUE if t.args[1] == 0 else FALSE
        # scale leading coefficient to 1
        d = p_of(t, s)
        lead = min(d, key=lambda mo: tuple((x.h, e) for x, e in mo))
        m = sort_mod(s); c = d[lead] % m
        iv = pow(c, -1, m)
        t = p_mk({mo: cc * iv for mo, cc in d.items()}, s)
        if t.op != 'poly' and t.op == 'inv': return FALSE
        return mk('ite', mk('eq0', s, t), TRUE, FALSE)
    x = cmp_lt(s, a, b); y = cmp_lt(s, b, a)
    return band(bnot(x), bnot(y))

def cmp_eq(a, b):
    if a.op == 'ite' or b.op == 'ite': return lift(cmp_eq, a, b)
    if a is b: return TRUE
    if a.op == 'agg' and b.op == 'agg' and a.args[:1] == b.args[:1]:
        if a.args[1] != b.args[1]: return FALSE
        if len(a.args) == len(b.args):
            r = TRUE
            for x, y in zip(a.args[2:], b.args[2:]): r = band(r, cmp_eq(x, y))
            return r
    if a.op == 'int' and b.op == 'int': return TRUE if a.args[1] == b.args[1] else FALSE
    x, y = sorted((a, b), key=lambda z: z.h)
    return mk('ite', mk('eq', x, y), TRUE, FALSE)

# ---------------------------------------------------------------- printing
def show(t, depth=8):
    def go(x, d):
        if isinstance(x, tuple): return '(' + ' '.join(go(y, d) for y in x) + ')'
        if not isinstance(x, T): return str(x)
        if x.op == 'int': return f'{x.args[1]}' if x.args[1] < 10**12 else hex(x.args[1])
        if x is TRUE: return 'T'
        if x is FALSE: return 'F'
        if d <= 0: return '…'
        if x.op == 'poly':
            ps = []
            for mono, c in x.args[1]:
                f = '*'.join((go(a, d - 1) + (f'^{e}' if e > 1 else '')) for a, e in mono)
                ps.append(f if c == 1 and f else (f'{c}*{f}' if f else f'{c}'))
            return '(' + ' + '.join(ps) + ')'
        if x.op == 'ite': return f'[{go(x.args[0], d-1)} ? {go(x.args[1], d-1)} : {go(x.args[2], d-1)}]'
        if x.op == 'ltk':
            a, b, k = x.args
            if is_int(b): return f'{go(a, d-1)}<{k}'
            return f'{go(a, d-1)}<{go(b, d-1)}{k:+d}' if k else f'{go(a, d-1)}<{go(b, d-1)}'
        if x.op == 'is': return f'{go(x.args[0], d-1)} is #{x.args[1]}'
        if x.op == 'fld': return f'{go(x.args[0], d-1)}.{"" if x.args[1]==0 else str(x.args[1])+"#"}{x.args[2]}'
        if x.op == 'agg': return f'{short(x.args[0])}{"#"+str(x.args[1]) if x.args[1] else ""}{{' + ', '.join(go(y, d - 1) for y in x.args[2:]) + '}'
        if x.op == 'call': return f'{short(x.args[0])}(' + ', '.join(go(y, d - 1) for y in x.args[1:]) + ')'
        return f'{x.op}(' + ', '.join(go(y, d - 1) for y in x.args) + ')'
    return go(t, depth)

def short(s):
    import re
    return re.sub(r'[A-Za-z_0-9]+::', '', s) if isinstance(s, str) else str(s)
