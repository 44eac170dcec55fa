"""Abstraction profiles: the types below a layer are replaced by their algebra.

profile 'alg' : PrimeField<Proth> -> F, PrimeField<Order> -> Fn, U256 -> integers mod 2^256, MmapVec -> sequence
profile 'fld' : only U256 (and MmapVec) abstract; PrimeField is looked into
profile 'limb': nothing abstract
The abstraction of each layer is itself an obligation of the layer below (see spec/*.py).
"""
from terms import *
from seqs import *
from models import u, U, val, isref, seqty, selfit, is_it, seq_of, lift_cat, consume
import re

PF = 'zkp_primefield::prime_field::PrimeField'
U2 = 'zkp_u256::u256::U256'
MK = 'zkp_hash::masked_keccak::MaskedKeccak'
MV = 'zkp_mmap_vec::mmap_vec::MmapVec'
PROTH = 'zkp_primefield::proth_field::Proth'
ORDER = 'zkp_elliptic_curve::scalar_field::Order'
SORTS_ALG = {PF + '<' + PROTH + '>': 'F', PF + '<' + ORDER + '>': 'Fn', U2: 'u256'}
SORTS_FLD = {U2: 'u256'}

def deref_ty(t):
    while t is not None and t.k in ('ref', 'ptr'): t = t.e
    return t

def fsort(E, fn):
    for t in list(fn.get('tys') or []) + [fn.get('dty')] + list(fn.get('ta') or []):
        t = deref_ty(t)
        if t is None: continue
        s = E.sort(t) if t.k == 'adt' else None
        if s: return s
        if t.k == 'adt' and t.n == 'core::option::Option' and t.a:
            s = E.sort(t.a[0]) if t.a[0].k == 'adt' else None
            if s: return s
        if t.k == 'adt' and t.s == PROTH: return E.sorts.get(PF + '<' + PROTH + '>')
        if t.k == 'adt' and t.s == ORDER: return E.sorts.get(PF + '<' + ORDER + '>')
    return None

def selfsort(E, fn):
    """sort of the Self type of a trait call"""
    ta = fn.get('ta') or []
    t = deref_ty(ta[0]) if ta else None
    if t is None and fn.get('tys'): t = deref_ty(fn['tys'][0])
    if t is not None and t.k == 'adt': return E.sort(t)
    return None

ARITH = {'add': add, 'sub': sub, 'mul': mul}
def i2f(E, s, x, xs):
    if x.op == 'ite': return lift(lambda y: i2f(E, s, y, xs), x)
    if x.op == 'int': return cint(s, x.args[1])
    return mk('i2f', s, xs, x)

def zero_of(s): return cint(s, 0)

def hook(E, fn, name, ip, p, a, st):
    """returns a model result or NotImplemented"""
    parts = p.split('::')
    m = parts[-1]
    if p.startswith('core::ops::') or p.startswith('core::iter::'):
        s = selfsort(E, fn)
        if s is None: return mvhook(E, fn, name, ip, p, m, a, st) if selfmv(fn) else NotImplemented
        if s[0] == 'F':
            x = val(a[0], st)
            if m in ARITH and len(a) == 2: return ARITH[m](s, x, val(a[1], st)), st
            if m == 'div': return fdiv(s, x, val(a[1], st)), st, cmp_eq_int(s, val(a[1], st), zero_of(s))
            if m == 'neg': return neg(s, x), st
            if m.endswith('_assign') and m[:-7] in ARITH:
                st = st.copy(); st.store(a[0], ARITH[m[:-7]](s, st.load(a[0]), val(a[1], st))); return UNIT, st
            if m == 'div_assign':
                st = st.copy(); y = val(a[1], st); st.store(a[0], fdiv(s, st.load(a[0]), y)); return UNIT, st, cmp_eq_int(s, y, zero_of(s))
            return NotImplemented
        if s == 'u256':
            t2 = deref_ty(fn['tys'][1]) if len(fn.get('tys') or []) > 1 else None
            s2 = E.sort(t2) if t2 is not None else None
            asg = m.endswith('_assign'); op = m[:-7] if asg else m
            x = val(a[0], st); y = val(a[1], st) if len(a) > 1 else None
            if op in ('shl', 'shr'): r = (shl if op == 'shl' else shr)(s, x, resort(y, 'u64'))
            elif op in ARITH:
                if s2 != s: y = i2u(y, s2)
                r = ARITH[op](s, x, y)
            elif op == 'neg': r = neg(s, x)
            elif op == 'bitand': r = band_int(s, x, y)
            elif op == 'bitor': r = bor_int(s, x, y)
            elif op == 'bitxor': r = bxor_int(s, x, y)
            elif op == 'not': r = sub(s, cint(s, -1), x)
            elif op in ('rem', 'div'): 
                if s2 != s: y = i2u(y, s2)
                r = (urem if op == 'rem' else udiv)(s, x, y)
                if asg: st = st.copy(); st.store(a[0], r); return UNIT, st, cmp_eq_int(s, y, zero_of(s))
                return r, st, cmp_eq_int(s, y, zero_of(s))
            else: return NotImplemented
            if asg: st = st.copy(); st.store(a[0], r); return UNIT, st
            return r, st
        return NotImplemented
    if p.startswith('num_traits::'):
        s = selfsort(E, fn)
        if s is None: return NotImplemented
        if m == 'zero': return cint(s, 0), st
        if m == 'one': return cint(s, 1), st
        if m == 'is_zero': return cmp_eq_int(s, val(a[0], st), cint(s, 0)), st
        if m == 'is_one': return cmp_eq_int(s, val(a[0], st), cint(s, 1)), st
        if m in ('set_zero', 'set_one'):
            st = st.copy(); st.store(a[0], cint(s, int(m == 'set_one'))); return UNIT, st
        if s[0] == 'F':
            if m == 'inv':
                x = val(a[0], st)
                return ite(cmp_eq_int(s, x, cint(s, 0)), NONE, some(finv(s, x))), st
            if m == 'pow':
                t2 = deref_ty(fn['tys'][1]) if len(fn.get('tys') or []) > 1 else None
                s2 = E.sort(t2) if t2 is not None else None
                e = val(a[1], st)
                if s2 and s2[0] == 'u': return fpow(s, val(a[0], st), resort(e, 'u64')), st
                return mk('ipowf', s, val(a[0], st), e), st
        return NotImplemented
    if p.startswith('core::cmp::') or p in ('core::clone::Clone::clone', 'core::default::Default::default'):
        s = selfsort(E, fn)
        if s is None: return mvhook(E, fn, name, ip, p, m, a, st)
        if m == 'clone': return val(a[0], st), st
        if m == 'default': return cint(s, 0), st
        g = E.models.get(p)
        return g(E, fn, a, st) if g is not None and m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'max', 'min') else NotImplemented
    if p.startswith('core::convert::') or p.startswith('zkp_primefield::') or p.startswith('zkp_u256::') or 'PrimeField' in p:
        r = conv(E, fn, name, ip, p, m, a, st)
        if r is not NotImplemented: return r
    if MK in ip and E.opaque(name, ip):
        # the hasher of another file: absorbs bytes, its own file decides how they are hashed
        from models import sponge
        if m in ('new', 'default'): return mk('agg', '@sponge', 0, mk('str', 'MaskedKeccak'), EMPTY), st
        if m == 'update': return sponge(E, m, a, st)
        if m == 'hash' and len(a) == 1:
            k = val(a[0], st)
            if k.op != 'ite': return mk('call', 'MaskedKeccak', proj(k, 0, 0, 2), proj(k, 0, 1, 2)), st
    if MV in ip or MV in p: return mvhook(E, fn, name, ip, p, m, a, st)
    return NotImplemented

def fdiv(s, x, y): return mul(s, x, finv(s, y)) if y.op != 'ite' else lift(lambda z: fdiv(s, x, z), y)

def i2u(x, xs):
    if x.op == 'ite': return lift(lambda y: i2u(y, xs), x)
    if x.op == 'int': return cint('u256', x.args[1])
    if xs and xs[0] == 'u': return resort(x, 'u256') if x.op != 'poly' else mk('zext', 'u256', xs, x)
    return mk('sext', 'u256', xs, x)

def u2i(x, sd):
    """low bits of a 256 bit value"""
    if x.op == 'ite': return lift(lambda y: u2i(y, sd), x)
    if x.op == 'int': return cint(sd, x.args[1])
    if x.op == 'zext' and x.args[1] == sd: return x.args[2]
    return mk('lowbits', sd, x)

def tobe(x):
    if x.op == 'ite': return merge_val(mk('ite', x.args[0], TRUE, FALSE), tobe(x.args[1]), tobe(x.args[2]))
    if x.op == 'frombe': return x.args[0]
    if x.op == 'int':
        return lit(*[cint('u8', b) for b in x.args[1].to_bytes(32, 'big')])
    return lit(*[mk('byte', x, i) for i in range(32)])
def frombe(v):
    if v.op == 'ite': return lift(frombe, v)
    if v.op == 'lit' and len(v.args) == 32:
        b0 = v.args[0]
        if b0.op == 'byte' and all(b.op == 'byte' and b.args[0] is b0.args[0] and b.args[1] == i for i, b in enumerate(v.args)): return b0.args[0]
        if all(b.op == 'int' for b in v.args): return cint('u256', int.from_bytes(bytes(b.args[1] for b in v.args), 'big'))
    if v.op == 'tab':   # materialise
        n = as_const(seqlen(v))
        if n == 32: return frombe(lit(*[idx(v, u(i)) for i in range(32)]))
    return mk('frombe', v)

def conv(E, fn, name, ip, p, m, a, st):
    x = val(a[0], st) if a else None
    if p.startswith('core::convert::'):
        ts = deref_ty(fn['tys'][0]) if fn.get('tys') else None; td = fn.get('dty')
        if ts is None or td is None: return NotImplemented
        ss = E.sort(ts) if ts.k in ('adt', 'uint', 'int') else None
        sd = E.sort(td) if td.k in ('adt', 'uint', 'int') else None
        if ts.k == 'adt' and not ss: return NotImplemented
        if not ss or not sd: return NotImplemented
        if m not in ('from', 'into'): return NotImplemented
        if ss == sd: return x, st
        if sd[0] == 'F':
            if ss == 'u256': return u2f(E, sd, x), st
            return i2f(E, sd, x, ss), st
        if ss[0] == 'F' and sd == 'u256': return f2u(E, ss, x), st
        if sd == 'u256': return i2u(x, ss), st
        return NotImplemented
    s = fsort(E, fn)
    if s is None: return NotImplemented
    if s[0] == 'F':
        if '::PrimeField::<P>::' in p or '::<impl zkp_primefield::prime_field::PrimeField<' in p:
            if m == 'generator': return cint(s, E.gen(s)), st
            if m in ('as_montgomery',): return mont(s, x), st
            if m in ('from_montgomery', 'from_montgomery_const'): return unmont(s, x), st
            if m == 'to_uint': return f2u(E, s, x), st
            if m in ('from_uint', 'from_uint_reduce'): return u2f(E, s, x), st
            if m == 'modulus': return cint('u256', sort_mod(s)), st
            if m == 'double': return mul(s, cint(s, 2), x), st
            if m == 'triple': return mul(s, cint(s, 3), x), st
            if m == 'square': return mul(s, x, x), st
            if m == 'double_assign': st = st.copy(); st.store(a[0], mul(s, cint(s, 2), st.load(a[0]))); return UNIT, st
        if p.endswith('SquareInline::square'): return mul(s, x, x), st
        if p.endswith('SquareInline::square_assign'): st = st.copy(); st.store(a[0], mul(s, st.load(a[0]), st.load(a[0]))); return UNIT, st
        if p.endswith('NegInline::neg'): return neg(s, x), st
        if p.endswith('NegInline::neg_assign'): st = st.copy(); st.store(a[0], neg(s, st.load(a[0]))); return UNIT, st
        if p.endswith('::Root::root'):
            n = val(a[0], st)
            return E.mkcall('root:' + s, [n]), st
        return NotImplemented
    if s == 'u256' and ('U256' in ip or 'U256' in p):
        if m == 'from_limbs':
            v = val(a[0], st); r = cint(s, 0)
            for i in range(4): r = add(s, r, mul(s, i2u(idx(v, u(i)), 'u64'), cint(s, 1 << (64 * i))))
            return r, st
        if m == 'limb': return lift(lambda y: limb(y, a[1]), x), st
        if m == 'from_bytes_be': return frombe(val(a[0], st)), st
        if m == 'to_bytes_be': return tobe(x), st
        if m in ('as_usize', 'as_u64'): return u2i(x, 'u64'), st
        if m == 'as_u32': return u2i(x, 'u32'), st
        if m == 'as_u16': return u2i(x, 'u16'), st
        if m == 'as_u8': return u2i(x, 'u8'), st
        if m == 'as_u128': return u2i(x, 'u128'), st
        if m == 'bit': return batom(mk('bit', x, a[1])), st
        if m in ('leading_zeros', 'trailing_zeros', 'most_significant_bit'): return mk(m, s, x), st
        if m in ('is_even', 'is_odd'):
            t = batom(mk('bit', x, u(0))); return (t if m == 'is_odd' else bnot(t)), st
    return NotImplemented

def limb(x, i):
    if x.op == 'int' and i.op == 'int': return cint('u64', x.args[1] >> (64 * i.args[1]))
    return mk('limb', x, i)
def mont(s, x):
    if x.op == 'ite': return lift(lambda y: mont(s, y), x)
    if x.op == 'unmont' and x.args[0] == s: return x.args[1]
    if x.op == 'int': return cint('u256', x.args[1] * (1 << 256) % sort_mod(s))
    return mk('mont', s, x)
def unmont(s, x):
    if x.op == 'ite': return lift(lambda y: unmont(s, y), x)
    if x.op == 'mont' and x.args[0] == s: return x.args[1]
    if x.op == 'int': return cint(s, x.args[1] * pow(1 << 256, -1, sort_mod(s)))
    return mk('unmont', s, x)
def f2u(E, s, x):
    if x.op == 'ite': return lift(lambda y: f2u(E, s, y), x)
    if x.op == 'int': return cint('u256', x.args[1])
    return mk('touint', s, x)
def u2f(E, s, x):
    if x.op == 'ite': return lift(lambda y: u2f(E, s, y), x)
    if x.op == 'int': return cint(s, x.args[1])
    if x.op == 'touint' and x.args[0] == s: return x.args[1]
    return mk('ofuint', s, x)

# ------------------------------------------------------------------ MmapVec as a sequence
def mvhook(E, fn, name, ip, p, m, a, st):
    ta = fn.get('ta') or []
    t0 = deref_ty(fn['tys'][0]) if fn.get('tys') else None
    ismv = (t0 is not None and t0.k == 'adt' and t0.n == MV) or '::MmapVec::<T>::' in p
    if not ismv: return NotImplemented
    if m == 'with_capacity': return EMPTY, st
    if m == 'zero_initialized':
        t = fresh(); e = fn['dty'].a[0] if fn.get('dty') is not None and fn['dty'].k == 'adt' else None
        s = E.sort(e) if e is not None else None
        return tab(a[0], cint(s, 0) if s else mk('zeroed'), t), st
    if m == 'len': return seqlen(val(a[0], st)), st
    if m == 'is_empty': return cmp_eq_int(U, seqlen(val(a[0], st)), u(0)), st
    if m in ('as_slice', 'deref'): return val(a[0], st), st
    if m in ('as_mut_slice', 'deref_mut'): return a[0], st
    if m == 'clone': return val(a[0], st), st
    if m == 'push': st = st.copy(); st.store(a[0], lift_cat(st.load(a[0]), lit(a[1]))); return UNIT, st
    if m == 'clear': st = st.copy(); st.store(a[0], EMPTY); return UNIT, st
    if m == 'truncate': 
        v = st.load(a[0]); st = st.copy(); st.store(a[0], subseq(v, u(0), imin(seqlen(v), a[1]))); return UNIT, st
    if m == 'resize':
        v = st.load(a[0]); n = seqlen(v); t = fresh()
        st = st.copy(); st.store(a[0], merge_val(cmp_lt(U, n, a[1]), cat(v, tab(sub(U, a[1], n), a[2], t)), subseq(v, u(0), a[1]))); return UNIT, st
    if m == 'extend_from_slice': st = st.copy(); st.store(a[0], lift_cat(st.load(a[0]), val(a[1], st))); return UNIT, st
    if m == 'extend':
        v = st.load(a[0]); x = selfit(E, fn, a, st, 1)
        if is_it(x) and seq_of(x) is not None:
            st = st.copy(); st.store(a[0], lift_cat(v, seq_of(x))); return UNIT, st
        def step(y, acc, s): return [cat(acc[0], lit(y))], s, FALSE
        (acc,), st2, _ = consume(E, x, st, step, [v])
        st2 = st2.copy(); st2.store(a[0], acc); return UNIT, st2
    if m in ('eq', 'ne'):
        from models import seq_eq
        r = seq_eq(E, E.freeze(val(a[0], st), st), E.freeze(val(a[1], st), st))
        return (bnot(r) if m == 'ne' else r), st
    return NotImplemented

def selfmv(fn):
    ta = fn.get('ta') or []
    t = ta[0] if ta else (fn['tys'][0] if fn.get('tys') else None)
    t = deref_ty(t)
    return t is not None and t.k == 'adt' and t.n == MV

def hook_mv(E, fn, name, ip, p, a, st):
    m = p.split('::')[-1]
    if MV in ip or MV in p or selfmv(fn): return mvhook(E, fn, name, ip, p, m, a, st)
    return NotImplemented

def uval(x):
    """the integer of a 256 bit record"""
    v = proj(x, 0, 0, 1); r = cint('u256', 0)
    for i in range(4): r = add('u256', r, mul('u256', idx(v, u(i)), cint('u256', 1 << (64 * i))))
    return r
def hook_limb(E, fn, name, ip, p, a, st):
    """the order of 256 bit integers, away from where it is defined, is the order of their values"""
    m = p.split('::')[-1]
    if not p.startswith('core::cmp::') or m not in ('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp') or len(a) != 2: return NotImplemented
    t = deref_ty(fn['tys'][0]) if fn.get('tys') else None
    if t is None or t.k != 'adt' or t.n != U2 or not E.opaque('<%s as core::cmp::Ord>::cmp' % U2, ''): return NotImplemented
    x, y = uval(val(a[0], st)), uval(val(a[1], st))
    if m in ('lt', 'gt', 'le', 'ge'):
        if m in ('gt', 'le'): x, y = y, x
        r = cmp_lt('u256', x, y)
        return (r if m in ('lt', 'gt') else bnot(r)), st
    O = 'core::cmp::Ordering'
    r = ite(cmp_lt('u256', x, y), mk('agg', O, 0), ite(cmp_lt('u256', y, x), mk('agg', O, 2), mk('agg', O, 1)))
    from models import some_l
    return (some_l(r) if m == 'partial_cmp' else r), st
