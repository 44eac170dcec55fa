"""Sequences, aggregates, binders, substitution: smart constructors on top of terms."""
from terms import *
import hashlib
import terms as _t

# ------------------------------------------------------------------ aggregates
ENUMS = {'core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'}
def agg(name, variant, *fields):
    # eta: a struct rebuilt from all fields of one opaque value is that value
    if fields and variant == 0 and name not in ENUMS and all(f.op == 'fld' for f in fields):
        x = fields[0].args[0]
        if all(f.args[0] is x and f.args[1] == 0 and f.args[2] == i and f.args[3] == len(fields) for i, f in enumerate(fields)):
            return x
    return mk('agg', name, variant, *fields)

def proj(v, variant, i, n):
    """field i of (variant of) v; n = number of fields of that variant (0 = unknown)"""
    if v.op == 'agg':
        if v.args[1] != variant: return BOT
        if i + 2 < len(v.args): return v.args[i + 2]
        return BOT
    if v.op == 'ite': return lift(lambda x: proj(x, variant, i, n), v)
    if v is BOT: return BOT
    if v.op == 'ref': raise ValueError('project of mutable reference')
    return mk('fld', v, variant, i, n)

def is_variant(v, variant, n):
    if v.op == 'agg': return TRUE if v.args[1] == variant else FALSE
    if v.op == 'ite': return lift(lambda x: is_variant(x, variant, n), v)
    if v is BOT: return FALSE
    if n == 1: return TRUE
    if variant == n - 1 and n <= 24:
        # the last variant is 'none of the others': one canonical test per enum
        r = TRUE
        for k in range(n - 2, -1, -1): r = mk('ite', mk('is', v, k, n), FALSE, r)
        return r
    return mk('ite', mk('is', v, variant, n), TRUE, FALSE)

def merge_val(c, x, y):
    """c ? x : y, pushed inside equal constructors"""
    if x is y: return x
    if c is TRUE: return x
    if c is FALSE: return y
    if x is BOT: return y
    if y is BOT: return x
    if x.op == 'agg' and y.op == 'agg' and x.args[0] == y.args[0] and x.args[1] == y.args[1] and len(x.args) == len(y.args):
        return agg(x.args[0], x.args[1], *[merge_val(c, p, q) for p, q in zip(x.args[2:], y.args[2:])])
    if x.op == 'lit' and y.op == 'lit' and len(x.args) == len(y.args):
        return lit(*[merge_val(c, p, q) for p, q in zip(x.args, y.args)])
    return ite(c, x, y)

NONE = mk('agg', 'core::option::Option', 0)
def some(x): return mk('agg', 'core::option::Option', 1, x)
def okv(x): return mk('agg', 'core::result::Result', 0, x)
def errv(x): return mk('agg', 'core::result::Result', 1, x)
def opt(c, x):
    return ite(c, some(x), NONE)

# ------------------------------------------------------------------ binders
_height = {}
def height(t):
    """largest bound-variable level occurring in t"""
    if isinstance(t, tuple): return max([height(x) for x in t], default=0)
    if not isinstance(t, T): return 0
    r = _height.get(t)
    if r is not None: return r
    r = t.args[0] if t.op == 'bv' else 0
    for a in t.args:
        if isinstance(a, (T, tuple)):
            h = height(a)
            if h > r: r = h
    _height[t] = r
    return r

_fresh = [0]
def fresh(tag='tau', sort='u64'):
    _fresh[0] += 1
    return mk(tag, _fresh[0], sort)

_fv = {}
def free_syms(t):
    """tau/phi symbols occurring in t"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t: r |= free_syms(x)
        return r
    if not isinstance(t, T): return frozenset()
    r = _fv.get(t)
    if r is not None: return r
    if t.op in ('tau', 'phi!'): r = frozenset([t])
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, (T, tuple)): r |= free_syms(a)
    _fv[t] = r
    return r

def contains(t, sym):
    return sym in free_syms(t)

def close(body, sym):
    """-> (bv, body') binding sym at the canonical level"""
    # sym may be any tau symbol
    h = height(body) + 1
    bv = mk('bv', h, sym.args[1])
    return bv, subst(body, {sym: bv})

BINDERS = {'tab', 'sum', 'prod', 'any', 'first', 'lam', 'filter', 'fmapseq'}

def binder(op, n, body, sym, *extra):
    h = height(body) + 1
    bv = mk('bv', h, sym.args[1])
    return mkbind(op, n, bv, subst(body, {sym: bv}) if sym is not bv else body, *extra)

def mkbind(op, n, bv, body, *extra):
    if op == 'tab': return _tab(n, bv, body)
    if op == 'any':
        if body is FALSE: return FALSE
        return mk('ite', mk('any', n, bv, body), TRUE, FALSE)
    return mk(op, n, bv, body, *extra)

def open_bv(bv, body):
    s = fresh('tau', bv.args[1])
    return s, subst(body, {bv: s})

# ------------------------------------------------------------------ sequences
SMALL = 40
def lit(*xs): return mk('lit', *xs)
EMPTY = mk('lit')

def seqlen(v):
    if v.op == 'lit': return cint('u64', len(v.args))
    if v.op == 'tab': return v.args[0]
    if v.op == 'ite': return lift(seqlen, v)
    if v.op == 'cat':
        r = cint('u64', 0)
        for x in v.args: r = add('u64', r, seqlen(x))
        return r
    if v.op in ('upd', 'pmap'): return seqlen(v.args[0])
    if v.op == 'sub': return sub('u64', v.args[2], v.args[1])
    if v.op == 'splice': return seqlen(v.args[0])
    if v.op == 'sorted': return seqlen(v.args[0])
    if v.op == 'mseq': return v.args[1]
    if v.op == 'keccak': return v.args[2]
    if v.op == 'post' and isinstance(v.args[2], str) and v.args[0].op == 'call': return seqlen(v.args[0].args[1 + v.args[1]])
    if v is BOT: return BOT
    if v.op == 'str': return cint('u64', len(v.args[0].encode()))
    if v.op == 'agg' and v.args[0] == '@arr': return cint('u64', v.args[1])
    if v.op == 'phi!':
        r = PHILEN.get(v)
        if r is not None: return r
    if v.op == 'fin':
        r = finlen(v)
        if r is not None: return r
    return ARRLEN.get(v) or mk('len', v)

ARRLEN = {}     # array under analysis -> its length
PHILEN = {}     # loop variable under analysis -> its length, while every step has been seen to preserve it
FINLEN = {}     # loop variable name -> length at loop entry
def finlen(v):
    for e in v.args[0].args[0]:
        if e[0] is v.args[1]:
            if keeps(e[2], e[0]): return seqlen(e[1])
    return None
def keeps(t, ph):
    """every non-don't-care leaf of t has the length of ph"""
    for l in leaves(t):
        if l is UNDEF or l is BOT: continue
        while l.op in ('upd', 'pmap', 'splice', 'sorted'): l = l.args[0]
        if l.op == 'ite':
            if not keeps(l, ph): return False
        elif l.op == 'fin':
            e = [e for e in l.args[0].args[0] if e[0] is l.args[1]]
            if not e or not keeps(e[0][2], e[0][0]) or not keeps(e[0][1], ph): return False
        elif l is not ph: return False
    return True

def imin(a, b):
    if a is b: return a
    if a is INF: return b
    if b is INF: return a
    return ite(cmp_lt('u64', a, b), a, b)
def imax(a, b):
    if a is b: return a
    return ite(cmp_lt('u64', a, b), b, a)
INF = mk('inf')

def differ(i, j):
    d = sub('u64', i, j)
    if d.op == 'int': return d.args[1] != 0
    return None

def idx(v, i):
    if v is BOT or i is BOT: return BOT
    if i.op == 'ite': return lift(lambda k: idx(v, k), i)
    if v.op == 'ite': return lift(lambda x: idx(x, i), v)
    if v.op == 'iota': return i
    if v.op == 'lit':
        c = as_const(i)
        if c is not None:
            return v.args[c] if 0 <= c < len(v.args) else BOT
        if v.args and all(x is v.args[0] for x in v.args): return v.args[0]
        return mk('idx', v, i)
    if v.op == 'tab':
        return subst(v.args[2], {v.args[1]: i})
    if v.op == 'sub': return idx(v.args[0], add('u64', v.args[1], i))
    if v.op == 'upd':
        if v.args[1] is i: return v.args[2]
        d = differ(v.args[1], i)
        if d: return idx(v.args[0], i)
        return merge_val(cmp_eq_int('u64', v.args[1], i), v.args[2], idx(v.args[0], i))
    if v.op == 'pmap':   # first k elements replaced by body
        base, k, bv, body = v.args
        c = cmp_lt('u64', i, k)
        return merge_val(c, subst(body, {bv: i}), idx(base, i))
    if v.op == 'cat':
        off = cint('u64', 0)
        parts = v.args
        out = None
        res = []
        for x in parts[:-1]:
            n = seqlen(x)
            end = add('u64', off, n)
            res.append((cmp_lt('u64', i, end), idx_rel(x, i, off)))
            off = end
        r = idx_rel(parts[-1], i, off)
        for c, val in reversed(res): r = merge_val(c, val, r)
        return r
    if v.op == 'splice':
        base, a, b, new = v.args
        c1 = cmp_lt('u64', i, a); c2 = cmp_lt('u64', i, b)
        return merge_val(c1, idx(base, i), merge_val(c2, idx(new, sub('u64', i, a)), idx(base, i)))
    if v.op == 'mseq':
        r = v.args[0]
        return ref_ext(r, ('i', i))
    if v.op == 'mchunks':
        r, n, k = v.args
        lo = mul('u64', i, k)
        return ref_ext(r, ('sub', lo, imin(add('u64', lo, k), n)))
    return mk('idx', v, i)

def idx_rel(x, i, off):
    return idx(x, sub('u64', i, off))

def _tab(n, bv, body):
    c = as_const(n)
    if c is not None and c <= SMALL and not any(x.op == 'ref' for x in subterms(body)):
        return lit(*[subst(body, {bv: cint('u64', k)}) for k in range(c)])
    # eta
    if body.op == 'idx' and body.args[1] is bv and bv not in set(subterms(body.args[0])):
        return subseq(body.args[0], cint('u64', 0), n)
    if body.op == 'idx' and bv not in set(subterms(body.args[0])):
        d = sub('u64', body.args[1], bv)
        if bv not in set(subterms(d)):
            return subseq(body.args[0], d, add('u64', d, n))
    return mk('tab', n, bv, body)

def tab(n, body, sym):
    return binder('tab', n, body, sym)

def subseq(v, a, b):
    if v is BOT: return BOT
    if v.op == 'ite' and a.op != 'ite' and b.op != 'ite': return lift(lambda x: subseq(x, a, b), v)
    if as_const(a) == 0 and (b is seqlen(v)): return v
    if v.op == 'iota' and as_const(a) == 0: return mk('iotan', b) if False else mk('sub', v, a, b)
    if a is b: return EMPTY
    if v.op == 'sub': return subseq(v.args[0], add('u64', v.args[1], a), add('u64', v.args[1], b))
    ca, cb = as_const(a), as_const(b)
    if v.op == 'lit' and ca is not None and cb is not None and ca <= cb <= len(v.args): return lit(*v.args[ca:cb])
    if v.op == 'tab':
        s, body = open_bv(v.args[1], v.args[2])
        return tab(sub('u64', b, a), subst(body, {s: add('u64', s, a)}), s)
    if v.op == 'upd':
        pass
    if v.op == 'cat':
        # drop whole leading / trailing parts when boundaries match
        off = cint('u64', 0)
        for k in range(len(v.args)):
            if off is a and k: return subseq(cat(*v.args[k:]), cint('u64', 0), sub('u64', b, a))
            off = add('u64', off, seqlen(v.args[k]))
            if off is b and k + 1 < len(v.args): return subseq(cat(*v.args[:k + 1]), a, b)
    return mk('sub', v, a, b)

def cat(*vs):
    out = []
    for v in vs:
        if v.op == 'cat': out.extend(v.args)
        elif v.op == 'lit' and not v.args: continue
        elif v.op == 'str' and not v.args[0]: continue
        else: out.append(v)
    res = []
    for v in out:
        if res and res[-1].op == 'str' and v.op == 'str': res[-1] = mk('str', res[-1].args[0] + v.args[0])
        elif res and res[-1].op == 'lit' and v.op == 'lit': res[-1] = lit(*(res[-1].args + v.args))
        elif res and res[-1].op == 'sub' and v.op == 'sub' and res[-1].args[0] is v.args[0] and res[-1].args[2] is v.args[1]:
            res[-1] = subseq(v.args[0], res[-1].args[1], v.args[2])
        else:
            res.append(v)
            while len(res) > 1:
                r = _extend(res[-2], res[-1])
                if r is None: break
                res[-2:] = r
    if not res: return EMPTY
    if len(res) == 1: return res[0]
    return mk('cat', *res)

def _extend(p, q):
    """p ++ q where q starts with the next element of the family p"""
    n1 = None
    if p.op == 'tab' and q.op == 'lit':
        n, bv, body = p.args
        if n.op == 'ite' or q.args[0].op != subst(body, {bv: n}).op: return None
        k = 0
        while k < len(q.args) and subst(body, {bv: n}) is q.args[k]:
            k += 1; n = add('u64', n, cint('u64', 1))
        if not k: return None
        r = [mk('tab', n, bv, body)]
        if k < len(q.args): r.append(lit(*q.args[k:]))
        return r
    if p.op == 'sub' and q.op == 'lit' and q.args[0].op == 'idx' and q.args[0].args[0] is p.args[0] and q.args[0].args[1] is p.args[2]:
        r = [subseq(p.args[0], p.args[1], add('u64', p.args[2], cint('u64', 1)))]
        if len(q.args) > 1: r.append(lit(*q.args[1:]))
        return r
    if p.op == 'fmapseq':
        n, bv, body = p.args[:3]
        if n.op != 'ite' and len(p.args) == 3 and subst(body, {bv: n}) is q: return [mk('fmapseq', add('u64', n, cint('u64', 1)), bv, body)]
    return None

def upd(v, i, x, n=None):
    """n: known constant length"""
    if v is BOT: return BOT
    if v.op == 'ite' and i.op != 'ite': return ite(*_split_top(v, lambda y: upd(y, i, x, n)))
    c = as_const(i)
    if v.op == 'lit' and c is not None and 0 <= c < len(v.args):
        xs = list(v.args); xs[c] = x
        return lit(*xs)
    if n is not None and n <= SMALL and c is not None and v.op != 'lit':
        xs = [idx(v, cint('u64', k)) for k in range(n)]; xs[c] = x
        return lit(*xs)
    if x is idx(v, i): return v
    if v.op == 'upd' and v.args[1] is i: return upd(v.args[0], i, x)
    if v.op == 'upd' and differ(v.args[1], i) and v.args[1].h > i.h:
        return upd(upd(v.args[0], i, x), v.args[1], v.args[2])
    return mk('upd', v, i, x)

def _split_top(v, f):
    return (mk('ite', v.args[0], TRUE, FALSE), f(v.args[1]), f(v.args[2]))

def splice(v, a, b, new):
    if as_const(a) == 0 and b is seqlen(v): return new
    if new is subseq(v, a, b): return v
    if v.op == 'lit' and new.op == 'lit':
        ca, cb = as_const(a), as_const(b)
        if ca is not None and cb is not None: return lit(*(v.args[:ca] + new.args + v.args[cb:]))
    return mk('splice', v, a, b, new)

def pmap(base, k, bv, body):
    if as_const(k) == 0: return base
    if k is seqlen(base): return mkbind('tab', k, bv, body)
    return mk('pmap', base, k, bv, body)

# ------------------------------------------------------------------ references
def ref(root, path=()): return mk('ref', root, path)
def ref_ext(r, *els):
    if r.op == 'ite': return lift(lambda x: ref_ext(x, *els), r)
    if r.op != 'ref':
        # shared view of a value
        for e in els:
            r = path_get(r, e)
        return r
    p = list(r.args[1])
    for e in els:
        if p and p[-1][0] == 'sub' and e[0] == 'i':
            a = p.pop()[1]
            p.append(('i', add('u64', a, e[1])) + e[2:])
        elif p and p[-1][0] == 'sub' and e[0] == 'sub':
            a = p.pop()[1]
            p.append(('sub', add('u64', a, e[1]), add('u64', a, e[2])))
        else: p.append(e)
    return mk('ref', r.args[0], tuple(p))

def path_get(v, e):
    if e[0] == 'f': return proj(v, e[1], e[2], e[3])
    if e[0] == 'i': return idx(v, e[1])
    if e[0] == 'sub': return subseq(v, e[1], e[2])
    raise ValueError(e)

def path_set(v, path, x):
    if not path: return x
    e = path[0]
    if v.op == 'ite' and all(l.op in ('agg', 'lit') for l in leaves(v)):
        a, hi, lo = v.args
        return merge_val(mk('ite', a, TRUE, FALSE), path_set(hi, path, assume(x, a, True)), path_set(lo, path, assume(x, a, False)))
    if e[0] == 'f':
        _, variant, i, n, name = e
        fs = [proj(v, variant, k, n) for k in range(n)]
        fs[i] = path_set(fs[i], path[1:], x)
        return agg(name, variant, *fs)
    if e[0] == 'i':
        n = e[2] if len(e) > 2 else None
        return upd(v, e[1], path_set(idx(v, e[1]), path[1:], x), n)
    if e[0] == 'sub':
        return splice(v, e[1], e[2], path_set(subseq(v, e[1], e[2]), path[1:], x))
    raise ValueError(e)

# ------------------------------------------------------------------ generic rebuild / substitution
def rebuild(op, args, orig=None):
    if op == 'poly':
        s = args[0]
        return poly_rebuild(s, args[1])
    if op == 'ite':
        return merge_val_b(args[0], args[1], args[2])
    f = REB.get(op)
    if f: return f(*args)
    return mk(op, *args)

def merge_val_b(c, x, y):
    if c.op not in ('ite', 'true', 'false'): c = batom(c)
    return ite(c, x, y)

def poly_rebuild(s, items):
    r = cint(s, 0)
    simple = {}
    hard = []
    for mono, c in items:
        if all(a.op not in ('poly', 'int', 'ite', 'inv', 'powx') for a, e in mono):
            d = {}
            for a, e in mono: d[a] = d.get(a, 0) + e
            key = tuple(sorted(d.items(), key=lambda ae: ae[0].h))
            simple[key] = simple.get(key, 0) + c
        else: hard.append((mono, c))
    r = p_mk(simple, s)
    for mono, c in hard:
        t = cint(s, c)
        for a, e in mono:
            a = resort(a, s)
            for _ in range(e): t = mul(s, t, a)
        r = add(s, r, t)
    return r

def resort(a, s):
    if a.op == 'int': return cint(s, a.args[1]) if a.args[0] != s else a
    if a.op == 'poly' and a.args[0] != s: return p_mk(dict(a.args[1]), s)
    if a.op == 'ite': return lift(lambda x: resort(x, s), a)
    return a

def _atom_lt(A, B, k):
    s = 'u64'
    for z in (A, B):
        if z.op in ('poly', 'int', 'udiv', 'urem'): s = z.args[0] if s == 'u64' else s
    return cmp_lt(s, A, add(s, B, cint(s, k)) if k else B)

def fpow(s, b, e):
    """b^e in a field, e an int term"""
    if b.op == 'ite' or e.op == 'ite': return lift(lambda x, y: fpow(s, x, y), b, e)
    ce = as_const(e); cb = as_const(b)
    if cb == 1 or ce == 0: return cint(s, 1)
    if ce == 1: return b
    if ce is not None and cb is not None and ce > 0 and sort_mod(s): return cint(s, pow(cb, ce, sort_mod(s)))
    if ce is not None and 0 < ce <= 8:
        r = b
        for _ in range(ce - 1): r = mul(s, r, b)
        return r
    if b.op == 'powx' and b.args[0] == s:
        return fpow(s, b.args[1], mul('u64', b.args[2], e))
    if e.op == 'poly':
        # b^(e1+e2+k) = product
        r = cint(s, 1)
        rest = {}
        for mono, c in e.args[1]:
            if c > 0:
                if mono == () : r = mul(s, r, fpow(s, b, cint('u64', c)))
                else: r = mul(s, r, _powx(s, b, mono, c))
            else: return mk('powx', s, b, e)
        return r
    return _powx(s, b, ((e, 1),), 1)
def _powx(s, b, mono, c):
    return mk('powx', s, b, p_mk({mono: c}, 'u64'))

def finv(s, x):
    if x.op == 'ite': return lift(lambda y: finv(s, y), x)
    if x.op == 'int':
        m = sort_mod(s)
        if x.args[1] % m == 0: return BOT
        return cint(s, pow(x.args[1], -1, m))
    if x.op == 'inv': return x.args[1]
    if x.op == 'poly' and len(x.args[1]) == 1:
        mono, c = x.args[1][0]
        r = cint(s, pow(c, -1, sort_mod(s)))
        for a, e in mono:
            ia = finv(s, a)
            for _ in range(e): r = mul(s, r, ia)
        return r
    return mk('inv', s, x)

REB = {
    'ltk': lambda A, B, k: _atom_lt(A, B, k),
    'eq0': lambda s, t: cmp_eq_int(s, t, cint(s, 0)),
    'eq': lambda a, b: cmp_eq(a, b),
    'is': lambda v, k, n: is_variant(v, k, n),
    'fld': lambda v, k, i, n: proj(v, k, i, n),
    'agg': lambda name, k, *f: agg(name, k, *f),
    'idx': lambda v, i: idx(v, i),
    'len': lambda v: seqlen(v),
    'cat': lambda *v: cat(*v),
    'sub': lambda v, a, b: subseq(v, a, b),
    'upd': lambda v, i, x: upd(v, i, x),
    'splice': lambda *a: splice(*a),
    'udiv': lambda s, a, b: udiv(s, a, b),
    'urem': lambda s, a, b: urem(s, a, b),
    'and': lambda s, a, b: band_int(s, a, b),
    'or': lambda s, xs: _fold(bor_int, s, xs),
    'xor': lambda s, xs: _fold(bxor_int, s, xs),
    'pow2': lambda s, e: pow2(s, e),
    'min0': lambda s, e: lift(lambda x: min0(s, p_of(x, s)), e),
    'powx': lambda s, b, e: fpow(s, b, e),
    'inv': lambda s, x: finv(s, x),
    'pmap': lambda b, k, bv, body: pmap(b, k, bv, body),
}
def _fold(f, s, xs):
    r = xs[0]
    for x in xs[1:]: r = f(s, r, x)
    return r

def subst(t, m):
    """capture-avoiding substitution with renormalisation; m: T->T"""
    keys = frozenset(m)
    memo = {}
    if all(k.op in LEAFSYM for k in keys):
        def touches(x):
            return not keys.isdisjoint(occ(x))
    else:
        def touches(x): return True
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        r = m.get(x)
        if r is not None: return r
        r = memo.get(x)
        if r is not None: return r
        if not touches(x):
            memo[x] = x
            return x
        if x.op in BINDERS and len(x.args) >= 3:
            n = go(x.args[0])
            s, body = open_bv(x.args[1], x.args[2])
            body = subst(body, m)
            extra = tuple(go(e) for e in x.args[3:])
            r = binder(x.op, n, body, s, *extra)
        elif x.op == 'pmap':
            s, body = open_bv(x.args[2], x.args[3])
            body = subst(body, m)
            h = height(body) + 1
            bv = mk('bv', h, s.args[1])
            r = pmap(go(x.args[0]), go(x.args[1]), bv, subst(body, {s: bv}))
        elif x.op == 'loop':
            r = mk('loop', *go(x.args))
        else:
            r = rebuild(x.op, go(x.args))
        memo[x] = r
        return r
    return go(t)

_occ = {}
LEAFSYM = ('bv', 'tau', 'phi!', 'phi', 'arg', 'sym', 'col')
def occ(t):
    """set of leaf symbols (bv, tau, phi!, arg, ...) occurring in t"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t: r |= occ(x)
        return r
    if not isinstance(t, T): return frozenset()
    r = _occ.get(t)
    if r is not None: return r
    if t.op in LEAFSYM: r = frozenset([t])
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, (T, tuple)): r |= occ(a)
    _occ[t] = r
    return r

# ------------------------------------------------------------------ canonical names for loop variables
_lh = {}
def lheight(t):
    """nesting height of loop recurrences in t"""
    if isinstance(t, tuple): return max([lheight(x) for x in t], default=0)
    if not isinstance(t, T): return 0
    r = _lh.get(t)
    if r is not None: return r
    r = 0
    for a in t.args:
        if isinstance(a, (T, tuple)):
            h = lheight(a)
            if h > r: r = h
    if t.op == 'loop': r += 1
    _lh[t] = r
    return r

def canon_loops(t):
    """rename the variables of every loop recurrence by (height, rank); rank comes from colour refinement over
    initial values and steps, so neither the order of statements nor of variables in the source matters"""
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T) or lheight(x) == 0: return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'fin':
            L, ren = loop(x.args[0])
            r = mk('fin', L, ren[x.args[1]])
        elif x.op in BINDERS and len(x.args) >= 3:
            n = go(x.args[0])
            s, body = open_bv(x.args[1], x.args[2])
            r = binder(x.op, n, go(body), s, *go(x.args[3:]))
        elif x.op == 'pmap':
            s, body = open_bv(x.args[2], x.args[3])
            body = go(body)
            bv = mk('bv', height(body) + 1, s.args[1])
            r = pmap(go(x.args[0]), go(x.args[1]), bv, subst(body, {s: bv}))
        else: r = rebuild(x.op, go(x.args))
        memo[x] = r
        return r
    lm = {}
    def loop(L):
        r = lm.get(L)
        if r is not None: return r
        eqs, stop, tn = L.args
        inits = [go(e[1]) for e in eqs]
        col = {e[0]: i.h.hex() for e, i in zip(eqs, inits)}
        tcol = mk('col', 'tau', 'u64')
        k = len(set(col.values()))
        while k < len(eqs):
            mm = {ph: mk('col', c, ph.args[-1]) for ph, c in col.items()}; mm[tn] = tcol
            nc = {e[0]: hashlib.blake2b((col[e[0]] + go(subst(e[2], mm)).h.hex()).encode(), digest_size=10).hexdigest() for e in eqs}
            k2 = len(set(nc.values()))
            col = nc
            if k2 == k: break
            k = k2
        order = sorted(range(len(eqs)), key=lambda i: col[eqs[i][0]])
        h = lheight(L)
        ren = {eqs[i][0]: mk('phi', h, j, eqs[i][0].args[-1]) for j, i in enumerate(order)}
        ren[tn] = mk('phi', h, -1, 'u64')
        r = (mk('loop', tuple((ren[eqs[i][0]], inits[i], go(subst(eqs[i][2], ren))) for i in order), go(subst(stop, ren)), ren[tn]), ren)
        lm[L] = r
        return r
    return go(t)
