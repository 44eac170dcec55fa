"""Models of the standard-library (and rayon/itertools) surface used by the workspace."""
import re
from terms import *
from seqs import *
import seqs

MODELS = {}
PMODELS = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def pmodel(rx):
    def d(f):
        PMODELS.append((re.compile(rx), f)); return f
    return d

U = 'u64'
def u(n): return cint(U, n)
def val(a, st): return st.load(a) if (a.op == 'ref' or a.op == 'ite' and any(l.op == 'ref' for l in leaves(a))) else a
def isref(a): return a.op == 'ref'

# ------------------------------------------------------------------ iterators
def it(seq, pos, end): return mk('agg', '@it', 0, seq, pos, end)
IOTA = mk('iota')
RANGE = 'core::ops::range::Range'
def is_it(v): return v.op == 'agg' and v.args[0] == '@it'
def ispart(v): return v.args[2], v.args[3], v.args[4]
def itlen(v):
    s, p, e = ispart(v)
    if e is INF: return INF
    return sub(U, e, p)
def elem(v, i):
    s, p, e = ispart(v)
    return idx(s, add(U, p, i))

def to_it(E, v, st, ty=None):
    """iterator value for IntoIterator::into_iter(v)"""
    if v.op == 'agg':
        n = v.args[0]
        if n == '@it' or n.startswith('@l'): return v
        if n == RANGE or n == 'core::range::Range': return it(IOTA, v.args[2], v.args[3])
        if n == 'core::ops::range::RangeFrom': return it(IOTA, v.args[2], INF)
        if n == 'core::ops::range::RangeInclusive': return it(IOTA, v.args[2], add(U, v.args[3], u(1)))
        if n == 'core::option::Option':
            return it(lit(*v.args[2:]), u(0), u(len(v.args) - 2))
        if ty is not None and seqty(ty): return it(v, u(0), seqlen(v))
        return v
    if v.op == 'ref':
        c = st.load(v)
        if c.op == 'agg' and (c.args[0] == '@it' or c.args[0].startswith('@l') or c.args[0] in (RANGE,)): return mk('agg', '@lref', 0, v)
        if ty is not None and ty.k == 'ref' and not seqty(ty.e): return mk('agg', '@lref', 0, v)
        n = seqlen(c)
        return it(mk('mseq', v, n), u(0), n)
    if v.op in ('lit', 'tab', 'cat', 'sub', 'upd', 'pmap', 'splice'): return it(v, u(0), seqlen(v))
    if ty is not None and seqty(ty): return it(v, u(0), seqlen(v))
    if v.op == 'ite' and ty is not None and ty.k == 'adt' and ty.n == 'core::option::Option':
        c = is_variant(v, 1, 2)
        return it(lit(proj(v, 1, 0, 1)), u(0), ite(c, u(1), u(0)))
    return v

SEQN = {'alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'zkp_mmap_vec::mmap_vec::MmapVec'}
def seqty(ty):
    while ty is not None and ty.k in ('ref', 'ptr'): ty = ty.e
    if ty is None: return False
    if ty.k in ('slice', 'array'): return True
    if ty.k == 'adt' and ty.n in SEQN: return True
    if ty.k == 'adt' and ty.n == 'alloc::boxed::Box' and ty.a and ty.a[0].k in ('slice',): return True
    return False

def pure_apply(E, f, args, st):
    """apply closure; return (value) if it has no effect on pre-existing memory else None"""
    try:
        r, st2, p = E.apply(f, args, st)
    except Blowup:
        return None
    for k, v in st.mem.items():
        if st2.mem.get(k) is not v: return None
    if has_own_frame_ref(r, st): 
        return None
    return r
def has_own_frame_ref(r, st):
    for x in subterms(r):
        if x.op == 'ref' and x.args[0] not in st.mem: return True
    return False

def it_map(E, v, f, st):
    if is_it(v):
        s, p, e = ispart(v)
        tau = fresh()
        r = pure_apply(E, f, [idx(s, tau)], st)
        if r is not None and not (r.op == 'agg' and False):
            return it(tabraw(e, r, tau), p, e)
    return mk('agg', '@lmap', 0, v, f)

def tabraw(n, body, sym):
    """sequence of length n (possibly infinite) without small-literal expansion of refs"""
    return tab(n, body, sym)

def it_zip(E, a, b):
    if is_it(a) and is_it(b):
        n = imin(itlen(a), itlen(b))
        t = fresh()
        return it(tabraw(n, mk('agg', 'tuple', 0, elem(a, t), elem(b, t)), t), u(0), n)
    return mk('agg', '@lzip', 0, a, b)

def nx(E, v, st):
    r = nxt(E, v, st)
    return r if r is not None else opaque_next(E, v, st)
def nxt(E, v, st):
    """advance iterator value v: (option, new value, state)"""
    if v.op == 'ite':
        c = mk('ite', v.args[0], TRUE, FALSE)
        o1, v1, s1 = nx(E, v.args[1], st); o2, v2, s2 = nx(E, v.args[2], st)
        from engine import merge_states
        return merge_val(c, o1, o2), merge_val(c, v1, v2), merge_states([(c, s1), (TRUE, s2)])
    if v.op == 'agg':
        n = v.args[0]
        if n == '@it':
            s, p, e = ispart(v)
            c = TRUE if e is INF else cmp_lt(U, p, e)
            return opt(c, idx(s, p)), it(s, add(U, p, u(1)), e), st
        if n == RANGE:
            p, e = v.args[2], v.args[3]
            return opt(cmp_lt(U, p, e), p), mk('agg', RANGE, 0, add(U, p, u(1)), e), st
        if n == 'core::ops::range::RangeFrom':
            return some(v.args[2]), mk('agg', n, 0, add(U, v.args[2], u(1))), st
        if n == 'core::ops::range::RangeInclusive':
            p, e = v.args[2], v.args[3]
            return opt(bnot(cmp_lt(U, e, p)), p), mk('agg', n, 0, add(U, p, u(1)), *v.args[3:]), st
        if n == '@lmap':
            o, iv, st = nx(E, v.args[2], st)
            c = is_variant(o, 1, 2)
            r, st2, f2 = opt_apply(E, v.args[3], [proj(o, 1, 0, 1)], st, c)
            return opt(c, r), mk('agg', n, 0, iv, f2), st2
        if n == '@lzip':
            o, a, st = nx(E, v.args[2], st)
            o2, b, st = nx(E, v.args[3], st)
            c = band(is_variant(o, 1, 2), is_variant(o2, 1, 2))
            return opt(c, mk('agg', 'tuple', 0, proj(o, 1, 0, 1), proj(o2, 1, 0, 1))), mk('agg', n, 0, a, b), st
        if n == '@lenum':
            o, a, st = nx(E, v.args[2], st)
            c = is_variant(o, 1, 2)
            return opt(c, mk('agg', 'tuple', 0, v.args[3], proj(o, 1, 0, 1))), mk('agg', n, 0, a, add(U, v.args[3], u(1))), st
        if n == '@ltake':
            o, a, st = nx(E, v.args[2], st)
            c = band(cmp_lt(U, u(0), v.args[3]), is_variant(o, 1, 2))
            return opt(c, proj(o, 1, 0, 1)), mk('agg', n, 0, a, sub(U, v.args[3], u(1))), st
        if n == '@lref':
            r = v.args[2]
            o, iv, st = nx(E, st.load(r), st)
            st = st.copy(); st.store(r, iv)
            return o, v, st
        if n == '@lfilter':
            return None
    return None

def opt_apply(E, f, args, st, c):
    """apply closure when c holds (state changes are conditional)"""
    from engine import merge_states
    if f.op == 'agg' and f.args[0].startswith('@clo:'):
        # give the closure value a location so that captured state persists
        E.frame += 1
        root = (E.frame, 0)
        s = st.copy(); s.mem[root] = f
        r, s2, p = E.apply(ref(root), args, s)
        f2 = s2.mem[root]
        s2 = s2.copy(); s2.mem.pop(root, None)
        st = st.copy()
        return r, (merge_states([(c, s2), (TRUE, st)]) if c is not TRUE else s2), f2
    r, s2, p = E.apply(f, args, st)
    return r, (merge_states([(c, s2), (TRUE, st)]) if c is not TRUE else s2), f

def consume(E, v, st, step, accs):
    """synthetic loop: for x in v { accs, brk = step(x, accs, st) }
    step(x, accs, st) -> (accs', st', brk cond).  Returns (accs, st, broke cond or None)."""
    E.frame += 1
    fr = E.frame
    s0 = st.copy()
    s0.mem[(fr, 0)] = v
    for i, a in enumerate(accs): s0.mem[(fr, i + 1)] = a
    def run(s):
        r = nxt(E, s.mem[(fr, 0)], s)
        if r is None: r = opaque_next(E, s.mem[(fr, 0)], s)
        o, v2, s2 = r
        s2 = s2.copy(); s2.mem[(fr, 0)] = v2
        c = is_variant(o, 1, 2)
        x = proj(o, 1, 0, 1)
        a2, s3, brk = step(x, [s2.mem[(fr, i + 1)] for i in range(len(accs))], s2)
        s3 = s3.copy()
        for i, a in enumerate(a2): s3.mem[(fr, i + 1)] = a
        exits = [(('end', 0), bnot(c), s2)]
        bc = band(c, brk)
        if bc is not FALSE: exits.append((('brk', 0), bc, s3))
        return [(band(c, bnot(brk)), s3)], exits, FALSE
    exits, p = E.loop(run, s0)
    from engine import merge_states
    if not exits: return [BOT] * len(accs), st, FALSE
    out = merge_states([(c, s) for k, c, s in exits])
    broke = FALSE
    for k, c, s in exits:
        if k[0] == 'brk': broke = bor(broke, c)
    res = [out.mem[(fr, i + 1)] for i in range(len(accs))]
    for k in [k for k in out.mem if k[0] == fr]: del out.mem[k]
    return res, out, broke

def opaque_next(E, v, st):
    t = E.mkcall('@next', [E.freeze(v, st)])
    return batopt(t), mk('post', t, 0, 0), st
def batopt(t):
    return t

@model('core::iter::traits::collect::IntoIterator::into_iter', 'rayon::iter::IntoParallelIterator::into_par_iter')
def into_iter(E, fn, a, st):
    ty = fn['tys'][0] if fn.get('tys') else None
    v = a[0]
    if fn['ip'].startswith('<zkp') or 'zkp_' in fn['ip'].split(' as ')[0]: return NotImplemented
    t2 = ty
    while t2 is not None and t2.k == 'ref': t2 = t2.e
    if t2 is not None and t2.k == 'adt' and 'btree' in (t2.n or ''):
        if 'BTree' in t2.n.split('::')[-1] and not (ty.k == 'ref' and ty.m):
            w = btseq(val(v, st)); return it(w, u(0), seqlen(w)), st
        return NotImplemented
    return to_it(E, v, st, ty), st

def btseq(v):
    if v.op == 'ite': return merge_val(mk('ite', v.args[0], TRUE, FALSE), btseq(v.args[1]), btseq(v.args[2]))
    return mk('btseq', v)
@pmodel(r'^alloc::collections::btree::(set::BTreeSet|map::BTreeMap)::<.*>::(iter|len|is_empty)$')
def bt_iter(E, fn, a, st):
    w = btseq(val(a[0], st)); n = seqlen(w)
    if fn['p'].endswith('len'): return n, st
    if fn['p'].endswith('is_empty'): return cmp_eq_int(U, n, u(0)), st
    return it(w, u(0), n), st

@model('core::slice::<impl [T]>::iter', 'alloc::collections::vec_deque::VecDeque::<T, A>::iter', 'rayon::iter::IntoParallelRefIterator::par_iter')
def s_iter(E, fn, a, st):
    v = val(a[0], st)
    return it(v, u(0), seqlen(v)), st
@model('core::slice::<impl [T]>::iter_mut', 'rayon::iter::IntoParallelRefMutIterator::par_iter_mut', 'alloc::collections::vec_deque::VecDeque::<T, A>::iter_mut')
def s_iter_mut(E, fn, a, st):
    n = seqlen(val(a[0], st))
    if not isref(a[0]): return it(a[0], u(0), n), st
    return it(mk('mseq', a[0], n), u(0), n), st

@model('core::iter::traits::iterator::Iterator::next')
def m_next(E, fn, a, st):
    if a[0].op != 'ref': return NotImplemented
    v = st.load(a[0])
    if 'zkp_' in fn['ip'].split(' as ')[0]: return NotImplemented
    r = nxt(E, v, st)
    if r is None: r = opaque_next(E, v, st)
    o, v2, st2 = r
    st2 = st2.copy(); st2.store(a[0], v2)
    return o, st2

@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next_back(E, fn, a, st):
    if a[0].op != 'ref': return NotImplemented
    v = st.load(a[0])
    if v.op == 'agg' and v.args[0] == RANGE: v = to_it(E, v, st)
    if not is_it(v): return NotImplemented
    s, p, e = ispart(v)
    c = cmp_lt(U, p, e)
    st = st.copy(); e2 = sub(U, e, u(1))
    st.store(a[0], it(s, p, e2))
    return opt(c, idx(s, e2)), st

def selfit(E, fn, a, st, k=0):
    ty = fn['tys'][k] if fn.get('tys') else None
    return to_it(E, a[k], st, ty)

IT = 'core::iter::traits::iterator::Iterator::'
PI = 'rayon::iter::ParallelIterator::'
IPI = 'rayon::iter::IndexedParallelIterator::'
@model(IT + 'map', PI + 'map')
def m_map(E, fn, a, st): return it_map(E, selfit(E, fn, a, st), a[1], st), st
def seqof(r, ty=None):
    """the sequence an iterator or sequence value goes through; None: not known"""
    if is_it(r):
        s, p, e = ispart(r)
        return None if e is INF else subseq(s, p, e)
    if r.op in ('lit', 'tab', 'cat', 'sub', 'bytes') or ty is not None and seqty(ty): return r
    return None
def flatseq(n, body, t):
    """the sequences body(t), t < n, one after the other"""
    if body.op == 'lit' and len(body.args) == 1: return tab(n, body.args[0], t)
    k = as_const(n)
    if k is not None and k <= 8: return cat(*[subst(body, {t: u(i)}) for i in range(k)])
    return binder('fmapseq', n, body, t)
@model(IT + 'flat_map', IT + 'flatten')
def m_flatmap(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if not is_it(v) or itlen(v) is INF: return NotImplemented
    t = fresh(); r = elem(v, t)
    ta = [x for x in fn.get('ta') or [] if x is not None]
    if len(a) > 1:
        r = pure_apply(E, a[1], [r], st)
        ty = ta[1] if len(ta) > 1 else None
    else:
        ty = None
    if r is None: return NotImplemented
    q = seqof(r, ty)
    if q is None: return NotImplemented
    q = flatseq(itlen(v), q, t)
    return it(q, u(0), seqlen(q)), st
@model('alloc::slice::<impl [T]>::concat')
def m_concat(E, fn, a, st):
    v = val(a[0], st)
    if v.op == 'lit': return cat(*v.args), st
    t = fresh()
    return flatseq(seqlen(v), idx(v, t), t), st
@model(IT + 'cloned', IT + 'copied', IT + 'fuse', PI + 'cloned', PI + 'copied', IT + 'peekable', 'rayon::iter::IndexedParallelIterator::with_min_len')
def m_same(E, fn, a, st): return selfit(E, fn, a, st), st
@model(IT + 'by_ref')
def m_byref(E, fn, a, st): return mk('agg', '@lref', 0, a[0]) if a[0].op == 'ref' else a[0], st
@model(IT + 'zip', IPI + 'zip')
def m_zip(E, fn, a, st):
    return it_zip(E, selfit(E, fn, a, st), selfit(E, fn, a, st, 1)), st
@model(IT + 'enumerate', IPI + 'enumerate')
def m_enum(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if is_it(v):
        t = fresh(); n = itlen(v)
        return it(tabraw(n, mk('agg', 'tuple', 0, t, elem(v, t)), t), u(0), n), st
    return mk('agg', '@lenum', 0, v, u(0)), st
@model(IT + 'rev', IPI + 'rev')
def m_rev(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if not is_it(v): return NotImplemented
    t = fresh(); n = itlen(v)
    s, p, e = ispart(v)
    return it(tabraw(n, idx(s, sub(U, sub(U, e, u(1)), t)), t), u(0), n), st
@model(IT + 'skip', IPI + 'skip')
def m_skip(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if not is_it(v): return NotImplemented
    s, p, e = ispart(v)
    return it(s, add(U, p, a[1]), e), st
@model(IT + 'take', IPI + 'take')
def m_take(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if not is_it(v): return mk('agg', '@ltake', 0, v, a[1]), st
    s, p, e = ispart(v)
    lim = add(U, p, a[1])
    return it(s, p, imin(e, lim)), st
@model(IT + 'step_by', IPI + 'step_by')
def m_step(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if not is_it(v): return NotImplemented
    k = a[1]; t = fresh()
    n = itlen(v)
    n2 = INF if n is INF else udiv(U, add(U, n, sub(U, k, u(1))), k)
    return it(tabraw(n2, elem(v, mul(U, t, k)), t), u(0), n2), st
@model(IT + 'chain', PI + 'chain')
def m_chain(E, fn, a, st):
    x, y = selfit(E, fn, a, st), selfit(E, fn, a, st, 1)
    if not (is_it(x) and is_it(y)): return NotImplemented
    s = cat(subseq(*ispart(x)), subseq(*ispart(y)))
    return it(s, u(0), seqlen(s)), st
@model('itertools::Itertools::tuple_windows')
def m_tw(E, fn, a, st):
    v = selfit(E, fn, a, st); ty = fn['ta'][-1]
    if not is_it(v) or ty is None or ty.k != 'tuple': return NotImplemented
    k = len(ty.e); t = fresh()
    n = sub(U, itlen(v), u(k - 1))
    return it(tabraw(n, mk('agg', 'tuple', 0, *[elem(v, add(U, t, u(j))) for j in range(k)]), t), u(0), n), st
@model('itertools::Itertools::tuples')
def m_tuples(E, fn, a, st):
    v = selfit(E, fn, a, st); ty = fn['ta'][-1]
    if not is_it(v) or ty is None or ty.k != 'tuple': return NotImplemented
    k = len(ty.e); t = fresh()
    n = udiv(U, itlen(v), u(k))
    return it(tabraw(n, mk('agg', 'tuple', 0, *[elem(v, add(U, mul(U, t, u(k)), u(j))) for j in range(k)]), t), u(0), n), st
@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'rayon::slice::ParallelSlice::par_chunks')
def m_chunks(E, fn, a, st):
    v = val(a[0], st); k = a[1]; n = seqlen(v); t = fresh()
    ex = 'exact' in fn['p']
    m = udiv(U, n, k) if ex else udiv(U, add(U, n, sub(U, k, u(1))), k)
    lo = mul(U, t, k)
    hi = add(U, lo, k)
    return it(tabraw(m, subseq(v, lo, hi if ex else imin(hi, n)), t), u(0), m), st
@model('core::slice::<impl [T]>::windows')
def m_windows(E, fn, a, st):
    v = val(a[0], st); k = a[1]; n = seqlen(v); t = fresh()
    m = add(U, sub(U, n, k), u(1))
    return it(tabraw(m, subseq(v, t, add(U, t, k)), t), u(0), m), st
@model('core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact_mut', 'rayon::slice::ParallelSliceMut::par_chunks_mut')
def m_chunks_mut(E, fn, a, st):
    if not isref(a[0]): return m_chunks(E, fn, a, st)
    n = seqlen(val(a[0], st)); k = a[1]
    m = udiv(U, add(U, n, sub(U, k, u(1))), k)
    return it(mk('mchunks', a[0], n, k), u(0), m), st

@model(IT + 'filter', PI + 'filter')
def m_filter(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if not is_it(v): return NotImplemented
    t = fresh()
    s, p, e = ispart(v)
    r = pure_apply(E, a[1], [elem(v, t)], st)
    if r is None: return NotImplemented
    q = binder('filter', itlen(v), mk('agg', 'tuple', 0, r, elem(v, t)), t)
    return it(q, u(0), seqlen(q)), st

def seq_of(v): return subseq(*ispart(v)) if ispart(v)[2] is not INF else None

def collect_to(E, v, st, ty):
    """collect iterator v into type ty"""
    n = ty.n if ty is not None and ty.k == 'adt' else None
    if n == 'core::result::Result' or n == 'core::option::Option':
        isres = n == 'core::result::Result'
        inner = ty.a[0]
        if is_it(v) and itlen(v) is not INF:
            t = fresh(); x = elem(v, t); N = itlen(v)
            bad = is_variant(x, 1, 2) if isres else is_variant(x, 0, 2)
            anyb = binder('any', N, bad, t) if not (as_const(N) == 0) else FALSE
            first = binder('first', N, bad, t)
            good = tab(N, proj(x, 0 if isres else 1, 0, 1), t)
            r = ite(anyb, errv(proj(elem(v, first), 1, 0, 1)) if isres else NONE, okv(good) if isres else some(good))
            return r, st
        def step(x, acc, s):
            bad = is_variant(x, 1, 2) if isres else is_variant(x, 0, 2)
            return [merge_val(bad, acc[0], cat(acc[0], lit(proj(x, 0 if isres else 1, 0, 1)))), merge_val(bad, proj(x, 1, 0, 1) if isres else UNIT, acc[1])], s, bad
        (acc, e), st2, broke = consume(E, v, st, step, [EMPTY, UNIT])
        return ite(broke, errv(e) if isres else NONE, okv(acc) if isres else some(acc)), st2
    if n in SEQN or (n == 'alloc::boxed::Box'):
        if is_it(v):
            s = seq_of(v)
            if s is not None: return s, st
        def step(x, acc, s): return [cat(acc[0], lit(x))], s, FALSE
        (acc,), st2, _ = consume(E, v, st, step, [EMPTY])
        return acc, st2
    return None

@model(IT + 'collect', PI + 'collect', 'core::iter::traits::collect::FromIterator::from_iter', 'itertools::Itertools::collect_vec')
def m_collect(E, fn, a, st):
    v = selfit(E, fn, a, st)
    ty = fn.get('dty')
    r = collect_to(E, v, st, ty)
    if r is None:
        if is_it(v) and seq_of(v) is not None:
            return E.mkcall('@collect:' + E.tname(ty), [E.freeze(seq_of(v), st)]), st
        return NotImplemented
    return r

@model(IT + 'for_each', PI + 'for_each')
def m_for_each(E, fn, a, st):
    v = selfit(E, fn, a, st)
    E.frame += 1; root = (E.frame, 0)
    st = st.copy(); st.mem[root] = a[1]
    def step(x, acc, s):
        r, s2, p = E.apply(ref(root), [x], s)
        return [], s2, FALSE
    _, st2, _ = consume(E, v, st, step, [])
    st2 = st2.copy(); st2.mem.pop(root, None)
    return UNIT, st2
@model(IT + 'fold')
def m_fold(E, fn, a, st):
    v = selfit(E, fn, a, st)
    E.frame += 1; root = (E.frame, 0)
    st = st.copy(); st.mem[root] = a[2]
    def step(x, acc, s):
        r, s2, p = E.apply(ref(root), [acc[0], x], s)
        return [r], s2, FALSE
    (acc,), st2, _ = consume(E, v, st, step, [a[1]])
    st2 = st2.copy(); st2.mem.pop(root, None)
    return acc, st2

def search_model(kind):
    def m(E, fn, a, st):
        r0 = a[0]
        v = val(r0, st)
        v = to_it(E, v, st)
        f = a[1]
        if is_it(v) and itlen(v) is not INF:
            t = fresh(); x = elem(v, t)
            r = pure_apply(E, f, [x], st)
            if r is not None:
                N = itlen(v)
                c = batom(r)
                bad = bnot(c) if kind == 'all' else c
                an = anyb(N, bad, t)
                if kind == 'any': return an, st
                if kind == 'all': return bnot(an), st
                first = binder('first', N, bad, t)
                if kind == 'position': return opt(an, first), st
                if kind == 'find': return opt(an, elem(v, first)), st
        def step(x, acc, s):
            r, s2, p = E.apply(f, [x], s)
            c = batom(r)
            bad = bnot(c) if kind == 'all' else c
            return [x if kind == 'find' else add(U, acc[0], u(1))], s2, bad
        if kind in ('any', 'all'):
            _, st2, broke = consume(E, v, st, lambda x, acc, s: ([],) + step(x, [u(0)], s)[1:], [])
            return (broke if kind == 'any' else bnot(broke)), st2
        return NotImplemented
    return m
def anyb(N, bad, t):
    c = as_const(N)
    if c is not None and c <= 16:
        r = FALSE
        for k in range(c): r = bor(r, batom(subst(bad, {t: u(k)})))
        return r
    return binder('any', N, bad, t)
for _k in ('any', 'all', 'position', 'find'):
    MODELS[IT + _k] = search_model(_k); MODELS[PI + _k] = MODELS[IT + _k]

@model(IT + 'sum', IT + 'product', PI + 'sum', PI + 'product')
def m_sum(E, fn, a, st):
    v = selfit(E, fn, a, st)
    ty = fn.get('dty'); s = E.sort(ty) if ty is not None else None
    if s is None: return NotImplemented
    prod = fn['p'].endswith('product')
    def step(x, acc, stt): return [(mul if prod else add)(s, acc[0], resort(x, s))], stt, FALSE
    (acc,), st2, _ = consume(E, v, st, step, [cint(s, 1 if prod else 0)])
    return acc, st2
@model(IT + 'count', 'core::iter::traits::exact_size::ExactSizeIterator::len', 'rayon::iter::IndexedParallelIterator::len')
def m_count(E, fn, a, st):
    v = to_it(E, val(a[0], st), st)
    if is_it(v) and itlen(v) is not INF: return itlen(v), st
    return NotImplemented
@model(IT + 'last')
def m_itlast(E, fn, a, st):
    v = selfit(E, fn, a, st)
    if is_it(v) and itlen(v) is not INF:
        n = itlen(v)
        return opt(cmp_lt(U, u(0), n), elem(v, sub(U, n, u(1)))), st
    return NotImplemented
@model(IT + 'nth')
def m_nth(E, fn, a, st):
    v = to_it(E, val(a[0], st), st)
    if is_it(v) and a[0].op == 'ref':
        s, p, e = ispart(v); st = st.copy()
        q = add(U, p, a[1])
        st.store(a[0], it(s, add(U, q, u(1)), e))
        return opt(TRUE if e is INF else cmp_lt(U, q, e), idx(s, q)), st
    return NotImplemented
@model('core::iter::sources::once::once')
def m_once(E, fn, a, st): return it(lit(a[0]), u(0), u(1)), st
@model('core::iter::sources::repeat::repeat')
def m_repeat(E, fn, a, st):
    t = fresh(); return it(tab(INF, a[0], t), u(0), INF), st
@model('core::iter::sources::empty::empty')
def m_empty(E, fn, a, st): return it(EMPTY, u(0), u(0)), st

def minmax(which):
    def m(E, fn, a, st):
        v = selfit(E, fn, a, st)
        td = fn.get('dty'); s = E.sort(td.a[0]) if td is not None and td.k == 'adt' and td.a else None
        if which == 'max' and s and s[0] == 'u' and is_it(v) and itlen(v) is not INF:
            # (of unsigned numbers: what a running maximum from 0 arrives at)
            some_ = cmp_lt(U, u(0), itlen(v))
            (acc,), st2, _ = consume(E, v, st, lambda x, acc, s_: ([ite(cmp_lt(s, acc[0], x), x, acc[0])], s_, FALSE), [cint(s, 0)])
            return opt(some_, acc), st2
        if is_it(v) and seq_of(v) is not None:
            return E.mkcall('@' + which, [E.freeze(seq_of(v), st)]), st
        return NotImplemented
    return m
MODELS[IT + 'max'] = minmax('max'); MODELS[IT + 'min'] = minmax('min')

# ------------------------------------------------------------------ vectors / slices
def seq_arg(a, st): return val(a, st)

@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'alloc::collections::vec_deque::VecDeque::<T>::new', 'alloc::collections::vec_deque::VecDeque::<T>::with_capacity')
def v_new(E, fn, a, st): return EMPTY, st
@pmodel(r'^<alloc::vec::Vec<T> as core::default::Default>::default')
def v_default(E, fn, a, st): return EMPTY, st
@model('core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len', 'alloc::collections::vec_deque::VecDeque::<T, A>::len', 'core::str::<impl str>::len')
def v_len(E, fn, a, st): return seqlen(val(a[0], st)), st
@model('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'alloc::collections::vec_deque::VecDeque::<T, A>::is_empty')
def v_empty(E, fn, a, st): return cmp_eq_int(U, seqlen(val(a[0], st)), u(0)), st
@model('alloc::vec::Vec::<T, A>::push', 'alloc::collections::vec_deque::VecDeque::<T, A>::push_back')
def v_push(E, fn, a, st):
    st = st.copy(); st.store(a[0], lift_cat(st.load(a[0]), lit(a[1]))); return UNIT, st
def lift_cat(v, x):
    if v.op == 'ite': return merge_val(mk('ite', v.args[0], TRUE, FALSE), lift_cat(v.args[1], assume(x, v.args[0], True)), lift_cat(v.args[2], assume(x, v.args[0], False)))
    return cat(v, x)
@model('alloc::vec::Vec::<T, A>::pop', 'alloc::collections::vec_deque::VecDeque::<T, A>::pop_back')
def v_pop(E, fn, a, st):
    v = st.load(a[0]); n = seqlen(v); c = cmp_lt(U, u(0), n); l = sub(U, n, u(1))
    st = st.copy(); st.store(a[0], merge_val(c, subseq(v, u(0), l), v)); return opt(c, idx(v, l)), st
@model('alloc::collections::vec_deque::VecDeque::<T, A>::pop_front')
def v_popf(E, fn, a, st):
    v = st.load(a[0]); n = seqlen(v); c = cmp_lt(U, u(0), n)
    st = st.copy(); st.store(a[0], merge_val(c, subseq(v, u(1), n), v)); return opt(c, idx(v, u(0))), st
@model('alloc::collections::vec_deque::VecDeque::<T, A>::push_front')
def v_pushf(E, fn, a, st):
    v = st.load(a[0]); st = st.copy(); st.store(a[0], cat(lit(a[1]), v)); return UNIT, st
@model('alloc::collections::vec_deque::VecDeque::<T, A>::front', 'core::slice::<impl [T]>::first')
def v_front(E, fn, a, st):
    v = val(a[0], st); return opt(cmp_lt(U, u(0), seqlen(v)), idx(v, u(0))), st
@model('core::slice::<impl [T]>::last', 'alloc::collections::vec_deque::VecDeque::<T, A>::back')
def v_last(E, fn, a, st):
    v = val(a[0], st); n = seqlen(v); return opt(cmp_lt(U, u(0), n), idx(v, sub(U, n, u(1)))), st
@model('core::slice::<impl [T]>::split_last', 'core::slice::<impl [T]>::split_first')
def v_splitlast(E, fn, a, st):
    v = val(a[0], st); n = seqlen(v); l = sub(U, n, u(1))
    if fn['p'].endswith('first'): return opt(cmp_lt(U, u(0), n), mk('agg', 'tuple', 0, idx(v, u(0)), subseq(v, u(1), n))), st
    return opt(cmp_lt(U, u(0), n), mk('agg', 'tuple', 0, idx(v, l), subseq(v, u(0), l))), st
def rng(E, i, n, fn=None):
    """range-like index value -> (a, b) or None when scalar"""
    if i.op != 'agg' and fn is not None and len(fn.get('tys') or []) > 1:
        t = fn['tys'][1]
        nm = t.n.split('::')[-1] if t is not None and t.k == 'adt' and t.n.startswith('core::ops::range::') else None
        if nm == 'Range': return proj(i, 0, 0, 2), proj(i, 0, 1, 2)
        if nm == 'RangeInclusive': return proj(i, 0, 0, 3), add(U, proj(i, 0, 1, 3), u(1))
        if nm == 'RangeFrom': return proj(i, 0, 0, 1), n
        if nm == 'RangeTo': return u(0), proj(i, 0, 0, 1)
    if i.op == 'agg':
        nm = i.args[0].split('::')[-1]
        f = i.args[2:]
        if nm == 'Range': return f[0], f[1]
        if nm == 'RangeTo': return u(0), f[0]
        if nm == 'RangeFrom': return f[0], n
        if nm == 'RangeFull': return u(0), n
        if nm == 'RangeInclusive': return f[0], add(U, f[1], u(1))
        if nm == 'RangeToInclusive': return u(0), add(U, f[0], u(1))
    return None
def zst_range(i): return i.op == 'zst' and 'RangeFull' in i.args[0]
@pmodel(r'^<(alloc::vec::Vec<T, A>|\[T\]|\[T; N\]|alloc::collections::vec_deque::VecDeque<T, A>) as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$|^core::(slice|array)::.*Index(Mut)?.*::index(_mut)?$|^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def v_index(E, fn, a, st):
    v = val(a[0], st); n = seqlen(v)
    if zst_range(a[1]): return a[0], st
    r = rng(E, a[1], n, fn)
    mut = fn['p'].endswith('index_mut')
    base = a[0] if mut and isref(a[0]) else v
    if r is None:
        return (ref_ext(base, ('i', a[1])) if isref(base) else idx(v, a[1])), st
    return (ref_ext(base, ('sub',) + r) if isref(base) else subseq(v, *r)), st
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'alloc::collections::vec_deque::VecDeque::<T, A>::get')
def v_get(E, fn, a, st):
    v = val(a[0], st); n = seqlen(v); r = rng(E, a[1], n, fn)
    base = a[0] if fn['p'].endswith('mut') and isref(a[0]) else v
    if r is None: return opt(cmp_lt(U, a[1], n), ref_ext(base, ('i', a[1])) if isref(base) else idx(v, a[1])), st
    return opt(bnot(cmp_lt(U, n, r[1])), ref_ext(base, ('sub',) + r) if isref(base) else subseq(v, *r)), st
@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def v_getu(E, fn, a, st):
    v = val(a[0], st); n = seqlen(v); r = rng(E, a[1], n, fn)
    base = a[0] if fn['p'].endswith('mut') and isref(a[0]) else v
    if r is None: return (ref_ext(base, ('i', a[1])) if isref(base) else idx(v, a[1])), st
    return (ref_ext(base, ('sub',) + r) if isref(base) else subseq(v, *r)), st
@model('core::slice::<impl [T]>::swap')
def v_swap(E, fn, a, st):
    if not isref(a[0]): return UNIT, st
    v = st.load(a[0]); i, j = a[1], a[2]
    x, y = idx(v, i), idx(v, j)
    st = st.copy(); st.store(a[0], upd(upd(v, i, y), j, x)); return UNIT, st
@model('core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at')
def v_split(E, fn, a, st):
    v = val(a[0], st); n = seqlen(v)
    base = a[0] if fn['p'].endswith('mut') and isref(a[0]) else v
    if isref(base): return mk('agg', 'tuple', 0, ref_ext(base, ('sub', u(0), a[1])), ref_ext(base, ('sub', a[1], n))), st
    return mk('agg', 'tuple', 0, subseq(v, u(0), a[1]), subseq(v, a[1], n)), st
@model('alloc::slice::<impl [T]>::to_vec', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::vec::Vec::<T, A>::into_boxed_slice', 'alloc::slice::<impl [T]>::into_vec', 'alloc::borrow::ToOwned::to_owned', 'core::slice::<impl [T]>::as_ref', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def v_id(E, fn, a, st):
    if fn['p'].endswith('as_mut_slice'): return a[0], st
    return val(a[0], st), st
@pmodel(r'^<(alloc::vec::Vec<T, A>|alloc::boxed::Box<T, A>|alloc::boxed::Box<T>|alloc::string::String|alloc::sync::Arc<T, A>|alloc::rc::Rc<T, A>|alloc::borrow::Cow<.*>) as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^<(alloc::vec::Vec<T, A>|\[T\]|\[T; N\]|&T|&mut T) as (core::convert::As(Ref|Mut)<.*>|core::borrow::Borrow(Mut)?<.*>)>::')
def v_deref(E, fn, a, st):
    return (a[0] if '_mut' in fn['p'] else val(a[0], st)), st
@model('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow')
def v_asref(E, fn, a, st):
    if 'zkp_' in fn['ip'].split(' as ')[0]: return NotImplemented
    return val(a[0], st), st
@model('alloc::vec::from_elem')
def v_from_elem(E, fn, a, st):
    t = fresh(); return tab(a[1], a[0], t), st
@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::<T, A>::extend_from_slice')
def v_extend(E, fn, a, st):
    ty = fn['tys'][0]
    if not seqty(ty) or 'zkp_' in fn['ip'].split(' as ')[0]: return NotImplemented
    v = st.load(a[0]); x = selfit(E, fn, a, st, 1)
    if is_it(x) and seq_of(x) is not None:
        st = st.copy(); st.store(a[0], lift_cat(v, seq_of(x))); return UNIT, st
    def step(y, acc, s): return [cat(acc[0], lit(y))], s, FALSE
    (acc,), st2, _ = consume(E, x, st, step, [v])
    st2 = st2.copy(); st2.store(a[0], acc); return UNIT, st2
@model('alloc::vec::Vec::<T, A>::append')
def v_append(E, fn, a, st):
    st = st.copy(); st.store(a[0], cat(st.load(a[0]), st.load(a[1]))); st.store(a[1], EMPTY); return UNIT, st
@model('alloc::vec::Vec::<T, A>::truncate')
def v_trunc(E, fn, a, st):
    v = st.load(a[0]); st = st.copy(); n = seqlen(v)
    st.store(a[0], subseq(v, u(0), imin(n, a[1]))); return UNIT, st
@model('alloc::vec::Vec::<T, A>::clear')
def v_clear(E, fn, a, st):
    st = st.copy(); st.store(a[0], EMPTY); return UNIT, st
@model('alloc::vec::Vec::<T, A>::resize')
def v_resize(E, fn, a, st):
    v = st.load(a[0]); n = seqlen(v); t = fresh()
    st = st.copy(); st.store(a[0], merge_val(cmp_lt(U, n, a[1]), cat(v, tab(sub(U, a[1], n), a[2], t)), subseq(v, u(0), a[1]))); return UNIT, st
@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::collections::vec_deque::VecDeque::<T, A>::reserve')
def v_nop(E, fn, a, st): return UNIT, st
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def v_copy(E, fn, a, st):
    st = st.copy(); st.store(a[0], val(a[1], st)); return UNIT, st
@model('core::slice::<impl [T]>::fill')
def v_fill(E, fn, a, st):
    v = st.load(a[0]); t = fresh(); st = st.copy(); st.store(a[0], tab(seqlen(v), a[1], t)); return UNIT, st
@model('core::slice::<impl [T]>::reverse')
def v_reverse(E, fn, a, st):
    v = st.load(a[0]); t = fresh(); n = seqlen(v); st = st.copy()
    st.store(a[0], tab(n, idx(v, sub(U, sub(U, n, u(1)), t)), t)); return UNIT, st
def sortm(E, fn, a, st):
    v = st.load(a[0]); st2 = st.copy()
    if v.op == 'lit' and len(v.args) <= 1: return UNIT, st2
    key = E.freeze(a[1], st) if len(a) > 1 else UNIT
    st2.store(a[0], mk('sorted', E.freeze(v, st), key)); return UNIT, st2
for _n in ('sort_unstable', 'sort_unstable_by_key', 'sort_unstable_by'): MODELS['core::slice::<impl [T]>::' + _n] = sortm
for _n in ('sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key'): MODELS['alloc::slice::<impl [T]>::' + _n] = sortm
def dedupm(E, fn, a, st):
    v = st.load(a[0]); st2 = st.copy()
    key = E.freeze(a[1], st) if len(a) > 1 else UNIT
    st2.store(a[0], mk('dedup', E.freeze(v, st), key)); return UNIT, st2
MODELS['alloc::vec::Vec::<T, A>::dedup'] = dedupm
MODELS['alloc::vec::Vec::<T, A>::dedup_by_key'] = dedupm

# ------------------------------------------------------------------ Box, mem, clone, convert, cmp
@model('alloc::boxed::Box::<T>::new', 'core::hint::must_use', 'core::hint::black_box', 'core::mem::manually_drop::ManuallyDrop::<T>::new', 'alloc::sync::Arc::<T>::new', 'core::convert::identity')
def m_id(E, fn, a, st): return a[0], st
@model('core::mem::drop', 'core::mem::forget', 'core::ops::drop::Drop::drop')
def m_drop(E, fn, a, st): return UNIT, st
@model('core::ptr::drop_in_place')
def m_dropin(E, fn, a, st):
    # the place holds no value any more
    if not isref(a[0]): return UNIT, st
    v = st.load(a[0]); st = st.copy()
    if a[0].args[1] and a[0].args[1][-1][0] == 'sub': st.store(a[0], tab(seqlen(v), mk('dropped'), fresh()))
    else: st.store(a[0], mk('dropped'))
    return UNIT, st
# a memory map is the sequence of what its pages hold, seen through the type of the pointer that reaches it
@pmodel(r'^<memmap::MmapMut as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^core::slice::<impl \[T\]>::as_(mut_)?ptr$')
def m_mmap(E, fn, a, st):
    if ('deref_mut' in fn['p'] or 'as_mut_ptr' in fn['p']): return (a[0] if isref(a[0]) else NotImplemented), st
    return val(a[0], st), st
@model('core::slice::raw::from_raw_parts_mut', 'core::slice::raw::from_raw_parts')
def m_rawparts(E, fn, a, st):
    if isref(a[0]) and fn['p'].endswith('mut'): return ref_ext(a[0], ('sub', u(0), a[1])), st
    return subseq(val(a[0], st), u(0), a[1]), st
@model('core::mem::swap')
def m_swap(E, fn, a, st):
    x, y = st.load(a[0]), st.load(a[1]); st = st.copy(); st.store(a[0], y); st.store(a[1], x); return UNIT, st
@model('core::mem::replace')
def m_replace(E, fn, a, st):
    x = st.load(a[0]); st = st.copy(); st.store(a[0], a[1]); return x, st
@model('core::clone::Clone::clone')
def m_clone(E, fn, a, st):
    name = fn.get('i')
    b = E.F.bodies.get(name)
    if b is not None and b.crate.startswith('zkp') and not b.mac: return NotImplemented
    return val(a[0], st), st
@model('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_deref', 'core::result::Result::<T, E>::as_ref')
def m_optid(E, fn, a, st): return val(a[0], st), st
@model('core::option::Option::<T>::as_mut')
def m_asmut(E, fn, a, st):
    if not isref(a[0]): return a[0], st
    v = st.load(a[0])
    return opt(is_variant(v, 1, 2), ref_ext(a[0], ('f', 1, 0, 1, 'core::option::Option'))), st
@model('core::option::Option::<T>::take')
def m_take_opt(E, fn, a, st):
    v = st.load(a[0]); st = st.copy(); st.store(a[0], NONE); return v, st

@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(E, fn, a, st):
    ne = fn['p'].endswith('ne')
    b = E.F.bodies.get(fn.get('i'))
    x, y = val(a[0], st), val(a[1], st)
    ty = fn['tys'][0] if fn.get('tys') else None
    while ty is not None and ty.k in ('ref', 'ptr'): ty = ty.e
    s = E.sort(ty) if ty is not None else None
    if b is not None and b.crate.startswith('zkp') and not b.mac and s is None:
        if b.path.endswith('::ne') or b.path.endswith('::eq'): return NotImplemented
    if s is not None: r = E.eq_int(s, x, y)
    elif ty is not None and ty.k == 'bool': r = ite(batom(x), batom(y), bnot(y))
    elif ty is not None and seqty(ty):
        r = seq_eq(E, E.freeze(x, st), E.freeze(y, st))
    else:
        x, y = E.freeze(x, st), E.freeze(y, st)
        r = struct_eq(E, ty, x, y) if ty is not None else None
        if r is None: r = cmp_eq(x, y)
    return (bnot(r) if ne else r), st
def struct_eq(E, ty, x, y, d=0):
    """derived equality of a small plain record, field by field"""
    while ty.k in ('ref', 'ptr'): ty = ty.e
    s = E.sort(ty)
    if s is not None: return E.eq_int(s, x, y)
    if d > 3: return None
    if ty.k == 'adt' and ty.n == 'core::option::Option' and ty.a and not isinstance(ty.a[0], (int, str)):
        q = struct_eq(E, ty.a[0], proj(x, 1, 0, 1), proj(y, 1, 0, 1), d + 1)
        return None if q is None else ite(is_variant(x, 1, 2), band(is_variant(y, 1, 2), q), bnot(is_variant(y, 1, 2)))
    if ty.k == 'bool': return ite(batom(x), batom(y), bnot(y))
    if ty.k == 'array' and isinstance(ty.l, int) and ty.l <= 8:
        fs = [(ty.e, idx(x, u(i)), idx(y, u(i))) for i in range(ty.l)]
    elif ty.k == 'adt' and ty.n.startswith('zkp') and ty.f and len(ty.f) == 1 and all(ty.f[0]):
        b = E.F.bodies.get('<%s as core::cmp::PartialEq>::eq' % ty.s)
        if b is None or not b.mac: return None
        n = len(ty.f[0])
        fs = [(t, proj(x, 0, i, n), proj(y, 0, i, n)) for i, t in enumerate(ty.f[0])]
    else: return None
    r = TRUE
    for t, a, c in fs:
        q = struct_eq(E, t, a, c, d + 1)
        if q is None: return None
        r = band(r, q)
    return r
def seq_eq(E, x, y):
    if x.op == 'lit' and y.op == 'lit':
        if len(x.args) != len(y.args): return FALSE
        r = TRUE
        for p, q in zip(x.args, y.args): r = band(r, cmp_eq_any(p, q))
        return r
    return cmp_eq(x, y)
def cmp_eq_any(p, q):
    if p.op in ('int', 'poly') or q.op in ('int', 'poly'):
        s = p.args[0] if p.op in ('int', 'poly') else q.args[0]
        return cmp_eq_int(s, p, q)
    return cmp_eq(p, q)

def ordm(E, fn, a, st):
    op = fn['p'].split('::')[-1]
    x, y = val(a[0], st), val(a[1], st)
    ty = fn['tys'][0] if fn.get('tys') else None
    while ty is not None and ty.k in ('ref', 'ptr'): ty = ty.e
    if ty is not None and ty.k == 'adt' and ty.n.startswith('log::'): return FALSE, st
    s = E.sort(ty) if ty is not None else None
    if s is None: return NotImplemented
    if op == 'lt': return cmp_lt(s, x, y), st
    if op == 'gt': return cmp_lt(s, y, x), st
    if op == 'le': return bnot(cmp_lt(s, y, x)), st
    if op == 'ge': return bnot(cmp_lt(s, x, y)), st
    O = 'core::cmp::Ordering'
    r = ite(cmp_lt(s, x, y), mk('agg', O, 0), ite(cmp_lt(s, y, x), mk('agg', O, 2), mk('agg', O, 1)))
    return (some_l(r) if op == 'partial_cmp' else r), st
def some_l(r): return lift(some, r)
for _n in ('lt', 'gt', 'le', 'ge', 'partial_cmp'): MODELS['core::cmp::PartialOrd::' + _n] = ordm
MODELS['core::cmp::Ord::cmp'] = ordm
@model('core::cmp::min', 'core::cmp::max', 'core::cmp::Ord::min', 'core::cmp::Ord::max')
def m_minmax(E, fn, a, st):
    ty = fn['tys'][0]; s = E.sort(ty)
    if s is None: return NotImplemented
    c = cmp_lt(s, a[0], a[1])
    return (ite(c, a[0], a[1]) if fn['p'].endswith('min') else ite(c, a[1], a[0])), st

@model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def m_fncall(E, fn, a, st):
    f = a[0]
    args = list(a[1].args[2:]) if a[1].op == 'agg' else [a[1]]
    fv = val(f, st)
    if fv.op == 'ref': f = fv
    return E.apply(f, args, st)
@model('@indirect')
def m_indirect(E, fn, a, st):
    return E.apply(fn['v'], a, st)

# ------------------------------------------------------------------ Option / Result combinators on values
def is_some(v): return is_variant(v, 1, 2)
@model('core::ops::try_trait::Try::branch')
def m_branch(E, fn, a, st):
    CF = 'core::ops::control_flow::ControlFlow'
    isres = 'result::Result' in fn['ip'].split(' as ')[0]
    v = a[0]
    if isres:
        c = is_variant(v, 0, 2)
        return ite(c, mk('agg', CF, 0, proj(v, 0, 0, 1)), mk('agg', CF, 1, errv(proj(v, 1, 0, 1)))), st
    if 'option::Option' in fn['ip'].split(' as ')[0]:
        c = is_variant(v, 1, 2)
        return ite(c, mk('agg', CF, 0, proj(v, 1, 0, 1)), mk('agg', CF, 1, NONE)), st
    return NotImplemented
@model('core::ops::try_trait::FromResidual::from_residual')
def m_residual(E, fn, a, st):
    if 'option::Option' in fn['ip'].split(' as ')[0]: return NONE, st
    e = proj(a[0], 1, 0, 1)
    # conversion of the error type
    tys = fn['ta']
    try:
        te = tys[0].a[1]; ts = tys[1].a[1]
        if te is ts or te.s == ts.s: return errv(e), st
        want = f'<{te.s} as core::convert::From<{ts.s}>>::from'
        b = E.F.bodies.get(want)
        if b is not None:
            r, st2, p = E.call_body(b, [e], st)
            return errv(r), st2, p
        return errv(E.mkcall('@from:' + E.tname(te), [e])), st
    except Exception:
        return errv(e), st
@model('core::option::Option::<T>::unwrap', 'core::option::Option::<T>::expect', 'core::option::Option::<T>::unwrap_unchecked')
def m_unwrap(E, fn, a, st):
    v = a[0]; c = is_variant(v, 1, 2)
    return proj(v, 1, 0, 1), st, bnot(c)
@model('core::result::Result::<T, E>::unwrap', 'core::result::Result::<T, E>::expect')
def m_unwrapr(E, fn, a, st):
    v = a[0]; c = is_variant(v, 0, 2)
    return proj(v, 0, 0, 1), st, bnot(c)
@model('core::option::Option::<T>::is_some', 'core::option::Option::<T>::is_none')
def m_issome(E, fn, a, st):
    c = is_variant(val(a[0], st), 1, 2)
    return (c if fn['p'].endswith('is_some') else bnot(c)), st
@model('core::result::Result::<T, E>::is_ok', 'core::result::Result::<T, E>::is_err')
def m_isok(E, fn, a, st):
    c = is_variant(val(a[0], st), 0, 2)
    return (c if fn['p'].endswith('is_ok') else bnot(c)), st
@model('core::result::Result::<T, E>::ok')
def m_ok(E, fn, a, st):
    v = a[0]; return opt(is_variant(v, 0, 2), proj(v, 0, 0, 1)), st
def cond_apply(E, f, args, st, c):
    from engine import merge_states
    if c is FALSE: return BOT, st, FALSE
    r, s2, p = E.apply(f, args, st)
    return r, (s2 if c is TRUE else merge_states([(c, s2), (TRUE, st)])), band(c, p)
@model('core::option::Option::<T>::map', 'core::option::Option::<T>::and_then', 'core::result::Result::<T, E>::map', 'core::result::Result::<T, E>::and_then')
def m_omap(E, fn, a, st):
    v = a[0]; o = 'option' in fn['p']; k = 1 if o else 0
    c = is_variant(v, k, 2)
    r, st2, p = cond_apply(E, a[1], [proj(v, k, 0, 1)], st, c)
    good = (some(r) if o else okv(r)) if fn['p'].endswith('map') else r
    if c is FALSE: good = BOT
    return merge_val(c, good, NONE if o else errv(proj(v, 1, 0, 1))), st2, p
@model('core::result::Result::<T, E>::map_err')
def m_maperr(E, fn, a, st):
    v = a[0]; c = is_variant(v, 1, 2)
    r, st2, p = cond_apply(E, a[1], [proj(v, 1, 0, 1)], st, c)
    return ite(c, errv(r), okv(proj(v, 0, 0, 1))), st2, p
@model('core::option::Option::<T>::ok_or', 'core::option::Option::<T>::ok_or_else')
def m_okor(E, fn, a, st):
    v = a[0]; c = is_variant(v, 1, 2); p = FALSE
    if fn['p'].endswith('else'): e, st, p = cond_apply(E, a[1], [], st, bnot(c))
    else: e = a[1]
    return ite(c, okv(proj(v, 1, 0, 1)), errv(e)), st, p
@model('core::option::Option::<T>::unwrap_or', 'core::option::Option::<T>::unwrap_or_else', 'core::option::Option::<T>::map_or', 'core::option::Option::<T>::map_or_else')
def m_uor(E, fn, a, st):
    v = a[0]; c = is_variant(v, 1, 2); n = fn['p'].split('::')[-1]; p = FALSE; p2 = FALSE
    x = proj(v, 1, 0, 1)
    if n == 'unwrap_or': return merge_val(c, x, a[1]), st
    if n == 'unwrap_or_else': d, st, p = cond_apply(E, a[1], [], st, bnot(c)); return merge_val(c, x, d), st, p
    if n == 'map_or': d = a[1]
    else: d, st, p = cond_apply(E, a[1], [], st, bnot(c))
    r, st, p2 = cond_apply(E, a[2], [x], st, c)
    return merge_val(c, r, d), st, bor(p, p2)
@model('core::result::Result::<T, E>::unwrap_or_else', 'core::result::Result::<T, E>::unwrap_or')
def m_ruor(E, fn, a, st):
    v = a[0]; c = is_variant(v, 0, 2); p = FALSE
    if fn['p'].endswith('unwrap_or'): d = a[1]
    else: d, st, p = cond_apply(E, a[1], [proj(v, 1, 0, 1)], st, bnot(c))
    return merge_val(c, proj(v, 0, 0, 1), d), st, p
@model('core::option::Option::<T>::or', 'core::option::Option::<T>::filter', 'core::option::Option::<T>::or_else')
def m_oor(E, fn, a, st):
    v = a[0]; c = is_variant(v, 1, 2)
    if fn['p'].endswith('::or'): return merge_val(c, v, a[1]), st
    if fn['p'].endswith('or_else'):
        d, st, p = cond_apply(E, a[1], [], st, bnot(c)); return merge_val(c, v, d), st, p
    r, st, p = cond_apply(E, a[1], [proj(v, 1, 0, 1)], st, c)
    return ite(band(c, batom(r) if c is not FALSE else FALSE), v, NONE), st, p
@pmodel(r'^core::bool::<impl bool>::then(_some)?$')
def m_then(E, fn, a, st):
    c = batom(a[0])
    if fn['p'].endswith('then_some'): return opt(c, a[1]), st
    r, st, p = cond_apply(E, a[1], [], st, c)
    return opt(c, r), st, p

# ------------------------------------------------------------------ integers
def isort(E, fn, a):
    ty = fn['tys'][0] if fn.get('tys') else None
    while ty is not None and ty.k == 'ref': ty = ty.e
    return E.sort(ty) if ty is not None else None
@pmodel(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(wrapping|unchecked|strict)_(add|sub|mul|shl|shr|neg)$')
def m_wrap(E, fn, a, st):
    s = isort(E, fn, a); op = fn['p'].split('_')[-1]
    if op == 'neg': return neg(s, a[0]), st
    f = {'add': add, 'sub': sub, 'mul': mul, 'shl': shl, 'shr': shr}[op]
    return f(s, a[0], resort(a[1], 'u64') if op in ('shl', 'shr') else a[1]), st
@pmodel(r'^core::num::<impl u(8|16|32|64|128|size)>::(checked|overflowing|saturating)_(add|sub|mul)$')
def m_chk(E, fn, a, st):
    s = isort(E, fn, a); kind, op = fn['p'].split('::')[-1].split('_')
    f = {'add': add, 'sub': sub, 'mul': mul}[op]
    r = f(s, a[0], a[1])
    if op == 'sub': ov = cmp_lt(s, a[0], a[1])
    else: ov = batom(mk('ovf', op, s, *sorted((a[0], a[1]), key=lambda z: z.h))) if a[0].op != 'int' or a[1].op != 'int' else FALSE
    if kind == 'checked': return ite(ov, NONE, some(r)), st
    if kind == 'overflowing': return mk('agg', 'tuple', 0, r, ov), st
    if op == 'sub': return ite(ov, cint(s, 0), r), st
    return ite(ov, cint(s, -1), r), st
@pmodel(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::pow$')
def m_ipow(E, fn, a, st):
    s = isort(E, fn, a); c = as_const(a[0])
    if c == 2: return pow2(s, resort(a[1], 'u64')), st
    return fpow_int(s, a[0], resort(a[1], 'u64')), st
def fpow_int(s, b, e):
    if b.op == 'ite' or e.op == 'ite': return lift(lambda x, y: fpow_int(s, x, y), b, e)
    cb, ce = as_const(b), as_const(e)
    if cb is not None and ce is not None: return cint(s, cb ** ce)
    if cb is not None and is_pow2(cb): return pow2(s, mul('u64', e, cint('u64', cb.bit_length() - 1)))
    return mk('ipow', s, b, e)
@pmodel(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(max_value|min_value)$')
def m_maxv(E, fn, a, st):
    m = re.search(r'impl ([ui])(\w+)>', fn['p']); s = m.group(1) + ('64' if m.group(2) == 'size' else m.group(2))
    b = int(s[1:])
    if fn['p'].endswith('max_value'): return cint(s, (1 << b) - 1 if s[0] == 'u' else (1 << (b - 1)) - 1), st
    return cint(s, 0 if s[0] == 'u' else -(1 << (b - 1))), st
@pmodel(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(leading_zeros|trailing_zeros|count_ones|count_zeros|reverse_bits|is_power_of_two|next_power_of_two|abs|unsigned_abs|is_positive|is_negative|signum|swap_bytes|rotate_left|rotate_right|ilog2|abs_diff)$')
def m_bits(E, fn, a, st):
    s = isort(E, fn, a); op = fn['p'].split('::')[-1]
    x = a[0]
    if op == 'is_positive': return cmp_lt(s, cint(s, 0), x), st
    if op == 'is_negative': return cmp_lt(s, x, cint(s, 0)), st
    if op == 'abs': return lift(lambda y: cint(s, abs(y.args[1])) if y.op == 'int' else mk('abs', s, y), x), st
    def f(y):
        c = as_const(y); b = int(s[1:])
        if c is not None and s[0] == 'u':
            if op == 'leading_zeros': return cint('u32', b - c.bit_length())
            if op == 'trailing_zeros': return cint('u32', b if c == 0 else (c & -c).bit_length() - 1)
            if op == 'count_ones': return cint('u32', bin(c).count('1'))
            if op == 'count_zeros': return cint('u32', b - bin(c).count('1'))
            if op == 'is_power_of_two': return TRUE if is_pow2(c) else FALSE
            if op == 'next_power_of_two': return cint(s, 1 << max(0, (c - 1).bit_length()))
        if y.op == 'pow2':
            if op == 'trailing_zeros': return y.args[1]
            if op == 'is_power_of_two': return TRUE
            if op == 'leading_zeros': return sub('u32', cint('u32', b - 1), resort(y.args[1], 'u32'))
        t = mk(op, s, y, *a[1:])
        return batom(t) if op == 'is_power_of_two' else t
    return lift(f, x), st
@pmodel(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(to_be_bytes|to_le_bytes|from_be_bytes|from_le_bytes)$')
def m_bytes(E, fn, a, st):
    op = fn['p'].split('::')[-1]
    m = re.search(r'impl ([ui])(\w+)>', fn['p']); b = 64 if m.group(2) == 'size' else int(m.group(2))
    s = m.group(1) + str(b)
    if op.startswith('to_'):
        n = b // 8; xs = [urem(s, udiv(s, a[0], cint(s, 1 << (8 * i))), cint(s, 256)) for i in range(n)]
        xs = [resort(x, 'u8') for x in xs]
        return lit(*(reversed(xs) if op == 'to_be_bytes' else xs)), st
    v = val(a[0], st)
    n = b // 8
    xs = [resort(idx(v, u(i)), s) for i in range(n)]
    if op == 'from_be_bytes': xs.reverse()
    r = cint(s, 0)
    for i, x in enumerate(xs): r = add(s, r, mul(s, x, cint(s, 1 << (8 * i))))
    return r, st
@model('core::convert::Into::into', 'core::convert::From::from', 'core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def m_into(E, fn, a, st):
    ts = fn['tys'][0] if fn.get('tys') else None; td = fn.get('dty')
    if ts is None or td is None: return NotImplemented
    ss = E.sort(ts) if ts.k in ('int', 'uint', 'char') else None
    tr = fn['p'].split('::')[-1].startswith('try')
    if tr and td.k == 'adt' and td.n == 'core::result::Result': td = td.a[0]
    sd = E.sort(td) if td.k in ('int', 'uint', 'char') else None
    if ss and sd:
        r = E.int_cast(a[0], ss, sd)
        if not tr: return r, st
        bs, bd = int(ss[1:]), int(sd[1:])
        if bd > bs or (bd == bs and ss[0] == sd[0]): return okv(r), st
        lim = 1 << (bd if sd[0] == 'u' else bd - 1)
        c = cmp_lt('u128', resort(a[0], 'u128'), cint('u128', lim)) if ss[0] == 'u' else bnot(cmp_lt(ss, a[0], cint(ss, 0)))
        return ite(c, okv(resort(a[0], sd)), errv(mk('zst', 'TryFromIntError'))), st
    if ts.k == 'bool' and sd: return ite(batom(a[0]), cint(sd, 1), cint(sd, 0)), st
    if ts is td or ts.s == td.s: return a[0] if not tr else okv(a[0]), st
    if not tr and seqty(ts) and seqty(td): return val(a[0], st), st
    if fn['p'].endswith('Into::into') or fn['p'].endswith('try_into'):
        # resolve to From impl of the workspace
        base = 'TryFrom' if tr else 'From'; meth = 'try_from' if tr else 'from'
        want = f'<{td.s} as core::convert::{base}<{ts.s}>>::{meth}'
        b = E.F.bodies.get(want)
        if b is not None:
            f2 = {'p': 'core::convert::%s::%s' % (base, meth), 'i': want, 'ip': b.path, 'ta': [td, ts], 'tys': [ts], 'dty': fn.get('dty')}
            return E.call_named(f2, want, b.path, f2['p'], a, st, fn.get('dty'))
    return NotImplemented
@pmodel(r'^<?\[.*\] as core::default::Default>::default')
def m_arrdef(E, fn, a, st):
    return NotImplemented
@model('core::default::Default::default')
def m_default(E, fn, a, st):
    ty = fn.get('dty')
    r = default_of(E, ty)
    if r is None: return NotImplemented
    return r, st
def default_of(E, ty):
    if ty is None: return None
    if ty.k in ('int', 'uint'): return cint(E.sort(ty), 0)
    if ty.k == 'bool': return FALSE
    if ty.k == 'array':
        d = default_of(E, ty.e)
        if d is None: return None
        t = fresh(); return tab(u(int(ty.l)), d, t)
    if ty.k == 'adt' and ty.n in SEQN and not ty.n.startswith('zkp'): return EMPTY
    if ty.k == 'adt' and ty.n == 'core::option::Option': return NONE
    return None

# ------------------------------------------------------------------ sponges: the digest depends on the bytes absorbed, in order, and nothing else
@pmodel(r'^tiny_keccak::(keccak::Keccak|sha3::Sha3)::v\d+$')
def k_new(E, fn, a, st): return mk('agg', '@sponge', 0, mk('str', fn['p'].split('::', 1)[1]), EMPTY), st
@pmodel(r'^<tiny_keccak::(keccak::Keccak|sha3::Sha3) as tiny_keccak::Hasher>::(update|finalize)')
def k_op(E, fn, a, st): return sponge(E, fn['ip'].split('::')[-1], a, st)
def sponge(E, op, a, st):
    k = val(a[0], st)
    if k.op == 'ite':
        from engine import merge_states
        return NotImplemented
    kind, data = proj(k, 0, 0, 2), proj(k, 0, 1, 2)
    if op == 'update':
        if not isref(a[0]): return NotImplemented
        x = E.freeze(val(a[1], st), st)
        st = st.copy(); st.store(a[0], mk('agg', '@sponge', 0, kind, cat(data, x))); return UNIT, st
    if not isref(a[1]): return NotImplemented
    n = seqlen(st.load(a[1]))
    if n.op == 'len': n = u(32)      # an array field or parameter: the digest arrays of these hashers have 32 bytes
    st = st.copy(); st.store(a[1], digest_of(kind, data, n)); return UNIT, st
def digest_of(kind, data, n):
    return mk('keccak', kind, data, n)

# ------------------------------------------------------------------ text: strings are byte sequences, a formatted value is a piece of text
def text(kind, spec, x):
    return mk('call', '@text', x, mk('str', kind + spec))
STRTY = re.compile(r"::<(&(mut )?|'_ )*(alloc::string::String|str)>$")
@pmodel(r"^core::fmt::rt::Argument::<'_>::(new_\w+|from_usize)$")
def f_arg(E, fn, a, st):
    k = fn['ip'].rsplit('::', 1)[-1].replace('new_', '')
    x = E.freeze(val(a[0], st), st)
    return mk('agg', '@fmtarg', 0, x, mk('str', k), mk('str', 's' if STRTY.search(fn.get('i') or '') else '')), st
@pmodel(r"^core::fmt::Arguments::<'a>::(from_str|from_str_nonconst|new_const)$")
def f_const(E, fn, a, st):
    x = E.freeze(val(a[0], st), st)
    if fn['ip'].endswith('new_const'): return NotImplemented
    return cat(x, EMPTY), st
@pmodel(r"^core::fmt::Arguments::<'a>::new$")
def f_new(E, fn, a, st):
    t, args = E.freeze(val(a[0], st), st), E.freeze(val(a[1], st), st)
    try:
        b = bytes(as_const(x) for x in t.args) if t.op == 'lit' else t.args[0].encode('latin-1') if t.op == 'str' else None
    except (TypeError, ValueError): b = None
    if b is None or args.op != 'lit': return mk('call', '@fmt', t, args), st
    def arg(n):
        x = args.args[n]
        return x.args[2], x.args[3].args[0], x.args[4].args[0]
    out = []; i = 0; n = 0
    le = lambda j, k: int.from_bytes(b[j:j + k], 'little')
    try:
        while True:
            c = b[i]; i += 1
            if c == 0: break
            if c < 0x80: out.append(mk('str', b[i:i + c].decode())); i += c
            elif c == 0x80: k = le(i, 2); out.append(mk('str', b[i + 2:i + 2 + k].decode())); i += 2 + k
            else:
                spec = ''; dyn = []
                if c & 1: spec += f':flags={le(i, 4):x}'; i += 4
                if c & 2:
                    w = le(i, 2); i += 2
                    if c & 16: dyn.append(arg(w)[0]); spec += ':width=*'
                    else: spec += f':width={w}'
                if c & 4:
                    w = le(i, 2); i += 2
                    if c & 32: dyn.append(arg(w)[0]); spec += ':precision=*'
                    else: spec += f':precision={w}'
                if c & 8: n = le(i, 2); i += 2
                x, k, isstr = arg(n); n += 1
                if k == 'display' and isstr and not spec: out.append(x)
                elif dyn: out.append(mk('call', '@text', x, mk('str', k + spec), *dyn))
                else: out.append(text(k, spec, x))
    except IndexError: return mk('call', '@fmt', t, args), st
    return cat(*out), st
@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def f_format(E, fn, a, st): return a[0], st
@pmodel(r'^alloc::string::String::(new|with_capacity)$|^<alloc::string::String as core::default::Default>::default$')
def s_new(E, fn, a, st): return EMPTY, st
@pmodel(r'^<alloc::string::String as core::convert::From<&(mut )?str>>::from$|^<alloc::string::String as core::convert::From<&alloc::string::String>>::from$|^alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned$|^<T as alloc::string::ToString>::to_string$|^<alloc::string::String as core::clone::Clone>::clone$|^alloc::string::String::(as_str|into_boxed_str|as_bytes|into_bytes)$|^<alloc::string::String as core::ops::deref::Deref>::deref$|^<alloc::string::String as core::convert::AsRef<str>>::as_ref$|^core::str::<impl str>::(as_bytes|to_owned)$|^alloc::str::<impl str>::(into_string|to_owned)$|^<alloc::string::String as core::convert::From<alloc::string::String>>::from$')
def s_same(E, fn, a, st):
    x = E.freeze(val(a[0], st), st)
    if fn['ip'].endswith('::to_string'):
        ty = fn.get('a') or []
        n = fn.get('i') or ''
        if not re.match(r'<(alloc::string::String|str|&str) as ', n): return text('display', '', x), st
    return cat(x, EMPTY), st
def s_app(E, a, st, x):
    if not isref(a[0]): return NotImplemented
    st = st.copy(); st.store(a[0], cat(st.load(a[0]), x)); return UNIT, st
@model('alloc::string::String::push_str', '<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def s_push(E, fn, a, st): return s_app(E, a, st, E.freeze(val(a[1], st), st))
@model('alloc::string::String::push')
def s_pushc(E, fn, a, st): return s_app(E, a, st, s_char(a[1]))
def s_char(c):
    k = as_const(c)
    return mk('str', chr(k)) if k is not None else text('char', '', c)
@model('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def s_add(E, fn, a, st): return cat(E.freeze(val(a[0], st), st), E.freeze(val(a[1], st), st)), st
@pmodel(r'^<alloc::string::String as core::fmt::Write>::(write_str|write_char)$|^core::fmt::Write::write_fmt$')
def s_write(E, fn, a, st):
    if fn['ip'].endswith('write_fmt') and not re.search(r'<alloc::string::String as |write_fmt::<alloc::string::String>', fn.get('i') or ''): return NotImplemented
    x = s_char(a[1]) if fn['ip'].endswith('write_char') else E.freeze(val(a[1], st), st)
    r = s_app(E, a, st, x)
    if r is NotImplemented: return r
    return okv(UNIT), r[1]
@model('core::str::<impl str>::len', 'alloc::string::String::len')
def s_len(E, fn, a, st): return seqlen(E.freeze(val(a[0], st), st)), st
@model('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def s_empty(E, fn, a, st): return cmp_lt(U, seqlen(E.freeze(val(a[0], st), st)), u(1)), st

# ------------------------------------------------------------------ logging and panics are effect free here
@pmodel(r'^(log::max_level|log::__private_api|core::fmt::rt::|core::fmt::Arguments|std::io::stdio::_e?print)')
def m_log(E, fn, a, st): return UNIT, st
@pmodel(r'^core::core_arch::x86::.*_mm_prefetch|^memadvise::')
def m_prefetch(E, fn, a, st): return UNIT, st
