"""Gated value-numbering dataflow over monomorphised MIR.

For a function the analysis computes one canonical value graph per observable output: the returned
value and the final content of every &mut parameter, as ordered decision diagrams over the branch
conditions.  There is no path enumeration and no solver: each basic block is visited once in
topological order (loops are collapsed to recurrence terms), joins are gated phi-functions.
"""
import os
import re, hashlib
from terms import *
from seqs import *
import seqs
import facts as F_

class Unsupported(Exception): pass
class Restart(Exception): pass
# calls that act on something other than their arguments' values (shared cells, the allocator, raw memory)
OPS = re.compile(r'core::ops::(arith|bit)::[A-Za-z]+::[a-z_]+$')
def derefty(t):
    while t.k in ('ref', 'ptr'): t = t.e
    return t
EFFECT = re.compile(r'core::sync::atomic::(Atomic\w*(::<[^>]*>)?|<impl .*>|.*)::(load|store|swap|compare_\w+|fetch_\w+|into_inner|update|try_update)$'
                    r'|<std::alloc::System as .*GlobalAlloc.*>::\w+$|<.*System as core::alloc::global::GlobalAlloc>::\w+$|core::ptr::(copy|write|swap|replace)\w*$|core::ptr::\w*::(copy_\w+|write\w*)$|core::intrinsics::(copy|write|volatile)\w*$'
                    r'|<.* as core::alloc::global::GlobalAlloc>::(alloc|dealloc|alloc_zeroed|realloc)$')

class State:
    __slots__ = ('mem',)
    def __init__(self, mem=None): self.mem = {} if mem is None else mem
    def copy(self): return State(dict(self.mem))
    def load(self, r):
        if r.op == 'ite': return lift_ref(lambda x: self.load(x), r)
        if r.op != 'ref': return r
        v = self.mem.get(r.args[0])
        if v is None: return BOT
        for e in r.args[1]: v = path_get(v, e)
        return v
    def store(self, r, x):
        if r.op == 'ite':
            c = mk('ite', r.args[0], TRUE, FALSE)
            a = self.copy(); a.store(r.args[1], x)
            b = self.copy(); b.store(r.args[2], x)
            self.mem = merge_states([(c, a), (TRUE, b)]).mem
            return
        if r.op != 'ref': return          # write through a detached value: unobservable
        root, path = r.args
        if not path: self.mem[root] = x
        else: self.mem[root] = path_set(self.mem.get(root, BOT), path, x)

def lift_ref(f, r):
    if r.op == 'ite': return merge_val(mk('ite', r.args[0], TRUE, FALSE), lift_ref(f, r.args[1]), lift_ref(f, r.args[2]))
    return f(r)

def merge_states(lst):
    """lst of (cond, state); conditions disjoint; last one may be taken as default"""
    if len(lst) == 1: return lst[0][1].copy()
    out = dict(lst[-1][1].mem)
    for c, st in reversed(lst[:-1]):
        m2 = {}
        for k in [*out, *(k for k in st.mem if k not in out)]:
            a = st.mem.get(k); b = out.get(k)
            if a is None: m2[k] = b
            elif b is None: m2[k] = a
            elif a is b: m2[k] = a
            else: m2[k] = merge_val(c, a, b)
        out = m2
    return State(out)

def literals(c):
    """tests with the outcome the condition implies"""
    out = []
    while c.op == 'ite':
        a, hi, lo = c.args
        if lo is FALSE: out.append((a, True)); c = hi
        elif hi is FALSE: out.append((a, False)); c = lo
        else: break
    return out
def narrow(st, c):
    """the state where c holds: what was decided before (in a function that returned, say) is not decided again"""
    ls = [l for l in literals(c) if l[0].op == 'is']
    if not ls: return st
    new = None
    for k, v in st.mem.items():
        w = narrow_val(v, ls)
        if w is not v:
            if new is None: new = st.copy()
            new.mem[k] = w
    return new or st
def narrow_val(v, ls):
    if v.op == 'ite':
        for a, b in ls: v = assume(v, a, b)
        return v
    if v.op == 'agg' and len(v.args) > 2:
        f = [narrow_val(x, ls) if isinstance(x, T) else x for x in v.args[2:]]
        if any(x is not y for x, y in zip(f, v.args[2:])): return mk('agg', v.args[0], v.args[1], *f)
    return v

def has_ref(t):
    return t.op == 'ref' or (t.op == 'ite' and any(l.op == 'ref' for l in leaves(t)))

class Cfg:
    pass

def cfg_of(body):
    if body._cfg is not None: return body._cfg
    n = len(body.blocks)
    succ = []
    for b in body.blocks:
        t = b['t']; k = t[0]
        if k == 'goto': s = [t[1]]
        elif k == 'switch': s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        elif k == 'drop': s = [t[2]]
        elif k == 'call': s = [t[4]] if t[4] is not None else []
        elif k == 'assert': s = [t[4]]
        else: s = []
        succ.append([x for x in dict.fromkeys(s) if x is not None])
    c = Cfg(); c.succ = succ
    body._cfg = c
    return c

def sccs(nodes, succ):
    """Tarjan, returns list of SCCs in reverse topological order"""
    index = {}; low = {}; onst = set(); st = []; out = []; ctr = [0]
    for root in nodes:
        if root in index: continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = ctr[0]; ctr[0] += 1; st.append(root); onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in nodes: continue
                if w not in index:
                    index[w] = low[w] = ctr[0]; ctr[0] += 1; st.append(w); onst.add(w)
                    work.append((w, iter(succ(w)))); adv = True; break
                elif w in onst: low[v] = min(low[v], index[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop(); onst.discard(w); comp.append(w)
                    if w == v: break
                out.append(comp)
    return out

LOGP = re.compile(r'^(log::|core::fmt|alloc::fmt|std::io::stdio::_(e?)print|<core::fmt)')

class Engine:
    def __init__(self, facts, opaque=(), sorts=None, models=None, inline_std=True, trace=False, profile='limb'):
        self.F = facts
        self.opaque = opaque if callable(opaque) else (lambda name, path, s=set(opaque): name in s or path in s)
        self.sorts = sorts or {}          # adt name or display -> sort
        self.frame = 0
        self.stack = []
        self.models = {}
        import models as M
        self.models.update(M.MODELS)
        self.pmodels = list(M.PMODELS)
        if models: self.models.update(models)
        import algebra as A
        self.profile = profile
        self.hook = {'alg': A.hook, 'fld': A.hook, 'mv': A.hook_mv, 'limb': A.hook_limb}[profile]
        if profile in ('alg', 'fld') and not self.sorts: self.sorts = dict(A.SORTS_ALG if profile == 'alg' else A.SORTS_FLD)
        self.trace = trace
        self.notes = {}
        self.visited = set()
        self.opaque_calls = {}; self.opaque_inst = {}
        self.nloops = 0
        self.depth = 0
        self.nblocks = 0

    # ---------------------------------------------------------------- types
    def sort(self, ty):
        k = ty.k
        if k in ('uint', 'int'): return ('u' if k == 'uint' else 'i') + str(ty.b)
        if k == 'char': return 'u32'
        if k == 'adt' and self.sorts:
            s = self.sorts.get(ty.s)
            if s is None: s = self.sorts.get(ty.n)
            return s
        return None

    # ---------------------------------------------------------------- constants
    def const(self, ty, v):
        if v is None: return mk('kopaque', self.tname(ty))
        k = ty.k
        if 'u' in v:
            n = int(v['u'])
            if k == 'bool': return TRUE if n else FALSE
            s = self.sort(ty)
            if s and s[0] == 'i':
                b = int(s[1:])
                if n >= 1 << (b - 1): n -= 1 << b
            if s: return cint(s, n)
            return mk('kint', self.tname(ty), n)
        if k in ('ref', 'ptr') and 'ref' in v: return self.const(ty.e, v['ref'])
        if 'ref' in v: return self.const(ty.e if isinstance(ty.e, F_.Ty) else ty, v['ref'])
        if 'str' in v: return mk('str', v['str'])
        if 'arr' in v:
            e = ty.e if isinstance(ty.e, F_.Ty) else None
            return lit(*[self.const(e, x) for x in v['arr']])
        if 'tup' in v:
            e = ty.e or []
            return mk('agg', 'tuple', 0, *[self.const(t, x) for t, x in zip(e, v['tup'])])
        if 'adt' in v:
            if k != 'adt': return mk('kopaque', self.tname(ty))
            s = self.sort(ty)
            fs = [self.const(t, x) for t, x in zip(ty.f[v['adt']], v['f'])]
            if s: return self.sort_const(s, ty, fs, v)
            return mk('agg', ty.n, v['adt'], *fs)
        if 'zst' in v:
            return self.zst(ty)
        if 'static' in v: return mk('static', str(v['static']))
        if 'fnptr' in v: return mk('fnv', str(v['fnptr']))
        return mk('kopaque', self.tname(ty))

    def sort_const(self, s, ty, fs, v):
        def limbs(x):
            # nested single-field aggs down to a literal of limbs
            while x.op == 'agg' and len(x.args) >= 3: x = x.args[2]
            return x
        x = fs[0]
        if x.op == 'int': n = x.args[1]
        else:
            x = limbs(x)
            if x.op == 'int': n = x.args[1]
            elif x.op == 'lit': n = sum(y.args[1] << (64 * i) for i, y in enumerate(x.args))
            else: return mk('agg', ty.n, 0, *fs)
        if s[0] == 'F':
            m = sort_mod(s)
            n = n * pow(1 << 256, -1, m) % m
        return cint(s, n)

    def zst(self, ty):
        if ty.k == 'fndef': return mk('fnv', self.fn_inst(ty.fn))
        if ty.k == 'closure': return mk('agg', '@clo:' + ty.inst, 0)
        if ty.k == 'tuple': return UNIT
        if ty.k == 'adt' and ty.f: return mk('agg', ty.n, 0, *[self.zst(f) for f in ty.f[0] if f is not None])
        return mk('zst', self.tname(ty))

    def fn_inst(self, fn):
        if isinstance(fn, dict):
            self.fninfo[fn.get('i') or fn['p']] = fn if hasattr(self, 'fninfo') else fn
            return fn.get('i') or fn['p']
        return str(fn)
    fninfo = {}

    def tname(self, ty):
        if ty is None: return '?'
        if ty._short is None:
            ty._short = self._tname(ty, 0)
        return ty._short
    def _tname(self, ty, d):
        k = ty.k
        if d > 6: return '..'
        if k == 'closure': return '{clo}'
        if k == 'adt':
            a = [self._tname(x, d + 1) for x in (ty.a or []) if isinstance(x, F_.Ty)]
            a = [x for x in a if x != 'alloc::alloc::Global']
            return ty.n + ('<' + ','.join(a) + '>' if a else '')
        if k in ('ref',): return '&' + self._tname(ty.e, d + 1)
        if k in ('ptr',): return '*' + self._tname(ty.e, d + 1)
        if k == 'slice': return '[' + self._tname(ty.e, d + 1) + ']'
        if k == 'array': return '[' + self._tname(ty.e, d + 1) + ';' + str(ty.l) + ']'
        if k == 'tuple': return '(' + ','.join(self._tname(x, d + 1) for x in ty.e) + ')'
        if k == 'fndef': return '{fn}'
        return ty.s

    # ---------------------------------------------------------------- places
    def proj_ty(self, ty, p, variant):
        if p == '*':
            if ty.k in ('ref', 'ptr'): return ty.e
            if ty.k == 'adt' and ty.n == 'alloc::boxed::Box': return ty.a[0]
            return ty
        k = p[0]
        if k == 'f': return None
        if k in ('i', 'ci'): return ty.e
        return ty

    def nfields(self, ty, variant):
        if ty is None: return 0
        if ty.k == 'adt':
            if ty.f and variant < len(ty.f): return len(ty.f[variant])
            return 0
        if ty.k == 'tuple': return len(ty.e)
        if ty.k == 'closure': return len(ty.u or [])
        return 0
    def aggname(self, ty):
        if ty.k == 'adt': return ty.n
        if ty.k == 'tuple': return 'tuple'
        if ty.k == 'closure': return '@clo:' + ty.inst
        return self.tname(ty)

    def resolve(self, st, fr, body, place):
        """-> (location ref term, type)"""
        loc = ref((fr, place[0])); ty = body.locals[place[0]]; variant = 0
        for p in place[1:]:
            if p == '*':
                v = st.load(loc)
                # what a &mut that came in as part of an argument points to lives where the reference does
                if not (loc.op == 'ref' and v is not BOT and ty is not None and ty.k == 'ref' and ty.m and not has_ref(v)): loc = v
                ty = self.proj_ty(ty, '*', 0); variant = 0
                continue
            if not isinstance(p, list): raise Unsupported('proj ' + str(p))
            k = p[0]
            if k == 'd': variant = p[1]; continue
            if k == 'f':
                n = self.nfields(ty, variant)
                e = ('f', variant, p[1], n, self.aggname(ty) if ty is not None else '?')
                loc = ref_ext(loc, e)
                ty = body.T[p[2]]; variant = 0
            elif k == 'i':
                i = st.mem[(fr, p[1])]
                n = int(ty.l) if ty.k == 'array' and ty.l is not None else None
                loc = ref_ext(loc, ('i', i) if n is None else ('i', i, n)); ty = ty.e
            elif k == 'ci':
                off, frm_end = p[1], p[3]
                if frm_end: i = sub('u64', seqlen(st.load(loc)), cint('u64', off))
                else: i = cint('u64', off)
                n = int(ty.l) if ty.k == 'array' and ty.l is not None else None
                loc = ref_ext(loc, ('i', i) if n is None else ('i', i, n)); ty = ty.e
            elif k == 'ss':
                a, b, frm_end = p[1], p[2], p[3]
                ln = seqlen(st.load(loc))
                loc = ref_ext(loc, ('sub', cint('u64', a), sub('u64', ln, cint('u64', b)) if frm_end else cint('u64', b)))
            else:
                continue        # opaque casts / subtype
        return loc, ty

    def read(self, st, fr, body, place):
        # fast path
        loc, ty = self.resolve(st, fr, body, place)
        return st.load(loc), ty

    def operand(self, st, fr, body, o):
        k = o[0]
        if k in ('c', 'm'): return self.read(st, fr, body, o[1])
        if k == 'k':
            ty = body.T[o[1]]
            return self.const(ty, o[2]), ty
        if k == 'fn': return mk('fnv', self.fn_inst(o[1])), None
        if k == 'rc': return FALSE, None
        raise Unsupported('operand ' + k)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, body, rv, dty):
        k = rv[0]
        if k == 'use':
            if rv[1][0] == 'c' and len(rv[1][1]) > 1:
                # the compiler copies a &mut only in order to go through it
                loc, ty = self.resolve(st, fr, body, rv[1][1])
                if ty is not None and ty.k == 'ref' and ty.m and loc.op == 'ref':
                    v = st.load(loc)
                    return loc if v is not BOT and not has_ref(v) else v
            return self.operand(st, fr, body, rv[1])[0]
        if k in ('bin', 'cbin'):
            a, ta = self.operand(st, fr, body, rv[2]); b, tb = self.operand(st, fr, body, rv[3])
            r = self.binop(rv[1], a, b, ta, tb)
            if k == 'cbin' or rv[1].endswith('WithOverflow'): return mk('agg', 'tuple', 0, r, FALSE)
            return r
        if k == 'un':
            a, ta = self.operand(st, fr, body, rv[2])
            if rv[1] == 'Not':
                if ta.k == 'bool': return bnot(a)
                s = self.sort(ta)
                return sub(s, cint(s, -1), a) if s[0] == 'u' else mk('not', s, a)
            if rv[1] == 'Neg': return neg(self.sort(ta) or 'f64', a)
            if rv[1] == 'PtrMetadata': return seqlen(st.load(a) if has_ref(a) else a)
            raise Unsupported('un ' + rv[1])
        if k == 'cast': return self.cast(st, fr, body, rv, dty)
        if k == 'ref' or k == 'addr':
            m, place = rv[1], rv[2]
            loc, ty = self.resolve(st, fr, body, place)
            if k == 'addr': m = m in (True, 'mut', 'Mut') or m is True
            if m: return loc
            return st.load(loc)
        if k == 'agg':
            kind = rv[1]; vals = [self.operand(st, fr, body, o)[0] for o in rv[2]]
            if kind[0] == 'arr': return lit(*vals)
            if kind[0] == 'tup': return mk('agg', 'tuple', 0, *vals) if vals else UNIT
            if kind[0] == 'closure': return mk('agg', '@clo:' + body.T[kind[1]].inst, 0, *vals)
            if kind[0] == 'adt':
                ty = body.T[kind[1]]
                s = self.sort(ty)
                if s: return self.sort_agg(s, ty, vals)
                return agg(ty.n, kind[2], *vals)
            if kind[0] == 'rawptr': return mk('agg', '@fat', 0, *vals) if not has_ref(vals[0]) else vals[0]
            raise Unsupported('agg ' + str(kind))
        if k == 'discr':
            v, ty = self.read(st, fr, body, rv[1])
            return self.discr(v, ty)
        if k == 'len':
            v, ty = self.read(st, fr, body, rv[1]); return seqlen(v)
        if k == 'rep':
            v, _ = self.operand(st, fr, body, rv[1]); n = rv[2]
            try: n = int(n)
            except Exception: return mk('rep', v, str(n))
            s = fresh()
            return tab(cint('u64', n), v, s)
        raise Unsupported('rvalue ' + k)

    def sort_agg(self, s, ty, vals):
        return mk('mksort', s, *vals)

    def discr(self, v, ty):
        if v.op == 'ite': return lift(lambda x: self.discr(x, ty), v)
        name = ty.n if ty is not None and ty.k == 'adt' else None
        if v.op == 'agg': return cint('i64', self.F.discr_of_variant(name, v.args[1]))
        if v is BOT: return BOT
        return mk('discr', v, len(ty.f) if ty is not None and ty.f else 0, name or '?')

    def binop(self, op, a, b, ta, tb):
        if a is BOT or b is BOT: return BOT
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        if ta is not None and ta.k == 'bool':
            if op == 'BitAnd': return band(a, b)
            if op == 'BitOr': return bor(a, b)
            if op in ('BitXor', 'Ne'): return ite(batom(a), bnot(b), batom(b))
            if op == 'Eq': return ite(batom(a), batom(b), bnot(b))
            if op == 'Lt': return band(bnot(a), b)
            if op == 'Gt': return band(a, bnot(b))
            if op == 'Le': return bor(bnot(a), b)
            if op == 'Ge': return bor(a, bnot(b))
        s = self.sort(ta) if ta is not None else None
        if s is None or s[0] == 'f' or (ta.k == 'float'):
            if op == 'Eq': return cmp_eq(a, b)
            if op == 'Ne': return bnot(cmp_eq(a, b))
            if op == 'Offset': return mk('ptroff', a, b)
            if op in ('Lt', 'Le', 'Gt', 'Ge'): return batom(mk('fcmp', op, a, b))
            return mk('fop', op, a, b)
        if op in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne', 'Shl'):     # the same on either reading
            a, b = (lift(lambda x: x.args[1] if x.op == 'sx' and x.args[0][1:] == s[1:] else x, x) for x in (a, b))
        if op in ('Add', 'Sub', 'Mul'): return {'Add': add, 'Sub': sub, 'Mul': mul}[op](s, a, b)
        if op == 'Div': return udiv(s, a, b)
        if op == 'Rem': return urem(s, a, b)
        if op == 'BitAnd': return band_int(s, a, b)
        if op == 'BitOr': return bor_int(s, a, b)
        if op == 'BitXor': return bxor_int(s, a, b)
        if op in ('Shl', 'Shr'):
            b = resort(b, 'u64')
            return shl(s, a, b) if op == 'Shl' else shr(s, a, b)
        if op == 'Eq': return self.eq_int(s, a, b)
        if op == 'Ne': return bnot(self.eq_int(s, a, b))
        if op == 'Lt': return cmp_lt(s, a, b)
        if op == 'Gt': return cmp_lt(s, b, a)
        if op == 'Le': return bnot(cmp_lt(s, b, a))
        if op == 'Ge': return bnot(cmp_lt(s, a, b))
        if op == 'Cmp':
            O = 'core::cmp::Ordering'
            return ite(cmp_lt(s, a, b), mk('agg', O, 0), ite(cmp_lt(s, b, a), mk('agg', O, 2), mk('agg', O, 1)))
        raise Unsupported('binop ' + op)

    def eq_int(self, s, a, b):
        # discriminant tests
        for x, y in ((a, b), (b, a)):
            if x.op == 'discr' and y.op == 'int':
                return is_variant(x.args[0], self.F.variant_of_discr(x.args[2], y.args[1]), x.args[1])
        if a.op == 'ite' or b.op == 'ite': return lift(lambda x, y: self.eq_int(s, x, y), a, b)
        return cmp_eq_int(s, a, b)

    def cast(self, st, fr, body, rv, dty):
        kind = rv[1]; v, ts = self.operand(st, fr, body, rv[2]); td = body.T[rv[3]]
        if 'Unsize' in str(kind) and ts is not None and derefty(ts).k == 'array' and isinstance(derefty(ts).l, int):
            # what is seen as a slice is an array: its length is known
            x = st.load(v) if v.op == 'ref' else v
            for y in leaves(x):
                if y.op not in ('ref', 'lit', 'tab') and seqlen(y).op == 'len': seqs.ARRLEN[y] = cint('u64', derefty(ts).l)
        return self.cast_val(kind, v, ts, td)

    def cast_val(self, kind, v, ts, td):
        if v is BOT: return v
        ks = str(kind)
        sd = self.sort(td)
        if ts is not None and ts.k == 'bool' and sd: return ite(batom(v), cint(sd, 1), cint(sd, 0))
        ss = self.sort(ts) if ts is not None else None
        if ss and sd and td.k in ('uint', 'int', 'char') :
            return self.int_cast(v, ss, sd)
        if 'FloatToInt' in ks or 'IntToFloat' in ks or 'FloatToFloat' in ks: return mk('fcast', self.tname(td), v)
        if sd and ss is None and v.op in ('ite', 'agg', 'discr', 'is'): # enum -> int
            return resort(v, sd)
        if 'Unsize' in ks and v.op not in ('ref', 'lit', 'ite') and ts is not None and derefty(ts).k == 'array' and isinstance(derefty(ts).l, int) and derefty(ts).l <= 8:
            return lit(*[idx(v, cint('u64', i)) for i in range(derefty(ts).l)])
        return v    # pointer coercions, transmute, unsize: value unchanged

    def int_cast(self, v, ss, sd):
        if v.op == 'ite': return lift(lambda x: self.int_cast(x, ss, sd), v)
        bs, bd = int(ss[1:]), int(sd[1:])
        if v.op == 'int': return cint(sd, v.args[1])
        if v.op == 'sx' and bd <= bs: return self.int_cast(v.args[1], 'u' + ss[1:], sd)
        if ss[0] == 'u' and sd[0] == 'i' and bd <= bs:      # reinterpreted as signed
            m = bound(v)
            if m is not None and m < 1 << bd - 1: return resort(v, sd)
            return mk('sx', sd, v if bd == bs else urem(ss, v, cint(ss, 1 << bd)))
        if bd >= bs: return resort(v, sd)
        r = urem(ss if ss[0] == 'u' else 'u' + ss[1:], v, cint('u' + ss[1:], 1 << bd))
        return resort(r, sd)

    # ---------------------------------------------------------------- function bodies
    def call_body(self, body, args, st):
        """inline one body; returns (ret, state, panic-cond)"""
        self.frame += 1
        fr = self.frame
        self.visited.add(body.name)
        st = st.copy()
        for i, a in enumerate(args): st.mem[(fr, i + 1)] = a
        self.stack.append(body.name)
        try:
            rets, panic = self.run_fn(body, fr, st)
        finally:
            self.stack.pop()
        if not rets: return BOT, st, TRUE
        out = merge_states([(c, s) for c, s in rets])
        ret = out.mem.get((fr, 0), UNIT)
        for k in [k for k in out.mem if k[0] == fr]: del out.mem[k]
        return ret, out, panic

    def run_fn(self, body, fr, st):
        cfg = cfg_of(body)
        rets = []
        pan = [FALSE]
        exits = self.region(body, fr, set(range(len(body.blocks))), 0, st, rets, pan, None)
        return rets, pan[0]

    def region(self, body, fr, nodes, entry, st, rets, pan, header):
        """process blocks `nodes` from entry once in topological order.
        edges to `header` or outside nodes are collected: returns list (target, cond, state)."""
        cfg = cfg_of(body)
        # nodes reachable from entry inside nodes, with edges into header removed
        def succ(b): return [x for x in cfg.succ[b] if x != header]
        reach = set([entry]); work = [entry]
        while work:
            b = work.pop()
            for x in succ(b):
                if x in nodes and x not in reach: reach.add(x); work.append(x)
        comps = sccs(sorted(reach, key=lambda x: (x != entry, x)), lambda b: [x for x in succ(b) if x in reach])
        comps.reverse()
        inn = {entry: [(TRUE, st)]}
        out = []
        compof = {}
        for i, c in enumerate(comps):
            for b in c: compof[b] = i
        def emit(t, c, s):
            if c is FALSE: return
            if t == header or t not in reach: out.append((t, c, s))
            else: inn.setdefault(t, []).append((c, s))
        for comp in comps:
            cs = set(comp)
            isloop = len(comp) > 1 or comp[0] in succ(comp[0])
            if not isloop:
                b = comp[0]
                lst = inn.pop(b, None)
                if not lst: continue
                cond, s = self.join(lst)
                self.block(body, fr, b, cond, s, emit, rets, pan)
            else:
                heads = [b for b in comp if b in inn]
                if not heads: continue
                if len(heads) > 1: raise Unsupported('irreducible loop in ' + body.name)
                h = heads[0]
                cond, s = self.join(inn.pop(h))
                self.mir_loop(body, fr, cs, h, cond, s, emit, rets, pan)
        return out

    def join(self, lst):
        if len(lst) == 1: return lst[0][0], lst[0][1]
        cond = FALSE
        for c, _ in lst: cond = bor(cond, c)
        return cond, merge_states(lst)

    def block(self, body, fr, b, cond, st, emit, rets, pan):
        self.nblocks += 1
        blk = body.blocks[b]
        st = st.copy()
        for s in blk['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fr, body, s[2], None)
                self.write(st, fr, body, s[1], v)
            elif k == 'sd':
                raise Unsupported('set discriminant')
            elif k == 'dead':
                pass
            elif k == 'cno': pass
        t = blk['t']; k = t[0]
        if k == 'goto': emit(t[1], cond, st)
        elif k == 'ret': rets.append((cond, st))
        elif k in ('unr',): pass
        elif k in ('resume', 'abort'): pan[0] = bor(pan[0], cond)
        elif k == 'drop': emit(t[2], cond, st)
        elif k == 'assert': emit(t[4], cond, st)
        elif k == 'switch':
            v, ty = self.operand(st, fr, body, t[1])
            rest = cond
            sw = body.T[t[4]] if t[4] is not None else ty
            for val, tgt in t[2]:
                c = self.switch_eq(v, int(val), sw)
                emit(tgt, band(rest, c), narrow(st, c))
                rest = band(rest, bnot(c))
                st = narrow(st, bnot(c))
            if t[3] is not None and body.blocks[t[3]]['t'][0] != 'unr': emit(t[3], rest, st)
        elif k == 'call':
            self.do_call(body, fr, t, cond, st, emit, pan)
        else: raise Unsupported('terminator ' + k)

    def switch_eq(self, v, val, ty):
        if ty is not None and ty.k == 'bool' or v.op in ('true', 'false'):
            return batom(v) if val else bnot(batom(v))
        if v.op == 'ite': return lift(lambda x: self.switch_eq(x, val, ty), v)
        if v is BOT: return FALSE
        s = self.sort(ty) if ty is not None else 'u64'
        if s and s[0] == 'i':
            b = int(s[1:])
            if val >= 1 << (b - 1): val -= 1 << b
        if v.op == 'discr': return is_variant(v.args[0], self.F.variant_of_discr(v.args[2], val), v.args[1])
        return self.eq_int(s or 'u64', v, cint(s or 'u64', val))

    def write(self, st, fr, body, place, v):
        if len(place) == 1: st.mem[(fr, place[0])] = v; return
        loc, ty = self.resolve(st, fr, body, place)
        st.store(loc, v)

    # ---------------------------------------------------------------- calls
    def do_call(self, body, fr, t, cond, st, emit, pan):
        f, argo, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        args = []; tys = []
        for o in argo:
            v, ty = self.operand(st, fr, body, o)
            args.append(v); tys.append(ty)
        if f[0] == 'fn': fn = f[1]
        else:
            v, ty = self.operand(st, fr, body, f)
            fn = {'p': '@indirect', 'i': '@indirect', 'a': [], 'ip': '@indirect', 'ic': '', 'v': v}
        if target is None:
            pan[0] = bor(pan[0], cond); return
        dty = self.place_ty(body, dest)
        ret, st2, p = self.call(fn, args, tys, st, dty, body, line)
        if p is TRUE:
            pan[0] = bor(pan[0], cond); return
        if p is not FALSE:
            pan[0] = bor(pan[0], band(cond, p))
            cond = band(cond, bnot(p))
        st2 = st2.copy()
        self.write(st2, fr, body, dest, ret)
        emit(target, cond, st2)

    def place_ty(self, body, place):
        ty = body.locals[place[0]]; variant = 0
        for p in place[1:]:
            if p == '*': ty = self.proj_ty(ty, '*', 0)
            elif p[0] == 'f': ty = body.T[p[2]]
            elif p[0] in ('i', 'ci'): ty = ty.e
        return ty

    def targs(self, fn, body):
        return [body.T[i] if isinstance(i, int) else None for i in (fn.get('a') or [])]

    def call(self, fn, args, tys, st, dty, body, line=0):
        p = fn['p']; ip = fn.get('ip') or p; name = fn.get('i') or p
        fn = dict(fn); fn['ta'] = fn.get('ta') or (self.targs(fn, body) if body is not None else [])
        fn['tys'] = tys; fn['dty'] = dty
        return self.call_named(fn, name, ip, p, args, st, dty)

    def call_named(self, fn, name, ip, p, args, st, dty):
        if any(a is BOT for a in args): return BOT, st, FALSE
        if self.hook is not None:
            r = self.with_split(fn, name, ip, p, args, st, dty, lambda: self.hook(self, fn, name, ip, p, args, st))
            if r is not NotImplemented:
                return r if len(r) == 3 else (r[0], r[1], FALSE)
        # obligation-specific opaque set
        if self.opaque(name, ip): return self.opaque_call(fn, name, ip, args, st, dty)
        m = self.models.get(ip) or self.models.get(p)
        if m is None:
            for rx, g in self.pmodels:
                if rx.match(ip) or rx.match(p): m = g; break
        if m is not None:
            # conditional mutable references: evaluate per target and re-merge
            for i, a in enumerate(args):
                if a.op == 'ite' and any(l.op == 'ref' for l in leaves(a)) and len(leaves(a)) <= 8:
                    c = mk('ite', a.args[0], TRUE, FALSE)
                    r1 = self.call_named(fn, name, ip, p, args[:i] + [a.args[1]] + args[i + 1:], st, dty)
                    r2 = self.call_named(fn, name, ip, p, args[:i] + [a.args[2]] + args[i + 1:], st, dty)
                    return merge_val(c, r1[0], r2[0]), merge_states([(c, r1[1]), (TRUE, r2[1])]), ite(c, r1[2], r2[2])
            r = m(self, fn, args, st)
            if r is not NotImplemented:
                if len(r) == 2: return r[0], r[1], FALSE
                return r
        b = self.F.bodies.get(name)
        if b is not None and self.stack.count(name) < 1 and len(self.stack) < 60:
            ws = b.crate.startswith('zkp')
            if ws or self.std_inline(b):
                self_args = args
                if b.spread is not None: pass
                return self.call_body(b, self_args, st)
        return self.opaque_call(fn, name, ip, args, st, dty)

    def with_split(self, fn, name, ip, p, args, st, dty, f):
        for i, a in enumerate(args):
            if a.op == 'ite' and any(l.op == 'ref' for l in leaves(a)) and len(leaves(a)) <= 8:
                c = mk('ite', a.args[0], TRUE, FALSE)
                r1 = self.call_named(fn, name, ip, p, args[:i] + [a.args[1]] + args[i + 1:], st, dty)
                r2 = self.call_named(fn, name, ip, p, args[:i] + [a.args[2]] + args[i + 1:], st, dty)
                return merge_val(c, r1[0], r2[0]), merge_states([(c, r1[1]), (TRUE, r2[1])]), ite(c, r1[2], r2[2])
        return f()
    GEN = {'F': 3, 'Fn': 3}
    def gen(self, s): return self.GEN[s]

    STD_OK = re.compile(r'^(core::(option|result|convert|clone|default|cmp|ops|bool|tuple|mem|borrow|array|num|any|ascii|char)::|<.* as core::(option|result|convert|clone|default|cmp|ops|borrow)::|<core::(option|result|ops|cmp)::|alloc::borrow|num_traits::|<.* as num_traits|<(alloc::boxed::Box<T, A>|&.*) as core::hash::Hash>|core::hash::impls::<impl core::hash::Hash for &)')
    def std_inline(self, b):
        return bool(self.STD_OK.match(b.path)) and len(b.blocks) <= 30

    def opname(self, fn, ip):
        ta = [self.tname(t) for t in fn.get('ta') or [] if t is not None and t.k not in ('closure', 'fndef')]
        ta = [x for x in ta if '{clo}' not in x]
        return ip + ('<' + ','.join(ta) + '>' if ta else '')

    def opaque_call(self, fn, name, ip, args, st, dty):
        st = st.copy()
        if fn.get('v') is not None: args = [fn['v']] + args
        fargs = [self.canon(self.freeze(a, st)) for a in args]
        nm = self.opname(fn, ip)
        cell = None
        if OPS.match(fn.get('p', '')) and name in self.F.bodies and self.F.bodies[name].crate.startswith('zkp') and fn.get('tys') and all(fn['tys']):
            # one operator, whether its operands are passed by value, by reference or updated in place
            op = fn['p'].split('::')[-1]; asg = op.endswith('_assign') and len(args) == 2
            nm = 'op:' + (op[:-7] if asg else op) + '<' + ','.join(self.tname(derefty(t)) for t in fn['tys']) + '>'
            self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
            if nm not in self.opaque_inst or self.opaque_inst[nm].endswith('_assign'): self.opaque_inst[nm] = name
            t = self.mkcall(nm, fargs)
            if not asg: return (batom(t) if dty is not None and dty.k == 'bool' else t), st, FALSE
            if args[0].op == 'ref':
                st.store(args[0], t); return UNIT, st, FALSE
        if EFFECT.search(ip) or EFFECT.search(name):
            # the effect is kept: a log per cell, in program order
            loc = fargs[0] if 'atomic' in ip and fargs and not free_syms(fargs[0]) and not contains_ref(fargs[0]) else UNIT
            cell = ('E', loc)
            if cell not in st.mem:
                self.cells.append(cell); raise Restart
            fargs = fargs + [st.mem[cell]]
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
        self.opaque_inst.setdefault(nm, name)
        t = self.mkcall(nm, fargs)
        n = 0
        for k, a in enumerate(args):
            for r in self.mut_refs(a):
                # content after the call
                # (a slice keeps its length)
                sl = r is a and fn.get('tys') and len(fn['tys']) == len(args) and fn['tys'][k] is not None and fn['tys'][k].k == 'ref' and derefty(fn['tys'][k]).k == 'slice'
                st.store(r, mk('post', t, k, 's%d' % n if sl else n)); n += 1
        if cell is not None and not re.search(r'::(load|into_inner)$', ip): st.mem[cell] = mk('post', t, 'io', 0)
        ret = t
        if dty is not None and dty.k == 'bool': ret = batom(t)
        if dty is not None and dty.k == 'tuple' and not dty.e: ret = UNIT
        if dty is not None and dty.k == 'ref' and dty.m and n:
            # returned mutable reference into an argument: treat as a detached location
            self.frame += 1
            st.mem[(self.frame, 0)] = ret
            ret = ref((self.frame, 0))
        return ret, st, FALSE

    def mkcall(self, nm, fargs):
        return mk('call', nm, *fargs)

    def mut_refs(self, a):
        out = []
        st = [a]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'ref': out.append(x)
            elif x.op in ('agg', 'lit'): st.extend(y for y in reversed(x.args) if isinstance(y, T))
            elif x.op == 'ite': st.extend([x.args[2], x.args[1]])
        return out

    # ---------------------------------------------------------------- freezing
    def freeze(self, t, st, depth=0):
        """replace references by content and closures by lambda summaries; canonical shape"""
        if t.op == 'ref':
            return self.freeze(st.load(t), st, depth + 1)
        if t.op == 'agg':
            nm = t.args[0]
            if nm.startswith('@clo:'): return self.lam(t, st)
            fs = [self.freeze(x, st, depth + 1) for x in t.args[2:]]
            return agg(nm, t.args[1], *fs)
        if t.op == 'lit': return lit(*[self.freeze(x, st, depth + 1) for x in t.args])
        if t.op == 'ite':
            return lift_freeze(t, lambda x: self.freeze(x, st, depth + 1))
        if t.op in ('tab', 'upd', 'cat', 'sub', 'mseq', 'pmap') and contains_ref(t):
            return self.defer(t, st)
        if t.op == 'fnv':
            b = self.F.bodies.get(t.args[0])
            return t
        return t

    def defer(self, t, st):
        def f(x):
            return self.freeze(x, st)
        return replace_refs(t, f)

    def canon(self, t, top=True):
        """canonical shape: diagrams whose leaves are constructors are split into variant condition and field diagrams"""
        if t.op == 'agg':
            return agg(t.args[0], t.args[1], *[self.canon(x) for x in t.args[2:]]) if len(t.args) > 2 else t
        if t.op == 'lit': return lit(*[self.canon(x) for x in t.args]) if t.args else t
        if t.op != 'ite': return t
        ls = leaves(t)
        live = [l for l in ls if l is not UNDEF and l is not BOT]
        aggs = [l for l in live if l.op == 'agg']
        names = {l.args[0] for l in aggs}
        if aggs and len(names) == 1:
            nm = next(iter(names))
            adt = self.F.adts.get(nm)
            opaque = len(aggs) != len(live)
            nvar = len(adt['v']) if adt else (2 if nm in ('core::option::Option', 'core::result::Result') else 1)
            if not opaque and not adt and len({l.args[1] for l in aggs}) > 1: nvar = max(l.args[1] for l in aggs) + 1
            if nvar == 1:
                n = len(aggs[0].args) - 2
                if len(live) == len(ls):
                    return agg(nm, 0, *[self.canon(proj(t, 0, i, n)) for i in range(n)])
                c = cond_of(t, lambda l: l is not UNDEF and l is not BOT)
                return mk('dec', nm, ((0, c) + tuple(self.canon(ite(c, nproj(t, 0, i, n), UNDEF)) for i in range(n)),))
            nf = {l.args[1]: len(l.args) - 2 for l in aggs}
            if adt:
                for v, d in enumerate(adt['v']): nf.setdefault(v, len(d['f']))
            out = []
            for v in range(nvar):
                if not opaque and v not in nf: continue
                c = lift(lambda l: FALSE if l is UNDEF or l is BOT else is_variant(l, v, nvar), t)
                if c is FALSE: continue
                n = nf.get(v, 0)
                if c is TRUE: return agg(nm, v, *[self.canon(proj(t, v, i, n)) for i in range(n)])
                fs = tuple(self.canon(ite(c, nproj(t, v, i, n), UNDEF)) for i in range(n))
                out.append((v, c) + fs)
            return mk('dec', nm, tuple(out))
        return lift_freeze(t, lambda x: self.canon(x)) if any(l.op in ('agg', 'lit') for l in ls) else t

    def lam(self, clo, st):
        inst = clo.args[0][5:]
        b = self.F.bodies.get(inst)
        if b is None or inst in self.stack:
            return mk('clo', *[self.freeze(x, st) for x in clo.args[2:]])
        n = b.argc - 1
        syms = [fresh('tau', 'x') for _ in range(n)]
        try:
            ret, st2, p = self.apply(clo, syms, st, by_ref=True)
            body = self.freeze(ret, st2)
            if p is not FALSE: body = self.canon(ite(p, UNDEF, body))
        except Unsupported as e:
            return mk('clo', *[self.freeze(x, st) for x in clo.args[2:]])
        ups = []
        for u in clo.args[2:]:
            for r in self.mut_refs(u):
                a, b2 = st.load(r), st2.load(r)
                if a is not b2: ups.append(self.freeze(b2, st2))
        for c in self.cells:
            if st.mem.get(c) is not st2.mem.get(c): ups.append(st2.mem[c])
        t = mk('lambody', body, *ups) if ups else body
        for s in reversed(syms):
            t = binder('lam', cint('u64', n), t, s)
        return t

    # ---------------------------------------------------------------- closures
    def apply(self, f, args, st, by_ref=False):
        """call a closure / fn value with plain arguments"""
        if f.op == 'ref': fv = st.load(f)
        else: fv = f
        if fv.op == 'ite':
            c = mk('ite', fv.args[0], TRUE, FALSE)
            r1 = self.apply(fv.args[1], args, st); r2 = self.apply(fv.args[2], args, st)
            return merge_val(c, r1[0], r2[0]), merge_states([(c, r1[1]), (TRUE, r2[1])]), ite(c, r1[2], r2[2])
        if fv.op == 'agg' and fv.args[0].startswith('@clo:'):
            b = self.F.bodies.get(fv.args[0][5:])
            if b is None or self.stack.count(b.name) > 1: 
                st = st.copy()
                return self.mkcall('@apply', [self.freeze(fv, st) if b is None else mk('clorec')] + [self.freeze(a, st) for a in args]), st, FALSE
            selfty = b.locals[1]
            if selfty.k == 'ref':
                if f.op == 'ref' or not selfty.m: selfarg = f
                else:
                    self.frame += 1
                    st = st.copy(); st.mem[(self.frame, 0)] = fv; selfarg = ref((self.frame, 0))
            else: selfarg = fv
            if b.argc == len(args) + 1: return self.call_body(b, [selfarg] + list(args), st)
            if b.argc == 2: return self.call_body(b, [selfarg, mk('agg', 'tuple', 0, *args)], st)
            raise Unsupported('closure arity ' + b.name)
        if fv.op == 'fnv':
            name = fv.args[0]
            fn = self.fninfo.get(name)
            b = self.F.bodies.get(name)
            if fn is None: fn = {'p': b.path if b else name, 'i': name, 'a': []}
            ctor = self.ctor(name, args)
            if ctor is not None: return ctor, st, FALSE
            fn = dict(fn); fn['ta'] = []; fn['tys'] = [b.locals[i + 1] if b else None for i in range(len(args))]; fn['dty'] = None
            return self.call_named(fn, name, fn.get('ip') or fn['p'], fn['p'], list(args), st, b.locals[0] if b else None)
        st = st.copy()
        t = self.mkcall('@apply', [self.freeze(fv, st)] + [self.freeze(a, st) for a in args])
        return t, st, FALSE

    def ctor(self, name, args):
        m = re.match(r'^core::option::Option(::<.*>)?::Some$', name)
        if m: return some(args[0])
        if re.match(r'^core::result::Result(::<.*>)?::Ok$', name): return okv(args[0])
        if re.match(r'^core::result::Result(::<.*>)?::Err$', name): return errv(args[0])
        base = re.sub(r'::<.*>(?=::|$)', '', name)
        for adt, a in (self.F.adts.items() if '::' in base else ()):
            if base.startswith(adt):
                rest = base[len(adt):]
                for i, v in enumerate(a['v']):
                    if (rest == '::' + v['n'] and a['kind'] == 'enum') or (rest == '' and a['kind'] == 'struct'):
                        return agg(adt, i, *args)
        return None

    # ---------------------------------------------------------------- loops
    def mir_loop(self, body, fr, nodes, h, cond, st, emit, rets, pan):
        def run(s):
            r2 = []; p2 = [FALSE]
            outs = self.region(body, fr, nodes, h, s, r2, p2, h)
            back = [(c, x) for t, c, x in outs if t == h]
            ex = [(('t', t), c, x) for t, c, x in outs if t != h]
            ex += [(('r', 0), c, x) for c, x in r2]
            return back, ex, p2[0]
        exits, p = self.loop(run, st)
        if p is not FALSE:
            pan[0] = bor(pan[0], band(cond, p)); cond = band(cond, bnot(p))
        for (k, tgt), c, x in exits:
            cc = band(cond, c)
            if k == 't': emit(tgt, cc, x)
            else: rets.append((cc, x))

    def loop(self, run, st):
        """run(state) -> (backs [(c,s)], exits [(key,c,s)], panic).  Returns exits in closed form."""
        self.nloops += 1
        tau = fresh('tau', 'u64')
        phis = {}        # loc -> phi symbol
        closed = {}      # loc -> (fn of tau term) closed form term containing tau
        nophi = set()
        nolen = set()    # loop variables whose length is not invariant
        S0 = st
        for rnd in range(60):
            s = S0.copy()
            for loc, ph in phis.items():
                self.loc_set(s, loc, closed.get(loc, ph))
            sin = s.copy()
            backs, exits, p = run(s)
            if not backs:
                # never iterates
                return [(k, c, x) for k, c, x in exits], p
            bc, bs = self.join(backs)
            new = []
            for root in sin.mem:
                if root not in bs.mem: continue
                a, b = sin.mem[root], bs.mem[root]
                if a is b: continue
                self.diff(root, (), a, b, S0, phis, closed, new, tau)
            changed = False
            for loc in new:
                if loc not in phis:
                    sort = self.loc_sort(S0, loc)
                    ph = phis[loc] = mk('phi!', fresh().args[0], sort)
                    i0 = self.loc_get(S0, loc)
                    if sort == 'x' and loc not in nolen and i0.op not in ('agg', 'ref'): PHILEN[ph] = seqlen(i0)
                    changed = True
            # assumed lengths must be preserved by the step
            for loc, ph in list(phis.items()):
                if ph in PHILEN and loc not in closed:
                    if not keeps(self.loc_get(bs, loc), ph) and ite(bc, seqlen(self.loc_get(bs, loc)), UNDEF) is not ite(bc, PHILEN[ph], UNDEF):
                        del PHILEN[ph]; nolen.add(loc)
                        phis[loc] = mk('phi!', fresh().args[0], ph.args[1])
                        changed = True
            # verify closed forms
            for loc in list(closed):
                want = subst(closed[loc], {tau: add('u64', tau, cint('u64', 1))})
                got = self.loc_get(bs, loc)
                if want is not got and ite(bc, want, UNDEF) is not ite(bc, got, UNDEF):
                    del closed[loc]; nophi.add(loc); changed = True
            if changed: continue
            # try to close one more phi
            for loc, ph in phis.items():
                if loc in closed or loc in nophi: continue
                st = self.loc_get(bs, loc)
                if st.op == 'ite':
                    for f in self.implied(bc): st = assume(st, *f)
                cf = self.close_phi(ph, self.loc_get(S0, loc), st, tau, phis)
                if cf is not None:
                    closed[loc] = cf; changed = True
                    break
            if not changed: break
        else:
            raise Unsupported('loop did not stabilise')
        open_ = [loc for loc in phis if loc not in closed]
        # ---- exit conditions
        stop = FALSE
        for k, c, x in exits: stop = bor(stop, c)
        if p is not FALSE:
            pass
        if stop is FALSE: return [], TRUE     # infinite loop
        init = {loc: self.loc_get(S0, loc) for loc in phis}
        # a step is only taken before the last iteration: the bound of a counted loop is known to hold in it
        fact = self.counted(stop, tau, {phis[l] for l in open_})
        care = bc
        def known(t): return t
        if fact:
            lims = [self.trip(mk('ite', a, FALSE, TRUE) if val else mk('ite', a, TRUE, FALSE), tau, ()) for a, val in fact]
            def known(t):
                for f in fact: t = assume(t, *f)
                for N in lims:
                    if N is not None: t = self.within(t, tau, N)
                return t
            care = known(bc)
        step = {loc: self.under(known(self.loc_get(bs, loc)), care) for loc in open_}
        final = self.finals(tau, phis, open_, init, step, stop, bc)
        m = dict(final)
        out = []
        defs = []
        # conditions for several exits are evaluated at the final iteration
        rest = TRUE
        n = len(exits)
        seen_cond = FALSE
        for j, (k, c, x) in enumerate(exits):
            if n == 1: c2 = TRUE
            else:
                c2 = self.exit_cond(c, stop, tau, final, m)
                c2 = band(c2, bnot(seen_cond)) if j == n - 1 else c2
                if j == n - 1: c2 = bnot(seen_cond)
                seen_cond = bor(seen_cond, c2)
            y = State({kk: (subst(v, m) if not free_syms(v).isdisjoint(m) else v) for kk, v in x.mem.items()})
            if c2.op == 'ite' and c2.args[1].op != 'ite' and c2.args[2].op != 'ite' and c2.args[0].op == 'any':
                # this way out is taken exactly when the search succeeds (or fails)
                at, val = c2.args[0], c2.args[1] is TRUE
                y = State({kk: self.settle(v, at, val) for kk, v in y.mem.items()})
            # restrict to knowledge that this exit was taken
            out.append((k, c2, y))
        return out, FALSE

    def under(self, t, care):
        """t where the iteration goes on, explicitly undefined elsewhere (canonical, unlike a don't-care)"""
        if t.op != 'ite' or care is TRUE: return t
        return ite(care, t, UNDEF)
    def settle(self, v, at, val):
        if v.op == 'ref': return v
        if at in set(subterms(v)): v = subst(v, {at: TRUE if val else FALSE})
        if val:
            # the condition searched for holds at the first place
            n, bv, body = at.args[:3]
            for f in self.implied(subst(body, {bv: mk('first', n, bv, body)})):
                if v.op == 'ite' and f[0] in set(datoms(v)): v = assume(v, *f)
                elif f[0] in set(subterms(v)): v = subst(v, {f[0]: TRUE if f[1] else FALSE})
        return v
    def implied(self, c):
        """the literals every case of the condition c has"""
        if c.op != 'ite': return []
        out = []
        for a in list(datoms(c))[:40]:
            if assume(c, a, False) is FALSE: out.append((a, True))
            elif assume(c, a, True) is FALSE: out.append((a, False))
        return out
    def counted(self, stop, tau, syms):
        """(atom, value) of the bound tests tau < N that hold in every iteration that goes on"""
        out = []
        for a in datoms(stop):
            if a.op != 'ltk' or not contains(a, tau): continue
            for val in (True, False):
                if assume(stop, a, val) is TRUE:
                    s1 = mk('ite', a, TRUE, FALSE) if val else mk('ite', a, FALSE, TRUE)
                    if self.trip(s1, tau, syms) is not None: out.append((a, not val)); break
        return out
    def within(self, t, tau, N):
        """t for 0 <= tau < N: comparisons of tau with the limits themselves are settled"""
        if tau not in free_syms(t): return t
        m = {}
        for a in set(subterms(t)):
            if a.op != 'ltk' or not contains(a, tau): continue
            d = p_addd(p_of(a.args[0], 'u64'), p_of(a.args[1], 'u64'), -1)
            c = d.pop(((tau, 1),), 0)
            if c not in (1, -1) or any(contains(x, tau) for mono in d for x, e in mono): continue
            hi = p_addd(d, p_of(N, 'u64'), c); hi[()] = hi.get((), 0) - c      # at tau = N - 1
            lo = {k: v for k, v in d.items() if v}; hi = {k: v for k, v in hi.items() if v}
            if c < 0: lo, hi = hi, lo
            if not set(hi) - {()} and hi.get((), 0) < a.args[2]: m[a] = TRUE
            elif not set(lo) - {()} and lo.get((), 0) >= a.args[2]: m[a] = FALSE
        return subst(t, m) if m else t
    def exit_cond(self, c, stop, tau, final, m):
        return subst(c, m)

    def finals(self, tau, phis, open_, init, step, stop, bc):
        """values of tau and of the open phis when the loop stops"""
        syms = {phis[l]: l for l in open_}
        fin = {}
        # simple counted loop: stop == not (tau < N)
        N = self.trip(stop, tau, syms)
        if N is not None:
            fin[tau] = N
            stop_t = None
        else:
            # bounded search: stop == not(tau < N) or brk(tau)
            r = self.search(stop, tau, syms)
            if r is not None:
                N, brk = r
                # final index: N if no break, else first
                anyc = binder('any', N, brk, tau)
                f = binder('first', N, brk, tau)
                fin[tau] = ite(anyc, f, N)
                stop_t = None
            else: stop_t = stop
        if not open_ and stop_t is None: return fin
        # colour refinement names the open phis independently of variable order
        col = {}
        for ph, l in syms.items(): col[ph] = mk('col', init[l].h.hex() if False else show_key(init[l]))
        for _ in range(min(4, len(syms) + 1)):
            nc = {}
            mm = dict(col); 
            for ph, l in syms.items():
                nc[ph] = mk('col', col[ph].args[0] + ':' + subst(step[l], mm).h.hex())
            # shorten
            col = {ph: mk('col', hashlib.blake2b(c.args[0].encode(), digest_size=10).hexdigest()) for ph, c in nc.items()}
        names = {ph: mk('phi', c.args[0], ph.args[1]) for ph, c in col.items()}
        tname = mk('phi', 'tau' + hashlib.blake2b('|'.join(sorted(c.args[0] for c in col.values()) + [(stop_t if stop_t is not None else fin[tau]).h.hex()]).encode(), digest_size=10).hexdigest(), 'u64')
        ren = dict(names); ren[tau] = tname
        # dependency slices
        deps = {}
        def dep(t): return {s for s in free_syms(t) if s in syms}
        base = dep(stop_t) if stop_t is not None else set()
        stepd = {ph: dep(step[l]) for ph, l in syms.items()}
        limit = subst(stop_t, ren) if stop_t is not None else None
        def slice_of(roots):
            need = set(roots); work = sorted(need, key=lambda z: z.h)
            while work:
                x = work.pop()
                for y in stepd[x]:
                    if y not in need: need.add(y); work.append(y)
            return need
        for ph in syms:
            need = slice_of({ph} | base)
            eqs = {}
            for q in need:
                l = syms[q]
                eqs[names[q]] = (names[q], init[l], subst(step[l], ren))
            eqt = tuple(eqs[k] for k in sorted(eqs, key=lambda z: z.h))
            stopv = limit if limit is not None else mk('until', fin[tau])
            lp = mk('loop', eqt, stopv, tname)
            fin[ph] = mk('fin', lp, names[ph])
        if tau not in fin:
            need = slice_of(base)
            eqs = {}
            for q in need:
                l = syms[q]
                eqs[names[q]] = (names[q], init[l], subst(step[l], ren))
            eqt = tuple(eqs[k] for k in sorted(eqs, key=lambda z: z.h))
            fin[tau] = mk('fin', mk('loop', eqt, limit, tname), tname)
        return fin

    def trip(self, stop, tau, syms):
        """stop diagram is exactly not(tau < N), N invariant"""
        if stop.op == 'ite' and all(l in (TRUE, FALSE) for l in leaves(stop)) and stop.args[1].op != 'ite' and stop.args[2].op != 'ite':
            a = stop.args[0]
            if a.op != 'ltk': return self.trip_multi(stop, tau, syms)
            A, B, k = a.args
            neg_ = stop.args[1] is FALSE      # stop when atom false
            for x in (A, B):
                if any(s in free_syms(x) for s in syms): return None
            d = p_addd(p_of(A, 'u64'), p_of(B, 'u64'), -1)   # A-B < k
            c = d.pop(((tau, 1),), 0)
            if any(contains(x, tau) for mono in d for x, e in mono): return None
            rest = p_mk(d, 'u64')
            if c == 1 and neg_:            # continue while tau + rest < k
                return add('u64', sub('u64', cint('u64', 0), rest), cint('u64', k))
            if c == -1 and not neg_:       # stop when -tau + rest < k ; continue while rest - k >= tau i.e. tau < rest-k+1
                return add('u64', rest, cint('u64', 1 - k))
            if c > 1 and neg_:             # continue while c*tau < k - rest
                lim = add('u64', sub('u64', cint('u64', k), rest), cint('u64', c - 1))
                return udiv('u64', lim, cint('u64', c))
            return None
        return self.trip_multi(stop, tau, syms)

    def trip_multi(self, stop, tau, syms):
        """stop = OR of several not(tau < N_i): trip = min"""
        if any(s in free_syms(stop) for s in syms): return None
        ats = datoms(stop)
        if len(ats) < 2 or len(ats) > 3: return None
        Ns = []
        rem = stop
        for a in ats:
            if a.op != 'ltk' or not contains(a, tau): return None
            pos = assume(stop, a, True); ngt = assume(stop, a, False)
            s1 = mk('ite', a, FALSE, TRUE)
            if ngt is not TRUE:
                if pos is TRUE: s1 = mk('ite', a, TRUE, FALSE)
                else: return None
            n = self.trip(s1, tau, syms)
            if n is None: return None
            Ns.append(n)
        r = Ns[0]
        for n in Ns[1:]: r = imin(r, n)
        return r

    def search(self, stop, tau, syms):
        if any(s in free_syms(stop) for s in syms): return None
        for a in datoms(stop):
            if a.op != 'ltk' or not contains(a, tau): continue
            for val in (True, False):
                if assume(stop, a, val) is TRUE:
                    s1 = mk('ite', a, TRUE, FALSE) if val else mk('ite', a, FALSE, TRUE)
                    N = self.trip(s1, tau, syms)
                    if N is not None:
                        return N, assume(stop, a, not val)
        return None

    # locations: (root, path) with path of ('f',variant,i) / ('p',k) for lit / ref-path elements
    def loc_get(self, st, loc):
        root, path = loc
        v = st.mem.get(root, BOT)
        for e in path: v = self.sel(v, e)
        return v
    def sel(self, v, e):
        if e[0] == 'f':
            if v.op == 'ite': return proj(v, e[1], e[2], e[3])
            return proj(v, e[1], e[2], e[3])
        if e[0] == 'p': return idx(v, cint('u64', e[1]))
        if e[0] == 'rp':
            return v.args[1][e[1]][e[2]]
        raise ValueError(e)
    def loc_set(self, st, loc, x):
        root, path = loc
        st.mem[root] = self._set(st.mem[root], path, x)
    def _set(self, v, path, x):
        if not path: return x
        e = path[0]
        if e[0] == 'f':
            a = list(v.args); a[e[2] + 2] = self._set(a[e[2] + 2], path[1:], x)
            return mk('agg', *a)
        if e[0] == 'p':
            a = list(v.args); a[e[1]] = self._set(a[e[1]], path[1:], x)
            return lit(*a)
        if e[0] == 'rp':
            p = list(v.args[1]); q = list(p[e[1]]); q[e[2]] = x; p[e[1]] = tuple(q)
            return mk('ref', v.args[0], tuple(p))
    def loc_sort(self, st, loc):
        v = self.loc_get(st, loc)
        if v.op in ('int', 'poly', 'urem', 'udiv'): return v.args[0]
        return 'x'

    def diff(self, root, path, a, b, S0, phis, closed, new, tau):
        if a is b: return
        loc = (root, path)
        if loc in phis: return
        if a.op == 'agg' and b.op == 'ite' and len(a.args) > 2:
            ls = [x for x in leaves(b) if x is not UNDEF and x is not BOT]
            if ls and len(ls) <= 40 and all(x.op == 'agg' and x.args[:2] == a.args[:2] and len(x.args) == len(a.args) for x in ls):
                b = mk('agg', *a.args[:2], *[lift(lambda x: x.args[i] if x.op == 'agg' else x, b) for i in range(2, len(a.args))])
        if a.op == 'agg' and b.op == 'agg' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) and len(a.args) > 2:
            for i in range(len(a.args) - 2):
                self.diff(root, path + (('f', a.args[1], i, len(a.args) - 2),), a.args[i + 2], b.args[i + 2], S0, phis, closed, new, tau)
            return
        if a.op == 'lit' and b.op == 'lit' and len(a.args) == len(b.args) and a.args:
            for i in range(len(a.args)):
                self.diff(root, path + (('p', i),), a.args[i], b.args[i], S0, phis, closed, new, tau)
            return
        if a.op == 'ref' and b.op == 'ref' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) and all(x[0] == y[0] for x, y in zip(a.args[1], b.args[1])):
            ok = True; locs = []
            for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                for j, (u, w) in enumerate(zip(x, y)):
                    if isinstance(u, T) and isinstance(w, T):
                        if u is not w: locs.append((i, j, u, w))
                    elif u != w: ok = False
            if ok:
                for i, j, u, w in locs:
                    self.diff(root, path + (('rp', i, j),), u, w, S0, phis, closed, new, tau)
                return
        # drop deeper phis below this location: the shape changes
        for l in list(phis):
            if l[0] == root and l[1][:len(path)] == path and l[1] != path:
                del phis[l]; closed.pop(l, None)
        new.append(loc)

    def close_phi(self, ph, init, step, tau, phis):
        """closed form in tau of phi = init; phi <- step"""
        sort = ph.args[1]
        if step is ph: return init
        allsyms = set(phis.values())
        def free_of_phi(t): return free_syms(t).isdisjoint(allsyms)
        # affine / sums / products
        if sort != 'x' or init.op in ('int', 'poly') or step.op == 'poly':
            s = sort if sort != 'x' else (step.args[0] if step.op == 'poly' else None)
            if s and step.op == 'poly':
                d = dict(step.args[1])
                c1 = d.get(((ph, 1),), 0)
                rest = {m: c for m, c in d.items() if m != ((ph, 1),)}
                if c1 == 1 and all(x is not ph for m in rest for x, e in m):
                    r = p_mk(rest, s)
                    if free_of_phi(r):
                        init_ = resort(init, s)
                        if not contains(r, tau): 
                            return add(s, init_, mul(s, r, resort(tau, s) if s[0] != 'F' else mk('i2f', s, tau)))
                        return add(s, init_, self.mksum(s, tau, r))
                if len(d) == 1:
                    (mono, c), = d.items()
                    if any(x is ph and e == 1 for x, e in mono):
                        r = p_mk({tuple((x, e) for x, e in mono if x is not ph): c}, s)
                        if free_of_phi(r):
                            if not contains(r, tau): return mul(s, resort(init, s), self.mkpow(s, r, tau))
                            return mul(s, resort(init, s), self.mkprod(s, tau, r))
        # phi <- phi * (general factor)
        # invariant reassignment: step does not depend on phi or tau: value is init at 0 then step -> not closed
        if step.op == 'cat' and step.args[0] is ph:
            x = cat(*step.args[1:])
            if free_of_phi(x):
                if x.op == 'lit' and len(x.args) == 1:
                    return cat(init, tab(tau, x.args[0], tau)) if False else cat(init, self.tab_upto(tau, x.args[0]))
                return cat(init, self.flat_upto(tau, x))
        if step.op == 'upd' and step.args[0] is ph:
            i, x = step.args[1], step.args[2]
            d = sub('u64', i, tau)
            if d.op == 'int' and d.args[1] == 0 and not contains(i, ph):
                own = idx(ph, tau)
                xi = replace(x, {own: idx(init, tau)})
                if free_of_phi(xi):
                    s = fresh()
                    body = subst(xi, {tau: s})
                    h = height(body) + 1
                    bv = mk('bv', h, 'u64')
                    return pmap(init, tau, bv, subst(body, {s: bv}))
        return None

    def tab_upto(self, n, body):
        s = fresh()
        return tab(n, subst(body, {n: s}), s)
    def flat_upto(self, n, body):
        s = fresh()
        return binder('fmapseq', n, subst(body, {n: s}), s)
    def mksum(self, s, tau, r):
        v = fresh()
        return binder('sum', tau, subst(r, {tau: v}), v, s)
    def mkprod(self, s, tau, r):
        v = fresh()
        return binder('prod', tau, subst(r, {tau: v}), v, s)
    def mkpow(self, s, r, tau):
        c = as_const(r)
        if s[0] != 'F' and c == 2: return pow2(s, tau)
        return fpow(s, r, tau)

    # ---------------------------------------------------------------- entry point
    def summary(self, name, argvals=None):
        """canonical summary of a function instance"""
        self.cells = []
        for _ in range(20):
            try: return self._summary(name, argvals)
            except Restart: self.stack.clear()
        raise Unsupported('effects')
    cells = ()
    def _summary(self, name, argvals=None):
        b = self.F.bodies.get(name)
        if b is None: raise KeyError(name)
        seqs._fresh[0] = 0; PHILEN.clear(); seqs.ARRLEN.clear()      # symbol names do not depend on what was analysed before
        st = State(); args = []
        muts = []
        self.frame = 0
        for c in self.cells: st.mem[c] = mk('arg', 'io')
        for i in range(b.argc):
            ty = b.locals[i + 1]
            a = self.symbolic(ty, i, st, muts) if not argvals or i not in argvals else argvals[i]
            args.append(a)
        ret, out, p = self.call_body(b, args, st)
        p = canon_loops(batom(p))
        def fin(v):
            v = canon_loops(v)
            return self.canon(ite(p, UNDEF, v)) if p is not FALSE else self.canon(v)
        res = {'ret': fin(self.freeze(ret, out)), 'panic': p}
        for i, r in muts:
            v = self.freeze(out.load(r), out)
            res['arg%d' % i] = fin(v)
        if self.cells:
            res['effects'] = fin(mk('effects', tuple(sorted(((c[1], canon_loops(out.mem.get(c, UNDEF))) for c in self.cells), key=lambda x: x[0].h))))
        return res

    # what every constructor and method of a type keeps (each summary shows it): taken for granted of arguments
    # (the length of a mapped vector is at most its capacity: the third field stands for the room left)
    def given(self, ty, a):
        t = derefty(ty)
        # (a tree index is never zero)
        if t.k == 'adt' and t.n == 'zkp_merkle_tree::index::Index': return mk('agg', t.n, 0, mk('nz', proj(a, 0, 0, 1)))
        if t.k != 'adt' or t.n != 'zkp_mmap_vec::mmap_vec::MmapVec' or not t.f or len(t.f[0]) != 4: return a
        f = [proj(a, 0, j, 4) for j in range(4)]
        return mk('agg', t.n, 0, f[0], f[1], add('u64', f[1], f[2]), f[3])

    def symbolic(self, ty, i, st, muts):
        if ty.k == 'ref' and ty.m:
            root = ('A', i)
            st.mem[root] = self.given(ty, mk('arg', i))
            muts.append((i, ref(root)))
            return ref(root)
        if ty.k == 'bool': return batom(mk('arg', i))
        if ty.k == 'tuple' and ty.e == []: return UNIT
        return self.given(ty, mk('arg', i))

def nproj(t, v, i, n):
    return lift(lambda x: BOT if x is UNDEF else proj(x, v, i, n), t)

def show_key(t): return t.h.hex()

def lift_freeze(t, f):
    if t.op == 'ite':
        return merge_val(mk('ite', t.args[0], TRUE, FALSE), lift_freeze(t.args[1], f), lift_freeze(t.args[2], f))
    return f(t)

def contains_ref(t):
    for x in subterms(t):
        if x.op == 'ref': return True
        if x.op == 'agg' and isinstance(x.args[0], str) and x.args[0].startswith('@clo:'): return True
    return False

def replace_refs(t, f):
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'ref' or (x.op == 'agg' and isinstance(x.args[0], str) and x.args[0].startswith('@clo:')): r = f(x)
        elif not contains_ref(x): r = x
        else: r = rebuild(x.op, go(x.args))
        memo[x] = r
        return r
    return go(t)

def replace(t, m):
    return subst(t, m)

def digest(t):
    return t.h.hex()
