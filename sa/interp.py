"""Random interpretation of value graphs (Gulwani & Necula): a second opinion when two graphs differ in shape.

A graph is given a meaning in a randomly chosen model: anchored functions, inputs and fields are uninterpreted
(hashes), arithmetic, sequences, decisions and recurrences mean what they mean.  Graphs of equal meaning agree in
every model; the normal form decides first, this only recognises equal graphs the normal form keeps apart.
No code of the analysed program is involved, only the graphs.
"""
import hashlib, random
from terms import *
from seqs import occ, BINDERS
import seqs

class Abort(Exception): pass          # this model is too large (iteration cap): not a sample
CAP = 700
class O:
    """uninterpreted value"""
    __slots__ = ('key', 'd')
class Lst:
    __slots__ = ('e', 'd', 'ds')
class Agg:
    __slots__ = ('v', 'f', 'd')
class Str:
    __slots__ = ('s', 'd')
def mkstr(s):
    r = Str(); r.s = s; r.d = blake(b'str', s.encode()); return r
class Undef:
    d = b'undef'
U_ = Undef()

def blake(*parts):
    return hashlib.blake2b(b'\0'.join(parts), digest_size=16).digest()

class Model:
    def __init__(self, seed, asked, pool, mode, over=None):
        self.seed = str(seed).encode()
        self.asked = asked            # digest -> what it was used as
        self.pool = pool; self.mode = mode
        self.tab = {}
        self.memo = {}
        self.steps = 0
        self.touched = None
        self.over = over or {}
        self.cmemo = {}
        self.biases = {}
        self.expand = XP[0]
        self.ins = None               # inputs consulted, when recorded
        self.watch = None             # node -> situations seen (bits)
    # ---- digests
    def dig(self, v):
        if isinstance(v, bool): return b'B1' if v else b'B0'
        if isinstance(v, int): return b'i' + str(v).encode()
        if isinstance(v, O):
            c = self.canon(v)
            return c.d if isinstance(c, O) else self.dig(c)
        return v.d
    def canon(self, o):
        """the uninterpreted value o, as the structure it is used as"""
        a = self.asked.get(o.d)
        if a is None: return o
        if 'int' in a: return self.toint(o, a['int'])
        if 'bool' in a: return self.tobool(o)
        if 'len' in a: return self.tolist(o)
        if 'is' in a:
            k = self.variant(o, a['is'])
            n = a.get(('f', k))
            return self.agg(k, [self.fld(o, k, i, n) for i in range(n or 0)])
        for k in a:
            if isinstance(k, tuple) and k[0] == 'f' and k[1] == 0: return self.agg(0, [self.fld(o, 0, i, a[k]) for i in range(a[k])])
        return o
    def ask(self, o, k, val):
        a = self.asked.setdefault(o.d, {})
        if k == 'int':
            w = a.get('int')
            if w is None or width(val) < width(w): a['int'] = val; self.changed = True
        elif k not in a: a[k] = val; self.changed = True
    changed = False
    def o(self, *key):
        parts = []
        for k in key:
            if isinstance(k, str): parts.append(b's' + k.encode())
            elif isinstance(k, bytes): parts.append(k)
            else: parts.append(self.dig(k))
        d = blake(*parts)
        x = self.tab.get(d)
        if x is None:
            x = O(); x.key = key; x.d = d; self.tab[d] = x
        return x
    def h(self, o, tag):
        return int.from_bytes(blake(self.seed, o.d if not isinstance(o, bytes) else o, tag), 'big')
    # ---- views of an uninterpreted value
    def toint(self, v, s):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if not isinstance(v, O):
            return self.toint(self.o('asint', v), s)
        a = self.asked.get(v.d)
        if a and 'int' in a and width(a['int']) < width(s): s = a['int']
        self.ask(v, 'int', s)
        h = self.h(v, b'int'); m = sort_mod(s)
        if self.ins is not None: self.ins[('i', v.d)] = (s, v)
        sel = h % 100; h >>= 10
        small, pool, tiny = self.mode
        if self.over:
            x = self.over.get(('i', v.d))
            if x is not None: return x
        if sel < small: r = h % tiny
        elif sel < small + pool and self.pool: 
            r = self.pool[h % len(self.pool)] + (h >> 20) % 3 - 1
            if m and not 0 <= r < m: r = h % 7
        else: r = (h >> 3) * (h | 1)
        if m: r %= m
        if s[0] == 'i' and r >= m >> 1: r -= m
        return r
    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Undef): return False
        if not isinstance(v, O): v = self.o('asbool', v)
        self.ask(v, 'bool', 1)
        x = self.over.get(v.d)
        if x is not None: return x
        return self.h(v, b'bool') % 16 < self.bias(v)
    def kind(self, o):
        """what produced the value: the function, projections of it"""
        k = o.key
        if k[0] in ('fld', 'idx') and isinstance(k[1], bytes):
            b = self.tab.get(k[1])
            return blake(b'k', k[0].encode(), str(k[2:] if k[0] == 'fld' else '').encode(), self.kind(b) if b is not None else b'?')
        if k[0] == 'call': return blake(b'c', str(k[1]).encode())
        return k[0].encode()
    def bias(self, o):
        """in some models a question is answered the same way most of the time: loops go on, searches run long"""
        d = self.kind(o)
        b = self.biases.get(d)
        if b is None: b = self.biases[d] = (8, 8, 1, 15, 14, 2)[int.from_bytes(blake(self.seed, b'bias', d)[:4], 'big') % 6]
        return b
    def variant(self, o, n):
        x = self.over.get(o.d)
        if x is not None and x < n: return x
        if n == 2 and 'v' in self.over:
            x = self.over.get(('v', self.kind(o)))
            if x is not None: return x
        if n == 2: return int(self.h(o, b'var') % 16 < self.bias(o))
        return self.h(o, b'var') % n
    def length(self, v):
        if isinstance(v, Lst): return len(v.e)
        if isinstance(v, Str): return len(v.s)
        if isinstance(v, O):
            if v.key[0] == 'keccak' and isinstance(v.key[3], int): return v.key[3]
            self.ask(v, 'len', 1)
            if self.ins is not None: self.ins[('l', v.d)] = ('len', v)
            x = self.over.get(('l', v.d))
            if x is not None: return x
            h = self.h(v, b'len')
            return (0, 1, 2, 2, 3, 4, 4, 5, 8, 8)[h % 10] if h % 97 > 3 else 16
        return 0
    def tolist(self, v):
        if isinstance(v, Lst): return v
        n = self.length(v)
        if isinstance(v, (Undef,)): return v
        return self.lst([self.o('idx', v if not isinstance(v, O) else v.d, i) for i in range(n)])
    def lst(self, xs, ds=None):
        if len(xs) > CAP: raise Abort
        l = Lst(); l.e = tuple(xs)
        l.ds = [self.dig(x) for x in xs] if ds is None else ds      # (digests hold for the pass they are made in)
        l.d = blake(b'L', *l.ds); return l
    def agg(self, v, fs):
        l = Agg(); l.v = v; l.f = tuple(fs); l.d = blake(b'A', str(v).encode(), *[self.dig(x) for x in fs]); return l
    def fld(self, o, k, i, n):
        return self.o('fld', o.d, k, i)
    # ---- evaluation
    def ev(self, t, env):
        op = t.op
        if op == 'int': return t.args[1]
        if op == 'true': return True
        if op == 'false': return False
        if op in ('bv', 'phi', 'tau', 'phi!', 'col'):
            x = env.get(t)
            return x if x is not None else self.o('free', t.h)
        syms = free(t)
        if syms:
            key = (t,) + tuple(kk(env.get(s)) for s in syms)
        else: key = t
        r = self.memo.get(key)
        if r is not None: return r
        self.steps += 1
        if self.steps > 400000: raise Abort
        f = EV.get(op)
        if op == 'call' and t.args[0].startswith('zkp_u256::traits::binary::Binary::most_significant_bit<') and t.args[1].op == 'int':
            # (known of a constant)
            n = t.args[1].args[1]; r = self.agg(1, [n.bit_length() - 1]) if n else self.agg(0, [])
        elif op == 'call' and t.args[0] in self.expand: r = self.callf(t, env)
        elif op == 'post' and self.expand and t.args[0].op == 'call' and t.args[0].args[0] in self.expand and definition(t.args[0].args[0], 'arg%s' % t.args[1]) is not None:
            r = self.callf(t.args[0], env, 'arg%s' % t.args[1])
            if self.touched is not None: self.touched.add(t.args[0])
        elif f is not None: r = f(self, t, env)
        else: r = self.o(op, *[self.gen(a, env) for a in t.args])
        self.memo[key] = r
        if self.touched is not None: self.touched.add(t)
        return r
    args = None
    depth = 0
    def callf(self, t, env, out='ret'):
        """an anchored function is interpreted by its own reviewed graph"""
        vals = [self.ev(x, env) for x in t.args[1:]]
        g = definition(t.args[0], out)
        if g is None or self.depth > 5:
            r = self.o('call', t.args[0], *vals)
            return r if out == 'ret' else self.o('post', r, int(out[3:]), 0)
        key = (out, t.args[0]) + tuple(self.dig(v) for v in vals)
        r = self.cmemo.get(key)
        if r is None:
            old = self.memo, self.args, self.touched
            self.memo = {}; self.args = vals; self.touched = None; self.depth += 1
            try: r = self.ev(g, {})
            finally: self.memo, self.args, self.touched = old; self.depth -= 1
            self.cmemo[key] = r
        return r
    def gen(self, a, env):
        if isinstance(a, T): return self.ev(a, env)
        if isinstance(a, tuple): return blake(b'(', *[x if isinstance(x, bytes) else (x.encode() if isinstance(x, str) else self.dig(x)) for x in [self.gen(y, env) for y in a]])
        if a is None: return b'None'
        return a
    def i(self, t, env, s='u64'): return self.toint(self.ev(t, env), s)
    def poly(self, t, env, s=None):
        """integer value, not reduced"""
        if t.op == 'int': return t.args[1]
        if t.op != 'poly': return self.i(t, env, s or 'u64')
        if self.touched is not None: self.touched.add(t)
        s = t.args[0]; r = 0
        m = sort_mod(s) if s[0] == 'F' else None
        for mono, c in t.args[1]:
            p = c
            for a, e in mono:
                x = self.i(a, env, s)
                if m: x = pow(x, e, m)
                else:
                    if abs(x) > 1 << 600: raise Abort
                    x = x ** e
                p *= x
            r += p
        if m: r %= m
        return r
    def seq(self, t, env): return self.tolist(self.ev(t, env))
    def sub_env(self, env, k, v):
        e = dict(env); e[k] = v; return e

def kk(v):
    if v is None: return None
    if isinstance(v, (int, bool)): return v
    return v.d
def width(s):
    if s[0] == 'F': return 252
    return int(s[1:]) if s[1:].isdigit() else 64

_free = {}
def free(t):
    r = _free.get(t)
    if r is None:
        r = _free[t] = tuple(sorted(_fr(t), key=lambda s: s.h))
    return r
_frs = {}
def _fr(t):
    """free bound-variable symbols"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t: r |= _fr(x)
        return r
    if not isinstance(t, T): return frozenset()
    r = _frs.get(t)
    if r is not None: return r
    if t.op in ('bv', 'phi', 'tau', 'phi!', 'col'): r = frozenset([t])
    elif t.op in BINDERS and len(t.args) >= 3: r = (_fr(t.args[2]) - {t.args[1]}) | _fr(t.args[0]) | _fr(t.args[3:])
    elif t.op == 'pmap': r = (_fr(t.args[3]) - {t.args[2]}) | _fr(t.args[0]) | _fr(t.args[1])
    elif t.op == 'loop':
        own = {e[0] for e in t.args[0]} | {t.args[2]}
        r = frozenset()
        for e in t.args[0]: r |= _fr(e[1]) | (_fr(e[2]) - own)
        r |= _fr(t.args[1]) - own
    elif t.op == 'fin': r = _fr(t.args[0])
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, (T, tuple)): r |= _fr(a)
    _frs[t] = r
    return r

# anchored functions with a small reviewed graph of their own: call name -> serialised graph
EXPAND = {}
XP = [frozenset()]            # names of the anchored functions interpreted by their graphs
_defs = {}
def definition(nm, k='ret'):
    if (nm, k) not in _defs:
        from ser import de
        g = de(EXPAND[nm][k]) if k in EXPAND[nm] else None
        n = 0
        for x in subterms(g) if g is not None else ():
            n += 1
            if x.op in ('loop', 'clorec', 'ref') or n > 80: g = None; break
        _defs[(nm, k)] = g
    return _defs[(nm, k)]
def learn(ref):
    insts = {i: w for e in ref['fns'].values() for i, w in e['inst'].items()}
    for nm, i in ref.get('calls', {}).items():
        w = insts.get(i)
        if w and nm.startswith('op:') and i.endswith('_assign') and 'arg0' in w: w = {'ret': w['arg0'], 'panic': w['panic']}
        if w and w['panic'] == [['false']] and sum(k.startswith('arg') for k in w) <= 1 and 'effects' not in w: EXPAND[nm] = w
EV = {}
def ev(*names):
    def d(f):
        for n in names: EV[n] = f
        return f
    return d
@ev('nz')
def _(M, t, env): return M.i(t.args[0], env) or 1
@ev('arg')
def _(M, t, env):
    if M.args is not None and isinstance(t.args[0], int) and t.args[0] < len(M.args): return M.args[t.args[0]]
    return M.o('arg', *[M.gen(a, env) for a in t.args])
@ev('undef', 'bot')
def _(M, t, env): return U_
@ev('ite')
def _(M, t, env):
    while t.op == 'ite':
        b = M.tobool(M.ev(t.args[0], env))
        if M.watch is not None:
            w = M.watch.get(t)
            if w is not None: M.watch[t] = (w | (1 if b else 2)) + 256      # (and how often it was decided)
        t = t.args[1] if b else t.args[2]
        if M.touched is not None: M.touched.add(t)
    return M.ev(t, env)
@ev('poly')
def _(M, t, env):
    r = M.poly(t, env); s = t.args[0]
    return r % (1 << width(s)) if s[0] == "u" else r
@ev('ltk')
def _(M, t, env):
    A, B, k = t.args
    s = A.args[0] if A.op in ('poly', 'int', 'udiv', 'urem') else B.args[0] if B.op in ('poly', 'int', 'udiv', 'urem') else 'u256' if max(abs(k), 1) >= 1 << 64 else 'u64'
    d = M.poly(A, env, s) - M.poly(B, env, s)
    if M.watch is not None:
        w = M.watch.get(t)
        if w is not None: M.watch[t] = (w | (1 if d == k - 1 else 2 if d == k else 0)) + 256
    return d < k
def see(M, t, b):
    w = M.watch.get(t)
    if w is not None and b & ~w: M.watch[t] = w | b
# situations in which a node of one graph only has to be seen before the graphs may count as equal
NEED = {'sx': 3, 'ltk': 3, 'eq0': 3, 'ite': 3, 'min0': 3, 'urem': 2, 'eq': 3, 'is': 3, 'any': 3, 'first': 3, 'bit': 3, 'and': 3, 'is_power_of_two': 3}
@ev('eq0')
def _(M, t, env):
    z = M.poly(t.args[1], env, t.args[0]) == 0
    if M.watch is not None: see(M, t, 1 if z else 2)
    return z
@ev('eq')
def _(M, t, env):
    r = equal(M, t, env)
    if M.watch is not None: see(M, t, 1 if r else 2)
    return r
def equal(M, t, env):
    a, b = M.ev(t.args[0], env), M.ev(t.args[1], env)
    if M.dig(a) == M.dig(b): return True
    if isinstance(a, (Lst, Str)) or isinstance(b, (Lst, Str)):
        a = M.tolist(a); b = M.tolist(b)
        return False if isinstance(a, Undef) or isinstance(b, Undef) else M.dig(a) == M.dig(b)
    if isinstance(a, int) or isinstance(b, int):
        return M.toint(a, 'u256') == M.toint(b, 'u256')
    x, y = sorted((M.dig(a), M.dig(b)))
    return M.tobool(M.o('eq', x, y))
@ev('is')
def _(M, t, env):
    v = M.ev(t.args[0], env)
    if isinstance(v, Agg):
        if M.watch is not None: see(M, t, 1 if v.v == t.args[1] else 2)
        return v.v == t.args[1]
    if isinstance(v, Undef): return False
    if not isinstance(v, O): v = M.o('asenum', v)
    M.ask(v, 'is', t.args[2])
    r = M.variant(v, t.args[2]) == t.args[1]
    if M.watch is not None: see(M, t, 1 if r else 2)
    return r
@ev('discr')
def _(M, t, env):
    v = M.ev(t.args[0], env)
    if isinstance(v, Agg): return M.o('discrc', v.v, t.args[2])
    if isinstance(v, O) and t.args[1]:
        M.ask(v, 'is', t.args[1])
        return M.o('discrc', M.variant(v, t.args[1]), t.args[2])
    return M.o('discr', v)
@ev('fld')
def _(M, t, env):
    v = M.ev(t.args[0], env); k, i, n = t.args[1:4]
    if isinstance(v, Agg): return v.f[i] if v.v == k and i < len(v.f) else U_
    if isinstance(v, Undef): return U_
    if not isinstance(v, O): return M.o('fldx', v, k, i)
    if n: M.ask(v, ('f', k), n)
    return M.fld(v, k, i, n)
@ev('agg')
def _(M, t, env): return M.agg(t.args[1], [M.ev(x, env) for x in t.args[2:]])
@ev('dec')
def _(M, t, env):
    for j, br in enumerate(t.args[1]):
        if M.tobool(M.ev(br[1], env)):
            if M.watch is not None: see(M, t, 1 << j)
            return M.agg(br[0], [M.ev(x, env) for x in br[2:]])
    return U_
@ev('lit')
def _(M, t, env): return M.lst([M.ev(x, env) for x in t.args])
@ev('str')
def _(M, t, env):
    if not t.args[0]: return M.lst([])
    return M.lst([mkstr(t.args[0])])
@ev('len')
def _(M, t, env): return M.length(M.ev(t.args[0], env))
def getidx(M, v, i):
    if isinstance(v, Lst): return v.e[i] if 0 <= i < len(v.e) else M.o('oob')
    if isinstance(v, O): return M.o('idx', v.d, i)
    return M.o('idxx', v, i)
@ev('keccak')
def _(M, t, env): return M.o('keccak', M.ev(t.args[0], env), M.tolist(M.ev(t.args[1], env)), M.i(t.args[2], env))
@ev('idx')
def _(M, t, env):
    if t.args[0].op == 'tab':
        tb = t.args[0]; return M.ev(tb.args[2], M.sub_env(env, tb.args[1], M.i(t.args[1], env)))
    v = M.ev(t.args[0], env); i = M.i(t.args[1], env)
    return getidx(M, v, i)
@ev('cat')
def _(M, t, env):
    out = []; ds = []
    for x in t.args:
        l = M.seq(x, env)
        if isinstance(l, Lst) and l.e:
            if out and isinstance(out[-1], Str) and isinstance(l.e[0], Str):
                out[-1] = mkstr(out[-1].s + l.e[0].s); ds[-1] = M.dig(out[-1])
                out.extend(l.e[1:]); ds.extend(l.ds[1:])
            else: out.extend(l.e); ds.extend(l.ds)
    return M.lst(out, ds)
@ev('sub')
def _(M, t, env):
    v = M.ev(t.args[0], env); a, b = M.i(t.args[1], env), M.i(t.args[2], env)
    if b - a > CAP: raise Abort
    return M.lst([getidx(M, v, i) for i in range(a, b)])
@ev('upd')
def _(M, t, env):
    v = M.seq(t.args[0], env); i = M.i(t.args[1], env); x = M.ev(t.args[2], env)
    if not isinstance(v, Lst): return U_
    e = list(v.e)
    if not 0 <= i < len(e): return M.o('oobset', v, i, x)
    e[i] = x
    return M.lst(e)
@ev('splice')
def _(M, t, env):
    v = M.seq(t.args[0], env); a, b = M.i(t.args[1], env), M.i(t.args[2], env); x = M.seq(t.args[3], env)
    if not isinstance(v, Lst) or not isinstance(x, Lst): return U_
    if not 0 <= a <= b <= len(v.e): return M.o('oobset', v, a, b, x)
    return M.lst(v.e[:a] + x.e[:b - a] + v.e[b:] if len(x.e) == b - a else v.e[:a] + x.e + v.e[b:])
def count(M, t, env):
    if t.op == 'inf': raise Abort
    n = M.poly(t, env)
    if n > CAP: raise Abort
    return max(n, 0)
@ev('tab')
def _(M, t, env):
    if t.args[0].op == 'inf': return M.o('inftab', *[M.ev(t.args[2], M.sub_env(env, t.args[1], i)) for i in range(4)])
    return M.lst([M.ev(t.args[2], M.sub_env(env, t.args[1], i)) for i in range(count(M, t.args[0], env))])
@ev('pmap')
def _(M, t, env):
    v = M.seq(t.args[0], env); n = count(M, t.args[1], env)
    if not isinstance(v, Lst): return U_
    return M.lst([M.ev(t.args[3], M.sub_env(env, t.args[2], i)) if i < n else x for i, x in enumerate(v.e)])
@ev('sum', 'prod')
def _(M, t, env):
    s = t.args[3]; m = sort_mod(s) if s[0] == 'F' else None; r = 0 if t.op == 'sum' else 1
    for i in range(count(M, t.args[0], env)):
        x = M.poly(t.args[2], M.sub_env(env, t.args[1], i), s)
        r = r + x if t.op == 'sum' else r * x
        if m: r %= m
        elif abs(r) > 1 << 2000: raise Abort
    return r
@ev('any')
def _(M, t, env):
    for i in range(count(M, t.args[0], env)):
        if M.tobool(M.ev(t.args[2], M.sub_env(env, t.args[1], i))):
            if M.watch is not None: see(M, t, 1)
            return True
    if M.watch is not None: see(M, t, 2)
    return False
@ev('first')
def _(M, t, env):
    n = count(M, t.args[0], env)
    for i in range(n):
        if M.tobool(M.ev(t.args[2], M.sub_env(env, t.args[1], i))):
            if M.watch is not None: see(M, t, 1)
            return i
    if M.watch is not None: see(M, t, 2)
    return n
@ev('filter')
def _(M, t, env):
    out = []
    for i in range(count(M, t.args[0], env)):
        e = M.sub_env(env, t.args[1], i); b = t.args[2]
        if b.op == 'agg': c, x = M.ev(b.args[2], e), (lambda: M.ev(b.args[3], e))
        else:
            p = M.ev(b, e); c, x = (p.f[0], (lambda: p.f[1])) if isinstance(p, Agg) else (False, None)
        if M.tobool(c): out.append(x())
    return M.lst(out)
@ev('fmapseq')
def _(M, t, env):
    out = []
    for i in range(count(M, t.args[0], env)):
        l = M.tolist(M.ev(t.args[2], M.sub_env(env, t.args[1], i)))
        if isinstance(l, Lst): out.extend(l.e)
    return M.lst(out)
@ev('lam')
def _(M, t, env):
    n = M.i(t.args[0], env)
    return M.o('lam', n, *[M.ev(t.args[2], M.sub_env(env, t.args[1], M.o('probe', j))) for j in range(8)])
@ev('sorted')
def _(M, t, env):
    v = M.seq(t.args[0], env); k = M.ev(t.args[1], env)
    if not isinstance(v, Lst): return U_
    xs = [M.canon(x) if isinstance(x, O) else x for x in v.e]
    if isinstance(k, Agg) and all(isinstance(x, int) for x in xs): return M.lst(sorted(xs))
    if isinstance(k, Agg) and all(isinstance(x, O) for x in xs):
        return M.lst(sorted([M.toint(x, 'u64') for x in xs]))
    return M.lst(sorted(v.e, key=lambda x: blake(M.dig(x), M.dig(k))))
@ev('dedup')
def _(M, t, env):
    v = M.seq(t.args[0], env)
    if not isinstance(v, Lst): return U_
    out = []
    for x in v.e:
        if not out or M.dig(out[-1]) != M.dig(x): out.append(x)
    return M.lst(out)
@ev('fin')
def _(M, t, env):
    L, ph = t.args
    key = ('L', L) + tuple(kk(env.get(s)) for s in free(L))
    fin = M.memo.get(key)
    if fin is None:
        eqs, stop, tn = L.args
        e = dict(env)
        init = [M.ev(q[1], env) for q in eqs]
        for q, v in zip(eqs, init): e[q[0]] = v
        e[tn] = 0
        N = None
        if stop.op == 'until': N = count(M, stop.args[0], env)
        n = 0
        while not (n >= N if N is not None else M.tobool(M.ev(stop, e))):
            nv = [M.ev(q[2], e) for q in eqs]
            e = dict(e)
            for q, v in zip(eqs, nv): e[q[0]] = v
            n += 1; e[tn] = n
            if n > CAP or n > 400 and N is None: raise Abort
        fin = e
        M.memo[key] = fin
    return fin[ph]
@ev('loop')
def _(M, t, env): return M.o('loop', *[M.ev(mk('fin', t, q[0]), env) for q in t.args[0]])
# ---- integers
def nn(M, o, *a): return M.o(o, *a)
@ev('udiv')
def _(M, t, env):
    s = t.args[0]; a, b = M.poly(t.args[1], env, s), M.poly(t.args[2], env, s)
    if s[0] == 'u': m = sort_mod(s); a %= m; b %= m
    if b == 0: raise Abort            # the program stops here: not a sample
    if s[0] == 'i': q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
    return a // b
@ev('urem')
def _(M, t, env):
    s = t.args[0]; a, b = M.poly(t.args[1], env, s), M.poly(t.args[2], env, s)
    if s[0] == 'u': m = sort_mod(s); a %= m; b %= m
    if b == 0: raise Abort
    if M.watch is not None: see(M, t, 1 if abs(a) < abs(b) else 2)
    if s[0] == 'i': r = abs(a) % abs(b); return r if a >= 0 else -r
    return a % b
@ev('min0')
def _(M, t, env):
    x = M.poly(t.args[1], env, t.args[0])
    if M.watch is not None: see(M, t, 1 if x < 0 else 2 if x > 0 else 0)
    return min(x, 0)
@ev('pow2')
def _(M, t, env):
    e = M.poly(t.args[1], env)
    if e < 0: return M.o('negshift', e)
    if t.args[0][0] in 'ui' and t.args[0] != 'u256' and e >= width(t.args[0]): return M.o('overshift', t.args[0], e)
    if e > 600: raise Abort
    return 1 << e
@ev('powx')
def _(M, t, env):
    s = t.args[0]; b, e = M.poly(t.args[1], env, s), M.poly(t.args[2], env)
    m = sort_mod(s)
    if e < 0:
        if b % m == 0: return M.o('inv0')
    return pow(b, e, m)
@ev('ipow')
def _(M, t, env):
    b, e = M.poly(t.args[1], env, t.args[0]), M.poly(t.args[2], env)
    if e < 0 or e > 300: raise Abort
    return b ** e
@ev('inv')
def _(M, t, env):
    s = t.args[0]; b = M.poly(t.args[1], env, s)
    return pow(b, -1, sort_mod(s)) if b % sort_mod(s) else M.o('inv0')
def bits(f):
    def g(M, t, env):
        s = t.args[0]
        a = M.poly(t.args[1], env, s)
        m = sort_mod(s)
        if m: a %= m
        return f(M, a, int(s[1:]), t, env)
    return g
EV['leading_zeros'] = bits(lambda M, a, b, t, env: b - a.bit_length())
EV['most_significant_bit'] = bits(lambda M, a, b, t, env: a.bit_length() - 1)
EV['trailing_zeros'] = bits(lambda M, a, b, t, env: b if a == 0 else (a & -a).bit_length() - 1)
EV['count_ones'] = bits(lambda M, a, b, t, env: bin(a).count('1'))
EV['count_zeros'] = bits(lambda M, a, b, t, env: b - bin(a).count('1'))
def pow2q(M, a, b, t, env):
    if M.watch is not None: see(M, t, 1 if is_pow2(a) else 2)
    return is_pow2(a)
EV['is_power_of_two'] = bits(pow2q)
EV['next_power_of_two'] = bits(lambda M, a, b, t, env: 1 << max(0, (a - 1).bit_length()) if a else 1)
EV['reverse_bits'] = bits(lambda M, a, b, t, env: int(format(a, '0%db' % b)[::-1], 2))
EV['abs'] = lambda M, t, env: abs(M.poly(t.args[1], env, t.args[0]))
EV['unsigned_abs'] = EV['abs']
EV['not'] = lambda M, t, env: ~M.poly(t.args[1], env, t.args[0])
EV['sar'] = lambda M, t, env: M.poly(t.args[1], env, t.args[0]) >> max(0, min(600, M.poly(t.args[2], env)))
@ev('and', 'or', 'xor')
def _(M, t, env):
    s = t.args[0]; xs = t.args[1] if t.op != 'and' else t.args[1:3]
    m = sort_mod(s); r = None
    for x in xs:
        v = M.poly(x, env, s)
        if m: v %= m
        if r is not None and t.op == 'and' and M.watch is not None: see(M, t, (1 if r & v != r else 0) | (2 if r & v != v else 0))
        r = v if r is None else (r & v if t.op == 'and' else r | v if t.op == 'or' else r ^ v)
    return r
@ev('limb')
def _(M, t, env):
    x = M.poly(t.args[0], env, 'u256') % (1 << 256); i = M.poly(t.args[1], env)
    return (x >> (64 * i)) & (1 << 64) - 1 if 0 <= i < 4 else M.o('oob')
@ev('byte')
def _(M, t, env):
    x = M.poly(t.args[0], env, 'u256') % (1 << 256)
    return (x >> (8 * (31 - t.args[1]))) & 255
@ev('bit')
def _(M, t, env):
    x = M.poly(t.args[0], env, 'u256') % (1 << 256); i = M.poly(t.args[1], env)
    r = bool((x >> i) & 1) if 0 <= i < 256 else False
    if M.watch is not None: see(M, t, 1 if r else 2)
    return r
@ev('lowbits')
def _(M, t, env): return M.poly(t.args[1], env, 'u256') % (1 << int(t.args[0][1:]))
@ev('zext')
def _(M, t, env): return M.poly(t.args[2], env, t.args[1]) % sort_mod(t.args[1])
@ev('sx')
def _(M, t, env):
    m = sort_mod(t.args[0]); x = M.poly(t.args[1], env, 'u' + t.args[0][1:]) % m
    if M.watch is not None: see(M, t, 1 if x >= m >> 1 else 2)
    return x - m if x >= m >> 1 else x
@ev('touint')
def _(M, t, env): return M.poly(t.args[1], env, t.args[0]) % sort_mod(t.args[0])
@ev('ofuint')
def _(M, t, env): return M.poly(t.args[1], env, 'u256') % (1 << 256) % sort_mod(t.args[0])
@ev('i2f')
def _(M, t, env): return M.poly(t.args[-1], env, t.args[1] if len(t.args) > 2 else 'u64') % sort_mod(t.args[0])
@ev('mont')
def _(M, t, env): return M.poly(t.args[1], env, t.args[0]) * (1 << 256) % sort_mod(t.args[0])
@ev('unmont')
def _(M, t, env): return M.poly(t.args[1], env, 'u256') * pow(1 << 256, -1, sort_mod(t.args[0])) % sort_mod(t.args[0])
@ev('frombe')
def _(M, t, env):
    v = M.seq(t.args[0], env)
    if not isinstance(v, Lst) or len(v.e) != 32: return M.o('frombe', v)
    r = 0
    for x in v.e: r = r * 256 + M.toint(x, 'u8') % 256
    return r
@ev('ipowf')
def _(M, t, env):
    s = t.args[0]; b = M.poly(t.args[1], env, s); e = M.i(t.args[2], env, 'i64'); m = sort_mod(s)
    if e < 0 and b % m == 0: return M.o('inv0')
    return pow(b, e, m)

# ------------------------------------------------------------------ comparison
def pool_of(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'int': out.add(x.args[1])
            elif x.op == 'ltk': out.add(x.args[2])
    return sorted(v for v in out if v > 5)[:200]

def sample(ts, seed, mode, pool, over=None, touch=None, watch=None):
    """values of the graphs ts in one model (the views of uninterpreted values are settled first); None: no sample"""
    asked = {}
    last = None
    for _ in range(12):
        M = Model(seed, asked, pool, mode, over)
        M.touched = set() if touch is not None else None
        vals = []
        for t in ts:
            try: vals.append(M.dig(M.ev(t, {})))
            except Abort: vals.append(None)
            except RecursionError: vals.append(None)
        if not M.changed: break
    if touch is not None: touch |= M.touched
    if watch is not None and None not in vals:
        M = Model(seed, asked, pool, mode, over); M.watch = watch
        for t in ts: M.ev(t, {})
    return vals

MODES = [(100, 0, 7), (85, 10, 7), (50, 30, 7), (20, 40, 7), (0, 30, 7), (98, 2, 2), (60, 30, 3), (0, 5, 7)]
def compare(a, b, n=100, seed=0, budget=25.0):
    """-> ('differ', models, index) | ('same', models, share of the nodes only one of the graphs has that took part,
    those that did not, situations not met)"""
    import time
    t0 = time.process_time()
    pool = pool_of(a, b)
    A, B = set(subterms(a)), set(subterms(b))
    own = {x for x in A ^ B if x.op not in ('bv', 'phi', 'loop', 'until', 'arg', 'int', 'undef', 'bot', 'true', 'false', 'agg', 'fnv', 'str', 'ite')}
    # loop variables are numbered by what they hold: nodes that differ in those numbers only do not differ
    fa, fb = {form(x) for x in A}, {form(x) for x in B}
    core = {x for x in own if form(x) not in fa or form(x) not in fb}
    if core: own = core
    watch = {x: 0 for x in own if x.op in NEED or x.op == 'dec'}
    for x in A ^ B:
        if x.op == 'ite' and x.args[0] in own: watch[x] = 0
    atoms = bounds(A, B)
    got = 0; touch = set(); tf = {b'B0': 0, b'B1': 0}
    rnd = random.Random(seed)
    i = 0; open_ = list(watch)
    while (got < n or open_ and i < 3 * n) and i < 4 * n and time.process_time() - t0 < (budget if got > 23 else 3 * budget):
        mode = MODES[i % len(MODES)]
        if a.op == 'dec' and i % 2: mode = MODES[(0, 5, 0, 1)[i // 2 % 4]]
        over = choose(a, b, rnd, seed, i, mode, pool, atoms, open_, watch)
        va, vb = sample([a, b], seed * 100003 + i, mode, pool, over, touch, watch if open_ else None)
        i += 1
        if va is None or vb is None: continue
        got += 1
        if va != vb: return 'differ', got, (seed * 100003 + i - 1, mode, over)
        if va in (b'B0', b'B1'): tf[va] += 1
        if i % 8 == 0 and open_: open_ = unmet(watch)
    # comparisons of one quantity with different limits: look between the limits, with other comparisons at their limits
    lim = {}
    for x in own:
        if x.op == 'ltk' and not free(x): lim.setdefault((x.args[0], x.args[1]), set()).add(x)
    pairs = [sorted(v, key=lambda x: x.args[2]) for v in lim.values() if len(v) > 1 and v & A and v & B]
    if pairs:
        every = sorted((x for x in A | B if x.op in ('ltk', 'eq0') and not free(x)), key=lambda x: x.h)
        for j in range(120):
            if time.process_time() - t0 >= 2 * budget: break
            mode = MODES[j % len(MODES)]; sd = seed * 100003 + 50000 + j
            over = dict(guide(a if j % 2 else b, rnd, sd, mode, pool) or {}) if j % 3 else {}
            todo = [(t, 3) for t in rnd.sample(every, min(len(every), rnd.choice((1, 1, 2))))] + [(rnd.choice(rnd.choice(pairs)[:-1]), 2)]
            if j % 4 == 3: todo.reverse()
            for t, w in todo: aim(t, rnd, sd, mode, pool, over, w)
            va, vb = sample([a, b], sd, mode, pool, over, touch)
            if va is None or vb is None: continue
            got += 1
            if va != vb: return 'differ', got, (sd, mode, over)
    missed = own - touch
    LASTW.clear(); LASTW.update(watch)
    # a condition has to come out either way a number of times
    rare = [x for x, k in ((TRUE, b'B1'), (FALSE, b'B0')) if tf[k] < 6 and any(t.op == 'ite' and x in set(leaves(t)) for t in (a, b))]
    return 'same', got, 1 - len(missed) / max(1, len(own)), missed, unmet(watch) + rare
def leaves(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': st += x.args[1:3]
        else: yield x
def need(x): return (1 << len(x.args[1])) - 1 if x.op == 'dec' else NEED[x.op]
def unmet(watch): return sorted((x for x, w in watch.items() if need(x) & ~w and not settled(x, w, watch)), key=lambda x: x.h)
def settled(x, w, watch):
    """a decision that came out the same way very often where it is taken, though its test comes out either way elsewhere:
    the decisions before it imply it"""
    if x.op == 'ltk':
        # (the limits themselves do not occur, of a quantity with few values)
        m = bound(x.args[0]) if x.args[1].op == 'int' else None
        return m is not None and m <= 1024 and w >> 8 >= max(250, 8 * m)
    if x.op != 'ite' or w < 256 * 150: return False
    t = x.args[0]
    return t not in watch or not need(t) & ~watch[t]

_form = {}
def form(t):
    """hash of a term without the numbers of its loop variables"""
    r = _form.get(t)
    if r is not None: return r
    if t.op in ('phi', 'bv', 'tau', 'phi!', 'col'): r = blake(b'v', t.op.encode())
    elif t.op in ('poly', 'loop'): r = blake(t.op.encode(), *sorted_form(t.args))
    else: r = blake(t.op.encode(), *[form_of(a) for a in t.args])
    _form[t] = r
    return r
def form_of(a):
    if isinstance(a, T): return form(a)
    if isinstance(a, tuple): return blake(b'(', *[form_of(x) for x in a])
    return repr(a).encode()
def sorted_form(args):
    return [blake(b'{', *sorted(blake(b'(', *sorted(form_of(y) for y in x)) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else form_of(x) for x in a)) if isinstance(a, tuple) else form_of(a) for a in args]

def bounds(A, B):
    """comparisons only one of the graphs makes (all of them when there are none)"""
    f = lambda X: sorted((x for x in X if x.op in ('ltk', 'eq0') and not free(x)), key=lambda x: x.h)
    return (f(A ^ B) or f(A | B))[:80]
def choose(a, b, rnd, seed, i, mode, pool, atoms, open_, watch):
    over = guide(a if i % 2 else b, rnd, seed * 100003 + i, mode, pool) if i % 3 else None
    if i % 4 == 3 and atoms or open_ and i % 2:
        over = dict(over or {})
        c = [x for x in open_ if not free(x)] if i % 2 else ()
        if not c: c = atoms
        for t in rnd.sample(c, min(len(c), rnd.choice((1, 1, 2)))): aim(t, rnd, seed * 100003 + i, mode, pool, over, NEED.get(t.op, 3) & ~watch.get(t, 0))
    return over
def aim(t, rnd, seed, mode, pool, over, want, views=None):
    """choose the value of one input so that the node t is in a wanted situation (one step of a secant method)"""
    if t.op == 'ite': t = t.args[0]; want = 3
    side = rnd.choice([x for x in (1, 2) if want & x] or [1, 2])
    if t.op in ('is', 'eq') or t.op not in ('ltk', 'eq0', 'min0', 'urem', 'bit', 'and'):
        try:
            M = Model(seed, {}, pool, mode, over)
            if t.op == 'is':
                v = M.ev(t.args[0], {})
                if isinstance(v, O): over[v.d] = t.args[1] if side == 1 else (t.args[1] + 1) % t.args[2]
            elif t.op == 'eq':
                p, q = M.ev(t.args[0], {}), M.ev(t.args[1], {})
                if isinstance(p, O) and isinstance(q, O) and p is not q:
                    p, q = sorted((M.dig(p), M.dig(q))); over[M.o('eq', p, q).d] = side == 1
            else:
                v = M.ev(t, {})
                if isinstance(v, O): over[v.d] = side == 1
        except (Abort, RecursionError): pass
        return
    s = t.args[0] if t.op != 'ltk' else next((p.args[0] for p in t.args[:2] if p.op in ('poly', 'int', 'udiv', 'urem')), 'u256' if abs(t.args[2]) >= 1 << 64 else 'u64')
    if t.op in ('bit', 'and'): return
    def f(M):
        if t.op == 'ltk': return M.poly(t.args[0], {}, s) - M.poly(t.args[1], {}, s) - (t.args[2] - (side == 1))
        if t.op == 'eq0': return M.poly(t.args[1], {}, s)
        if t.op == 'min0': return M.poly(t.args[1], {}, s) - (-1 if side == 1 else 1)
        return M.poly(t.args[1], {}, s) - M.poly(t.args[2], {}, s) - rnd0
    rnd0 = rnd.choice((0, 1, 5))
    asked = {k: dict(v) for k, v in views.items()} if views else {}
    def at(ov):
        for _ in range(5):
            M = Model(seed, asked, pool, mode, ov); M.ins = {}
            r = f(M)
            if not M.changed: break
        return r, M
    try:
        if t.op == 'eq0' and s[0] == 'F' and t.args[1].op == 'poly':
            # an uninterpreted value the equation is linear in
            c = [(m[0][0], k) for m, k in t.args[1].args[1] if len(m) == 1 and m[0][1] == 1]
            rnd.shuffle(c)
            for x, k in c:
                f0, M = at(over)
                v = M.ev(x, {}); p = sort_mod(s)
                if isinstance(v, O) and k % p and sum(x is y for mm, _ in t.args[1].args[1] for y, _e in mm) == 1:
                    over[('i', v.d)] = (M.toint(v, s) - f0 * pow(k, -1, p)) % p
                    return
        for _ in range(2):
            f0, M = at(over)
            if f0 == 0 and s[0] != 'u': return
            ins = sorted(M.ins.items(), key=lambda kv: kv[0][1])
            if not ins: return
            for _ in range(4):
                key, (srt, v) = ins[rnd.randrange(len(ins))]
                v0 = M.length(v) if srt == 'len' else M.toint(v, srt)
                m = CAP if srt == 'len' else sort_mod(srt) or 1 << 64
                step = 1 if v0 + 1 < m else -1
                f1, _M = at({**over, key: v0 + step})
                k = (f1 - f0) * step
                p = sort_mod(s) if s[0] == 'F' else None
                if p:
                    if srt[0] != 'F' or k % p == 0: continue
                    x = (v0 - f0 * pow(k, -1, p)) % p
                else:
                    if k == 0 or f0 % k: continue
                    x = v0 - f0 // k
                lo = -(m >> 1) if srt[0] == 'i' else 0
                if lo <= x < (m >> 1 if srt[0] == 'i' else m): over[key] = x; return
            return
    except (Abort, RecursionError, ZeroDivisionError, ValueError): return
def guide(t, rnd, seed, mode, pool):
    """force the uninterpreted decisions along one random path of the diagram t"""
    wt = weight
    if t.op == 'dec':
        # towards one of its cases
        t = rnd.choice(t.args[1])[1]; wt = tweight
    if t.op != 'ite': return None
    over = {}
    asked = {}
    aims = 20
    for attempt in range(10 if wt is tweight else 3):
        M = Model(seed, asked, pool, mode, over)
        x = t
        try:
            while x.op == 'ite':
                a = x.args[0]
                hi = rnd.random() < wt(x.args[1]) / (wt(x.args[1]) + wt(x.args[2]))
                if a.op == 'is':
                    v = M.ev(a.args[0], {})
                    if isinstance(v, O) and v.d not in over:
                        M.ask(v, 'is', a.args[2])
                        if hi: over[v.d] = a.args[1]
                        if hi and wt is tweight and a.args[2] == 2: over['v'] = 1; over.setdefault(('v', M.kind(v)), a.args[1])   # (others of its kind as well)
                        elif not hi: over[v.d] = rnd.choice([k for k in range(a.args[2]) if k != a.args[1]])
                elif a.op not in ('ltk', 'eq0', 'any', 'bit', 'is_power_of_two'):
                    v = M.ev(a, {}) if a.op != 'eq' else None
                    if a.op == 'eq':
                        p, q = M.ev(a.args[0], {}), M.ev(a.args[1], {})
                        if isinstance(p, O) and isinstance(q, O) and p is not q:
                            p, q = sorted((M.dig(p), M.dig(q))); v = M.o('eq', p, q)
                    if isinstance(v, O) and v.d not in over: over[v.d] = hi
                elif aims and wt is tweight and a.op in ('ltk', 'eq0') and not free(a) and (hi or a.op == 'ltk') and M.tobool(M.ev(a, {})) != hi:
                    aims -= 1
                    aim(a, rnd, seed, mode, pool, over, 1 if hi else 2, asked)
                    ch = M.changed; M = Model(seed, asked, pool, mode, over); M.changed = ch
                x = x.args[1] if M.tobool(M.ev(a, {})) else x.args[2]
        except (Abort, RecursionError): return None
        if not M.changed: break
    return over
_tw = {}
def tweight(t):
    """likewise, to reach a leaf that holds"""
    r = _tw.get(t)
    if r is None:
        r = _tw[t] = (0.02 if t.op == 'false' else 1.0) if t.op != 'ite' else min(1e9, tweight(t.args[1]) + tweight(t.args[2])) ** 0.75
    return r
_w = {}
def weight(t):
    r = _w.get(t)
    if r is None:
        r = _w[t] = 1.0 if t.op != 'ite' else min(1e9, weight(t.args[1]) + weight(t.args[2])) ** 0.75
    return r

def pairs(a, b):
    """differing corresponding subterms of two nodes of the same kind; None: the nodes do not correspond"""
    if a.op != b.op or len(a.args) != len(b.args): return None
    if a.op in ('phi', 'bv', 'int', 'arg'): return None
    if a.op == 'ite' and a.args[0] is not b.args[0]:
        # only the test differs
        if not (a.args[1] is b.args[1] and a.args[2] is b.args[2]): return None
        if a.args[0].op != b.args[0].op: return None
    out = []
    def cmp(x, y):
        if isinstance(x, T) and isinstance(y, T):
            if x is not y: out.append((x, y))
            return True
        if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all([cmp(p, q) for p, q in zip(x, y)])
        return x == y
    if not cmp(a.args, b.args): return None
    if a.op == 'loop' and any(x.op in ('phi',) for p in out for x in p): return None
    return out if len(out) <= 6 else None

SKIPOP = ('bv', 'phi', 'loop', 'until', 'arg', 'int', 'undef', 'bot', 'true', 'false', 'fnv', 'str', 'ite', 'dec')
def sweep(a, b, budget=20.0, n=40):
    """b with every closed subterm that means the same as a subterm of a replaced by it: the subterms are valued
    directly in each model, not behind the decisions that lead to them"""
    import time
    t0 = time.process_time()
    A, B = set(subterms(a)), set(subterms(b))
    oa = [x for x in A - B if x.op not in SKIPOP and not free(x)]
    ob = [x for x in B - A if x.op not in SKIPOP and not free(x)]
    if not oa or not ob or len(oa) + len(ob) > 4000: return b
    pool = pool_of(a, b)
    ts = oa + ob
    sig = [[] for _ in ts]; seen = [set() for _ in ts]
    got = 0
    for i in range(n):
        if time.process_time() - t0 > budget: break
        vals = sample(ts, 77003 + i, MODES[i % len(MODES)], pool)
        got += 1
        for s, z, v in zip(sig, seen, vals):
            s.append(v)
            if v is not None: z.add(v)
    if got < 15: return b
    by = {}
    for t, s, z in zip(oa, sig, seen):
        by.setdefault(tuple(s), t)
    m = {}
    for t, s, z in zip(ob, sig[len(oa):], seen[len(oa):]):
        u = by.get(tuple(s))
        if u is None or sum(v is not None for v in s) < 12: continue
        few = 2 if z <= {b'B0', b'B1'} else 5
        if len(z) < few: continue
        m[t] = u
    # smallest first: a pair that follows from smaller ones is settled, any other is compared on its own
    ok = {}
    try:
        NA = {}
        for x in oa:
            NA.setdefault(norm(x), x); NA[x] = x
        for t in sorted(m, key=lambda t: (len(set(subterms(t))), t.h)):
            if time.process_time() - t0 > 2 * budget + 10: break
            c = norm(seqs.subst(t, ok)) if ok else t
            if c in A or c in NA: ok[t] = NA.get(c, c); continue
            if c is not m[t]:
                v = compare(m[t], c, n=100, budget=8.0)
                if v[0] == "same" and not enough(v) and v[1] >= 100: v = compare(m[t], c, n=400, budget=8.0)
                if not enough(v): continue
            ok[t] = m[t]
        if not ok: return b
        c = norm(seqs.subst(b, ok))
        return a if c is norm(a) else c
    except Exception: return b
def norm(x):
    for _ in range(3):
        y = seqs.canon_loops(x)
        if y is x: break
        x = y
    if x.op == 'ite' and x.args[1].op == 'true' and x.args[2].op == 'false': return x.args[0]
    return x

_jm = {}
LASTW = {}
def enough(v): return v[0] == 'same' and v[1] >= 20 and v[2] >= 0.9 and not v[4]
_uses = {}
def uses(nm):
    """names the reviewed graphs of nm mention"""
    r = _uses.get(nm)
    if r is None:
        r = set()
        for k in ('ret', 'arg0', 'arg1'):
            g = definition(nm, k)
            if g is not None: r |= names(g)
        _uses[nm] = r
    return r
def names(g): return {x.args[0] for x in subterms(g) if x.op == 'call'}
def related(a, b):
    """functions to look into: those only one graph calls, and those defined in terms of them"""
    na, nb = names(a), names(b)
    d = na ^ nb
    if not d: return frozenset()
    out = set(d); todo = list(na | nb)
    for n in na | nb:
        seen = set(); st = [n]
        while st:
            m = st.pop()
            if m in seen or m not in EXPAND: continue
            seen.add(m); st.extend(uses(m))
            if m in d or uses(m) & d: out.add(n)
    # what they are made of is looked into as well
    st = list(out); seen = set()
    while st:
        m = st.pop()
        if m in seen or m not in EXPAND: continue
        seen.add(m); st.extend(uses(m))
    return frozenset(seen)
def reach(a, b):
    st = list(names(a) | names(b)); seen = set()
    while st:
        m = st.pop()
        if m in seen or m not in EXPAND or definition(m) is None and definition(m, 'arg0') is None: continue
        seen.add(m); st.extend(uses(m))
    return frozenset(seen)
def judge(a, b, depth=0, log=None):
    """do the graphs mean the same?"""
    r = judge1(a, b, depth, log)
    if r:
        p = scaled(a, b)
        if p and p[0] is not p[1]:
            if log is not None: log.append('scaled')
            return _judge(*p, 0, log)
    return r
def scaled(a, b):
    """both graphs with block sizes (divisors that are a large power of two) made small, so that the models reach
    more than one block; None: there are no such sizes"""
    ks = set()
    for x in set(subterms(a)) | set(subterms(b)):
        if x.op in ('udiv', 'urem') and x.args[0] == 'u64' and x.args[2].op == 'int':
            v = x.args[2].args[1]
            if 1 << 11 <= v <= 1 << 40 and is_pow2(v): ks.add(v.bit_length() - 1)
    if not ks or any(x.op == 'and' for x in subterms(a)): return None
    S = min(ks) - 2
    def f(v):
        for d in (0, 1, -1):
            n = abs(v) + d
            if n >= 1 << S + 1 and n <= 1 << S + 4 and is_pow2(n):
                n = (n >> S) - d
                return n if v > 0 else -n
        return v
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple([go(y) for y in x])
        if isinstance(x, bool) or not isinstance(x, (int, T)): return x
        if isinstance(x, int): return f(x)
        r = memo.get(x)
        if r is None: r = memo[x] = mk(x.op, *go(x.args)) if x.op not in ('str', 'bv', 'phi') else x
        return r
    return go(a), go(b)
def judge1(a, b, depth=0, log=None):
    NONE_ = frozenset()
    XP[0] = NONE_
    u = _judge(a, b, 0, log)
    try:
        if u:
            # no model in which the anchored functions mean what was reviewed may tell them apart either
            if not any(n in EXPAND for n in names(a) | names(b)): return True
            XP[0] = frozenset(EXPAND)
            v = compare(a, b, n=150, seed=3, budget=15.0)
            if log is not None: log.append(('expanded', v[:3]))
            return v[0] != 'differ'
        # facts that relate different functions count
        XP[0] = related(a, b)
        if not XP[0]: XP[0] = reach(a, b)
        if not XP[0]: return False
        if log is not None: log.append(('expanded', len(XP[0])))
        v = compare(a, b, n=400, seed=7, budget=30.0)
        if v[0] == 'differ' or v[1] < 150: return False
        return _judge(a, b, 0, log)
    finally: XP[0] = NONE_
def _judge(a, b, depth=0, log=None):
    if a is b: return True
    r = _jm.get((a, b, XP[0]))
    if r is not None: return r
    v = compare(a, b, n=200 if depth == 0 else 60, budget=14.0 if depth == 0 else 8.0)
    if log is not None: log.append((depth, v[:3] if v[0] == 'differ' else v[:3] + (len(v[4]),)))
    if v[0] == 'differ': r = False
    elif enough(v): r = True
    elif depth > 12: r = False
    else:
        if depth == 0:
            b2 = sweep(a, b)
            if log is not None: log.append(('sweep', b2 is not b, b2 is a))
            if b2 is a: _jm[(a, b, XP[0])] = True; return True
            if b2 is not b:
                v = compare(a, b2, n=60, budget=12.0)
                if log is not None: log.append(('swept', v[:3]))
                if enough(v): _jm[(a, b, XP[0])] = True; return True
                if v[0] == 'same': b = b2
        ps = pairs(a, b)
        r = ps is not None and all(_judge(x, y, depth + 1, log) for x, y in ps)
    _jm[(a, b, XP[0])] = r
    return r

def explain(a, c, at):
    """re-run the model that tells the graphs apart and show the two values"""
    seed, mode, over = at
    pool = pool_of(a, c); asked = {}
    for _ in range(12):
        M = Model(seed, asked, pool, mode, over)
        x = M.ev(a, {}); y = M.ev(c, {})
        if not M.changed: break
    return pretty(M, x) + '\n<>\n' + pretty(M, y)
def pretty(M, v, d=6):
    if d == 0: return '..'
    if isinstance(v, O):
        w = M.canon(v)
        if not isinstance(w, O): return pretty(M, w, d)
        return str(v.key[0]) + '(' + ','.join(pretty(M, k, d - 1) if not isinstance(k, (bytes, str)) else (k.hex()[:6] if isinstance(k, bytes) else k[-40:]) for k in v.key[1:]) + ')'
    if isinstance(v, Lst): return '[' + ', '.join(pretty(M, x, d - 1) for x in v.e) + ']'
    if isinstance(v, Agg): return '{%d: ' % v.v + ', '.join(pretty(M, x, d - 1) for x in v.f) + '}'
    if isinstance(v, Str): return repr(v.s)
    if isinstance(v, Undef): return 'undef'
    return str(v)
