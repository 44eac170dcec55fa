"""Loading of the MIR facts written by the zkpfacts compiler driver."""
import json, glob, os, re

class Ty:
    __slots__ = ('k', 'n', 'a', 'f', 'e', 's', 'm', 'b', 'l', 'inst', 'fn', 'u', '_short')
    def __repr__(self): return self.s

class Body:
    __slots__ = ('name', 'path', 'crate', 'kind', 'dk', 'trait', 'self', 'args', 'file', 'line', 'eline', 'unsafe', 'pub', 'mac',
                 'argc', 'spread', 'locals', 'names', 'blocks', 'T', '_cfg', 'src')
    def __repr__(self): return f'<{self.name}>'

class Facts:
    def __init__(self, d):
        self.bodies = {}; self.adts = {}; self.generic = {}; self.skipped = []; self.crates = []
        self.bypath = {}
        self.enums = set()
        intern = {}
        for f in sorted(glob.glob(os.path.join(d, '*.json'))):
            j = json.load(open(f))
            self.crates.append(j['crate'])
            raw = j['types']
            tys = []
            new = []
            for t in raw:
                key = (t['s'], t.get('inst'))
                o = intern.get(key) if t['k'] != 'fndef' and not ('{closure@' in t['s'] and t['k'] != 'closure') else None
                if o is None:
                    o = Ty(); o.k = t['k']; o.s = t['s']; o.n = t.get('n'); o.m = t.get('m'); o.b = t.get('b'); o.l = t.get('l')
                    o.inst = t.get('inst'); o.a = o.f = o.e = o.fn = o.u = None; o._short = None
                    intern[key] = o
                    new.append((o, t))
                tys.append(o)
            for o, t in new:
                if t.get('a') is not None: o.a = [tys[i] if isinstance(i, int) else i for i in t['a']]
                if t.get('f') is not None and len(t['f']) > 1 and t.get('n'): self.enums.add(t['n'])
                if t.get('f') is not None: o.f = [[tys[i] if isinstance(i, int) else None for i in v] for v in t['f']]
                e = t.get('e')
                if isinstance(e, int): o.e = tys[e]
                elif isinstance(e, list): o.e = [tys[i] for i in e]
                if t.get('u') is not None: o.u = [tys[i] if isinstance(i, int) else None for i in t['u']]
                o.fn = t.get('fn')
            for n, a in j['adts'].items(): self.adts.setdefault(n, a)
            for g in j['generic']: self.generic[g[0]] = max(self.generic.get(g[0], 0), g[1])
            self.skipped += j['skipped']
            for b in j['bodies']:
                o = Body()
                for k in ('name', 'path', 'crate', 'kind', 'dk', 'trait', 'file', 'line', 'eline', 'unsafe', 'pub', 'mac', 'argc', 'spread', 'names', 'blocks'):
                    setattr(o, k, b.get(k))
                if o.crate.startswith('zkp') and o.file: o.file = re.sub(r'^.*?/(?=(algebra|crypto|utils)/)', '', o.file)
                o.T = tys; o._cfg = None; o.src = j['crate']
                o.locals = [tys[i] for i in b['locals']]
                o.args = b.get('args')
                o.self = tys[b['self']] if b.get('self') is not None else None
                if o.name not in self.bodies or o.crate == j['crate']:
                    self.bodies.setdefault(o.name, o)
        for b in self.bodies.values(): self.bypath.setdefault(b.path, []).append(b)

    def nvariants(self, ty):
        return len(ty.f) if ty.f else 1
    def variant_of_discr(self, adtname, d):
        a = self.adts.get(adtname)
        if a is None: return d
        for i, v in enumerate(a['v']):
            if int(v['d']) == d: return i
        return d
    def discr_of_variant(self, adtname, i):
        a = self.adts.get(adtname)
        if a is None or i >= len(a['v']): return i
        return int(a['v'][i]['d'])

_cache = {}
def load(d):
    if d not in _cache: _cache[d] = Facts(d)
    import seqs
    seqs.ENUMS |= _cache[d].enums
    return _cache[d]
