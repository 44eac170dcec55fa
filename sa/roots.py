"""Which functions carry an obligation of their own: public ones, trait methods, and functions used from another
source file.  Private helpers are judged through the functions that use them."""
import policy
import re
def callees(b):
    out = set()
    def opnd(o):
        if isinstance(o, list):
            if o and o[0] == 'fn' and isinstance(o[1], dict): add(o[1])
            else:
                for x in o: opnd(x)
        elif isinstance(o, dict) and 'p' in o and ('i' in o or 'ta' in o): add(o)
    def add(fn):
        out.add((fn.get('i') or fn['p'], fn['p']))
    for bl in b.blocks:
        opnd(bl['t']); opnd(bl.get('s', []))
    for t in b.locals:
        if t.k == 'fndef' and isinstance(t.fn, dict): add(t.fn)
    return out

def graph(F):
    g = getattr(F, '_cg', None)
    if g is None:
        g = {}
        for n, b in F.bodies.items():
            g[n] = {i for i, p in callees(b) if i in F.bodies}
            for t in b.locals:
                if t.k == 'closure' and t.inst in F.bodies: g[n].add(t.inst)
        F._cg = g
    return g

def file_of(F, n):
    return F.bodies[n].file

def roots(F):
    r = getattr(F, '_roots', None)
    if r is not None: return r
    g = graph(F)
    cross = set(); rec = set()
    for n, cs in g.items():
        for c in cs:
            if F.bodies[c].file != F.bodies[n].file: cross.add(c)
    # self recursion (directly or through closures)
    for n in F.bodies:
        b = F.bodies[n]
        if not b.crate.startswith('zkp') or b.dk == 'Closure': continue
        seen = set(); st = [c for c in g[n]]
        while st:
            c = st.pop()
            if c in seen or F.bodies[c].file != b.file: continue
            seen.add(c)
            if F.bodies[c].path == b.path: rec.add(n); break
            st.extend(g[c])
    out = []
    for n in sorted(F.bodies):
        b = F.bodies[n]
        if not b.crate.startswith('zkp') or b.dk == 'Closure' or '{closure' in n or b.mac: continue
        if b.kind not in (None, 'fn', 'item', 'Item', b.kind): continue
        if b.pub or b.trait or n in cross or n in rec or policy.CUT.search(b.path): out.append(n)
    F._roots = out; F._rec = rec
    return out
if __name__ == '__main__':
    import sys; sys.path.insert(0, '/verif/sa')
    import facts
    F = facts.load('/tmp/facts')
    R = roots(F); from collections import defaultdict
    d = defaultdict(list)
    for n in R: d[F.bodies[n].file].append(n)
    for f in sorted(d):
        print('##', f, len(d[f]), 'of', sum(1 for b in F.bodies.values() if b.file == f and b.dk != 'Closure' and not b.mac))
        paths = defaultdict(list)
        for n in d[f]: paths[F.bodies[n].path].append(n)
        for p in paths: print('    ', len(paths[p]), p[:150], 'REC' if any(x in F._rec for x in paths[p]) else '')
