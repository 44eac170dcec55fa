"""(De)serialisation of value graphs and reporting of their differences."""
from terms import *
def ser(t):
    nodes = []; ids = {}
    def arg(a):
        if isinstance(a, T): return ['#', go(a)]
        if isinstance(a, tuple): return ['(', [arg(x) for x in a]]
        if isinstance(a, bool): return ['b', int(a)]
        if isinstance(a, int): return ['i', str(a)] if abs(a) > 1 << 52 else a
        return a
    def go(x):
        i = ids.get(x)
        if i is None:
            n = [x.op] + [arg(a) for a in x.args]
            i = ids[x] = len(nodes); nodes.append(n)
        return i
    go(t)
    return nodes
def de(nodes):
    out = []
    def arg(a):
        if isinstance(a, list):
            k, v = a
            if k == '#': return out[v]
            if k == '(': return tuple(arg(x) for x in v)
            if k == 'b': return bool(v)
            if k == 'i': return int(v)
        return a
    for n in nodes: out.append(mk(n[0], *[arg(a) for a in n[1:]]))
    return out[-1]

def firstdiff(a, b, path=()):
    """descend to the smallest pair of differing subterms"""
    while True:
        if a is b: return None
        if a.op != b.op or len(a.args) != len(b.args): return path, a, b
        ds = []
        def cmp(x, y):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y: ds.append((x, y))
                return True
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return all([cmp(p, q) for p, q in zip(x, y)])
            return x == y
        if not all([cmp(x, y) for x, y in zip(a.args, b.args)]) or not ds: return path, a, b
        if a.op == 'ite' and a.args[0] is not b.args[0]: return path, a, b
        path = path + (a.op,)
        a, b = ds[0]
