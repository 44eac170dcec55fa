"""Summaries of obligation roots, in parallel with per-function limits."""
import sys, signal, time
from terms import *
import engine, policy, props, roots
from ser import ser
class TO(Exception): pass
def _h(*a): raise TO()
_ctx = {}
def pick(names):
    """representative instances of one generic function"""
    def key(n): return ('PrimeField<zkp_primefield::proth_field::Proth>' not in n, 'zkp_u256::u256::U256' not in n, 'zkp_macros' in n, len(n), n)
    return sorted(names, key=key)[:2]
def targets(F):
    """path -> instances"""
    d = {}
    for n in roots.roots(F):
        b = F.bodies[n]
        if props.scope(b) is None: continue
        d.setdefault(b.path, []).append(n)
    return {p: pick(ns) for p, ns in d.items()}
def one(job):
    name, prof, lim = job
    F, known = _ctx['F'], _ctx['known']
    sys.setrecursionlimit(200000)
    signal.signal(signal.SIGALRM, _h); signal.alarm(lim)
    t = time.time()
    try:
        E = engine.Engine(F, profile=prof, opaque=policy.modular(F, name, known=known, **policy.options(F.bodies[name])))
        r = E.summary(name)
        res = {k: ser(v) for k, v in r.items()}
        return name, time.time() - t, None, res, dict(blocks=E.nblocks, loops=E.nloops, calls=len(E.opaque_calls), visited=len(E.visited), inst=E.opaque_inst)
    except TO: return name, time.time() - t, 'timeout', None, None
    except RecursionError: return name, time.time() - t, 'recursion', None, None
    except Exception as e:
        import traceback
        return name, time.time() - t, type(e).__name__ + ': ' + str(e)[:200] + ' ' + traceback.format_exc()[-500:], None, None
    finally: signal.alarm(0)
def run(F, jobs, known, nproc=8):
    from multiprocessing import get_context
    _ctx['F'] = F; _ctx['known'] = known
    roots.graph(F)
    if not jobs: return []
    with get_context('fork').Pool(min(nproc, len(jobs)), maxtasksperchild=40) as p:
        return list(p.imap_unordered(one, jobs, chunksize=1))
