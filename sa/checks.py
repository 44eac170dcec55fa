"""Decide a property: compare value graphs with the reviewed reference, run the property's own rules."""
import sys, os, re, time
from terms import *
import facts, summ, props, roots, policy, interp
from ser import ser, de, firstdiff
try: import rules
except ImportError: rules = None

def short_path(p): return re.sub(r'\b(?:[a-z_0-9]+::)+(?=[A-Z])', '', p)

def decide(prop, tier, d, ref, partial):
    F = facts.load(d)
    known = set(ref['known'])
    viol = []; notes = []; cov = {}
    if partial: notes.append('the instantiation crate did not build against this tree: generic functions only it instantiates are not analysed')
    interp.learn(ref)
    fns = {p: e for p, e in ref['fns'].items() if prop in (props.scope((e['file'], p)) or (0, []))[1]}
    if tier != 'quick': fns, cov['functions_of_callees'] = closure(fns, ref)
    present = {}
    for b in F.bodies.values(): present.setdefault(b.path, []).append(b)
    jobs = []; missing = []; skipped = 0
    for p, e in sorted(fns.items()):
        bs = present.get(p)
        if not bs:
            if e['pub'] and not partial: missing.append(p)
            else: skipped += 1
            continue
        for inst in e['inst']:
            if inst not in F.bodies: skipped += 1; continue
            if e['inst'][inst] is None: continue
            jobs.append((inst, props.scope((e['file'], p))[0], 120 if tier == 'quick' else 300))
    R = cached_run(F, jobs, known)
    st = dict(functions=len(set(F.bodies[j[0]].path for j in jobs)), instances=len(jobs), outputs=0, blocks=0, loops=0, symbolic_calls=0)
    open_ = []
    for name, dt, err, res, s in sorted(R, key=lambda r: r[0]):
        b = F.bodies[name]
        want = fns[b.path]['inst'][name]
        where = f'{b.file} fn {short_path(b.path)}'
        if err:
            viol.append((f'{b.path}#unanalysable', where, 'the analysis of this function no longer completes: ' + err[:200])); continue
        st['blocks'] += s['blocks']; st['loops'] += s['loops']; st['symbolic_calls'] += s['calls']
        for k in sorted(set(want) | set(res)):
            st['outputs'] += 1
            if want.get(k) == res.get(k): continue
            a = de(want[k]) if k in want else UNDEF
            c = de(res[k]) if k in res else UNDEF
            if a is c: continue
            open_.append((name, k, a, c, where))
    for (name, k, a, c, where), (same, log) in zip(open_, judged([(a, c) for _, _, a, c, _ in open_])):
        b = F.bodies[name]
        if os.environ.get('RI'): print('   RI', b.path[-60:], k, same, log[:8])
        if same: st['recognised'] = st.get('recognised', 0) + 1; continue
        pth, x, y = firstdiff(a, c)
        viol.append((f'{b.path}#{k}', where, f'{OUT(k)} is no longer the reviewed one: at {"/".join(pth[-4:]) or "top"}\n      reviewed {show(x, 5)[:300]}\n      now      {show(y, 5)[:300]}'))
    for p in missing:
        viol.append((f'{p}#missing', fns[p]['file'] + ' fn ' + short_path(p), 'anchored public function is gone'))
    cov.update(st)
    cov['uninstantiated'] = skipped
    if rules and hasattr(rules, prop):
        v, c, n = getattr(rules, prop)(F, tier)
        viol += v; cov.update(c); notes += n
    cov['explanation'] = ('Each anchored function of the current tree is turned into a canonical value graph (gated value numbering over its MIR: every output as an expression of the inputs, with the exact condition of every case) '
                          'and compared with the graph reviewed for this property; private helpers are followed, other anchored functions stay symbolic. Counts are of this run.')
    # one report per function instance family is enough
    seen = set(); out = []
    for v in viol:
        if v[0] in seen: continue
        seen.add(v[0]); out.append(v)
    return out, cov, notes

def closure(fns, ref):
    """the anchors and every reviewed function their graphs call, however indirectly"""
    home = {i: p for p, e in ref['fns'].items() for i in e['inst']}
    out = dict(fns); todo = list(fns)
    while todo:
        e = ref['fns'][todo.pop()]
        for w in e['inst'].values():
            for g in (w or {}).values():
                for x in subterms(de(g)):
                    if x.op not in ('call', 'post'): continue
                    p = home.get(ref['calls'].get(x.args[0]))
                    if p and p not in out and props.scope((ref['fns'][p]['file'], p)): out[p] = ref['fns'][p]; todo.append(p)
    return out, len(out) - len(fns)

_pairs = []; _verdict = {}
def _judge1(i):
    sys.setrecursionlimit(200000)
    log = []
    try: return interp.judge(*_pairs[i], 0, log), log
    except Exception as e: return False, [repr(e)[:200]]
def judged(ps):
    """verdicts of the second opinion, in parallel"""
    global _pairs
    todo = [p for p in dict.fromkeys(ps) if p not in _verdict]
    if todo:
        from multiprocessing import get_context
        _pairs = todo
        with get_context('fork').Pool(min(8, len(todo)), maxtasksperchild=20) as pool:
            for p, r in zip(todo, pool.map(_judge1, range(len(todo)), chunksize=1)): _verdict[p] = r
    return [_verdict[p] for p in ps]

_done = {}
def cached_run(F, jobs, known):
    todo = [j for j in jobs if j[0] not in _done]
    for r in summ.run(F, todo, known): _done[r[0]] = r
    return [_done[j[0]] for j in jobs]

def decide_all(ps, tier, d, ref, partial):
    out = []
    F = facts.load(d)
    jobs = [(i, props.scope((e['file'], p))[0], 60) for p, e in sorted(ref['fns'].items()) if props.scope((e['file'], p)) for i in e['inst'] if i in F.bodies]
    jobs.sort(key=lambda j: 'verifier::verify' not in j[0])
    t = time.time(); cached_run(F, jobs, set(ref['known']))
    for r in _done.values():
        if r[1] > 20: print('   slow', r[0][:100], '%.1f' % r[1])
    for p in ps:
        v, c, n = decide(p, tier, d, ref, partial)
        out += [(p,) + x for x in v]
    return out, {}, []

def OUT(k): return {'ret': 'the returned value', 'panic': 'the panic condition'}.get(k, 'the final value of argument ' + k[3:])
