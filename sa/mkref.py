"""Record the reviewed reference: value graphs of every obligation root of the given facts."""
import sys, os, json, gzip, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import facts, summ, props
def main(d, out):
    F = facts.load(d)
    known = {b.path for b in F.bodies.values() if b.crate.startswith('zkp')}
    tg = summ.targets(F)
    jobs = [(n, props.scope(F.bodies[n])[0], 25) for p in sorted(tg) for n in tg[p]]
    jobs.sort(key=lambda j: 'verif' not in j[0])
    t = time.time()
    R = summ.run(F, jobs, known)
    ref = {}; bad = []; calls = {}
    for name, dt, err, res, st in R:
        b = F.bodies[name]
        e = ref.setdefault(b.path, dict(file=b.file, pub=bool(b.pub), trait=bool(b.trait), inst={}))
        if err: bad.append((name, err)); e['inst'][name] = None
        else: e['inst'][name] = res
        if st: calls.update(st['inst'])
        if dt > 3: print('slow %.1f %s' % (dt, name[:120]))
    insts = {i: w for e in ref.values() for i, w in e['inst'].items()}
    calls = {k: v for k, v in calls.items() if insts.get(v)}
    s = json.dumps(dict(known=sorted(known), fns=ref, calls=calls), sort_keys=True, separators=(',', ':'))
    with gzip.GzipFile(out, 'wb', mtime=0) if out.endswith('.gz') else open(out, 'wb') as f: f.write(s.encode())
    print(len(ref), 'functions', len(R), 'instances', len(bad), 'not summarised', '%.1fs' % (time.time() - t), os.path.getsize(out))
    for b in bad: print('  ', b[0][:150], b[1][:200])
if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0': os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
    main(sys.argv[1], sys.argv[2])
