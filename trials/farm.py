"""Development tool (not used by checks): many edits of scratch copies of /repo judged side by side.
run(tasks): tasks = [(name, [(file, old, new) | (file, line_index, new_line)])]; yields (name, status, findings)
  status: quiet | alarm | compile | apply ; findings: [(props, key, verdict, text)], verdict DIFF | same (graph differs,
  recognised) | ERR | rule.  Only functions that reach edited source are judged again."""
import sys, os, re, subprocess, json, shutil, time
V = os.environ.get('VSNAP', '/verif'); BASE = '/tmp/farm'
def prep(i):
    r, w = f'{BASE}/r{i}', f'{BASE}/w{i}'
    if not os.path.isdir(r):
        os.makedirs(BASE, exist_ok=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    subprocess.run(['git', '-C', r, 'fetch', '-q', 'origin', 'HEAD']); subprocess.run(['git', '-C', r, 'checkout', '-q', '-f', 'FETCH_HEAD'])
    subprocess.run(['cp', '/opt/vp/Cargo.lock', r + '/Cargo.lock'])
    if not os.path.isdir(w):
        os.makedirs(w)
        if os.path.isdir('/tmp/rtwork/driver'): subprocess.run(['cp', '-a', '/tmp/rtwork/driver', w + '/driver']); subprocess.run(['cp', '/tmp/rtwork/driver.sum', w])
def changed(r):
    o = subprocess.run(['git', '-C', r, 'diff', '-U0'], stdout=subprocess.PIPE, text=True).stdout
    f = None; out = {}
    for l in o.split('\n'):
        m = re.match(r'\+\+\+ b/(.*)', l)
        if m: f = m.group(1)
        m = re.match(r'@@ -\S+ \+(\d+)(?:,(\d+))? @@', l)
        if m:
            a = int(m.group(1)); n = int(m.group(2)) if m.group(2) is not None else 1
            out.setdefault(f, []).append((a, a + max(n, 1) - 1))
    return out
def child(i, edits, full):
    r, w = f'{BASE}/r{i}', f'{BASE}/w{i}'
    os.environ['ZKP_WORK'] = w; os.environ['ZKP_REPO'] = r; os.environ['CARGO_BUILD_JOBS'] = '2'
    sys.path.insert(0, V + '/sa'); sys.setrecursionlimit(200000)
    subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'])
    for f, a, b in edits:
        if f == 'patch': subprocess.check_call(['git', '-C', r, 'apply', a]); continue
        p = r + '/' + f; s = open(p).read()
        if isinstance(a, int):
            s = s.split('\n'); s[a] = b; s = '\n'.join(s)
        else:
            if s.count(a) < 1: return 'apply', [('', f, 'ERR', repr(a[:80]))]
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
    import run, facts, summ, props, checks, interp, policy, roots, rules
    from ser import de, firstdiff
    from terms import UNDEF, show
    d, rc, log = run.get_facts()
    if rc != 0:
        err = [l for l in open(w + '/extract.log').read().split('\n')]
        k = next((j for j, l in enumerate(err) if l.startswith('error')), 0)
        return 'compile', [('', '', 'ERR', ' | '.join(err[k:k + 6])[:500])]
    F = facts.load(d); ref = run.load_ref(); interp.learn(ref)
    ch = changed(r); known = set(ref['known'])
    g = roots.graph(F)
    hit = set(); loose = False
    for f, rs in ch.items():
        for a, b_ in rs:
            hs = [n for n, b in F.bodies.items() if b.file == f and b.line and b.line <= b_ and a <= b.eline]
            txt = open(r + '/' + f).read().split('\n')[a - 1:b_] if os.path.exists(r + '/' + f) else []
            if not hs and any(l.strip() and not l.strip().startswith('//') for l in txt): loose = True
            hit |= set(hs)
    jobs = []
    for p, e in sorted(ref['fns'].items()):
        sc = props.scope((e['file'], p))
        if not sc: continue
        for inst in e['inst']:
            if inst not in F.bodies or e['inst'][inst] is None: continue
            if not (full or loose):
                op = policy.modular(F, inst, known=known, **policy.options(F.bodies[inst]))
                seen = {inst}; st = [inst]
                while st:
                    n = st.pop()
                    for c in g.get(n, ()):
                        if c not in seen and not op(c, F.bodies[c].path): seen.add(c); st.append(c)
                if not (seen & hit): continue
            jobs.append((inst, sc[0], 120))
    summ._ctx['F'] = F; summ._ctx['known'] = known
    out = []
    for j in jobs:
        name, dt, err, res, s = summ.one(j)
        b = F.bodies[name]; want = ref['fns'][b.path]['inst'][name]; ps = ','.join(props.scope((ref['fns'][b.path]['file'], b.path))[1])
        if err: out.append((ps, b.path + '#', 'ERR', err[:200])); continue
        for k in sorted(set(want) | set(res)):
            if want.get(k) == res.get(k): continue
            a = de(want[k]) if k in want else UNDEF; c = de(res[k]) if k in res else UNDEF
            if a is c: continue
            log = []; t = time.time()
            try: same = interp.judge(a, c, 0, log)
            except Exception as x: same = False; log = [repr(x)[:200]]
            pth, x, y = firstdiff(a, c)
            out.append((ps, f'{b.path}#{k}', 'same' if same else 'DIFF', f'{log[:10]} {time.time()-t:.0f}s\n         reviewed {show(x, 5)[:300]}\n         now      {show(y, 5)[:300]}'))
    for p, e in ref['fns'].items():
        if e['pub'] and props.scope((e['file'], p)) and p not in F.bypath: out.append((','.join(props.scope((e['file'], p))[1]), p + '#missing', 'DIFF', ''))
    for q in ('P09', 'P25', 'P26', 'P28', 'P27', 'P24'):
        if hasattr(rules, q):
            for v in getattr(rules, q)(F, 'quick')[0]: out.append((q, v[0], 'rule', v[2][:300]))
    return ('alarm' if any(x[2] != 'same' for x in out) else 'quiet'), out
def run(tasks, n=7, full=False, limit=600):
    import pickle, select
    for i in range(n): prep(i)
    todo = list(tasks); busy = {}; free = list(range(n))
    while todo or busy:
        while todo and free:
            i = free.pop(); t = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r); os.setpgid(0, 0)
                import signal; signal.alarm(limit)
                try: x = child(i, t[1], full)
                except BaseException as e:
                    import traceback; x = ('ERR', [('', '', 'ERR', traceback.format_exc()[-600:])])
                with os.fdopen(w, 'wb') as fh: pickle.dump(x, fh)
                os._exit(0)
            os.close(w); busy[r] = (i, pid, t, b'')
        rd, _, _ = select.select(list(busy), [], [], 5)
        for r in rd:
            x = os.read(r, 1 << 16); i, pid, t, buf = busy[r]
            if x: busy[r] = (i, pid, t, buf + x); continue
            os.close(r); os.waitpid(pid, 0); del busy[r]; free.append(i)
            try: st, fs = pickle.loads(buf)
            except Exception: st, fs = 'ERR', [('', '', 'ERR', 'killed / time limit')]
            yield t, st, fs
if __name__ == '__main__':
    import importlib.util
    spec = importlib.util.spec_from_file_location('e', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    ts = [t for t in m.EDITS if not only or any(o in t[0] for o in only)]
    c = {}
    for t, st, fs in run(ts, full=bool(os.environ.get('FULL'))):
        c[st] = c.get(st, 0) + 1
        print(st.upper(), t[0], 'recognised' if st == 'quiet' and fs else '')
        for ps, k, v, txt in fs:
            if v != 'same' or os.environ.get('RI'): print('    ', ps, k[-90:], v, txt[:int(os.environ.get('MSG', '700'))])
        sys.stdout.flush()
    print(c)
