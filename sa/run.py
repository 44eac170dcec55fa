"""Decide one property of the current tree: bin/check PROPERTY quick|thorough."""
import sys, os, json, time, hashlib, subprocess, fcntl, gzip, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
REPO = os.environ.get('ZKP_REPO', '/repo')
WORK = os.environ.get('ZKP_WORK', V + '/.work')

def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, V + '/driver', V + '/witness'):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.rs', '.toml', '.sol', '.json', '.txt', '.md', '.lock')) or f == 'rust-toolchain':
                    if f == 'Cargo.lock' and base == REPO: continue
                    h.update(os.path.relpath(p, base).encode() + b'\0')
                    try: h.update(open(p, 'rb').read())
                    except OSError: pass
    return h.hexdigest()[:24]

def get_facts():
    """facts of the current tree (kept per source hash); -> (dir, status)"""
    os.makedirs(WORK, exist_ok=True)
    with open(WORK + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        k = tree_hash()
        d = WORK + '/facts/' + k
        if os.path.exists(d + '/status'): return d, int(open(d + '/status').read()), ''
        if os.path.isdir(WORK + '/facts'):
            old = sorted((os.path.getmtime(WORK + '/facts/' + x), x) for x in os.listdir(WORK + '/facts'))
            for _, x in old[:-3]: subprocess.run(['rm', '-rf', WORK + '/facts/' + x])
        p = subprocess.run([V + '/bin/extract.sh', d, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode in (0, 4): open(d + '/status', 'w').write(str(p.returncode))
        return d, p.returncode, p.stdout

def load_ref():
    p = V + '/spec/reference.json.gz'
    return json.load(gzip.open(p, 'rt')) if os.path.exists(p) else dict(known=[], fns={})

def known_findings():
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m: out.append(m.groups())
    return out

def main(prop, tier):
    t0 = time.time()
    print(f'[{prop}] {tier}: reading the current tree of {REPO}')
    d, rc, log = get_facts()
    viol = []; cov = {}; notes = []
    if rc == 2:
        viol.append(('build', 'the workspace', 'the workspace does not compile, no property of it can be established: ' + log.strip()[-400:]))
    elif rc == 3:
        # one retry from scratch: a damaged cache must not decide anything
        subprocess.run(['rm', '-rf', WORK + '/target'])
        d, rc, log = get_facts()
    if rc in (0, 4):
        import checks
        viol, cov, notes = checks.decide(prop, tier, d, load_ref(), rc == 4)
    elif rc == 3:
        print(log[-2000:]); print('tool chain failure'); sys.exit(3)
    kf = known_findings(); shown = []
    rest = []
    for key, where, msg in viol:
        f = [k for k in kf if k[0] == prop and k[1] == key]
        if f: shown.append((key, f[0][2]))
        else: rest.append((key, where, msg))
    for key, msg in shown: print(f'KNOWN-FINDING: property={prop} {key} {msg}')
    for n in notes[:30]: print('note:', n)
    os.makedirs(V + '/evidence', exist_ok=True)
    rp = f'{V}/evidence/{prop}.violations.txt'
    for key, where, msg in rest: print(f'  {where}\n    rule/key {key}\n    {msg}')
    if os.path.exists(rp): os.remove(rp)
    if rest:
        with open(rp, 'w') as f:
            for key, where, msg in rest: f.write(f'{where}\n  {key}\n  {msg}\n')
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov or {'explanation': 'nothing analysed: ' + (rest[0][2] if rest else '')},
              wall_s=round(time.time() - t0, 2), violations=len(rest), assumptions=ASSUME)
    if 'explanation' not in ev['coverage']: ev['coverage']['explanation'] = ''
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'[{prop}] {len(rest)} violation(s), {len(shown)} known finding(s), {time.time() - t0:.1f}s; ' + ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int)))
    if rest:
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    sys.exit(0)

ASSUME = ['rustc (nightly 1.101) MIR of the library targets, default features, is the program; the asm and parity_codec features and dead modules are not built',
          'models of the standard library, rayon and tiny-keccak used by the analysis (sa/models.py, sa/algebra.py) are right',
          'machine-word index arithmetic does not wrap (overflow checks are on in the analysed profile)']

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try: main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); sys.exit(3)
