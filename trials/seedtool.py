"""Dev tool: validate planted bugs in a scratch copy and store them under seeded/.
usage: seedtool.py SEEDS.py [ID...]    (scratch copy /tmp/sw, made with cp -a of /repo)"""
import sys, os, subprocess, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'
DEMO = r'''#!/bin/bash
# builds and runs demo.rs against the crates of the tree in the current directory
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. <(sed -n '/^export/p' /opt/vp/env.sh) 2>/dev/null
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"; cp "$here/demo.rs" "$tmp/src/main.rs"
cat >"$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
zkp-stark = { path = "$repo/crypto/stark" }
zkp-hash = { path = "$repo/crypto/hash" }
zkp-merkle-tree = { path = "$repo/crypto/merkle-tree" }
zkp-elliptic-curve = { path = "$repo/algebra/elliptic-curve" }
zkp-elliptic-curve-crypto = { path = "$repo/crypto/elliptic-curve-crypto" }
zkp-primefield = { path = "$repo/algebra/primefield" }
zkp-u256 = { path = "$repo/algebra/u256" }
zkp-mmap-vec = { path = "$repo/utils/mmap-vec" }
zkp-logging-allocator = { path = "$repo/utils/logging-allocator" }
zkp-macros-decl = { path = "$repo/utils/macros-decl" }
[profile.dev]
opt-level = 1
debug = 0
EOF
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$tmp/Cargo.lock"
cd "$tmp" && CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}" timeout 280 cargo run -q --offline 2>&1 | tail -15
exit ${PIPESTATUS[0]}
'''
def sh(cmd, cwd=SW, t=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=e)
    return p.returncode, p.stdout
ENVS = "sed -e 's#/repo#/tmp/sw#g' /opt/vp/env.sh > /tmp/swenv.sh; . /tmp/swenv.sh"
def tests():
    rc, o = sh(ENVS + '; cargo test --workspace --all-targets --no-run --offline >/tmp/sw.build 2>&1')
    if rc: return 'build', o + open('/tmp/sw.build').read()[-1500:]
    rc, o = sh(ENVS + '; cargo test --workspace --lib --bins --tests --examples --no-fail-fast --offline -- --test-threads 8 > /tmp/sw.log 2>&1; cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8 >> /tmp/sw.log 2>&1; python3 /opt/vp/results.py /tmp/sw.json cargo:/tmp/sw.log')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = json.load(open('/tmp/sw.json'))
    miss = sorted(base - set(r['passed'] if isinstance(r['passed'], list) else r.get('tests', [])))
    return ('ok', '') if not miss else ('tests', '\n'.join(miss[:8]))
def main(f, ids):
    spec = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    if not os.path.isdir(SW): subprocess.check_call(['cp', '-a', '/repo', SW])
    sh('git -C /repo diff --quiet || echo dirty')
    for s in m.SEEDS:
        if ids and s['id'] not in ids: continue
        if not ids and os.path.exists(f'{V}/seeded/{s["id"]}/patch.diff'): print(s['id'], 'kept already'); continue
        head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
        sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq')
        bad = None
        for fn, a, b in s['edits']:
            p = f'{SW}/{fn}'; t = open(p).read()
            if t.count(a) != 1: bad = f'{fn}: {t.count(a)} matches of {a[:50]!r}'; break
            open(p, 'w').write(t.replace(a, b))
        if bad: print(s['id'], 'EDIT', bad, flush=True); continue
        diff = subprocess.check_output(['git', '-C', SW, 'diff'], text=True)
        out = f'/tmp/seedtmp/{s["id"]}'; os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.rs', 'w').write(s['demo']); open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(out + '/meta.json', 'w'), indent=1)
        E = {'DEMO_TARGET': '/tmp/demotarget'}
        rc, o = sh(out + '/demo.sh', env=E)
        if rc == 0: print(s['id'], 'DEMO passes with the bug', flush=True); continue
        if 'error' in o and 'could not compile' in o: print(s['id'], 'DEMO does not compile', o[-1500:], flush=True); continue
        st, o2 = tests()
        if st != 'ok': print(s['id'], 'BUG', st, o2, flush=True); continue
        sh('git checkout -q -f .')
        rc2, o3 = sh(out + '/demo.sh', env=E)
        if rc2 != 0: print(s['id'], 'DEMO fails unpatched', o3[-1500:], flush=True); continue
        dst = f'{V}/seeded/{s["id"]}'
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        print(s['id'], 'KEPT:', o.strip().splitlines()[-1][:120] if o.strip() else rc, flush=True)
main(sys.argv[1], sys.argv[2:])
