"""Development tool (not used by checks): apply edits to a scratch copy of /repo and show what the analysis says.
usage: trial.py EDITS.py [NAME...]; EDITS = [(name, [(file, old, new), ...]), ...]"""
import sys, os, subprocess, json, gzip, time, importlib.util
V = '/verif'; RT = '/tmp/rt'
os.environ['ZKP_WORK'] = '/tmp/rtwork'; os.environ['ZKP_REPO'] = RT
sys.path.insert(0, V + '/sa')
import run, facts, summ, props, checks
def git(*a): return subprocess.run(['git', '-C', RT] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    spec = importlib.util.spec_from_file_location('e', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    ref = run.load_ref()
    for name, edits in m.EDITS:
        if only and not any(o in name for o in only): continue
        git('checkout', '-q', '--', '.')
        ok = True
        for f, old, new in edits:
            p = RT + '/' + f; s = open(p).read()
            if s.count(old) < 1: print(name, 'EDIT DOES NOT APPLY', f, repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new, 1))
        if not ok: continue
        pid = os.fork()
        if pid == 0:
            d, rc, log = run.get_facts()
            if rc not in (0, 4): print(name, 'EXTRACT', rc, log[-1500:]); os._exit(1)
            props_ = sorted({q for p, e in ref['fns'].items() for q in (props.scope((e['file'], p)) or (0, []))[1]} | {r for r in (dir(checks.rules) if checks.rules else []) if r.startswith('P') and r[1:].isdigit()})
            F = facts.load(d)
            tot = {}
            v, c, n = checks.decide_all(props_, 'quick', d, ref, rc == 4)
            for q, k, w, msg in v: tot.setdefault((k, w, msg), []).append(q)
            print(('QUIET ' if not tot else 'ALARM ') + name + (' (partial)' if rc == 4 else ''))
            for (k, w, msg), qs in tot.items(): print('    ', ','.join(qs), k); print('        ', msg.replace('\n', '\n    ')[:int(os.environ.get('MSG', '700'))])
            sys.stdout.flush(); os._exit(0)
        os.waitpid(pid, 0)
    git('checkout', '-q', '--', '.')
main()
