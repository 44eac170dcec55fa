"""Development tool (not used by checks): many random one-line mutations, each judged on its own (see farm.py).
usage: mutate.py SEED [FILEREGEX] [N]"""
import sys, os, re, random
V = os.environ.get('VSNAP', '/verif'); sys.path.insert(0, V + '/sa'); sys.path.insert(0, V + '/trials')
import farm, facts, props
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \* ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' << ', ' >> '), (r' >> ', ' << '), (r' \| ', ' & '), (r' & ', ' | '), (r' \^ ', ' | '),
       (r'\.iter\(\)\.', '.iter().rev().'), (r'\.iter\(\)\.', '.iter().skip(1).'), (r'(?<=[ (\[])!(?=[a-z])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'(?<![\w.#"\'])(\d+)(?![\w.:"\']|\])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.#"\'])(\d+)(?![\w.:"\']|\])', lambda m: str(max(0, int(m.group(1)) - 1))),
       (r'\((\w+), (\w+)\)', lambda m: f'({m.group(2)}, {m.group(1)})'), (r'\.\.=', '..'), (r'(?<=[\w)])\.\.(?=[\w(])', '..='), (r'^(\s*)([a-z_.]+(\.\w+\(.*\)|\s*[-+*]?=\s*[^=].*));$', lambda m: m.group(1) + ';'),
       (r'\.is_left\(', '.is_right('), (r'\.unwrap_or\(\w+\)', '.unwrap()'), (r'\.chain\((\w+)\)', ''), (r'\bone\(\)', 'zero()'), (r'\bzero\(\)', 'one()'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
       (r'\?;$', ';'), (r'\.rev\(\)', ''), (r'\.square\(\)', ''), (r'\.double\(\)', ''), (r'wrapping_add', 'wrapping_sub'), (r'wrapping_sub', 'wrapping_add'), (r'\bleft\b', 'right')]
def main():
    rnd = random.Random(sys.argv[1]); rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else ''); lim = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    F = facts.load('/tmp/facts')
    spans = {}
    for b in F.bodies.values():
        if b.crate.startswith('zkp') and b.file and rx.search(b.file) and b.dk != 'Closure' and '{closure' not in b.path and not b.mac: spans[(b.file, b.line, b.eline)] = b.path
    cand = []
    for (f, l0, l1), path in sorted(spans.items()):
        if not os.path.exists('/repo/' + f): continue
        src = open('/repo/' + f).read().split('\n')
        tst = next((i for i, l in enumerate(src) if '#[cfg(test)]' in l), len(src))
        opts = []
        for i in range(l0 - 1, min(l1, tst)):
            ln = src[i]
            if ln.strip().startswith(('//', '#', 'fn ', 'pub fn', 'debug_assert', 'assert', 'info!', 'trace!', 'use ', 'impl', 'where')) or 'debug_assert' in ln or 'info!' in ln or 'expect(' in ln or '->' in ln: continue
            code = ln.split('//')[0]
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + code[m.end():]
                    if new != code: opts.append((i, ln, new))
        if opts:
            i, old, new = rnd.choice(opts)
            cand.append((f'{f}:{i+1} {path[-50:]}\n    - {old.strip()}\n    + {new.strip()}', [(f, i, new)]))
    rnd.shuffle(cand); c = {}
    for t, st, fs in farm.run(cand[:lim]):
        s = 'UNSEEN' if st == 'quiet' and not fs else 'SUPPRESSED' if st == 'quiet' else st
        c[s] = c.get(s, 0) + 1
        if s in ('UNSEEN', 'SUPPRESSED', 'ERR') or os.environ.get('ALL'):
            print(s, t[0]); 
            for x in fs: print('      ', x[0], x[1][-60:], x[2], x[3][:200].replace('\n', ' '))
            sys.stdout.flush()
    print(c)
main()
