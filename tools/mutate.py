#!/usr/bin/env python3
"""Mutation sampling (development aid; no registered check uses it).
mutate.py WORKDIR SEED N PROP[,PROP..] FILE...   samples N single-line mutants of the given files of
/repo (or HPV_SRC; in a private copy), runs the quick checks and lists the survivors in WORKDIR/log."""
import os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, seed, N, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(',')
files = sys.argv[5:]
SRC = os.environ.get('HPV_SRC', '/repo')
random.seed(seed)
os.makedirs(W, exist_ok=True)
R, VV = W + '/repo', W + '/verif'
if not os.path.exists(R): subprocess.check_call(['git', 'clone', '-q', SRC, R])
subprocess.check_call('git fetch -q ' + SRC + ' HEAD && git checkout -qf FETCH_HEAD', shell=True, cwd=R)
subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', '.cache', '--exclude', 'out', '--exclude', 'seeded', V + '/', VV]) if subprocess.call('which rsync >/dev/null', shell=True) == 0 else subprocess.check_call('mkdir -p %s && cp -a %s/{engine,contracts,tools,*.py,*.json,*.jsonl} %s/' % (VV, V, VV), shell=True, executable='/bin/bash')
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+= ', ' = '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' = '), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\[2\]', '[1]'), (r'\b0\b(?!\.)', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'), (r'(?<![\w.])3(?![\w.])', '2'), (r'(?<![\w.])4(?![\w.])', '5'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'LEFT\b', 'RIGHT'), (r'RIGHT\b', 'LEFT'), (r'Left\b', 'Right'), (r'Right\b', 'Left'), (r'std::max\b', 'std::min'), (r'std::min\b', 'std::max'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\(i, j\)', '(j, i)'), (r'(\w+)\((\w+), (\w+)\)', r'\1(\3, \2)'),
       (r'= -', '= '), (r'return -', 'return '), (r'\(-', '('), (r'(\d)\.(\d)', r'\1.1\2'), (r'^(\s+)(?!return|auto|const|std::|using|throw|case|break|else|\}|\{)([\w:.\[\]>()-]+.*;)$', r'\1;'), (r'\bnode\b', 'edge'), (r'!(\w)', r'\1'), (r'if \((.*)\) \{$', r'if (true) {'), (r'if \((.*)\) \{$', r'if (false) {'), (r'\+\+(\w+)\)', r'\1 += 2)')]
cand = []
for f in files:
    p = os.path.join(R, f)
    depth = 0
    for n, l in enumerate(open(p).read().split('\n')):
        s = l.strip()
        if s.startswith(('//', '*', '/*', '#', 'logger', '"', 'template', 'using', 'namespace', 'class', 'struct', 'assert')) or not s or 'logger' in l or 'assert' in l or 'virtual' in l: continue
        for a, b in OPS:
            for m in list(re.finditer(a, l))[:4]:
                new = l[:m.start()] + m.expand(b if '\\' in b else b.replace('\\', '\\\\')) + l[m.end():]
                if new != l: cand.append((f, n, l, new))
random.shuffle(cand)
log = open(W + '/log', 'a')
done = 0
env = dict(os.environ, HPV_CXX="ccache clang++", CCACHE_DIR="/tmp/ccache", CCACHE_MAXSIZE="8G", HPV_REPO=R, HPV_CACHE=W + '/cache')
for f, n, l, new in cand:
    if done >= N: break
    p = os.path.join(R, f)
    t = open(p).read().split('\n')
    t[n] = new
    open(p, 'w').write('\n'.join(t))
    res = []
    for q in props:
        try: r = subprocess.run(['python3', VV + '/check.py', q, 'quick'], cwd=VV, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
        except subprocess.TimeoutExpired: res.append('TIMEOUT'); break
        o = r.stdout
        if r.returncode == 2 and ('error:' in o or 'build' in o.lower()): res.append('NOBUILD'); break
        res.append(q + ':' + str(r.returncode) + (' nfi' if r.returncode == 1 and 'VIOLATION' in o and all('no-failing' in x for x in o.split('\n') if x.startswith('VIOLATION')) else ''))
        if r.returncode == 1: break
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=R)
    if 'NOBUILD' not in res:
        done += 1
        killed = any(':1' in x for x in res)
        log.write('%s %s %s:%d\n   - %s\n   + %s\n' % ('killed ' if killed else 'SURVIVED', res, f, n + 1, l.strip(), new.strip()))
        log.flush()
    # keep the cache small
    subprocess.call('cd %s/cache && ls -t | tail -n +40 | xargs -r rm -rf' % W, shell=True)
