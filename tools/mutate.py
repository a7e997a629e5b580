#!/usr/bin/env python3
"""mutate.py PROP FILE [-f FUNC,FUNC...] [-l A-B] [-n N] [-j J] [-s SEED]
Mutation testing of a check: small edits of FILE (in scratch copies of /repo),
one at a time, and which of them the property's check does not report."""
import argparse
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('file')
ap.add_argument('-f')
ap.add_argument('-l')
ap.add_argument('-n', type=int, default=20)
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-s', type=int, default=1)
ap.add_argument('-k', type=int, help='only this mutant')
a = ap.parse_args()
src = open('/repo/' + a.file).read().split('\n')
ok = set()
if a.l:
    for r in a.l.split(','):
        x, y = map(int, r.split('-'))
        ok |= set(range(x - 1, y))
elif a.f:
    for f in a.f.split(','):
        for i, l in enumerate(src):
            if re.search(r'\b%s\s*\(' % re.escape(f), l) and not l.startswith(' ') \
                    and not l.rstrip().endswith(';'):
                j = i
                while j < len(src) and src[j] != '}':
                    j += 1
                ok |= set(range(i + 1, j))
                break
        else:
            print('no', f)
else:
    ok = set(range(len(src)))
R = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-=])<(?![<=])', '<='),
     (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='),
     (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '),
     (r'\+\+', '--'), (r'--', '++'), (r'\+= ', '-= '), (r'-= ', '+= '),
     (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b8\b', '7'),
     (r'<< ', '>> '), (r'>> ', '<< '), (r' & ', ' | '), (r' \| ', ' & '),
     (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(*])', ''),
     (r'\b(\d\d+)\b', lambda m: str(int(m.group(1)) + 1)),
     (r'\bMIN\(', 'MAX('), (r'\bMAX\(', 'MIN('), (r'~', '')]
muts = []
incom = False
for i, l in enumerate(src):
    c = l.strip()
    if '/*' in c and '*/' not in c:
        incom = True
    if incom:
        if '*/' in c:
            incom = False
        continue
    if i not in ok or not c or c.startswith(('/*', '*', '//', 'assert', '#inc', 'case')):
        continue
    if 'static const' in c or 'e_panic' in c or 'for (;;)' in c:
        continue
    code = re.sub(r'/\*.*?\*/', lambda m: ' ' * len(m.group()), l)
    for pat, rep in R:
        for m in re.finditer(pat, code):
            new = l[:m.start()] + re.sub(pat, rep, m.group()) if callable(rep) \
                else l[:m.start()] + rep
            new += l[m.end():]
            if not callable(rep) or True:
                muts.append((i, new))
    if c.endswith(';') and not re.match(r'(return|break|goto|continue|[\w\s\*]+\s\**\w+;|(const |struct )?\w+ \**\w+ = )', c) \
            and c.count('(') == c.count(')'):
        muts.append((i, '    /* removed */;'))
muts = sorted(set(muts))
random.Random(a.s).shuffle(muts)
print(len(muts), 'mutants of', a.file)
muts = muts[:a.n] if a.k is None else [muts[a.k]]


def one(k):
    i, new = muts[k]
    d = '/tmp/mut.%d.%d' % (os.getpid(), k)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run('mkdir -p %s && cd /repo && cp -a --parents src lib-common '
                   'wscript %s 2>/dev/null; true' % (d, d), shell=True)
    ev = d + '/verif'
    try:
        if not os.path.exists(d + '/src'):
            return k, 'nocopy'
        s2 = list(src)
        s2[i] = new
        open(d + '/' + a.file, 'w').write('\n'.join(s2))
        shutil.copytree(V, ev, ignore=shutil.ignore_patterns(
            'seeded', '.git', 'evidence', 'replays'))
        p = subprocess.run(['python3', 'vp/check.py', a.prop], cwd=ev,
                           env=dict(os.environ, VP_REPO=d), timeout=1500,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode('utf8', 'replace')
        v = [x for x in o.split('\n') if x.startswith('VIOLATION')]
        if p.returncode == 1 and v:
            return k, 'caught' + (' (no input)' if all(
                'no-failing' in x for x in v) else '')
        if p.returncode:
            return k, 'rc=%d %s' % (p.returncode, o[-200:])
        return k, 'SURVIVED'
    except subprocess.TimeoutExpired:
        return k, 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(a.j) as ex:
    n = 0
    for k, r in ex.map(one, range(len(muts))):
        n += r.startswith('caught')
        if not r.startswith('caught') or 'no input' in r:
            i, new = muts[k]
            print('#%d %s  %s:%d\n    - %s\n    + %s' % (
                k, r, a.file, i + 1, src[i].strip(), new.strip()), flush=True)
    print('caught %d of %d' % (n, len(muts)))
