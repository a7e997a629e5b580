#!/usr/bin/env python3
"""Tries planted bugs in scratch copies: seed.py [--notest] [--nocheck] ID...
For each: demo passes before, patch applies, builds, stable tests pass, demo
fails after, and whether the property's check reports it."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(rc, cmd, timeout=1500):
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c',
                        'mount --bind %s /repo && cd /repo && %s' % (rc, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def one(i, notest, nocheck):
    d = os.path.join(V, 'seeded', i)
    rc, vc = '/tmp/seed.%s.repo' % i, '/tmp/seed.%s.verif' % i
    for x in (rc, vc):
        shutil.rmtree(x, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', rc], check=True)
    res = {'id': i}
    try:
        r, o = ns(rc, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
        res['demo_before'] = r
        if r:
            print(o[-800:])
        r, o = ns(rc, 'git apply %s/patch.diff && bash /opt/vp/build.sh' % d)
        res['build'] = r
        if r:
            print(o[-1500:])
            return res
        r, o = ns(rc, 'bash %s/demo.sh' % d)
        res['demo_after'] = r
        res['demo_out'] = o[-150:].strip()
        if not notest:
            r, o = ns(rc, 'flock /tmp/seed.lock bash /opt/vp/test.sh /repo/.vpout.json >/dev/null 2>&1')
            b = json.load(open('/opt/vp/BASELINE.json'))
            try:
                t = json.load(open(rc + '/.vpout.json'))
                res['tests_lost'] = sorted(set(b['stable']) - set(t['passed']))[:5]
            except OSError:
                res['tests_lost'] = ['no result']
        if not nocheck:
            prop = json.load(open(d + '/meta.json'))['property']
            shutil.copytree(V, vc, ignore=shutil.ignore_patterns(
                'seeded', '.git', 'evidence', 'replays'))
            r, o = ns(rc, 'cd %s && python3 vp/check.py %s' % (vc, prop))
            res['check'] = r
            res['check_out'] = [l for l in o.splitlines()
                                if l.startswith('VIOLATION')][:2] or o[-400:]
    finally:
        shutil.rmtree(rc, ignore_errors=True)
        shutil.rmtree(vc, ignore_errors=True)
    ok = (res.get('demo_before') == 0 and res.get('demo_after', 0) != 0
          and not res.get('tests_lost'))
    res['counts'] = ok
    res['caught'] = res.get('check') == 1
    if 'check' in res:
        cf = os.path.join(V, 'tools', 'catches.json')
        c = json.load(open(cf)) if os.path.exists(cf) else {}
        v = res['check_out']
        c[i] = (', '.join(os.path.basename(l.split('replay=')[1].split()[0])
                          + (' (no input)' if 'no-failing' in l else '')
                          for l in v) if res['caught'] else 'missed')
        with open(cf, 'w') as f:
            json.dump(c, f, indent=1, sort_keys=True)
            f.write('\n')
    return res


args = sys.argv[1:]
nt, nc = '--notest' in args, '--nocheck' in args
ids = [a for a in args if not a.startswith('-')]
for i in ids or sorted(os.listdir(os.path.join(V, 'seeded'))):
    print(json.dumps(one(i, nt, nc)), flush=True)
