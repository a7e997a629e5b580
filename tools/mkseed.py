#!/usr/bin/env python3
"""mkseed.py ID PROP FILE NEEDS WHAT < 'old\n===\nnew\n===\ndemo.c body'"""
import difflib
import json
import os
import shutil
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, path, needs, what = sys.argv[1:6]
parts = sys.stdin.read().split('\n=====\n')
old, new, demo = parts[0].strip('\n'), parts[1].strip('\n'), parts[2]
src = open('/repo/' + path).read()
assert src.count(old) == 1, 'old text found %d times' % src.count(old)
dst = src.replace(old, new)
diff = ''.join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True),
                                    'a/' + path, 'b/' + path))
d = os.path.join(V, 'seeded', i)
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.c', 'w').write(demo)
shutil.copy(os.path.join(V, 'tools/demo.sh.tpl'), d + '/demo.sh')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what},
          open(d + '/meta.json', 'w'), indent=1)
