#!/usr/bin/env python3
"""seed.py new <spec.py>: make seeded/<id>/ from a spec; seed.py test <id> [check]: confirm it and run the check against it (scratch copy under /tmp)"""
import sys, os, subprocess, json, shutil
V = '/verif'; W = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh(d):
    subprocess.run(['rm', '-rf', d]); os.makedirs(os.path.dirname(d), exist_ok=True)
    assert sh('git clone -q /repo %s' % d).returncode == 0
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in %s; do
  g++ -std=gnu++14 -O1 -w $(echo "$f" | tr ',' ' ') -I. "$D/demo.cpp" -o "$T/d" || exit 2
  "$T/d" || { echo "broken with $f"; exit 1; }
done
exit 0
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <limits>
#include <vector>
#include <algorithm>
'''
def new(path):
    g = {}; exec(open(path).read(), g)
    for s in g['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        fresh(W + '/new')
        for f, a, b in s['edits']:
            p = os.path.join(W, 'new', f); t = open(p).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git -C %s/new diff' % W).stdout)
        open(d + '/demo.cpp', 'w').write(HEAD + ''.join('#include "%s"\n' % i for i in s['inc']) + s['demo'])
        open(d + '/demo.sh', 'w').write(s['sh'] if 'sh' in s else DEMO % ' '.join(s.get('flags', ['-msse2', '-msse4.1', '-mavx']))); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])
def test(i, checks):
    d = os.path.join(V, 'seeded', i); meta = json.load(open(d + '/meta.json'))
    w = '%s/t_%s' % (W, i)
    fresh(w)
    r0 = sh('bash %s/demo.sh' % d, cwd=w)
    a = sh('git apply %s/patch.diff' % d, cwd=w)
    r1 = sh('bash %s/demo.sh' % d, cwd=w)
    out = {'applies': a.returncode == 0, 'clean': r0.returncode, 'patched': r1.returncode}
    if checks != ['-']:
        for c in checks or [meta['property']]:
            r = sh('NOVA_REPO=%s python3-vt %s/check.py %s quick' % (w, V, c))
            out[c] = (r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' not in l][:2])
    subprocess.run(['rm', '-rf', w])
    print(i, meta['property'], json.dumps(out)[:600]); sys.stdout.flush()
    if r0.returncode: print(r0.stdout[-800:])
def tests(i):
    """build + stable tests with the patch, through /repo itself"""
    d = os.path.join(V, 'seeded', i)
    assert sh('git -C /repo status --short').stdout.strip() == ''
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        res = json.load(open('/tmp/seedtest.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        bl = base['stable']
        miss = sorted(set(bl) - set(res['passed']))
        print(i, 'build', b.returncode, 'tests lost', len(miss), miss[:4])
    finally: sh('git -C /repo checkout -- .')
if __name__ == '__main__':
    if sys.argv[1] == 'new': new(sys.argv[2])
    elif sys.argv[1] == 'tests':
        for i in sys.argv[2:]: tests(i)
    else: test(sys.argv[2], sys.argv[3:])
