#!/usr/bin/env python3
"""seed.py new ID PROPERTY SRCS   < files: /tmp/seed/ID.cpp ; /repo has the change applied -> writes seeded/ID
   seed.py test ID [--nobuild]    : build, stable tests, demo on both trees, the property's check"""
import sys, os, json, subprocess, shutil
V = '/verif'; S = V + '/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(i, prop, srcs, needs, what, extra=''):
    d = '%s/%s' % (S, i); os.makedirs(d, exist_ok=True)
    diff = sh('git -C /repo diff').stdout
    assert diff.strip(), 'no change in /repo'
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy('/tmp/seed/%s.cpp' % i, d + '/demo.cpp')
    shutil.copy(V + '/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(V + '/tools/shim.tgz', d)
    open(d + '/demo.conf', 'w').write('SRCS="%s"\n%s\n' % (srcs, extra))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    sh('git -C /repo checkout -- .')
def test(i, build=True):
    d = '%s/%s' % (S, i); prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode: return i, 'PATCH DOES NOT APPLY'
    try:
        t = '-'
        if build:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: return i, 'BUILD FAILS', b.stdout[-400:]
            sh('bash /opt/vp/test.sh /tmp/seed_o.json'); o = json.load(open('/tmp/seed_o.json'))
            t = '%d pass %d fail' % (len(o['passed']), len(o['failed']))
        b = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('python3 check.py %s' % prop, cwd=V)
        hit = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or '[' in l and ']' in l and l.startswith('  ')]
    finally: sh('git -C /repo checkout -- .')
    if a.returncode or not b.returncode: print(a.stdout[-600:], '-----', b.stdout[-600:])
    return i, prop, 'demo %d/%d' % (a.returncode, b.returncode), t, 'check %d' % c.returncode, [h[:230] for h in hit[:2]] or c.stdout[-300:]
if __name__ == '__main__':
    if sys.argv[1] == 'new': new(*sys.argv[2:])
    else:
        ids = [x for x in sys.argv[2:] if not x.startswith('--')] or sorted(os.listdir(S))
        for x in ids: print(*test(x, '--nobuild' not in sys.argv), flush=True)
