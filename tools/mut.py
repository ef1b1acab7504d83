#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE <<< 'OLD\n=>\nNEW\n====\n...'  : applies each edit to a scratch copy and runs the checks there"""
import sys, os, subprocess, shutil
W = '/tmp/mutrepo%d' % os.getpid()
subprocess.check_call('mkdir -p %s && %s | tar x -C %s' % (W, 'tar c -C %s .' % os.environ['MUT_BASE'] if os.environ.get('MUT_BASE') else 'git -C /repo archive HEAD', W), shell=True)
checks, fn = sys.argv[1].split(','), sys.argv[2]
env = dict(os.environ, PION_REPO=W, PION_EVID='/tmp/mut_evid')
for blk in sys.stdin.read().split('\n====\n'):
    if not blk.strip('\n'): continue
    a, _, b = (blk.strip('\n') + '\n').partition('\n=>\n')
    b = b.rstrip('\n')
    g = fn
    if a.startswith('@'): g, a = a[1:].split('\n', 1)
    p = os.path.join(W, g); s = open(p).read()
    if a not in s: print('NOT FOUND:', a[:80]); continue
    open(p, 'w').write(s.replace(a, b, 1))
    for c in checks:
        r = subprocess.run(['python3', 'check.py', c], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        L = [l.strip()[:200] for l in r.stdout.splitlines() if l.startswith('  ') or l.startswith('ERROR')]
        print(c, r.returncode, '|', b.strip().replace('\n', ' ')[:70], '|', (L or [''])[0] if r.returncode else '', flush=True)
    open(p, 'w').write(s)
shutil.rmtree(W)
