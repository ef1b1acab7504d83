#!/usr/bin/env python3
"""refac.py FILE [only]: behaviour-preserving edits; every check whose property lists a touched file must stay quiet.
FILE: blocks '%% NAME' followed by hunks '@path' / old / '=>' / new / '&&'"""
import sys, os, subprocess, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
CH = [c['id'] if 'id' in c else c['property'] for c in [dict(id=p['id']) for p in P]]
sys.path.insert(0, '/verif')
from pv.rules import REGISTRY
txt = open(sys.argv[1]).read(); only = sys.argv[2:]
def work(job):
    name, body = job
    W = '/tmp/refac_%s_%d' % (re.sub(r'\W', '_', name), os.getpid())
    subprocess.check_call('mkdir -p %s && %s | tar x -C %s' % (W, 'tar c -C %s .' % os.environ['MUT_BASE'] if os.environ.get('MUT_BASE') else 'git -C /repo archive HEAD', W), shell=True)
    out = []; files = set(); fn = None
    try:
        for h in body.split('\n&&\n'):
            h = h.strip('\n')
            if h.startswith('@'): fn, h = h[1:].split('\n', 1)
            a, b = h.split('\n=>\n') if '\n=>\n' in h else (h[:-3], '')
            p = os.path.join(W, fn); s = open(p).read()
            if s.count(a) < 1: return name + ' NOT FOUND: ' + a[:90]
            open(p, 'w').write(s.replace(a, b, 1)); files.add(fn)
        todo = [p['id'] for p in P if p['id'] in REGISTRY and files & set(p.get('files') or p['anchors']['files'])]
        env = dict(os.environ, PION_REPO=W, PION_EVID='/tmp/refac_evid_' + re.sub(r'\W', '_', name))
        for c in todo:
            r = subprocess.run(['timeout', '900', 'python3', 'check.py', c], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                L = [l.strip()[:330] for l in r.stdout.splitlines() if l.startswith('  ') or 'ERROR' in l or 'error' in l] or r.stdout.splitlines()[-3:]
                out.append('   %s -> %d %s' % (c, r.returncode, (L or [''])[0]))
        return '%s [%s] %s' % (name, ' '.join(todo), 'quiet' if not out else 'ALARM\n' + '\n'.join(out))
    finally:
        shutil.rmtree(W); shutil.rmtree('/tmp/refac_evid_' + re.sub(r'\W', '_', name), ignore_errors=True)
jobs = []
for blk in re.split(r'^%% ', txt, flags=re.M)[1:]:
    n, b = blk.split('\n', 1)
    if not only or n.strip() in only: jobs.append((n.strip(), b))
with ThreadPoolExecutor(5) as ex:
    for r in ex.map(work, jobs): print(r, flush=True)
