"""Confirm planted bugs and write them to seeded/: python3 tools/mkseed.py SPEC.py [id ...]
SPEC.py defines SEEDS: list of dict(id, property, file, edits=[(old, new)], demo, needs, what_it_breaks[, tests])"""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from blame import blame, removed
PY = '/opt/pypyenv/bin/python'
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
HEAD = '''import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), 'products'))
import numpy as np
'''
SH = '''#!/bin/sh
exec /opt/pypyenv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, t=900):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', OPENBLAS_NUM_THREADS='1')
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    return p.returncode, p.stdout


def one(s):
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        w = os.path.join(d, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        edits = s['edits'] if len(s['edits'][0]) == 3 else [(s['file'],) + tuple(e) for e in s['edits']]
        for f, old, new in edits:
            p = os.path.join(w, 'products/ellipy', f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'pattern occurs %d times: %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        _, patch = run(['git', 'diff'], w)
        dst = os.path.join(d, 'out')
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(patch)
        open(dst + '/demo.py', 'w').write(HEAD + s['demo'].strip('\n') + '\n')
        open(dst + '/demo.sh', 'w').write(SH)
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what_it_breaks']),
                  open(dst + '/meta.json', 'w'), indent=1)
        r0, o0 = run([dst + '/demo.sh'], '/repo')
        if r0:
            return s['id'], 'demo fails on the unchanged tree: ' + o0[-400:]
        r1, o1 = run([dst + '/demo.sh'], w)
        if not r1:
            return s['id'], 'demo passes with the patch'
        rem = removed(dst + '/patch.diff')
        if rem and not all(blame(f)[n - 1] for f, n in rem):
            return s['id'], 'CHANGES OUR OWN LINES'
        if os.environ.get('NOTEST'):
            return s['id'], 'fine ' + o1.strip().split('\n')[-1][:100]
        r, o = run(['sh', '-c', 'cd %s/products && %s -m pytest -q -x -p no:cacheprovider ellipy 2>&1 | tail -5' % (w, PY)], w)
        if 'failed' in o or 'passed' not in o:
            return s['id'], 'TESTS ' + ' '.join(x[-80:] for x in o.split('\n') if 'FAILED' in x)
        out = os.path.join(ROOT, s['id'])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(dst, out)
        return s['id'], 'ok (%s) %s' % (o.strip().split('\n')[-1].strip('= '), o1.strip().split('\n')[-1][:100])
    finally:
        shutil.rmtree(d)


S = runpy.run_path(sys.argv[1])['SEEDS']
if sys.argv[2:]:
    S = [s for s in S if s['id'] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get('WORKERS', '6'))) as ex:
    for r in ex.map(one, S):
        print(*r, flush=True)
