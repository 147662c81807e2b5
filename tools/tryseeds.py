"""Run the check of each planted bug against a scratch copy with the bug: python3 tools/tryseeds.py [ids]"""
import json, os, shutil, subprocess, sys, tempfile, time
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = sys.argv[1:] or sorted(os.listdir(R + '/seeded'))
for i in ids:
    s = os.path.join(R, 'seeded', i)
    d = tempfile.mkdtemp(prefix='try_')
    try:
        w = d + '/repo'
        shutil.copytree('/repo', w, symlinks=True)
        a = subprocess.run(['git', 'apply', os.path.abspath(s + '/patch.diff')], cwd=w)
        if a.returncode:
            print(i, 'DOES NOT APPLY')
            continue
        p = json.load(open(s + '/meta.json'))['property']
        t = time.time()
        r = subprocess.run([R + '/run.sh', p, '--tier', 'quick'], env=dict(os.environ, ELLSYM_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
        n = [x for x in r.stdout.split('\n') if 'replay' not in x and 'FAILS' in x]
        print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), (v or [''])[0], n[:1], flush=True)
    finally:
        shutil.rmtree(d)
