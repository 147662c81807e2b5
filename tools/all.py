"""Run every quick check and compare what it covered with tools/baseline.json: python3 tools/all.py [--update] [ids]"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
R = os.path.join(HERE, '..')
B = os.path.join(HERE, 'baseline.json')
base = json.load(open(B)) if os.path.exists(B) else {}
up = '--update' in sys.argv
ids = [x for x in sys.argv[1:] if not x.startswith('-')] or [c['property'] for c in json.load(open(R + '/MANIFEST.json'))['checks']]
for i in ids:
    t = time.time()
    p = subprocess.run([R + '/run.sh', i, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    c = json.load(open(R + '/evidence/%s.json' % i))['coverage']
    now = {k: c[k] for k in ('obligations', 'undecided', 'paths_left_fragment_run_concretely', 'counterexamples_not_reproduced', 'tasks', 'tasks_explored_completely', 'executor_divergences')}
    now['left'] = {h: n for h, n in c['left_fragment'].items()}
    o = base.get(i)
    msg = []
    if p.returncode:
        msg.append('EXIT %d: %s' % (p.returncode, p.stdout[:300]))
    if o:
        if now['obligations'] < 0.97 * o['obligations']:
            msg.append('obligations %d -> %d' % (o['obligations'], now['obligations']))
        for k in ('undecided', 'paths_left_fragment_run_concretely', 'counterexamples_not_reproduced', 'executor_divergences'):
            if now[k] > o[k] + 2:
                msg.append('%s %d -> %d' % (k, o[k], now[k]))
    if now['tasks_explored_completely'] < now['tasks']:
        msg.append('%d of %d tasks incomplete' % (now['tasks'] - now['tasks_explored_completely'], now['tasks']))
    print(i, '%.0fs' % (time.time() - t), {k: v for k, v in now.items() if v}, *(['  <<<'] + msg if msg else []), flush=True)
    if up or not o:
        base[i] = now
        json.dump(base, open(B, 'w'), indent=1, sort_keys=True)
