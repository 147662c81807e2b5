"""Decide one property of ellipy by solver-based symbolic execution of /repo's current source.

  check.py C04 [--tier quick|thorough] [--jobs N] [--only HARNESS] [-v]
  check.py --replay FILE        run one counterexample on the real code: exit 1 when it still fails
"""
import argparse
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_k, '1')
sys.setrecursionlimit(20000)


def load_prop(pid):
    return importlib.import_module('ellsym.props.' + pid)


def replay(path):
    from ellsym import harness
    with open(path) as f:
        v = json.load(f)
    load_prop(v['property'])
    h = harness.REGISTRY[v['property']][v['harness']]
    params = v['params']
    out = harness.run_concrete(h, params, v['values'], v['choices'])
    if out['status'] == 'fail':
        print('FAILS on the real code: %s' % '; '.join(out['failed'][:4]))
        if out.get('error'):
            print(out['error'])
        return 1
    print('does not fail (%s)' % out['status'])
    return 0


def run_task(h, params, opts, budget, seed, path):
    from ellsym import harness

    def emit(res):
        tmp = path + '.tmp'
        with open(tmp, 'wb') as f:
            pickle.dump(res, f)
        os.rename(tmp, path)
    run = harness.TaskRun(h, params, opts, budget, seed, emit)
    last = [0.0]
    base = run.emit

    def throttled(res, force=False):
        if res.violations or time.time() - last[0] > 1.0:
            last[0] = time.time()
            base(res)
    run.emit = throttled
    res = run.run()
    base(res)


def confirm(v, pid, n):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, sort_keys=True)
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'check.py'), '--replay', path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode == 1, path, p.stdout.decode('utf8', 'replace')


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep-going', action='store_true', help='do not stop at the first violation')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        from ellsym import z3load, world
        s = z3load.z3.Solver()
        x = z3load.z3.Real('x')
        s.add(x * x == 2, x < 0)
        assert str(s.check()) == 'sat'
        world.Code(False).Ellipsoid
        world.Code(True).Ellipsoid
        print('ready')
        return 0
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or '1')
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.prop
    from ellsym import harness, world
    mod = load_prop(pid)
    # the code must at least import, in both worlds
    code = world.Code(True)
    for m in getattr(mod, 'MODULES', ()):
        getattr(world.Code(False), m)
        getattr(code, m)
    hs = harness.REGISTRY[pid]
    tasks = []
    for h in hs.values():
        if a.only and a.only not in h.name:
            continue
        for p in h.tasks(tier):
            tasks.append((h, p))
    # most expensive first
    tasks.sort(key=lambda t: -t[0].weight)
    opts = {'timeout': 3.0 if tier == 'quick' else 20.0, 'branch_timeout': 1.5 if tier == 'quick' else 6.0,
            'slice_timeout': 1.0 if tier == 'quick' else 5.0, 'npoints': 24, 'slices': 3 if tier == 'quick' else 6,
            'max_paths': 3000 if tier == 'quick' else 40000}
    opts.update(getattr(mod, 'OPTS', {}))
    task_budget = getattr(mod, 'BUDGET', {}).get(tier, 25.0 if tier == 'quick' else 400.0)
    wall = getattr(mod, 'WALL', {}).get(tier, 110.0 if tier == 'quick' else 3000.0)
    tmp = tempfile.mkdtemp(prefix='ellsym-')
    running = {}
    results = [None] * len(tasks)
    killed = 0
    crashed = 0
    unstarted = 0
    nxt = 0
    stop = False
    try:
        while nxt < len(tasks) or running:
            left = wall - (time.time() - t0)
            while nxt < len(tasks) and len(running) < a.jobs and not stop and left > 2:
                h, p = tasks[nxt]
                path = os.path.join(tmp, 'r%d' % nxt)
                b = min(task_budget * max(1.0, h.weight), left)
                sys.stdout.flush()
                pid_ = os.fork()
                if pid_ == 0:
                    try:
                        if not a.v:
                            dn = os.open(os.devnull, os.O_WRONLY)
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        run_task(h, p, opts, b, seed, path)
                        os._exit(0)
                    except BaseException:
                        import traceback
                        with open(path + '.err', 'w') as f:
                            traceback.print_exc(file=f)
                        traceback.print_exc()
                        os._exit(3)
                running[pid_] = (nxt, time.time() + b + 12.0, path)
                nxt += 1
            if (stop or left <= 2) and nxt < len(tasks):
                unstarted += len(tasks) - nxt
                nxt = len(tasks)
            done = []
            for q in list(running):
                try:
                    r, st = os.waitpid(q, os.WNOHANG)
                except ChildProcessError:
                    r, st = q, 0
                if r:
                    done.append(q)
                elif time.time() > running[q][1]:
                    try:
                        os.kill(q, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(q, 0)
                    killed += 1
                    done.append(q)
            for q in done:
                i, _, path = running.pop(q)
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        results[i] = pickle.load(f)
                    if results[i].violations and not a.keep_going:
                        stop = True
                if results[i] is None:
                    crashed += 1
                if a.v and os.path.exists(path + '.err'):
                    print(open(path + '.err').read())
            if stop:
                for q in list(running):
                    i, _, path = running.pop(q)
                    try:
                        os.kill(q, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(q, 0)
                    if os.path.exists(path):
                        with open(path, 'rb') as f:
                            results[i] = pickle.load(f)
            if not done:
                time.sleep(0.03)
    finally:
        for q in running:
            try:
                os.kill(q, signal.SIGKILL)
                os.waitpid(q, 0)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    # ---------------------------------------------------------------- summary
    tot = harness.TaskResult().d
    fns, notes, samples, need, und = set(), set(), [], {}, {}
    viol = []
    per = {}
    complete = 0
    dnotes = []
    for (h, p), r in zip(tasks, results):
        if r is None:
            continue
        for k, v in r.d.items():
            tot[k] += v
        complete += bool(r.complete)
        fns |= r.functions
        notes |= r.notes
        if r.samples and len(samples) < 4 and not any(s['harness'] == h.name for s in samples):
            samples.extend(r.samples[:1])
        for k, v in r.need.items():
            need[k] = need.get(k, 0) + v
        for k, v in r.undecided_labels.items():
            key = '%s %s: %s' % (h.name, p, k)
            und[key] = v
        dnotes.extend('%s %s: %s' % (h.name, p, x) for x in r.diverge_notes[:2])
        viol.extend(r.violations)
        e = per.setdefault(h.name, {'tasks': 0, 'paths': 0, 'obligations': 0, 'undecided': 0, 'reached': 0})
        e['tasks'] += 1
        for k in ('paths', 'obligations', 'undecided', 'reached'):
            e[k] += r.d[k]
    findings = [f for f in known_findings() if f.get('property') == pid and f.get('status') == 'known']
    exit_code = 0
    nviol = 0
    if a.keep_going:
        agg = {}
        for v in viol:
            agg.setdefault((v['harness'], (v['failed'] or [v['label']])[0][:90]), []).append(v)
        for (hn, f), vs in agg.items():
            print('also %d: %s: %s; e.g. %s %s %s' % (len(vs), hn, f, json.dumps(vs[0]['params']),
                                                    json.dumps(vs[0]['values'])[:200], vs[0]['error']))
    for i, v in enumerate(viol[:3]):
        ok, path, text = confirm(v, pid, i)
        if not ok:
            tot['unreplayed'] += 1
            dnotes.append('not reproduced in a fresh process: %s' % v['label'])
            continue
        nviol += 1
        exit_code = 1
        print('%s %s: %s' % (v['harness'], json.dumps(v['params'], sort_keys=True), v['label']))
        print('  inputs %s choices %s' % (json.dumps(v['values'], sort_keys=True), json.dumps(v['choices'],
                                                                                              sort_keys=True)))
        print('  ' + text.strip().replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, HERE)))
    for f in findings:
        h = hs.get(f.get('harness'))
        if h is None:
            continue
        out = harness.run_concrete(h, f['params'], f['values'], f['choices'])
        if out['status'] == 'fail':
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'] + tot['paths_infeasible'] + tot['paths_concretised'],
            'transitions': tot['decisions'],
            'traces_validated_against_impl': tot['traces_validated'],
            'samples': samples,
            'obligations': tot['obligations'],
            'discharged': tot['by_normal_form'] + tot['by_solver'],
            'discharged_by_normal_form': tot['by_normal_form'],
            'discharged_by_solver': tot['by_solver'],
            'decided_on_slices_only': tot['by_slice'],
            'undecided': tot['undecided'],
            'solver_queries': tot['queries'], 'unsat': tot['unsat'], 'sat': tot['sat'], 'unknown': tot['unknown'],
            'solver_seconds': round(tot['solver_time'], 2),
            'paths_complete': tot['paths'], 'paths_infeasible': tot['paths_infeasible'],
            'paths_left_fragment_run_concretely': tot['paths_concretised'],
            'paths_unexplored': tot['paths_unexplored'],
            'paths_with_witness': tot['reached'],
            'executor_divergences': tot['divergences'], 'counterexamples_not_reproduced': tot['unreplayed'],
            'tasks': len(tasks), 'tasks_explored_completely': complete, 'tasks_not_started': unstarted,
            'tasks_killed': killed, 'tasks_crashed': crashed,
            'harnesses': per,
            'functions_encoded': sorted(fns),
            'left_fragment': need,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'exhaustive': False,
            'undecided_detail': {k: {'undecided': v[0], 'slices': v[1]} for k, v in list(und.items())[:40]},
            'notes': dnotes[:20],
        },
        'assumptions': sorted(notes) + list(getattr(mod, 'ASSUMPTIONS', ())) + [
            'floating point arithmetic is modelled by exact real arithmetic; equalities are claimed up to the stated '
            'tolerance',
            'numpy/scipy/math calls follow the documented mathematical meaning, validated per path against the real '
            'libraries'],
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmpf = os.path.join(HERE, 'evidence', pid + '.json.tmp')
        with open(tmpf, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.rename(tmpf, os.path.join(HERE, 'evidence', pid + '.json'))
    c = ev['coverage']
    print('%s %s: %d tasks (%d complete), %d paths, %d obligations: %d by normal form, %d by solver, %d on slices, '
          '%d undecided; %d queries %.1fs; %d traces validated, %d divergences, %d left the fragment, '
          '%d unreplayed, %d crashed; wall %.1fs' % (
              pid, tier, len(tasks), complete, c['states'], c['obligations'], tot['by_normal_form'],
              tot['by_solver'], tot['by_slice'], tot['undecided'], tot['queries'], tot['solver_time'],
              tot['traces_validated'], tot['divergences'], tot['paths_concretised'], tot['unreplayed'], crashed,
              ev['wall_s']))
    if a.v:
        for (h, p), r in zip(tasks, results):
            if r is None:
                print('  ', h.name, p, 'NO RESULT')
                continue
            print('  ', h.name, p, 'complete' if r.complete else 'PARTIAL',
                  {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r.d.items() if v})
            if r.need:
                print('       need:', r.need)
            if r.diverge_notes:
                print('       notes:', r.diverge_notes[:6])
            if r.undecided_labels:
                print('       und:', r.undecided_labels)
    return exit_code


if __name__ == '__main__':
    sys.exit(main())
