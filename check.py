#!/usr/bin/env python3
"""check.py <property>: builds the simulator from /repo's working tree, explores
seeded schedules and faults, writes evidence/<property>.json.

exit 0: held on everything explored; exit 1: VIOLATION line; 2: no answer.
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_SECONDS (override).
"""
import json, os, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as B
from props import PROPS, REAL, STUB

KNOWN = os.path.join(VERIF, 'known-findings.txt')

def main():
    prop = sys.argv[1]
    info = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    seconds = float(os.environ.get('VERIF_SECONDS', info.get('quick_s', 30) if tier == 'quick' else info.get('thorough_s', 420)))
    workers = os.cpu_count() or 8
    t0 = time.time()
    try:
        binary, build_s = B.build(prop)
    except B.BuildError as e:
        sys.stderr.write('build failed\n%s\n' % e)
        return 2
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, prop + '.replay')
    if os.path.exists(replay):
        os.unlink(replay)
    work = tempfile.mkdtemp(prefix='explore-', dir=B.BUILD)
    try:
        det = subprocess.run([binary, 'determinism', '--prop', prop, '--seed', str(seed), '--tier', tier,
                              '--runs', str(24 if tier == 'quick' else 400), '--workers', str(workers)],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        result = explore(binary, prop, tier, seed, seconds, workers, work, replay)
        if result is None:
            return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    violated = result['violations'] > 0
    wall = time.time() - t0
    ew = max(result['explore_wall_s'], 1e-9)
    coverage = {
        'evaluations': result['runs'],
        'distinct_nontrivial': result['distinct_nontrivial'],
        'rule': 'One evaluation is one simulated execution: the seed (VERIF_SEED, index) picks a scenario, a workload, '
                'every context switch, delay, latency and fault. ' + info['rule'] +
                ' Two executions are distinct when the hash of their whole event log (every intercepted call, '
                'the thread that made it and the injected outcome) differs.',
        'samples': result['samples'] or ['none'],
        'scenarios': result['scenarios'],
        'runs_per_hour': int(result['runs'] / ew * 3600),
        'distinct_seeds': result['runs'],
        'simulated_seconds': result['simulated_seconds'],
        'simulated_steps': result['steps'],
        'context_switches': result['context_switches'],
        'distinct_schedules': result['distinct_schedules'],
        'distinct_preemption_pairs': result['distinct_preemption_pairs'],
        'faults_injected': result['faults_fired'],
        'probes': result['probes'],
        'real_components': info.get('real', REAL),
        'simulated_components': STUB,
        'harness_errors': result['harness_errors'],
        'determinism_gate': det.stdout.strip()[-400:],
        'known_findings_hit': {k['text']: k['hits'] for k in result['known']},
        'build_s': round(build_s, 1),
        'explore_wall_s': round(result['explore_wall_s'], 2),
        'workers': workers,
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
        'assumptions': info.get('assumptions', []) + [
            'threads switch only at intercepted calls (system calls, mutexes, condition variables, clock reads): '
            'data races on plain memory between two such calls are not explored',
            'a power failure keeps any subset of the unsynced 512-byte sectors of a file; file creation is durable '
            'once the file has been synced'],
        'wall_s': round(wall, 2), 'violations': result['violations'],
    }
    tmp = os.path.join(ev_dir, prop + '.json.tmp%d' % os.getpid())
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(ev_dir, prop + '.json'))

    for k in known_lines(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violated:
        print('%s: %s' % (result['violation_class'], result['violation_message']))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    print('%s held: %d runs (%d non-trivial), %.0f simulated s, %.0f s wall (build %.0f s)' % (
        prop, result['runs'], result['nontrivial_runs'], result['simulated_seconds'], wall, build_s))
    if result['runs'] == 0 or result['harness_errors'] > max(5, result['runs'] * 0.01):
        sys.stderr.write('too many harness errors: %d of %d runs\n' % (result['harness_errors'], result['runs']))
        return 2
    return 0

def known_lines(prop):
    r = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('known:') and (' property=%s ' % prop) in line:
                    r.append(line.split(' -- ', 1)[1].strip())
    return r

def explore(binary, prop, tier, seed, seconds, workers, work, replay):
    """explore; every reported violation must reproduce in a fresh process"""
    end = time.time() + seconds
    merged = None
    attempt = 0
    while True:
        left = end - time.time()
        if merged is not None and (left < 3 or attempt > 6):
            return merged
        out = os.path.join(work, 'out.json')
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run([binary, 'explore', '--prop', prop, '--seed', str(seed * 1000 + attempt), '--tier', tier,
                            '--seconds', str(max(left, 3)), '--workers', str(workers), '--dir', work, '--out', out,
                            '--replay', replay, '--known', KNOWN,
                            '--minimise', str(40 if tier == 'quick' else 120)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        for f in os.listdir(work):
            if f.startswith(('found.', 'totals.')):
                os.unlink(os.path.join(work, f))
        if not os.path.exists(out):
            sys.stderr.write('explorer failed: %s\n' % p.stderr[-2000:])
            return None
        if p.stderr.strip():
            sys.stderr.write(p.stderr[-2000:] + '\n')
        with open(out, errors='replace') as f:
            r = json.load(f)
        merged = merge(merged, r)
        attempt += 1
        if p.returncode == 1:
            ok = 0
            for _ in range(2):
                q = subprocess.run([binary, 'replay', '--file', replay], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, errors='replace')
                ok += 'REPRODUCED' in q.stdout
            if ok == 2:
                return merged
            sys.stderr.write('a violation did not replay in a fresh process: %s\n' % r['violation_message'])
            merged['violations'] = 0
            merged['harness_errors'] += 1
        elif p.returncode == 2 and not r['error']:
            return merged
        elif p.returncode == 0:
            return merged

def merge(a, b):
    if a is None:
        return b
    for k in ('runs', 'nontrivial_runs', 'distinct_schedules', 'distinct_nontrivial', 'steps', 'context_switches',
              'simulated_seconds', 'explore_wall_s', 'harness_errors', 'known_hits'):
        b[k] += a[k]
    b['distinct_preemption_pairs'] = max(a['distinct_preemption_pairs'], b['distinct_preemption_pairs'])
    for d in ('faults_fired', 'probes', 'scenarios'):
        for k, v in a[d].items():
            b[d][k] = b[d].get(k, 0) + v
    for x, y in zip(b['known'], a['known']):
        x['hits'] += y['hits']
    return b

if __name__ == '__main__':
    sys.stdout.reconfigure(errors='replace')
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
