#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: build from /repo's working tree, search, gate, report."""
import json, os, shutil, struct, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from meta import META

VERIF = B.VERIF
NPROC = 8
QUICK_S = float(os.environ.get('SIM_QUICK_S', '20'))
THOROUGH_S = float(os.environ.get('SIM_THOROUGH_S', '600'))


def known_findings(prop):
    try:
        d = json.load(open(VERIF + '/known_findings.json'))
    except OSError:
        return []
    return [f for f in d.get('findings', []) if f['property'] == prop]


def jlines(text):
    r = []
    for l in text.splitlines():
        if l.startswith('{'):
            try:
                r.append(json.loads(l, strict=False))
            except ValueError:
                pass
    return r


def records(path):
    try:
        d = open(path, 'rb').read()
    except OSError:
        return []
    return [struct.unpack_from('<QQQII', d, i) for i in range(0, len(d) - 31, 32)]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if not B.build([prop], quiet=True):
        print('check %s: the simulator does not build' % prop)
        return 2
    build_s = time.time() - t0
    exe = '%s/bin/%s' % (B.BUILD, prop)
    work = '%s/work/%s' % (B.BUILD, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    budget = (QUICK_S * (1.5 if prop in B.THREADED else 1)) if tier == 'quick' else THOROUGH_S
    findings = known_findings(prop)
    known = ','.join('%s/%s' % (f['scenario'], f['class']) for f in findings)
    procs = []
    for i in range(NPROC):
        cmd = [exe, 'batch', '--prop', prop, '--seed', str(seed), '--start', str(i), '--stride', str(NPROC), '--time', str(budget),
               '--shrink-time', '8' if tier == 'quick' else '60', '--replay', '%s/%d.replay' % (work, i), '--hashes', '%s/%d.hashes' % (work, i)]
        if known:
            cmd += ['--known', known]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open('%s/%d.err' % (work, i), 'w'), text=True, cwd=work))
    violations, problems, stats = [], [], []
    for i, p in enumerate(procs):
        try:
            out, _ = p.communicate(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            problems.append('worker %d did not end' % i)
        js = jlines(out)
        for j in js:
            if 'violation' in j:
                violations.append(j)
            elif 'irreproducible' in j or 'nondeterministic' in j:
                problems.append(json.dumps(j))
            elif 'stats' in j:
                stats.append(j['stats'])
        if p.returncode not in (0, 1):
            problems.append('worker %d ended with %s: %s' % (i, p.returncode, open('%s/%d.err' % (work, i)).read()[-500:]))
    # determinism across processes: the same seeds in another process, partition and environment
    again = 0
    if stats and not violations:
        env = dict(os.environ, SIM_PADDING='x' * 300)
        n = 20 if tier == 'quick' else 400
        subprocess.run([exe, 'batch', '--prop', prop, '--seed', str(seed), '--start', '1', '--stride', '3', '--count', str(n), '--time', '60',
                        '--replay', work + '/again.replay', '--hashes', work + '/again.hashes'] + (['--known', known] if known else []),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=work)
        first = {}
        for i in range(NPROC):
            for r in records('%s/%d.hashes' % (work, i)):
                first[r[0]] = r
        for r in records(work + '/again.hashes'):
            if r[0] in first:
                again += 1
                if r[4] == 2 and first[r[0]][1] != r[1]:
                    problems.append('run %d differs between two processes' % r[0])
    # gate every violation with a replay in a fresh process
    violations.sort(key=lambda v: v['choices'])
    confirmed = None
    for v in violations:
        r = subprocess.run([exe, 'replay', v['replay']], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=work)
        j = (jlines(r.stdout) or [{}])[-1]
        if r.returncode == 1 and j.get('reproduced'):
            v['hash_equal'] = j.get('hash_equal')
            if v['hash_equal'] or v['class'] == 'crash':
                confirmed = v
                break
        problems.append('replay of %s/%s in a fresh process: %s' % (v['scenario'], v['class'], j))

    def total(key):
        return sum(s[key] for s in stats)

    def merged(key):
        m = {}
        for s in stats:
            for k, v in s[key].items():
                m[k] = m.get(k, 0) + v
        return m

    recs = [r for i in range(NPROC) for r in records('%s/%d.hashes' % (work, i))]
    distinct = len({r[1] for r in recs if r[3] >= 4})
    orders = len({r[2] for r in recs if r[3] >= 4})
    wall = time.time() - t0
    search = max([s['wall'] for s in stats] or [0.001]) or 0.001
    runs = total('runs') if stats else 0
    meta = META.get(prop, {})
    samples = []
    if not violations and stats:
        for line in list(merged('scenarios'))[:3]:
            r = subprocess.run([exe, 'run', '--scenario', line, '--seed', str(seed), '--index', '1', '-v'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=work)
            tr = r.stdout.splitlines()
            samples.append({'scenario': line, 'index': 1, 'event_log': tr[:40] + (['... %d more lines' % (len(tr) - 40)] if len(tr) > 40 else [])})
    elif violations:
        v = violations[0]
        samples.append({k: v[k] for k in ('scenario', 'class', 'message', 'seed', 'choices', 'original_choices')})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': distinct,
            'rule': 'One evaluation is one simulated run: the workload, every scheduling decision, delay and fault are drawn from a PRNG seeded by (VERIF_SEED, scenario, run index). '
                    'Two runs are distinct if the hash over all their decisions, events and timestamps differs; a run is non-trivial if at least 4 simulator steps (event-loop dispatches or kernel events) were executed.',
            'samples': samples,
            'distinct_event_orders': orders,
            'distinct_event_orders_measure': 'hash over the sequence of dispatched events, thread switches and workload actions, ignoring times and decisions',
            'runs_per_hour': int(runs / search * 3600),
            'seeds_per_hour': int(runs / search * 3600),
            'simulated_seconds': round(total('sim_seconds'), 3) if stats else 0,
            'simulator_steps': total('steps') if stats else 0,
            'decisions': total('choices') if stats else 0,
            'thread_switches': total('thread_switches') if stats else 0,
            'runs_per_scenario': merged('scenarios'),
            'faults_injected': merged('faults'),
            'runs_with_fault': merged('fault_runs'),
            'rare_conditions_hit': merged('probes'),
            'runs_with_condition': merged('probe_runs'),
            'runs_repeated_in_process_for_determinism': total('rechecked') if stats else 0,
            'runs_repeated_in_another_process_for_determinism': again,
            'build_s': round(build_s, 1),
            'workload': meta.get('workload', ''),
            'components_real': meta.get('real', ''),
            'components_stubbed': meta.get('stub', ''),
            'known_findings_hit': merged('known'),
        },
        'assumptions': meta.get('assumptions', []) + ['sampling, not enumeration: schedules and faults outside the sampled runs are not covered', 'Qt 6.4.2 as installed behaves as its real code does here; the simulated parts behave within their documented contract'],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    json.dump(evidence, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    if confirmed:
        os.makedirs(B.BUILD + '/replay', exist_ok=True)
        dst = '%s/replay/%s.replay' % (B.BUILD, prop)
        shutil.copy(confirmed['replay'], dst)
        print('%s: %s/%s: %s' % (prop, confirmed['scenario'], confirmed['class'], confirmed['message']))
        print('minimised from %d to %d decisions in %d runs; replay with: %s replay %s -v' % (confirmed['original_choices'], confirmed['choices'], confirmed['shrink_runs'], exe, dst))
        print('VIOLATION property=%s replay=%s' % (prop, dst))
        return 1
    if problems or not stats:
        print('check %s: no verdict:' % prop)
        for p in problems[:10]:
            print('  ' + p)
        return 2
    print('%s %s: %d runs, %d distinct, %.1f simulated s, held; build %.1f s, total %.1f s' % (prop, tier, runs, distinct, evidence['coverage']['simulated_seconds'], build_s, wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
