#!/usr/bin/env python3
"""Decides one property by seeded simulation runs against /repo's current tree.

  check.py <ID>            search with VERIF_SEED (default 1), VERIF_TIER quick|thorough (default quick)
  check.py --replay FILE   replays one replay file and prints what happened
  check.py --setup         builds every binary
"""
import fcntl, json, os, re, subprocess, sys, time, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
from checks import CHECKS, BINS  # noqa: E402

NCPU = os.cpu_count() or 8


def load_known():
    """class -> text, per property, from the committed file (never written here)."""
    out = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) class=(\S+) (.*)', line.strip())
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def build(variant, binary):
    """One binary of the simulator with the code under test of /repo's working tree; cheap when nothing changed."""
    os.makedirs('build', exist_ok=True)
    target = 'build/%s/bin/%s' % (variant, binary)
    with open('build/.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        last = ''
        for sub in ([BINS[binary]] if BINS[binary] else []) + ['']:
            p = subprocess.run(['make', '-j%d' % NCPU, '-s', 'V=' + variant, 'SUB=' + sub, target],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                return target
            last = p.stdout
        sys.stderr.write(last[-4000:])
        print('ERROR: the simulator does not build with the current tree (%s, %s)' % (variant, binary))
        sys.exit(2)


def where(scenario):
    for pid, c in CHECKS.items():
        for part in c['parts']:
            if scenario in part['scenarios'].split(','):
                return part
    return None


def run_replay(path, part=None, known=None):
    scn = pid = None
    for line in open(path):
        if line.startswith('scenario '):
            scn = line.split()[1]
        if line.startswith('check '):
            pid = line.split()[1]
            part = part or CHECKS[pid]['parts'][int(line.split()[2])]
    part = part or where(scn)
    known = load_known().get(pid, {}) if known is None else known
    exe = build(part['variant'], part['bin'])
    d = tempfile.mkdtemp(prefix='simreplay.')
    try:
        p = subprocess.run([exe, '--replay', path, '--scratch', d] + part.get('args', []) +
                           (['--known', ','.join(known)] if known else []), stdout=subprocess.PIPE, text=True)
        return json.loads(p.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--replay':
        r = run_replay(os.path.abspath(sys.argv[2]))
        print(json.dumps(r, indent=1))
        same = r['failed'] and r['class'] == r['expected_class'] and r['hash'] == r['expected_hash']
        print('reproduced exactly' if same else 'NOT reproduced')
        return 1 if r['failed'] else 0
    if sys.argv[1] == '--setup':
        done = set()
        for c in CHECKS.values():
            for part in c['parts']:
                if (part['variant'], part['bin']) not in done:
                    done.add((part['variant'], part['bin']))
                    build(part['variant'], part['bin'])
        print('built', len(done), 'binaries')
        return 0

    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[pid]
    t0 = time.time()
    known = load_known().get(pid, {})
    for part in c['parts']:
        part['exe'] = build(part['variant'], part['bin'])
    build_s = time.time() - t0

    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (c.get('quick_s', 30) if tier == 'quick' else c.get('thorough_s', 1500))
    work = tempfile.mkdtemp(prefix='sim.%s.' % pid)
    os.makedirs('evidence/replay', exist_ok=True)
    results, errors = [], []
    violation = None
    try:
        # every worker runs one part; parts share the workers according to their weight
        weights = [p.get('weight', 1) for p in c['parts']]
        slots = []
        for i, p in enumerate(c['parts']):
            slots += [i] * max(1, round(NCPU * weights[i] / sum(weights)))
        procs = []
        ts = time.time()
        for k, pi in enumerate(slots):
            part = c['parts'][pi]
            env = dict(os.environ)
            # the wall clock the code under test sees when it starts
            env['SIM_TIME0'] = str(1700000000 + (0 if k % 2 == 0 else (seed * 7919 + k * 104729) % 100000000))
            out = os.path.join(work, 'out%d.json' % k)
            rep = os.path.join(HERE, 'evidence/replay/%s-%d.txt' % (pid, k))
            if os.path.exists(rep):
                os.unlink(rep)
            cmd = [part['exe'], '--scenario', part['scenarios'], '--seed', str(seed * 1000003 + k), '--stride', str(len(slots)),
                   '--runs', str(part.get('max_runs', 10 ** 9)), '--budget', str(budget), '--min-budget', '40',
                   '--verify-every', str(part.get('verify_every', 16)), '--core', str(k % NCPU),
                   '--scratch', os.path.join(work, 's%d' % k), '--out', out, '--replay-out', rep] + part.get('args', [])
            if known:
                cmd += ['--known', ','.join(known)]
            procs.append((k, part, out, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL,
                                                         stderr=open(os.path.join(work, 'err%d' % k), 'w'))))
        pending = list(procs)
        while pending:
            time.sleep(0.1)
            for q in list(pending):
                rc = q[3].poll()
                if rc is None:
                    continue
                pending.remove(q)
                if rc in (0, 1) and os.path.exists(q[2]):
                    r = json.load(open(q[2]))
                    results.append((q[1], r))
                    if r['violation'] and violation is None:
                        violation = (q[1], r['violation'])
                else:
                    errors.append('worker %d ended with %s: %s' % (q[0], rc, open(os.path.join(work, 'err%d' % q[0])).read()[-400:]))
            if violation:
                for q in pending:
                    q[3].kill()
                    q[3].wait()
                pending = []
        search_s = time.time() - ts
        replays = []
        if violation:
            part, v = violation
            with open(v['replay'], 'a') as f:
                f.write('check %s %d\n' % (pid, c['parts'].index(part)))
            for _ in range(2):
                replays.append(run_replay(v['replay'], part, known))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # ---- evidence
    agg = dict(runs=0, yields=0, switches=0, sim_time_s=0.0, determinism_verified=0, determinism_mismatches=0)
    scheds, states, nontriv = set(), set(), set()
    stats, knownHits, perScn, samples = {}, {}, {}, []
    for part, r in results:
        for k in agg:
            agg[k] += r[k]
        scheds.update(r['sched_hashes'])
        states.update(r['state_hashes'])
        nontriv.update(r['nontrivial_hashes'])
        for k, v in r['stats'].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith('max.') else stats.get(k, 0) + v
        for k, v in r['known'].items():
            knownHits[k] = knownHits.get(k, 0) + v
        for k, v in r['per_scenario'].items():
            perScn[k] = perScn.get(k, 0) + v
        if len(samples) < 6:
            samples += r['samples'][:1]
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(nontriv),
        'rule': c['rule'],
        'samples': samples or ['none'],
        'runs_per_scenario': perScn,
        'simulated_runs_per_hour': int(agg['runs'] / max(search_s, 1e-3) * 3600),
        'seeds_per_hour': int(agg['runs'] / max(search_s, 1e-3) * 3600),
        'simulated_time_s': round(agg['sim_time_s'], 3),
        'yield_points': agg['yields'],
        'context_switches': agg['switches'],
        'distinct_interleavings': len(scheds),
        'distinct_interleavings_measure': 'hash of the sequence of (thread, scheduling point) of a run',
        'distinct_states': len(states),
        'distinct_states_measure': c.get('states', 'hash of the observable state the scenario records after each step'),
        'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')},
        'counters': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')},
        'same_seed_rerun_checked': agg['determinism_verified'],
        'same_seed_rerun_mismatches': agg['determinism_mismatches'],
        'real_components': c['real'],
        'stub_components': c['stub'],
        'build_s': round(build_s, 1),
        'known_findings_seen': knownHits,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': c.get('level', 'exploration'), 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    with open('evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    for k, text in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if violation:
        part, v = violation
        ok = all(r['failed'] and r['class'] == v['class'] for r in replays)
        exact = ok and len(set(r['hash'] for r in replays)) == 1 and all(r['hash'] == r['expected_hash'] for r in replays)
        print('%s: %s' % (v['class'], v['message']))
        print('seed %s, scenario %s, %s decisions after minimising (%s before), %s operations dropped, replay %s' %
              (v['seed'], v['scenario'], v['decisions_after'], v['decisions_before'], v['ops_dropped'],
               'exact' if exact else ('same class, different history' if ok else 'NOT reproduced')))
        if not ok:
            print('ERROR: the replay does not reproduce the violation')
            return 2
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if errors or not results or agg['runs'] == 0:
        print('ERROR:', errors or 'no run finished')
        return 2
    if agg['determinism_mismatches']:
        print('ERROR: the same seed gave two histories (%d times)' % agg['determinism_mismatches'])
        return 2
    print('%s held on %d runs (%d distinct non-trivial, %d interleavings, %.0f s search, %.0f s build)' %
          (pid, agg['runs'], len(nontriv), len(scheds), search_s, build_s))
    return 0


sys.exit(main())
