''' Runner:  python -m vf.run P01 [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X] '''
import argparse
import glob
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vf import core  # noqa: E402

WORKERS = int(os.environ.get('VF_WORKERS', '8'))
SHRINK_CPU = 40


def load_property(pid):
    core.import_curver()
    mod = importlib.import_module('props.' + pid.lower())
    return mod.PROP


def known_entries(pid):
    ''' Lines "known: property=<id> case=<path relative to /verif> <what fails>" of known_findings.txt. '''
    path = os.path.join(core.VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                parts = line.split(None, 3)
                if parts[1] == 'property=' + pid:
                    out.append((parts[2].split('=', 1)[1], parts[3] if len(parts) > 3 else ''))
    return out


def shard(prop, sub, n, seed, stop, queue, tid):
    ''' Run n generated cases of one subcheck. '''
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)
    stats = {'tid': tid, 'sub': sub.name, 'evaluations': 0, 'labels': {}, 'hashes': set(), 'samples': [], 'failure': None, 'harness': None, 'max_cpu': 0.0, 'shrinks': 0}
    state = {'first_fail': None, 'dead': False}

    class Fail(Exception):
        pass

    def body(case):
        if state['dead'] or (stop.is_set() and state['first_fail'] is None):
            return
        if state['first_fail'] is not None and time.process_time() - state['first_fail'] > SHRINK_CPU:
            return
        t = time.process_time()
        status, msg, ctx = core.run_case(sub, case)
        dt = time.process_time() - t
        stats['evaluations'] += 1
        stats['max_cpu'] = max(stats['max_cpu'], dt)
        for k, v in ctx.labels.items():
            stats['labels'][k] = stats['labels'].get(k, 0) + v
        if ctx.is_nontrivial:
            h = core.case_hash(sub.name, case)
            if h not in stats['hashes']:
                stats['hashes'].add(h)
                if len(stats['samples']) < 2 and len(stats['hashes']) in (3, 17):
                    stats['samples'].append({'check': sub.name, 'case': case})
        if status == 'harness':
            stats['harness'] = msg + '\ncase: ' + core.canon(case)
            state['dead'] = True
            return
        if status == 'violation':
            stats['shrinks'] += 1
            size = (len(core.canon(case)), core.canon(case))
            if stats['failure'] is None or size < stats['failure'][0]:
                stats['failure'] = (size, case, msg)
            if state['first_fail'] is None:
                state['first_fail'] = time.process_time()
                stop.set()
            if dt > 5:  # Too slow to shrink.
                state['first_fail'] = -1e9
            raise Fail(msg)

    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet)(hypothesis.seed(seed)(hypothesis.given(sub.strategy)(body)))
    try:
        test()
    except Fail:
        pass
    except Exception as e:  # pylint: disable=broad-except
        if stats['failure'] is None and stats['harness'] is None:  # Otherwise this is just Hypothesis noticing that we stopped shrinking.
            stats['harness'] = ''.join(traceback.format_exception(e))
    queue.put(stats)


def _entry(*args):
    try:
        import signal
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        shard(*args)
    except BaseException as e:  # pylint: disable=broad-except
        args[5].put({'tid': args[6], 'sub': args[1].name, 'harness': ''.join(traceback.format_exception(e))})


def write_replay(pid, sub, case, msg, seed):
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{core.case_hash(sub, case)}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'sub': sub, 'case': case, 'message': msg, 'seed': seed,
                   'rerun': f'bash /verif/check.sh {pid} --replay {path}'}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        prop = load_property(args.pid)
    except core.HarnessError:
        raise
    except Exception as e:  # pylint: disable=broad-except
        if core.classify(e) == 'violation' and any('/curver/' in f.filename for f in traceback.extract_tb(e.__traceback__)):
            # The library cannot even be imported or used to set the check up.
            traceback.print_exc()
            path = write_replay(args.pid, 'import', None, repr(e), seed)
            print(f'VIOLATION property={args.pid} replay={path}')
            return 1
        raise

    if args.replay:
        data = json.load(open(args.replay))
        if data['sub'] == 'import':
            print('imported correctly')
            return 0
        status, msg, _ = core.run_case(prop.subs[data['sub']], data['case'])
        print(status, msg)
        if status == 'violation':
            print(f'VIOLATION property={args.pid} replay={args.replay}')
        return {'ok': 0, 'violation': 1}.get(status, 2)

    subs = [s for s in prop.subs.values() if args.only in (None, s.name)]
    failures, harness = [], []
    evaluations = 0
    hashes, samples, per_sub = set(), [], {}

    def run_fixed(path):
        data = json.load(open(path))
        return data, core.run_case(prop.subs[data['sub']], data['case'])

    # 1) Known findings.
    for path, what in known_entries(args.pid):
        data, (status, msg, _) = run_fixed(os.path.join(core.VERIF, path))
        if status == 'violation':
            print(f'KNOWN-FINDING: property={args.pid} {what}')
        elif status == 'harness':
            harness.append(msg)
    # 2) Regression corpus: saved inputs, among them those of every repaired defect.
    for path in sorted(glob.glob(os.path.join(core.VERIF, 'corpus', args.pid, '*.json'))):
        data, (status, msg, ctx) = run_fixed(path)
        evaluations += 1
        if ctx.is_nontrivial:
            hashes.add(core.case_hash(data['sub'], data['case']))
        if status == 'violation':
            failures.append((data['sub'], data['case'], msg))
        elif status == 'harness':
            harness.append(msg)

    # 3) Generated search.
    tasks = []
    if not failures:
        for sub in subs:
            n = int((sub.quick if args.tier == 'quick' else sub.thorough) * args.scale)
            k = min(WORKERS, max(1, n // 8)) if n < 400 else WORKERS * (1 if args.tier == 'quick' else 4)
            for i in range(k):
                m = n // k + (1 if i < n % k else 0)
                if m:
                    s = int.from_bytes(__import__('hashlib').sha256(f'{seed}|{args.pid}|{sub.name}|{i}|{args.tier}'.encode()).digest()[:6], 'big')
                    tasks.append((sub, m, s, i))
        tasks.sort(key=lambda t: t[3])
    mp = multiprocessing.get_context('fork')
    stop, queue = mp.Event(), mp.Queue()
    running, results, next_task = {}, {}, 0
    import queue as queue_mod
    while next_task < len(tasks) or running:
        while next_task < len(tasks) and len(running) < WORKERS:
            sub, n, s, _ = tasks[next_task]
            p = mp.Process(target=_entry, args=(prop, sub, n, s, stop, queue, next_task))
            p.start()
            running[next_task] = p
            next_task += 1
        try:
            st = queue.get(timeout=0.5)
            results[st['tid']] = st
            p = running.pop(st['tid'], None)
            if p is not None:
                p.join()
        except queue_mod.Empty:
            for tid, p in list(running.items()):
                if not p.is_alive() and tid not in results:
                    try:
                        st = queue.get(timeout=1)
                        results[st['tid']] = st
                        running.pop(st['tid'], None)
                        continue
                    except queue_mod.Empty:
                        running.pop(tid)
                        harness.append(f'worker for {tasks[tid][0].name} died with exit code {p.exitcode}')
    for tid in sorted(results):
        st = results[tid]
        if st.get('harness'):
            harness.append(st['harness'])
        if 'evaluations' not in st:
            continue
        evaluations += st['evaluations']
        hashes |= st['hashes']
        ps = per_sub.setdefault(st['sub'], {'evaluations': 0, 'distinct_nontrivial': set(), 'labels': {}, 'max_case_cpu_s': 0})
        ps['evaluations'] += st['evaluations']
        ps['distinct_nontrivial'] |= st['hashes']
        ps['max_case_cpu_s'] = round(max(ps['max_case_cpu_s'], st['max_cpu']), 2)
        for k, v in st['labels'].items():
            ps['labels'][k] = ps['labels'].get(k, 0) + v
        if len([s for s in samples if s['check'] == st['sub']]) < 2:
            samples.extend(st['samples'][:2])
        if st['failure']:
            failures.append((st['sub'], st['failure'][1], st['failure'][2]))
    for ps in per_sub.values():
        ps['distinct_nontrivial'] = len(ps['distinct_nontrivial'])

    wall = time.time() - t0
    evidence = {
        'property': args.pid, 'tier': 'thorough' if args.tier == 'thorough' else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(hashes),
            'rule': ' || '.join(f'{s.name}: {" ".join(s.rule.split())}' for s in subs),
            'samples': [{'check': s['check'], 'case': s['case'] if len(core.canon(s['case'])) < 2500 else core.canon(s['case'])[:2500] + '...'} for s in samples[:24]],
            'per_check': per_sub,
        },
        'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': len(failures),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    if args.only is None and args.scale == 1.0:
        with open(os.path.join(core.VERIF, 'evidence', args.pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    print(f'{args.pid}: {evaluations} cases, {len(hashes)} distinct non-trivial, {len(failures)} violations, {wall:.1f} s')
    if args.only or os.environ.get('VF_VERBOSE'):
        print(json.dumps(per_sub, indent=1))
    if failures:
        failures.sort(key=lambda f: len(core.canon(f[1])))
        for sub, case, msg in failures[:3]:
            path = write_replay(args.pid, sub, case, msg, seed)
            print(f'[{sub}] {msg}'[:1500])
            print(f'VIOLATION property={args.pid} replay={path}')
        return 1
    if harness:
        print(harness[0], file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
