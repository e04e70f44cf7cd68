"""Runs many simulated runs of one property in parallel, each in its own forked
process, and reports the outcome."""
import collections
import gc
import hashlib
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import traceback

from . import core, loader, proc, shrink
from .core import Choices, Current, HarnessError, Violation, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = proc.REAL['monotonic']


def scratch_base():
    for base in ('/dev/shm', os.environ.get('TMPDIR', '/tmp')):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            path = os.path.join(base, f'vsim-{proc.REAL_GETPID()}')
            os.makedirs(path, exist_ok=True)
            return path
    raise HarnessError('no scratch directory')


def seed_for(seed, prop, index):
    return int.from_bytes(hashlib.sha256(f'{seed}/{prop}/{index}'.encode()).digest()[:8], 'big')


def execute(prop, choices, root):
    """One simulated run, in this process. Returns a JSON-able record."""
    from . import fs as simfs
    os.makedirs(root)
    world = World(choices, root)
    record = {'violation': None, 'error': None}
    try:
        prop.run(world)
        world.check()
    except Violation as v:
        if world.violations:
            v = world.violations[0]
        record['violation'] = {'kind': v.kind, 'message': v.message}
    except BaseException as e:
        if world.violations:
            v = world.violations[0]
            record['violation'] = {'kind': v.kind, 'message': v.message}
        else:
            record['error'] = ''.join(traceback.format_exception(e))[-4000:]
    finally:
        Current.world = None
        shutil.rmtree(root, ignore_errors=True)
    record.update(values=choices.values, faults=world.faults, ops=world.ops, sim_time=world.now, stats=world.stats,
                  digest=world.digest(), trace=world.trace, nontrivial=bool(world.faults) or world.stats.get('nontrivial', 0) > 0)
    return record


def fork_run(prop, choices, root, wall_limit):
    """execute() in a forked child; None if it did not end within the limits."""
    read_fd, write_fd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.close(read_fd)
            limit = int(wall_limit) + 5
            resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            null = os.open('/dev/null', os.O_RDWR)
            os.dup2(null, 0)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            record = execute(prop, choices, root)
            if record['violation'] is None and record['error'] is None and not getattr(prop, 'keep_trace', False):
                record['trace'] = record['trace'][:0] if not choices.rng else record['trace'][:30]
            data = json.dumps(record).encode()
            view = memoryview(data)
            while view:
                view = view[os.write(write_fd, view):]
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(write_fd)
    chunks = []
    deadline = now() + wall_limit
    timed_out = False
    while True:
        remaining = deadline - now()
        if remaining <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([read_fd], [], [], remaining)
        if ready:
            chunk = os.read(read_fd, 1 << 20)
            if not chunk:
                break
            chunks.append(chunk)
    os.close(read_fd)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        return {'hang': True, 'status': status}
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'crash': True, 'status': status}


class Summary:
    def __init__(self):
        self.runs = 0
        self.nontrivial = 0
        self.faults = collections.Counter()
        self.stats = collections.Counter()
        self.ops = 0
        self.sim_time = 0.0
        self.choices = 0
        self.digests = set()
        self.samples = []

    def add(self, record):
        self.runs += 1
        self.faults.update(record['faults'])
        self.stats.update(record['stats'])
        self.ops += record['ops']
        self.sim_time += record['sim_time']
        self.choices += len(record['values'])
        if record['digest'] not in self.digests:
            self.digests.add(record['digest'])
            if record['nontrivial']:
                self.nontrivial += 1

    def merge(self, other):
        self.runs += other['runs']
        self.faults.update(other['faults'])
        self.stats.update(other['stats'])
        self.ops += other['ops']
        self.sim_time += other['sim_time']
        self.choices += other['choices']
        new = set(other['digests'])
        self.nontrivial += len([d for d in other['nontrivial_digests'] if d not in self.digests])
        self.digests |= new
        self.samples += other['samples']


def worker(prop, seed, first, step, count, deadline, base, wall_limit, out_fd):
    summary = Summary()
    nontrivial = set()
    message = {'kind': 'done'}
    index = first
    while index < count and now() < deadline:
        run_seed = seed_for(seed, prop.ID, index)
        record = fork_run(prop, Choices(seed=run_seed), os.path.join(base, f'r{index}'), wall_limit)
        if record.get('hang') and getattr(prop, 'SLOW_OK', False):
            summary.stats['given up (solver too slow)'] += 1
            index += step
            continue
        if record.get('hang') or record.get('crash'):
            message = {'kind': 'hang' if record.get('hang') else 'crash', 'index': index, 'seed': run_seed, 'status': record['status']}
            break
        if record['error']:
            message = {'kind': 'error', 'index': index, 'seed': run_seed, 'error': record['error'], 'trace': record['trace'][-60:]}
            break
        summary.add(record)
        if record['nontrivial']:
            nontrivial.add(record['digest'])
            if len(summary.samples) < 2 and first < 2:
                summary.samples.append({'run': index, 'seed': run_seed, 'choices': len(record['values']), 'faults': record['faults'], 'events': record['trace'][:25]})
        if record['violation']:
            message = {'kind': 'violation', 'index': index, 'seed': run_seed, 'record': record}
            break
        index += step
    message['summary'] = {
        'runs': summary.runs, 'faults': dict(summary.faults), 'stats': dict(summary.stats), 'ops': summary.ops, 'sim_time': summary.sim_time,
        'choices': summary.choices, 'digests': sorted(summary.digests), 'nontrivial_digests': sorted(nontrivial), 'samples': summary.samples}
    data = json.dumps(message).encode()
    view = memoryview(data)
    while view:
        view = view[os.write(out_fd, view):]


def campaign(prop, seed, count, time_limit, wall_limit, base, workers):
    """All runs. Stops early at the first violation."""
    deadline = now() + time_limit
    children = {}
    sys.stdout.flush()
    for i in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 0
            try:
                os.close(r)
                for fd in children:
                    os.close(fd)
                worker(prop, seed, i, workers, count, deadline, base, wall_limit, w)
            except BaseException:
                traceback.print_exc()
                status = 1
            finally:
                os._exit(status)
        os.close(w)
        children[r] = [pid, []]
    messages = []
    while children:
        ready, _, _ = select.select(list(children), [], [])
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                children[fd][1].append(chunk)
                continue
            pid, chunks = children.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            data = b''.join(chunks)
            if not data:
                messages.append({'kind': 'error', 'error': 'a worker of the harness died', 'trace': [], 'index': -1})
            else:
                messages.append(json.loads(data))
            if messages[-1]['kind'] != 'done':
                # enough is known: the others finish their current run
                for other, _ in children.values():
                    try:
                        os.kill(other, signal.SIGTERM)
                    except ProcessLookupError:
                        pass
                for fd2, (other, _) in children.items():
                    os.waitpid(other, 0)
                    os.close(fd2)
                return messages
    return messages


def replay_run(prop, values, base, wall_limit, name='replay'):
    return fork_run(prop, Choices(replay=list(values)), os.path.join(base, name), wall_limit)


def write_replay(prop, seed, message, values, record, attempts, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    choices = Choices(replay=list(values))
    with open(path, 'w') as f:
        json.dump({
            'property': prop.ID,
            'verif_seed': seed,
            'run': message['index'],
            'run_seed': message['seed'],
            'violation': record['violation'],
            'choices': list(values),
            'original_length': len(message['record']['values']),
            'shrink_attempts': attempts,
            'faults': record['faults'],
            'trace': record['trace'],
            'code': loader.digest(),
            'replay_with': f'/opt/venv/bin/python {os.path.join(HERE, "check.py")} {prop.ID} --replay {path}',
        }, f, indent=1)


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def run_check(prop, tier, seed):
    start = now()
    base = scratch_base()
    try:
        return _run_check(prop, tier, seed, start, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_check(prop, tier, seed, start, base):
    quick = tier == 'quick'
    count = prop.QUICK_RUNS if quick else prop.THOROUGH_RUNS
    count = int(os.environ.get('VERIF_RUNS', count))
    time_limit = prop.QUICK_SECONDS if quick else prop.THOROUGH_SECONDS
    wall_limit = getattr(prop, 'RUN_LIMIT', 90)
    workers = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4))
    prop.tier = tier
    prop.base = base
    prop.prepare()
    gc.collect()
    gc.freeze()
    prepared = now()

    # one seed is one execution: the first runs are executed twice and compared
    mismatches = 0
    repeats = min(3, count)
    hang = None
    for index in range(repeats):
        run_seed = seed_for(seed, prop.ID, index)
        pair = [fork_run(prop, Choices(seed=run_seed), os.path.join(base, f'd{index}'), wall_limit) for _ in range(2)]
        if any(r.get('hang') or r.get('crash') for r in pair):
            break
        if pair[0]['digest'] != pair[1]['digest'] or pair[0]['values'] != pair[1]['values']:
            mismatches += 1

    messages = campaign(prop, seed, count, time_limit, wall_limit, base, workers)
    total = Summary()
    for m in messages:
        if 'summary' in m:
            total.merge(m['summary'])

    violation = None
    problem = None
    for m in sorted(messages, key=lambda m: m.get('index', 0)):
        if m['kind'] == 'violation':
            violation = m
            break
    if violation is None:
        for m in messages:
            if m['kind'] in ('hang', 'crash'):
                # once more, alone, with a longer limit
                again = fork_run(prop, Choices(seed=m['seed']), os.path.join(base, 'again'), wall_limit * 2)
                if again.get('hang') or again.get('crash'):
                    what = 'did not finish' if again.get('hang') else f'the interpreter crashed (status {again.get("status")})'
                    record = {'violation': {'kind': 'no-progress' if again.get('hang') else 'crash', 'message': f'the simulated run {what}'},
                              'values': [], 'faults': {}, 'trace': [], 'seeded': True}
                    violation = {'kind': 'violation', 'index': m['index'], 'seed': m['seed'], 'record': record, 'unshrinkable': True}
                elif again['violation']:
                    violation = {'kind': 'violation', 'index': m['index'], 'seed': m['seed'], 'record': again}
                elif again['error']:
                    problem = again['error']
            elif m['kind'] == 'error':
                problem = m['error'] + '\n' + '\n'.join(m['trace'])

    replay_path = None
    reproduced = None
    if violation is not None:
        replay_path = os.path.join(HERE, 'evidence', 'replays', f'{prop.ID}-{seed}-{violation["index"]}.json')
        record = violation['record']
        if violation.get('unshrinkable'):
            os.makedirs(os.path.dirname(replay_path), exist_ok=True)
            with open(replay_path, 'w') as f:
                json.dump({'property': prop.ID, 'verif_seed': seed, 'run': violation['index'], 'run_seed': violation['seed'],
                           'violation': record['violation'], 'choices': None, 'code': loader.digest()}, f, indent=1)
            reproduced = True
        else:
            kind = record['violation']['kind']

            def fails(values):
                r = replay_run(prop, values, base, wall_limit)
                if r.get('violation') and r['violation']['kind'] == kind:
                    return r['values']
                return None
            best, attempts = shrink.shrink(record['values'], fails, 30 if quick else 60)
            final = replay_run(prop, best, base, wall_limit)
            if not final.get('violation'):
                best, attempts = record['values'], 0
                final = replay_run(prop, best, base, wall_limit)
            reproduced = bool(final.get('violation'))
            if not reproduced:
                final = record
                best = record['values']
            write_replay(prop, seed, violation, best, final, attempts, replay_path)
            violation['final'] = final
            if reproduced:  # in a process of its own
                env = dict(os.environ, VERIF_TIER=tier)
                child = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop.ID, '--replay', replay_path],
                                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                reproduced = child.returncode == 1

    wall = now() - start
    search = max(1e-9, now() - prepared)
    evidence = {
        'property': prop.ID,
        'tier': tier,
        'seed': seed,
        'level': prop.LEVEL,
        'coverage': {
            'evaluations': total.runs,
            'distinct_nontrivial': total.nontrivial,
            'rule': prop.RULE,
            'samples': total.samples[:3],
            'seeds_per_hour': round(total.runs / search * 3600),
            'simulated_seconds': round(total.sim_time, 3),
            'fault_points': total.ops,
            'faults_injected': dict(sorted(total.faults.items())),
            'faults_total': sum(total.faults.values()),
            'distinct_executions': len(total.digests),
            'distinct_measure': 'distinct hashes of the complete event log (schedule, effects, faults, outcomes) of a run',
            'choices_drawn': total.choices,
            'counters': dict(sorted(total.stats.items())),
            'determinism': {'seeds_run_twice': repeats, 'mismatches': mismatches},
            'components': {'real': prop.REAL, 'stub': prop.STUB},
            'code': loader.digest(),
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': 1 if violation is not None else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop.ID}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print(f'{prop.ID} {tier}: {total.runs} runs ({total.nontrivial} distinct with faults or contention), '
          f'{sum(total.faults.values())} faults, {len(total.digests)} distinct executions, {wall:.1f} s')
    if mismatches:
        print(f'warning: {mismatches} of {repeats} seeds were not repeatable')
    if violation is not None:
        v = (violation.get('final') or violation['record'])['violation']
        print(f'run {violation["index"]} seed {violation["seed"]}: {v["kind"]}: {v["message"]}')
        if not reproduced:
            print('the violation could not be reproduced from its replay file')
            return 2
        print(f'VIOLATION property={prop.ID} replay={replay_path}')
        return 1
    if problem is not None:
        print('harness error:\n' + problem)
        return 2
    if total.runs == 0:
        print('no run completed')
        return 2
    for finding in known_findings():
        if finding.get('property') == prop.ID and finding.get('status') == 'known':
            print(f'KNOWN-FINDING: property={prop.ID} {finding["what"]}')
    return 0


def run_replay(prop, path, verbose=True):
    with open(path) as f:
        data = json.load(f)
    base = scratch_base()
    try:
        prop.tier = os.environ.get('VERIF_TIER', 'quick')
        prop.base = base
        prop.prepare()
        gc.collect()
        gc.freeze()
        wall_limit = getattr(prop, 'RUN_LIMIT', 90) * 2
        if data.get('choices') is None:
            record = fork_run(prop, Choices(seed=data['run_seed']), os.path.join(base, 'replay'), wall_limit)
            if record.get('hang') or record.get('crash'):
                record = {'violation': data['violation'], 'trace': []}
        else:
            record = replay_run(prop, data['choices'], base, wall_limit)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for line in record.get('trace', []):
        print(line)
    if record.get('error'):
        print(record['error'])
        return 2
    if record.get('violation'):
        same = record['violation'] == data['violation']
        print(f'{record["violation"]["kind"]}: {record["violation"]["message"]}')
        print('reproduced exactly' if same else 'reproduced with a different message')
        print(f'VIOLATION property={prop.ID} replay={path}')
        return 1
    print('no violation')
    return 0
