"""Writes data/witnesses.json: for larger requests some layouts that are known to exist.

They are found with the tools themselves (any solver would do) and kept only if sim/judge.py accepts them."""
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('VERIF_REPO', '/repo')]
from sim import enumerate as en, exact, judge  # noqa: E402
import pysat.solvers  # noqa: E402

LENGTHS = ['', '--underground-length 2', '--underground-length 3', '--underground-length -1']
NETWORKS = ['1x2', '2x1', '2x2', '1x3', '3x1', '1x4', '4x1', '2x4', '4x2', '4x4', '3x3', '2x3', '3x2', '4x3', '3x4', '1x5', '1x6', '5x1', '3x5', '4x5']

LIMIT = float(os.environ.get('LIMIT', 15))


class Late(BaseException):
    pass


def late(*_):
    raise Late


class Random(pysat.solvers.Solver):
    rng = random.Random(0)

    def solve(self, assumptions=[]):
        n = self.nof_vars()
        bias = self.rng.choice([0.5, 0.2, 0.8])
        try:
            self.set_phases([v if self.rng.random() < bias else -v for v in range(1, n + 1)])
        except NotImplementedError:
            pass
        return super().solve(assumptions)


def requests():
    for n, sizes in ((2, [(3, 2), (3, 3), (3, 4), (5, 3), (5, 4), (6, 3), (6, 4)]), (3, [(8, 5), (9, 5), (10, 5)]), (4, [(7, 5), (8, 5), (9, 4), (9, 5), (10, 4), (10, 5)]), (5, [(12, 6)]), (6, [(12, 6)])):
        for w, h in sizes:
            for option in ('', '--aligned', *LENGTHS[1:]):
                yield 'belt_balancer_net_free', f'{w} {h} {n} {n} {option}'.strip()
    for i, o in ((1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (2, 4), (4, 2), (4, 1), (2, 3), (3, 2)):
        for w, h in ((4, 2), (5, 2), (5, 3), (6, 3), (8, 4), (9, 4), (10, 4)):
            if h >= max(i, o):
                for option in ('', '--aligned', LENGTHS[1]):
                    yield 'belt_balancer_net_free', f'{w} {h} {i} {o} {option}'.strip()
    for option in ('', '--underground-length 3', '--underground-length -1', '--underground-length 6'):
        yield 'belt_balancer_net_free_power_of_2', f'10 8 {option}'.strip()
        yield 'belt_balancer_net_free_power_of_2', f'11 8 {option}'.strip()
        for w in (8, 9, 10, 12):
            yield 'belt_balancer_net_free_power_of_2', f'{w} 4 {option}'.strip()
    for w, h in ((1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (6, 4), (7, 4), (8, 4), (9, 4), (6, 6), (7, 6), (8, 6), (9, 6), (10, 6), (10, 8), (11, 8), (12, 8)):
        for shape in ('', '--alternating', '--rot-symmetry', '--rot-symmetry --alternating'):
            for option in ('', '--underground-length 2', '--underground-length 3', '--underground-length 6'):
                yield 'interchange', ' '.join(f'{w} {h} {shape} {option}'.split())
    for name in NETWORKS:
        a, b = map(int, name.split('x'))
        for w, h in ((4, 2), (5, 3), (6, 3), (6, 4), (7, 4), (8, 4), (9, 4), (10, 4), (12, 4), (6, 5), (8, 5), (10, 5), (9, 6), (5, 5)):
            if h < max(a, b) or w * h > 10 * (a + b + 2):
                continue
            for option in ('', '--fast', '--90', '--180', '--aligned', '--use-ends', '--edge-splitters', '--edge-belts --glue-splitters', '--prevent-bad-patterns', '--break-symmetry', '--underground-length 2 --expand-underground',
                           '--underground-length -1', '--underground-length 3 --prevent-mergeable-underground', '--underground-length 6 --180 --use-ends', '--90 --use-ends'):
                if '--90' in option and b > w or '--180' in option and a + b > h:
                    continue
                yield 'belt_balancer', f'{name} {w} {h} {option}'.strip()


def find(job):
    module, args = job
    warnings.simplefilter('ignore')
    main = importlib.import_module('factorio_sat.' + module).main
    pysat.solvers.Solver = Random
    for name, m in list(sys.modules.items()):
        if name.startswith('factorio_sat') and getattr(m, 'Solver', None) is not None and name.endswith('template'):
            m.Solver = Random
    networks = {n: en.read_network(open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'networks', n)).read()) for n in NETWORKS}
    line = args.split()
    if module == 'belt_balancer':
        line[0] = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'networks', line[0])
    codes = set()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    slow, seconds = False, 0
    try:
        for k in range(12 if module != 'belt_balancer' else 4):
            Random.rng = random.Random(f'{job} {k}')
            out = io.StringIO()
            sys.argv = [module, *line, '--solver', ['g3', 'm22', 'g4', 'g3'][k % 4]]
            start = time.process_time()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                main()
            seconds = max(seconds, time.process_time() - start)
            if not out.getvalue():
                break
            grid, code = exact.read_line(out.getvalue().strip(), str(job))
            judge.any_tool(str(job), module, args, grid, networks)
            codes.add(code[2])
    except Late:
        slow = True
    except judge.Violation as e:
        print('REJECTED', e, out.getvalue(), flush=True, file=sys.__stdout__)
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if not codes or slow and len(codes) < 2:
        return None
    return {'module': module, 'args': args, 'seconds': round(seconds, 1), 'layouts': sorted(codes)}


def main():
    todo = list(requests())
    random.Random(1).shuffle(todo)
    found = []
    if 'more' in sys.argv:      # only what is not from networks is done again
        with open(os.path.join(HERE, 'data', 'witnesses.json')) as f:
            old = json.load(f)['requests']
        found = [r for r in old if r['module'] == 'belt_balancer']
        todo = [job for job in todo if job[0] != 'belt_balancer']
    with multiprocessing.Pool(int(os.environ.get('JOBS', 7)), maxtasksperchild=20) as pool:
        for k, r in enumerate(pool.imap_unordered(find, todo)):
            if r:
                found.append(r)
            if k % 20 == 0:
                print(k, 'of', len(todo), len(found), flush=True)
                write(found)
    write(found)


def write(found):
    found.sort(key=lambda r: (r['module'], r['args']))
    texts = {n: open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'networks', n)).read() for n in NETWORKS}
    with open(os.path.join(HERE, 'data', 'witnesses.json'), 'w') as f:
        json.dump({'networks': texts, 'requests': found}, f, separators=(',', ':'))


if __name__ == '__main__':
    main()
