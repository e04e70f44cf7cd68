"""Writes data/balancers.json and data/blocks.json: every layout of small requests, by plain enumeration
(sim/enumerate.py, no code of the repository).  Takes hours of CPU; the results are committed."""
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import enumerate as en  # noqa: E402

NETWORKS = {
    'loop': '0 1 1 2', 'chain': '0 0 1 1\n1 1 2 2', 'eye': '0 -1 1 1\n1 1 -1 2', '1x2': '0 -1 1 1', '2x1': '0 0 -1 1', '2x2': '0 0 1 1', 'gap': '6 -1 3 3',
    '1x3': '0 0 1 1\n-1 1 2 2\n-1 1 2 0', '1x4': '0 -1 1 1\n1 -1 2 2\n1 -1 2 2', '4x2': '0 0 -1 1\n0 0 -1 2\n1 2 3 3', 'bloop': '0 0 1 2\n1 2 0 3',
    '2x3': '0 0 1 1\n-1 3 2 2\n2 1 3 3\n2 1 3 3', '3x1': '1 1 0 0\n2 2 1 -1\n0 2 1 -1', '2x4': '0 0 1 1\n1 -1 2 2\n1 -1 2 2',
}
SIZES = [(2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (7, 2), (3, 3), (4, 3), (5, 3), (6, 3), (3, 4), (4, 4), (5, 4), (3, 5), (8, 2), (7, 3), (2, 3), (2, 4)]
OPTIONS = ['', '--90', '--180', '--use-ends', '--aligned', '--90 --use-ends', '--aligned --use-ends', '--underground-length 1', '--underground-length 2', '--90 --underground-length 1', '--180 --underground-length 2']
LIMIT = float(os.environ.get('LIMIT', 120))
MOST = 700


class Late(Exception):
    pass


def late(*_):
    raise Late


def balancer(job):
    name, (w, h), options = job
    words = options.split()
    kwargs = {'mode': '90' if '--90' in words else '180' if '--180' in words else 'straight', 'aligned': '--aligned' in words, 'use_ends': '--use-ends' in words,
              'underground': int(words[words.index('--underground-length') + 1]) if '--underground-length' in words else 4}
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        codes = set()
        network = en.read_network(NETWORKS[name])
        ends = en.network_ends(network)
        if '--custom' not in words and (ends[0][1] > h or ends[1][1] > (w if kwargs['mode'] == '90' else h)):
            return None
        for tiles in en.custom(w, h, network, kwargs['underground']) if '--custom' in words else en.balancers(w, h, network, **kwargs):
            codes.add(en.code(tiles, w, h))
            if len(codes) > MOST:
                return None
    except Late:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'network': name, 'width': w, 'height': h, 'options': options, 'layouts': sorted(codes)}


def balancer_group(job):
    found = []
    for length in ('--underground-length 1', '--underground-length 2', ''):
        options = [o for o in OPTIONS if (length in o if length else 'length' not in o)]
        new = [r for r in (balancer((*job, o)) for o in options) if r]
        found += new
        if not new:
            break
    return found


def block(job):
    (w, h), options = job
    words = options.split()
    kwargs = {'wrap': '--tile' in words, 'empty': '--allow-empty' in words, 'single': '--single-loop' in words, 'parallel': '--no-parallel' not in words,
              'underground': int(words[words.index('--underground-length') + 1]) if '--underground-length' in words else 4}
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        codes = set()
        for tiles in en.blocks(w, h, **kwargs):
            codes.add(en.code(tiles, w, h))
            if len(codes) > MOST:
                return None
    except Late:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'width': w, 'height': h, 'options': options, 'layouts': sorted(codes)}


def main():
    with multiprocessing.Pool(int(os.environ.get('JOBS', 7))) as pool:
        if 'custom' in sys.argv:
            return all_custom(pool)
        if 'balancers' not in sys.argv:
            all_blocks(pool)
        if 'blocks' not in sys.argv:
            all_balancers(pool)
            all_custom(pool)


def all_custom(pool):
    """Adds the requests with --custom."""
    start = time.time()
    name = os.path.join(HERE, 'data', 'balancers.json')
    with open(name) as f:
        data = json.load(f)
    data['requests'] = [r for r in data['requests'] if '--custom' not in r['options']]
    jobs = [(n, s, o) for s in [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3)] for o in ('--custom --underground-length 1', '--custom') for n in NETWORKS if max(s) > 3 or 'length' not in o]
    for k, found in enumerate(pool.imap_unordered(balancer, jobs)):
        if found and (found['layouts'] or found['width'] * found['height'] < 7):
            data['requests'].append(found)
        print(k, 'of', len(jobs), jobs[k], len(found['layouts']) if found else None, flush=True)
    data['requests'].sort(key=lambda r: (r['network'], r['width'] * r['height'], r['width'], r['options']))
    with open(name, 'w') as f:
        json.dump(data, f, indent=None, separators=(',', ':'))
    print(len(data['requests']), 'balancer requests', time.time() - start, flush=True)


def all_blocks(pool):
    start = time.time()
    jobs = []
    for (w, h) in [(1, 2), (2, 1), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (4, 3), (3, 4), (4, 4), (5, 2), (5, 3), (6, 2), (5, 4), (6, 3)]:
        for tile, fill, parallel, length in itertools.product(['', '--tile'], ['', '--allow-empty', '--single-loop'], ['', '--no-parallel'],
                                                              ['', '--underground-length 0', '--underground-length 1', '--underground-length 2']):
            jobs.append(((w, h), ' '.join(' '.join([tile, fill, parallel, length]).split())))
    blocks = [r for r in pool.imap_unordered(block, jobs) if r]
    blocks.sort(key=lambda r: (r['width'] * r['height'], r['width'], r['options']))
    with open(os.path.join(HERE, 'data', 'blocks.json'), 'w') as f:
        json.dump(blocks, f, indent=None, separators=(',', ':'))
    print(len(blocks), 'block requests', time.time() - start, flush=True)


def all_balancers(pool):
    start = time.time()
    balancers = []
    groups = [(n, s) for s in SIZES for n in NETWORKS]
    for k, found in enumerate(pool.imap_unordered(balancer_group, groups)):
        balancers += found
        print(k, 'of', len(groups), len(balancers), flush=True)
    balancers.sort(key=lambda r: (r['network'], r['width'] * r['height'], r['width'], r['options']))
    with open(os.path.join(HERE, 'data', 'balancers.json'), 'w') as f:
        json.dump({'networks': NETWORKS, 'requests': balancers}, f, indent=None, separators=(',', ':'))
    print(len(balancers), 'balancer requests', time.time() - start, flush=True)


if __name__ == '__main__':
    main()
