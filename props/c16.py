"""C16: the network tool writes networks that mean what they should."""
import io
import json
import os
import zlib

from sim import enumerate as en, layout, loader, partial, proc, fs as simfs
from sim.core import Violation
from . import c10, c12

ID = 'C16'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 30000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 100000, 900
RULE = ('A run creates a network, turns one around, or reads one back from a layout that arrives on standard input in random pieces, through real files; kills, Ctrl-C, failing reads, full disks and cut input hit some of the runs. '
        'Created networks are wired at random and simulated exactly; turned ones are compared node by node and turned back; read ones have to be implemented by the layout. Non-trivial: a fault, or a network of at least two splitters; distinct by event log.')
REAL = ['factorio_sat.network (create, flip, parse)', 'factorio_sat.blueprint/tile']
STUB = ['files and standard input (pieces, ends, errors)', 'process death']
ASSUMPTIONS = ['belts of one colour are interchangeable, as in the networks that come with the repository', 'layouts whose inputs are splitters at the border are read with --assume-valid-output only']

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIME = (1 << 61) - 1
NETS, LAYOUTS = [], []
OPS = ['rot_0', 'rot_90', 'rot_180', 'rot_270', 'flip_x', 'flip_y']


def prepare():
    with open(os.path.join(HERE, 'data', 'balancers.json')) as f:
        data = json.load(f)
    NETS[:] = list(data['networks'].values())
    LAYOUTS[:] = [r for r in data['requests'] if r['layouts'] and '--custom' not in r['options']]      # (there inputs may go straight into splitters)
    with open(os.path.join(HERE, 'data', 'witnesses.json')) as f:
        data = json.load(f)
    NETS.extend(data['networks'].values())
    for r in data['requests']:
        words = r['args'].split()
        if r['module'] == 'belt_balancer':
            LAYOUTS.append({'width': int(words[1]), 'height': int(words[2]), 'layouts': r['layouts']})
        elif r['module'] == 'belt_balancer_net_free':
            LAYOUTS.append({'width': int(words[0]), 'height': int(words[1]), 'layouts': r['layouts']})
    loader.preload('factorio_sat.network', 4)


def run(world):
    c = world.c
    world.fs = simfs.SimFS(world, world.root)
    kind = c.pick(['parse', 'create', 'flip', 'parse'], 'kind')
    hazard, kinds, line = 0, (), None
    if c.chance(4, 'faults'):
        if c.flag('interrupt'):
            line = 1 + c.draw(2000, 'line')
        else:
            hazard, kinds = c.pick([1, 2, 4], 'density'), ('kill', 'intr', 'enospc', 'eio', 'edquot')
    env = dict(hazard=hazard, kinds=kinds, interrupt_line=line)
    return {'parse': parse, 'create': create, 'flip': flip}[kind](world, c, env)


def outcome(world, result, what, path='out', bad_input=False):
    """The written network, or None if the tool had a reason to fail."""
    if result.faulted or result.interrupted or result.killed or bad_input:
        world.count('nontrivial')
        if result.code != 0:
            return None
        if bad_input:
            raise Violation('failure-hidden', f'{what} ended normally although its input was incomplete')
        if not result.interrupted and any(op not in ('rename', 'meta', 'unlink') for _, op in result.faulted):   # those may have been made up for
            raise Violation('failure-hidden', f'{what} ended normally although it was disturbed')
    elif result.code != 0:
        raise Violation('tool-failed', f'{what} failed: {result.err.strip().splitlines()[-1:]}')
    data = world.fs.get(path)
    try:
        return en.read_network(data.decode())
    except Exception as e:
        raise Violation('bad-output', f'{what} wrote something unreadable: {type(e).__name__}: {e}')


def wire(network, rng):
    """Belts at random between the splitters, inputs and outputs."""
    (c_in, n_in), (c_out, n_out) = en.network_ends(network)
    source, sink = {c_in: [('in', k) for k in range(n_in)]}, {c_out: [('out', k) for k in range(n_out)]}
    for j, (ins, outs) in enumerate(network):
        for v in ins:
            if v is not None:
                sink.setdefault(v, []).append(('node', j))
        for v in outs:
            if v is not None:
                source.setdefault(v, []).append(('node', j))
    belts = []
    for colour in sorted(source):
        ends = sink.get(colour, [])
        rng.shuffle(ends)
        if len(ends) != len(source[colour]):
            return None
        belts += zip(source[colour], ends)
    return belts, n_in, n_out


def uniform(belts, n_in, n_out):
    """Does every output get an equal part of every input?  Exact, in arithmetic modulo a large prime."""
    n = len(belts)
    outs = {}
    into = {}
    for i, (a, b) in enumerate(belts):
        outs.setdefault(a, []).append(i)
        into.setdefault(b, []).append(i)
    rows = []
    for i, (a, b) in enumerate(belts):
        row = [0] * (n + n_in)
        row[i] = 1
        if a[0] == 'in':
            row[n + a[1]] = 1
        else:
            part = pow(len(outs[a]), -1, PRIME)
            for j in into.get(a, []):
                row[j] = (row[j] - part) % PRIME
        rows.append(row)
    for col in range(n):
        pivot = next((r for r in range(col, n) if rows[r][col]), None)
        if pivot is None:
            return False
        rows[col], rows[pivot] = rows[pivot], rows[col]
        inverse = pow(rows[col][col], -1, PRIME)
        base = rows[col] = [v * inverse % PRIME for v in rows[col]]
        for r in range(n):
            if r != col and rows[r][col]:
                factor = rows[r][col]
                rows[r] = [(x - factor * y) % PRIME if y else x for x, y in zip(rows[r], base)]
    share = pow(n_out, -1, PRIME)
    return all(v == share for i, (a, b) in enumerate(belts) if b[0] == 'out' for v in rows[i][n:])


def create(world, c, env):
    size = c.between(2, 20, 'size')
    what = f'network create {size}'
    world.log(what)
    result = proc.run(world, 'factorio_sat.network', ['create', 'out', str(size)], **env)
    network = outcome(world, result, what)
    if network is None:
        return
    if len(network) > 1:
        world.count('nontrivial')
    try:
        (_, n_in), (_, n_out) = en.network_ends(network)
    except ValueError:
        raise Violation('wrong-network', f'{what}: the network has no inputs or outputs of one colour')
    if (n_in, n_out) != (size, size):
        raise Violation('wrong-network', f'{what}: {n_in} inputs and {n_out} outputs')
    wired = wire(network, c.subrng('wiring'))
    if wired is None:
        raise Violation('wrong-network', f'{what}: belts without an end')
    if not uniform(*wired):
        raise Violation('wrong-network', f'{what}: the network does not balance')


def key(network):
    def side(s):
        return tuple(sorted(s, key=lambda v: -1 if v is None else v))
    return sorted(((side(a), side(b)) for a, b in network), key=repr)


def flip(world, c, env):
    text, network = c12.notation(c, c.pick(NETS, 'network'))
    world.log('flip', json.dumps(text))
    world.fs.put('in', text)
    world.fs.sync_all()
    result = proc.run(world, 'factorio_sat.network', ['flip', 'in', 'out'], **env)
    got = outcome(world, result, 'network flip')
    if got is None:
        return
    if len(network) > 1:
        world.count('nontrivial')
    if key(got) != key([(b, a) for a, b in network]):
        raise Violation('wrong-network', f'network flip made {got} of {network}')
    if world.fs.get('in') != text.encode():
        raise Violation('input-changed', 'network flip changed its input')
    result = proc.run(world, 'factorio_sat.network', ['flip', 'out', 'again'])
    if key(outcome(world, result, 'network flip', 'again')) != key(network):
        raise Violation('wrong-network', f'network flip twice does not give {network}')


def parse(world, c, env):
    entry = LAYOUTS[c.draw(len(LAYOUTS), 'request')]
    w, h = entry['width'], entry['height']
    tiles = partial.decode(c.pick(entry['layouts'], 'layout'), w)
    border = any(t[0] == 'splitter' and (x - en.VEC[t[1]][0] < 0) for (x, y), t in tiles.items())
    rows = c10.transform([[(tiles[x, y], None) for x in range(w)] for y in range(h)], c.pick(OPS, 'turn'))
    w, h = len(rows[0]), len(rows)
    tiles = {(x, y): t for y, row in enumerate(rows) for x, (t, _) in enumerate(row)}
    outside = {(x, y) for (x, y), t in tiles.items() if t[0] == 'splitter' and not (0 <= x - en.VEC[t[1]][0] < w and 0 <= y - en.VEC[t[1]][1] < h)}
    try:
        lay = layout.Layout.of(tiles, w, h, inputs=outside)
    except layout.Bad:
        return
    args = ['parse', 'out']
    if border or c.chance(3, 'assume'):
        args.insert(c.draw(2, 'order') + 1, '--assume-valid-output')
    data = json.dumps([[{'tile': t} for t in row] for row in en.to_json(tiles, w, h)]).encode() + b'\n'
    cut = False
    if c.chance(8, 'cut'):
        data, cut = data[:c.draw(len(data) - 1, 'cut at')], True
        world.fault('input-cut')
        cut = data.strip() != b'' or True
        if data.endswith(b']]'):
            cut = False
    world.log('parse', zlib.crc32(data), len(data))
    stdin = io.TextIOWrapper(io.BufferedReader(c10.Pieces(data, c.subrng('pieces'), False)), encoding='utf-8')
    what = f'network {" ".join(args)}'
    result = proc.run(world, 'factorio_sat.network', args, stdin=stdin, **env)
    network = outcome(world, result, what, bad_input=cut)
    if network is None:
        return
    if len(network) > 1:
        world.count('nontrivial')
    try:
        good = en.implements(lay, network)
    except ValueError:
        good = False
    if not good:
        raise Violation('wrong-network', f'{what} read {network} from {exact_show(tiles, w, h)}')


def exact_show(tiles, w, h):
    return '/'.join(en.code(tiles, w, h)[y * w:(y + 1) * w] for y in range(h))
