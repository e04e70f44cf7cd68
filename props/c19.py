"""C19: network render draws the network that it is given and touches nothing else."""
import collections
import json
import os

from sim import dot, enumerate as en, loader, proc, fs as simfs
from sim.core import Violation
from . import c12

ID = 'C19'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 12000, 50
THOROUGH_RUNS, THOROUGH_SECONDS = 100000, 600
RULE = ('A run draws a network of the repository, or a random one with recirculation, doubled and joined belts, in any notation, to a picture beside other files, with a simulated layout command that reads the source it is given; the command may be missing, '
        'fail, be killed or stop half way, the network may be malformed, file operations fail, the process may be killed or interrupted. The drawing is read back and compared with the network. Non-trivial: a fault, or a network of at least two splitters; '
        'distinct by event log.')
REAL = ['factorio_sat.network (render)', 'graphviz (the Python package)']
STUB = ['graphviz layout command and picture viewer (what they are given is kept instead of pixels)', 'files', 'process death']
ASSUMPTIONS = ['laying out and painting is the business of graphviz: a drawing is right if its nodes, edges and labels are']

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NETS = []


def prepare():
    dot.install()
    for name in ('balancers.json', 'witnesses.json'):
        with open(os.path.join(HERE, 'data', name)) as f:
            NETS.extend(json.load(f)['networks'].values())
    loader.preload('factorio_sat.network', 1)


def random_network(c):
    """Any way of joining splitters: one colour comes in, one goes out, the others are joined at random."""
    rng = c.subrng('network')
    n = 1 + c.draw(6, 'splitters')
    slots = [[(i, j, k) for i in range(n) for k in range(2)] for j in range(2)]
    for side in slots:
        rng.shuffle(side)
        unused = c.draw(n, 'unused')
        seen = set()
        for i, j, k in list(side):
            if unused and i not in seen:
                seen.add(i)
                side.remove((i, j, k))
                unused -= 1
    ins, outs = slots
    joined = rng.randint(0, min(len(ins), len(outs)) - 1)
    colours = rng.sample(range(30), joined + 2)
    into, out_of = colours[0], colours[1]
    middle = colours[2:2 + 1 + rng.randrange(joined)] if joined else []
    if rng.random() < 0.3:
        middle = middle + colours[:2]
    value = {}
    for a, b in zip(ins[:joined], outs[:joined]):
        value[a] = value[b] = rng.choice(middle)
    for a in ins[joined:]:
        value[a] = into
    for b in outs[joined:]:
        value[b] = out_of
    network = [tuple(tuple(value.get((i, j, k)) for k in range(2)) for j in range(2)) for i in range(n)]
    return ''.join(' '.join(str(-1 if v is None else v) for side in node for v in side) + '\n' for node in network)


def judge(graph, network, what):
    """Every splitter with its belts, the input and the output."""
    kinds = {}
    for name, attributes in graph.nodes.items():
        label = attributes.get('label', '\\N')
        label = name if label in ('\\N', 'N') else label
        if attributes.get('style') == 'invis':
            kinds[name] = 'end', None
        elif label.strip() == '':
            kinds[name] = 'splitter', None
        else:
            kinds[name] = 'belts', label.strip()
    sides = {name: (collections.Counter(), collections.Counter()) for name, kind in kinds.items() if kind[0] == 'splitter'}
    ends = [], []
    for a, b, attributes in graph.edges:
        label = attributes.get('label', '').strip() or kinds[a][1] or kinds[b][1]
        if a in sides:
            sides[a][1][label] += 1
        if b in sides:
            sides[b][0][label] += 1
        if kinds[a][0] == 'end':
            ends[0].append(label)
        if kinds[b][0] == 'end':
            ends[1].append(label)

    def show(counter):
        return ' '.join(sorted(str(v) for v in counter.elements()))
    drawn = sorted((show(a), show(b)) for a, b in sides.values())
    expected = sorted((show(collections.Counter(v for v in ins if v is not None)), show(collections.Counter(v for v in outs if v is not None))) for ins, outs in network)
    if drawn != expected:
        raise Violation('wrong-drawing', f'{what} draws the splitters {drawn}, the network has {expected}')
    (c_in, _), (c_out, _) = en.network_ends(network)
    if ends != ([str(c_in)], [str(c_out)]):
        raise Violation('wrong-drawing', f'{what} draws inputs at {ends[0]} and outputs at {ends[1]} instead of {c_in} and {c_out}')
    for name, (kind, label) in kinds.items():
        if kind == 'belts' and not any(name in (a, b) and (a in sides or b in sides) for a, b, _ in graph.edges):
            raise Violation('wrong-drawing', f'{what} draws {label}, which no splitter is connected to')


def run(world):
    c = world.c
    world.fs = fs = simfs.SimFS(world, world.root)
    kind = c.pick(['none', 'none', 'none', 'files', 'command', 'line', 'input'], 'fault')
    world.easel = easel = dot.Easel(world, c.pick(['missing', 'fails', 'killed', 'disk full', 'half', 'forbidden'], 'command fault') if kind == 'command' else None)
    text = random_network(c) if c.flag('random') else c.pick(NETS, 'network')
    text, network = c12.notation(c, text)
    bad = False
    if kind == 'input':
        lines = text.splitlines() or ['']
        real = [i for i, line in enumerate(lines) if line.strip() and not line.strip().startswith('#')]
        i = real[c.draw(len(real), 'bad line')]
        lines[i] = c.pick([' '.join(lines[i].split()[:-1]), lines[i] + ' 7', 'x ' + lines[i], lines[i].replace(lines[i].split()[0], '?', 1)], 'damage')
        text, bad = '\n'.join(lines) + '\n', True
        world.fault('bad-network')
    source = c.pick(['4x4', 'net', 'my.net', 'networks/3x3', 'Net'], 'name')
    view = c.chance(6, 'view')
    form = c.pick(['png', 'svg', 'pdf'], 'format')
    stem = c.pick([source, 'picture', 'out/a', source + '.x'], 'stem')
    out = 'Network.png' if view else f'{stem}.{form}'
    engine = c.pick([None, None, 'dot', 'neato', 'circo'], 'engine')
    fs.put(source, text)
    others = {source: text.encode()}
    for name in ('picture', 'picture.gv', 'out/a', 'notes', source + '.gv'):
        if name != source and c.chance(3, 'bystander'):
            others[name] = f'the file {name}\n'.encode() * 3
            fs.put(name, others[name])
    os.makedirs(fs.path('out'), exist_ok=True)
    if c.chance(3, 'old picture'):
        fs.put(out, b'old picture' * 500)
    fs.sync_all()
    args = ['render', source] + ([] if view else [out])
    if engine:
        args = args[:1] + ['--engine', engine] + args[1:] if c.flag('order') else args + ['--engine', engine]
    what = 'network ' + ' '.join(args)
    world.log(what, json.dumps(text))
    env = {}
    if kind == 'files':
        env = dict(hazard=c.pick([1, 2, 4], 'density'), kinds=('kill', 'intr', 'enospc', 'eio', 'edquot', 'eacces', 'emfile', 'tear', 'eio-r', 'eacces-r', 'short', 'short-r'))
    elif kind == 'line':
        env = dict(interrupt_line=1 + c.draw(4000, 'line'))
    if len(network) > 1 or kind != 'none':
        world.count('nontrivial')
    result = proc.run(world, 'factorio_sat.network', args, **env)
    for name, data in others.items():
        if fs.get(name) != data:
            raise Violation('file-lost', f'{what} ' + ('removed' if fs.get(name) is None else 'changed') + f' {name}')
    failed = [k for k, _ in result.faulted if not k.startswith('short')]
    if bad or easel.faulted:
        if result.code == 0:
            raise Violation('failure-hidden', f'{what} ended normally although ' + ('its network is malformed' if bad else 'it was disturbed'))
        return
    if result.code != 0:
        if not (result.interrupted or result.killed or failed):
            raise Violation('tool-failed', f'{what} failed: {result.err.strip().splitlines()[-1:]}')
        return
    new = sorted(set(fs.files()) - set(others) - {out})
    if new and not failed:
        raise Violation('left-over', f'{what} left {new} behind')
    entry = easel.pictures.get(fs.get(out))
    if entry is None:
        raise Violation('no-picture', f'{what} ended normally, but {out} is not the picture')
    graph, got = entry
    if got != (form if not view else 'png'):
        raise Violation('wrong-format', f'{what} wrote a {got} picture')
    if graph.engine != (engine or 'dot'):
        raise Violation('wrong-engine', f'{what} used {graph.engine}')
    if view and easel.viewed != [fs.path(out)]:
        raise Violation('not-shown', f'{what} showed {easel.viewed}')
    judge(graph, network, what)
