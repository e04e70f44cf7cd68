"""C12: belt_balancer prints exactly the layouts of the network."""
import json
import os

from sim import enumerate as en, exact, instances, judge, partial, probe
from sim.core import Violation

ID = 'C12'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 70
THOROUGH_RUNS, THOROUGH_SECONDS = 40000, 900
RULE = ('A run asks belt_balancer for all layouts of a small request or for some of a larger one, with random options, network notation, partial layout, back end and order of models; solver failures, kills, Ctrl-C, input and output '
        'errors hit some of the runs. Small requests are compared with the set of all layouts by plain enumeration (data/balancers.json), larger ones with the rules of the game, the network and layouts that are known to exist '
        '(data/witnesses.json). Non-trivial: at least two layouts, or a fault; distinct by event log (contains every model).')
RUN_LIMIT, SLOW_OK = 20, True      # how long a solver takes is not judged
REAL = ['factorio_sat.belt_balancer (whole main)', 'factorio_sat.solver/template/optimisations/network/cardinality/util', 'factorio_sat.blueprint', 'factorio_sat.ipasir', 'SAT engine']
STUB = ['choice of the model at each step', 'the shared library (checks its caller)', 'files and output pipe (fault points)']
ASSUMPTIONS = ['undergrounds that pass only empty tiles count as left out on purpose', 'a splitter half beside an underground counts as not connected']

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NARROW = ['--fast', '--edge-splitters', '--edge-belts', '--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns', '--break-symmetry']
NETS, TABLE, WITNESSES, WITNESS_NETS = {}, [], [], {}
SMALL, PLAIN = [], []      # requests with a layout and without the options that leave layouts out


def prepare():
    with open(os.path.join(HERE, 'data', 'balancers.json')) as f:
        data = json.load(f)
    NETS.update(data['networks'])
    TABLE[:] = data['requests']
    with open(os.path.join(HERE, 'data', 'witnesses.json')) as f:
        data = json.load(f)
    WITNESS_NETS.update(data['networks'])
    WITNESSES[:] = [r for r in data['requests'] if r['module'] == 'belt_balancer']
    SMALL[:] = [r for r in TABLE if r['layouts'] and '--custom' not in r['options']]
    PLAIN[:] = [r for r in WITNESSES if not set(r['args'].split()) & set(NARROW)]
    from sim import loader
    loader.preload('factorio_sat.belt_balancer', 6)


def notation(c, text):
    """The same network written differently: (text, network)."""
    network = en.read_network(text)
    if not c.flag('other notation'):
        return text, network
    rng = c.subrng('notation')
    colours = sorted({v for pair in network for side in pair for v in side if v is not None})
    new = dict(zip(colours, rng.sample(range(len(colours) + 2), len(colours))))
    result = []
    for ins, outs in network:
        ins, outs = ([None if v is None else new[v] for v in side] for side in (ins, outs))
        if rng.random() < 0.5:
            ins.reverse()
        if rng.random() < 0.5:
            outs.reverse()
        result.append((tuple(ins), tuple(outs)))
    rng.shuffle(result)
    lines = []
    for ins, outs in result:
        if rng.random() < 0.2:
            lines.append(rng.choice(['', '# a comment', '   ']))
        lines.append(rng.choice([' ', '  ', '\t']).join(str(-1 if v is None else v) for v in ins + outs))
    return '\n'.join(lines) + rng.choice(['', '\n', '\n\n']), result


def run(world):
    c = world.c
    instances.setup(world)
    kind = c.pick(['small', 'small', 'small', 'partial', 'custom', 'large', 'probe', 'probe', 'narrow'], 'kind')
    if kind == 'large':
        return large(world, c)
    if kind == 'probe':
        return probed(world, c)
    table = SMALL if kind == 'narrow' else TABLE
    entry = table[c.draw(len(table), 'request')]
    w, h = entry['width'], entry['height']
    text, network = notation(c, NETS[entry['network']])
    options = entry['options'].split()
    if '--underground-length' not in options and c.chance(4, 'long'):
        options += ['--underground-length', str(c.pick([4, 5, 6, 9, 40, -1], 'length') if max(w, h) <= 6 else 4)]      # no difference in such a small area
    expected = {(w, h, code) for code in entry['layouts']}
    narrow = []
    if kind == 'narrow':
        narrow = [c.pick(NARROW[2:] + NARROW[-1:] * 4, 'option')]
    elif kind == 'small' and c.chance(4, 'narrow'):
        narrow = [o for o in c.shuffle(NARROW, 'options')[:c.between(1, 3, 'count')]]
    if narrow:
        if '--edge-belts' in narrow and '--edge-splitters' in narrow:
            narrow.remove('--edge-belts')
        if '--90' in options and '--break-symmetry' in narrow:
            narrow.remove('--break-symmetry')
    world.fs.put('net', text)
    if kind in ('partial', 'custom') and expected:
        rng = c.subrng('partial')
        if kind == 'custom' and ('--use-ends' not in options or '--90' in options):
            kind = 'partial'
        base = partial.decode(rng.choice(entry['layouts']), w)
        keep = partial.choose(c, rng, base)
        if kind == 'custom':
            # the inputs and outputs are given by hand; nothing else is required of the ends
            ends = {p: t for p, t in base.items() if t[0] == 'belt' and (p[0] == 0 and t[1] == 0 or p[0] == w - 1 and t[2] == 0)}
            if sum(p[0] == 0 and t[1] == 0 for p, t in ends.items()) < en.network_ends(network)[0][1]:
                return
            keep.update(ends)
            options = [o for o in options if o not in ('--use-ends', '--aligned')] + ['--custom']
        world.fs.put('part', partial.text(c, rng, keep, w, h))
        options += ['--partial', 'part']
        expected = {code for code in expected if partial.agrees(code, keep)}
    world.fs.sync_all()
    args = ' '.join(['net', str(w), str(h), *options, *narrow])
    every = not c.chance(6, 'single')
    a = exact.ask(world, 'belt_balancer', args, every, None, c.pick([0, 0, 0, 1, 2], 'faults'), impossible=not expected, feeds='--custom' in options)
    if len(expected) > 1 or a.disturbed:
        world.count('nontrivial')
    world.count('layouts', len(a.codes))
    exact.compare(a, expected, every, bool(narrow))
    if len(narrow) == 1 and not a.disturbed:
        narrowed(a, narrow[0], {code for _, _, code in expected}, w, h, options, every)
    for grid in a.grids[:10]:
        judge.balancer(a.what, grid, w, h, options, network)


def mirrored(tiles, h):
    """The layout upside down."""
    flip = {0: 0, 1: 3, 2: 2, 3: 1}
    result = set()
    for (x, y), tile in tiles.items():
        if tile[0] == 'splitter':
            tile = tile[0], flip[tile[1]], not tile[2]
        elif tile[0] != 'empty':
            tile = tile[0], *(flip[v] for v in tile[1:])
        result.add(((x, h - 1 - y), tile))
    return frozenset(result)


def narrowed(a, option, possible, w, h, options, every):
    """What may be missing on account of one option."""
    if not possible:
        return
    printed = {code for _, _, code in a.codes}
    if option == '--edge-belts':
        def side_by_side(code):
            tiles = partial.decode(code, w)
            return any(tiles.get((x, y)) == tiles.get((x, y + 1)) == ('belt', 0, 0) for x in (1, max(w - 2, 1)) for y in range(h - 1))
        possible = {code for code in possible if not side_by_side(code)}
        if every and printed != possible:
            raise Violation('incomplete', f'{a.what}: {len(possible - printed)} layouts without belts side by side at the ends are missing, {len(printed - possible)} have some')
    elif option == '--break-symmetry':
        if every:
            have = {frozenset(partial.decode(code, w).items()) for code in printed}
            for code in sorted(possible - printed):
                if mirrored(partial.decode(code, w), h) not in have:
                    raise Violation('incomplete', f'{a.what}: neither {exact.show((w, h, code))} nor its mirror image is printed')
    elif option not in ('--expand-underground', '--prevent-mergeable-underground') and (option != '--glue-splitters' or '--180' in options):
        return
    if possible and not printed:
        raise Violation('wrong-count', f'{a.what}: {len(possible)} layouts exist, none is printed')


def large(world, c):
    entry = WITNESSES[c.draw(len(WITNESSES), 'request')]
    words = entry['args'].split()
    w, h = int(words[1]), int(words[2])
    text, network = notation(c, WITNESS_NETS[words[0]])
    options = words[3:]
    world.fs.put('net', text)
    keep = {}
    if c.flag('partial'):
        rng = c.subrng('partial')
        keep = partial.choose(c, rng, partial.decode(rng.choice(entry['layouts']), w))
        world.fs.put('part', partial.text(c, rng, keep, w, h))
        options += ['--partial', 'part']
    world.fs.sync_all()
    several = c.chance(3, 'several')
    a = exact.ask(world, 'belt_balancer', ' '.join(['net', str(w), str(h), *options]), several, None, 1 if several else c.pick([0, 0, 0, 1, 2], 'faults'), exact.BACKENDS[:5], limit=12)
    world.count('nontrivial')
    world.count('layouts', len(a.codes))
    if not a.disturbed and not a.codes:
        raise Violation('incomplete', f'{a.what}: no layout was printed, for example {entry["layouts"][0]} exists')
    for grid, code in zip(a.grids, a.codes):
        judge.balancer(a.what, grid, w, h, options, network)
        if not partial.agrees(code, keep):
            raise Violation('partial', f'{a.what}: the layout {exact.show(code)} does not contain the given tiles')


def probed(world, c):
    """A layout that is stretched, and maybe spoiled, is given as partial layout: it is completed only if that is right."""
    rng = c.subrng('probe')
    if c.flag('from a small one'):
        entry = SMALL[c.draw(len(SMALL), 'request')]
        name, w, h = entry['network'], entry['width'], entry['height']
        text, options, codes = NETS[name], entry['options'].split(), entry['layouts']
    else:
        entry = PLAIN[c.draw(len(PLAIN), 'request')]
        words = entry['args'].split()
        text, w, h, options, codes = WITNESS_NETS[words[0]], int(words[1]), int(words[2]), words[3:], entry['layouts']
    text, network = notation(c, text)
    goal = c.pick(['stretch', 'stretch', 'spoil', 'dig'], 'goal')
    tiles, w, h = probe.make(rng, partial.decode(rng.choice(codes), w), w, h, goal)
    if '--underground-length' in options:
        k = options.index('--underground-length')
        del options[k:k + 2]
    length = probe.longest(tiles) + c.pick([0, 0, -1, 1], 'length')
    if length > 0 and length != 4:
        options += ['--underground-length', str(length if length < max(w, h) - 2 or c.flag('limit') else -1)]
    args = ' '.join(['net', str(w), str(h), *options])
    right = judge.valid(tiles, w, h, 'belt_balancer', args, {'net': network})
    share = rng.choice([1, 1, 1, 0.9, 0.6])
    keep = partial.choose(c, rng, tiles, share, rng.choice([1, 1, 0.5, 0]))
    world.fs.put('net', text)
    world.fs.put('part', partial.text(c, rng, keep, w, h))
    world.fs.sync_all()
    several = c.chance(6, 'several')
    a = exact.ask(world, 'belt_balancer', args + ' --partial part', several, None, c.pick([0, 0, 0, 1, 2], 'faults'), exact.BACKENDS[:5], limit=12, impossible=not right)
    world.count('nontrivial')
    world.count('right' if right else 'spoiled')
    world.count('layouts', len(a.codes))
    if right and not a.disturbed and not a.codes:
        raise Violation('incomplete', f'{a.what}: no layout was printed, for example {exact.show((w, h, en.code(tiles, w, h)))} exists')
    for grid, code in zip(a.grids, a.codes):
        judge.balancer(a.what, grid, w, h, options, network)
        if not partial.agrees(code, keep):
            raise Violation('partial', f'{a.what}: the layout {exact.show(code)} does not contain the given tiles')
