"""C15: make_block prints exactly the belt blocks that the options describe."""
import json
import os

from sim import enumerate as en, exact, instances, layout
from sim.core import Violation

ID = 'C15'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 6000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 40000, 900
RULE = ('A run asks make_block for all blocks of a small size, or for one of a larger size, with random options, back end, order of models and output target; solver failures, kills, Ctrl-C and output errors hit some of the runs. '
        'Small requests are compared with the set of all blocks by plain enumeration (data/blocks.json), larger ones with the rules of the game. Non-trivial: at least two blocks or a fault; distinct by event log (contains every model).')
REAL = ['factorio_sat.make_block (whole main)', 'factorio_sat.solver/template/optimisations/util', 'factorio_sat.ipasir', 'SAT engine']
STUB = ['choice of the model at each step', 'the shared library (checks its caller)', 'output file and pipe (fault points)']
ASSUMPTIONS = ['2x2 rings within the block and undergrounds that pass only empty tiles count as left out on purpose']

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LARGE = [(6, 4), (4, 6), (6, 6), (8, 4), (7, 6), (8, 8), (5, 4), (10, 4)]
TABLE = []


def prepare():
    with open(os.path.join(HERE, 'data', 'blocks.json')) as f:
        TABLE[:] = json.load(f)
    from sim import loader
    loader.preload('factorio_sat.make_block', 8)


def shuffled(c, options):
    """The same options in another order, numbers written next to theirs."""
    words = options.split()
    groups = []
    while words:
        groups.append([words.pop(0)] + ([words.pop(0)] if words and not words[0].startswith('--') else []))
    return [w for g in c.shuffle(groups, 'order of options') for w in g]


def run(world):
    c = world.c
    instances.setup(world)
    if c.chance(6, 'large'):
        return large(world, c)
    entry = TABLE[c.draw(len(TABLE), 'request')]
    w, h = entry['width'], entry['height']
    options = entry['options']
    if '--underground-length' not in options and '--tile' not in options and c.chance(4, 'long'):
        options += ' --underground-length ' + str(c.pick([4, 5, 6, 9, 40], 'length'))       # no difference in such a small block
    if c.chance(5, 'label'):
        options += ' --label x'
    args = ' '.join([str(w), str(h), *shuffled(c, options)])
    expected = {(w, h, code) for code in entry['layouts']}
    target = 'out.json' if c.chance(4, 'output file') else None
    every = not c.chance(6, 'single')
    faults = c.pick([0, 0, 0, 1, 2], 'faults')
    a = exact.ask(world, 'make_block', args, every, target, faults)
    if len(expected) > 1 or a.disturbed:
        world.count('nontrivial')
    world.count('layouts', len(a.codes))
    exact.compare(a, expected, every)
    for grid in a.grids[:20]:
        judge(a.what, grid, options.split(), 4)


def judge(what, grid, words, length):
    if '--underground-length' in words:
        length = int(words[words.index('--underground-length') + 1])
    try:
        lay = layout.Layout(grid, wrap='--tile' in words, underground=length)
    except layout.Bad as e:
        raise Violation('unsound', f'{what}: {e}')
    problem = None
    if lay.inputs or lay.outputs:
        problem = 'belts lead out of the block'
    elif any(t[0] == 'splitter' for t in lay.tiles.values()):
        problem = 'a splitter'
    elif '--allow-empty' not in words and ('empty',) in lay.tiles.values():
        problem = 'an empty tile'
    elif '--single-loop' in words and len(lay.loops) != 1:
        problem = f'{len(lay.loops)} loops'
    elif '--no-parallel' in words and en.parallel_tunnels(lay):
        problem = 'parallel undergrounds'
    elif en.small_ring(lay) or en.empty_tunnel(lay):
        problem = 'a useless ring or underground'
    if problem:
        raise Violation('unsound', f'{what}: {problem}')


def large(world, c):
    w, h = c.pick(LARGE, 'size')
    options = [o for o in ('--tile', '--no-parallel') if c.flag(o)]
    fill = c.pick(['', '--allow-empty', '--single-loop'], 'fill') if w * h <= 36 else c.pick(['', '--allow-empty'], 'fill')
    if fill:
        options.append(fill)
    if c.flag('length'):
        options += ['--underground-length', str(c.pick([4, 1, 2, 3, 0, 6], 'length'))]
    a = exact.ask(world, 'make_block', ' '.join([str(w), str(h), *options]), every=False, faults=c.pick([0, 0, 0, 0, 1, 2], 'faults'), backends=exact.BACKENDS[:5])
    world.count('nontrivial')
    if not a.disturbed and len(a.grids) != 1:
        raise Violation('wrong-count', f'{a.what}: printed {len(a.grids)} layouts, several exist')
    for grid in a.grids:
        if (len(grid[0]), len(grid)) != (w, h):
            raise Violation('unsound', f'{a.what}: the block is {len(grid[0])}x{len(grid)}')
        judge(a.what, grid, options, 4)
