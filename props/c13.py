"""C13: balancers that are found without a network balance."""
import json
import os

from sim import exact, instances, judge, partial, probe
from sim.core import Violation

ID = 'C13'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 70
THOROUGH_RUNS, THOROUGH_SECONDS = 30000, 900
MODULES = ['belt_balancer_net_free', 'belt_balancer_net_free_power_of_2']
RULE = ('A run asks belt_balancer_net_free or belt_balancer_net_free_power_of_2 for one, several or all layouts with random options, partial layout, back end and order of models; solver failures, kills, Ctrl-C, input and output '
        'errors hit some of the runs. Every printed layout is simulated tile by tile: the share of every input in every output is computed exactly. Layouts that are known to exist (data/witnesses.json) have to be found. '
        'Non-trivial: at least one layout, or a fault; distinct by event log (contains every model).')
RUN_LIMIT, SLOW_OK = 20, True      # how long a solver takes is not judged
REAL = ['factorio_sat.belt_balancer_net_free', 'factorio_sat.belt_balancer_net_free_power_of_2', 'factorio_sat.solver/template/optimisations/cardinality/util', 'factorio_sat.blueprint', 'factorio_sat.ipasir', 'SAT engine']
STUB = ['choice of the model at each step', 'the shared library (checks its caller)', 'files and output pipe (fault points)']
ASSUMPTIONS = ['shares are those of the steady state in which no belt is full', 'with different numbers of inputs and outputs the tool itself warns that results may not balance: only the form is judged',
               'power of 2: together with the first and last row of splitters, which the tool leaves out']

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = []


def prepare():
    load(MODULES)


def load(modules):
    with open(os.path.join(HERE, 'data', 'witnesses.json')) as f:
        TABLE[:] = [r for r in json.load(f)['requests'] if r['module'] in modules]
    from sim import loader
    for module in modules:
        loader.preload('factorio_sat.' + module, 4)


def run(world, table=TABLE):
    c = world.c
    instances.setup(world)
    entry = table[c.draw(len(table), 'request')]
    module, args = entry['module'], entry['args']
    if entry['seconds'] > 2 and not c.chance(3, 'slow'):
        quick = [r for r in table if r['seconds'] <= 2]
        entry = quick[c.draw(len(quick), 'quick')]
        module, args = entry['module'], entry['args']
    words = args.split()
    width = int(words[0])
    height = int(words[1])
    if c.chance(4, 'probe'):
        return probed(world, c, entry, words)
    keep = {}
    if c.flag('partial'):
        rng = c.subrng('partial')
        whole = (1, 1) if rng.random() < 0.4 else (None, None)
        keep = partial.choose(c, rng, partial.decode(rng.choice(entry['layouts']), width), *whole)
        world.fs.put('part', partial.text(c, rng, keep, width, height))
        world.fs.sync_all()
        args += ' --partial part'
    several = module != 'belt_balancer_net_free_power_of_2' and c.chance(3, 'several')
    limit = c.pick([12, 40, 100], 'limit') if several else None
    a = exact.ask(world, module, args, several, None, c.pick([0, 0, 0, 0, 1, 2], 'faults'), exact.BACKENDS[:5], limit=limit)
    if a.codes or a.disturbed:
        world.count('nontrivial')
    world.count('layouts', len(a.codes))
    known = {(width, height, code) for code in entry['layouts']}
    known = {code for code in known if partial.agrees(code, keep)}
    if not a.disturbed:
        if not a.codes:
            raise Violation('incomplete', f'{a.what}: no layout was printed, for example {exact.show(min(known))} exists')
        if several and known - set(a.codes):
            raise Violation('incomplete', f'{a.what}: {exact.show(min(known - set(a.codes)))} was not printed')
        if not several and len(a.codes) != 1:
            raise Violation('wrong-count', f'{a.what}: {len(a.codes)} layouts were printed')
    for grid, code in zip(a.grids, a.codes):
        judge.any_tool(a.what, module, entry['args'], grid, {})
        if not partial.agrees(code, keep):
            raise Violation('partial', f'{a.what}: the layout {exact.show(code)} does not contain the given tiles')


def probed(world, c, entry, words):
    """A layout that is stretched, and maybe spoiled, is given as partial layout: what is printed has to be right."""
    rng = c.subrng('probe')
    width, height = int(words[0]), int(words[1])
    tiles, width, height = probe.make(rng, partial.decode(rng.choice(entry['layouts']), width), width, height, c.pick(['stretch', 'spoil', 'dig'], 'goal'),
                                       entry['module'] == 'belt_balancer_net_free')
    options = words[2:]
    if '--underground-length' in options:
        k = options.index('--underground-length')
        del options[k:k + 2]
    length = probe.longest(tiles) + c.pick([0, 0, -1, 1], 'length')
    if length > 0 and length != 4:
        options += ['--underground-length', str(length)]
    args = ' '.join([str(width), str(height), *options])
    keep = partial.choose(c, rng, tiles, rng.choice([1, 1, 1, 0.9]), rng.choice([1, 1, 0.5]))
    world.fs.put('part', partial.text(c, rng, keep, width, height))
    world.fs.sync_all()
    a = exact.ask(world, entry['module'], args + ' --partial part', False, None, c.pick([0, 0, 0, 1, 2], 'faults'), exact.BACKENDS[:5], impossible=True)
    world.count('nontrivial')
    world.count('right' if judge.valid(tiles, width, height, entry['module'], args, {}) else 'spoiled')
    world.count('layouts', len(a.codes))
    for grid, code in zip(a.grids, a.codes):
        judge.any_tool(a.what, entry['module'], args, grid, {})
        if not partial.agrees(code, keep):
            raise Violation('partial', f'{a.what}: the layout {exact.show(code)} does not contain the given tiles')
