"""C04: query reports the optimum, and only what is known to be the optimum."""
import json
import os
import re

from sim import enumerate as en, judge, optimal, optprop
from sim.core import Violation
from props import c10

ID = 'C04'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 150000, 900
RULE = ('A run interleaves compute invocations (several underground lengths and objectives, some stopped part way) with queries in all output '
        'modes; every answer of query is compared with a reference search over the ground truth. Directory order, completion order and stop '
        'points are random. Non-trivial: a fault fired or at least two jobs were in flight; distinct by event log.')
REAL = optprop.REAL + ['factorio_sat.blueprint encoder']
STUB = optprop.STUB
ASSUMPTIONS = ['the ground truth is monotone and has a solution']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPTIMA, NETS = [], {}


def prepare():
    with open(os.path.join(HERE, 'data', 'optima.json')) as f:
        data = json.load(f)
    OPTIMA[:] = data['optima']
    NETS.update(data['networks'])
    optprop.prepare()


def order(name):
    m = re.match(r'(\d+)[x-](\d+)(.*)', name)
    return (int(m[1]), int(m[2]), m[3]) if m else (float('inf'), float('inf'), name)


def blueprint_of(name, grid, ul):
    """Label and entities that belong to a layout, with the belts that the underground length needs."""
    level = 'normal' if ul <= 4 else 'fast' if ul <= 6 else 'express'
    return c10.to_bp([[(c10.tile_from_json(cell['tile']), None) for cell in row] for row in grid], level, ' to '.join(name.split('x')))


def judge_query(world, s, ul, objective, complete, imperfect, blueprints):
    before = world.fs.get(s.db)
    argv = ['query', ul, objective]
    if imperfect:
        argv.append('--allow-imperfect')
    if blueprints:
        argv.append('--export-blueprints')
    result = s.tool(*argv)
    optprop.expect_ran(result, world, ' '.join(map(str, argv)))
    if world.fs.get(s.db) != before:
        raise Violation('query-changed-database', 'query modified the database')
    if s.requests:
        raise Violation('query-solves', 'query started a solver')
    world.count('queries')
    lines = result.lines
    position = 0
    printed = []
    for name in sorted(s.names, key=order):
        facts = s.known[name]
        usable = {size: grid for size, grid in facts.solutions.items() if size[0] <= ul}
        best = min((optimal.loss(objective, size) for size in usable), default=None)
        options = [grid for size, grid in usable.items() if optimal.loss(objective, size) == best]
        done, _ = optimal.finished(objective, s.height[name], s.splitters[name], ul, facts)
        line = lines[position] if position < len(lines) else None
        if blueprints:
            try:
                matches = line is not None and c10.entities(c10.unpack(line)) in [blueprint_of(name, grid, ul) for grid in options]
            except Exception as e:
                raise Violation('bad-blueprint', f'query printed no blueprint: {type(e).__name__} {e}')
        else:
            matches = line is not None and json.loads(line) in options
        if matches and (imperfect or done):
            position += 1
            printed.append(name)
            if not imperfect and not s.real:
                optimum = None
                for group in optimal.candidates(objective, s.height[name], s.splitters[name], ul):
                    if any(s.truth[name].exists(g) for g in group):
                        optimum = optimal.loss(objective, group[0])
                        break
                if best != optimum:
                    raise Violation('not-optimal', f'{name} {objective} ul={ul}: query reports loss {best}, the optimum is {optimum}')
            continue
        if matches:
            raise Violation('unproven', f'{name} {objective} ul={ul}: query reports a layout that is not known to be optimal')
        if options and (imperfect or name in complete):
            raise Violation('missing-answer', f'{name} {objective} ul={ul}: the best known layout (loss {best}) is not what query prints{" (--export-blueprints)" if blueprints else ""}: {None if line is None else line[:80]!r}')
    if position != len(lines):
        raise Violation('wrong-answer', f'{objective} ul={ul}: query printed {len(lines)} lines, {position} of them are expected; next: {lines[position][:120]!r}')
    return printed


def run(world):
    c = world.c
    if c.chance(5, 'real balancer'):
        return real_run(world, c)
    s = optprop.make(world)
    if s.blind:
        return blind_run(world, s)
    s.watch()
    complete = {}
    peak = [0]
    s.judge_submit.append(lambda name, size: peak.__setitem__(0, max(peak[0], len(s.requests) - len(s.delivered))))
    for i in range(1 + c.draw(4, 'steps')):
        ul, objective, extra = optprop.draw_args(c, s.real)
        stop = c.chance(3, 'stopped part way')
        result = s.tool('compute', ul, objective, *extra, hazard=c.pick([12, 40], 'density') if stop else 0, kinds=('kill', 'intr', 'worker-death') if stop else ())
        s.resync(result)
        if result.code == 0:
            complete[ul, objective] = True
        elif not stop:
            optprop.expect_ran(result, world, 'compute')
        q_ul, q_objective = (ul, objective) if c.draw(3, 'query what') < 2 else (c.pick([4, 6, 8, 3, 5, 20], 'ul'), c.pick(['area', 'length'], 'objective'))
        judge_query(world, s, q_ul, q_objective, s.names if (q_ul, q_objective) in complete else [], c.flag('imperfect'), c.flag('blueprints'))
    ul, objective, extra = optprop.draw_args(c, s.real)
    optprop.expect_ran(s.tool('compute', ul, objective, *extra), world, 'compute')
    s.adopt()
    printed = judge_query(world, s, ul, objective, s.names, False, c.flag('blueprints'))
    missing = [n for n in s.names if n not in printed]
    if missing:
        raise Violation('missing-answer', f'{objective} ul={ul}: nothing is reported for {missing} although compute ended normally')
    judge_query(world, s, ul, objective, s.names, True, False)
    if peak[0] > 1:
        world.count('nontrivial')


def blind_run(world, s):
    """Jobs cannot be attributed: only the end result is compared."""
    c = world.c
    ul, objective, extra = optprop.draw_args(c, True)
    optprop.expect_ran(s.tool('compute', ul, objective, *extra), world, 'compute')
    s.adopt()
    printed = judge_query(world, s, ul, objective, s.names, False, c.flag('blueprints'))
    if len(printed) != len(s.names):
        raise Violation('missing-answer', f'{objective} ul={ul}: only {printed} reported')


def real_run(world, c):
    """Real balancers: what is reported must be a layout of the network, and none better may be known (data/optima.json).
    Some of the sizes that are known to be impossible are in the database already, so that not all have to be asked for."""
    entry = OPTIMA[c.draw(len(OPTIMA), 'balancer')]
    name, ul, objective, optimum = entry['network'], entry['underground'], entry['objective'], tuple(entry['optimum'])
    network = en.read_network(NETS[name])
    s = optimal.Scenario(world, [name], texts=NETS)
    s.mode, s.real, s.initial_present = 'real', True, True
    exist = {k: False for k in entry['impossible'] if k in entry['slow'] or not c.chance(6, 'asked for')}
    data = {name: {'exist': exist, 'solutions': {}}} if exist or c.flag('empty entry') else {}
    world.fs.put(s.db, json.dumps(data))
    world.fs.sync_all()
    extra = ['--threads', 1 + c.draw(3, 'threads')] if c.flag('threads given') else []
    world.count('nontrivial')
    world.count('real balancers')
    what = f'{name} {objective} ul={ul}'
    optprop.expect_ran(s.tool('compute', ul, objective, *extra), world, f'compute {what}')
    s.adopt()
    for size, grid in s.known[name].solutions.items():
        try:
            judge.balancer(what, grid, size[1], size[2], ['--aligned', '--underground-length', str(size[0])], network, coloured=False)
        except Violation as v:
            raise Violation('wrong-layout', f'{v.message} (size {optimal.key(size)})')
    sizes = [size for size in s.known[name].solutions if size[0] <= ul]
    best = min((optimal.loss(objective, size) for size in sizes), default=None)
    if best is None or best > optimal.loss(objective, optimum):
        raise Violation('not-optimal', f'{what}: the best that is found is {best}, but there is a layout of size {optimal.key(optimum)}')
    if judge_query(world, s, ul, objective, [name], False, c.flag('blueprints')) != [name]:
        raise Violation('missing-answer', f'{what}: query reports nothing')
