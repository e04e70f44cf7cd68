"""C09: --all prints every layout exactly once, whatever models the solver picks."""
import json
import os
from sim import instances, solvers
from sim.core import Violation

ID = 'C09'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 2500, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 60000, 900
RULE = ('A run asks a layout tool for all layouts twice, through two back ends that return models in independently random order, and once for a single layout; random models of the same problem are then turned into layouts '
        'and looked up. Solver failures, Ctrl-C, kills, closed output and output file errors hit one of the enumerations. Non-trivial: at least two layouts or a fault; distinct by event log (contains every model).')
REAL = ['the layout tools (whole main)', 'factorio_sat.solver/template enumeration', 'factorio_sat.ipasir', 'SAT engine']
STUB = ['choice of the model at each step', 'the shared library (checks its caller)', 'file system and output pipe (fault points)']
ASSUMPTIONS = ['a layout is identified by its tiles']
BACKENDS = ['g3', 'lib:./libsim.so', 'm22', 'g4', 'Glucose3', 'cd15']


def prepare():
    instances.prepare(8)


def layouts(text, what, complete=True):
    """Tiles of each printed layout; a last line that was cut off is ignored unless `complete`."""
    lines = text.split('\n')
    if lines[-1]:
        if complete:
            raise Violation('torn-output', f'{what}: the last line is incomplete')
    result = []
    for line in lines[:-1]:
        try:
            grid = json.loads(line)
            result.append(json.dumps([[cell['tile'] for cell in row] for row in grid]))
        except (ValueError, TypeError, KeyError) as e:
            raise Violation('bad-output', f'{what}: unreadable output line {line[:80]!r}: {e}')
    if len(set(result)) != len(result):
        raise Violation('repeated', f'{what}: a layout is printed twice')
    return result


def run(world):
    c = world.c
    instances.setup(world)
    module, args = c.pick(instances.SMALL, 'request')
    backend = c.pick(BACKENDS, 'back end')
    what = f'{module} {args} --all --solver {backend}'
    target = 'out.json' if module == 'make_block' and c.chance(3, 'output file') else None
    extra = ['--all'] + (['--output', target] if target else [])

    world.hub = hub = solvers.Hub(world)
    result = instances.ask(world, module, args, backend, *extra)
    instances.expect_ok(result, what)
    world.hub = None
    text = result.out
    if target:
        text = (world.fs.get(target) or b'').decode()
        if result.out:
            raise Violation('output-file', f'{what}: output appears although an output file was given')
    first = layouts(text, what)
    if hub.answers and hub.answers[-1][1] is not False:
        raise Violation('stopped-early', f'{what}: ended normally although the solver has not said that there are no more layouts')
    if len(first) > 1:
        world.count('nontrivial')
    world.count('layouts', len(first))

    if target:
        os.remove(world.fs.path(target))
        world.fs.sync_all()
    # again, in another order, possibly disturbed
    backend2 = c.pick(BACKENDS, 'second back end')
    world.hub = hub2 = solvers.Hub(world)
    hazard, kinds = 0, ()
    mode = c.draw(3, 'faults')
    if mode == 1:
        hub2.hazard, hub2.kinds, hub2.faults_left = max(1, c.draw(2 + min(len(first), 20), 'density')), ('terminated', 'unknown-code', 'error', 'memory', 'intr'), 1
    elif mode == 2:
        hazard, kinds = c.pick([2, 5], 'density'), ('kill', 'intr', 'epipe', 'enospc', 'eio', 'edquot', 'tear')
    result = instances.ask(world, module, args, backend2, *extra, hazard=hazard, kinds=kinds)
    world.hub = None
    what2 = f'{module} {args} --all --solver {backend2}'
    disturbed = bool(hub2.faulted or result.faulted or result.interrupted)
    text = result.out if not target else (world.fs.get(target) or b'').decode()
    if target and disturbed:
        text = ''   # the error is reported; what the file holds then is anyone's guess
    second = layouts(text, what2, complete=not disturbed)
    strange = set(second) - set(first)
    if strange:
        raise Violation('missed', f'{what}: a layout that another order of models finds was not printed: {min(strange)[:200]}')
    if not disturbed:
        instances.expect_ok(result, what2)
        if set(first) - set(second):
            raise Violation('missed', f'{what2}: a layout that another order of models finds was not printed')
    else:
        if len(second) > len(hub2.models):
            raise Violation('too-many', f'{what2}: more layouts than models')
        if result.code == 0:
            raise Violation('failure-hidden', f'{what2}: ended normally although the enumeration was disturbed: {hub2.faulted or result.faulted}')
        return

    # one layout
    world.hub = hub3 = solvers.Hub(world)
    result = instances.ask(world, module, args, backend2)
    world.hub = None
    instances.expect_ok(result, f'{module} {args} --solver {backend2}')
    single = layouts(result.out, f'{module} {args}')
    if len(single) != min(1, len(first)):
        raise Violation('single', f'{module} {args}: {len(single)} layouts were printed without --all, {len(first)} exist')
    if set(single) - set(first):
        raise Violation('missed', f'{what}: the layout printed without --all is not among them')

    # any model of the problem belongs to a printed layout
    if hub.problems and first:
        with solvers.RealSolver(name='m22', bootstrap_with=hub.problems[0]) as s:
            for _ in range(2):
                if not hub3.solve(s):
                    raise Violation('inconsistent', f'{what}: printed layouts although its problem has no solution')
                model = solvers.RealSolver.get_model(s)
                layout = layouts(instances.replay_model(world, module, args, [model]), what)
                if len(layout) != 1 or layout[0] not in first:
                    raise Violation('missed', f'{what}: a layout that satisfies the request was not printed')
