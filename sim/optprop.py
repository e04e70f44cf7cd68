"""Common parts of the properties about the optimal-balancer tool."""
from . import loader, optimal
from .core import Violation

REAL = ['factorio_sat.calculate_optimal (whole tool: argument parsing, search, database, asyncio orchestration)', 'asyncio event loop', 'json', 'real files in a scratch directory']
STUB = ['selector and clock (virtual time)', 'process pool (seeded scheduler picks the finishing job)', 'worker answers (synthetic monotone ground truth, or the real solve path where stated)', 'file system calls (fault and crash points, power-loss model)']

SMALL = ['2x2', '1x2', '2x1', '1x3']
ALL = list(optimal.NETWORKS)
FATAL = ('kill', 'tear', 'power', 'intr')
ERRORS = ('enospc', 'eio', 'eacces', 'emfile', 'edquot', 'short')


def draw_names(c, most=4, pool=None):
    pool = list(pool or ALL)
    names = []
    for _ in range(1 + c.draw(most, 'networks')):
        names.append(pool.pop(c.draw(len(pool), 'network')))
    return names


def draw_args(c, real=False):
    ul = c.pick([4, 6] if real else [4, 6, 8, 5, 10, 12], 'underground length')
    objective = c.pick(['area', 'length'], 'objective')
    extra = []
    if c.flag('threads given'):
        extra = ['--threads', 1 + c.draw(4, 'threads')]
    return ul, objective, extra


def calibrate():
    """Learns, by one ordinary run with the real solve path, how the tool hands work
    to its workers.  If jobs cannot be attributed or answers have another shape than
    a layout or None, only the real solve path is used ('blind')."""
    import os, tempfile
    from .core import Choices, World
    import shutil
    from . import runner
    root = os.path.join(runner.scratch_base(), 'calibrate')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        world = World(Choices(replay=[]), root)
        scenario = optimal.Scenario(world, ['2x2', '1x2', '1x3', '2x1'])
        scenario.mode = 'record'
        shapes = []
        inner = scenario.completed

        def completed(job, outcome, value):
            inner(job, outcome, value)
            shapes.append((outcome, value))
        world.sched.on_complete = completed
        for ul in (4, 6):
            for objective in ('area', 'length'):
                scenario.tool('compute', ul, objective)
    except Violation:
        pass    # the runs will find it again
    finally:
        shutil.rmtree(root, ignore_errors=True)
    shapes_ok = all(o == 'ok' and (v is None or isinstance(v, list) and isinstance(v[0][0], dict)) for o, v in shapes)
    return bool(scenario.unidentified) or not shapes or not shapes_ok


class State:
    blind = False


def prepare():
    State.blind = calibrate()
    loader.preload(optimal.MODULE, 10)


def make(world, pool=None, most=4):
    """A scenario with networks, truth and database."""
    c = world.c
    real = State.blind or c.chance(6, 'real solve path')
    names = draw_names(c, most=min(most, 3) if real else most, pool=['2x2', '1x2', '1x3', '2x1'] if real else pool)
    scenario = optimal.Scenario(world, names, database=c.pick(['optimal.json', 'out/db.json', 'd b'], 'database name'), blind=State.blind)
    if scenario.db.startswith('out/'):
        world.fs.put('out/.keep', '')
    scenario.real = real
    if real:
        scenario.mode = 'real'
        world.count('runs with the real solve path')
    scenario.draw_truths()
    if not real:
        scenario.draw_database()
    scenario.begin()
    return scenario


def expect_ran(result, world, what):
    """A fault-free invocation has to succeed."""
    if result.code != 0:
        raise Violation('tool-failed', f'{what} failed without any fault: {result.err.strip().splitlines()[-1:] or result}')
