"""Asking a layout tool and comparing what it prints with a reference set of layouts."""
import json

from . import enumerate as en, instances, layout, solvers
from .core import Violation

BACKENDS = ['g3', 'lib:./libsim.so', 'm22', 'g4', 'Glucose3', 'cd15']
SOLVER_FAULTS = ('terminated', 'unknown-code', 'error', 'memory', 'intr')
PROCESS_FAULTS = ('kill', 'intr', 'epipe', 'enospc', 'eio', 'edquot', 'tear')


def read_line(line, what):
    """A printed layout: (grid, code)."""
    try:
        grid = json.loads(line)
        tiles = {}
        for y, row in enumerate(grid):
            for x, cell in enumerate(row):
                tiles[x, y] = layout.Layout.read(cell['tile'], x, y)
        height, width = len(grid), len(grid[0])
        return grid, (width, height, en.code(tiles, width, height))
    except (ValueError, TypeError, KeyError, IndexError, layout.Bad) as e:
        raise Violation('bad-output', f'{what}: unreadable output line {line[:80]!r}: {e}')


def fed(grid):
    return tuple((x, y) for y, row in enumerate(grid) for x, cell in enumerate(row) if cell['tile']['type'] == 'splitter' and cell.get('input_direction') is not None)


class Answer:
    def __init__(self):
        self.grids, self.codes, self.disturbed, self.what = [], [], False, ''


def ask(world, module, args, every=True, target=None, faults=0, backends=BACKENDS, limit=None, impossible=False, feeds=False):
    """Runs a tool to its end.  faults: 0 none, 1 in the solver, 2 in the process and its output.
    limit: Ctrl-C after so many answers.  impossible: the tool may as well refuse.
    feeds: layouts that differ only in which border splitter halves are fed from outside count as different."""
    c = world.c
    backend = c.pick(backends, 'back end')
    a = Answer()
    a.what = f'{module} {args}' + (' --all' if every else '') + f' --solver {backend}'
    extra = (['--all'] if every else []) + (['--output', target] if target else [])
    world.hub = a.hub = hub = solvers.Hub(world)
    hub.assumptions = 1
    hub.limit = limit
    hazard, kinds = 0, ()
    if faults == 1:
        hub.hazard, hub.kinds, hub.faults_left = 1 + c.draw(12, 'density'), SOLVER_FAULTS, 1
    elif faults == 2:
        hazard, kinds = c.pick([2, 5, 20], 'density'), PROCESS_FAULTS
    result = a.result = instances.ask(world, module, args, backend, *extra, hazard=hazard, kinds=kinds)
    world.hub = None
    a.disturbed = bool(hub.faulted or result.faulted or result.interrupted)
    text = result.out
    if target:
        text = (world.fs.get(target) or b'').decode()
        if result.out:
            raise Violation('output-file', f'{a.what}: output appears although an output file was given')
        if a.disturbed:
            text = ''
    lines = text.split('\n')
    if lines[-1] and not a.disturbed:
        raise Violation('torn-output', f'{a.what}: the last line is incomplete')
    for line in lines[:-1]:
        grid, code = read_line(line, a.what)
        a.grids.append(grid)
        a.codes.append(code)
    keys = [(code, fed(grid)) for grid, code in zip(a.grids, a.codes)] if feeds else a.codes
    if len(set(keys)) != len(keys):
        raise Violation('repeated', f'{a.what}: a layout is printed twice')
    if not a.disturbed and impossible and not a.codes:
        pass
    elif not a.disturbed:
        instances.expect_ok(result, a.what)
    elif result.code == 0:
        raise Violation('failure-hidden', f'{a.what}: ended normally although it was disturbed: {hub.faulted or result.faulted}')
    return a


def show(code):
    width, height, text = code
    return '/'.join(text[y * width:(y + 1) * width] for y in range(height))


def compare(a, expected, every=True, may_miss=False):
    """The printed layouts against the reference set."""
    extra = set(a.codes) - expected
    if extra:
        raise Violation('unsound', f'{a.what}: printed a layout that does not satisfy the request: {show(min(extra))}')
    if a.disturbed or may_miss:
        return
    if every:
        missing = expected - set(a.codes)
        if missing:
            raise Violation('incomplete', f'{a.what}: {len(missing)} of {len(expected)} layouts are missing, for example {show(min(missing))}')
    elif len(a.codes) != min(1, len(expected)):
        raise Violation('wrong-count', f'{a.what}: printed {len(a.codes)} layouts, {len(expected)} exist')
