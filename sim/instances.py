"""Small requests to the layout tools, and running them under a chosen back end."""
from . import fs as simfs, loader, proc, solvers
from .core import Violation
from .optimal import NETWORKS

NETS = {name: NETWORKS[name] for name in ('1x2', '2x1', '2x2', '1x3', '1x4')}

# module, arguments.  All are decided in well under a tenth of a second; some have no layout.
SMALL = [
    ('make_block', '3 2'), ('make_block', '4 4'), ('make_block', '3 3'), ('make_block', '3 3 --allow-empty'), ('make_block', '2 2 --tile'),
    ('make_block', '4 3 --single-loop'), ('make_block', '4 4 --single-loop --underground-length 1'), ('make_block', '4 2 --underground-length 0 --allow-empty'),
    ('make_block', '3 2 --tile'), ('make_block', '3 3 --tile --single-loop'), ('make_block', '4 3 --no-parallel'), ('make_block', '2 2'),
    ('belt_balancer', '1x2 4 2'), ('belt_balancer', '2x1 4 2'), ('belt_balancer', '2x2 3 2'), ('belt_balancer', '2x2 4 2'), ('belt_balancer', '1x2 4 3'),
    ('belt_balancer', '2x2 4 3'), ('belt_balancer', '1x3 6 3'), ('belt_balancer', '2x2 3 3 --aligned'), ('belt_balancer', '1x2 4 2 --fast'),
    ('belt_balancer', '2x2 5 2 --fast'), ('belt_balancer', '2x2 4 4 --90'), ('belt_balancer', '1x2 5 2 --edge-splitters'), ('belt_balancer', '2x2 4 2 --use-ends'),
    ('belt_balancer', '2x2 3 2 --custom'), ('belt_balancer', '2x1 2 3 --custom'), ('belt_balancer', '2x2 4 4 --180'),
    ('belt_balancer_net_free', '3 2 2 2'), ('belt_balancer_net_free', '4 2 2 2'), ('belt_balancer_net_free', '5 2 1 2'), ('belt_balancer_net_free', '4 2 1 2'),
    ('interchange', '6 4'), ('interchange', '4 4'), ('interchange', '6 4 --alternating'),
]
MODULES = sorted({m for m, _ in SMALL})


def prepare(copies=3):
    for module in MODULES:
        loader.preload('factorio_sat.' + module, copies)


def setup(world):
    world.fs = simfs.SimFS(world, world.root)
    for name, text in NETS.items():
        world.fs.put(name, text)
    world.fs.sync_all()


def ask(world, module, args, solver, *extra, **kwargs):
    """One invocation of a layout tool."""
    return proc.run(world, 'factorio_sat.' + module, [*args.split(), '--solver', solver, *extra], **kwargs)


def expect_ok(result, what):
    if result.code != 0:
        raise Violation('tool-failed', f'{what} failed without any fault: {result.err.strip().splitlines()[-1:] or result}')


def normal(clauses):
    """Clauses as a set, tautologies dropped."""
    result = set()
    for clause in clauses:
        clause = frozenset(clause)
        if not any(-lit in clause for lit in clause):
            result.add(clause)
    return result


def implied(clauses, others):
    """A clause of `others` that `clauses` does not imply, or None."""
    with solvers.RealSolver(name='m22', bootstrap_with=[list(c) for c in clauses]) as s:
        for clause in others:
            if solvers.RealSolver.solve(s, assumptions=[-lit for lit in clause]):
                return sorted(clause)
    return None


def same_problem(a, b):
    """None if both sets of clauses say the same, else a description."""
    a, b = normal(a), normal(b)
    if a == b:
        return None
    missing = implied(b, a - b)
    if missing:
        return f'the clause {missing} was not passed on'
    extra = implied(a, b - a)
    if extra:
        return f'the clause {extra} was made up'
    return None


def satisfies(clauses, model):
    values = set(model)
    for clause in clauses:
        if not any(lit in values for lit in clause):
            return False
    return True


class Reference:
    """What the in-process back end makes of one request: problem, model, output."""

    def __init__(self, world, module, args, *extra):
        self.module, self.args, self.extra = module, args, extra
        world.hub = hub = solvers.Hub(world)
        result = ask(world, module, args, 'g3', *extra)
        expect_ok(result, f'{module} {args}')
        world.hub = None
        self.out = result.out
        self.sat = hub.answers[-1][1] if hub.answers else None
        self.answers = list(hub.answers)
        self.problem = hub.problems[0] if hub.problems else None
        self.model = hub.models[0] if hub.models else None
        self.models = list(hub.models)


def replay_model(world, module, args, models, *extra):
    """The output for given models."""
    world.hub = hub = solvers.Hub(world)
    hub.scripted = [list(m) for m in models]
    result = ask(world, module, args, 'g3', *extra)
    expect_ok(result, f'{module} {args}')
    world.hub = None
    return result.out
