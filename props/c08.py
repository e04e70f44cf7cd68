"""C08: solver libraries are driven by the IPASIR rules and their answers are not misread."""
import gc
from sim import fs as simfs, instances, loader, proc, solvers
from sim.core import Violation

ID = 'C08'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 120000, 900
RULE = ('A run is either a request to a layout tool through a simulated IPASIR library (models, open variables, termination, unknown results, missing library, Ctrl-C and kill picked by the scheduler), '
        'or a random walk over the solver object (clauses, assumptions, solve, model, failed assumptions, terminate and learn callbacks, close, use after close). '
        'Every library call is checked against the IPASIR state machine. Non-trivial: a fault fired, variables were left open or two or more solve calls; distinct by event log.')
REAL = ['factorio_sat.ipasir', 'the layout tools (whole main)', 'factorio_sat.template solver interface', 'ctypes callbacks', 'SAT engine']
STUB = ['the shared library (checks its caller)']
ASSUMPTIONS = ['the library follows IPASIR: it may leave variables open that no clause depends on, and return 0 when terminated']


def prepare():
    instances.prepare()
    loader.preload('factorio_sat.ipasir', 2)


def released(world, hub, what):
    gc.collect()
    world.check()
    for library in hub.libraries:
        if library.open:
            raise Violation('not-released', f'{what}: {library.open} solver(s) were never released')


def run(world):
    if world.c.chance(3, 'object walk'):
        walk(world)
    else:
        request(world)


def request(world):
    c = world.c
    instances.setup(world)
    module, args = c.pick(instances.SMALL, 'request')
    reference = instances.Reference(world, module, args)
    extra = ['--all'] if c.chance(3, 'all') else []
    world.hub = hub = solvers.Hub(world)
    if reference.sat and not extra:
        hub.scripted = [reference.model]
    hazard, kinds = 0, ()
    mode = c.draw(4, 'faults')
    if mode in (1, 2):
        hub.hazard, hub.kinds, hub.faults_left = c.pick([1, 3], 'density') if extra else 1, ('terminated', 'unknown-code', 'missing'), 1
    elif mode == 3:
        hazard, kinds = c.pick([3, 8], 'density'), ('kill', 'intr', 'epipe')
    what = f'{module} {args} {" ".join(extra)} --solver lib:./libsim.so'
    result = instances.ask(world, module, args, 'lib:./libsim.so', *extra, hazard=hazard, kinds=kinds)
    world.hub = None
    for problem in hub.problems:
        difference = instances.same_problem(reference.problem, problem)
        if difference:
            raise Violation('problem-differs', f'{what}: {difference}')
    if not result.killed:
        released(world, hub, what)
    if hub.faulted and not result.killed:
        if result.code == 0:
            raise Violation('failure-hidden', f'{what}: the tool ended normally although the library gave no answer ({hub.faulted[0][1]})')
    solved = [model for model in hub.models]
    if not result.killed and not result.faulted:
        if len(result.lines) != min(len(solved), 1 if not extra else len(solved)):
            raise Violation('layouts', f'{what}: {len(result.lines)} layouts were printed for {len(solved)} models')
    if not (hub.faulted or result.faulted or result.interrupted):
        instances.expect_ok(result, what)
    # each printed layout is the one of the model, whichever way open variables are filled
    for i, (line, library_model) in enumerate(zip(result.lines, solved)):
        if i >= 3:
            break
        options = []
        for sign in (1, -1):
            filled = [v if v else None for v in library_model]
            filled = [abs(full) * sign if v == 0 else v for v, full in zip(hub.libraries[0].shown[i], library_model)]
            options.append(instances.replay_model(world, module, args, [filled]).rstrip('\n'))
            if options[-1] == line:
                break
        else:
            raise Violation('wrong-output', f'{what}: layout {i + 1} is not the one of the model the library reported')
    if len(solved) > 1 or world.stats.get('open variables'):
        world.count('nontrivial')


def walk(world):
    c = world.c
    world.fs = simfs.SimFS(world, world.root)
    world.hub = hub = solvers.Hub(world)
    hub.hazard, hub.kinds, hub.faults_left = c.pick([0, 4], 'density'), ('terminated', 'unknown-code'), 2
    result = proc.run(world, 'factorio_sat.ipasir', [], call=lambda: steps(world, hub))
    world.check()
    if result.code != 0:
        raise Violation('walk-failed', f'an operation on a solver failed: {result.err.strip().splitlines()[-1:]}')


def steps(world, hub):
    c = world.c
    module = loader.load('factorio_sat.ipasir')
    if not hasattr(module, 'IPASIRLibrary'):
        return
    library = module.IPASIRLibrary('./libsim.so')
    if library.get_signature() != b'simulated-ipasir':
        world.violate('signature', f'the signature is {library.get_signature()!r}')
    fake = hub.libraries[0]
    live = []

    class Mirror:
        def __init__(self):
            self.solver = library.create_solver()
            self.instance = list(fake.instances.values())[-1]
            self.clauses, self.assumed, self.used, self.state, self.closed = [], [], [], None, False
            self.polls, self.stop_at, self.learned, self.taught_before = 0, None, None, 0

    def clause():
        return [c.pick([1, -1], 'sign') * (1 + c.draw(c.pick([6, 3000, 6, 3000, 6, 70000], 'variables'), 'variable')) for _ in range(1 + c.draw(3, 'length'))]

    def use(m, what, call):
        """An operation that must be refused on a closed solver."""
        if not m.closed:
            return call()
        try:
            call()
        except RuntimeError:
            world.count('refused after close')
            return None
        world.violate('used-after-close', f'{what} on a closed solver was not refused')

    live.append(Mirror())
    solves = 0
    for _ in range(3 + c.draw(25, 'operations')):
        m = live[c.draw(len(live), 'solver')]
        op = c.pick(['add', 'adds', 'solve', 'assume', 'model', 'failed', 'terminate', 'learn', 'close', 'create', 'drop', 'gc'], 'operation')
        world.log('walk', op)
        if op == 'add':
            new = clause()
            use(m, 'add_clause', lambda: m.solver.add_clause(list(new)))
            if not m.closed:
                m.clauses.append(new)
                m.state = None
        elif op == 'adds':
            new = [clause() for _ in range(c.draw(4, 'clauses'))]
            use(m, 'add_clauses', lambda: m.solver.add_clauses([list(n) for n in new]))
            if not m.closed:
                m.clauses += new
                m.state = None if new else m.state
        elif op == 'assume':
            lit = clause()[0]
            use(m, 'assume', lambda: m.solver.assume(lit))
            if not m.closed:
                m.assumed.append(lit)
                m.state = None
        elif op == 'solve':
            faulted = len(hub.faulted)
            m.polls = 0
            error = answer = None
            try:
                answer = use(m, 'solve', lambda: m.solver.solve())
            except RuntimeError as e:
                error = str(e)
            if m.closed:
                continue
            solves += 1
            m.used, m.assumed = m.assumed, []
            fault = hub.faulted[-1][1] if len(hub.faulted) > faulted else None
            stopped = m.stop_at is not None and m.polls > 0 and m.stop_at
            with solvers.RealSolver(name='m22', bootstrap_with=m.clauses) as s:
                truth = solvers.RealSolver.solve(s, assumptions=m.used)
            if stopped:
                truth = None
            elif fault == 'terminated':
                truth = None
            elif fault == 'unknown-code':
                if error is None:
                    world.violate('unknown-code', f'an unknown result of the library was taken as {answer}')
                m.state = None
                continue
            if error is not None:
                world.violate('solve-failed', f'solve failed: {error}')
            if m.stop_at is not None and m.polls == 0:
                world.violate('terminate-not-set', 'the terminate callback is not called')
            if answer is not truth:
                world.violate('wrong-answer', f'solve returned {answer}, the library said {truth}')
            m.state = truth
            if m.learned is not None and m.learned != m.instance.taught[m.taught_before:]:
                world.violate('learned', f'the learn callback got {m.learned}, the library reported {m.instance.taught[m.taught_before:]}')
        elif op == 'model':
            if m.closed:
                use(m, 'get_model', lambda: m.solver.get_model())
            elif m.state is True:
                model = m.solver.get_model()
                values = {abs(v): v for v in model}
                if len(values) != len(model) or 0 in values:
                    world.violate('model', f'{model} is not an assignment')
                if not {abs(lit) for cl in m.clauses for lit in cl} <= set(values):
                    world.violate('model', f'{model} misses variables of {m.clauses}')
                if not instances.satisfies(m.clauses, values.values()):
                    world.violate('model', f'{model} does not satisfy {m.clauses}')
                mentioned = {abs(lit) for cl in m.clauses for lit in cl}
                if any(values[abs(lit)] != lit for lit in m.used if abs(lit) in mentioned):
                    world.violate('model', f'{model} ignores the assumptions {m.used}')
        elif op == 'failed':
            if m.closed:
                use(m, 'unsat_used_assumption', lambda: m.solver.unsat_used_assumption(1))
            elif m.state is False and m.used:
                failed = [lit for lit in m.used if m.solver.unsat_used_assumption(lit)]
                with solvers.RealSolver(name='m22', bootstrap_with=m.clauses) as s:
                    if solvers.RealSolver.solve(s, assumptions=failed):
                        world.violate('failed', f'{failed} of {m.used} do not suffice for unsatisfiability')
        elif op == 'terminate':
            if c.flag('remove'):
                use(m, 'set_terminate', lambda: m.solver.set_terminate(None))
                if not m.closed:
                    m.stop_at = None
            else:
                stop = c.flag('stops')

                def poll(m=m):
                    m.polls += 1
                    return m.stop_at
                use(m, 'set_terminate', lambda: m.solver.set_terminate(poll))
                if not m.closed:
                    m.stop_at = stop
        elif op == 'learn':
            if c.flag('remove'):
                use(m, 'set_learn', lambda: m.solver.set_learn(None))
                if not m.closed:
                    m.learned = None
            else:
                learned = []
                limit = 1 + c.draw(3, 'limit')
                use(m, 'set_learn', lambda: m.solver.set_learn(learned.append, limit))
                if not m.closed:
                    if m.instance.learn_limit != limit:
                        world.violate('learn-limit', f'the library was told a limit of {m.instance.learn_limit} instead of {limit}')
                    m.learned, m.taught_before = learned, len(m.instance.taught)
        elif op == 'close':
            if m.closed:
                use(m, 'with', lambda: m.solver.__enter__())
            else:
                with m.solver as entered:
                    if entered is not m.solver:
                        world.violate('with', 'the context manager returns another object')
                m.closed = True
                if not m.instance.released:
                    world.violate('not-released', 'leaving the with block does not release the solver')
        elif op == 'create':
            live.append(Mirror())
        elif op == 'drop' and len(live) > 1:
            live.remove(m)
            instance = m.instance
            m.solver = None
            m = None
            gc.collect()
            if not instance.released:
                world.violate('not-released', 'a solver that was dropped is never released')
        elif op == 'gc':
            gc.collect()
        world.check()
    instances_ = [m.instance for m in live]
    m = None
    for other in live:
        other.solver = None
    live.clear()
    gc.collect()
    world.check()
    if not all(i.released for i in instances_):
        world.violate('not-released', 'a solver that was dropped is never released')
    if solves > 1:
        world.count('nontrivial')
