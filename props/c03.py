"""C03: an interrupted computation resumes from what was saved and finishes."""
from sim import optimal, optprop
from sim.core import Violation

ID = 'C03'
LEVEL = 'fault_enumeration'
QUICK_RUNS, QUICK_SECONDS = 5000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 150000, 900
RULE = ('A run is 1-5 invocations of compute, each stopped by a kill, Ctrl-C, power loss, I/O error, worker error or worker death at a random '
        'point (or not at all), then fault-free invocations. Non-trivial: at least one fault fired; distinct by event log.')
REAL = optprop.REAL
STUB = optprop.STUB
ASSUMPTIONS = ['after a power loss an older saved version may be what is left', 'the ground truth is monotone']
prepare = optprop.prepare


def run(world):
    c = world.c
    s = optprop.make(world)
    s.watch()
    context = {}

    def judge(name, size):
        ul, objective = context['ul'], context['objective']
        verdict = s.known[name].verdict(size)
        if verdict is not None:
            world.violate('solved-again', f'{name}: {optimal.key(size)} is requested although the database already tells that it {"exists" if verdict else "does not exist"}')
        if s.requests.count((name, size)) > 1:
            world.violate('solved-again', f'{name}: {optimal.key(size)} is requested twice by one invocation')
        # only sizes the objective asks for, best first
        for group in optimal.candidates(objective, s.height[name], s.splitters[name], ul):
            if size in group:
                break
            better = [g for g in group if s.known[name].verdict(g) is not False]
            if better:
                world.violate('out-of-order', f'{name}: {optimal.key(size)} is requested before the better size {optimal.key(better[0])} is decided')
    s.judge_submit.append(judge)

    args = [optprop.draw_args(c, s.real) for _ in range(1 + c.draw(2, 'different targets'))]
    kinds = optprop.FATAL + optprop.ERRORS + ('worker-death',)
    for i in range(1 + c.draw(5, 'interrupted invocations')):
        ul, objective, extra = args[c.draw(len(args), 'target')]
        context.update(ul=ul, objective=objective)
        hazard = c.pick([30, 8, 100], 'fault density')
        line = None
        world.sched.outcomes = None
        if not s.real and c.chance(4, 'line interrupt'):
            line, hazard = 1 + c.draw(c.pick([300, 3000], 'range'), 'interrupt line'), 0
        elif c.chance(3, 'worker failures'):
            world.sched.outcomes = lambda w, job: 'error' if w.c.chance(6, 'worker fails') else 'ok'
        result = s.tool('compute', ul, objective, *extra, hazard=hazard, kinds=kinds, interrupt_line=line)
        world.sched.outcomes = None
        if result.power:
            world.count('power losses')
        s.resync(result)
        world.count('interrupted invocations')
    # faults stop: bounded progress to completion
    for ul, objective, extra in args:
        context.update(ul=ul, objective=objective)
        bound = 0
        if not s.real:
            for name in s.names:
                for group in optimal.candidates(objective, s.height[name], s.splitters[name], ul):
                    bound += sum(1 for g in group if s.known[name].verdict(g) is None)
                    if any(s.truth[name].exists(g) for g in group):
                        break
        else:
            bound = 60 * len(s.names)
        world.sched.max_steps = bound + 1
        result = s.tool('compute', ul, objective, *extra)
        optprop.expect_ran(result, world, 'compute after a restart')
        s.resync(result)
        if len(s.requests) > bound:
            raise Violation('too-much-work', f'{len(s.requests)} requests, only {bound} sizes were undecided')
        if not s.blind:
            for name in s.names:
                done, undecided = optimal.finished(objective, s.height[name], s.splitters[name], ul, s.known[name])
                if not done:
                    raise Violation('unfinished', f'{name}: compute ended normally although {[optimal.key(u) for u in undecided]} are undecided')
        world.sched.max_steps = 1
        again = s.tool('compute', ul, objective, *extra)
        optprop.expect_ran(again, world, 'compute on a finished database')
        if s.requests:
            raise Violation('solved-again', f'a finished computation requested {s.requests[0]}')
        world.sched.max_steps = 20000
