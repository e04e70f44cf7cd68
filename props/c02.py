"""C02: compute records exactly what the solver answered."""
from sim import optimal, optprop, solvers
from sim.core import Violation

ID = 'C02'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 150000, 900
RULE = ('A run is 1-3 invocations of compute over random networks, thread counts and databases; the scheduler picks every completion order, '
        'and worker errors, worker deaths, solver crashes, torn solver output, interrupted solvers and save errors are injected. '
        'Non-trivial: a fault fired or two jobs were in flight together; distinct by event log.')
REAL = optprop.REAL + ['factorio_sat.belt_balancer/template/ipasir solve path in the runs that use it', 'SAT engine']
STUB = optprop.STUB + ['solver transports (in-process, IPASIR library, external process)']
ASSUMPTIONS = ['the synthetic ground truth is monotone in underground length, width and height, as real balancers are',
               'a worker pool reports a dead worker the way concurrent.futures does']
prepare = optprop.prepare


def run(world):
    c = world.c
    s = optprop.make(world)
    s.watch(s.facts_allowed if not s.blind else lambda facts, data: None)
    peak = [0]

    def saved_before_next(name, size):
        peak[0] = max(peak[0], len(s.requests) - len(s.delivered))
        for other, answered in s.delivered:
            if other == name and not s.implies(s.known[name], name, answered, s.answers[other, answered]):
                world.violate('answer-not-saved', f'{name}: {optimal.key(size)} is requested although the answer for {optimal.key(answered)} is not on disk yet')
    s.judge_submit.append(saved_before_next)

    for i in range(1 + c.draw(3, 'invocations')):
        ul, objective, extra = optprop.draw_args(c, s.real)
        how = c.draw(4, 'what goes wrong')
        hazard, kinds = 0, ()
        world.sched.outcomes = None
        world.hub = None
        if how == 1:
            hazard, kinds = c.pick([40, 10], 'density'), ('kill', 'intr', 'worker-death', 'enospc', 'eio', 'tear')
        elif how >= 2:
            n = c.pick([3, 8, 20], 'worker failure density')
            if s.real:
                solver = c.pick(['g4', 'cmd:sim-solver', 'cmd:sim-solver $FILE', 'lib:./libsim.so', 'g3'], 'solver')
                extra = [*extra, '--solver', solver]
                world.hub = solvers.Hub(world)
                world.hub.assumptions = 0
                world.hub.hazard = n
                world.hub.faults_left = 1 + c.draw(2, 'solver faults')
                world.hub.kinds = ('error', 'memory', 'terminated', 'unknown-code', 'missing', 'crash-early', 'crash-status', 'crash-model',
                                   'torn-literal', 'unknown', 'deaf', 'crash-silent', 'garbage')
                if s.blind:
                    optimal.MEMO.clear()
            else:
                def outcomes(w, job, n=n):
                    if not w.c.chance(n, 'worker fails'):
                        return 'ok'
                    return w.c.pick(['error', 'die'], 'how')
                world.sched.outcomes = outcomes
        result = s.tool('compute', ul, objective, *extra, hazard=hazard, kinds=kinds)
        faults = bool(result.faulted or result.interrupted or s.failed_jobs)
        world.hub, world.sched.outcomes = None, None
        s.resync(result)
        if result.code == 0:
            world.count('completed invocations')
            for name, size in s.delivered:
                if not s.implies(s.known[name], name, size, s.answers[name, size]):
                    raise Violation('answer-lost', f'{name}: compute ended normally but the answer for {optimal.key(size)} is not in the database')
            if not s.blind:
                for name in s.names:
                    done, undecided = optimal.finished(objective, s.height[name], s.splitters[name], ul, s.known[name])
                    if not done:
                        raise Violation('unfinished', f'{name}: compute ended normally although {[optimal.key(u) for u in undecided]} are undecided')
        elif not faults and not result.killed:
            optprop.expect_ran(result, world, 'compute')
    if peak[0] > 1:
        world.count('nontrivial')
        world.count('runs with jobs in flight together')
