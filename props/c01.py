"""C01: the database is complete at every instant, whatever happens to the process."""
from sim import optprop

ID = 'C01'
LEVEL = 'fault_enumeration'
QUICK_RUNS, QUICK_SECONDS = 5000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 200000, 900
RULE = ('A run is a random set of networks, an existing database or none, and 1-4 invocations of compute under random faults '
        '(kill, torn write, power loss, Ctrl-C at an effect or source line, ENOSPC, EIO, EACCES, EMFILE, EDQUOT, short writes), '
        'followed by a fault-free one. Non-trivial: at least one fault fired; distinct by event log.')
REAL = optprop.REAL
STUB = optprop.STUB
ASSUMPTIONS = [
    'rename within one directory is atomic; a failed call has no effect except a partial write',
    'after power loss: an ordered prefix of the name changes survives, fsynced data survives, other data arbitrarily',
    'a reader sees the file system state between two calls of the writer',
]
prepare = optprop.prepare


def run(world):
    c = world.c
    s = optprop.make(world)
    kinds = optprop.FATAL + optprop.ERRORS

    s.watch()

    for i in range(1 + c.draw(4, 'invocations')):
        ul, objective, extra = optprop.draw_args(c, s.real)
        how = c.draw(4, 'fault density')
        line = None
        hazard = 0
        if how == 1:
            hazard = 60
        elif how == 2:
            hazard = 8
        elif how == 3 and not s.real:
            line = 1 + c.draw(c.pick([200, 2000, 8000], 'range'), 'interrupt line')
        result = s.tool('compute', ul, objective, *extra, hazard=hazard, kinds=kinds, faults=1 + c.draw(3, 'faults'), interrupt_line=line)
        world.count('invocations')
        s.resync(result)
        if not result.killed and not result.faulted and not result.interrupted:
            optprop.expect_ran(result, world, 'compute')
    # a new reader and a new writer can use what is left
    ul, objective, extra = optprop.draw_args(c, s.real)
    optprop.expect_ran(s.tool('query', ul, objective), world, 'query')
    optprop.expect_ran(s.tool('compute', ul, objective, *extra), world, 'compute')
    optprop.expect_ran(s.tool('query', ul, objective), world, 'query')

