"""C07: an external solver's answer is used exactly as given, or the tool fails."""
import os
from sim import instances, solvers
from sim.core import Violation

ID = 'C07'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 120000, 900
RULE = ('A run is one request to a layout tool answered by an in-process solver, then the same request with the same model through an external solver command whose output format, '
        'chunking, exit timing and failures (not found, dead before/while/after the status line, torn at any byte of the model, unknown status, garbage, closed input, failing temporary file, Ctrl-C, kill) '
        'the scheduler picks. Non-trivial: a fault fired or the answer was varied in form; distinct by event log.')
REAL = ['the layout tools (whole main)', 'factorio_sat.template solver interface', 'pysat CNF writer', 'SAT engine']
STUB = ['the solver process and its pipes', 'file system calls (fault points)']
ASSUMPTIONS = ['a solver follows the SAT competition output format, and a solver that dies writes a prefix of what it would have written']
FAULTS = ('missing', 'crash-early', 'crash-status', 'crash-model', 'torn-literal', 'unknown', 'deaf', 'crash-silent', 'garbage', 'intr')
COMMANDS = ['sim-solver', 'sim-solver $FILE', 'sim-solver -q --threads=4', "'/opt/my solver/run' $FILE --mode 'a b'", 'sim-solver --quiet $FILE -n', 'sim-solver "$FILE"', 'sim-solver $FILE --check $FILE']


def prepare():
    instances.prepare()


def run(world):
    c = world.c
    instances.setup(world)
    module, args = c.pick(instances.SMALL, 'request')
    reference = instances.Reference(world, module, args)
    if reference.problem is None:
        raise Violation('no-solver', f'{module} {args}: no solver was asked')
    command = c.pick(COMMANDS, 'command')
    world.hub = hub = solvers.Hub(world)
    if reference.sat:
        hub.scripted = [reference.model]
    hub.formats = not c.chance(6, 'plain format')
    hazard, kinds = 0, ()
    mode = c.draw(4, 'faults')
    if mode in (1, 2):
        hub.hazard, hub.kinds, hub.faults_left = 1, FAULTS, 1
    elif mode == 3:
        hazard, kinds = c.pick([4, 12], 'density'), ('enospc', 'eio', 'edquot', 'short', 'eacces', 'emfile', 'kill', 'intr', 'tear')
    result = instances.ask(world, module, args, 'cmd:' + command, hazard=hazard, kinds=kinds)
    world.hub = None
    what = f'{module} {args} --solver cmd:{command}'

    for process in hub.processes:
        bad = getattr(process, 'bad_input', None)
        if bad and not result.faulted:
            raise Violation('bad-cnf', f'{what}: the solver got a malformed problem: {bad}')
        if getattr(process, 'clauses', None) is not None:
            difference = instances.same_problem(reference.problem, process.clauses)
            if difference and result.faulted and result.code != 0 and not result.out:
                difference = None
            if difference:
                raise Violation('problem-differs', f'{what}: {difference}')
            if '$FILE' in command and not result.faulted:
                if getattr(process, 'input_file', None) is None:
                    raise Violation('no-file', f'{what}: the problem was not passed in a file')
                if any('$FILE' in a for a in process.argv):
                    raise Violation('no-file', f'{what}: $FILE was not replaced: {process.argv}')
        if not result.killed and process.fault != 'missing' and process.returncode is None:
            raise Violation('not-reaped', f'{what}: the solver process was left behind')
    fault = hub.faulted or result.faulted or result.interrupted
    if result.out and result.out != reference.out and not (result.killed and reference.out.startswith(result.out)):
        raise Violation('wrong-output', f'{what}: the output differs from the layout of the model the solver reported')
    if hub.faulted and not result.killed:
        kind = hub.faulted[0][1]
        if result.out:
            raise Violation('output-after-failure', f'{what}: a layout was printed although the solver failed ({kind})')
        if result.code == 0:
            raise Violation('failure-hidden', f'{what}: the tool ended normally although the solver failed ({kind})')
    if not fault:
        instances.expect_ok(result, what)
        if result.out != reference.out:
            raise Violation('wrong-output', f'{what}: the output differs from the layout of the model the solver reported')
        if len(hub.processes) != 1:
            raise Violation('solver-runs', f'{what}: {len(hub.processes)} solver processes were started')
    elif result.code == 0 and result.out != reference.out:
        raise Violation('failure-hidden', f'{what}: the tool ended normally without the answer although a fault happened')
    if not result.killed and not result.faulted:
        left = os.listdir(world.fs.tmp)
        if left:
            raise Violation('file-left', f'{what}: temporary files are left behind: {left}')
    world.count('satisfiable' if reference.sat else 'unsatisfiable')
    world.count('nontrivial')
