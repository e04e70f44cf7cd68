"""SAT back ends under simulation.

The real SAT engine decides satisfiability; which of the models it reports, how the
answer travels (in process, IPASIR library, external command) and what goes wrong on
the way is up to the seeded scheduler.  Each transport gets a stand-in:

  pysat        pysat.solvers.Solver     -> SimSolver
  lib:...      ctypes.cdll.LoadLibrary  -> FakeLibrary (enforces the IPASIR protocol)
  cmd:...      subprocess.Popen         -> SimPopen (a solver process, its pipes and exit)
"""
import ctypes
import errno
import io
import os
import signal
import subprocess
import weakref

import pysat.solvers

from .core import Current, HarnessError, SimDeadlock, SimKill

RealSolver = pysat.solvers.Solver
RealPopen = subprocess.Popen
REAL_LOAD = ctypes.cdll.LoadLibrary
REAL_CDLL = ctypes.CDLL


class Hub:
    """Per-run control of every back end."""

    def __init__(self, world):
        self.w = world
        self.rng = world.c.subrng('model choice')
        self.hazard = 0             # 1/hazard chance of a fault at each solve
        self.kinds = ()
        self.faults_left = 0
        self.faulted = []           # faults that fired
        self.answers = []           # (transport, True/False/None) actually given
        self.libraries = []
        self.processes = []
        self.models = []            # every model handed out
        self.assumptions = 2        # how many random decisions to try
        self.scripted = None        # models to replay instead of solving
        self.formats = True         # vary the textual format of external solvers
        self.problems = []          # clauses each solver was given before its first answer
        self.format_rng = None
        self.limit = None           # Ctrl-C or termination when more answers than that are asked for

    def decide(self, transport, kinds):
        if self.limit is not None and len(self.models) >= self.limit:
            for kind in ('intr', 'terminated'):
                if kind in kinds:
                    self.faulted.append((transport, kind))
                    self.w.fault(f'{transport}-{kind}')
                    return kind
        kinds = [k for k in kinds if k in self.kinds]
        if not kinds or not self.hazard or self.faults_left <= 0:
            return None
        if not self.w.c.chance(self.hazard, f'{transport} fault?'):
            return None
        kind = self.w.c.pick(kinds, 'solver fault')
        self.faults_left -= 1
        self.faulted.append((transport, kind))
        self.w.fault(f'{transport}-{kind}')
        return kind

    def randomise(self, solver):
        n = max(0, solver.nof_vars() or 0)      # (an empty solver counts -1)
        bias = self.rng.choice([0.5, 0.5, 0.2, 0.8, 0.05, 0.95])
        try:
            solver.set_phases([v if self.rng.random() < bias else -v for v in range(1, n + 1)])
        except NotImplementedError:
            pass
        return n

    def solve(self, solver, assumptions=()):
        """Satisfiability by the real engine, with a random model."""
        n = self.randomise(solver)
        if self.assumptions and n and not assumptions:
            for _ in range(self.assumptions):
                count = self.rng.choice([1, 3, 6])
                chosen = [v if self.rng.random() < 0.5 else -v for v in self.rng.sample(range(1, n + 1), min(count, n))]
                try:
                    solver.conf_budget(1000)
                except NotImplementedError:
                    break
                if RealSolver.solve_limited(solver, assumptions=chosen) is True:
                    return True
                if self.rng.random() < 0.5:
                    break
        return RealSolver.solve(solver, assumptions=list(assumptions))


def hub():
    w = Current.world
    return getattr(w, 'hub', None) if w is not None else None


def fingerprint(model):
    return f'{hash(tuple(model)) & 0xffffffff:08x}'


def engine(clauses, h):
    """(satisfiable, model) for a list of clauses."""
    with RealSolver(name='m22', bootstrap_with=clauses) as s:
        if h.solve(s):
            return True, RealSolver.get_model(s)
        return False, None


class SimSolver(RealSolver):
    """The in-process back end."""

    def __init__(self, name='m22', bootstrap_with=None, use_timer=False, **kwargs):
        self._hub = hub()
        self._script = None
        self._problem = []
        self._asked = False
        if self._hub is not None:
            self._hub.w.count('pysat solvers')
            if self._hub.scripted is not None:
                self._script = list(self._hub.scripted)
            self._hub.problems.append(self._problem)
            if bootstrap_with is not None:
                bootstrap_with = [list(clause) for clause in bootstrap_with]
                self._problem += bootstrap_with
        super().__init__(name, bootstrap_with, use_timer, **kwargs)

    def add_clause(self, clause, no_return=True):
        clause = list(clause)
        if not self._asked:
            self._problem.append(clause)
        return super().add_clause(clause, no_return)

    def append_formula(self, formula, no_return=True):
        formula = [list(clause) for clause in formula]
        if not self._asked:
            self._problem += formula
        return super().append_formula(formula, no_return)

    def solve(self, assumptions=[]):
        h = self._hub
        if h is None:
            return super().solve(assumptions)
        self._asked = True
        fault = h.decide('pysat', ('error', 'memory', 'intr'))
        if fault == 'error':
            raise RuntimeError('solver failed')
        if fault == 'memory':
            raise MemoryError()
        if fault == 'intr':
            raise KeyboardInterrupt()
        if self._script is not None:
            answer = bool(self._script)
            self._model = self._script.pop(0) if self._script else None
        else:
            answer = h.solve(self, assumptions)
            self._model = super().get_model() if answer else None
        h.answers.append(('pysat', answer))
        h.w.log('solve', f'sat {fingerprint(self._model)}' if answer else 'unsat')
        if answer:
            h.models.append(self._model)
        return answer

    def solve_limited(self, assumptions=[], expect_interrupt=False):
        if self._hub is None:
            return super().solve_limited(assumptions, expect_interrupt)
        return self.solve(assumptions)

    def get_model(self):
        if self._hub is None:
            return super().get_model()
        return None if self._model is None else list(self._model)


# -- IPASIR --

INTEGERS = {ctypes.c_int8, ctypes.c_uint8, ctypes.c_int16, ctypes.c_uint16, ctypes.c_uint32, ctypes.c_int64, ctypes.c_uint64, ctypes.c_long, ctypes.c_ulong, ctypes.c_bool} - {ctypes.c_int32}


def _to_c(value, kind):
    """What ctypes passes for a Python value."""
    if value is None or kind is ctypes.c_void_p:
        return value
    if kind in (ctypes.c_int, ctypes.c_int32, None):
        if isinstance(value, int) and not -0x80000000 <= value <= 0x7fffffff:
            return ctypes.c_int(value).value
        return value
    if kind in INTEGERS and isinstance(value, int):
        return kind(value).value
    return value


class FakeFunction:
    """A foreign function with ctypes' conversion of arguments and results."""
    argtypes = None
    restype = ctypes.c_int

    def __init__(self, impl):
        self.impl = impl

    def __call__(self, *args):
        kinds = self.argtypes
        if kinds is None:
            args = [_to_c(a, None) for a in args]
        else:
            if len(args) < len(kinds):
                raise TypeError(f'this function takes at least {len(kinds)} arguments ({len(args)} given)')
            args = [_to_c(a, k) for a, k in zip(args, kinds)]
        result = self.impl(*args)
        kind = self.restype
        if kind is None:
            return None
        if kind in (ctypes.c_int, ctypes.c_int32):
            return result if result is None or -0x80000000 <= result <= 0x7fffffff else ctypes.c_int(result).value
        if kind in INTEGERS and isinstance(result, int):
            return kind(result).value
        return result


class Instance:
    def __init__(self, number):
        self.number = number
        self.clauses = []
        self.clause = []
        self.state = 'INPUT'
        self.assumptions = []
        self.model = None
        self.failed = set()
        self.released = False
        self.terminate = None
        self.learn = None
        self.learn_limit = 0
        self.taught = []
        self.script = None
        self.asked = False
        self.last_assumptions = []


class FakeLibrary:
    """An IPASIR library that checks the protocol of its caller.

    `violate(kind, message)` is called when the caller breaks it."""

    def __init__(self, h, filename):
        self.h = h
        self.filename = filename
        self.instances = {}
        self.next_handle = 0x7f3a_5c00_0000 + 4096 * (1 + len(h.libraries))
        self.open = 0
        self.shown = []             # models with open variables as 0
        for name in ('signature', 'init', 'release', 'add', 'assume', 'solve', 'val', 'failed', 'set_terminate', 'set_learn'):
            setattr(self, 'ipasir_' + name, FakeFunction(getattr(self, '_' + name)))
        h.libraries.append(self)

    def broken(self, message):
        w = self.h.w
        w.violate('ipasir-protocol', message)

    def get(self, handle, call):
        value = handle.value if isinstance(handle, ctypes.c_void_p) else handle
        if value is None or value == 0:
            self.broken(f'{call} called with a null solver')
        instance = self.instances.get(value)
        if instance is None:
            self.broken(f'{call} called with a solver that was never created')
        if instance.released:
            self.broken(f'{call} called after the solver was released')
        return instance

    def _signature(self):
        return b'simulated-ipasir'

    def _init(self):
        self.next_handle += 16
        self.instances[self.next_handle] = Instance(len(self.instances))
        self.open += 1
        if self.h.scripted is not None:
            self.instances[self.next_handle].script = list(self.h.scripted)
        return self.next_handle

    def _release(self, handle):
        instance = self.get(handle, 'ipasir_release')
        instance.released = True
        self.open -= 1
        self.h.w.log('ipasir release')

    def _add(self, handle, lit):
        instance = self.instances.get(handle)
        if instance is None or instance.released:
            instance = self.get(handle, 'ipasir_add')
        lit = int(lit)
        if lit == 0:
            instance.clauses.append(instance.clause)
            instance.clause = []
            instance.state = 'INPUT'
        else:
            if not -2**31 < lit < 2**31:
                self.broken(f'literal {lit} does not fit 32 bits')
            instance.clause.append(lit)
            instance.state = 'INPUT'

    def _assume(self, handle, lit):
        instance = self.get(handle, 'ipasir_assume')
        if instance.clause:
            self.broken('ipasir_assume called in the middle of a clause')
        instance.assumptions.append(int(lit))
        instance.state = 'INPUT'

    def _solve(self, handle):
        instance = self.get(handle, 'ipasir_solve')
        h = self.h
        if instance.clause:
            self.broken('ipasir_solve called with an unterminated clause')
        assumptions, instance.assumptions = instance.assumptions, []
        instance.last_assumptions = assumptions
        if not instance.asked:
            instance.asked = True
            h.problems.append(list(instance.clauses))
        if instance.learn is not None:
            self.teach(instance)
        if instance.terminate is not None and instance.terminate(None):
            instance.state = 'INPUT'
            h.answers.append(('lib', None))
            return 0
        fault = h.decide('lib', ('terminated', 'unknown-code'))
        if fault == 'terminated':
            instance.state = 'INPUT'
            h.answers.append(('lib', None))
            h.w.log('ipasir solve -> 0 (terminated)')
            return 0
        if fault == 'unknown-code':
            instance.state = 'INPUT'
            h.answers.append(('lib', None))
            return [1, 11, -1, 30][h.w.c.draw(4, 'code')]
        if instance.script is not None:
            answer = bool(instance.script)
            model = instance.script.pop(0) if answer else None
        else:
            with RealSolver(name='m22', bootstrap_with=instance.clauses) as s:
                answer = h.solve(s, assumptions) if assumptions else h.solve(s)
                model = RealSolver.get_model(s) if answer else None
                if not answer:
                    instance.failed = set(RealSolver.get_core(s) or [])
        h.answers.append(('lib', answer))
        h.w.log('ipasir solve ->', f'10 {fingerprint(model)}' if answer else 20)
        if answer:
            instance.state = 'SAT'
            instance.model = {abs(v): v for v in model}
            h.models.append(model)
            if h.w.c.chance(3, 'leave irrelevant variables open'):
                drop = set(free_variables(instance.clauses, instance.model, h.rng)) - {abs(v) for v in assumptions}
                for v in drop:
                    instance.model[v] = 0
                h.w.count('open variables', len(drop))
            self.shown.append([instance.model[abs(v)] for v in model])
            return 10
        instance.state = 'UNSAT'
        return 20

    def _val(self, handle, lit):
        instance = self.instances.get(handle)
        if instance is None or instance.released:
            instance = self.get(handle, 'ipasir_val')
        if instance.state != 'SAT':
            self.broken(f'ipasir_val called in state {instance.state}')
        if lit == 0:
            self.broken('ipasir_val called with literal 0')
        return instance.model.get(abs(lit), 0)     # lit if true, -lit if false

    def _failed(self, handle, lit):
        instance = self.get(handle, 'ipasir_failed')
        if instance.state != 'UNSAT':
            self.broken(f'ipasir_failed called in state {instance.state}')
        if lit not in instance.last_assumptions:
            self.broken('ipasir_failed called with a literal that was not assumed')
        return int(lit in instance.failed)

    def _set_terminate(self, handle, data, callback):
        instance = self.get(handle, 'ipasir_set_terminate')
        instance.terminate = self.hold(callback)

    def _set_learn(self, handle, data, max_length, callback):
        instance = self.get(handle, 'ipasir_set_learn')
        instance.learn = self.hold(callback)
        instance.learn_limit = max_length

    def hold(self, callback):
        """A C library only has the address: the caller must keep the callback alive."""
        if not callback:
            return None
        reference = weakref.ref(callback)
        del callback

        def call(*args):
            function = reference()
            if function is None:
                self.broken('the library calls a callback that was freed already')
            return function(*args)
        return call

    def teach(self, instance):
        """Reports some clauses as learned."""
        pool = [clause for clause in instance.clauses if 0 < len(clause) <= instance.learn_limit]
        self.h.rng.shuffle(pool)
        for clause in pool[:3]:
            instance.taught.append(list(clause))
            instance.learn(None, (ctypes.c_int32 * (len(clause) + 1))(*clause, 0))


def free_variables(clauses, model, rng):
    """Variables whose value no clause depends on, given the other values."""
    satisfied = []
    by_var = {}
    for i, clause in enumerate(clauses):
        true = [lit for lit in clause if model.get(abs(lit), 0) == lit]
        satisfied.append(len(set(true)))
        for lit in set(true):
            by_var.setdefault(abs(lit), []).append(i)
    order = list(model)
    rng.shuffle(order)
    free = []
    for v in order:
        where = by_var.get(v, [])
        if all(satisfied[i] > 1 for i in where):
            for i in where:
                satisfied[i] -= 1
            free.append(v)
    return free


def _load_library(name):
    h = hub()
    if h is None:
        return REAL_LOAD(name)
    fault = h.decide('lib', ('missing',))
    if fault == 'missing':
        raise OSError(f'{name}: cannot open shared object file: No such file or directory')
    return FakeLibrary(h, name)


class SimCDLL(ctypes.CDLL):
    def __new__(cls, name=None, *args, **kwargs):
        h = hub()
        if h is None or name is None:
            return object.__new__(cls)
        return _load_library(name)


# -- external solver processes --

class PipeReader(io.RawIOBase):
    """The read end of the solver's standard output: data arrives in arbitrary pieces."""

    def __init__(self, process):
        self.process = process

    def readable(self):
        return True

    def readinto(self, buffer):
        p = self.process
        p.start()
        if p.position >= len(p.output):
            p.exited = True
            return 0
        limit = min(len(buffer), len(p.output) - p.position)
        n = 1 + p.hub.format_rng.randrange(limit) if p.pieces and limit > 1 else limit
        if p.pieces:
            n = min(n, p.hub.format_rng.choice([1, 7, 64, 4096]))
        buffer[:n] = p.output[p.position:p.position + n]
        p.position += n
        return n

    def close(self):
        if not self.closed:
            self.process.stdout_closed = True
        super().close()


class PipeWriter(io.RawIOBase):
    def __init__(self, process):
        self.process = process

    def writable(self):
        return True

    def write(self, data):
        p = self.process
        data = bytes(data)
        if p.deaf_after is not None and len(p.received) + len(data) > p.deaf_after:
            p.exited = True
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        p.received += data
        return len(data)

    def close(self):
        if not self.closed:
            self.process.stdin_closed = True
        super().close()


class SimPopen:
    """A solver process. Everything it may do is decided when it is created."""
    counter = 0

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None, errors=None, text=None,
                 umask=-1, pipesize=-1, process_group=None):
        self.hub = h = hub()
        w = h.w
        self.args = args
        self.argv = [args] if isinstance(args, str) else [os.fspath(a) for a in args]
        self.returncode = None
        self.pid = 50000 + len(h.processes)
        self.received = b''
        self.output = b''
        self.position = 0
        self.exited = False
        self.stdin_closed = stdin is None
        self.stdout_closed = stdout is None
        self.started = False
        self.killed = False
        self.deaf_after = None
        self.status = 0
        self.verdict = None
        h.processes.append(self)
        h.w.count('solver processes')
        if h.format_rng is None:
            h.format_rng = w.c.subrng('solver output format')
        fault = h.decide('cmd', ('missing', 'crash-early', 'crash-status', 'crash-model', 'torn-literal', 'unknown', 'deaf', 'crash-silent', 'garbage', 'intr'))
        self.fault = fault
        if fault == 'missing':
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', self.argv[0])
        if fault == 'deaf':
            self.deaf_after = h.format_rng.choice([0, 10, 1000])
        self.lag = h.format_rng.randrange(3) if h.formats else 0     # polls before the exit is visible
        self.pieces = h.formats and h.format_rng.random() < 0.7
        self.quick = h.formats and h.format_rng.random() < 0.3
        text_mode = encoding or errors or text or universal_newlines
        self.stdin = self.stdout = self.stderr = None
        if stdin == subprocess.PIPE:
            self.stdin = io.BufferedWriter(PipeWriter(self), 8192 if bufsize < 0 else max(bufsize, 1))
            if text_mode:
                self.stdin = io.TextIOWrapper(self.stdin, encoding=encoding or 'utf-8', write_through=True)
        else:
            self.stdin_closed = True
        if stdout == subprocess.PIPE:
            self.stdout = io.BufferedReader(PipeReader(self), 8192)
            if text_mode:
                self.stdout = io.TextIOWrapper(self.stdout, encoding=encoding or 'utf-8')
        elif stdout is not None and hasattr(stdout, 'write'):
            self.capture = stdout
        if stderr == subprocess.PIPE:
            self.stderr = io.BufferedReader(io.BytesIO(b''))
            if text_mode:
                self.stderr = io.TextIOWrapper(self.stderr, encoding='utf-8')

    # the solver itself
    def start(self):
        if self.started:
            return
        if not self.stdin_closed:
            # a solver reads its whole input before it answers
            raise SimDeadlock('waiting for the answer of a solver that still waits for the end of its input')
        self.started = True
        h = self.hub
        if self.fault == 'intr':
            raise KeyboardInterrupt()
        if self.fault == 'crash-silent' or self.deaf_after is not None:
            self.output, self.status = b'', -11
            return
        data = self.received
        if not data.strip():
            for arg in self.argv[1:]:
                if os.path.isfile(arg):
                    saved, Current.world = Current.world, None
                    try:
                        with open(arg, 'rb') as f:
                            data = f.read()
                    finally:
                        Current.world = saved
                    self.input_file = arg
                    break
        self.output, self.status = self.respond(data)

    def respond(self, data):
        h, rng = self.hub, self.hub.format_rng
        try:
            clauses, variables = parse_dimacs(data.decode('ascii'))
        except (ValueError, UnicodeDecodeError) as e:
            h.answers.append(('cmd', None))
            h.w.log('solver: bad input', str(e))
            self.bad_input = str(e)
            return b'c parse error\n', 1
        self.clauses, self.variables = clauses, variables
        h.problems.append(clauses)
        if h.scripted is not None:
            sat, model = (True, h.scripted[0]) if h.scripted else (False, None)
        else:
            sat, model = engine(clauses, h)
        self.verdict = sat
        vary = h.formats
        out = []

        def comments(p):
            while vary and rng.random() < p:
                out.append(rng.choice(['c\n', 'c comment\n', 'c s UNSATISFIABLE\n', 'c v 1 2 3 0\n', 'c --- restarts 12 ---\n']))
        comments(0.6)
        head = ''.join(out)
        out = []
        if sat:
            values = {abs(v): v for v in model}
            model = [values.get(v, -v) for v in range(1, variables + 1)]
            h.models.append(model)
            h.w.log('solver process found', fingerprint(model))
            out.append('s SATISFIABLE\n')
            literals = [str(v) for v in model] + ['0']
            i = 0
            width = rng.choice([1, 3, 12, 40, 100000]) if vary else 12
            if width == 1 and len(literals) > 3000:
                width = 12
            alone = vary and rng.random() < 0.3
            while i < len(literals):
                piece = literals[i:i + width]
                if alone and len(piece) > 1 and piece[-1] == '0' and i + width >= len(literals):
                    out.append('v ' + ' '.join(piece[:-1]) + '\n')
                    piece = ['0']
                out.append('v ' + ' '.join(piece) + (' ' if vary and rng.random() < 0.1 else '') + '\n')
                i += width
                if i < len(literals) and vary and rng.random() < 0.05:
                    out.append('c still writing\n')
            body = ''.join(out)
            out = []
            if vary and rng.random() < 0.2:
                body = body[:-1]    # no newline at the end
            else:
                comments(0.4)
            tail = ''.join(out)
            status = 10
        else:
            out.append('s UNSATISFIABLE\n')
            comments(0.4)
            body, tail, status = ''.join(out), '', 20
        text = head + body + tail
        answer = sat
        fault = self.fault
        if fault == 'crash-early':
            text, status, answer = head[:rng.randrange(len(head) + 1)], -11, None
        elif fault == 'crash-status':
            cut = len(head) + rng.randrange(0, len('s SATISFIABLE') if sat else len('s UNSATISFIABLE'))
            text, status, answer = text[:cut], -9, None
        elif fault == 'unknown':
            text, status, answer = head + rng.choice(['s UNKNOWN\n', 's INDETERMINATE\n', 's \n', 's ERROR\n']), 0, None
        elif fault == 'garbage':
            text, status, answer = head + 'Segmentation fault\n', 139, None
        elif fault in ('crash-model', 'torn-literal'):
            if sat:
                start = len(head) + len('s SATISFIABLE\n')
                end = len(head) + len(body.rstrip('\n').rstrip())
                if fault == 'torn-literal':
                    spots = [i for i in range(start, end - 1) if text[i].isdigit() and text[i - 1].isdigit() or text[i - 1].isdigit() and text[i] == ' ']
                    cut = rng.choice(spots) if spots else start
                else:
                    cut = rng.randrange(start, end) if end > start else start
                cut = min(cut, end - 1)
                text, status, answer = text[:cut], (10 if vary and rng.random() < 0.3 else -6), None     # 10: the end of the output was lost
            else:
                cut = len(head) + rng.randrange(0, len('s UNSATISFIABLE'))
                text, status, answer = text[:cut], -6, None
        h.answers.append(('cmd', answer))
        h.w.log('solver process answers', {True: 'sat', False: 'unsat', None: 'nothing usable'}[answer], f'fault={fault}')
        return text.encode(), status

    # the parent's view
    def poll(self):
        if self.returncode is None:
            if self.started and self.quick and len(self.output) - self.position <= 65536:
                self.exited = True      # it has gone already, what it wrote is still in the pipe
            if self.exited or self.killed or self.deaf_after is not None and self.exited:
                if self.lag > 0:
                    self.lag -= 1
                    return None
                self.returncode = -9 if self.killed else self.status
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            if not self.started and not self.killed and not self.exited:
                if self.stdin_closed:
                    self.start()
                else:
                    raise SimDeadlock('waiting for a solver that still waits for its input')
            if self.started and not self.killed and not self.exited and not self.stdout_closed and len(self.output) - self.position > 65536:
                raise SimDeadlock('waiting for a solver that is blocked on a full pipe')
            self.exited = True
            self.returncode = -9 if self.killed else self.status
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None:
            if input is not None:
                try:
                    self.stdin.write(input)
                except BrokenPipeError:
                    pass
            try:
                self.stdin.close()
            except BrokenPipeError:
                pass
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        self.exited = True
        self.wait()
        return out, err

    def kill(self):
        self.killed = True
        self.exited = True

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, tb):
        if self.stdout:
            self.stdout.close()
        if self.stderr:
            self.stderr.close()
        try:
            if self.stdin:
                try:
                    self.stdin.close()
                except BrokenPipeError:
                    pass
        finally:
            if exc_type == KeyboardInterrupt:
                self.exited = True
                self.returncode = -2
                return
            if self.stdout_closed and not self.started:
                self.exited = True
                self.returncode = -13
            self.wait()


def parse_dimacs(text):
    clauses, clause = [], []
    header = None
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith('c'):
            continue
        if line.startswith('p'):
            parts = line.split()
            if header is not None or parts[1] != 'cnf':
                raise ValueError('bad header')
            header = int(parts[2]), int(parts[3])
            continue
        if header is None:
            raise ValueError('clause before header')
        for token in line.split():
            lit = int(token)
            if lit == 0:
                clauses.append(clause)
                clause = []
            else:
                if abs(lit) > header[0]:
                    raise ValueError('variable out of range')
                clause.append(lit)
    if header is None:
        raise ValueError('no header')
    if clause:
        raise ValueError('unterminated clause')
    if len(clauses) != header[1]:
        raise ValueError(f'{len(clauses)} clauses, header says {header[1]}')
    return clauses, header[0]


class DispatchPopen(RealPopen):
    def __new__(cls, *args, **kwargs):
        if hub() is None:
            return object.__new__(cls)
        return SimPopen(*args, **kwargs)


def install():
    pysat.solvers.Solver = SimSolver
    subprocess.Popen = DispatchPopen
    ctypes.cdll.LoadLibrary = _load_library
    ctypes.CDLL = SimCDLL
