"""Simulated processes: one call of a tool's main() with its own argv, standard
streams, modules, pid and clock, which faults may end at any effect or line."""
import io
import os
import random
import sys
import tempfile
import threading
import time
import traceback

from . import loader
from .core import Current, HarnessError, SimDeadlock, SimKill, Violation

REAL = {name: getattr(time, name) for name in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns', 'perf_counter_ns')}
REAL_GETPID = os.getpid
REAL_URANDOM = os.urandom


class Process:
    def __init__(self, world, argv):
        world.pids += 1
        self.w = world
        self.pid = 1000 + world.pids
        self.argv = argv
        self.dead = False
        self.power = False
        self.interrupted = False
        self.hazard = 0             # 1/hazard chance of a fault at each effect
        self.kinds = frozenset()
        self.faults_left = 1
        self.faulted = []
        self.points = 0
        self.rng = random.Random(self.pid * 7919)


class OutRaw(io.RawIOBase):
    """Standard output: what reached it is what a reader of the pipe sees."""

    def __init__(self, proc, name, sink=None):
        self.proc = proc
        self.label = name
        self.data = bytearray()
        self.sink = sink
        self.broken = False

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        if self.proc.dead:
            return len(data)
        if self.broken:
            raise BrokenPipeError(32, 'Broken pipe')
        if self.label == 'stdout' and self.proc.w.fs is not None:
            try:
                self.proc.w.fs.point('stdout', None)
            except BrokenPipeError:
                self.broken = True
                raise
        self.data += data
        if self.sink is not None:
            self.sink(data)
        return len(data)


class Guarded(io.TextIOWrapper):
    """A dead process prints nothing and goes no further."""
    proc = None

    def write(self, text):
        if self.proc is not None and self.proc.dead:
            raise SimKill()
        return super().write(text)


def text_out(proc, name, sink=None):
    raw = OutRaw(proc, name, sink)
    stream = Guarded(io.BufferedWriter(raw, 8192), encoding='utf-8', newline='\n', write_through=(name == 'stderr'))
    stream.proc = proc
    return raw, stream


class Result:
    def __init__(self):
        self.code = None        # exit status; None: killed
        self.out = ''
        self.err = ''
        self.exception = None
        self.killed = False
        self.power = False
        self.interrupted = False
        self.faulted = []
        self.points = 0

    @property
    def lines(self):
        return self.out.splitlines()

    def __repr__(self):
        return f'exit={self.code} killed={self.killed} exception={self.exception!r} out={self.out[-200:]!r} err={self.err[-200:]!r}'


def run(world, module, argv, stdin=b'', hazard=0, kinds=(), faults=1, interrupt_line=None, fresh=True, call=None, trace_modules=('factorio_sat',)):
    """Runs `<module>.main()` as a simulated process and returns its Result.

    interrupt_line: raise KeyboardInterrupt at the n-th executed source line."""
    proc = Process(world, [module.split('.')[-1], *argv])
    proc.hazard, proc.kinds, proc.faults_left = hazard, frozenset(kinds), faults
    if isinstance(stdin, str):
        stdin = stdin.encode('utf-8')
    result = Result()
    out_raw, out = text_out(proc, 'stdout')
    err_raw, err = text_out(proc, 'stderr')
    source = io.TextIOWrapper(io.BufferedReader(io.BytesIO(stdin)), encoding='utf-8') if not hasattr(stdin, 'readline') else stdin

    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd(), dict(os.environ), tempfile.tempdir
    if fresh:
        loader.purge()
    world.log('start', ' '.join(map(str, proc.argv)), 'pid', proc.pid)
    tracer = None
    if interrupt_line is not None:
        tracer = line_interrupter(world, proc, interrupt_line, trace_modules)
    try:
        if world.fs is not None:
            os.chdir(world.fs.work)
            tempfile.tempdir = world.fs.tmp
        sys.argv = [str(a) for a in proc.argv]
        sys.stdin, sys.stdout, sys.stderr = source, out, err
        random.seed(proc.pid)
        world.proc = proc
        Current.world = world
        try:
            if call is not None:
                entry = call
            else:
                entry = loader.load(module).main
            if tracer:
                sys.settrace(tracer)
            try:
                code = entry()
            finally:
                if tracer:
                    sys.settrace(None)
            out.flush()
            result.code = 0 if code is None else code if isinstance(code, int) else 1
        except SystemExit as e:
            out_quiet(out)
            result.code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            result.exception = e
        except SimKill:
            pass
        except KeyboardInterrupt as e:
            out_quiet(out)
            result.code = 130
            result.exception = e
        except (Violation, HarnessError):
            raise
        except SimDeadlock as e:
            result.code = None
            result.exception = e
            world.violate('no-progress', f'{" ".join(proc.argv)}: {e}')
        except Exception as e:
            out_quiet(out)
            result.code = 1
            result.exception = e
            world.log('exception', type(e).__name__, str(e).replace(str(world.root), '')[:200])
        finally:
            killed = proc.dead
            proc.dead = True    # whatever is left of it has no effects any more
            world.proc = None
            Current.world = None
    finally:
        sys.settrace(None)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved[:4]
        os.chdir(saved[4])
        tempfile.tempdir = saved[6]
    result.killed = killed
    if killed:
        result.code = None
    result.power = proc.power
    result.interrupted = proc.interrupted
    result.faulted = proc.faulted
    result.points = proc.points
    result.out = bytes(out_raw.data).decode('utf-8', 'replace')
    result.out_bytes = bytes(out_raw.data)
    result.err = bytes(err_raw.data).decode('utf-8', 'replace')
    if result.exception is not None and not isinstance(result.exception, (SystemExit, KeyboardInterrupt)):
        result.err += ''.join(traceback.format_exception(result.exception))[-2000:]
        result.exception.__traceback__ = None
    world.log('end', proc.argv[0], 'killed' if killed else f'exit {result.code}')
    world.check()
    if world.fs is not None and proc.power:
        world.fs.power_loss()
    return result


def out_quiet(stream):
    """The interpreter flushes standard output on its way out."""
    try:
        stream.flush()
    except (OSError, ValueError):
        pass
    except KeyboardInterrupt:
        pass


def line_interrupter(world, proc, target, modules):
    """Ctrl-C arrives between two source lines of the code under test."""
    state = {'n': 0}
    prefix = os.path.join(loader.REPO, 'factorio_sat') + os.sep

    def local(frame, event, arg):
        if event == 'line' and not proc.dead and not proc.interrupted and threading.current_thread() is threading.main_thread():
            state['n'] += 1
            if state['n'] == target:
                proc.interrupted = True
                world.fault('intr@line')
                world.log('Ctrl-C at', os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise KeyboardInterrupt()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            return local
        return None
    return tracer


# -- clock, pid and entropy seams --

def _sim_time(real):
    def call():
        w = Current.world
        if w is None:
            return real()
        return 1_600_000_000.0 + w.now if real is REAL['time'] else w.now
    return call


def _sleep(seconds):
    w = Current.world
    if w is None:
        return REAL['sleep'](seconds)
    w.now += max(0, seconds)


def _getpid():
    w = Current.world
    if w is None or w.proc is None:
        return REAL_GETPID()
    return w.proc.pid


def _urandom(n):
    w = Current.world
    if w is None or w.proc is None:
        return REAL_URANDOM(n)
    return bytes(w.proc.rng.randrange(256) for _ in range(n))


class _Names:
    characters = 'abcdefghijklmnopqrstuvwxyz0123456789_'

    def __iter__(self):
        return self

    def __next__(self):
        w = Current.world
        rng = w.proc.rng if w is not None and w.proc is not None else random.Random()
        return ''.join(rng.choice(self.characters) for _ in range(8))


def install():
    for name in ('time', 'monotonic', 'perf_counter'):
        setattr(time, name, _sim_time(REAL[name]))
    time.sleep = _sleep
    os.getpid = _getpid
    os.urandom = _urandom
    names = _Names()
    tempfile._get_candidate_names = lambda: names
