"""Simulated event loop and executors.

The loop is asyncio's own; only its selector and clock are replaced.  When the loop
has nothing ready the seeded scheduler picks which running job finishes, in any
order, how long it took, and whether a worker or the whole process dies first."""
import asyncio
import asyncio.events
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import pickle
import selectors

from .core import Current, HarnessError, SimDeadlock, SimKill

Executor = concurrent.futures.Executor
Future = concurrent.futures.Future
REAL_WAIT = concurrent.futures.wait
REAL_AS_COMPLETED = concurrent.futures.as_completed
BrokenProcessPool = concurrent.futures.process.BrokenProcessPool


class SimFuture(Future):
    def _pump(self):
        while not self.done():
            scheduler().step('a blocking wait for a result')

    def result(self, timeout=None):
        if not self.done():
            self._pump()
        return super().result(0)

    def exception(self, timeout=None):
        if not self.done():
            self._pump()
        return super().exception(0)


class Job:
    def __init__(self, number, executor, fn, args, kwargs):
        self.number = number
        self.executor = executor
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.future = SimFuture()
        self.running = False
        self.label = f'job{number}'


class Scheduler:
    """Owns every job of the current simulated process."""

    def __init__(self, world):
        self.w = world
        self.jobs = []
        self.numbers = 0
        self.executors = []
        self.runner = default_runner   # (world, job) -> value, or raises
        self.on_submit = None
        self.on_complete = None
        self.outcomes = None           # (world, job) -> 'ok' | 'error' | 'die'
        self.max_steps = 20000
        self.steps = 0
        self.failures = 0

    def reset(self):
        self.jobs = []
        self.executors = []
        self.steps = 0

    def running(self):
        return [j for j in self.jobs if j.running]

    def submit(self, executor, fn, args, kwargs):
        w = self.w
        if w.proc is None or w.proc.dead:
            raise SimKill()
        self.numbers += 1
        job = Job(self.numbers, executor, fn, args, kwargs)
        self.jobs.append(job)
        if self.on_submit:
            self.on_submit(job)
        w.log('submit', job.label)
        self.start_some(executor)
        return job.future

    def start_some(self, executor):
        slots = executor.slots - sum(1 for j in self.jobs if j.running and j.executor is executor)
        for job in list(self.jobs):
            if slots <= 0:
                break
            if job.executor is not executor or job.running:
                continue
            if not job.future.set_running_or_notify_cancel():
                self.jobs.remove(job)
                continue
            job.running = True
            slots -= 1

    def point(self):
        """The process may die, be interrupted or lose a worker while it waits."""
        p = self.w.proc
        if p is None or p.dead:
            raise SimKill()
        p.points += 1
        if p.hazard and self.w.c.chance(p.hazard, 'fault while waiting?'):
            kinds = [k for k in ('kill', 'intr', 'power', 'worker-death') if k in p.kinds]
            if kinds:
                kind = self.w.c.pick(kinds, 'fault kind')
                self.w.fault(f'{kind}@wait')
                p.faults_left -= 1
                p.faulted.append((kind, 'wait'))
                if p.faults_left <= 0:
                    p.hazard = 0
                if kind == 'intr':
                    p.interrupted = True
                    raise KeyboardInterrupt()
                if kind == 'worker-death':
                    jobs = self.running()
                    if jobs:
                        self.break_pool(jobs[self.w.c.draw(len(jobs), 'victim')].executor)
                        return True
                    return False
                self.w.fs.kill(kind == 'power')

    def break_pool(self, executor):
        executor.broken = True
        self.w.log('worker process dies')
        for job in list(self.jobs):
            if job.executor is not executor:
                continue
            self.jobs.remove(job)
            if self.on_complete:
                self.on_complete(job, 'die', None)
            if not job.running and not job.future.set_running_or_notify_cancel():
                continue
            job.future.set_exception(BrokenProcessPool('A process in the process pool was terminated abruptly while the future was running or pending.'))

    def step(self, why):
        """Lets one running job finish."""
        w = self.w
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimDeadlock(f'more than {self.max_steps} jobs were needed')
        if self.point():
            return
        running = self.running()
        if not running:
            raise SimDeadlock(f'{why}, but nothing is running')
        job = running[w.c.draw(len(running), 'which job finishes')]
        w.now += 1 + w.c.draw(50, 'duration')
        self.jobs.remove(job)
        outcome = self.outcomes(w, job) if self.outcomes else 'ok'
        if outcome == 'die':
            w.fault('worker-death@job')
            self.jobs.insert(0, job)
            self.break_pool(job.executor)
            return
        value = error = None
        if outcome == 'error':
            error = self.error(w, job)
            w.fault(f'worker-{type(error).__name__}@job')
        else:
            try:
                value = self.runner(w, job)
            except (SimKill, HarnessError):
                raise
            except BaseException as e:
                error = e
        w.log('finish', job.label, 'error ' + type(error).__name__ if error is not None else 'ok')
        if self.on_complete:
            self.on_complete(job, 'error' if error is not None else 'ok', value)
        if error is not None:
            job.future.set_exception(error)
        else:
            job.future.set_result(value)
        self.start_some(job.executor)

    def error(self, w, job):
        return [RuntimeError('Solver process crashed'), MemoryError(), OSError(12, 'Cannot allocate memory'), ValueError('bad solver')][w.c.draw(4, 'error')]


def default_runner(world, job):
    """Runs the job in its own (simulated) worker process: arguments and result are copies."""
    fn, args, kwargs = pickle.loads(pickle.dumps((job.fn, job.args, job.kwargs)))
    proc, world.proc = world.proc, None
    try:
        return pickle.loads(pickle.dumps(fn(*args, **kwargs)))
    finally:
        world.proc = proc


def scheduler():
    return Current.world.sched


class SimExecutor(Executor):
    def __init__(self, max_workers=None, *args, **kwargs):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        w = Current.world
        self.slots = max_workers if max_workers is not None else w.cpus
        self.broken = False
        self.closed = False
        self.sched = w.sched
        self.sched.executors.append(self)

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise BrokenProcessPool('A child process terminated abruptly, the process pool is not usable anymore')
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        return self.sched.submit(self, fn, args, kwargs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        p = self.sched.w.proc
        if p is None or p.dead:
            return
        mine = [j for j in self.sched.jobs if j.executor is self]
        if p.interrupted:   # the terminal's Ctrl-C reaches the workers too
            for job in mine:
                self.sched.jobs.remove(job)
            return
        if cancel_futures:
            for job in mine:
                if not job.running and job.future.cancel():
                    self.sched.jobs.remove(job)
        while wait and any(j.executor is self for j in self.sched.jobs):
            self.sched.step('shutdown')


def _executor(real):
    class Dispatch(real):
        def __new__(cls, *args, **kwargs):
            w = Current.world
            if w is None or getattr(w, 'sched', None) is None:
                return real(*args, **kwargs)
            return SimExecutor(*args, **kwargs)
    Dispatch.__name__ = real.__name__
    return Dispatch


def _wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = set(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return REAL_WAIT(fs, timeout, return_when)
    while True:
        done = {f for f in fs if f.done()}
        if len(done) == len(fs):
            break
        if return_when == concurrent.futures.FIRST_COMPLETED and done:
            break
        if return_when == concurrent.futures.FIRST_EXCEPTION and any(not f.cancelled() and f.exception() for f in done):
            break
        scheduler().step('wait')
    return concurrent.futures._base.DoneAndNotDoneFutures(done, fs - done)


def _as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from REAL_AS_COMPLETED(fs, timeout)
        return
    while fs:
        for f in fs:
            if f.done():
                fs.remove(f)
                yield f
                break
        else:
            scheduler().step('as_completed')


class SimSelector(selectors.SelectSelector):
    def __init__(self, world):
        super().__init__()
        self.w = world

    def select(self, timeout=None):
        ready = super().select(0)
        if Current.world is not self.w:
            return ready
        if ready or timeout == 0:
            return ready
        sched = self.w.sched
        if timeout is not None and timeout > 0:
            if not sched.running() or self.w.c.flag('timer first'):
                sched.point()
                self.w.now += timeout
                return super().select(0)
        sched.step('waiting for events')
        while sched.running() and self.w.c.chance(4, 'another job finishes at once'):
            sched.step('waiting for events')
        return super().select(0)


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, world):
        self._world = world
        super().__init__(SimSelector(world))

    def time(self):
        return self._world.now


REAL_NEW_EVENT_LOOP = asyncio.new_event_loop


def _new_event_loop():
    w = Current.world
    if w is None or getattr(w, 'sched', None) is None:
        return REAL_NEW_EVENT_LOOP()
    return SimLoop(w)


def install():
    asyncio.new_event_loop = _new_event_loop
    asyncio.events.new_event_loop = _new_event_loop
    process_pool = concurrent.futures.ProcessPoolExecutor
    thread_pool = concurrent.futures.ThreadPoolExecutor
    dispatch_process = _executor(process_pool)
    dispatch_thread = _executor(thread_pool)
    concurrent.futures.ProcessPoolExecutor = dispatch_process
    concurrent.futures.ThreadPoolExecutor = dispatch_thread
    concurrent.futures.process.ProcessPoolExecutor = dispatch_process
    concurrent.futures.thread.ThreadPoolExecutor = dispatch_thread
    concurrent.futures.wait = _wait
    concurrent.futures.as_completed = _as_completed
