"""The optimal-balancer tool under simulation: scenario, ground truth, reference model.

Worker answers come either from a synthetic ground truth (any monotone existence
relation, far richer than real small balancers) or from the real solve path.
The reference model below is independent of the code under test."""
import json
import math
import os
import pickle

from . import aio, fs as simfs, loader, proc
from .core import Current, HarnessError, Violation

MODULE = 'factorio_sat.calculate_optimal'

# name, text.  The contents are pairwise different, so a job can be attributed by content.
NETWORKS = {
    '2x2': '0 0 1 1\n',
    '1x2': '-1 0 1 1\n',
    '2x1': '3 3 1 -1\n',
    '1x3': '0 0 1 1\n-1 1 2 2\n-1 1 2 0\n',
    '3x1': '# three to one\n2 2 1 -1\n1 2 3 -1\n',
    '1x4': '0 -1 1 1\n1 -1 2 2\n1 -1 2 2\n',
    '4x2': '0 0 1 1\n0 0 1 1\n1 1 2 -1\n1 1 2 -1\n',
    '3x2': '1 1 0 0\n2 2 3 -1\n3 3 2 1\n3 3 2 1\n',
    '10x2': '9 9 1 1\n' * 5 + '1 1 2 -1\n' * 5 + '2 2 3 -1\n' * 2 + '2 3 3 -1\n',
    '2-2-alt': '5 5 7 7\n',
    '2x10': '7 7 5 5\n',
    '1x10': '-1 7 9 9\n',
    'custom': '8 8 6 6\n',
    '1x2b': '# comment\n\n-1 4 6 6\n',
}
# several need not be balancers: only their size matters to the search


def parse_network(text):
    network = []
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        a, b, c, d = (None if int(v) == -1 else int(v) for v in line.split())
        network.append(((a, b), (c, d)))
    return network


def network_height(network):
    """max(belts in, belts out): colours consumed more often than produced are inputs."""
    balance = {}
    for ins, outs in network:
        for colour in ins:
            balance[colour] = balance.get(colour, 0) + 1
        for colour in outs:
            balance[colour] = balance.get(colour, 0) - 1
    balance.pop(None, None)
    ins = [n for n in balance.values() if n > 0]
    outs = [-n for n in balance.values() if n < 0]
    if len(ins) != 1 or len(outs) != 1:
        raise HarnessError(f'bad network: {balance}')
    return max(ins[0], outs[0])


def key(size):
    return ','.join(map(str, size))


def unkey(text):
    size = tuple(int(v) for v in text.split(','))
    if len(size) != 3:
        raise ValueError('bad size')
    return size


def le(a, b):
    return all(x <= y for x, y in zip(a, b))


class Facts:
    """What is known about one network: reference semantics."""

    def __init__(self, exist=None, solutions=None):
        self.exist = dict(exist or {})
        self.solutions = dict(solutions or {})

    def verdict(self, size):
        for other, value in self.exist.items():
            if value and le(other, size):
                return True
        for other, value in self.exist.items():
            if not value and le(size, other):
                return False
        return None

    def add(self, size, solution):
        self.exist[size] = solution is not None
        if solution is not None:
            self.solutions[size] = solution

    def copy(self):
        return Facts(self.exist, self.solutions)


def candidates(objective, height, splitters, ul):
    """The sizes an objective considers, best first, grouped by equal loss."""
    if objective == 'length':
        width = 3
        while True:
            if (width - 2) * height >= 2 * splitters:
                yield [(ul, width, height)]
            width += 1
    else:
        area = 1
        while True:
            if area >= 2 * splitters:
                group = [(ul, area // h + 2, h) for h in range(height, 2 * height + 1) if area % h == 0]
                if group:
                    yield group
            area += 1


def loss(objective, size):
    _, width, height = size
    return (height, width) if objective == 'length' else (width - 2) * height


def finished(objective, height, splitters, ul, facts):
    """Whether the optimum for this objective is known; and the undecided sizes that precede it."""
    undecided = []
    for i, group in enumerate(candidates(objective, height, splitters, ul)):
        verdicts = [facts.verdict(s) for s in group]
        if any(v is True for v in verdicts):
            # sizes of equal loss need not be decided once one of them exists
            return not undecided, undecided
        undecided += [s for s, v in zip(group, verdicts) if v is None]
        if undecided or i > 400:
            return False, undecided


class Truth:
    """A synthetic monotone existence relation."""

    def __init__(self, minimal):
        self.minimal = minimal

    def exists(self, size):
        return any(le(m, size) for m in self.minimal)


def draw_truth(c, height, splitters):
    minimal = []
    base_w = 2 + max(1, math.ceil(2 * splitters / height)) + c.draw(4, 'extra width')
    minimal.append((4 if not c.chance(4, 'no undergrounds needed') else 0, base_w, height))
    for _ in range(c.draw(4, 'other minimal sizes')):
        h = height + c.draw(height + 1, 'height')
        w = 2 + max(1, math.ceil(2 * splitters / h)) + c.draw(4, 'extra width')
        minimal.append((c.pick([4, 0, 6, 8, 2], 'ul'), w, h))
    return Truth(minimal)


TILES = [
    {'type': 'belt', 'input_direction': 0, 'output_direction': 0},
    {'type': 'empty'},
    {'type': 'underground_belt', 'direction': 0, 'is_input': True},
]


def layout(tag, size, number):
    """A layout unlike any other (the tool must store and report it verbatim)."""
    _, width, height = size
    grid = [[{'tile': TILES[0] if (x, y) == (0, 0) else TILES[(x * 7 + y * 3 + number) % 2]} for x in range(width)] for y in range(height)]
    grid[0][0] = dict(grid[0][0], tag=tag)
    return grid


def norm(value):
    """Lists and tuples compare equal; keys of mappings become strings."""
    if isinstance(value, (list, tuple)):
        return [norm(v) for v in value]
    return value


class Scenario:
    """One directory with networks, a database and any number of tool invocations."""

    def __init__(self, world, names, database='optimal.json', blind=False, texts=NETWORKS):
        self.w = w = world
        w.fs = simfs.SimFS(w, w.root)
        w.sched = aio.Scheduler(w)
        w.cpus = 1 + w.c.draw(4, 'cpus')
        self.db = database
        self.names = names
        self.blind = blind
        self.networks = {}
        self.height = {}
        self.splitters = {}
        self.truth = {}
        self.unidentified = 0
        self.answers = {}       # (name, size) -> solution or None, delivered to the tool
        self.initial = {}       # name -> Facts
        self.foreign = {}       # name -> raw entry
        self.known = {}         # name -> Facts: what the last complete version on disk said
        self.version = None     # bytes of that version
        self.requests = []      # of the current invocation
        self.judge_submit = []
        self.history = []       # every version seen on disk
        self.delivered = []     # answers of the current invocation
        self.failed_jobs = 0
        for name in names:
            text = texts[name]
            w.fs.put('networks/' + name, text)
            self.networks[name] = parse_network(text)
            self.height[name] = network_height(self.networks[name])
            self.splitters[name] = len(self.networks[name])
        self.by_content = {json.dumps(norm(n)): name for name, n in self.networks.items()}
        w.sched.on_submit = self.submitted
        w.sched.on_complete = self.completed
        w.sched.runner = self.answer
        self.mode = 'synthetic'
        self.memo = {}

    # -- set up --
    def draw_truths(self):
        for name in self.names:
            self.truth[name] = draw_truth(self.w.c, self.height[name], self.splitters[name])

    def draw_database(self):
        """An existing database: facts that agree with the truth, and other people's entries."""
        c = self.w.c
        kind = c.draw(4, 'existing database')
        if kind == 0:
            return
        data = {}
        for name in self.names:
            if kind == 1:
                data[name] = {'exist': {}, 'solutions': {}}
                continue
            if c.chance(4, 'network without entry'):
                continue
            facts = Facts()
            for _ in range(c.draw(5, 'facts')):
                size = (c.pick([4, 6, 8, 0, 10, 12], 'ul'), 3 + c.draw(7, 'w'), self.height[name] + c.draw(self.height[name] + 1, 'h'))
                if self.truth[name].exists(size):
                    facts.add(size, layout(f'old-{name}-{key(size)}', size, len(facts.exist)))
                elif facts.verdict(size) is None:
                    facts.add(size, None)
            data[name] = {'exist': {key(s): v for s, v in facts.exist.items()}, 'solutions': {key(s): v for s, v in facts.solutions.items()}}
        if kind == 3 or c.chance(3, 'entry of another network'):
            for i in range(1 + c.draw(2, 'foreign entries')):
                data[f'{20 + i}x{30 + i}'] = {'exist': {'4,9,30': False, '8,12,31': True}, 'solutions': {'8,12,31': layout(f'foreign{i}', (8, 12, 3), i)}}
        data = dict(c.shuffle(list(data.items()), 'entry order'))
        self.w.fs.put(self.db, json.dumps(data, indent=c.pick([None, 1, 4], 'indent')))

    def begin(self):
        """Takes the state on disk as the starting point."""
        self.w.fs.sync_all()
        self.adopt()
        self.initial = {n: f.copy() for n, f in self.known.items()}
        raw = self.w.fs.get(self.db)
        self.initial_present = raw is not None
        if raw is not None:
            data = json.loads(raw)
            self.foreign = {n: v for n, v in data.items() if n not in self.names}

    def parse(self, raw):
        """name -> Facts of a database image; raises if it is not a complete database."""
        data = json.loads(raw)
        if not isinstance(data, dict):
            raise ValueError('not an object')
        result = {}
        for name in self.names:
            entry = data.get(name)
            facts = Facts()
            if entry is not None:
                for k, v in entry.get('exist', {}).items():
                    if not isinstance(v, bool):
                        raise ValueError(f'{name} {k}: {v!r}')
                    facts.exist[unkey(k)] = v
                for k, v in entry.get('solutions', {}).items():
                    facts.solutions[unkey(k)] = v
            result[name] = facts
        return result, data

    def adopt(self):
        raw = self.w.fs.get(self.db)
        self.version = raw
        if raw is None:
            self.known = {n: Facts() for n in self.names}
        else:
            self.known, _ = self.parse(raw)
            self.history.append(raw)

    # -- jobs --
    def identify(self, job):
        if job.__dict__.get('what') is not None:
            return job.what
        name = None
        ints = []
        for value in [*job.args, *job.kwargs.values()]:
            stack = [value]
            try:
                text = json.dumps(norm(value))
            except (TypeError, ValueError):
                text = None
            if text in self.by_content:
                name = self.by_content[text]
                continue
            if isinstance(value, str):
                if os.path.basename(value) in self.networks:
                    name = os.path.basename(value)
                continue
            content = getattr(value, 'network', None)
            if content is not None and json.dumps(norm(content)) in self.by_content:
                name = self.by_content[json.dumps(norm(content))]
                continue
            if isinstance(value, bool):
                continue
            if isinstance(value, int):
                ints.append(value)
            elif isinstance(value, (list, tuple)) and len(value) == 3 and all(isinstance(v, int) for v in value):
                ints += list(value)
        what = (name, tuple(ints)) if name is not None and len(ints) == 3 else None
        job.what = what
        if what is None:
            self.unidentified += 1
        else:
            job.label = f'{name}@{key(what[1])}'
        return what

    def submitted(self, job):
        what = self.identify(job)
        if what is not None:
            self.requests.append(what)
            for judge in self.judge_submit:
                judge(*what)

    def answer(self, world, job):
        what = self.identify(job)
        if self.mode == 'synthetic' and what is not None:
            pickle.dumps((job.fn, job.args, job.kwargs))   # as the real pool does
            name, size = what
            if self.truth[name].exists(size):
                return layout(f'{name}-{key(size)}-{job.number}', size, job.number)
            return None
        blob = pickle.dumps((job.fn, job.args, job.kwargs))
        hub = getattr(world, 'hub', None)
        if blob in MEMO and hub is None:
            return pickle.loads(MEMO[blob])
        given = len(hub.answers) if hub is not None else 0
        value = aio.default_runner(world, job)
        if hub is not None:
            verdicts = [v for _, v in hub.answers[given:]]
            if value is None and False not in verdicts:
                world.violate('failure-taken-for-answer', f'{job.label}: the worker reported that no layout exists although the solver never said so (it said {verdicts})')
            if value is not None and True not in verdicts:
                world.violate('failure-taken-for-answer', f'{job.label}: the worker reported a layout although the solver never completed one (it said {verdicts})')
        if self.mode == 'record':
            MEMO[blob] = pickle.dumps(value)
        return value

    def completed(self, job, outcome, value):
        what = self.identify(job)
        if outcome != 'ok':
            self.failed_jobs += 1
        if what is not None and outcome == 'ok':
            self.answers[what] = value if value is None else norm(value)
            self.delivered.append(what)

    # -- running the tool --
    def tool(self, *argv, **kwargs):
        self.requests = []
        self.delivered = []
        self.failed_jobs = 0
        self.w.sched.reset()
        return proc.run(self.w, MODULE, ['--database', self.db, *map(str, argv)], **kwargs)

    # -- judging --
    def facts_allowed(self, facts, data):
        """Every recorded fact was given by a worker or was there before."""
        for name in self.names:
            for size, value in facts[name].exist.items():
                if self.initial[name].exist.get(size) is value:
                    continue
                if (name, size) in self.answers and (self.answers[name, size] is not None) == value:
                    continue
                told = 'no worker answered' if (name, size) not in self.answers else f'the worker answered {"a layout" if self.answers[name, size] is not None else "no layout exists"}'
                raise Violation('invented-fact', f'{name}: the database says size {key(size)} {"exists" if value else "does not exist"}, but {told}')
            for size, grid in facts[name].solutions.items():
                if name in self.initial and self.initial[name].solutions.get(size) == grid:
                    continue
                if self.answers.get((name, size)) == grid and grid is not None:
                    continue
                raise Violation('wrong-layout', f'{name}: the layout stored for size {key(size)} is not the one that was found')

    def implies(self, facts, name, size, solution):
        """`facts` still says everything the answer (size, solution) says."""
        if solution is None:
            return facts.verdict(size) is False
        return facts.exist.get(size) is True and facts.solutions.get(size) == solution

    def watch(self, *clauses):
        """Evaluates clauses(facts, data, where) on every version of the database that
        a reader can see, in addition to its being complete."""
        w = self.w

        def invariant(op, path):
            raw = w.fs.get(self.db)
            if raw == self.version:
                return
            where = f'after {op} {path}'
            if raw is None:
                w.violate('database-missing', f'{where} the database file is gone')
            try:
                facts, data = self.parse(raw)
            except Exception as e:
                w.violate('database-incomplete', f'{where} the database on disk cannot be read: {type(e).__name__} {e} ({len(raw)} bytes)')
            lost = self.lost(self.known, facts)
            if lost:
                w.violate('knowledge-lost', f'{where} the database no longer knows {lost}')
            for clause in clauses:
                try:
                    clause(facts, data)
                except Violation as v:
                    w.violate(v.kind, f'{where} {v.message}')
            self.version, self.known = raw, facts
            self.history.append(raw)
            w.count('versions seen')
        w.fs.invariants.append(invariant)

    def resync(self, result):
        """After an invocation: what the next one will find on disk."""
        if result.power:
            after = self.w.fs.get(self.db)
            if after is None:
                if self.initial_present:
                    raise Violation('database-missing', 'the database did not survive the power loss')
            elif after not in self.history:
                raise Violation('database-torn', f'after the power loss the database is none of the versions that were saved ({len(after)} bytes)')
        try:
            self.adopt()
        except Exception as e:
            raise Violation('database-incomplete', f'the database on disk cannot be read after the restart: {type(e).__name__} {e}')

    def lost(self, before, after):
        for name in self.names:
            for size, value in before[name].exist.items():
                if after[name].verdict(size) is not value:
                    return f'{name}: {key(size)} {"exists" if value else "does not exist"}'
            for size, grid in before[name].solutions.items():
                if after[name].solutions.get(size) != grid:
                    return f'{name}: layout for {key(size)}'
        return None


MEMO = {}
