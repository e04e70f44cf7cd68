"""C06: the crosstable export is complete or absent, keeps the preamble, and says what the database says."""
import re

from sim import optimal, optprop
from sim.core import Violation
from props.c04 import order

ID = 'C06'
LEVEL = 'fault_enumeration'
QUICK_RUNS, QUICK_SECONDS = 8000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 150000, 900
RULE = ('A run draws a database, an existing document (none, with text before the tables, with old tables, without final newline) and 1-4 exports '
        'under faults at every file system call and source line; the document is compared with a reference rendering. '
        'Non-trivial: a fault fired or the document had a preamble; distinct by event log.')
REAL = optprop.REAL
STUB = optprop.STUB
ASSUMPTIONS = ['the power-loss model of C01', 'no line of the text before the tables starts with the heading of the tables']
prepare = optprop.prepare
LEVELS = [(4, '\U0001f7e8'), (6, '\U0001f7e5'), (8, '\U0001f7e6')]


def reference(s):
    """name -> {(height, width): symbol} for every network with known sizes, in order."""
    tables = []
    for name in sorted(s.names, key=order):
        facts = s.known[name]
        if not facts.exist:
            continue
        width = max(w for _, w, _ in facts.exist) - 2
        height = max(h for _, _, h in facts.exist)
        cells = {}
        for h in range(s.height[name], height + 1):
            for w in range(1, width + 1):
                verdicts = [(facts.verdict((ul, w + 2, h)), symbol) for ul, symbol in LEVELS]
                for verdict, symbol in verdicts:
                    if verdict is True:
                        break
                else:
                    symbol = '❌' if any(v is False for v, _ in verdicts) else '❔'
                cells[h, w] = symbol
        tables.append((name, cells))
    return tables


def parse(text):
    """(preamble, tables) of a document."""
    match = re.search(r'^# Balancers$', text, re.M)
    if match is None:
        raise ValueError('no heading')
    tables = []
    rows = None
    for line in text[match.end():].splitlines():
        if line.startswith('## '):
            rows = {}
            tables.append((line[3:].strip(), rows))
            header = None
        elif line.startswith('#'):
            raise ValueError(f'unexpected heading {line!r}')
        elif line.startswith('|'):
            pieces = [p.strip() for p in line.strip().strip('|').split('|')]
            if header is None:
                header = [int(p) for p in pieces[1:]] if pieces[0] == '' else [int(p) for p in pieces if p]
            elif set(line) <= set('|- '):
                continue
            else:
                h = int(pieces[0])
                if len(pieces) != len(header) + 1:
                    raise ValueError(f'ragged row {line!r}')
                for w, symbol in zip(header, pieces[1:]):
                    rows[h, w] = symbol
        elif line.strip():
            raise ValueError(f'unexpected line {line!r}')
    return text[:match.start()], tables


def foreign_text(world, c, s, target, old):
    """A document with bytes that are no text: it is kept as it is, or at least that part is."""
    data = old.encode()
    at = c.draw(len(data) + 1, 'at')
    old = data[:at] + c.pick([b'\xfc', b'\xff\xfe', b'\xc3', b'\x80'], 'bytes') + data[at:]
    try:
        old.decode()
        return
    except UnicodeDecodeError:
        pass
    world.fs.put(target, old)
    world.fs.sync_all()
    world.fault('foreign-bytes')
    world.count('nontrivial')
    result = s.tool('export-crosstable', target)
    raw = world.fs.get(target)
    if raw == old and result.code != 0:
        return
    text = re.split(rb'^# Balancers', old, maxsplit=1, flags=re.M)[0]
    if result.code != 0 or raw is None or not raw.startswith(text):
        raise Violation('preamble-changed', f'a document with bytes that are no text was changed (the tool ended with {result.code})')


def run(world):
    c = world.c
    s = optprop.make(world)
    if c.flag('more facts'):
        ul, objective, extra = optprop.draw_args(c, s.real)
        s.tool('compute', ul, objective, *extra)
        s.begin()
    target = c.pick(['table.md', 'doc/table.md'], 'document')
    if '/' in target:
        world.fs.put('doc/.keep', '')
    lines = [c.pick(['# Title', 'text', '', '| a | table |', '## Balancers', ' # Balancers', 'Überschrift ❔', 'x' * 3000], 'line') for _ in range(c.draw(6, 'preamble lines'))]
    preamble = ''.join(line + '\n' for line in lines)
    exists = c.draw(4, 'existing document')
    old = None
    if exists >= 1:
        old = preamble
        if exists == 2:
            old += '# Balancers\n## 7x7\n|     | 1   |\n|-----|-----|\n| 7   | ❔   |\n\n'
        if exists == 3:
            old = old[:-1] if old.endswith('\n') and len(old) > 1 else old
            if not old.endswith('\n') and old:
                preamble = old + '\n'
            else:
                preamble = old
        if c.chance(10, 'other encoding'):
            return foreign_text(world, c, s, target, old)
        world.fs.put(target, old)
    else:
        preamble = ''
    if preamble:
        world.count('nontrivial')
    world.fs.sync_all()
    database = world.fs.get(s.db)
    expected = reference(s)
    state = {'image': world.fs.get(target)}
    acceptable = {state['image']}

    def judge(raw):
        try:
            got_preamble, tables = parse(raw.decode('utf-8'))
        except Exception as e:
            raise Violation('document-incomplete', f'the document cannot be read: {type(e).__name__} {e}')
        if got_preamble != preamble:
            raise Violation('preamble-changed', f'the text before the tables changed from {preamble[:60]!r} to {got_preamble[:60]!r}')
        if tables != expected:
            for a, b in zip(tables, expected):
                if a != b:
                    differ = [k for k in set(a[1]) | set(b[1]) if a[1].get(k) != b[1].get(k)]
                    detail = f'{a[0]} instead of {b[0]}' if a[0] != b[0] else f'{a[0]}: height, width {sorted(differ)[0]}: {a[1].get(sorted(differ)[0])!r} instead of {b[1].get(sorted(differ)[0])!r}'
                    raise Violation('wrong-table', detail)
            raise Violation('wrong-table', f'tables of {[t[0] for t in tables]} instead of {[t[0] for t in expected]}')

    def invariant(op, path):
        raw = world.fs.get(target)
        if raw in acceptable:
            return
        if raw is None:
            world.violate('document-missing', f'after {op} {path} the document is gone')
        try:
            judge(raw)
        except Violation as v:
            world.violate(v.kind, f'after {op} {path}: {v.message}')
        acceptable.add(raw)
    world.fs.invariants.append(invariant)
    for i in range(1 + c.draw(4, 'exports')):
        hazard, line = 0, None
        how = c.draw(3, 'faults')
        if how == 1:
            hazard = c.pick([12, 4], 'density')
        elif how == 2:
            line = 1 + c.draw(c.pick([200, 2000], 'range'), 'interrupt line')
        result = s.tool('export-crosstable', target, hazard=hazard, kinds=optprop.FATAL + optprop.ERRORS + ('eacces-r', 'eio-r', 'short-r'), interrupt_line=line)
        raw = world.fs.get(target)
        if raw is not None and raw not in acceptable:
            if result.power:
                raise Violation('document-torn', f'after the power loss the document is none of the complete versions ({len(raw)} bytes)')
            judge(raw)
        if raw is None and old is not None:
            raise Violation('document-missing', 'the document is gone')
        if result.code == 0 and not result.killed:
            judge(world.fs.get(target))
        elif not (result.faulted or result.interrupted or result.killed):
            optprop.expect_ran(result, world, 'export-crosstable')
        if world.fs.get(s.db) != database:
            raise Violation('export-changed-database', 'the export modified the database')
    optprop.expect_ran(s.tool('export-crosstable', target), world, 'export-crosstable')
    final = world.fs.get(target)
    judge(final)
    optprop.expect_ran(s.tool('export-crosstable', target), world, 'export-crosstable')
    if world.fs.get(target) != final:
        raise Violation('not-idempotent', 'a second export of the same database changes the document')
