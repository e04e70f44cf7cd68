"""C05: a database that cannot be understood is never replaced or guessed at; entries of other networks survive."""
import json

from sim import optimal, optprop
from sim.core import Violation

ID = 'C05'
LEVEL = 'fault_enumeration'
QUICK_RUNS, QUICK_SECONDS = 10000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 150000, 900
RULE = ('A run damages a valid database (truncation at any byte, overwritten bytes, wrong JSON types, bad keys), or makes it or a network file '
        'unreadable (EIO, EACCES) or malformed, and invokes the tool in all modes; or runs compute under faults on a database with entries of '
        'other networks. Non-trivial: the input was damaged, a fault fired or foreign entries were present; distinct by event log.')
REAL = optprop.REAL
STUB = optprop.STUB
ASSUMPTIONS = ['damage that still parses as a database of the documented form is indistinguishable from data and not judged']
prepare = optprop.prepare


def damage(c, raw):
    """Bytes that are not a database any more, or None."""
    kind = c.draw(8, 'damage')
    if kind == 0:
        data = raw[:c.draw(len(raw), 'truncated to')]
    elif kind == 1:
        at = c.draw(len(raw), 'at')
        n = 1 + c.draw(16, 'bytes')
        data = raw[:at] + bytes(c.pick([0, 0xff, 0x7b, 0x22, 0x20], 'byte') for _ in range(n)) + raw[at + n:]
    elif kind == 2:
        data = b''
    elif kind == 3:
        data = raw + c.pick([b'{}', b'}', b'garbage', raw[:20] or b'x'], 'appended')
    else:
        data = json.loads(raw)
        names = sorted(data)
        name = names[c.draw(len(names), 'entry')] if names else None
        if kind == 4:
            data = c.pick([[], 'text', 5, [data]], 'top level')
        elif name is None:
            return None
        elif kind == 5:
            data[name] = c.pick([['x'], 'text', 7, [], '', 0, False], 'entry value')
        elif kind == 6:
            data[name]['exist'] = {c.pick(['4,5', '4,5,6,7', 'a,b,c', '', '4;5;6'], 'key'): True}
        else:
            data[name]['solutions'] = {c.pick(['4,5', '4,5,6,7', 'a,b,c', ''], 'key'): [[{}]]}
        return json.dumps(data).encode(), name
    try:
        json.loads(data)
        return None     # still a document
    except ValueError:
        return data, None


def run(world):
    c = world.c
    s = optprop.make(world)
    mode = c.draw(4, 'scenario')
    ul, objective, extra = optprop.draw_args(c, s.real)
    invocation = [['compute', ul, objective, *extra], ['query', ul, objective], ['query', ul, objective, '--allow-imperfect'],
                  ['export-crosstable', 'table.md']][c.draw(4, 'invocation')]

    def untouched(image, what):
        def invariant(op, path):
            if world.fs.get(s.db) != image:
                world.violate('damaged-database-replaced', f'{what}: after {op} {path} the database file has been changed')
        world.fs.invariants.append(invariant)

    if mode == 3:
        return foreign(world, s)
    if s.version is None:
        s.tool('compute', ul, objective, *extra)
        s.begin()
        if s.version is None:
            raise Violation('answer-lost', 'compute saved nothing')
    image = s.version
    kinds, hazard = (), 0
    if mode == 0:
        result = damage(c, image)
        if result is None:
            world.count('undamaged')
            return
        image, entry = result
        if entry is not None and entry not in s.names:
            world.count('damage in an entry of another network')
            return
        world.fs.put(s.db, image)
        world.fs.sync_all()
        what = f'damaged database ({len(image)} bytes)'
        world.fault('damaged-database')
    elif mode == 1:
        what = 'unreadable files'
        kinds, hazard = ('eio-r', 'eacces-r'), c.pick([6, 2, 20], 'read fault density')
    else:
        name = c.pick(s.names, 'network')
        text = c.pick(['0 0 1\n', 'not a network\n', '0 0 1 1 1\n', 'x y z w\n'], 'network text')
        world.fs.put('networks/' + name, text)
        world.fs.sync_all()
        what = f'malformed network file {name}'
        world.fault('malformed-network')
    untouched(image, what) if mode != 1 else None
    s.version = image
    result = s.tool(*invocation, hazard=hazard, kinds=kinds)
    if mode == 1 and not result.faulted:
        return
    if mode == 1 and world.fs.get(s.db) != image:
        raise Violation('damaged-database-replaced', f'{what}: {result.faulted}: the database file has been changed')
    if result.code == 0:
        raise Violation('damage-ignored', f'{what}: {" ".join(map(str, invocation))} ended normally')
    if result.out.strip() and invocation[0] == 'query':
        raise Violation('damage-ignored', f'{what}: query still printed {result.out[:80]!r}')
    if world.fs.get('table.md') is not None:
        raise Violation('damage-ignored', f'{what}: a crosstable was written')
    if s.requests and mode == 0:
        raise Violation('damage-ignored', f'{what}: work was started')


def foreign(world, s):
    """Entries of networks that are not in the networks directory."""
    c = world.c
    if not s.foreign:
        world.count('no foreign entries')
    else:
        world.count('nontrivial')

    def kept(facts, data):
        for name, entry in s.foreign.items():
            if data.get(name) != entry:
                raise Violation('foreign-entry-lost', f'the entry of {name}, which is not in the networks directory, is {"gone" if name not in data else "changed"}')
    s.watch(kept)
    for i in range(1 + c.draw(3, 'invocations')):
        ul, objective, extra = optprop.draw_args(c, s.real)
        result = s.tool('compute', ul, objective, *extra, hazard=c.pick([0, 40, 10], 'density'), kinds=optprop.FATAL + optprop.ERRORS)
        s.resync(result)
        if result.code != 0 and not (result.faulted or result.killed):
            optprop.expect_ran(result, world, 'compute')
    raw = world.fs.get(s.db)
    if raw is not None:
        kept(None, json.loads(raw))
