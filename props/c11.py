"""C11: a damaged blueprint or layout is refused, never taken for another layout."""
import base64
import json
import zlib

from sim import enumerate as en, fs as simfs, instances, loader, proc, solvers
from sim.core import Violation
from . import c10

ID = 'C11'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 15000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 200000, 900
RULE = ('A run damages blueprint strings, books or layout files in transit or at rest (bits, characters, pieces lost, repeated, swapped or cut, torn and lost sectors) and gives them to blueprint decode, blueprint_book pack and unpack, or '
        'belt_balancer --partial. The reference is the undamaged content. Non-trivial: the damage changed the text; distinct by event log.')
REAL = ['factorio_sat.blueprint', 'factorio_sat.blueprint_book', 'factorio_sat.belt_balancer --partial']
STUB = ['channel and file the text comes from']
ASSUMPTIONS = ['damage that leaves a valid checksum for other content (the format uses Adler-32) cannot be recognised and is not judged']

ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/= \t-_,."{}[]'


def prepare():
    for module in ('blueprint', 'blueprint_book', 'belt_balancer'):
        loader.preload('factorio_sat.' + module, 2)


def encode(data, rng):
    """As any program might write it."""
    raw = json.dumps(data, separators=rng.choice([(',', ':'), None])).encode()
    return '0' + base64.b64encode(zlib.compress(raw, rng.choice([0, 1, 6, 9]))).decode()


def blueprint_of(value):
    label, parts = value
    items = []
    for i, (name, kind, direction, x, y) in enumerate(parts):
        item = {'entity_number': i + 1, 'name': name, 'position': {'x': x, 'y': y}}
        if direction:
            item['direction'] = direction
        if kind:
            item['type'] = kind
        items.append(item)
    result = {'blueprint': {'item': 'blueprint', 'version': 281474976710656, 'entities': items}}
    if label:
        result['blueprint']['label'] = label
    return result


def content(text):
    try:
        return json.loads(zlib.decompress(base64.b64decode(text[1:])))
    except Exception:
        return None


def damage(c, text, other):
    kind = c.pick(['char', 'bit', 'cut', 'drop', 'insert', 'swap', 'repeat', 'splice', 'zero', 'case', 'head'], 'damage')
    n = len(text)
    at = c.draw(n, 'at')
    size = 1 + c.draw(min(12, n), 'size')
    if kind == 'char':
        return kind, text[:at] + c.pick(ALPHABET, 'character') + text[at + 1:]
    if kind == 'bit':
        return kind, text[:at] + chr((ord(text[at]) ^ (1 << c.draw(7, 'bit'))) or 32) + text[at + 1:]
    if kind == 'cut':
        return kind, text[:at]
    if kind == 'head':
        return kind, text[at:]
    if kind == 'drop':
        return kind, text[:at] + text[at + size:]
    if kind == 'insert':
        return kind, text[:at] + ''.join(c.pick(ALPHABET, 'character') for _ in range(min(size, 3))) + text[at:]
    if kind == 'swap':
        return kind, text[:at] + text[at + size:at + 2 * size] + text[at:at + size] + text[at + 2 * size:]
    if kind == 'repeat':
        return kind, text[:at] + text[at:at + size] * 2 + text[at + size:]
    if kind == 'splice':
        return kind, text[:at] + other[at:]
    if kind == 'zero':
        return kind, text[:at] + 'A' * len(text[at:at + size]) + text[at + size:]
    return kind, text[:at] + text[at:at + size].swapcase() + text[at + size:]


def run(world):
    c = world.c
    world.fs = simfs.SimFS(world, world.root)
    rng = c.subrng('layouts')

    def layout():
        while True:
            value = c10.random_layout(c, rng, False)
            if any(t != ('empty',) for row in value for t in row):
                return [[(t, None) for t in row] for row in value]
    level = rng.choice(list(c10.NAMES))
    values = [c10.to_bp(layout(), level, None) for _ in range(1 + c.draw(3, 'records'))]
    tool = c.pick(['decode', 'unpack', 'pack', 'partial'], 'tool')
    if tool == 'partial':
        return partial(world, c, rng)
    if tool == 'unpack':
        book = {'blueprint_book': {'item': 'blueprint-book', 'active_index': 0, 'blueprints': [dict(blueprint_of(v), index=i) for i, v in enumerate(values)]}}
        texts = [encode(book, rng)]
    else:
        texts = [encode(blueprint_of(v), rng) for v in values]
    spare = encode(blueprint_of(c10.to_bp(layout(), level, None)), rng)
    which = c.draw(len(texts), 'record')
    kind, damaged = damage(c, texts[which], spare)
    damaged = damaged.replace('\n', ' ')
    changed = damaged.strip() != texts[which]
    # cut inside the header of two blueprints, or a change the format's checksum misses: a whole other blueprint
    whole = content(damaged) not in (None, content(texts[which]))
    if whole:
        changed = False
    if changed:
        world.count('nontrivial')
        world.fault('damage-' + kind)
    world.log(tool, kind, f'record {which} of {len(texts)}', solvers.fingerprint(damaged.encode()))
    sent = texts[:which] + [damaged] + texts[which + 1:]
    stdin = '\n'.join(sent) + '\n'
    args = {'decode': ('blueprint', ['decode']), 'unpack': ('blueprint_book', ['unpack']), 'pack': ('blueprint_book', ['pack'])}[tool]
    result = proc.run(world, 'factorio_sat.' + args[0], args[1], stdin=stdin)
    if whole:
        return      # the damage cannot be recognised
    what = f'{args[0]} {args[1][0]}'
    reader = {'decode': c10.read_json, 'unpack': c10.read_bp, 'pack': c10.read_book}[tool]
    try:
        got, left = reader(result.out)
    except Exception as e:
        raise Violation('bad-output', f'{what} printed something unreadable: {type(e).__name__}: {e}')
    if tool == 'decode':
        expected = [c10.from_bp(v) for v in values]
    elif tool == 'unpack':
        expected = values
    else:
        expected = [(None, values)]
    if not changed and result.code != 0:
        raise Violation('tool-failed', f'{what} failed on good input: {result.err.strip().splitlines()[-1:]}')
    if got != expected[:len(got)]:
        raise Violation('accepted', f'{what} took damaged text ({kind}) for another layout')
    if result.code == 0 and got != expected:
        raise Violation('accepted', f'{what} ended normally on damaged text ({kind}) but printed {len(got)} of {len(expected)} records')
    if tool == 'decode' and len(got) < which:
        raise Violation('lost', f'{what} lost record {len(got)}, which is before the damage')


def partial(world, c, rng):
    """A partial balancer read from a damaged file."""
    world.fs.put('net', '0 -1 1 1\n')
    # input at the upper left, outputs on the right
    tiles = {(x, y): ('empty',) for x in range(4) for y in range(2)}
    tiles.update({(0, 0): ('belt', 0, 0), (1, 0): ('splitter', 0, False), (1, 1): ('splitter', 0, True), (2, 0): ('belt', 0, 0), (2, 1): ('belt', 0, 0), (3, 0): ('belt', 0, 0), (3, 1): ('belt', 0, 0)})
    # tiles left empty in a partial layout are free
    keep = [p for p in tiles if tiles[p][0] == 'splitter' or tiles[p][0] == 'belt' and rng.random() < 0.6]
    form = c.pick(['json', 'blueprint'], 'form')
    if form == 'json':
        text = json.dumps([[{'tile': t} for t in row] for row in en.to_json({p: t if p in keep else ('empty',) for p, t in tiles.items()}, 4, 2)])
    else:
        keep = list({*keep, (0, 0)})
        text = encode(blueprint_of(c10.to_bp([[(tiles[x, y] if (x, y) in keep else ('empty',), None) for x in range(4)] for y in range(2)], 'normal', None)), rng)
    kind, damaged = damage(c, text, text[::-1])
    changed = damaged.strip() != text
    if form == 'blueprint' and content(damaged) not in (None, content(text)):
        return
    if form == 'json' and kind not in ('cut', 'head'):
        kind, damaged, changed = 'none', text, False        # other damage to plain JSON cannot be recognised
    if changed:
        world.count('nontrivial')
        world.fault('damage-' + kind)
    world.fs.put('partial', damaged)
    world.fs.sync_all()
    world.log('partial', form, kind, solvers.fingerprint(damaged.encode()))
    world.hub = hub = solvers.Hub(world)
    result = instances.ask(world, 'belt_balancer', 'net 4 2 --partial partial', 'g3')
    world.hub = None
    got = [json.loads(line) for line in result.out.splitlines()]
    if not changed and (result.code != 0 or len(got) != 1):
        raise Violation('tool-failed', f'belt_balancer --partial failed on good input: {result.err.strip().splitlines()[-1:]}')
    for grid in got:
        for x, y in keep:
            if c10.tile_from_json(grid[y][x]['tile']) != tiles[x, y]:
                raise Violation('accepted', f'belt_balancer took a damaged partial layout ({form}, {kind}) for another one: the tile at ({x},{y}) differs')
    if not got and result.code == 0:
        raise Violation('accepted', f'belt_balancer reported that there is no layout because of a damaged partial layout ({form}, {kind})')
