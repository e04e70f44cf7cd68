"""C10: the stream tools convert record by record, faithfully, and never make up a record."""
import base64
import io
import json
import math
import zlib

from sim import enumerate as en, fs as simfs, loader, proc
from sim.core import Violation
from sim.layout import VEC, reverse

ID = 'C10'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 22000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 150000, 900
RULE = ('A run sends up to six random layouts, or foreign blueprints (any position, order, mix of levels, more entities and keys, other compression) or a book of them, through a random pipeline of up to five tools (blueprint encode and decode, blueprint_book pack and unpack, rotate, stringifier encode and decode), each a process of its own whose '
        'input arrives in random pieces. One stage may be killed or interrupted, lose its reader, or get an input that ends at an arbitrary byte or fails to be read. Every stage is compared with a model of the conversion. '
        'Non-trivial: at least two records or a fault; distinct by event log.')
REAL = ['factorio_sat.blueprint', 'factorio_sat.blueprint_book', 'factorio_sat.rotate', 'factorio_sat.stringifier', 'factorio_sat.tile']
STUB = ['pipes between the processes (pieces, ends, errors)', 'process death']
ASSUMPTIONS = ['a layout is identified by its tiles; blueprints hold a layout up to its position and up to belts whose feeder lies outside']


def prepare():
    for module in ('blueprint', 'blueprint_book', 'rotate', 'stringifier'):
        loader.preload('factorio_sat.' + module, 5)


# -- layouts: a list of rows of cells, a cell is (tile, mark) with a tile as in sim.layout or ('inserter', d, kind) or ('filler',) --

def random_layout(c, rng, exotic):
    width, height = 1 + rng.randrange(6), 1 + rng.randrange(4)
    density = rng.choice([0, 0.2, 0.5, 0.9])
    grid = [[('empty',) for _ in range(width)] for _ in range(height)]
    for y in range(height):
        for x in range(width):
            if grid[y][x][0] == 'splitter' or rng.random() < density:
                continue
            kind = rng.randrange(12)
            if kind < 7:
                grid[y][x] = rng.choice(en.BELTS)
            elif kind < 9:
                grid[y][x] = rng.choice(en.ENDS)
            elif kind < 11:
                d = rng.randrange(4)
                sx, sy = VEC[(d + 1) % 4]
                if 0 <= x + sx < width and 0 <= y + sy < height and grid[y + sy][x + sx] == ('empty',):
                    grid[y][x] = ('splitter', d, True)
                    grid[y + sy][x + sx] = ('splitter', d, False)
            elif exotic:
                grid[y][x] = rng.choice([('inserter', rng.randrange(4), rng.randrange(2)), ('filler',)])
    return grid


def cell_json(tile, mark):
    if tile[0] == 'inserter':
        t = {'type': 'inserter', 'direction': tile[1], 'insert_type': tile[2]}
    elif tile[0] == 'filler':
        t = {'type': 'filler'}
    elif tile[0] == 'machine':
        t = {'type': 'assembling_machine', 'x': tile[1], 'y': tile[2]}
    else:
        t = en.to_json({(0, 0): tile}, 1, 1)[0][0]
    return {'tile': t} if mark is None else {'tile': t, 'mark': mark}


def tile_from_json(t):
    kind = t['type']
    if kind == 'empty':
        return ('empty',)
    if kind == 'filler':
        return ('filler',)
    if kind == 'inserter':
        return ('inserter', t['direction'], t['insert_type'])
    if kind == 'belt':
        return ('belt', t['input_direction'], t['output_direction'])
    if kind == 'underground_belt':
        return ('in' if t['is_input'] else 'out', t['direction'])
    if kind == 'splitter':
        return ('splitter', t['direction'], t['is_head'])
    if kind == 'assembling_machine':
        return ('machine', t['x'], t['y'])
    raise ValueError(f'unexpected tile {t}')


# -- independent readers of the formats: text -> list of values, the rest that is no complete record --

def read_json(text):
    lines = text.split('\n')
    return [[[(tile_from_json(cell['tile']), cell.get('mark')) for cell in row] for row in json.loads(line)] for line in lines[:-1]], lines[-1]


def unpack(line):
    if line[:1] != '0':
        raise ValueError('no blueprint string')
    return json.loads(zlib.decompress(base64.b64decode(line[1:], validate=True)))


def entities(data):
    """Blueprint -> [(name, type, direction in quarters, x, y)] sorted."""
    result = []
    for e in data['blueprint']['entities']:
        result.append((e['name'], e.get('type'), e.get('direction', 0), float(e['position']['x']), float(e['position']['y'])))
    if len({e['entity_number'] for e in data['blueprint']['entities']}) != len(result):
        raise ValueError('entity numbers are not unique')
    return data['blueprint'].get('label'), sorted(result, key=str)


def read_bp(text):
    lines = text.split('\n')
    return [entities(unpack(line)) for line in lines[:-1]], lines[-1]


def read_book(text, check=True):
    lines = text.split('\n')
    result = []
    for line in lines[:-1]:
        book = unpack(line)['blueprint_book']
        items = book['blueprints']
        if check and [i['index'] for i in items] != list(range(len(items))):
            raise ValueError('bad indices')
        result.append((book.get('label'), [entities(i) for i in items]))
    return result, lines[-1]


SIGNS = dict(zip('→↑←↓', [('belt', d, d) for d in range(4)]))
SIGNS.update({'h': ('belt', 0, 1), 't': ('belt', 1, 2), 'H': ('belt', 2, 3), 'T': ('belt', 3, 0), 'f': ('belt', 0, 3), 'g': ('belt', 3, 2), 'F': ('belt', 2, 1), 'G': ('belt', 1, 0)})
SIGNS.update(dict(zip('lijk', [('in', d) for d in range(4)])))
SIGNS.update(dict(zip('LIJK', [('out', d) for d in range(4)])))
SIGNS.update(dict(zip('dwas', [('splitter', d, True) for d in range(4)])))
SIGNS.update(dict(zip('DWAS', [('splitter', d, False) for d in range(4)])))
SIGNS.update({' ': ('empty',), 'X': ('filler',)})


def read_str(text):
    lines = text.split('\n')
    result, grid, used = [], [], 0
    for i, line in enumerate(lines[:-1]):
        if line.endswith('┘'):
            result.append([[(SIGNS[char], None) for char in row[1:-1:2]] for row in grid[1:]])
            grid, used = [], i + 1
        else:
            grid.append(line)
    return result, '\n'.join(lines[used:])


READERS = {'json': read_json, 'bp': read_bp, 'book': read_book, 'str': read_str}      # what a tool printed
INPUTS = {**READERS, 'book': lambda text: read_book(text, False)}       # what a tool is given


# -- models of the conversions --
NAMES = {'normal': ('transport-belt', 'underground-belt', 'splitter'), 'fast': ('fast-transport-belt', 'fast-underground-belt', 'fast-splitter'),
         'express': ('express-transport-belt', 'express-underground-belt', 'express-splitter')}
FACTORIO = [2, 0, 6, 4]     # right up left down


def to_bp(layout, level, label):
    belt, underground, splitter = NAMES[level]
    result = []
    for y, row in enumerate(layout):
        for x, (t, _) in enumerate(row):
            px, py = x + 0.5, y + 0.5
            if t[0] == 'belt':
                result.append((belt, None, FACTORIO[t[2]], px, py))
            elif t[0] in ('in', 'out'):
                result.append((underground, 'input' if t[0] == 'in' else 'output', FACTORIO[t[1]], px, py))
            elif t[0] == 'splitter' and t[2]:
                dx, dy = VEC[(t[1] + 1) % 4]
                result.append((splitter, None, FACTORIO[t[1]], px + dx / 2, py + dy / 2))
            elif t[0] == 'inserter':
                result.append((['inserter', 'long-handed-inserter'][t[2]], None, FACTORIO[reverse(t[1])], px, py))
    return label, sorted(result, key=str)


def from_bp(value):
    tiles = {}

    def cell(x, y):
        return math.floor(x), math.floor(y)
    for name, kind, direction, x, y in value[1]:
        d = FACTORIO.index(direction)
        if name.endswith('splitter'):
            dx, dy = VEC[(d + 1) % 4]
            tiles[cell(x - dx / 2, y - dy / 2)] = ('splitter', d, True)
            tiles[cell(x + dx / 2, y + dy / 2)] = ('splitter', d, False)
        elif name.endswith('transport-belt'):
            tiles[cell(x, y)] = ('belt', None, d)
        elif name.endswith('underground-belt'):
            tiles[cell(x, y)] = ('in' if kind == 'input' else 'out', d)
        elif name.startswith('assembling-machine'):
            for dx in range(3):
                for dy in range(3):
                    tiles[cell(x + dx - 1, y + dy - 1)] = ('machine', dx, dy)
        elif name.endswith('chest'):
            tiles[cell(x, y)] = ('filler',)
        else:
            tiles[cell(x, y)] = ('inserter', reverse(d), int(name.startswith('long')))
    if not tiles:
        return []
    x0, y0 = min(x for x, _ in tiles), min(y for _, y in tiles)
    x1, y1 = max(x for x, _ in tiles), max(y for _, y in tiles)
    result = []
    for y in range(y0, y1 + 1):
        row = []
        for x in range(x0, x1 + 1):
            t = tiles.get((x, y), ('empty',))
            if t[0] == 'belt':
                feeders = []
                for d in range(4):
                    n = tiles.get((x - VEC[d][0], y - VEC[d][1]), ('empty',))
                    out = n[2] if n[0] == 'belt' else n[1] if n[0] in ('out', 'splitter') else None
                    if out == d and d != reverse(t[2]):
                        feeders.append(d)
                t = ('belt', feeders[0] if len(feeders) == 1 else t[2], t[2])
            row.append((t, None))
        result.append(row)
    return result


def foreign(rng):
    """A blueprint as the game or another program makes it: anywhere, in any order, of mixed levels, with more in it."""
    result, taken = [], set()
    x0, y0 = rng.choice([0, -3, -1, 5, -1000, 100000]), rng.choice([0, -2, 7, -50000])
    for _ in range(rng.choice([0, 1, 3, 8, 20, 20])):
        x, y, d = rng.randrange(7), rng.randrange(5), rng.randrange(4)
        kind = rng.randrange(12)
        cells, position = [(x, y)], (x + 0.5, y + 0.5)
        entity = {'direction': FACTORIO[d]}
        level = rng.choice(['normal', 'normal', 'fast', 'express'])
        if kind < 5:
            entity['name'] = NAMES[level][0]
        elif kind < 7:
            entity.update(name=NAMES[level][1], type=rng.choice(['input', 'output']))
        elif kind < 9:
            sx, sy = VEC[(d + 1) % 4]
            cells, position = [(x, y), (x + sx, y + sy)], (x + 0.5 + sx / 2, y + 0.5 + sy / 2)
            entity['name'] = NAMES[level][2]
            if rng.random() < 0.3:
                entity['output_priority'] = 'left'
        elif kind < 10:
            entity['name'] = rng.choice(['burner-inserter', 'inserter', 'fast-inserter', 'filter-inserter', 'stack-inserter', 'stack-filter-inserter', 'long-handed-inserter'])
        elif kind < 11:
            entity['name'] = f'assembling-machine-{rng.randrange(1, 4)}'
            entity['recipe'] = 'iron-gear-wheel'
            cells, position = [(x + i, y + j) for i in range(3) for j in range(3)], (x + 1.5, y + 1.5)
        else:
            entity['name'] = 'wooden-chest'
        if taken & set(cells):
            continue
        taken |= set(cells)
        if entity['direction'] == 0 and rng.random() < 0.8:
            del entity['direction']
        px, py = position[0] + x0, position[1] + y0
        entity['position'] = {'x': int(px) if px == int(px) and rng.random() < 0.5 else px, 'y': int(py) if py == int(py) and rng.random() < 0.5 else py}
        result.append(entity)
    rng.shuffle(result)
    for number, entity in enumerate(result):
        entity['entity_number'] = number + 1
    blueprint = {'item': 'blueprint', 'version': 281479275151360, 'icons': [{'index': 1, 'signal': {'type': 'item', 'name': 'transport-belt'}}], 'entities': result}
    if rng.random() < 0.5:
        blueprint['label'] = rng.choice(['fördern', '4 to 4', ''])
    if rng.random() < 0.3:
        blueprint.update({'snap-to-grid': {'x': 2, 'y': 2}, 'description': 'x' * rng.randrange(30)})
    return {'blueprint': blueprint}


def pack_text(data, rng):
    """A blueprint string, compressed in one of the ways that programs use."""
    raw = json.dumps(data, ensure_ascii=rng.random() < 0.5, separators=rng.choice([(',', ':'), (', ', ': ')])).encode()
    return '0' + base64.b64encode(zlib.compress(raw, rng.choice([9, 6, 1, 0]))).decode()


def contents(kind, text):
    """The complete blueprints in strings or books, with everything in them."""
    result = []
    for line in text.split('\n'):
        try:
            data = unpack(line)
        except Exception:
            break           # torn, or the end
        for item in data['blueprint_book']['blueprints'] if kind == 'book' else [data]:
            item.pop('index', None)
            result.append(json.dumps(item, sort_keys=True))
    return result


def turn(t, f, mirror):
    if t[0] == 'belt':
        return ('belt', f(t[1]), f(t[2]))
    if t[0] in ('in', 'out'):
        return (t[0], f(t[1]))
    if t[0] == 'splitter':
        return ('splitter', f(t[1]), t[2] != mirror)
    if t[0] == 'inserter':
        return ('inserter', f(t[1]), t[2])
    return t


def transform(layout, op):
    w, h = len(layout[0]), len(layout)
    cells = {(x, y): layout[y][x] for x in range(w) for y in range(h)}
    if op.startswith('rot'):
        k = int(op[4:]) // 90
        for _ in range(k):
            cells = {(y, w - 1 - x): (turn(t, lambda d: (d + 1) % 4, False), m) for (x, y), (t, m) in cells.items()}
            w, h = h, w
    elif op == 'flip_x':
        cells = {(w - 1 - x, y): (turn(t, lambda d: reverse(d) if d % 2 == 0 else d, True), m) for (x, y), (t, m) in cells.items()}
    elif op == 'flip_y':
        cells = {(x, h - 1 - y): (turn(t, lambda d: reverse(d) if d % 2 == 1 else d, True), m) for (x, y), (t, m) in cells.items()}
    return [[cells[x, y] for x in range(w)] for y in range(h)]


def unmarked(layout):
    return [[(t, None) for t, _ in row] for row in layout]


class Pieces(io.RawIOBase):
    """Standard input that arrives in random pieces and may end in an error."""

    def __init__(self, data, rng, error):
        self.data, self.rng, self.error = data, rng, error
        self.position = 0

    def readable(self):
        return True

    def readinto(self, buffer):
        left = len(self.data) - self.position
        if left == 0:
            if self.error:
                raise OSError(5, 'Input/output error')
            return 0
        n = min(left, len(buffer), self.rng.choice([1, 5, 100, 1000, 65536]))
        buffer[:n] = self.data[self.position:self.position + n]
        self.position += n
        return n


def stage(c, kind):
    """(module, arguments, kind of output, model of one record or of the whole list)"""
    options = {'json': ['encode', 'rotate', 'str-encode'], 'bp': ['decode', 'pack'], 'str': ['str-decode'], 'book': ['unpack']}[kind]
    name = c.pick(options, 'tool')
    if name == 'encode':
        level = c.pick(['normal', 'fast', 'express'], 'level')
        label = c.pick([None, 'two words', 'naïve'], 'label')
        args = ['encode'] + (['--level', level] if level != 'normal' or c.flag('say it') else []) + (['--label', label] if label else [])
        return 'blueprint', args, 'bp', lambda values: [to_bp(v, level, label) for v in values]
    if name == 'rotate':
        op = c.pick(['rot_90', 'rot_180', 'rot_270', 'flip_x', 'flip_y', 'no_op'], 'operation')
        return 'rotate', [op] if op != 'rot_90' or c.flag('say it') else [], 'json', lambda values: [transform(v, op) for v in values]
    if name == 'str-encode':
        return 'stringifier', ['encode'], 'str', lambda values: [unmarked(v) for v in values]
    if name == 'decode':
        return 'blueprint', ['decode'], 'json', lambda values: [from_bp(v) for v in values]
    if name == 'pack':
        label = c.pick([None, 'a book'], 'label')
        return 'blueprint_book', ['pack'] + (['--label', label] if label else []), 'book', lambda values: [(label, list(values))]
    if name == 'str-decode':
        return 'stringifier', ['decode'], 'json', lambda values: [unmarked(v) for v in values]
    return 'blueprint_book', ['unpack'], 'bp', lambda values: list(values[0][1]) if values else []


def run(world):
    c = world.c
    world.fs = simfs.SimFS(world, world.root)
    rng = c.subrng('layouts')
    count = c.pick([1, 2, 3, 4, 2, 6, 0], 'records')
    length = 1 + c.draw(5, 'stages')
    mark = c.flag('marks')
    exotic = c.chance(4, 'inserters')
    layouts = [random_layout(c, rng, exotic) for _ in range(count)]
    values = [[[(t, rng.randrange(1000) if mark else None) for t in row] for row in layout] for layout in layouts]
    text = ''.join(json.dumps([[cell_json(*cell) for cell in row] for row in value]) + '\n' for value in values)
    data = text.encode()
    if count > 1:
        world.count('nontrivial')
    kind = 'json'
    start = c.pick(['json', 'json', 'bp', 'book'], 'start')
    if start != 'json':
        kind = start
        items = [foreign(rng) for _ in range(count)]
        if kind == 'book':
            slots = sorted(rng.sample(range(2 * count), count)) if rng.random() < 0.4 else range(count)    # books may have empty slots
            items = [{**item, 'index': i} for i, item in zip(slots, items)]
            data = (pack_text({'blueprint_book': {'item': 'blueprint-book', 'blueprints': items, 'active_index': 0, 'version': 281479275151360}}, rng) + '\n').encode()
        else:
            if rng.random() < 0.4:      # as they come out of other books
                items = [{**item, 'index': rng.randrange(9)} for item in items]
            data = ''.join(pack_text(item, rng) + '\n' for item in items).encode()
        values = []
    world.log('input', kind, len(data), zlib.crc32(data))
    fault_at = c.draw(2 * length + 1, 'faulty stage')      # beyond length: no fault
    torn = False
    for number in range(length):
        module, args, out_kind, model = stage(c, kind)
        what = f'{module} {" ".join(args)}'
        if module == 'stringifier' and args[0] == 'encode':
            if any(t[0] in ('inserter', 'machine') for v in values for row in v for t, _ in row) or any(not v for v in values):
                return      # not supported there
        if module == 'rotate' and any(not v for v in values):
            return          # a layout without tiles cannot be turned
        if module == 'rotate' and any(t[0] == 'machine' for v in values for row in v for t, _ in row):
            return          # machines are not turned
        if module == 'blueprint' and args[0] == 'encode' and any(not v or any(t[0] == 'machine' for row in v for t, _ in row) for v in values):
            return
        hazard, kinds, error = 0, (), False
        line = None
        if fault_at == number + 1:
            fault = c.pick(['cut', 'cut at record', 'read error', 'effects', 'line'], 'fault')
            if fault == 'cut':
                data = data[:c.draw(len(data) + 1, 'cut at')]
                world.fault('input-cut')
            elif fault == 'cut at record':
                ends = [i + 1 for i, byte in enumerate(data) if byte == 10]
                data = data[:c.pick([0] + ends, 'cut at')]
                if c.flag('newline lost'):
                    data = data[:-1]
                world.fault('input-cut')
            elif fault == 'read error':
                data = data[:c.draw(len(data) + 1, 'error at')]
                error = True
                world.fault('input-error')
            elif fault == 'effects':
                hazard, kinds = c.pick([1, 2], 'density'), ('kill', 'intr', 'epipe')
            else:
                line = 1 + c.draw(3000, 'interrupt at')
        # what the stage can make of its input
        decoded = data.decode('utf-8', 'ignore')
        complete, rest = INPUTS[kind](decoded)
        if kind == 'str' and rest.strip():
            more, rest2 = read_str(rest + '\n') if rest.rstrip().endswith('┘') else ([], rest)
        elif rest:
            try:
                more, rest2 = INPUTS[kind](rest + '\n')
            except Exception:
                more, rest2 = [], rest
        else:
            more, rest2 = [], ''
        available = complete + more
        torn = bool(rest2.strip()) or data.decode('utf-8', 'replace') != decoded
        failing = error
        if kind == 'book' and '\n' in decoded:
            error = False       # unpack reads one line, the failure comes later
        stdin = io.TextIOWrapper(io.BufferedReader(Pieces(data, c.subrng('pieces'), failing)), encoding='utf-8')
        result = proc.run(world, 'factorio_sat.' + module, args, stdin=stdin, hazard=hazard, kinds=kinds, interrupt_line=line)
        if failing and not error and result.code != 0:
            return
        disturbed = bool(result.faulted or result.interrupted or result.killed)
        if result.code == 0 and result.interrupted:
            disturbed = False       # input() ignores an interrupt that hits while it flushes the output: then nothing may be missing
        try:
            got, left = READERS[out_kind](result.out_bytes.decode('utf-8', 'ignore'))
        except Exception as e:
            raise Violation('bad-output', f'{what} printed something unreadable: {type(e).__name__}: {e}')
        expected = model(available)
        empty_book = module == 'blueprint_book' and args[0] == 'unpack' and not available
        if not disturbed and not torn and not error and not empty_book:
            if result.code != 0:
                raise Violation('tool-failed', f'{what} failed on good input: {result.err.strip().splitlines()[-1:]}')
            if left:
                raise Violation('torn-output', f'{what} ended normally in the middle of a record')
            if got != expected:
                raise Violation('wrong-output', difference(what, got, expected))
        else:
            if out_kind == 'book' and got and (torn or error):
                raise Violation('made-up', f'{what} printed a book although its input was incomplete')
            if got != expected[:len(got)]:
                raise Violation('wrong-output', difference(what, got, expected[:len(got)]))
            if result.code == 0 and (torn or error or disturbed) and not (torn and not rest2.strip()):
                raise Violation('failure-hidden', f'{what} ended normally although {"its input was torn" if torn else "it could not read its input" if error else "it was disturbed"}')
            owed = expected if not error else model(INPUTS[kind](decoded[:decoded.rfind('\n') + 1])[0])    # a line that has not ended cannot be read
            if (torn or error) and not disturbed and out_kind != 'book' and len(got) < len(owed):
                raise Violation('lost', f'{what} printed {len(got)} of {len(owed)} complete records before its input failed')
        if module == 'blueprint_book' and got:
            old, new = contents(kind, decoded), contents(out_kind, result.out_bytes.decode('utf-8', 'ignore'))
            if new != old[:len(new)]:
                raise Violation('wrong-output', f'{what} changed a blueprint: {next((b, a) for a, b in zip(old, new) if a != b)!r}'[:600])
        data, kind, values = result.out_bytes, out_kind, got     # the next stage sees what came out


def difference(what, got, expected):
    if len(got) != len(expected):
        return f'{what} made {len(got)} records of {len(expected)}'
    for i, (g, e) in enumerate(zip(got, expected)):
        if g != e:
            return f'{what}: record {i} should be {str(e)[:300]} but is {str(g)[:300]}'
    return what
