"""C17: render shows and exports the layouts that it is given."""
import io
import json
import math
import os
import re

from sim import fs as simfs, gl as simgl, loader, proc
from sim.core import Violation
from sim.layout import VEC, reverse
from . import c10

ID = 'C17'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 3500, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 30000, 900
RULE = ('A run sends random layouts in random pieces to render, which either exports them all or is driven by random key presses at random moments. ffmpeg may be missing, die while it is fed or fail at the end; the input may end or fail '
        'at any byte; the process may be killed or interrupted. Every picture in the window and every frame of every video is compared with the layout tile by tile. Non-trivial: at least two layouts or a fault; distinct by event log.')
REAL = ['factorio_sat.render (whole main)', 'factorio_sat.tilemaps', 'factorio_sat.blueprint', 'ffmpeg-python']
STUB = ['OpenGL (state machine that keeps primitives instead of pixels)', 'pygame window, events and clock', 'ffmpeg process', 'texture files (names and sizes only)', 'standard input (pieces, ends, errors)']
ASSUMPTIONS = ['rasterisation is OpenGL\'s business: two images are equal if the same primitives were drawn', 'the order of sprites in the texture files is that of the game']


def prepare():
    simgl.install()
    loader.preload('factorio_sat.render', 2)


# -- what a picture of a layout has to show --
COMPASS = 'east', 'north', 'west', 'south'
STRAIGHT = {'east': 0, 'west': 1, 'north': 2, 'south': 3}
TURN = {('east', 'north'): 4, ('north', 'east'): 5, ('west', 'north'): 6, ('north', 'west'): 7, ('south', 'east'): 8, ('east', 'south'): 9, ('south', 'west'): 10, ('west', 'south'): 11}
EXIT, ENTRY = [14, 12, 18, 16], [19, 17, 15, 13]
EXIT_TOP, ENTRY_TOP = [3, 2, 1, 0], [1, 0, 3, 2]
PLATFORM, MACHINE = ['hr-inserter-platform.png', 'hr-long-handed-inserter-platform.png'], 'hr-assembling-machine-1.png'
BELT, TUNNEL = 'hr-transport-belt.png', 'hr-underground-belt-structure.png'
GROUND = (BELT, *PLATFORM, MACHINE)     # lies below what stands on it


def sprites(t, a):
    """[(file, column, row, half)] of a tile in picture a of the animation."""
    if t[0] == 'belt':
        source, sink = COMPASS[reverse(t[1])], COMPASS[t[2]]
        return [(BELT, a % 16, STRAIGHT[sink] if t[1] == t[2] else TURN[source, sink], None)]
    if t[0] in ('in', 'out'):
        entry = t[0] == 'in'
        return [(BELT, a % 16, (ENTRY if entry else EXIT)[t[1]], None), (TUNNEL, (ENTRY_TOP if entry else EXIT_TOP)[t[1]], int(entry), None)]
    if t[0] == 'splitter':
        d, head = t[1], t[2]
        side = COMPASS[d]
        below = (BELT, a % 16, STRAIGHT[side], None)
        if d == 0:
            top = ('hr-splitter-east.png' if head else 'hr-splitter-east-top_patch.png', a % 8, a // 8 % 4, None)
        elif d == 2:
            top = ('hr-splitter-west-top_patch.png' if head else 'hr-splitter-west.png', a % 8, a // 8 % 4, None)
        else:
            top = (f'hr-splitter-{side}.png', a % 8, a // 8 % 4, 'right' if head == (d == 1) else 'left')
        return [below, top]
    if t[0] == 'inserter':
        return [(PLATFORM[t[2]], (1 - t[1]) % 4, 0, None)]
    if t[0] == 'machine':
        return [(MACHINE, a % 8, a // 8 % 4, (t[1], t[2]))]
    return []


def hands(t, a):
    """The parts of the hand of an inserter, which turns around the middle of its tile."""
    stem = ['hr-inserter-hand', 'hr-long-handed-inserter-hand'][t[2]]
    return [f'{stem}-base.png', f'{stem}-{"closed" if a > 16 else "open"}.png']


def length(value):
    return 32 if any(cell['tile']['type'] == 'splitter' for row in value for cell in row) else 16


REACH = [0.75, 1.875]


def words(text):
    return re.findall(r'[\w.-]+', text)


def middle(spots, i, j):
    return (spots[i][0] + spots[j][0]) / 2, (spots[i][1] + spots[j][1]) / 2


def near(spot, cell, error):
    return abs(spot[0] - cell[0] - 0.5) < error and abs(spot[1] - cell[1] - 0.5) < error


class Oracle:
    def __init__(self, c, values, options):
        self.values, self.options = values, options
        self.known = {}

    def size(self, k):
        rows, columns = len(self.values[k]), len(self.values[k][0])
        pad = round(2 * self.options['padding'] * self.options['cell'])
        return columns * self.options['cell'] + pad, rows * self.options['cell'] + pad

    def judge(self, content, k):
        """The number of the picture in the animation of layout k; raises ValueError."""
        key = k, repr(content)
        if key not in self.known:
            try:
                self.known[key] = self.read(content, k)
            except ValueError as e:
                self.known[key] = e
        if isinstance(self.known[key], ValueError):
            raise self.known[key]
        return self.known[key]

    def read(self, content, k):
        value = self.values[k]
        rows, columns = len(value), len(value[0])
        padding = self.options['padding']
        width, height = self.size(k)
        if content is None:
            raise ValueError('nothing was drawn')
        drawn, colours, lines, arms, covered, texts = {}, {}, [], [], set(), {}
        for item in content:
            if item[0] == 'scaled':
                raise ValueError('the picture is cut off or scaled')
            kind, points, label, colour = item
            spots = [((px / width) * (columns + 2 * padding) - padding, (py / height) * (rows + 2 * padding) - padding) for (px, py), _ in points]
            if kind == 'lines':
                lines.append((spots, colour))
            if kind != 'quads' or label is None:
                continue
            name, *ops = label[0].split('|')
            if name == 'text':
                xs, ys = [x for x, _ in spots], [y for _, y in spots]
                if min(xs) < math.floor(min(xs) + 1e-6) - 1e-6 or max(xs) > math.floor(min(xs) + 1e-6) + 1 + 1e-6 or max(ys) > math.floor(min(ys) + 1e-6) + 1 + 1e-6:
                    raise ValueError('text leaves its cell')
                texts.setdefault((math.floor(min(xs) + 1e-6), math.floor(min(ys) + 1e-6)), []).append(label[0].partition('|')[2])
                continue
            if '-hand-' in name:
                arms.append((name, spots, colour))
                continue
            file = simgl.FILES.get(name)
            if file is None:
                continue
            us = [u * label[1] for _, (u, v) in points]
            vs = [(1 - v if ops == ['transpose 1'] else v) * label[2] for _, (u, v) in points]
            left, right, top, bottom = min(us), max(us), min(vs), max(vs)
            column, row = math.floor(left / file[2] + 0.001), math.floor(top / file[3] + 0.001)
            if right > (column + 1) * file[2] + 0.01 or bottom > (row + 1) * file[3] + 0.01:
                raise ValueError('a sprite crosses a border in its file')
            xs, ys = [x for x, _ in spots], [y for _, y in spots]
            if us.index(left) not in [i for i, x in enumerate(xs) if abs(x - min(xs)) < 1e-6] or vs.index(top) not in [i for i, y in enumerate(ys) if abs(y - min(ys)) < 1e-6]:
                raise ValueError('a sprite is turned over')
            cell = math.floor((min(xs) + max(xs)) / 2 + 1e-6), math.floor((min(ys) + max(ys)) / 2 + 1e-6)
            half = None
            if name == MACHINE:
                half = math.floor(3 * ((left + right) / 2 / file[2] - column)), math.floor(3 * ((top + bottom) / 2 / file[3] - row))
            elif right - left < 0.9 * file[2]:
                half = 'left' if (left + right) / 2 < (column + 0.5) * file[2] else 'right'
            if name not in GROUND:
                covered.update((x, y) for x in range(math.floor(min(xs) + 0.1), math.ceil(max(xs) - 0.1)) for y in range(math.floor(min(ys) + 0.1), math.ceil(max(ys) - 0.1)))
            elif cell in covered:
                raise ValueError(f'{name} at {cell} is drawn over what stands there')
            drawn.setdefault(cell, []).append((name, column, row, half))
            colours.setdefault(cell, []).append(colour)
        tiles = {(x, y): c10.tile_from_json(value[y][x]['tile']) for y in range(rows) for x in range(columns)}
        for a in range(length(value)):
            expected = {p: sprites(t, a) for p, t in tiles.items() if sprites(t, a)}
            if drawn == expected and self.arms(tiles, arms, a):
                break
        else:
            expected = {p: sprites(t, 0) for p, t in tiles.items() if sprites(t, 0)}
            for p in sorted(set(drawn) ^ set(expected)):
                raise ValueError(f'{"nothing" if p not in drawn else drawn[p]} at {p}, where the tile is {tiles.get(p)}')
            for p in sorted(drawn):
                if not any(drawn[p] == sprites(tiles[p], a) for a in range(32)):
                    raise ValueError(f'{drawn[p]} at {p}, where the tile is {tiles[p]}')
            raise ValueError('the tiles are not in step, or the hands of the inserters are wrong')
        seen = self.colours(value, colours, rows, columns)
        self.lines(value, lines, seen)
        self.texts(value, texts)
        moves = any(sprites(t, 0) != sprites(t, 1) for t in tiles.values())
        return a if moves else None         # nothing tells the pictures of a layout without belts apart

    def arms(self, tiles, arms, a):
        """Each inserter has its hand, the base starting in the middle of its tile and pointing along it."""
        wanted = sorted(name for t in tiles.values() if t[0] == 'inserter' for name in hands(t, a))
        if sorted(name for name, _, _ in arms) != wanted:
            return False
        for p, t in tiles.items():
            if t[0] != 'inserter':
                continue
            base, tip = hands(t, a)
            if not any(name == base and near(middle(spots, 0, 3), p, 0.3) for name, spots, _ in arms):
                return False
            if a == 0 and not any(name == tip and near(middle(spots, 1, 2), (p[0] + VEC[t[1]][0] * REACH[t[2]], p[1] + VEC[t[1]][1] * REACH[t[2]]), 0.4) for name, spots, _ in arms):
                return False        # at first it reaches out
        return True

    def colours(self, value, colours, rows, columns):
        seen = {}
        for (x, y), shown in colours.items():
            if len(set(shown)) > 1:
                raise ValueError(f'two colours at {(x, y)}')
            wanted = value[y][x].get('colour', 0)
            if isinstance(wanted, list):
                wanted = wanted[0]
            wanted = 'hidden' if self.options['hide'] else wanted
            if seen.setdefault(wanted, shown[0]) != shown[0]:
                raise ValueError(f'colour {wanted} is drawn in two ways')
        if len(set(seen.values())) != len(seen):
            raise ValueError('different colours look the same')
        return seen

    def texts(self, value, texts):
        """With --show-raw the values stand in every cell, in the order of the options."""
        for y, row in enumerate(value):
            for x, cell in enumerate(row):
                wanted = []
                for name in self.options['raw']:
                    item = cell
                    for piece in name.split('.'):
                        item = item.get(piece)
                    wanted.append(item)
                if words(str(wanted)) != words(' '.join(texts.pop((x, y), []))):
                    raise ValueError(f'the text at {(x, y)} is not {wanted}')
        if texts:
            raise ValueError('text where nothing is')

    def lines(self, value, lines, seen):
        expected = {}
        if self.options['underground']:
            for y, row in enumerate(value):
                for x, cell in enumerate(row):
                    bits = cell.get('underground', [False] * 4)
                    if any(bits[0::2]):
                        expected[x, y + 0.5, x + 1, y + 0.5] = cell.get('colour_ux', 0)
                    if any(bits[1::2]):
                        expected[x + 0.5, y, x + 0.5, y + 1] = cell.get('colour_uy', 0)
        shown = {}
        for spots, colour in lines:
            (x0, y0), (x1, y1) = sorted((round(x, 4), round(y, 4)) for x, y in spots)
            if x0 == x1 and x0 % 1 == 0.5 and y1 - y0 == 1 and y0 % 1 == 0 or y0 == y1 and y0 % 1 == 0.5 and x1 - x0 == 1 and x0 % 1 == 0:
                shown[x0, y0, x1, y1] = colour
        if set(shown) != set(expected):
            raise ValueError(f'underground lines {sorted(set(shown) ^ set(expected))[:3]}')
        for place, wanted in expected.items():
            if seen.setdefault('hidden' if self.options['hide'] else wanted, shown[place]) != shown[place]:
                raise ValueError(f'colour {wanted} is drawn in two ways')


def place_machine(rng, layout):
    """An assembling machine where there is room."""
    rows, columns = len(layout), len(layout[0]) if layout else 0
    for _ in range(4):
        if rows < 3 or columns < 3:
            return
        x0, y0 = rng.randrange(columns - 2), rng.randrange(rows - 2)
        if all(layout[y0 + y][x0 + x][0] != 'splitter' for x in range(3) for y in range(3)):
            for x in range(3):
                for y in range(3):
                    layout[y0 + y][x0 + x] = ('machine', x, y)


def make_values(c, rng, count, machines):
    coloured = rng.random() < 0.7
    exotic = rng.random() < 0.4
    values = []
    for _ in range(count):
        layout = c10.random_layout(c, rng, exotic)
        if machines and rng.random() < 0.5:
            place_machine(rng, layout)
        n = rng.choice([1, 2, 3, 5])
        value = []
        for row in layout:
            line = []
            for t in row:
                cell = c10.cell_json(t, None)
                if coloured:
                    colour = rng.randrange(n)
                    cell['colour'] = rng.choice([colour, colour, [colour], None]) if rng.random() < 0.3 else colour
                    cell['underground'] = [rng.random() < 0.2 for _ in range(4)]
                    cell['colour_ux'], cell['colour_uy'] = rng.randrange(n), rng.choice([rng.randrange(n), None])
                line.append(cell)
            value.append(line)
        values.append(value)
    return values


def run(world):
    c = world.c
    world.fs = simfs.SimFS(world, world.root)
    rng = c.subrng('layouts')
    export = c.flag('export')
    machines = c.chance(4, 'machines')
    values = make_values(c, rng, c.pick([1, 2, 3, 1, 0] if export else [2, 3, 1, 4, 0], 'layouts'), machines)
    options = {'padding': c.pick([0, 0, 1, 0.5, 0.3], 'padding'), 'cell': c.pick([32, 8, 5, 64], 'cell size'), 'hide': c.chance(4, 'hide'), 'underground': c.chance(3, 'underground')}
    args = (['--padding', str(options['padding'])] if options['padding'] else []) + (['--cell-size', str(options['cell'])] if options['cell'] != 32 else [])
    args += (['--hide-colour'] if options['hide'] else []) + (['--show-underground'] if options['underground'] else [])
    if c.chance(5, 'count'):
        args += ['--colour-count', str(c.pick([5, 6, 9], 'colours'))]
    options['raw'] = c.shuffle(['colour', 'tile.type', 'underground', 'colour_ux', 'none', 'tile'], 'raw')[:c.between(1, 3, 'names')] if c.chance(5, 'show raw') else []
    for name in options['raw']:
        args += ['--show-raw', name]
    gif = c.chance(3, 'gif')
    if gif:
        args += ['--export-format', 'gif']
    if export:
        args.append('--export-all')
    data = ''.join(json.dumps(v) + '\n' for v in values).encode()
    hazard, kinds, line, error = 0, (), None, False
    studio_hazard = 0
    fault = c.pick(['none', 'none', 'none', 'cut', 'read error', 'ffmpeg', 'line', 'effects'], 'fault')
    if fault == 'cut':
        data = data[:c.draw(len(data) + 1, 'cut at')]
        world.fault('input-cut')
    elif fault == 'read error':
        data = data[:c.draw(len(data) + 1, 'error at')]
        error = True
        world.fault('input-error')
    elif fault == 'ffmpeg':
        studio_hazard = c.pick([1, 2, 3], 'density')
    elif fault == 'line':
        line = 1 + c.draw(c.pick([200, 4000, 60000], 'range'), 'interrupt at')
    elif fault == 'effects':
        hazard, kinds = 2, ('kill', 'intr', 'epipe')
    complete, rest = data.count(b'\n'), data[data.rfind(b'\n') + 1:]
    whole = complete
    if rest and not error:
        try:
            json.loads(rest)
            whole += 1
        except ValueError:
            pass
    torn = bool(rest) and whole == complete
    values = values[:whole]
    world.gl = simgl.SimGL(world)
    world.display = display = simgl.Display(world)
    world.studio = studio = simgl.Studio(world, studio_hazard, ['fails', 'missing', 'dies', 'killed', 'disk full'])
    studio.existing = c.chance(3, 'files exist')
    oracle = Oracle(c, values, options)
    what = 'render ' + ' '.join(args)
    if len(values) > 1 or fault != 'none':
        world.count('nontrivial')
    session = Session(world, display, oracle, values, torn or error, what) if not export else None
    if session:
        session.plan(c, 'iksx' if machines else 'ikessix')       # machines have no blueprint
        session.studio = studio
        display.script, display.on_flip = session.script, session.flip
    else:
        session = Bystander(world, what, c.chance(4, 'keys'), c.draw(80, 'close at') if c.chance(8, 'close') else None)
        display.script, display.on_flip = session.script, session.flip
    stdin = io.TextIOWrapper(io.BufferedReader(c10.Pieces(data, c.subrng('pieces'), error)), encoding='utf-8')
    result = proc.run(world, 'factorio_sat.render', args, stdin=stdin, hazard=hazard, kinds=kinds, interrupt_line=line)
    world.studio = None
    world.count('pictures', display.flips)
    disturbed = bool(result.faulted or result.interrupted or result.killed)
    videos(world, studio, oracle, values, gif, what)
    names = [v['name'] for v in studio.files]
    if studio.faulted and result.code == 0:
        raise Violation('failure-hidden', f'{what} ended normally although ffmpeg failed')
    if display.open and not result.killed and not disturbed:
        raise Violation('window', f'{what}: the window is still open at the end')
    if disturbed or studio.faulted:
        if result.code == 0 and not result.interrupted:
            raise Violation('failure-hidden', f'{what} ended normally although it was disturbed')
        return
    ending = '.gif' if gif else '.mp4'
    if export:
        if session.closed:              # the window was closed before the end
            wanted = [f'{k}{ending}' for k in range(len(values))]
            if names != wanted[:len(names)] or session.extra > 1:
                raise Violation('export', f'{what} made {names} of {len(values)} layouts and {session.extra} pictures after it was closed')
            if result.code != 0 and not (torn or error):
                raise Violation('tool-failed', f'{what} failed: {result.err.strip().splitlines()[-1:]}')
            return
        if session.printed(result):
            raise Violation('export', f'{what} printed a blueprint')
        if names != [f'{k}{ending}' for k in range(len(values))]:
            raise Violation('export', f'{what} made {names} of {len(values)} layouts')
        if torn or error:
            if result.code == 0:
                raise Violation('failure-hidden', f'{what} ended normally although its input was incomplete')
        elif result.code != 0:
            raise Violation('tool-failed', f'{what} failed: {result.err.strip().splitlines()[-1:]}')
        return
    if session.failed or not values:
        if (result.code == 0) != (not (torn or error)):
            raise Violation('tool-failed' if result.code else 'failure-hidden', f'{what} ended with {result.code}')
        if not session.failed:
            return
    elif result.code != 0:
        raise Violation('tool-failed', f'{what} failed: {result.err.strip().splitlines()[-1:]}')
    session.finish(result)


def videos(world, studio, oracle, values, gif, what):
    world.count('videos', len(studio.files))
    for video in studio.files:
        stem, ending = os.path.splitext(os.path.basename(video['name'] or ''))
        if not stem.isdigit() or int(stem) >= len(values) or ending != ('.gif' if gif else '.mp4'):
            raise Violation('export', f'{what} wrote {video["name"]}')
        k = int(stem)
        if (video['width'], video['height']) != oracle.size(k) or video['format'] != 'rgb24':
            raise Violation('export', f'{what}: {video["name"]} is {video["width"]}x{video["height"]} {video["format"]}')
        if video['frames'] is None or len(video['frames']) != length(values[k]):
            raise Violation('export', f'{what}: {video["name"]} has {len(video["frames"] or [])} pictures instead of {length(values[k])}')
        row = video['width'] * 3
        for a, frame in enumerate(video['frames']):
            upright = b''.join(frame[i:i + row] for i in range(len(frame) - row, -1, -row))
            if upright not in world.gl.images:
                raise Violation('export', f'{what}: picture {a} of {video["name"]} is ' + ('upside down' if frame in world.gl.images else 'not what was drawn'))
            try:
                got = oracle.judge(world.gl.images[upright][0], k)
            except ValueError as e:
                raise Violation('export', f'{what}: picture {a} of {video["name"]} does not show layout {k}: {e}')
            if got not in (a, None):
                raise Violation('export', f'{what}: picture {a} of {video["name"]} is number {got} of the animation')


class Bystander:
    """Someone who touches the keys or closes the window during an export; keys mean nothing then."""

    def __init__(self, world, what, keys, stop):
        self.w, self.what, self.keys, self.stop = world, what, keys, stop
        self.closed, self.extra = False, 0
        self.rng = world.c.subrng('bystander')

    def script(self, display):
        import pygame
        events = []
        if self.keys and self.rng.random() < 0.1:
            key = self.rng.choice('ikesx')
            events.append(pygame.event.Event(pygame.KEYDOWN, key=getattr(pygame, 'K_' + key)))
            self.w.log('key', key)
            self.w.count('keys')
        if self.stop is not None and display.flips >= self.stop:
            events.append(pygame.event.Event(pygame.QUIT))
            self.closed = True
        return events

    def flip(self, display):
        self.extra += self.closed

    def printed(self, result):
        for text in result.lines:
            try:
                c10.unpack(text)
                return True
            except Exception:
                continue
        return False


class Session:
    """Someone in front of the window, and what should be there."""

    def __init__(self, world, display, oracle, values, bad_end, what):
        self.w, self.display, self.oracle, self.values, self.bad_end, self.what = world, display, oracle, values, bad_end, what
        self.index = 0
        self.known = 1
        self.failed = False             # the next layout could not be read
        self.exported = []
        self.pending = 0                # a video was asked for: pictures since, plus one
        self.saved = 0
        self.last = None

    def plan(self, c, keys):
        self.keys = []
        at = 0
        for _ in range(c.draw(9, 'keys')):
            at += c.pick([0, 1, 1, 3, 20, 140], 'pause')
            self.keys.append((at, c.pick(list(keys), 'key')))
        self.stop = at + c.pick([0, 1, 5, 70, 140], 'end')

    def script(self, display):
        import pygame
        events = []
        while self.keys and self.keys[0][0] <= display.flips:
            key = self.keys.pop(0)[1]
            events.append(pygame.event.Event(pygame.KEYDOWN, key=getattr(pygame, 'K_' + key)))
            self.w.log('key', key)
            self.w.count('keys')
            self.press(key)
            if self.failed:
                break
        if display.flips >= self.stop and not self.keys:
            events.append(pygame.event.Event(pygame.QUIT))
        return events

    def press(self, key):
        if key == 'i':
            self.index += 1
            if self.index >= self.known:
                if self.index < len(self.values):
                    self.known = self.index + 1
                elif self.bad_end:
                    self.failed = True
                else:
                    self.index = 0
        elif key == 'k':
            self.index = (self.index - 1) % self.known
        elif key == 'e':
            self.exported.append(self.index)
        elif key == 's':
            self.pending = self.pending or 1
        if key in 'ik':
            self.last = None
            self.pending = min(self.pending, 1)

    def flip(self, display):
        k = self.index
        if display.size != self.oracle.size(k):
            raise Violation('window', f'{self.what}: the window is {display.size} for layout {k}')
        try:
            a = self.oracle.judge(self.w.gl.window.content, k)
        except ValueError as e:
            raise Violation('picture', f'{self.what}: the window does not show layout {k}: {e}')
        n = length(self.values[k])
        if a is None:
            pass
        elif self.last is not None:
            before, still = self.last
            if a not in (before, (before + 1) % n):
                raise Violation('picture', f'{self.what}: picture {a} follows {before}')
            still = still + 1 if a == before else 0
            if still > 10:
                raise Violation('picture', f'{self.what}: the animation stands still')
            self.last = a, still
        else:
            self.last = a, 0
        new = self.studio.files[self.saved:]
        if new and not self.pending or len(new) > 1:
            raise Violation('export', f'{self.what} wrote {[v["name"] for v in new]} without being asked')
        if new:
            if os.path.basename(new[0]['name'] or '').split('.')[0] != str(k):
                raise Violation('export', f'{self.what} wrote {new[0]["name"]} while layout {k} was shown')
            self.saved, self.pending = self.saved + 1, 0
        elif self.pending:
            self.pending += 1
            if self.pending > 2 * n + 10:
                raise Violation('export', f'{self.what}: no video after {self.pending} pictures')

    def finish(self, result):
        shown = []
        for text in result.lines:
            try:
                shown.append(c10.entities(c10.unpack(text)))
            except Exception:
                continue
        expected = []
        for k in self.exported:
            layout = [[(c10.tile_from_json(cell['tile']), None) for cell in row] for row in self.values[k]]
            expected.append(c10.to_bp(layout, 'normal', None))
        if shown != expected:
            raise Violation('blueprint', f'{self.what}: {len(shown)} blueprints were printed for layouts {self.exported}' + ('' if len(shown) != len(expected) else ', a wrong one'))
