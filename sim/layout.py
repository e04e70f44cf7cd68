"""Judges printed layouts by the rules of the game: what feeds what, independent of the encoding.

Directions: 0 right, 1 up, 2 left, 3 down (the direction items move in)."""
from fractions import Fraction

VEC = [(1, 0), (0, -1), (-1, 0), (0, 1)]


class Bad(Exception):
    pass


def reverse(d):
    return (d + 2) % 4


class Layout:
    def __init__(self, grid, wrap=False, underground=None):
        if not isinstance(grid, list) or not grid or not all(isinstance(row, list) and row for row in grid):
            raise Bad('not a grid')
        self.height, self.width = len(grid), len(grid[0])
        if any(len(row) != self.width for row in grid):
            raise Bad('rows of different length')
        self.cells = grid
        self.wrap = wrap
        self.underground = underground
        self.tiles = {}
        for y, row in enumerate(grid):
            for x, cell in enumerate(row):
                self.tiles[x, y] = self.read(cell['tile'], x, y)
        self.work_out()

    @classmethod
    def of(cls, tiles, width, height, wrap=False, underground=None, inputs=()):
        """From tiles {(x, y): tile}."""
        self = cls.__new__(cls)
        self.width, self.height, self.wrap, self.underground = width, height, wrap, underground
        self.tiles = tiles
        self.cells, self.borders = None, set(inputs)
        self.work_out()
        return self

    def work_out(self):
        self.pair_splitters()
        self.pair_undergrounds()
        self.connect()
        self.trace()

    @staticmethod
    def read(tile, x, y):
        kind = tile['type']
        where = f'({x},{y})'
        if kind == 'empty':
            return ('empty',)
        if kind == 'belt':
            i, o = tile['input_direction'], tile['output_direction']
            if i not in range(4) or o not in range(4) or o == reverse(i):
                raise Bad(f'impossible belt at {where}: in {i}, out {o}')
            return ('belt', i, o)
        if kind == 'underground_belt':
            if tile['direction'] not in range(4):
                raise Bad(f'bad underground at {where}')
            return ('in' if tile['is_input'] else 'out', tile['direction'])
        if kind == 'splitter':
            if tile['direction'] not in range(4):
                raise Bad(f'bad splitter at {where}')
            return ('splitter', tile['direction'], bool(tile['is_head']))
        raise Bad(f'unexpected tile {tile} at {where}')

    def step(self, pos, d, n=1):
        x, y = pos[0] + VEC[d][0] * n, pos[1] + VEC[d][1] * n
        if self.wrap:
            return x % self.width, y % self.height
        return (x, y) if 0 <= x < self.width and 0 <= y < self.height else None

    def pair_splitters(self):
        self.splitters = []     # (head, other half, direction)
        for pos, t in self.tiles.items():
            if t[0] != 'splitter':
                continue
            side = (t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4
            other = self.step(pos, side)
            if other is None or self.tiles[other] != ('splitter', t[1], not t[2]):
                raise Bad(f'half a splitter at {pos}')
            if t[2]:
                self.splitters.append((pos, other, t[1]))

    def pair_undergrounds(self):
        self.tunnel = {}        # entrance -> exit
        for pos, t in self.tiles.items():
            if t[0] not in ('in', 'out'):
                continue
            d = t[1] if t[0] == 'in' else reverse(t[1])
            limit = max(self.width, self.height) + 1 if self.underground is None else self.underground + 1
            found = None
            for n in range(1, limit + 1):
                p = self.step(pos, d, n)
                if p is None:
                    break
                u = self.tiles[p]
                if u[0] in ('in', 'out') and u[1] % 2 == t[1] % 2:
                    found = p, n
                    break
            if found is None:
                raise Bad(f'underground {"entrance" if t[0] == "in" else "exit"} at {pos} has no counterpart within {limit - 1} tiles')
            if self.tiles[found[0]] != ('out' if t[0] == 'in' else 'in', t[1]):
                raise Bad(f'underground at {pos} meets another underground at {found[0]}')
            if found[1] < 2:
                raise Bad(f'underground at {pos} has no tile between its ends')
            if t[0] == 'in':
                self.tunnel[pos] = found[0]
        if len(set(self.tunnel.values())) != len(self.tunnel):
            raise Bad('two undergrounds share an exit')
        self.tunnel_length = {}
        for a, b in self.tunnel.items():
            self.tunnel_length[a] = abs(a[0] - b[0]) + abs(a[1] - b[1]) - 1

    def starts_here(self, pos):
        """Is the splitter half at the border fed from outside?"""
        if self.cells is None:
            return pos in self.borders
        return self.cells[pos[1]][pos[0]].get('input_direction') is not None

    def emits(self, pos):
        t = self.tiles[pos]
        return {'belt': lambda: t[2], 'out': lambda: t[1], 'splitter': lambda: t[1]}.get(t[0], lambda: None)()

    def accepts(self, pos, d):
        """Does the tile take items that move in direction d?"""
        t = self.tiles[pos]
        if t[0] == 'belt':
            return d != reverse(t[2])
        if t[0] == 'in':
            return d != reverse(t[1])
        if t[0] == 'out':
            return d % 2 != t[1] % 2
        if t[0] == 'splitter':
            return d == t[1]
        return False

    def connect(self):
        self.next = {}          # tile -> tile in front that it feeds, or None: leaves the grid
        self.feeds = {}         # tile -> [(feeder, direction)]
        self.inputs, self.outputs = [], []
        for pos in self.tiles:
            d = self.emits(pos)
            if d is None:
                continue
            front = self.step(pos, d)
            if front is None:
                if self.tiles[pos][0] == 'splitter':
                    raise Bad(f'splitter at {pos} ends at the border')
                self.next[pos] = None
                self.outputs.append((*pos, d))
            elif self.tiles[pos][0] == 'splitter' and self.tiles[front][0] in ('in', 'out') and d % 2 != self.tiles[front][1] % 2:
                pass    # the repository's test suite counts this as not connected ("Splitter output cases")
            elif self.accepts(front, d):
                self.next[pos] = front
                self.feeds.setdefault(front, []).append((pos, d))
            elif self.tiles[pos][0] != 'splitter':
                raise Bad(f'the {self.tiles[pos][0]} at {pos} leads into a tile that does not take it: {self.tiles[front]} at {front}')
        for pos, t in self.tiles.items():
            feeds = self.feeds.get(pos, [])
            if t[0] in ('belt', 'in'):
                d = t[1]
                back = self.step(pos, reverse(d))
                if back is None:
                    if feeds:
                        raise Bad(f'input at {pos} is also fed from {feeds[0][0]}')
                    self.inputs.append((*pos, d))
                elif [f[1] for f in feeds] != [d]:
                    raise Bad(f'{t[0]} at {pos} should be fed in direction {d} only, but is fed by {feeds}')
            elif t[0] == 'out' and feeds:
                raise Bad(f'underground exit at {pos} is loaded from the side by {feeds[0][0]}')
            elif t[0] == 'splitter':
                back = self.step(pos, reverse(t[1]))
                if back is None and self.starts_here(pos):
                    if feeds:
                        raise Bad(f'input at {pos} is also fed from {feeds[0][0]}')
                    self.inputs.append((*pos, t[1]))

    def trace(self):
        """Belt runs from grid inputs and splitter outputs to splitter inputs and grid outputs."""
        self.runs = []          # (source, sink, [tiles]); source ('in', pos) / ('splitter', half), sink ('out', pos) / ('splitter', half)
        seen = set()
        starts = [(('in', (x, y)), (x, y)) for x, y, _ in self.inputs]
        for head, tail, d in self.splitters:
            for half in (head, tail):
                if half in self.next:
                    starts.append((('splitter', half), self.next[half]))
        for source, pos in starts:
            path = []
            while True:
                if self.tiles[pos][0] == 'splitter':
                    sink = ('splitter', pos)
                    path.append(pos)
                    break
                if pos in seen:
                    raise Bad(f'two runs meet at {pos}')
                seen.add(pos)
                path.append(pos)
                nxt = self.tunnel[pos] if self.tiles[pos][0] == 'in' else self.next[pos]
                if nxt is None:
                    sink = ('out', pos)
                    break
                pos = nxt
            self.runs.append((source, sink, path))
        self.loops = []
        rest = [p for p, t in self.tiles.items() if t[0] in ('belt', 'in', 'out') and p not in seen]
        rest_set = set(rest)
        while rest_set:
            pos = start = min(rest_set)
            loop = []
            while pos in rest_set:
                rest_set.discard(pos)
                loop.append(pos)
                pos = self.tunnel[pos] if self.tiles[pos][0] == 'in' else self.next[pos]
            if pos != start:
                raise Bad(f'a belt at {start} comes from nowhere')
            self.loops.append(loop)

    # -- meaning --
    def colour(self, pos):
        return self.cells[pos[1]][pos[0]].get('colour')

    def check_colours(self):
        for source, sink, path in self.runs:
            colours = {self.colour(p) for p in path}
            if len(colours) > 1:
                raise Bad(f'colours {sorted(colours)} on one run of belts at {path[0]}')

    def nodes(self):
        """For every splitter the sorted colours it takes and gives (missing ones left out)."""
        incoming = {sink[1]: path for _, sink, path in self.runs if sink[0] == 'splitter'}
        outgoing = {source[1]: path for source, _, path in self.runs if source[0] == 'splitter'}
        result = []
        for head, tail, _ in self.splitters:
            result.append((tuple(sorted(self.colour(incoming[h][-1]) for h in (head, tail) if h in incoming)),
                           tuple(sorted(self.colour(outgoing[h][0]) for h in (head, tail) if h in outgoing))))
        return sorted(result)

    def shares(self):
        """Steady state without limits: {output: {input: share of that input}}; splitters divide evenly over their connected outputs."""
        index = {run[0]: i for i, run in enumerate(self.runs)}
        by_sink = {}
        for i, (source, sink, _) in enumerate(self.runs):
            by_sink.setdefault(sink, []).append(i)
        sources = [('in', (x, y)) for x, y, _ in self.inputs]
        n = len(self.runs)
        # flow[i] = sum over runs feeding its splitter / number of connected outputs
        rows = []
        for i, (source, _, _) in enumerate(self.runs):
            row = [Fraction(0)] * n + [Fraction(0)] * len(sources)
            row[i] = Fraction(1)
            if source[0] == 'in':
                row[n + sources.index(source)] = Fraction(1)
            else:
                for head, tail, _ in self.splitters:
                    if source[1] in (head, tail):
                        outs = [h for h in (head, tail) if ('splitter', h) in index]
                        for h in (head, tail):
                            for j in by_sink.get(('splitter', h), []):
                                row[j] -= Fraction(1, len(outs))
            rows.append(row)
        solve(rows, n)
        result = {}
        for i, (_, sink, _) in enumerate(self.runs):
            if sink[0] == 'out':
                result[sink[1]] = rows[i][n:]
        return result


def solve(rows, n):
    """Gauss-Jordan in place."""
    for col in range(n):
        pivot = next((r for r in range(col, n) if rows[r][col] != 0), None)
        if pivot is None:
            raise Bad('flow does not reach a steady state')
        rows[col], rows[pivot] = rows[pivot], rows[col]
        p = rows[col][col]
        if p != 1:
            rows[col] = [v / p for v in rows[col]]
        for r in range(n):
            if r != col and rows[r][col] != 0:
                f = rows[r][col]
                rows[r] = [a - f * b if b else a for a, b in zip(rows[r], rows[col])]


def contiguous(values):
    values = sorted(values)
    return values == list(range(values[0], values[0] + len(values))) if values else True
