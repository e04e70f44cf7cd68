"""All layouts of a small grid by plain backtracking, from the rules of the game alone.

A cell is a tile as in layout.py: ('empty',), ('belt', in, out), ('in', d), ('out', d),
('splitter', d, is head).  The local rules prune; layout.Layout decides."""
import itertools

from . import layout
from .layout import VEC, reverse

BELTS = [('belt', i, o) for i in range(4) for o in range(4) if o != reverse(i)]
ENDS = [(kind, d) for kind in ('in', 'out') for d in range(4)]
SPLITTERS = [('splitter', d, head) for d in range(4) for head in (True, False)]


def emits(t):
    return t[2] if t[0] == 'belt' else t[1] if t[0] in ('out', 'splitter') else None


def takes(t):
    return t[1] if t[0] in ('belt', 'in', 'splitter') else None


def side_loads(d, t):
    """Would something moving in direction d reach the tile from the side (or turn a belt)?"""
    return t[0] == 'belt' and d != t[1] and d != reverse(t[2])


def compatible(a, b, d):
    """May b lie next to a in direction d?"""
    for first, second, direction in ((a, b, d), (b, a, reverse(d))):
        gives = emits(first) == direction
        wants = takes(second) == direction
        if gives and not wants and (first[0] != 'splitter' or side_loads(direction, second)):
            return False
        if wants and not gives and second[0] != 'splitter':
            return False        # only a splitter half need not be fed
        if first[0] == 'splitter':
            side = (first[1] + 1) % 4 if first[2] else (first[1] + 3) % 4
            if side == direction and second != ('splitter', first[1], not first[2]):
                return False
    return True


def grids(width, height, kinds, wrap=False, allowed=None, splitters=None):
    """Every assignment that satisfies the local rules; `allowed(x, y, tile)` restricts single cells, `splitters` is how many there are."""
    cells = [(x, y) for x in range(width) for y in range(height)] if height <= width else [(x, y) for y in range(height) for x in range(width)]
    order = {pos: i for i, pos in enumerate(cells)}
    start = [sum(1 << k for k, t in enumerate(kinds) if allowed is None or allowed(*pos, t)) for pos in cells]
    near = {(k, d): sum(1 << j for j, u in enumerate(kinds) if compatible(t, u, d)) for k, t in enumerate(kinds) for d in range(4)}
    links = []
    for pos in cells:
        links.append([])
        for d in range(4):
            x, y = pos[0] + VEC[d][0], pos[1] + VEC[d][1]
            if wrap:
                x, y = x % width, y % height
            elif not (0 <= x < width and 0 <= y < height):
                continue
            links[-1].append((order[x, y], d))
    is_splitter = sum(1 << k for k, t in enumerate(kinds) if t[0] == 'splitter')
    support = {}

    def supported(mask, d):
        """Neighbours in direction d of any tile of the mask."""
        if (mask, d) not in support:
            result, m = 0, mask
            while m:
                k = (m & -m).bit_length() - 1
                result |= near[k, d]
                m &= m - 1
            support[mask, d] = result
        return support[mask, d]

    def narrow(masks, changed):
        while changed:
            i = changed.pop()
            for j, d in links[i]:
                new = masks[j] & supported(masks[i], d)
                if new != masks[j]:
                    if not new:
                        return False
                    masks[j] = new
                    changed.append(j)
        return True

    def place(masks):
        if splitters is not None:
            certain = sum(not m & ~is_splitter for m in masks)
            possible = sum(bool(m & is_splitter) for m in masks)
            if certain > 2 * splitters or possible < 2 * splitters:
                return
        i = next((i for i, m in enumerate(masks) if m & (m - 1)), None)
        if i is None:
            yield {pos: kinds[m.bit_length() - 1] for pos, m in zip(cells, masks)}
            return
        m = masks[i]
        while m:
            low = m & -m
            m &= m - 1
            new = list(masks)
            new[i] = low
            if narrow(new, [i]):
                yield from place(new)
    if all(start) and narrow(start, list(range(len(cells)))):
        yield from place(start)


def to_json(tiles, width, height):
    """The tiles as the tools print them."""
    result = []
    for y in range(height):
        row = []
        for x in range(width):
            t = tiles[x, y]
            if t[0] == 'empty':
                row.append({'type': 'empty'})
            elif t[0] == 'belt':
                row.append({'type': 'belt', 'input_direction': t[1], 'output_direction': t[2]})
            elif t[0] == 'splitter':
                row.append({'type': 'splitter', 'direction': t[1], 'is_head': t[2]})
            else:
                row.append({'type': 'underground_belt', 'direction': t[1], 'is_input': t[0] == 'in'})
        result.append(row)
    return result


def code(tiles, width, height):
    """One character per tile."""
    return ''.join(CODES[tiles[x, y]] for y in range(height) for x in range(width))


KINDS = [('empty',), *BELTS, *ENDS, *SPLITTERS]
CODES = dict(zip(KINDS, '.abcdefghijklABCDEFGHstuvwxyz'))


def empty_tunnel(lay):
    """An underground that passes nothing but empty tiles (the tools leave those out)."""
    for a, b in lay.tunnel.items():
        d = lay.tiles[a][1]
        pos, clear = a, True
        while True:
            pos = lay.step(pos, d)
            if pos == b:
                break
            if lay.tiles[pos] != ('empty',):
                clear = False
        if clear:
            return True
    return False


def small_ring(lay):
    """Four belts in a circle (within the grid)."""
    rings = []
    for x in range(lay.width - 1):
        for y in range(lay.height - 1):
            square = [lay.tiles[x, y], lay.tiles[x + 1, y], lay.tiles[x + 1, y + 1], lay.tiles[x, y + 1]]
            if square == [('belt', 1, 0), ('belt', 0, 3), ('belt', 3, 2), ('belt', 2, 1)]:
                return True
            if square == [('belt', 2, 3), ('belt', 1, 2), ('belt', 0, 1), ('belt', 3, 0)]:
                return True
    return False


def blocks(width, height, wrap=False, empty=False, single=False, parallel=True, underground=4):
    """The layouts make_block has to produce."""
    kinds = ([('empty',)] if empty else []) + BELTS + (ENDS if underground else [])

    def allowed(x, y, t):
        if wrap:
            return True
        for d in range(4):
            ahead = 0 <= x + VEC[d][0] < width and 0 <= y + VEC[d][1] < height
            behind = 0 <= x - VEC[d][0] < width and 0 <= y - VEC[d][1] < height
            if not ahead and (emits(t) == d or t == ('in', d)):
                return False
            if not behind and (takes(t) == d or t == ('out', d)):
                return False
        return True
    for tiles in grids(width, height, kinds, wrap, allowed):
        try:
            lay = layout.Layout.of(tiles, width, height, wrap, underground)
        except layout.Bad:
            continue
        if small_ring(lay) or empty_tunnel(lay):
            continue
        if single and len(lay.loops) != 1:
            continue
        if not parallel and parallel_tunnels(lay):
            continue
        yield tiles


def segments(lay):
    """{axis: tiles that an underground passes}"""
    result = {0: set(), 1: set()}
    for a, b in lay.tunnel.items():
        d = lay.tiles[a][1]
        pos = lay.step(a, d)
        while pos != b:
            result[d % 2].add(pos)
            pos = lay.step(pos, d)
    return result


def parallel_tunnels(lay):
    passed = segments(lay)
    return any(lay.step(pos, 1 - axis) in passed[axis] for axis in (0, 1) for pos in passed[axis])


def balancers(width, height, network, mode='straight', aligned=False, use_ends=False, underground=4):
    """The layouts belt_balancer has to produce without any of its options that narrow the search.

    network: [((in, in), (out, out))] with None for a side that is not connected."""
    n_in, n_out = network_ends(network)[0][1], network_ends(network)[1][1]
    in_cells = [(0, y) for y in range(height)]
    out_cells, out_dir = {'straight': ([(width - 1, y) for y in range(height)], 0), '90': ([(x, height - 1) for x in range(width)], 3),
                          '180': ([(0, y) for y in range(height)], 2)}[mode]
    rest_empty = not use_ends and mode != '180'
    for a in range(len(in_cells) - n_in + 1):
        inputs = set(in_cells[a:a + n_in])
        for b in range(len(out_cells) - n_out + 1):
            outputs = set(out_cells[b:b + n_out])
            if aligned and not (a <= b and b + n_out <= a + n_in or b <= a and a + n_in <= b + n_out):
                continue

            def allowed(x, y, t):
                pos = (x, y)
                for d in range(4):
                    if not (0 <= x + VEC[d][0] < width and 0 <= y + VEC[d][1] < height):
                        if t == ('in', d) or t[0] == 'splitter' and t[1] == d:
                            return False
                        if (emits(t) == d) != (d == out_dir and pos in outputs):
                            return False
                    if not (0 <= x - VEC[d][0] < width and 0 <= y - VEC[d][1] < height):
                        if t == ('out', d):
                            return False
                        if t[0] == 'splitter' and t[1] == d:
                            continue
                        if (takes(t) == d) != (d == 0 and pos in inputs):
                            return False
                if pos in inputs and t[0] != 'belt' and (n_in < len(in_cells) or takes(t) != 0):
                    return False
                if pos in outputs and t[0] != 'belt':
                    return False
                if rest_empty and (pos in in_cells and pos not in inputs or pos in out_cells and pos not in outputs) and t[0] != 'empty':
                    return False
                return True
            for tiles in grids(width, height, KINDS, False, allowed, len(network)):
                try:
                    lay = layout.Layout.of(tiles, width, height, False, underground, inputs=inputs)
                except layout.Bad:
                    continue
                if empty_tunnel(lay) or not implements(lay, network):
                    continue
                yield tiles


def custom(width, height, network, underground=4):
    """The layouts with the inputs and outputs anywhere around the border."""
    n_in, n_out = network_ends(network)[0][1], network_ends(network)[1][1]

    def outside(x, y, d):
        return not (0 <= x + VEC[d][0] < width and 0 <= y + VEC[d][1] < height)

    def allowed(x, y, t):
        for d in range(4):
            if outside(x, y, d) and (t == ('in', d) or t[0] == 'splitter' and t[1] == d):
                return False
            if outside(x, y, reverse(d)) and t == ('out', d):
                return False
        return True
    for tiles in grids(width, height, KINDS, False, allowed, len(network)):
        leaving = sum(emits(t) is not None and outside(*pos, emits(t)) for pos, t in tiles.items())
        entering = [pos for pos, t in tiles.items() if takes(t) is not None and outside(*pos, reverse(takes(t)))]
        halves = [pos for pos in entering if tiles[pos][0] == 'splitter']      # may be fed from outside or not
        more = n_in - (len(entering) - len(halves))
        if leaving != n_out or not 0 <= more <= len(halves):
            continue
        for fed in itertools.combinations(halves, more):
            try:
                lay = layout.Layout.of(tiles, width, height, False, underground, inputs=fed)
            except layout.Bad:
                continue
            if not empty_tunnel(lay) and implements(lay, network):
                yield tiles
                break


def network_ends(network):
    """((input colour, count), (output colour, count)): the colours that are not made and not used up inside."""
    balance = {}
    for ins, outs in network:
        for c in ins:
            if c is not None:
                balance[c] = balance.get(c, 0) - 1
        for c in outs:
            if c is not None:
                balance[c] = balance.get(c, 0) + 1
    (i,) = [c for c, n in balance.items() if n < 0]
    (o,) = [c for c, n in balance.items() if n > 0]
    return (i, -balance[i]), (o, balance[o])


def implements(lay, network):
    """Can the splitters of the layout play the parts of the network's?"""
    (c_in, n_in), (c_out, n_out) = network_ends(network)
    if len(lay.splitters) != len(network) or len(lay.inputs) != n_in or len(lay.outputs) != n_out:
        return False
    run_in = {sink[1]: i for i, (_, sink, _) in enumerate(lay.runs) if sink[0] == 'splitter'}
    run_out = {source[1]: i for i, (source, _, _) in enumerate(lay.runs) if source[0] == 'splitter'}
    colour = {}
    for i, (source, sink, _) in enumerate(lay.runs):
        wanted = ({c_in} if source[0] == 'in' else set()) | ({c_out} if sink[0] == 'out' else set())
        if len(wanted) > 1:
            return False
        if wanted:
            colour[i] = wanted.pop()

    def fits(runs, colours):
        """Assignments of the colours (None: unconnected) to the halves."""
        for option in {tuple(colours), tuple(colours[::-1])}:
            if all((r is None) == (c is None) for r, c in zip(runs, option)):
                yield [(r, c) for r, c in zip(runs, option) if r is not None]

    def assign(k, free):
        if k == len(lay.splitters):
            return True
        head, tail, _ = lay.splitters[k]
        ins, outs = [run_in.get(head), run_in.get(tail)], [run_out.get(head), run_out.get(tail)]
        for j in free:
            for x in fits(ins, network[j][0]):
                for y in fits(outs, network[j][1]):
                    added = []
                    good = True
                    for r, c in x + y:
                        if colour.get(r, c) != c:
                            good = False
                            break
                        if r not in colour:
                            colour[r] = c
                            added.append(r)
                    if good and assign(k + 1, [f for f in free if f != j]):
                        return True
                    for r in added:
                        del colour[r]
        return False
    return assign(0, list(range(len(network))))


def read_network(text):
    result = []
    for line in text.splitlines():
        if line.strip():
            a, b, c, d = (None if int(v) == -1 else int(v) for v in line.split())
            result.append(((a, b), (c, d)))
    return result
