"""Layouts made from known ones: stretched (still right, if judged so) and spoiled (to be refused)."""
from . import enumerate as en
from .layout import VEC, reverse


def crossing(tiles, a, b, d):
    """What connects neighbour tiles a and b on the surface, b in direction d of a: the belt to put between them, or None."""
    for first, second, direction in ((tiles[a], tiles[b], d), (tiles[b], tiles[a], reverse(d))):
        if en.emits(first) == direction and en.takes(second) == direction:
            return 'belt', direction, direction
    return None


def stretch(tiles, width, height, vertical, at):
    """One more column (or row) before column (row) `at`; None if a splitter is in the way."""
    d = 3 if vertical else 0
    new = {}
    for (x, y), t in tiles.items():
        k = y if vertical else x
        new[(x, y + (k >= at)) if vertical else (x + (k >= at), y)] = t
    for i in range(width if vertical else height):
        a, b = ((i, at - 1), (i, at)) if vertical else ((at - 1, i), (at, i))
        for pos, other, way in ((a, b, d), (b, a, reverse(d))):
            t = tiles[pos]
            if t[0] == 'splitter' and ((t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4) == way:
                return None
        new[(i, at) if vertical else (at, i)] = crossing(tiles, a, b, d) or ('empty',)
    return new


def tunnels(tiles):
    """[(entrance, direction, distance to the exit)]"""
    result = []
    for (x, y), t in sorted(tiles.items()):
        if t[0] != 'in':
            continue
        n = 1
        while True:
            p = x + VEC[t[1]][0] * n, y + VEC[t[1]][1] * n
            if p not in tiles:
                break
            if tiles[p] == ('out', t[1]):
                result.append(((x, y), t[1], n))
                break
            n += 1
    return result


def place(rng, tiles, width, height, rows):
    """Where to stretch: often within an underground, either direction alike."""
    vertical = rows and rng.random() < 0.5
    inside = [t for t in tunnels(tiles) if t[1] % 2 == vertical]
    if inside and rng.random() < 0.7:
        pos, d, n = rng.choice(inside)
        end = pos[vertical] + sum(VEC[d]) * n
        return vertical, rng.randrange(min(pos[vertical], end) + 1, max(pos[vertical], end) + 1)
    return vertical, rng.randrange(1, max(2, height if vertical else width))


def longer(rng, tiles, width, height, most, rows=True):
    """Stretched up to `most` times, mostly at the same place."""
    vertical, at = place(rng, tiles, width, height, rows)
    for _ in range(rng.randrange(most + 1)):
        if rng.random() < 0.25:
            vertical, at = place(rng, tiles, width, height, rows)
        if at >= (height if vertical else width):
            continue
        new = stretch(tiles, width, height, vertical, at)
        if new is None:
            vertical, at = place(rng, tiles, width, height, rows)
            continue
        tiles = new
        width, height = (width, height + 1) if vertical else (width + 1, height)
    return tiles, width, height


def longest(tiles):
    """The longest underground, without its ends."""
    return max((n - 1 for _, _, n in tunnels(tiles)), default=0)


def dig(rng, tiles):
    """A straight piece of belt goes underground, with nothing above it."""
    runs = []
    for pos, t in sorted(tiles.items()):
        if t[0] != 'belt' or t[1] != t[2]:
            continue
        n = 1
        while tiles.get((pos[0] + VEC[t[1]][0] * n, pos[1] + VEC[t[1]][1] * n)) == t:
            n += 1
            if n > 2:
                runs.append((pos, t[1], n))
    if not runs:
        return False
    most = max(n for _, _, n in runs)
    pos, d, n = rng.choice(runs if rng.random() < 0.4 else [run for run in runs if run[2] == most])
    for i in range(n):
        tiles[pos[0] + VEC[d][0] * i, pos[1] + VEC[d][1] * i] = ('in', d) if i == 0 else ('out', d) if i == n - 1 else ('empty',)
    return True


def spoil(rng, tiles):
    """Something is changed; the result is most likely wrong."""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        pos = rng.choice(sorted(tiles))
        kind = rng.randrange(8)
        t = tiles[pos]
        if kind == 0:
            tiles[pos] = ('empty',)
        elif kind == 1:
            tiles[pos] = rng.choice(en.BELTS)
        elif kind == 2:
            tiles[pos] = rng.choice(en.ENDS)
        elif kind == 3:     # one connection more or less
            d = rng.randrange(4)
            other = pos[0] + VEC[d][0], pos[1] + VEC[d][1]
            if other in tiles and t[0] == 'belt':
                tiles[pos] = rng.choice([u for u in en.BELTS if u[1] == t[1] or u[2] == t[2]])
        elif kind == 4 and t[0] in ('in', 'out'):
            tiles[pos] = rng.choice([('out' if t[0] == 'in' else 'in', t[1]), (t[0], reverse(t[1])), ('belt', t[1], t[1])])
        elif kind in (4, 5) and t[0] == 'splitter':
            tiles[pos] = rng.choice([('splitter', t[1], not t[2]), ('splitter', rng.randrange(4), t[2]), ('belt', t[1], t[1]), ('empty',)])
        elif kind == 6:     # two tiles change places
            other = rng.choice(sorted(tiles))
            tiles[pos], tiles[other] = tiles[other], tiles[pos]
        else:               # a lonely splitter or underground where nothing was
            free = [p for p in sorted(tiles) if tiles[p] == ('empty',)]
            if free:
                a = rng.choice(free)
                d = rng.randrange(4)
                n = rng.randrange(1, 7)
                b = a[0] + VEC[d][0] * n, a[1] + VEC[d][1] * n
                if rng.random() < 0.5 and b in tiles:
                    tiles[a], tiles[b] = ('in', d), ('out', d)
                else:
                    side = VEC[(d + 1) % 4]
                    tiles[a] = ('splitter', d, True)
                    if (a[0] + side[0], a[1] + side[1]) in tiles:
                        tiles[a[0] + side[0], a[1] + side[1]] = ('splitter', d, False)


def make(rng, tiles, width, height, goal, rows=True):
    tiles, width, height = longer(rng, tiles, width, height, 9 if goal == 'dig' else 6, rows)
    if goal == 'spoil':
        spoil(rng, tiles)
    elif goal == 'dig':
        dig(rng, tiles)
    return tiles, width, height
