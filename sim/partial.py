"""Partial layouts for --partial."""
import json

from . import enumerate as en

LETTERS = {letter: tile for tile, letter in en.CODES.items()}


def decode(code, width):
    """{(x, y): tile} from one character per tile."""
    return {(i % width, i // width): LETTERS[ch] for i, ch in enumerate(code)}


def agrees(code, keep):
    width, _, text = code
    return all(LETTERS[text[y * width + x]] == (('empty',) if t == ('filler',) else t) for (x, y), t in keep.items())


def choose(c, rng, tiles, share=None, fillers=None):
    """Some of the tiles; splitter halves stay together.  Of the empty ones some are kept empty by fillers."""
    share = rng.choice([0.05, 0.2, 0.5, 0.9, 1]) if share is None else share
    fillers = rng.choice([0, 0, 0.1, 0.5, 1]) if fillers is None else fillers
    keep = {}
    for pos, t in tiles.items():
        if t[0] != 'empty' and rng.random() < share:
            keep[pos] = t
    for pos, t in list(keep.items()):
        if t[0] == 'splitter':
            side = en.VEC[(t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4]
            other = pos[0] + side[0], pos[1] + side[1]
            if tiles.get(other, ('empty',)) != ('empty',):
                keep[other] = tiles[other]
    for pos, t in tiles.items():
        if t[0] == 'empty' and rng.random() < fillers:
            keep[pos] = ('filler',)
    return keep


def text(c, rng, keep, width, height):
    """The partial layout as JSON or blueprint."""
    from props import c10, c11
    full = {(x, y): keep.get((x, y), ('empty',)) for x in range(width) for y in range(height)}
    form = c.draw(3, 'form of the partial layout')
    if form == 2 and keep:
        rows = [[(full[x, y], None) for x in range(width)] for y in range(height)]
        label, entities = c10.to_bp(rows, 'normal', None)
        value = label, entities + [('wooden-chest', None, 0, x + 0.5, y + 0.5) for (x, y), t in keep.items() if t == ('filler',)]
        back = c10.from_bp(value)
        box = {(x, y): cell[0] for y, row in enumerate(back) for x, cell in enumerate(row)}
        if {p: t for p, t in box.items() if t != ('empty',)} == keep:
            return c11.encode(c11.blueprint_of(value), rng)
    if form == 1 and keep:      # cut off what is empty
        width, height = max(x for x, _ in keep) + 1, max(y for _, y in keep) + 1
    marks = rng.random() < 0.5
    grid = [[{**c10.cell_json(full[x, y], None), **({'colour': 0} if marks else {})} for x in range(width)] for y in range(height)]
    return json.dumps(grid)
