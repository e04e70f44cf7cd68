"""What a printed layout has to satisfy, per tool.  Raises Violation."""
from fractions import Fraction

from . import enumerate as en, layout
from .core import Violation


def value(words, name, default=None):
    return words[words.index(name) + 1] if name in words else default


def read(what, grid, width, height, length):
    if (len(grid[0]), len(grid)) != (width, height):
        raise Violation('unsound', f'{what}: the layout is {len(grid[0])}x{len(grid)}')
    try:
        return layout.Layout(grid, underground=None if length in (None, -1) else length)
    except layout.Bad as e:
        raise Violation('unsound', f'{what}: {e}')


def bad(what, problem):
    raise Violation('unsound', f'{what}: {problem}')


def sides(what, lay, n_in, n_out, mode='straight', aligned=False):
    """Number and place of inputs and outputs."""
    out_dir = {'straight': 0, '90': 3, '180': 2}[mode]
    if len(lay.inputs) != n_in or len(lay.outputs) != n_out:
        bad(what, f'{len(lay.inputs)} inputs and {len(lay.outputs)} outputs')
    if any(x != 0 or d != 0 for x, y, d in lay.inputs):
        bad(what, 'an input that is not on the left')
    edge = {'straight': lambda x, y: x == lay.width - 1, '90': lambda x, y: y == lay.height - 1, '180': lambda x, y: x == 0}[mode]
    if any(d != out_dir or not edge(x, y) for x, y, d in lay.outputs):
        bad(what, 'an output on the wrong side')
    ins = sorted(y for _, y, _ in lay.inputs)
    outs = sorted(x if mode == '90' else y for x, y, _ in lay.outputs)
    if not layout.contiguous(ins) or not layout.contiguous(outs):
        bad(what, 'inputs or outputs with gaps')
    if aligned and not (set(ins) <= set(outs) or set(outs) <= set(ins)):
        bad(what, 'inputs and outputs are not aligned')


def valid(tiles, width, height, module, args, networks):
    """Would a layout with these tiles be right?"""
    grid = [[{'tile': t} for t in row] for row in en.to_json(tiles, width, height)]
    try:
        any_tool('', module, args, grid, networks, False)
        return True
    except Violation:
        return False


def balancer(what, grid, width, height, words, network, coloured=True):
    mode = '90' if '--90' in words else '180' if '--180' in words else 'straight'
    lay = read(what, grid, width, height, int(value(words, '--underground-length', 4)))
    (c_in, n_in), (c_out, n_out) = en.network_ends(network)
    if '--custom' in words:
        if len(lay.inputs) != n_in or len(lay.outputs) != n_out:
            bad(what, f'{len(lay.inputs)} inputs and {len(lay.outputs)} outputs')
    else:
        sides(what, lay, n_in, n_out, mode, '--aligned' in words)
    if mode == 'straight' and '--use-ends' not in words and '--custom' not in words:
        used = {(x, y) for x, y, _ in lay.inputs + lay.outputs}
        if any(t != ('empty',) and p[0] in (0, width - 1) and p not in used for p, t in lay.tiles.items()):
            bad(what, 'tiles beside the inputs or outputs')
    if not en.implements(lay, network):
        bad(what, 'the splitters are not connected as in the network')
    if en.empty_tunnel(lay):
        bad(what, 'an underground that passes nothing')
    if coloured:
        colours(what, lay, network)


def colours(what, lay, network):
    (c_in, _), (c_out, _) = en.network_ends(network)
    try:
        lay.check_colours()
    except layout.Bad as e:
        bad(what, str(e))
    want = sorted((tuple(sorted(c for c in a if c is not None)), tuple(sorted(c for c in b if c is not None))) for a, b in network)
    if lay.nodes() != want:
        bad(what, f'the splitters join colours {lay.nodes()}')
    for x, y, _ in lay.inputs:
        if lay.colour((x, y)) != c_in:
            bad(what, 'an input of the wrong colour')
    for x, y, _ in lay.outputs:
        if lay.colour((x, y)) != c_out:
            bad(what, 'an output of the wrong colour')


def shares(what, lay):
    try:
        return lay.shares()
    except layout.Bad as e:
        bad(what, str(e))


def net_free(what, grid, width, height, n_in, n_out, words):
    lay = read(what, grid, width, height, int(value(words, '--underground-length', 4)))
    sides(what, lay, n_in, n_out, 'straight', '--aligned' in words)
    if n_in != n_out:
        return
    for out, row in shares(what, lay).items():
        if any(share != Fraction(1, n_in) for share in row):
            bad(what, f'the output at {out} gets {", ".join(map(str, row))} of the inputs')


def power_of_2(what, grid, width, size, words):
    lay = read(what, grid, width, size, int(value(words, '--underground-length', 4)))
    sides(what, lay, size, size)
    order = [y for _, y, _ in lay.inputs]
    rows = {y: {i: share for i, share in zip(order, row)} for (_, y), row in shares(what, lay).items()}
    for y in range(0, size, 2):
        for i in range(0, size, 2):
            # with the rows of splitters before and behind
            share = sum(rows[a][b] for a in (y, y + 1) for b in (i, i + 1)) / 4
            if share != Fraction(1, size):
                bad(what, f'outputs {y} and {y + 1} get {share} of inputs {i} and {i + 1}')


def interchange(what, grid, width, height, words, coloured=True):
    lay = read(what, grid, width, height, int(value(words, '--underground-length', 4)))
    sides(what, lay, height, height)
    if lay.splitters:
        bad(what, 'a splitter')
    colour = {}
    for source, sink, path in lay.runs:
        colour[sink[1][1]] = int(source[1][1] >= height // 2)
        if coloured and any(lay.colour(p) != colour[sink[1][1]] for p in path):
            bad(what, f'colours on the run from row {source[1][1]}')
    for y in range(0, height, 2):
        pair = [colour[y], colour[y + 1]]
        if sorted(pair) != [0, 1] or '--alternating' in words and pair != [0, 1]:
            bad(what, f'outputs {y} and {y + 1} come from groups {pair}')
    if '--rot-symmetry' in words:
        for (x, y), t in lay.tiles.items():
            u = lay.tiles[width - 1 - x, height - 1 - y]
            if u != {'empty': lambda: t, 'belt': lambda: ('belt', t[2], t[1]), 'in': lambda: ('out', t[1]), 'out': lambda: ('in', t[1])}[t[0]]():
                bad(what, f'the tile at {(x, y)} has no counterpart')


def any_tool(what, module, args, grid, networks, coloured=True):
    """By the command line."""
    words = args.split()
    if module == 'belt_balancer':
        return balancer(what, grid, int(words[1]), int(words[2]), words, networks[words[0]], coloured)
    if module == 'belt_balancer_net_free':
        return net_free(what, grid, *map(int, words[:4]), words)
    if module == 'belt_balancer_net_free_power_of_2':
        return power_of_2(what, grid, *map(int, words[:2]), words)
    if module == 'interchange':
        return interchange(what, grid, *map(int, words[:2]), words, coloured)
    raise KeyError(module)
