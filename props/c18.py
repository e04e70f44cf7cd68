"""C18: fetch_assets brings over exactly what the installation has."""
import json
import os
import random
import sys
import zlib

from sim import loader, proc, fs as simfs
from sim.core import Violation

ID = 'C18'
LEVEL = 'fault_enumeration'
QUICK_RUNS, QUICK_SECONDS = 4000, 60
THOROUGH_RUNS, THOROUGH_SECONDS = 60000, 900
RULE = ('A run lays out a random installation (textures of random content and size, recipe files of random shape and notation), maybe with a file missing or damaged, fetches from it into a folder that may hold older files, under kills, Ctrl-C, failing and short reads and writes and full disks, '
        'and afterwards once more without faults. A normal end means that everything was brought over. Non-trivial: a fault or a defective installation; distinct by event log.')
REAL = ['factorio_sat.assets.fetch', 'luaparser', 'shutil.copyfile, glob, json']
STUB = ['file system effects and their errors', 'the installation', 'process death', 'where the package is installed']
ASSUMPTIONS = ['recipe files are a single data:extend of literal tables, as in the base game', 'every recipe with an expensive variant has a normal one']

TEXTURES = {
    'assembling-machine-1': ['hr-assembling-machine-1.png', 'hr-assembling-machine-1-shadow.png'],
    'burner-inserter': ['hr-burner-inserter-hand-base-shadow.png', 'hr-burner-inserter-hand-closed-shadow.png', 'hr-burner-inserter-hand-open-shadow.png'],
    'inserter': ['hr-inserter-hand-base.png', 'hr-inserter-hand-closed.png', 'hr-inserter-hand-open.png', 'hr-inserter-platform.png'],
    'long-handed-inserter': ['hr-long-handed-inserter-hand-base.png', 'hr-long-handed-inserter-hand-closed.png', 'hr-long-handed-inserter-hand-open.png', 'hr-long-handed-inserter-platform.png'],
    'splitter': ['hr-splitter-east-top_patch.png', 'hr-splitter-east.png', 'hr-splitter-north.png', 'hr-splitter-south.png', 'hr-splitter-west-top_patch.png', 'hr-splitter-west.png'],
    'transport-belt': ['hr-transport-belt.png'],
    'underground-belt': ['hr-underground-belt-structure.png'],
}
NAMES = ['iron-plate', 'copper-cable', 'gear', 'pipe', 'speed-module', 'x', 'a b', 'stone_brick', 'rail 2', 'normal', 'expensive', 'result']
CATEGORIES = [None, None, 'crafting', 'advanced-crafting', 'smelting', 'crafting-with-fluid', 'chemistry', 'oil-processing', 'rocket-building']
USED = (None, 'crafting', 'advanced-crafting')
TIMES = [0.5, 1, 15, 1.75, 30, 0.25, 8]


def prepare():
    from luaparser import ast
    rng = random.Random(1)
    for _ in range(20):         # (its parser learns; every run starts from here)
        ast.parse('data:extend(%s)' % text_of(Lua.of([recipe(rng)[0]]), rng))


class Lua:
    """A table of pairs, key None for positional fields."""

    def __init__(self, pairs):
        self.pairs = pairs

    @classmethod
    def of(cls, value):
        if isinstance(value, dict):
            return cls([(k, cls.of(v)) for k, v in value.items()])
        if isinstance(value, (list, tuple)):
            return cls([(None, cls.of(v)) for v in value])
        return value


def text_of(value, rng, depth=0):
    if isinstance(value, Lua):
        parts = []
        for k, v in value.pairs:
            if k is None:
                parts.append(text_of(v, rng, depth + 1))
            else:
                parts.append(k + rng.choice([' = ', '=', ' =\n  ']) + text_of(v, rng, depth + 1))
        gap = rng.choice(['', ' ', '\n' + '  ' * depth])
        out = '{' + gap
        for i, part in enumerate(parts):
            out += part
            if i < len(parts) - 1 or rng.random() < 0.3:
                out += rng.choice([',', ',', ',', ';'])
            out += rng.choice([' ', '\n' + '  ' * depth]) if rng.random() < 0.9 else ' -- ' + rng.choice(['a comment', 'name = "b",', '}})']) + '\n'
        return out + gap + '}'
    if isinstance(value, bool):
        return 'true' if value else 'false'
    if isinstance(value, str):
        quote = rng.choice(['"', '"', "'"])
        return quote + value + quote
    if isinstance(value, float) or rng.random() < 0.9:
        return repr(value)
    return f'{value}.0'


def body(rng, fluids):
    """(what a recipe or a variant of it says, its ingredients and results)"""
    ingredients, wanted = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        name, amount = rng.choice(NAMES), rng.choice([1, 2, 5, 10, 100])
        kind = 'fluid' if fluids and rng.random() < 0.5 else 'item'
        if kind == 'item' and rng.random() < 0.6:
            ingredients.append([name, amount])
        else:
            fields = [('type', kind), ('name', name), ('amount', amount)]
            rng.shuffle(fields)
            ingredients.append(dict(fields))
        wanted.append({'name': name, 'amount': amount})
    said = {'ingredients': ingredients}
    name = rng.choice(NAMES)
    if rng.random() < 0.3:
        results, got = [], []
        for _ in range(rng.choice([1, 1, 2])):
            name, amount = rng.choice(NAMES), rng.choice([1, 2, 20])
            results.append({'type': 'fluid' if fluids and rng.random() < 0.5 else 'item', 'name': name, 'amount': amount})
            got.append({'name': name, 'amount': amount})
        said['results'] = results
    else:
        said['result'] = name
        got = [{'name': name, 'amount': 1}]
        if rng.random() < 0.4:
            said['result_count'] = got[0]['amount'] = rng.choice([1, 2, 4, 50])
    if rng.random() < 0.3:
        said['enabled'] = rng.random() < 0.5
    time = None
    if rng.random() < 0.4:
        said['energy_required'] = time = rng.choice(TIMES)
    return said, time, wanted, got


def shuffled(table, rng):
    items = list(table.items())
    rng.shuffle(items)
    return dict(items)


def recipe(rng):
    """(its table, what has to be fetched for each variant or None)"""
    category = rng.choice(CATEGORIES)
    fluids = category not in USED
    said = {'type': 'recipe', 'name': rng.choice(NAMES)}
    if category is not None:
        said['category'] = category
    if rng.random() < 0.3:
        said['crafting_machine_tint'] = {'primary': {'r': 0.1, 'g': 1, 'b': 0.25}, 'list': [1, 2, 3]}
    shape = rng.choice(['plain', 'plain', 'both', 'normal only'])
    wanted = {}
    if shape == 'plain':
        more, time, ingredients, results = body(rng, fluids)
        said.update(more)
        for variant in ('normal', 'expensive'):
            wanted[variant] = {'time': 0.5 if time is None else time, 'ingredients': ingredients, 'results': results}
    else:
        common = None
        if rng.random() < 0.3:
            said['energy_required'] = common = rng.choice(TIMES)
        for variant in ('normal', 'expensive'):
            if variant == 'expensive' and shape == 'normal only':
                wanted[variant] = wanted['normal']
                continue
            more, time, ingredients, results = body(rng, fluids)
            said[variant] = shuffled(more, rng)
            wanted[variant] = {'time': time if time is not None else common if common is not None else 0.5, 'ingredients': ingredients, 'results': results}
    return shuffled(said, rng), None if fluids else wanted


def installation(world, c):
    rng = c.subrng('installation')
    files = {}
    sizes = [0, 1, 100, 1000, 5000, 70000] if c.chance(4, 'large') else [1, 100, 1000]
    for folder, names in TEXTURES.items():
        for name in names:
            files[f'graphics/entity/{folder}/{name}'] = rng.randbytes(rng.choice(sizes))
        if rng.random() < 0.2:
            files[f'graphics/entity/{folder}/{names[0][3:]}'] = b'low resolution'
    expected = {'normal': [], 'expensive': []}
    for i in range(c.between(1, 3, 'recipe files')):
        tables = []
        for _ in range(c.between(1, 4, 'recipes')):
            table, wanted = recipe(rng)
            tables.append(table)
            if wanted is not None:
                for variant in expected:
                    expected[variant].append(wanted[variant])
        call = rng.choice(['data:extend\n(\n%s\n)\n', 'data:extend(%s)', '-- recipes\ndata:extend(%s)\n', 'data:extend%s\n'])
        files[f'prototypes/recipe/{rng.choice(["recipe", "module", "turret", "demo", "Vehicle-", "7-ammo ", "_x", "recipe.", "inserter-recipe-"])}{i}.lua'] = (call % text_of(Lua.of(tables), rng)).encode()
    files['prototypes/recipe/readme.txt'] = b'not lua'
    return files, expected


def canonical(recipes):
    return sorted(json.dumps({'time': float(r['time']), 'ingredients': [[i['name'], float(i['amount'])] for i in r['ingredients']], 'results': [[i['name'], float(i['amount'])] for i in r['results']]}, sort_keys=True) for r in recipes)


def run(world):
    c = world.c
    fs = world.fs = simfs.SimFS(world, world.root)
    files, expected = installation(world, c)
    world.log('installation', zlib.crc32(repr(sorted(files.items())).encode()))
    base = c.pick(['game/data/base', 'home/.steam/steamapps/common/Factorio/data/base'], 'place')
    target = 'lib/factorio_sat/assets'
    defect = None
    present = dict(files)
    if c.chance(4, 'defective installation'):
        defect = c.pick(['missing', 'cut recipes'], 'defect')
        if defect == 'missing':
            broken = c.pick(sorted(n for n in files if n.startswith('graphics') and os.path.basename(n).startswith('hr-')), 'which')
            del present[broken]
        else:
            broken = c.pick(sorted(n for n in files if n.endswith('.lua')), 'which')
            whole = files[broken].decode().rstrip()
            start = whole.index('data:extend')
            present[broken] = whole[:start + c.draw(len(whole) - start, 'cut at')].encode()
        world.fault('installation-' + defect)
    for name, data in present.items():
        fs.put(f'{base}/{name}', data)
    fs.put(f'{target}/fetch.py', b'')
    for folder, names in TEXTURES.items():
        for name in names:
            if c.chance(8, 'older'):
                size = c.pick([0, 1, 300], 'length')
                fs.put(f'{target}/{name}', b'an older and maybe longer texture' * size if size else bytes(b ^ 85 for b in files[f'graphics/entity/{folder}/{name}']))
    if c.chance(4, 'older recipes'):
        for variant in expected:
            fs.put(f'{target}/{variant}-recipes.json', json.dumps([{'old': 1}] * 500).encode())
    fs.sync_all()
    loader.installed_at(fs.path('lib'))
    os.environ['HOME'] = fs.path('home')
    args = [] if base.startswith('home') and c.chance(2, 'default place') else [base[:-len('/data/base')]]

    hazard, kinds, line = 0, (), None
    if c.chance(2, 'faults'):
        if c.chance(4, 'interrupt'):
            line = 1 + c.draw(1200, 'line')
        else:
            hazard, kinds = c.pick([40, 10, 150], 'density'), ('kill', 'tear', 'intr', 'enospc', 'eio', 'edquot', 'eacces', 'emfile', 'short', 'eacces-r', 'eio-r', 'short-r')
    without = c.chance(12, 'no parser')
    if without:
        for name in [n for n in sys.modules if n.split('.')[0] == 'luaparser']:
            del sys.modules[name]
        sys.modules['luaparser'] = None
    result = proc.run(world, 'factorio_sat.assets.fetch', args, hazard=hazard, kinds=kinds, faults=c.pick([1, 3], 'faults'), interrupt_line=line)
    hard = [k for k, _ in result.faulted if not k.startswith('short')]
    disturbed = bool(hard or result.killed or result.interrupted)
    if defect or result.faulted or result.interrupted:
        world.count('nontrivial')
    untouched(fs, base, present)
    recipes = not without
    if defect == 'cut recipes' and without:
        defect = None
    if result.code == 0:
        if defect:
            raise Violation('failure-hidden', f'fetch_assets ended normally although {broken} was {defect}')
        if any(op not in ('rename', 'meta', 'unlink') for kind, op in result.faulted if kind in hard):   # those may have been made up for
            raise Violation('failure-hidden', f'fetch_assets ended normally although {hard} happened')
        complete(fs, files, expected, target, recipes)
    elif not disturbed and not defect:
        raise Violation('tool-failed', f'fetch_assets failed: {result.err.strip().splitlines()[-1:]}')
    if result.power:
        return
    # once more, when everything is in order
    if defect:
        fs.put(f'{base}/{broken}', files[broken])
        present = files
    result = proc.run(world, 'factorio_sat.assets.fetch', args)
    if result.code != 0:
        raise Violation('no-recovery', f'fetch_assets failed when called again: {result.err.strip().splitlines()[-1:]}')
    complete(fs, files, expected, target, recipes)
    untouched(fs, base, present)


def untouched(fs, base, files):
    for name, data in files.items():
        if fs.get(f'{base}/{name}') != data:
            raise Violation('installation-changed', f'{name} of the installation was changed')


def complete(fs, files, expected, target, recipes):
    for folder, names in TEXTURES.items():
        for name in names:
            if fs.get(f'{target}/{name}') != files[f'graphics/entity/{folder}/{name}']:
                raise Violation('wrong-texture', f'{name} is not the one of the installation')
    if not recipes:
        return
    for variant, wanted in expected.items():
        data = fs.get(f'{target}/{variant}-recipes.json')
        try:
            got = canonical(json.loads(data))
        except Exception as e:
            raise Violation('wrong-recipes', f'{variant}-recipes.json is not readable: {type(e).__name__}: {e}')
        if got != canonical(wanted):
            missing = [r for r in canonical(wanted) if r not in got]
            extra = [r for r in got if r not in canonical(wanted)]
            raise Violation('wrong-recipes', f'{variant} recipes: missing {missing[:2]}, too many {extra[:2]}')
