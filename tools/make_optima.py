"""make_optima.py FOLDER: data/optima.json from databases and times (FOLDER/*.json, times.out) that compute has made.
Every optimum is certified by a layout that the judge of C12 accepts; the impossible sizes only save time."""
import json
import os
import re
import sys

folder = sys.argv[1]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
times = {(n, k): t for n, k, _, t in json.load(open(f'{folder}/times.out'))}
networks, optima = {}, []
for file in sorted(os.listdir(folder)):
    m = re.fullmatch(r'(\d+)(area|length)\.json', file)
    if not m:
        continue
    ul, objective = int(m[1]), m[2]
    for name, entry in sorted(json.load(open(f'{folder}/{file}')).items()):
        found = [k for k, v in entry['exist'].items() if v]
        if not found:
            continue
        assert len(found) == 1 and times[name, found[0]] < 2, (name, found)
        networks[name] = open(f'{folder}/networks/{name}').read()
        impossible = sorted(k for k, v in entry['exist'].items() if not v)
        optima.append({'network': name, 'underground': ul, 'objective': objective, 'optimum': [int(v) for v in found[0].split(',')],
                       'impossible': impossible, 'slow': [k for k in impossible if not isinstance(times[name, k], float) or times[name, k] > 0.5]})
with open(os.path.join(HERE, 'data', 'optima.json'), 'w') as f:
    json.dump({'networks': networks, 'optima': optima}, f, indent=0)
print(len(optima))
