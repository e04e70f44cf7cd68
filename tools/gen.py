"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CO = 'factorio_sat/calculate_optimal.py'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level=None, note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe,
                  level=level, note=note, technique=technique, na=na))


SIM = 'deterministic simulation with fault injection: '

prop('C01', 'The balancer database is complete on disk at every instant',
     'While the optimal-balancer tool computes, the database file is at every instant a complete, readable database: the previous version or a newer one that '
     'knows everything the previous one knew. A kill, Ctrl-C, power loss, full disk or failing file operation at any point leaves such a version, never a missing, '
     'truncated or mixed file. Another process that reads the file meanwhile, and a later run, can always load it.',
     ['crash_points', 'fault_sequences', 'schedules', 'histories'], 'every point of every run of compute at which the process can die, be interrupted or have a file operation fail; every database and set of networks',
     'No test runs the tool at all; crash points and I/O failures inside a save are not reachable from a test without controlling the file system.',
     [CO, 'factorio_sat/util.py'], [('save of the database after each answer', CO)], ['database file between any two file system calls', 'database file after a restart'],
     'fault_enumeration', 'Seeded search over crash points, I/O errors, Ctrl-C lines and power-loss states on the real tool; trusts the file system model (atomic rename, fsync, ordered name changes).',
     SIM + 'crash, torn-write, power-loss and I/O-error injection at every file system call of the real tool')
prop('C02', 'compute records exactly the answers the solver gave',
     'Whatever the number of workers and the order in which they finish, every size the database calls possible or impossible was answered so by a solver (or was there before), '
     'and every layout is stored as found. A worker or solver that fails, dies, is interrupted or returns torn output is never recorded as an answer. '
     'Each answer is on disk before the next size of the same network is requested, and none is missing when compute ends normally.',
     ['schedules', 'fault_sequences', 'inputs', 'configurations'], 'every completion order, thread count, failure of a worker, solver process or library, and save failure',
     'No test runs compute; completion orders, worker deaths and solver failures are nondeterministic.',
     [CO, 'factorio_sat/template.py', 'factorio_sat/ipasir.py'], [('answers are recorded and saved after each job', CO), ('solver answers are interpreted', 'factorio_sat/template.py')],
     ['database file after every effect', 'requests handed to the workers'],
     'exploration', 'Seeded search over schedules and worker/solver failures, compared with a reference model of the knowledge; half synthetic ground truth, half the real solve path.',
     SIM + 'seeded job scheduling with worker, solver and save failures against a reference knowledge model')
prop('C03', 'An interrupted computation resumes from what was saved and finishes',
     'After any sequence of kills, interrupts, power losses, I/O errors and worker failures, a new run of compute starts from what is saved: it never asks a solver for a size the '
     'database already decides, never asks twice, and asks for better sizes first. Once faults stop, it ends normally after at most as many requests as there are undecided sizes up to the optimum, '
     'and running it again asks for nothing.',
     ['crash_points', 'histories', 'fault_sequences', 'schedules'], 'every history of interrupted runs followed by undisturbed ones',
     'No test restarts the tool; the histories are sequences of crashes at arbitrary points.',
     [CO], [('loading of the database', CO), ('choice of the next size', CO)], ['requests handed to the workers', 'exit status', 'database file'],
     'fault_enumeration', 'Seeded search over histories of crashes and restarts; liveness is progress within the stated number of requests.',
     SIM + 'crash-restart histories with a bounded-progress check')
prop('C04', 'query reports the true optimum and only proven optima',
     'After compute has ended normally for an underground length and objective, query prints for every network one layout of the least area or least length that exists for it, in numerical order of the networks, '
     'whatever order the files are listed in, whatever was computed before and whatever interruptions happened. Without --allow-imperfect it never prints a layout that is not known to be optimal; with it, the best known one. '
     'With --export-blueprints the same layouts appear as blueprints of the belt level that the underground length requires; query never changes the database.',
     ['histories', 'schedules', 'inputs', 'configurations'], 'every history of complete and interrupted computations over several objectives and underground lengths, every monotone existence relation',
     'No test runs query; the answer depends on the whole history of the database.',
     [CO, 'factorio_sat/blueprint.py'], [('choice of the next size and of the best stored layout', CO)], ['standard output of query', 'database file'],
     'exploration', 'Seeded search over histories, compared with a reference search over the ground truth.',
     SIM + 'random histories of compute and query against a reference search')
prop('C05', 'A damaged database is never replaced, and foreign entries survive',
     'If the database is truncated, garbled, of the wrong form or cannot be read, or a network file is malformed or unreadable, every mode of the optimal-balancer tool ends with an error, prints no results, writes no table and '
     'leaves the database file as it is. Entries of networks that are not in the networks directory are kept unchanged by every save, under any faults.',
     ['inputs', 'fault_sequences', 'crash_points'], 'every truncation point and kind of damage, every failing read, every save of a database with other entries',
     'No test gives the tool a damaged database or a failing disk.',
     [CO], [('loading and saving of the database', CO)], ['database file', 'exit status', 'standard output'],
     'fault_enumeration', 'Seeded search over kinds and places of damage and read failures.',
     SIM + 'storage corruption and read-error injection')
prop('C06', 'The crosstable export is all or nothing and says what the database says',
     'Exporting the crosstable keeps the text before its heading and replaces the rest by tables that say for every size the lowest belt level known to suffice, impossible (no level is known to suffice and at least one is known not to), or unknown (nothing is known), exactly as the database implies. '
     'A kill, Ctrl-C, power loss or I/O error at any point leaves the old or the complete new document; repeating the export changes nothing.',
     ['crash_points', 'fault_sequences', 'inputs'], 'every crash point and I/O failure of the export, every document and database',
     'No test runs the export.',
     [CO], [('crosstable export', CO)], ['exported document between any two file system calls'],
     'fault_enumeration', 'Seeded search over crash points and I/O failures; the tables are compared with a reference rendering.',
     SIM + 'crash and I/O-error injection at every file system call of the export')
exec(open(os.path.join(HERE, 'tools', 'gen_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'gen_more.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/setup.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'/opt/venv/bin/python check.py {p["id"]} --tier quick',
        'thorough_cmd': f'/opt/venv/bin/python check.py {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
    } for p in P if p['na'] is None],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na'] is not None],
    'notes': 'No hooks in /repo: every seam is an ordinary module attribute (open, os.*, asyncio selector, executors, Popen, LoadLibrary, pysat Solver, clocks, entropy) replaced before the code is imported.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
