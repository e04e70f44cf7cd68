"""Checks that the interpreter and libraries the simulator needs are there; nothing has to be built."""
import importlib
import sys
for name in ('numpy', 'pysat.solvers', 'asyncio', 'concurrent.futures'):
    importlib.import_module(name)
print('python', sys.version.split()[0], 'ok')
