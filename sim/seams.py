"""Installs every seam, before any code under test is imported."""


def install():
    import numpy        # noqa: F401  loaded with the real calls
    import pysat.formula  # noqa: F401
    import pysat.solvers  # noqa: F401
    import asyncio      # noqa: F401
    import multiprocessing  # noqa: F401
    import argparse, base64, glob, json, pathlib, shlex, subprocess, tempfile, uuid, zlib  # noqa: F401,E401
    from . import aio, fs, loader, proc, solvers
    loader.install()
    fs.install()
    proc.install()
    aio.install()
    solvers.install()
