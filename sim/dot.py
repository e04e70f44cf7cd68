"""A simulated graphviz: the layout command and the picture viewer.

Nothing is laid out.  The command reads its source like the real one (a file, or its input), and what it
understood is kept under the name of a unique pattern of bytes, which is the picture."""
import hashlib
import io
import os
import re
import subprocess

from . import fs as simfs
from .core import Current

ENGINES = 'dot', 'neato', 'twopi', 'circo', 'fdp', 'sfdp', 'patchwork', 'osage'
TOKEN = re.compile(r'\s*(?:(//[^\n]*|#[^\n]*)|("(?:[^"\\]|\\.)*")|(->|--)|([\[\]{};,=])|([^\s\[\]{};,="-][^\s\[\]{};,="]*|-[^\s\[\]{};,="->]+))')


class Graph:
    """nodes: name -> attributes; edges: [(from, to, attributes)]"""

    def __init__(self, text):
        self.nodes, self.edges, self.engine = {}, [], None
        tokens = []
        position = 0
        text = text.rstrip()
        while position < len(text):
            m = TOKEN.match(text, position)
            if not m:
                raise ValueError(f'syntax error near {text[position:position + 20]!r}')
            position = m.end()
            comment, quoted, arrow, mark, word = m.groups()
            if comment:
                continue
            if quoted is not None:
                tokens.append(('id', re.sub(r'\\(.)', r'\1', quoted[1:-1])))
            elif word is not None:
                tokens.append(('id', word))
            else:
                tokens.append((arrow or mark, None))
        self.tokens = tokens
        self.at = 0
        if self.peek() == 'id' and self.value() == 'strict':
            self.at += 1
        if self.next()[1] not in ('digraph', 'graph'):
            raise ValueError('no graph')
        if self.peek() == 'id':
            self.at += 1
        self.expect('{')
        self.statements({}, {})
        if self.at != len(tokens):
            raise ValueError('text after the graph')

    def peek(self):
        if self.at >= len(self.tokens):
            raise ValueError('the source ends early')
        return self.tokens[self.at][0]

    def value(self):
        return self.tokens[self.at][1]

    def next(self):
        self.peek()
        self.at += 1
        return self.tokens[self.at - 1]

    def expect(self, kind):
        if self.next()[0] != kind:
            raise ValueError(f'{kind} expected')

    def attributes(self):
        result = {}
        while self.at < len(self.tokens) and self.peek() == '[':
            self.at += 1
            while self.peek() != ']':
                if self.peek() in (',', ';'):
                    self.at += 1
                    continue
                name = self.next()
                self.expect('=')
                value = self.next()
                if name[0] != 'id' or value[0] != 'id':
                    raise ValueError('bad attribute')
                result[name[1]] = value[1]
            self.at += 1
        return result

    def statements(self, node_default, edge_default):
        while True:
            kind, value = self.next()
            if kind == '}':
                return
            if kind in (';', ','):
                continue
            if kind == '{':
                self.statements(dict(node_default), dict(edge_default))
                continue
            if kind != 'id':
                raise ValueError(f'unexpected {kind}')
            if value == 'subgraph':
                if self.peek() == 'id':
                    self.at += 1
                self.expect('{')
                self.statements(dict(node_default), dict(edge_default))
                continue
            if value in ('graph', 'node', 'edge') and self.peek() == '[':
                got = self.attributes()
                {'graph': {}, 'node': node_default, 'edge': edge_default}[value].update(got)
                continue
            if self.peek() == '=':
                self.at += 1
                self.next()
                continue
            names = [value]
            while self.peek() == '->':
                self.at += 1
                names.append(self.next()[1])
            if self.peek() == '--':
                raise ValueError('undirected edge')
            got = self.attributes()
            for name in names:
                self.nodes.setdefault(name, dict(node_default))
            if len(names) == 1:
                self.nodes[value].update(got)
            for a, b in zip(names, names[1:]):
                self.edges.append((a, b, {**edge_default, **got}))


class Easel:
    """All graphviz processes of a run."""

    def __init__(self, world, fault=None):
        self.w, self.fault = world, fault
        self.processes = []
        self.pictures = {}          # bytes -> (graph, format)
        self.viewed = []
        self.faulted = False


class Process:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, shell=False, cwd=None, env=None,
                 universal_newlines=None, encoding=None, errors=None, text=None, **_):
        w = Current.world
        self.easel = e = w.easel
        self.args = args
        self.argv = [os.fspath(a) for a in ([args] if isinstance(args, str) else args)]
        self.returncode = None
        self.pid = 80000 + len(e.processes)
        e.processes.append(self)
        self.cwd = cwd
        self.text = bool(universal_newlines or encoding or errors or text)
        self.data, self.error = b'', b''
        self.is_viewer = os.path.basename(self.argv[0]) not in ENGINES
        self.fault = None
        if not self.is_viewer and e.fault is not None and not e.faulted:
            self.fault, e.faulted = e.fault, True
            w.fault('dot-' + e.fault)
        w.log('process', ' '.join(os.path.basename(a) for a in self.argv), self.fault)
        if self.fault == 'missing':
            raise FileNotFoundError(2, 'No such file or directory', self.argv[0])
        if self.fault == 'forbidden':
            raise PermissionError(13, 'Permission denied', self.argv[0])
        self.input = io.BytesIO()
        self.stdin = self.stdout = self.stderr = None
        self.pipes = stdout, stderr
        if stdin == subprocess.PIPE:
            self.stdin = io.BufferedWriter(_Input(self))
            if self.text:
                self.stdin = io.TextIOWrapper(self.stdin, encoding=encoding or 'utf-8')
        self.input_open = self.stdin is not None
        if self.is_viewer:
            self.returncode = 0
            e.viewed.append(self.path(self.argv[-1]))

    def path(self, name):
        return os.path.normpath(os.path.join(os.getcwd(), self.cwd or '', name))

    def work(self):
        if self.returncode is not None:
            return
        if self.input_open:
            from .core import SimDeadlock
            raise SimDeadlock('waiting for graphviz, which still waits for the end of its input')
        if self.fault == 'killed':
            self.returncode = -9
            return
        engine = os.path.basename(self.argv[0])
        form, out, same, files = None, None, False, []
        words = iter(self.argv[1:])
        for word in words:
            if word.startswith('-T'):
                form = word[2:] or next(words)
            elif word.startswith('-K'):
                engine = word[2:] or next(words)
            elif word == '-O':
                same = True
            elif word.startswith('-o'):
                out = word[2:] or next(words)
            elif not word.startswith('-'):
                files.append(word)
        try:
            if files:
                with simfs.R['open'](self.path(files[0]), 'rb') as f:
                    source = f.read()
            else:
                source = self.input.getvalue()
            graph = Graph(source.decode())
        except (OSError, ValueError) as e:
            self.error, self.returncode = f'Error: {e}\n'.encode(), 1
            return
        graph.engine = engine
        picture = b'PICTURE ' + hashlib.sha256(repr((form, engine)).encode() + source).digest() * 40
        if self.fault in ('fails', 'disk full', 'half'):
            half = picture[:len(picture) // 2] if self.fault != 'fails' else b''
            self.error, self.returncode = b'Error: failed\n', 1
        else:
            half, self.returncode = None, 0
            self.easel.pictures[picture] = graph, form
        picture = picture if half is None else half
        if same:
            out = f'{files[0]}.{form}'
        if out is None:
            self.data = picture
        elif picture:
            with simfs.R['open'](self.path(out), 'wb') as f:
                f.write(picture)

    def poll(self):
        if not self.input_open:
            self.work()
        return self.returncode

    def wait(self, timeout=None):
        self.work()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None and not self.stdin.closed:
            if input is not None:
                self.stdin.write(input)
            self.stdin.close()
        self.work()
        result = []
        for pipe, data in zip(self.pipes, (self.data, self.error)):
            result.append((data.decode() if self.text else data) if pipe == subprocess.PIPE else None)
        return tuple(result)

    def kill(self):
        self.fault = 'killed'
        self.input_open = False

    terminate = kill

    def send_signal(self, _):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        if self.stdin is not None and not self.stdin.closed:
            self.stdin.close()
        self.work()


class _Input(io.RawIOBase):
    def __init__(self, process):
        self.process = process

    def writable(self):
        return True

    def write(self, data):
        self.process.input.write(bytes(data))
        return len(data)

    def close(self):
        self.process.input_open = False
        super().close()


def install():
    """After sim.seams."""
    from . import solvers
    base = solvers.DispatchPopen

    class Popen(base):
        def __new__(cls, *args, **kwargs):
            if Current.world is not None and getattr(Current.world, 'easel', None) is not None:
                return Process(*args, **kwargs)
            return base.__new__(cls, *args, **kwargs)
    subprocess.Popen = Popen
