"""Simulated file system.

File data lives in a real scratch directory (one per run, under /dev/shm or the
temporary directory), but every effect of the code under test on it goes through
this module: open, write, truncate, fsync, rename, unlink, ...  At each of them the
scheduler may stop the process, tear the write, or fail the call; invariants are
evaluated after each of them, which is what a concurrent reader could see.
A shadow inode/namespace journal decides what survives a power loss.
"""
import builtins
import errno
import io
import os
import shutil
import stat
import tempfile

from .core import Current, SimKill

R = {  # the real calls
    'open': io.open,
    'FileIO': io.FileIO,
}
for _name in ('open', 'close', 'write', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'rename', 'replace', 'remove', 'unlink',
              'link', 'symlink', 'mkdir', 'rmdir', 'listdir', 'scandir', 'chmod', 'utime', 'pwrite', 'writev', 'dup', 'sync', 'sendfile', 'copy_file_range', 'fchmod', 'stat'):
    if hasattr(os, _name):
        R['os.' + _name] = getattr(os, _name)

O_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

ERRORS = {
    'enospc': (errno.ENOSPC, 'No space left on device'),
    'eio': (errno.EIO, 'Input/output error'),
    'eacces': (errno.EACCES, 'Permission denied'),
    'emfile': (errno.EMFILE, 'Too many open files'),
    'edquot': (errno.EDQUOT, 'Disk quota exceeded'),
}

# fault kinds applicable to each operation, simplest first
APPLICABLE = {
    'open-w': ['kill', 'intr', 'eacces', 'enospc', 'emfile', 'power'],
    'write': ['kill', 'tear', 'intr', 'enospc', 'eio', 'short', 'power'],
    'truncate': ['kill', 'intr', 'eio', 'power'],
    'fsync': ['kill', 'intr', 'eio', 'power'],
    'close': ['kill', 'intr', 'edquot', 'power'],
    'rename': ['kill', 'intr', 'eacces', 'eio', 'power'],
    'unlink': ['kill', 'intr', 'eacces', 'power'],
    'meta': ['kill', 'intr', 'power'],
    'open-r': ['kill', 'intr', 'eacces-r', 'eio-r'],
    'read': ['kill', 'intr', 'eio-r', 'short-r'],
    'stdout': ['kill', 'intr', 'epipe'],
}


class Inode:
    def __init__(self, durable, dirty):
        self.durable = durable   # bytes certain to survive a power loss, None: nothing
        self.dirty = dirty       # current data may differ from `durable`
        self.last = None         # data when the last name went away


class SimFS:
    def __init__(self, world, root):
        self.w = world
        self.root = os.path.realpath(root)
        self.work = os.path.join(self.root, 'work')
        self.tmp = os.path.join(self.root, 'tmp')
        for d in (self.work, self.tmp):
            R['os.mkdir'](d)
        self.fds = {}            # fd -> path
        self.inodes = {}
        self.journal = []        # namespace operations not known to be durable
        self.base = {}           # durable namespace: path -> ino
        self.invariants = []     # callables evaluated after every effect
        self.on_effect = None
        self.shuffle_listing = True

    # -- helpers used by scenarios and oracles (never faulted) --
    def path(self, name):
        return os.path.join(self.work, name)

    def put(self, name, data):
        path = self.path(name)
        d = os.path.dirname(path)
        if not os.path.isdir(d):
            os.makedirs(d)
        if isinstance(data, str):
            data = data.encode('utf-8')
        with R['open'](path, 'wb') as f:
            f.write(data)

    def get(self, name):
        try:
            with R['open'](self.path(name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def files(self):
        result = {}
        for top, _, names in os.walk(self.work):
            for name in names:
                p = os.path.join(top, name)
                result[os.path.relpath(p, self.work)] = p
        return result

    def sync_all(self):
        """Everything now on disk is durable (start of a run, clean boot)."""
        self.journal = []
        self.base = {}
        self.inodes = {}
        for top, _, names in os.walk(self.root):
            for name in names:
                p = os.path.join(top, name)
                st = R['os.stat'](p)
                with R['open'](p, 'rb') as f:
                    self.inodes[st.st_ino] = Inode(f.read(), False)
                self.base[p] = st.st_ino

    def power_loss(self):
        """Leaves on disk one of the states a power loss at this point may leave:
        an ordered prefix of the name changes, and for data written after the last
        fsync of a file anything from nothing to everything."""
        c = self.w.c
        keep = len(self.journal) - c.draw(len(self.journal) + 1, 'names lost')
        names = dict(self.base)
        for op in self.journal[:keep]:
            if op[0] == 'create':
                names[op[1]] = op[2]
            elif op[0] == 'rename':
                ino = names.pop(op[1], None)
                if ino is not None:
                    names[op[2]] = ino
            elif op[0] == 'unlink':
                names.pop(op[1], None)
        contents = {}
        for path, ino in names.items():
            node = self.inodes.get(ino)
            if node is None:
                continue
            if not node.dirty:
                data = node.durable if node.durable is not None else b''
            else:
                current = node.last
                if current is None:
                    current = self._read_ino(ino)
                if current is None:
                    current = b''
                how = c.draw(4, 'unsynced data')
                if how == 0:
                    data = current
                elif how == 1:
                    data = b''
                elif how == 2:
                    data = current[:c.draw(len(current) + 1, 'surviving bytes')]
                else:
                    data = node.durable if node.durable is not None else b''
            contents[path] = data
        for top, _, files in os.walk(self.root):
            for name in files:
                R['os.unlink'](os.path.join(top, name))
        for path, data in contents.items():
            os.makedirs(os.path.dirname(path), exist_ok=True) if not os.path.isdir(os.path.dirname(path)) else None
            with R['open'](path, 'wb') as f:
                f.write(data)
        self.w.log('power loss:', f'{keep}/{len(self.journal)} name changes survive', {self.rel(p): len(d) for p, d in sorted(contents.items()) if '/tmp/' not in p})
        self.sync_all()

    def _read_ino(self, ino):
        for top, _, names in os.walk(self.root):
            for name in names:
                p = os.path.join(top, name)
                if R['os.stat'](p).st_ino == ino:
                    with R['open'](p, 'rb') as f:
                        return f.read()
        return None

    # -- classification --
    def resolve(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return os.path.abspath(path)

    def inside(self, path):
        if path is None:
            return False
        if path.startswith(self.root + os.sep):
            return True
        real = os.path.realpath(path)
        return real.startswith(self.root + os.sep)

    def rel(self, path):
        if path is None:
            return '?'
        if path.startswith(self.work + os.sep):
            return path[len(self.work) + 1:]
        if path.startswith(self.root + os.sep):
            name = path[len(self.root) + 1:]
            return name.split(os.sep)[0] + '/<temp>'
        return path

    def mount(self, path):
        return 'tmp' if (path + os.sep).startswith(self.tmp + os.sep) else 'work'

    # -- fault points --
    def point(self, op, path):
        """Called before an effect. Returns a fault to act on, or None."""
        w = self.w
        p = w.proc
        if p is None:
            return None
        if p.dead:
            raise SimKill()
        w.ops += 1
        p.points += 1
        w.log(op, self.rel(path))
        if not p.hazard:
            return None
        if not w.c.chance(p.hazard, f'fault at {op} {self.rel(path)}?'):
            return None
        kinds = [k for k in APPLICABLE[op] if k in p.kinds]
        if not kinds:
            return None
        kind = w.c.pick(kinds, 'fault kind')
        w.fault(f'{kind}@{op}')
        p.faults_left -= 1
        p.faulted.append((kind, op))
        if p.faults_left <= 0:
            p.hazard = 0
        if kind in ('kill', 'power'):
            self.kill(kind == 'power')
        if kind == 'intr':
            p.interrupted = True
            raise KeyboardInterrupt()
        base = kind[:-2] if kind.endswith('-r') else kind
        if base in ERRORS:
            if op == 'write' and base in ('enospc', 'eio'):
                return kind
            if op == 'close':
                return kind
            raise OSError(*ERRORS[base], path)
        if kind == 'epipe':
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        return kind

    def kill(self, power=False):
        p = self.w.proc
        p.dead = True
        p.power = p.power or power
        self.w.log('process', p.pid, 'dies')
        raise SimKill()

    def done(self, op, path):
        """Called after an effect: evaluates the invariants."""
        if self.w.proc is None or not self.invariants:
            return
        saved, Current.world = Current.world, None
        try:
            for check in self.invariants:
                check(op, self.rel(path))
        finally:
            Current.world = saved

    # -- bookkeeping --
    def note_open(self, path, fd, created, truncated):
        ino = os.fstat(fd).st_ino
        self.fds[fd] = path
        if ino not in self.inodes:
            self.inodes[ino] = Inode(None if created else b'', True)
        if created:
            self.journal.append(('create', path, ino))
        if truncated:
            self.inodes[ino].dirty = True

    def note_write(self, fd):
        ino = os.fstat(fd).st_ino
        node = self.inodes.get(ino)
        if node is None:
            self.inodes[ino] = Inode(None, True)
        else:
            node.dirty = True

    def note_fsync(self, fd, path):
        st = os.fstat(fd)
        if stat.S_ISDIR(st.st_mode):
            self.base = {}
            for top, _, names in os.walk(self.root):
                for name in names:
                    p = os.path.join(top, name)
                    self.base[p] = R['os.stat'](p).st_ino
            self.journal = []
            return
        with R['open'](f'/proc/self/fd/{fd}', 'rb') as f:
            data = f.read()
        self.inodes[st.st_ino] = Inode(data, False)

    def note_gone(self, path):
        try:
            ino = R['os.stat'](path).st_ino
        except OSError:
            return
        node = self.inodes.get(ino)
        if node is not None and node.dirty:
            with R['open'](path, 'rb') as f:
                node.last = f.read()


class SimRaw(io.FileIO):
    """A file of the simulated file system."""

    def __init__(self, fs, file, mode, path, closefd=True, opener=None):
        self._fs = fs
        self._path = path
        self._proc = fs.w.proc
        self._writes = any(ch in mode for ch in 'wax+')
        existed = True
        if not isinstance(file, int):
            existed = os.path.exists(path)
            if self._writes:
                fs.point('open-w', path)
            else:
                fs.point('open-r', path)
        super().__init__(file, mode, closefd, opener)
        if self._writes and not isinstance(file, int):
            fs.note_open(path, self.fileno(), not existed, 'w' in mode)
            fs.done('open-w', path)
        else:
            fs.fds[self.fileno()] = path

    def write(self, data):
        fs = self._fs
        data = bytes(data)
        if self._proc is not None and self._proc.dead:
            return len(data)
        fault = fs.point_torn('write', self._path)
        if fault == 'tear':
            n = fs.w.c.draw(len(data) + 1, 'bytes written before the stop')
            super().write(data[:n])
            fs.note_write(self.fileno())
            fs.done('write', self._path)
            fs.kill()
        if fault in ('enospc', 'eio'):
            n = fs.w.c.draw(len(data) + 1, 'bytes written before the error')
            if n:
                super().write(data[:n])
                fs.note_write(self.fileno())
                fs.done('write', self._path)
            raise OSError(*ERRORS[fault])
        if fault == 'short' and len(data) > 1:
            data = data[:1 + fs.w.c.draw(len(data) - 1, 'short write')]
        n = super().write(data)
        fs.note_write(self.fileno())
        fs.done('write', self._path)
        return n

    def _reading(self):
        if self._proc is not None and self._proc.dead:
            raise SimKill()
        return self._fs.point('read', self._path)

    def readinto(self, buffer):
        fault = self._reading()
        if fault == 'short-r' and len(buffer) > 1:
            n = 1 + self._fs.w.c.draw(min(len(buffer) - 1, 64), 'short read')
            return super().readinto(memoryview(buffer)[:n])
        return super().readinto(buffer)

    def read(self, size=-1):
        self._reading()
        return super().read(size)

    def readall(self):
        self._reading()
        return super().readall()

    def truncate(self, size=None):
        fs = self._fs
        if self._proc is not None and self._proc.dead:
            return 0
        fs.point('truncate', self._path)
        result = super().truncate(size)
        fs.note_write(self.fileno())
        fs.done('truncate', self._path)
        return result

    def close(self):
        if self.closed:
            return
        fs = self._fs
        fault = None
        try:
            if self._writes and not (self._proc is not None and self._proc.dead):
                fault = fs.point('close', self._path)
        finally:
            fs.fds.pop(self.fileno(), None)
            super().close()
        if fault in ERRORS:
            raise OSError(*ERRORS[fault])


def _point_torn(self, op, path):
    return self.point(op, path)


SimFS.point_torn = _point_torn


def layer(raw, mode, buffering, encoding, errors, newline):
    """What io.open puts on top of the raw file."""
    binary = 'b' in mode
    line_buffering = False
    if buffering == 1 and not binary or buffering < 0 and False:
        buffering = -1
        line_buffering = True
    if buffering < 0:
        buffering = io.DEFAULT_BUFFER_SIZE
    if buffering == 0:
        if binary:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    if '+' in mode:
        buffer = io.BufferedRandom(raw, buffering)
    elif any(ch in mode for ch in 'wax'):
        buffer = io.BufferedWriter(raw, buffering)
    else:
        buffer = io.BufferedReader(raw, buffering)
    if binary:
        return buffer
    text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = Current.world
    if w is None or w.fs is None:
        return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs = w.fs
    if isinstance(file, int):
        path = fs.fds.get(file)
        if path is None:
            return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        path = fs.resolve(file)
        writes = any(ch in mode for ch in 'wax+')
        if path is None or not fs.inside(path):
            if writes and path not in ('/dev/null',):
                w.log('blocked write outside the simulation', path)
                raise PermissionError(errno.EACCES, 'Permission denied', path)
            return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.realpath(path)
    raw_mode = mode.replace('b', '').replace('t', '')
    raw = SimRaw(fs, file, raw_mode, path, closefd, opener)
    return layer(raw, mode, buffering, encoding, errors, newline)


def _guarded(name, op):
    """A path-taking call that changes the file system."""
    real = R['os.' + name]

    def call(path, *args, **kwargs):
        w = Current.world
        if w is None or w.fs is None:
            return real(path, *args, **kwargs)
        fs = w.fs
        if isinstance(path, int):
            return real(path, *args, **kwargs)
        full = fs.resolve(path)
        if not fs.inside(full):
            w.log('blocked', name, full)
            raise PermissionError(errno.EACCES, 'Permission denied', full)
        fs.point(op, full)
        if name in ('remove', 'unlink'):
            fs.note_gone(full)
        result = real(path, *args, **kwargs)
        if name in ('remove', 'unlink'):
            fs.journal.append(('unlink', full))
        if name == 'truncate':
            node = fs.inodes.get(R['os.stat'](full).st_ino)
            if node:
                node.dirty = True
        fs.done(op, full)
        return result
    call.__name__ = name
    return call


def _renamer(name):
    real = R['os.' + name]

    def call(src, dst, *args, **kwargs):
        w = Current.world
        if w is None or w.fs is None:
            return real(src, dst, *args, **kwargs)
        fs = w.fs
        a, b = fs.resolve(src), fs.resolve(dst)
        if not fs.inside(a) or not fs.inside(b):
            w.log('blocked', name, a, b)
            raise PermissionError(errno.EACCES, 'Permission denied', a)
        fs.point('rename', b)
        if fs.mount(a) != fs.mount(b):
            raise OSError(errno.EXDEV, 'Invalid cross-device link', a, None, b)
        if name in ('rename', 'replace'):
            fs.note_gone(b)
        result = real(src, dst, *args, **kwargs)
        if name in ('rename', 'replace'):
            fs.journal.append(('rename', a, b))
        elif name == 'link':
            fs.journal.append(('create', b, R['os.stat'](b).st_ino))
        fs.done('rename', b)
        return result
    call.__name__ = name
    return call


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = Current.world
    if w is None or w.fs is None or dir_fd is not None:
        return R['os.open'](path, flags, mode, dir_fd=dir_fd)
    fs = w.fs
    full = fs.resolve(path)
    writes = bool(flags & O_WRITE)
    if not fs.inside(full):
        if writes and full != '/dev/null':
            w.log('blocked open', full)
            raise PermissionError(errno.EACCES, 'Permission denied', full)
        return R['os.open'](path, flags, mode)
    existed = os.path.exists(full)
    fs.point('open-w' if writes else 'open-r', full)
    fd = R['os.open'](path, flags, mode)
    if writes:
        fs.note_open(full, fd, not existed, bool(flags & os.O_TRUNC))
        fs.done('open-w', full)
    else:
        fs.fds[fd] = full
    return fd


def _os_write(fd, data):
    w = Current.world
    if w is None or w.fs is None or fd not in w.fs.fds:
        return R['os.write'](fd, data)
    fs = w.fs
    path = fs.fds[fd]
    data = bytes(data)
    fault = fs.point('write', path)
    if fault == 'tear':
        R['os.write'](fd, data[:fs.w.c.draw(len(data) + 1, 'bytes written before the stop')])
        fs.note_write(fd)
        fs.done('write', path)
        fs.kill()
    if fault in ('enospc', 'eio'):
        n = fs.w.c.draw(len(data) + 1, 'bytes written before the error')
        if n:
            R['os.write'](fd, data[:n])
            fs.note_write(fd)
            fs.done('write', path)
        raise OSError(*ERRORS[fault])
    if fault == 'short' and len(data) > 1:
        data = data[:1 + fs.w.c.draw(len(data) - 1, 'short write')]
    n = R['os.write'](fd, data)
    fs.note_write(fd)
    fs.done('write', path)
    return n


def _sendfile(out_fd, in_fd, offset, count, *args):
    w = Current.world
    if w is None or w.fs is None or out_fd not in w.fs.fds:
        return R['os.sendfile'](out_fd, in_fd, offset, count, *args)
    if in_fd in w.fs.fds:
        w.fs.point('read', w.fs.fds[in_fd])
    data = os.read(in_fd, min(count, 1 << 20)) if offset is None else os.pread(in_fd, min(count, 1 << 20), offset)
    return _os_write(out_fd, data) if data else 0


def _copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
    w = Current.world
    if w is None or w.fs is None or dst not in w.fs.fds:
        return R['os.copy_file_range'](src, dst, count, offset_src, offset_dst)
    raise OSError(errno.EXDEV, 'Invalid cross-device link')


def _os_close(fd):
    w = Current.world
    if w is not None and w.fs is not None:
        w.fs.fds.pop(fd, None)
    return R['os.close'](fd)


def _syncer(name):
    real = R['os.' + name]

    def call(fd):
        w = Current.world
        number = fd if isinstance(fd, int) else fd.fileno()
        if w is None or w.fs is None or number not in w.fs.fds:
            return real(fd)
        fs = w.fs
        path = fs.fds[number]
        fs.point('fsync', path)
        fs.note_fsync(number, path)
        fs.done('fsync', path)
    call.__name__ = name
    return call


def _ftruncate(fd, length):
    w = Current.world
    if w is None or w.fs is None or fd not in w.fs.fds:
        return R['os.ftruncate'](fd, length)
    fs = w.fs
    fs.point('truncate', fs.fds[fd])
    R['os.ftruncate'](fd, length)
    fs.note_write(fd)
    fs.done('truncate', fs.fds[fd])


def _order(w, names, key):
    """The order in which a directory is listed is up to the file system."""
    names = sorted(names, key=key)
    if w.proc is not None and w.fs.shuffle_listing and len(names) <= 64:
        names = w.c.shuffle(names, 'directory order')
    return names


def _listdir(path='.'):
    w = Current.world
    if w is None or w.fs is None or isinstance(path, int) or not w.fs.inside(w.fs.resolve(path)):
        return R['os.listdir'](path)
    return _order(w, R['os.listdir'](path), lambda n: n)


class _Scan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def close(self):
        self.entries = iter(())


def _scandir(path='.'):
    w = Current.world
    if w is None or w.fs is None or isinstance(path, int) or not w.fs.inside(w.fs.resolve(path)):
        return R['os.scandir'](path)
    with R['os.scandir'](path) as it:
        entries = list(it)
    return _Scan(_order(w, entries, lambda e: e.name))


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.sendfile = _sendfile
    os.copy_file_range = _copy_file_range
    os.ftruncate = _ftruncate
    os.listdir = _listdir
    os.scandir = _scandir
    for name in ('fsync', 'fdatasync'):
        setattr(os, name, _syncer(name))
    for name in ('rename', 'replace', 'link', 'symlink'):
        setattr(os, name, _renamer(name))
    for name in ('remove', 'unlink'):
        setattr(os, name, _guarded(name, 'unlink'))
    for name in ('mkdir', 'rmdir', 'chmod', 'utime'):
        setattr(os, name, _guarded(name, 'meta'))
    os.truncate = _guarded('truncate', 'truncate')
    shutil._USE_CP_SENDFILE = False
    tempfile._os_unlink = os.unlink
    # tempfile._TemporaryFileCloser keeps a reference to the real unlink
    closer = getattr(tempfile, '_TemporaryFileCloser', None)
    if closer is not None:
        cleanup = closer.cleanup
        defaults = list(cleanup.__defaults__ or ())
        for i, value in enumerate(defaults):
            if value is R['os.unlink']:
                defaults[i] = os.unlink
        cleanup.__defaults__ = tuple(defaults)
