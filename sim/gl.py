"""A simulated display: OpenGL state (matrices, textures, framebuffers), window, key presses and ffmpeg.

Nothing is rasterised.  A surface holds the list of primitives drawn since it was cleared, in pixel
coordinates; an image read back from one is a unique pattern of bytes that stands for that list."""
import hashlib
import io
import math
import os
import re
import subprocess
import sys
import types

from .core import Current, HarnessError


class Surface:
    def __init__(self, width, height):
        self.width, self.height = width, height
        self.content = None             # None: nothing defined


class SimGL:
    def __init__(self, world):
        self.w = world
        self.names = {}
        self.textures, self.renderbuffers, self.framebuffers = {}, {}, {}
        self.bound_texture = self.bound_renderbuffer = 0
        self.read = self.draw = 0
        self.viewport = (0, 0, 1, 1)
        self.stacks = {'model': [IDENTITY], 'projection': [IDENTITY]}
        self.mode = 'model'
        self.colour = (1.0, 1.0, 1.0)
        self.textured = False
        self.primitive = None
        self.texcoord = (0, 0)
        self.window = None
        self.images = {}                # bytes -> (content, width, height)

    def name(self, kind):
        """Each kind of object has its own numbers, and they are used again."""
        used = self.names.setdefault(kind, set())
        new = next(n for n in range(1, len(used) + 2) if n not in used)
        used.add(new)
        return new

    def free(self, kind, name):
        self.names.get(kind, set()).discard(name)

    def surface(self, binding):
        fb = self.read if binding == 'read' else self.draw
        if fb == 0:
            return self.window
        attached = self.framebuffers.get(fb)
        if attached is None:
            return None
        return attached

    # -- matrices: (a, b, c, d, e, f): x' = ax + by + c, y' = dx + ey + f --
    def multiply(self, m):
        stack = self.stacks[self.mode]
        stack[-1] = product(stack[-1], m)

    def pixel(self, x, y):
        """To pixels, origin at the top left of the viewport."""
        x, y = apply(self.stacks['projection'][-1], *apply(self.stacks['model'][-1], x, y))
        _, _, w, h = self.viewport
        return (x + 1) / 2 * w, (1 - y) / 2 * h

    def vertex(self, x, y):
        if self.primitive is None:
            raise HarnessError('vertex outside of a primitive')
        self.primitive[1].append((self.pixel(x, y), self.texcoord))

    def end(self):
        kind, points = self.primitive
        self.primitive = None
        target = self.surface('draw')
        if target is None or target.content is None:
            return
        texture = self.textures.get(self.bound_texture) if self.textured else None
        size = {'quads': 4, 'lines': 2}.get(kind, len(points))
        for k in range(0, len(points) - size + 1, size or 1):
            target.content.append((kind, tuple(points[k:k + size]), texture.label if texture is not None else None, self.colour))


IDENTITY = (1, 0, 0, 0, 1, 0)


def product(p, q):
    a, b, c, d, e, f = p
    g, h, i, j, k, l = q        # noqa: E741
    return (a * g + b * j, a * h + b * k, a * i + b * l + c, d * g + e * j, d * h + e * k, d * i + e * l + f)


def apply(m, x, y):
    return m[0] * x + m[1] * y + m[2], m[3] * x + m[4] * y + m[5]


def gl():
    state = getattr(Current.world, 'gl', None) if Current.world is not None else None
    if state is None:
        raise HarnessError('OpenGL used outside of a simulated display')
    return state


def numbers(args):
    """Scalars, or one sequence."""
    if len(args) == 1 and hasattr(args[0], '__len__'):
        args = args[0]
    return [float(a) for a in args]


class Calls:
    """The OpenGL functions by name; GL_* constants come from the real module."""

    def __init__(self, real):
        self.c = real
        c = real
        self.kinds = {int(c.GL_QUADS): 'quads', int(c.GL_LINES): 'lines'}

    def glGetIntegerv(self, what, *_):
        if what == self.c.GL_VIEWPORT:
            return list(gl().viewport)
        return 0

    def glViewport(self, x, y, w, h):
        gl().viewport = (x, y, w, h)

    def glMatrixMode(self, mode):
        gl().mode = 'projection' if mode == self.c.GL_PROJECTION else 'model'

    def glLoadIdentity(self):
        s = gl()
        s.stacks[s.mode][-1] = IDENTITY

    def glPushMatrix(self):
        s = gl()
        s.stacks[s.mode].append(s.stacks[s.mode][-1])

    def glPopMatrix(self):
        s = gl()
        if len(s.stacks[s.mode]) > 1:
            s.stacks[s.mode].pop()

    def glTranslate(self, x, y, z=0):
        gl().multiply((1, 0, x, 0, 1, y))

    def glScale(self, x, y, z=1):
        gl().multiply((x, 0, 0, 0, y, 0))

    def glRotate(self, angle, x, y, z):
        a = math.radians(angle) * (1 if z >= 0 else -1)
        gl().multiply((math.cos(a), -math.sin(a), 0, math.sin(a), math.cos(a), 0))

    def glOrtho(self, left, right, bottom, top, near=-1, far=1):
        gl().multiply((2 / (right - left), 0, -(right + left) / (right - left), 0, 2 / (top - bottom), -(top + bottom) / (top - bottom)))

    gluOrtho2D = glOrtho

    def glColor(self, *args):
        values = numbers(args)
        gl().colour = tuple(values[:3])

    def glTexCoord(self, *args):
        gl().texcoord = tuple(numbers(args)[:2])

    def glVertex(self, *args):
        gl().vertex(*numbers(args)[:2])

    def glBegin(self, kind):
        gl().primitive = (self.kinds.get(int(kind), 'other'), [])

    def glEnd(self):
        gl().end()

    def glEnable(self, what):
        if what == self.c.GL_TEXTURE_2D:
            gl().textured = True

    def glDisable(self, what):
        if what == self.c.GL_TEXTURE_2D:
            gl().textured = False

    def glGenTextures(self, n, *_):
        s = gl()
        made = [s.name('texture') for _ in range(n)]
        for name in made:
            s.textures[name] = Surface(0, 0)
            s.textures[name].label = None
        return made[0] if n == 1 else made

    def glBindTexture(self, _, texture):
        gl().bound_texture = int(texture)

    def glTexImage2D(self, _target, _level, _internal, width, height, _border, _format, _type, data):
        t = gl().textures.get(gl().bound_texture)
        if t is not None:
            t.width, t.height = int(width), int(height)
            t.content = []
            t.label = (bytes(data).decode('latin-1'), t.width, t.height) if isinstance(data, (bytes, bytearray)) and len(data) < 1000 else None
            text = read_text(data, t.width, t.height) if data is not None and t.label is None and t.width else None
            if text is not None:
                t.label = ('text|' + text, t.width, t.height)

    def glGetTexLevelParameteriv(self, _target, _level, what):
        t = gl().textures[gl().bound_texture]
        return t.width if what == self.c.GL_TEXTURE_WIDTH else t.height

    def glGetTexImage(self, *_args):
        s = gl()
        t = s.textures[s.bound_texture]
        return picture(s, t)

    def glReadPixels(self, x, y, width, height, *_args):
        return picture(gl(), gl().surface('read'))

    def glDeleteTextures(self, *args):
        for name in flat(args[-1]):
            gl().textures.pop(name, None)
            gl().free('texture', name)

    def glGenRenderbuffers(self, n, *_):
        s = gl()
        made = [s.name('renderbuffer') for _ in range(n)]
        return made[0] if n == 1 else made

    def glBindRenderbuffer(self, _, name):
        gl().bound_renderbuffer = int(name)

    def glRenderbufferStorage(self, _target, _format, width, height):
        s = gl()
        s.renderbuffers[s.bound_renderbuffer] = Surface(int(width), int(height))

    def glRenderbufferStorageMultisample(self, target, _samples, form, width, height):
        self.glRenderbufferStorage(target, form, width, height)

    def glDeleteRenderbuffers(self, *args):
        for name in flat(args[-1]):
            surface = gl().renderbuffers.pop(name, None)
            gl().free('renderbuffer', name)
            # only the bound framebuffer loses its attachment
            for binding in {gl().draw, gl().read} - {0}:
                if surface is not None and gl().framebuffers.get(binding) is surface:
                    gl().framebuffers[binding] = None

    def glGenFramebuffers(self, n, *_):
        s = gl()
        made = [s.name('framebuffer') for _ in range(n)]
        for name in made:
            s.framebuffers[name] = None
        return made[0] if n == 1 else made

    def glBindFramebuffer(self, target, name):
        s = gl()
        if target in (self.c.GL_FRAMEBUFFER, self.c.GL_DRAW_FRAMEBUFFER):
            s.draw = int(name)
        if target in (self.c.GL_FRAMEBUFFER, self.c.GL_READ_FRAMEBUFFER):
            s.read = int(name)

    def bound(self, target):
        return gl().read if target == self.c.GL_READ_FRAMEBUFFER else gl().draw

    def glFramebufferRenderbuffer(self, target, _attachment, _kind, name):
        gl().framebuffers[self.bound(target)] = gl().renderbuffers.get(int(name))

    def glFramebufferTexture2D(self, target, _attachment, _kind, name, _level):
        gl().framebuffers[self.bound(target)] = gl().textures.get(int(name))

    def glDeleteFramebuffers(self, *args):
        s = gl()
        for name in flat(args[-1]):
            s.framebuffers.pop(name, None)
            s.free('framebuffer', name)
            s.read, s.draw = (0 if v == name else v for v in (s.read, s.draw))

    def glClear(self, mask):
        s = gl().surface('draw')
        if s is not None and int(mask) & int(self.c.GL_COLOR_BUFFER_BIT):
            s.content = []

    def glBlitFramebuffer(self, x0, y0, x1, y1, u0, v0, u1, v1, _mask, _filter):
        source, target = gl().surface('read'), gl().surface('draw')
        if source is None or target is None or source is target:
            return
        if (x0, y0, x1, y1) != (u0, v0, u1, v1) or (x0, y0, x1, y1) != (0, 0, source.width, source.height) or (target.width, target.height) != (source.width, source.height):
            target.content = None if source.content is None else [('scaled',)] + source.content
            return
        target.content = None if source.content is None else list(source.content)


def picture(s, surface):
    """The bytes of an image, bottom row first."""
    content = surface.content
    seed = repr(content).encode()
    n = surface.width * surface.height * 3
    data = hashlib.shake_256(seed + b'%d %d' % (surface.width, surface.height)).digest(n)
    s.images[data] = (content, surface.width, surface.height)
    return data


def flat(names):
    return [int(n) for n in names] if hasattr(names, '__len__') else [int(names)]


SUFFIX = re.compile(r'^(gl(?:Vertex|Color|TexCoord|Translate|Scale|Rotate))[1234]?(?:u?[bsifd]|ub)?v?$')


def fake_modules():
    """OpenGL.GL and OpenGL.GLU with the functions above; functions without a part in this do nothing."""
    import OpenGL.GL
    import OpenGL.GLU
    calls = Calls(OpenGL.GL)
    for name in ('OpenGL.GL', 'OpenGL.GLU'):
        real = sys.modules[name]
        fake = types.ModuleType(name)
        for key, value in vars(real).items():
            if key.startswith('_'):
                continue
            if not key.startswith('gl') or not callable(value) or isinstance(value, type):
                setattr(fake, key, value)
                continue
            match = SUFFIX.match(key)
            fake_call = getattr(calls, key, None) or (getattr(calls, match.group(1), None) if match else None)
            setattr(fake, key, fake_call or (lambda *args, **kwargs: 0))
        sys.modules[name] = fake
        setattr(sys.modules['OpenGL'], name.split('.')[1], fake)


# -- the window --

class Display:
    """pygame.display, .event, .time and .font."""

    def __init__(self, world):
        self.w = world
        self.size = None
        self.caption = ''
        self.flips = 0
        self.open = False
        self.script = lambda display: []        # events before the next picture
        self.on_flip = lambda display: None

    def flip(self):
        self.flips += 1
        self.w.now += 1 / 60
        if self.flips > 20000:
            from .core import SimDeadlock
            raise SimDeadlock('the window never closes')
        self.on_flip(self)


def display():
    return getattr(Current.world, 'display', None) if Current.world is not None else None


def set_mode(size=(0, 0), *args, **kwargs):
    d = display()
    d.size = tuple(size)
    s = gl()
    if s.window is None or (s.window.width, s.window.height) != d.size:
        first = s.window is None
        s.window = Surface(*d.size)
        if first:
            s.viewport = (0, 0, *d.size)
    d.open = True
    return Window(d)


class Window:
    def __init__(self, display):
        self.display = display

    def get_size(self):
        return self.display.size

    def get_width(self):
        return self.display.size[0]

    def get_height(self):
        return self.display.size[1]


def window_size():
    import pygame
    if not display().open:
        raise pygame.error('No open window')
    return display().size


class Clock:
    def tick(self, rate=0):
        return 16

    tick_busy_loop = tick

    def get_fps(self):
        return 60.0

    def get_time(self):
        return 16


class Font:
    def __init__(self, *args):
        pass

    def size(self, text):
        return 8 * len(text), 12

    def render(self, text, *args):
        import pygame
        surface = pygame.Surface(self.size(text))
        for i, char in enumerate(text):         # stripes that can be read
            for b in range(8):
                if ord(char) >> b & 1:
                    surface.fill((255, 255, 255), (8 * i + b, 0, 1, 12))
        return surface


def read_text(data, width, height):
    """The text in the pixels of a texture, or None."""
    import numpy
    try:
        pixels = numpy.frombuffer(data, numpy.uint8) if isinstance(data, (bytes, bytearray)) else numpy.asarray(data, numpy.uint8)
        pixels = pixels.reshape((height, width, -1))
    except (ValueError, TypeError):
        return None
    if height != 12 or width % 8:
        return None
    for channel in range(pixels.shape[2]):
        bits = pixels[0, :, channel] > 127
        if not (pixels[:, :, channel] == pixels[0, :, channel]).all():
            continue
        text = ''.join(chr(sum(1 << b for b in range(8) if bits[8 * i + b])) for i in range(width // 8))
        if all(32 <= ord(char) < 127 for char in text):
            return text
    return None


def fake_pygame():
    import pygame
    import pygame.surfarray  # noqa: F401

    def closed():
        display().open = False

    queue = []

    def poll():
        if not queue:
            queue.extend(display().script(display()))
            queue.append(pygame.event.Event(pygame.NOEVENT))
        return queue.pop(0)

    pygame.init = lambda: (1, 0)
    pygame.quit = closed
    pygame.display.init = lambda: None
    pygame.display.quit = closed
    pygame.display.set_mode = set_mode
    pygame.display.set_caption = lambda text, *_: setattr(display(), 'caption', text)
    pygame.display.gl_set_attribute = lambda *_: None
    pygame.display.flip = lambda: display().flip()
    pygame.display.update = lambda *_: display().flip()
    pygame.display.get_window_size = window_size
    pygame.display.get_surface = lambda: Window(display()) if display().open else None
    pygame.display.get_init = lambda: display().open
    pygame.display.get_caption = lambda: (display().caption, display().caption)
    pygame.event.poll = poll
    pygame.time.wait = pygame.time.delay = lambda ms: ms
    pygame.event.get = lambda *_a, **_k: display().script(display())
    pygame.event.pump = lambda: None
    pygame.time.Clock = Clock
    pygame.time.get_ticks = lambda: int(Current.world.now * 1000)
    pygame.font.init = lambda: None
    pygame.font.Font = Font
    pygame.font.SysFont = Font


class Image:
    """A picture file: only its name, size and orientation matter."""

    def __init__(self, name, size, ops=()):
        self.name, self.size, self.ops, self.mode = name, size, ops, 'RGBA'

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def transpose(self, how):
        return Image(self.name, self.size, (*self.ops, f'transpose {int(how)}'))

    def convert(self, mode):
        return self

    def tobytes(self, *_):
        return '|'.join([self.name, *self.ops]).encode()

    def load(self):
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


# columns, rows and cell sizes of the files of the game
FILES = {
    'hr-transport-belt.png': (16, 20, 128, 128), 'hr-underground-belt-structure.png': (4, 4, 192, 192), 'hr-splitter-east.png': (8, 4, 90, 84), 'hr-splitter-east-top_patch.png': (8, 4, 90, 104),
    'hr-splitter-west.png': (8, 4, 90, 86), 'hr-splitter-west-top_patch.png': (8, 4, 90, 96), 'hr-splitter-south.png': (8, 4, 164, 64), 'hr-splitter-north.png': (8, 4, 160, 70),
    'hr-inserter-platform.png': (4, 1, 105, 79), 'hr-long-handed-inserter-platform.png': (4, 1, 105, 79), 'hr-assembling-machine-1.png': (8, 4, 214, 226),
}


PICTURE = b'simulated picture '


class PictureFile(io.BytesIO):
    def __init__(self, path):
        super().__init__(PICTURE + os.path.basename(path).encode())
        self.name = path


def is_asset(path):
    """A texture of the installed package: there in the simulation, wherever the package lies."""
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    return getattr(Current.world, 'gl', None) is not None and isinstance(path, str) and path.endswith('.png') and os.path.basename(os.path.dirname(path)) == 'assets'


def fake_images():
    import builtins
    import PIL.Image
    real = PIL.Image.open

    def image_open(file, *args, **kwargs):
        if Current.world is None:
            return real(file, *args, **kwargs)
        if hasattr(file, 'read'):
            name = bytes(file.read()).removeprefix(PICTURE).decode()
        else:
            name = os.path.basename(os.fspath(file))
        columns, rows, w, h = FILES.get(name, (1, 1, 32, 64))
        return Image(name, (columns * w, rows * h))
    PIL.Image.open = image_open

    def opener(before):
        def asset_open(file, mode='r', *args, **kwargs):
            if mode == 'rb' and is_asset(file):
                return PictureFile(os.fspath(file))
            return before(file, mode, *args, **kwargs)
        return asset_open
    builtins.open = opener(builtins.open)
    io.open = opener(io.open)
    for name in ('exists', 'isfile'):
        def check(path, before=getattr(os.path, name)):
            return is_asset(path) or before(path)
        setattr(os.path, name, check)


# -- ffmpeg --

class FfmpegInput(io.RawIOBase):
    def __init__(self, process):
        self.process = process

    def writable(self):
        return True

    def write(self, data):
        p = self.process
        data = bytes(data)
        if p.dies_after is not None and len(p.received) + len(data) > p.dies_after:
            p.dead = True
            raise BrokenPipeError(32, 'Broken pipe')
        p.received += data
        return len(data)

    def close(self):
        if not self.closed:
            self.process.input_closed = True
        super().close()


class Ffmpeg:
    """The encoder process.  fault: None or how it fails."""

    def __init__(self, args, stdin=None, **kwargs):
        w = Current.world
        self.args = args
        self.argv = [str(a) for a in args]
        self.w = w
        self.studio = w.studio
        self.returncode = None
        self.received = b''
        self.input_closed = stdin != subprocess.PIPE
        self.dead = False
        self.dies_after = None
        self.fault = self.studio.next_fault()
        self.pid = 70000 + len(self.studio.processes)
        self.studio.processes.append(self)
        w.log('ffmpeg', ' '.join(self.argv), self.fault)
        if self.fault == 'missing':
            raise FileNotFoundError(2, 'No such file or directory', self.argv[0])
        if self.fault == 'dies':
            self.dies_after = self.studio.amount()
        raw = FfmpegInput(self)
        self.stdin = io.BufferedWriter(raw, 65536) if stdin == subprocess.PIPE else None
        self.stdout = self.stderr = None

    def finish(self):
        if self.returncode is not None:
            return
        if not self.input_closed and not self.dead:
            from .core import SimDeadlock
            raise SimDeadlock('waiting for ffmpeg, which still waits for the end of its input')
        stuck = self.studio.existing and '-y' not in self.argv         # asks whether to overwrite, gets no answer
        self.returncode = 1 if self.dead or stuck or self.fault in ('fails', 'disk full', 'dies') else -9 if self.fault == 'killed' else 0
        self.studio.finished(self)

    def poll(self):
        if self.input_closed or self.dead:
            self.finish()
        return self.returncode

    def wait(self, timeout=None):
        self.finish()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if input is not None:
            try:
                self.stdin.write(input)
            except BrokenPipeError:
                pass
        if self.stdin is not None:
            try:
                self.stdin.close()
            except BrokenPipeError:
                pass
        self.finish()
        return None, None

    def kill(self):
        self.dead = True

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *_):
        if self.stdin is not None:
            try:
                self.stdin.close()
            except BrokenPipeError:
                pass
        self.finish()


class Studio:
    """All encoder processes of a run."""

    def __init__(self, world, hazard, kinds):
        self.w, self.hazard, self.kinds = world, hazard, kinds
        self.processes = []
        self.faulted = []
        self.existing = False
        self.files = []             # (name, size, frames)

    def next_fault(self):
        if not self.hazard or not self.w.c.chance(self.hazard, 'ffmpeg fault?') or self.faulted:
            return None
        kind = self.w.c.pick(self.kinds, 'ffmpeg fault')
        self.faulted.append(kind)
        self.w.fault('ffmpeg-' + kind)
        return kind

    def amount(self):
        return self.w.c.pick([0, 1, 5000, 60000, 200000], 'dies after')

    def finished(self, process):
        if process.returncode != 0:
            return
        argv = process.argv
        size = re.fullmatch(r'(\d+)x(\d+)', argv[argv.index('-s') + 1])
        width, height = int(size.group(1)), int(size.group(2))
        frame = width * height * 3
        data = process.received
        if frame == 0 or len(data) % frame:
            frames = None
        else:
            frames = [data[k:k + frame] for k in range(0, len(data), frame)]
        names = [a for a in argv if a.endswith(('.mp4', '.gif'))]
        self.files.append({'name': names[-1] if names else None, 'width': width, 'height': height, 'frames': frames, 'argv': argv,
                           'format': argv[argv.index('-pix_fmt') + 1] if '-pix_fmt' in argv else None})
        self.w.log('video', self.files[-1]['name'], width, height, len(frames or []), hashlib.sha256(data).hexdigest()[:12])


def install():
    """After sim.seams; before the renderer is loaded."""
    fake_modules()
    fake_pygame()
    fake_images()
    from . import solvers
    base = solvers.DispatchPopen

    class Popen(base):
        def __new__(cls, *args, **kwargs):
            if Current.world is not None and getattr(Current.world, 'studio', None) is not None:
                return Ffmpeg(*args, **kwargs)
            return base.__new__(cls, *args, **kwargs)
    subprocess.Popen = Popen
