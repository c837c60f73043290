"""Fault injection at the seams of the drawing code: the image library and plug-in shapes."""
import contextlib

import numpy as np
from PIL import ImageDraw, ImagePath, ImageChops, Image

from .core import SimFault, patched
from .build import Elem, PenBrush, Point, BBox, EmptyStackError
from x7.geom.anim import MorphError
from x7.geom.geom import ParallelLineError
from x7.geom.model import GeomInternalError


class SimInterrupt(BaseException):
    """Stands for KeyboardInterrupt and the like: not an Exception"""


# Errors of the usual kinds, each a class of its own so that it is not taken for one of the code under test
USUAL = {n: type('Sim' + k.__name__, (k,), {}) for n, k in dict(
    value=ValueError, attr=AttributeError, type=TypeError, key=KeyError, index=IndexError, os=OSError, zero=ZeroDivisionError,
    overflow=OverflowError, assertion=AssertionError, notimpl=NotImplementedError, runtime=RuntimeError, pipe=BrokenPipeError,
    timeout=TimeoutError, missing=FileNotFoundError, eof=EOFError, denied=PermissionError, recursion=RecursionError,
    unicode=UnicodeError, importing=ImportError, name=NameError, emptystack=EmptyStackError, morph=MorphError,
    parallel=ParallelLineError, internal=GeomInternalError, algebra=np.linalg.LinAlgError, warning=UserWarning, exit=SystemExit, keyboard=KeyboardInterrupt).items()}
ERRORS = (SimFault, SimInterrupt, MemoryError) + tuple(USUAL.values())


def gen_exc(rng):
    return rng.choice(['error', 'memory', 'interrupt']) if rng.random() < 0.4 else rng.choice(sorted(USUAL))


def make_fault(kind):
    if kind in USUAL:
        return USUAL[kind]('simulated ' + kind)
    return SimInterrupt('simulated interrupt') if kind == 'interrupt' else \
        MemoryError('simulated allocation failure') if kind == 'memory' else SimFault('simulated failure')


class Counter(object):
    """Raises at the k-th call"""

    def __init__(self, k, fault):
        self.k = k
        self.fault = fault
        self.calls = 0
        self.fired = False

    def hit(self):
        self.calls += 1
        if self.calls == self.k:
            self.fired = True
            raise self.fault


PRIMITIVES = ('line', 'polygon', 'ellipse', 'rectangle', 'point', 'arc', 'pieslice', 'chord')


@contextlib.contextmanager
def failing_canvas(counter):
    """The k-th primitive drawn on any canvas fails (before drawing)"""
    depth = [0]

    def wrap(old):
        def inner(self, *args, **kw):
            if depth[0] == 0:
                counter.hit()
            depth[0] += 1
            try:
                return old(self, *args, **kw)
            finally:
                depth[0] -= 1
        return inner

    with contextlib.ExitStack() as stack:
        for name in PRIMITIVES:
            stack.enter_context(patched(ImageDraw.ImageDraw, name, wrap(getattr(ImageDraw.ImageDraw, name))))
        yield counter


@contextlib.contextmanager
def failing_paths(counter):
    """The k-th path allocation in the image library fails"""
    old = ImagePath.Path

    def path(*args, **kw):
        counter.hit()
        return old(*args, **kw)

    with patched(ImagePath, 'Path', path):
        yield counter


@contextlib.contextmanager
def failing_shadow(counter):
    """The k-th image operation of shadow generation fails"""
    def wrap(old):
        def inner(*args, **kw):
            counter.hit()
            return old(*args, **kw)
        return inner

    with patched(ImageChops, 'offset', wrap(ImageChops.offset)), patched(Image, 'merge', wrap(Image.merge)), \
            patched(ImageDraw, 'Draw', wrap(ImageDraw.Draw)):
        yield counter


class PlugPoint(Point):
    """A user-written kind of point that fails when it is read for the k-th time"""

    def __init__(self, old, counter):
        super().__init__(*old.xy(), old.name)
        self.counter = counter

    def xy(self):
        self.counter.hit()
        return super().xy()


class PlugPen(PenBrush):
    """A user-written kind of pen that fails when its width is asked for the k-th time"""
    counter = None

    def stroke_width(self, matrix):
        self.counter.hit()
        return super().stroke_width(matrix)


class PlugElem(Elem):
    """A user-written shape that draws nothing and fails when armed"""

    def __init__(self, name, fault=None):
        super().__init__(name, PenBrush('black'), False)
        self.armed = None       # a Counter

    def maybe(self):
        if self.armed:
            self.armed.hit()

    def __str__(self):
        return 'PlugElem'

    def __repr__(self):
        return 'PlugElem'

    def __eq__(self, other):
        return self is other

    def copy(self):
        self.maybe()
        return PlugElem(self.name)

    def restore(self, other):
        super().restore(other)

    def transform(self, matrix):
        with matrix.push():
            matrix.compose(self.xform)
            self.maybe()
        return PlugElem(self.name)

    def bbox_int(self):
        self.maybe()
        return BBox(0, 0, 1, 1)

    def bbox_int_update(self, bbox, context=None):
        pass

    def paths(self, dc):
        with self.draw_space(dc):
            self.maybe()
            return []

    def control_paths(self, dc):
        with self.draw_space(dc):
            self.maybe()
            return []

    def display(self, detail=1, prefix=''):
        return []

    def dump(self, context):
        return context

    def as_digi_points(self):
        return []

    def iter_elems(self, root='unknown', matrix=None):
        self.maybe()
        yield root + '.' + self.name, self, matrix
        self.maybe()
