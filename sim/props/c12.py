"""C12: a frame sequence is complete, ordered and isolated"""
import contextlib

from PIL import Image, ImageDraw

from .. import ref, build, faults
from ..core import Violation, close, expect, patched
from ..build import Transform, DrawingContext, Point
from ..faults import Counter, make_fault, ERRORS, gen_exc
from .c07 import gen_fn, make_fn
from .c08 import gen_curve
from x7.geom.anim import Builder, AnimationHolder, AnimationGeneric, AnimationLinear, AnimationCircular, AnimationLinearFunc, Morph
from x7.geom.anim_simple import SimpleAnimation

RUNS = {'quick': 4500, 'thorough': 250000}
RULE = ('A run sets up 1-2 SimpleAnimations and 1-2 Builders (shared or separate models with shared points and morphs, shared background and '
        'placement) and interleaves 3-12 steps: whole recordings, steps opened / painted / closed / abandoned by hand in any order, single '
        'frames, nested recordings from within a drawing callback, late painting into finished contexts, callbacks that replace the background '
        'or move the placement, edits of model and background between recordings. Faults: the callback fails before, during or after drawing, '
        'a canvas primitive, the allocation or composition of an image, showing a step, or an animation fails at a chosen call. Every frame is '
        'compared with an independently drawn one (for a Builder: one built alone from a freshly built model), and after every step all frames '
        'ever recorded, the backgrounds and the placement with their value before. Non-trivial: at least two recordings or a fault.')
REAL = ['x7.geom.anim_simple', 'x7.geom.anim Builder, animations, morphs', 'x7.geom.drawing', 'x7.geom.model', 'PIL']
STUB = ['drawing callbacks', 'PIL primitives, allocation, composition and display fail on demand', 'image viewer']
STATE_MEASURE = '(operation, steps, fault kind and whether it fired, recordings so far, open contexts)'
ASSUMPTIONS = ['a recording that fails keeps none or the first of its complete frames', 'frames of a further recording by a SimpleAnimation follow those of the earlier ones']

COLORS = ['red', 'blue', 'black', 'white', [0, 128, 0, 255], [200, 100, 0, 128], 'yellow']
FAULTS = ['cb-before', 'cb-mid', 'cb-after', 'canvas', 'alloc', 'compose', 'show']


def color(c):
    return tuple(c) if isinstance(c, list) else c


def gen_prog(rng, size, nested=True):
    w, h = size
    prog = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['px', 'px', 'px', 'poly', 'poly', 'line', 'shift', 'bg', 'bgpaint', 'stash', 'nest'])
        if k == 'nest' and not nested:
            k = 'px'
        prog.append([k, rng.choice(COLORS), rng.randrange(w), rng.randrange(h), rng.randint(1, w), rng.randint(1, h), rng.randint(-3, 3), rng.randint(-3, 3), rng.randrange(1000)])
    return prog


def gen_sa(rng):
    size = [rng.randint(3, 24), rng.randint(3, 24)]
    if rng.random() < 0.5:
        a, b = rng.choice([1, 10, 12.5]), rng.choice([2, 10, 37])
        box = [-a, -b, a, b]
    else:
        x, y = ref.gnum(rng), ref.gnum(rng)
        box = [x, y, x + ref.gnum(rng, 1, 60), y + ref.gnum(rng, 1, 60)]
    lo = rng.choice([0.0, 0.0, 1.0, -0.5, round(rng.uniform(-3, 3), 2)])
    hi = lo + rng.choice([1.0, 1.0, -1.0, 0.25, round(rng.uniform(0.1, 9), 3), -2.5])
    return dict(size=size, box=box, steps=rng.randint(1, 8), lo=lo, hi=hi, show=rng.random() < 0.3, bg=rng.choice([None, None, 'white', 'black', '#10f02080']), prog=gen_prog(rng, size))


def gen_anims(rng, models):
    out = []
    for _ in range(rng.randint(0, 4)):
        out.append(dict(kind=rng.choice(['linear', 'circle', 'func', 'custom', 'custom', 'morph']), p=rng.randrange(3), x=ref.gnum(rng, 0, 50), y=ref.gnum(rng, 0, 50),
                        fn=gen_fn(rng), i=rng.randrange(1000), closed=gen_curve(rng, 't', True), open=gen_curve(rng, 't', False)))
    return out


def gen(rng):
    models = [ref.unusual(rng, ref.gen_group(rng, 'm%d' % i, depth=1, npts=3, size=3, hidden=False), rng.choice([8, 8, 30])) for i in range(rng.randint(1, 2))]
    builders = [dict(m=rng.randrange(2), anims=gen_anims(rng, models), draft=rng.random() < 0.4) for _ in range(rng.randint(1, 2))]
    sas = [gen_sa(rng) for _ in range(rng.randint(1, 2))]
    steps = []
    for _ in range(rng.randint(3, 12)):
        if rng.random() < 0.55:
            s = rng.randrange(len(sas))
            st = dict(c='a%d' % s, op=rng.choice(['animate', 'animate', 'animate', 'open', 'open', 'paint', 'close', 'close', 'abort', 'late', 'set', 'scribble']),
                      prog=gen_prog(rng, sas[s]['size'], False), new=gen_sa(rng))
        else:
            st = dict(c='b%d' % rng.randrange(len(builders)), op=rng.choice(['all', 'all', 'all', 'one', 'move', 'paintbase', 'scribble']),
                      x=ref.gnum(rng, 0, 50), y=ref.gnum(rng, 0, 50), t=rng.choice([0, 1, 0.5, round(rng.uniform(-0.5, 1.5), 3)]))
        st.update(n=rng.randint(1, 6) if rng.random() > 0.006 else rng.choice([20, 66, 130]), i=rng.randrange(1000), k=rng.choice([1, 2, 3, 4, 6, 9, 14]), fault=rng.choice([None] * 5 + FAULTS),
                  exc=gen_exc(rng))
        steps.append(st)
    base = ref.mul(ref.translate(14, 14), ref.mul(ref.scale(0.4, rng.choice([0.4, -0.4])), ref.translate(-25, -25)))
    return dict(config=dict(models=models, pts=[[ref.gnum(rng, 0, 50), ref.gnum(rng, 0, 50)] for _ in range(3)], builders=builders, sas=sas,
                            base=[round(v, 6) for v in base], mode=rng.choice(['RGBA', 'RGBA', 'RGB']), bg=rng.choice(['white', 'grey', '#ffffff40'])), steps=steps)


@contextlib.contextmanager
def failing(kind, counter):
    """Image allocation, composition or display fails"""
    def wrap(old):
        def inner(*args, **kw):
            counter.hit()
            return old(*args, **kw)
        return inner
    if kind == 'alloc':
        with patched(Image, 'new', wrap(Image.new)):
            yield
    elif kind == 'compose':
        with patched(Image, 'alpha_composite', wrap(Image.alpha_composite)):
            yield
    elif kind == 'show':
        with patched(Image.Image, 'show', wrap(Image.Image.show)):
            yield
    elif kind == 'canvas':
        with faults.failing_canvas(counter):
            yield
    else:
        yield


# --------------------------------------------------------------------------------------------- reference for SimpleAnimation
class RefContext(object):
    """What one step should look like, drawn in pixels"""

    def __init__(self, size, bg):
        self.bg = Image.new('RGBA', size, bg)
        self.layer = Image.new('RGBA', size, (0, 0, 0, 0))
        self.draw = ImageDraw.Draw(self.layer)
        self.dx = self.dy = 0

    def image(self):
        return Image.alpha_composite(self.bg, self.layer)


class Sim(object):
    def __init__(self, cfg, stats):
        self.cfg = cfg
        self.stats = stats
        self.frames = []        # [image, bytes, what]: everything ever recorded
        self.shown = []
        self.nesting = 0
        self.pos = [list(p) for p in cfg['pts']]
        self.world = World(cfg)
        self.base = Image.new(cfg['mode'], (28, 28), cfg['bg'])
        self.basebytes = self.base.tobytes()
        self.matrix = Transform(tuple(cfg['base']))
        self.sas = [SA(c, i, self) for i, c in enumerate(cfg['sas'])]
        self.builders = [B(c, i, self) for i, c in enumerate(cfg['builders'])]

    def remember(self, im, what):
        expect(all(im is not f[0] for f in self.frames) and im is not self.base, 'shared-frame', '%s: the same image was recorded before', what)
        self.frames.append([im, im.tobytes(), what])

    def check(self, what):
        for im, data, name in self.frames:
            expect(im.tobytes() == data, 'frame-changed', '%s changed %s, recorded before', what, name)
        expect(self.base.tobytes() == self.basebytes and self.base.mode == self.cfg['mode'], 'background-changed', '%s changed the supplied background', what)
        got = [float(v) for v in self.matrix.as_6tuple()]
        expect(got == [float(v) for v in self.cfg['base']], 'placement-changed', '%s changed the supplied transform to %s', what, got)
        for x in self.sas:
            expect(len(x.sa.images) == len(x.recorded) and all(a is b for a, b in zip(x.sa.images, x.recorded)), 'wrong-frames',
                   '%s: animation %d holds %d frames, expected %d', what, x.i, len(x.sa.images), len(x.recorded))
        for x in self.builders:
            expect(len(x.b.images) == len(x.recorded) and all(a is b for a, b in zip(x.b.images, x.recorded)), 'wrong-frames',
                   '%s: builder %d holds %d frames, expected %d', what, x.i, len(x.b.images), len(x.recorded))


class SA(object):
    """One SimpleAnimation with its model"""

    def __init__(self, c, i, sim):
        self.c, self.i, self.sim = c, i, sim
        self.open = []          # [context manager, real dc, reference]
        self.done = []          # contexts of finished steps
        self.recorded = []      # frames it must hold
        self.want = []          # their pixels
        self.times = []
        self.current = []       # references of the running recording
        self.fail = None
        self.completed = 0
        self.limit = 200
        kw = dict(image_size=tuple(c['size']), draw_bbox=tuple(c['box']), steps=c['steps'], t_low=c['lo'], t_high=c['hi'], show_steps=c['show'])
        self.sa = SimpleAnimation(self.callback, **kw)
        self.settings()

    def settings(self):
        if self.c['bg']:
            self.sa.background = self.c['bg']

    def reference(self):
        r = RefContext(tuple(self.c['size']), self.c['bg'] or 'grey')
        return r

    def drawing_xy(self, x, y):
        """Drawing space coordinates that must appear at pixel x, y"""
        (w, h), (xl, yl, xh, yh) = self.c['size'], self.c['box']
        return xl + x * (xh-xl) / w, yh - y * (yh-yl) / h

    def check_fresh(self, dc, what):
        c = self.c
        im = dc.image()
        expect(im.mode == 'RGBA' and im.size == tuple(c['size']), 'not-fresh', '%s: the step starts with a %s image of %s', what, im.mode, im.size)
        expect(im.tobytes() == self.reference().image().tobytes(), 'not-fresh', '%s: the step does not start with a plain background', what)
        for fx in (0, 1, 0.25):
            for fy in (0, 1, 0.5):
                x, y = fx * c['size'][0], fy * c['size'][1]
                mx, my = self.drawing_xy(x, y)
                gx, gy = dc.scale_pt(mx, my)
                tol = 1e-7 * (1 + max(map(abs, c['box'])) * max(c['size']))
                expect(abs(gx-x) < tol and abs(gy-y) < tol, 'not-fresh', '%s: drawing position (%g, %g) is at pixel (%.3f, %.3f), expected (%g, %g)', what, mx, my, gx, gy, x, y)

    def paint(self, prog, k, dc, r, fault_at=None):
        """Run a drawing program for step k on the real context and on the reference"""
        for n, (op, col, x, y, w, h, dx, dy, i) in enumerate(prog):
            if fault_at is not None and n == fault_at:
                raise self.fail
            col = color(col)
            x, y = x + k * dx, y + k * dy
            if op == 'px':
                dc.draw.rectangle((x, y, x + w, y + h), fill=col)
                r.draw.rectangle((x, y, x + w, y + h), fill=col)
            elif op in ('poly', 'line'):
                pts = [(x + 0.3, y + 0.3), (x + w + 0.3, y + 0.3), (x + w//2 + 0.3, y + h + 0.3)]
                space = [self.drawing_xy(*p) for p in pts]
                moved = [(a + r.dx, b + r.dy) for a, b in pts]
                if op == 'poly':
                    dc.polygon(space if i % 2 else [Point(*p) for p in space], fill=col, outline='black')
                    r.draw.polygon(moved, fill=col, outline='black')
                else:
                    dc.line(*space[0], *space[2], color=col, width=2)
                    r.draw.line(moved[0] + moved[2], fill=col, width=2)
            elif op == 'shift':
                dc.matrix.translate(2 + k, -3)
                r.dx, r.dy = r.dx + 2 + k, r.dy - 3
            elif op == 'bg':
                dc.background = Image.new('RGBA', tuple(self.c['size']), col)
                r.bg = Image.new('RGBA', tuple(self.c['size']), col)
            elif op == 'bgpaint':
                for im in (dc.background, r.bg):
                    im.paste(col, (0, 0, 1 + i % 4, 1 + k % 3))
            elif op == 'stash':
                self.done.append(dc)
            elif op == 'nest' and self.sim.nesting == 0 and not self.sim.fault:
                self.sim.nesting += 1
                try:
                    sims = [s for s in self.sim.sas if s is not self]
                    if sims and i % 2:
                        sims[0].animate(None, 'recording of animation %d within a step of %d' % (sims[0].i, self.i))
                    else:
                        self.sim.builders[i % len(self.sim.builders)].one(0.25, None, 'a frame built within a step of animation %d' % self.i)
                finally:
                    self.sim.nesting -= 1
                self.sim.stats.probe('nested')

    def callback(self, dc, t):
        k = len(self.times)
        expect(k < self.limit, 'wrong-steps', 'animation %d: called %d times in a recording of %d steps', self.i, k + 1, self.c['steps'])
        self.times.append(t)
        what = 'animation %d step %d' % (self.i, k)
        fault = self.sim.fault
        quiet = contextlib.nullcontext() if fault is None else fault.off()
        with quiet:
            self.check_fresh(dc, what)
            r = self.reference()
        if fault and fault.kind == 'cb-before' and k == fault.step:
            fault.fire()
        mid = len(self.c['prog']) // 2
        for n, ins in enumerate(self.c['prog']):
            if fault and fault.kind == 'cb-mid' and k == fault.step and n == mid:
                fault.fire()
            if fault:
                self.paint_faulty([ins], k, dc, r, fault)
            else:
                self.paint([ins], k, dc, r)
        if fault and fault.kind == 'cb-after' and k == fault.step:
            fault.fire()
        self.current.append(r)

    def paint_faulty(self, prog, k, dc, r, fault):
        """Like paint(), with the reference drawn while the fault is off"""
        class Quiet(object):
            def __init__(self, draw):
                self.draw = draw

            def __getattr__(self, name):
                def call(*args, **kw):
                    with fault.off():
                        return getattr(self.draw, name)(*args, **kw)
                return call
        plain = r.draw
        r.draw = Quiet(plain)
        try:
            self.paint(prog, k, dc, r)
        finally:
            r.draw = plain

    def animate(self, fault, what):
        sa, c, sim = self.sa, self.c, self.sim
        outer = self.times, self.current
        self.times, self.current = [], []
        self.limit = c['steps'] + 1
        before = list(sa.images)
        shown0 = len(sim.shown)
        error = None
        try:
            if fault:
                with failing(fault.kind, fault.counter):
                    sa.animate()
            else:
                sa.animate()
        except ERRORS as err:
            error = err
        done, times = self.current, self.times
        self.times, self.current = outer
        fired = bool(fault and fault.counter.fired)
        if fired:
            expect(error is not None, 'error-hidden', '%s: the failure was hidden', what)
            expect(error is fault.counter.fault, 'error-hidden', '%s: another error reached the caller: %r', what, error)
        else:
            expect(error is None, 'wrong-error', '%s: unexpected %r', what, error)
        got = sa.images
        expect(all(a is b for a, b in zip(got, before)) and len(got) >= len(before), 'wrong-frames', '%s: frames recorded before are gone', what)
        new = got[len(before):]
        for k, t in enumerate(times):
            t0 = c['lo'] + (c['hi'] - c['lo']) * k / c['steps']
            expect(close(t, t0, 1e-9), 'wrong-time', '%s: step %d is drawn for time %r, expected %r', what, k, t, t0)
            sim.stats.sim_time += abs(c['hi'] - c['lo']) / c['steps'] if k else 0
        if fired:
            expect(len(done) - 1 <= len(new) <= len(done), 'partial-frame', '%s: %d frames recorded after the failure, %d steps were complete', what, len(new), len(done))
            if fault.kind in ('cb-before', 'cb-mid', 'cb-after'):
                expect(len(times) == fault.step + 1, 'wrong-steps', '%s: the drawing was called %d times, and failed at call %d', what, len(times), fault.step + 1)
            done = done[:len(new)]
        else:
            expect(len(times) == c['steps'] + 1, 'wrong-steps', '%s: drawn %d times, expected %d', what, len(times), c['steps'] + 1)
            expect(len(new) == len(done), 'wrong-frames', '%s: %d frames recorded, expected %d', what, len(new), len(done))
        for k, (im, r) in enumerate(zip(new, done)):
            self.accept(im, r, '%s frame %d' % (what, k))
        if c['show']:
            shown = sim.shown[shown0:]
            mine = [r.image().tobytes() for r in done]
            if not fired and sim.nesting == 0 and not any(p[0] == 'nest' for p in c['prog']):
                expect(shown == mine, 'wrong-shown', '%s: %d frames shown, expected those of the %d steps', what, len(shown), len(mine))

    def accept(self, im, r, what):
        want = r.image()
        expect(im.mode == 'RGBA' and im.size == want.size, 'wrong-frame', '%s: is a %s image of %s', what, im.mode, im.size)
        expect(im.tobytes() == want.tobytes(), 'wrong-frame', '%s does not show just what was drawn in that step', what)
        self.sim.remember(im, what)
        self.recorded.append(im)


class Fault(object):
    """The planned fault of one step"""

    def __init__(self, st):
        self.kind = st['fault']
        self.step = st['n'] - 1
        self.counter = Counter(st['k'], make_fault(st['exc']))

    def fire(self):
        self.counter.k = self.counter.calls + 1
        self.counter.hit()

    @contextlib.contextmanager
    def off(self):
        k, calls = self.counter.k, self.counter.calls
        self.counter.k = None
        try:
            yield
        finally:
            self.counter.k, self.counter.calls = k, calls


# --------------------------------------------------------------------------------------------- Builder and its replica
class World(object):
    """Models, points and animation sets built from the configuration: once for real, and once alone for every expected frame"""

    def __init__(self, cfg, hook=None):
        self.shared = build.shared_points(cfg['pts'])
        self.models = [build.elem(s, self.shared) for s in cfg['models']]
        self.holders = []
        self.morphs = 0
        self.hook = hook
        for n, b in enumerate(cfg['builders']):
            h = AnimationHolder()
            self.holders.append(h)
            mi = b['m'] % len(self.models)
            for a in b['anims']:
                self.add(h, a, n, self.models[mi], cfg['models'][mi])

    def add(self, holder, a, n, model, spec):
        p = self.shared[a['p']]
        k = a['kind']
        if k == 'linear':
            holder.add(AnimationLinear(p, Point(a['x'], a['y'])))
        elif k == 'func':
            holder.add(AnimationLinearFunc(p, Point(a['x'], a['y']), make_fn(a['fn'])))
        elif k == 'circle':
            holder.add(AnimationCircular(p, 6.0, 1.0, 0.3))
        elif k == 'custom':
            def custom(t, orig, point):
                if self.hook:
                    self.hook(n, t)
                return orig.x + a['x'] * t, orig.y + 4 * t * t
            holder.add(AnimationGeneric(p, custom))
        else:
            curves = [q for q, s in ref.walk(spec) if s['k'] == 'curve' and not any(isinstance(x, str) for x in q)]
            if curves:
                q = curves[a['i'] % len(curves)]
                e = build.child(model, q)
                if type(e) is build.ElemCurve and len(e.control_points) > 1:
                    holder.add(Morph(model, e, build.elem(a['closed'] if e.closed else a['open']), make_fn(['id'])))
                    self.morphs += 1


class B(object):
    def __init__(self, c, i, sim):
        self.c, self.i, self.sim = c, i, sim
        self.holder = sim.world.holders[i]
        self.model = sim.world.models[c['m'] % len(sim.world.models)]
        self.recorded = []
        if c['draft'] and i == 0:
            self.b = Builder(sim.base, sim.matrix, self.model, self.holder if c['anims'] else None)
        else:
            self.b = Builder(sim.base, sim.matrix, self.model, self.holder, duration=1.0, draft=c['draft'])
        self.times = []

    def expected(self, t):
        """The frame for time t, built alone: log t and draw"""
        sim = self.sim
        sim.log.append(['u', self.i, t])
        w = World(sim.cfg)
        for ev in sim.log:
            if ev[0] == 'u':
                w.holders[ev[1]].update(ev[2])
            else:
                w.shared[ev[1]].setxy(ev[2], ev[3])
        dc = DrawingContext(sim.base.copy(), Transform(tuple(sim.cfg['base'])), prod=not self.c['draft'])
        w.models[self.c['m'] % len(w.models)].draw(dc)
        return dc.image()

    def accept(self, im, t, what):
        want = self.expected(t)
        expect(im.mode == 'RGBA' and im.size == want.size, 'wrong-frame', '%s: is a %s image of %s', what, im.mode, im.size)
        if im.tobytes() != want.tobytes():
            a, b = im.tobytes(), want.tobytes()
            diff = sum(1 for j in range(0, len(a), 4) if a[j:j+4] != b[j:j+4])
            expect(False, 'wrong-frame', '%s: %d pixels differ from the frame for time %g built alone', what, diff, t)
        self.sim.remember(im, what)

    def record(self, fault, call, what):
        self.times = []
        error = None
        result = None
        self.sim.recording = self
        try:
            if fault:
                with failing(fault.kind, fault.counter):
                    result = call()
            else:
                result = call()
        except ERRORS as err:
            error = err
        finally:
            self.sim.recording = None
        if fault and fault.counter.fired:
            expect(error is fault.counter.fault, 'error-hidden', '%s: the failure was %s', what, 'hidden' if error is None else 'reported as %r' % error)
            return None
        expect(error is None, 'wrong-error', '%s: unexpected %r', what, error)
        return result

    def customs(self):
        return sum(1 for a in self.c['anims'] if a['kind'] == 'custom')

    def check_times(self, want, what):
        n = self.customs()
        if n:
            got = self.times
            full = [t for t in want for _ in range(n)]
            expect(len(got) == len(full) and all(close(a, b, 1e-9) for a, b in zip(got, full)), 'wrong-time',
                   '%s: animated for times %s, expected %s', what, got, full)

    def resync(self):
        """After a failure: bring the animations to a known time (a morph may see points that are animated after it a tick later)"""
        for _ in range(2):
            self.holder.update(0.375)
            self.sim.log.append(['u', self.i, 0.375])

    def one(self, t, fault, what):
        im = self.record(fault, lambda: self.b.build_one(t), what)
        if im is None:
            self.resync()
            return
        self.check_times([t], what)
        self.accept(im, t, what)

    def all(self, n, fault, what):
        before = self.b.images
        old = list(before)
        frames = self.record(fault, lambda: self.b.build_all(n), what)
        if frames is None:
            now = self.b.images
            if len(now) == len(self.recorded) and all(a is b for a, b in zip(now, self.recorded)):
                pass        # nothing of the failed recording is kept
            else:
                expect(len(now) < n, 'partial-frame', '%s: %d frames kept of a recording that failed', what, len(now))
                for k, im in enumerate(now):
                    self.accept(im, k / n, '%s frame %d' % (what, k))
                self.recorded = list(now)
            self.resync()
            return
        expect(len(self.b.images) == n, 'wrong-frames', '%s: %d frames recorded, expected %d', what, len(self.b.images), n)
        expect(len(frames) == n and all(a is b for a, b in zip(frames, self.b.images)), 'wrong-frames', '%s: returned frames are not those recorded', what)
        expect(len(before) == len(old) or before is self.b.images, 'frame-changed', '%s: the list of an earlier recording lost or gained frames', what)
        self.check_times([k / n for k in range(n)], what)
        for k, im in enumerate(list(self.b.images)):
            self.accept(im, k / n, '%s frame %d' % (what, k))
        self.recorded = list(self.b.images)
        self.sim.stats.sim_time += 1.0


def run(sc, stats):
    cfg = sc['config']
    if not cfg['models'] or not cfg['sas'] or not cfg['builders']:
        return
    Sim.fault = Sim.recording = None
    sim = Sim(cfg, stats)
    sim.log = []

    def hook(n, t):
        if sim.recording is None or sim.recording.i != n:
            return
        b = sim.recording
        b.times.append(t)
        f = sim.fault
        if f and f.kind in ('cb-before', 'cb-mid', 'cb-after') and len(b.times) == f.counter.k:
            f.fire()

    sim.world.hook = hook

    def show(self, *args, **kw):
        sim.shown.append(self.tobytes())

    recordings = 0
    with patched(Image.Image, 'show', show):
        for st in sc['steps']:
            op = st['op']
            stats.step(st['c'], op)
            fault = Fault(st) if st['fault'] else None
            sim.fault = None
            if st['c'][0] == 'a':
                x = sim.sas[int(st['c'][1:]) % len(sim.sas)]
                what = '%s of animation %d' % (op, x.i)
                simple(op, st, x, fault, sim, what, stats)
            else:
                x = sim.builders[int(st['c'][1:]) % len(sim.builders)]
                what = '%s of builder %d' % (op, x.i)
                builder(op, st, x, fault, sim, what, stats)
            if op in ('animate', 'all'):
                recordings += 1
                if recordings > 1:
                    stats.nontrivial()
            if fault and op in ('animate', 'all', 'one'):
                stats.plan(fault.kind + '-' + st['exc'])
                if fault.counter.fired:
                    stats.fault(fault.kind + '-' + st['exc'])
            sim.fault = None
            sim.check(what)
            stats.check()
            stats.state([op, st['n'] if op == 'all' else x.c.get('steps'), fault and [fault.kind, fault.counter.fired], min(recordings, 4),
                         [len(s.open) for s in sim.sas]])
        # later runs are unaffected by whatever happened
        for x in sim.sas:
            x.animate(None, 'a last recording of animation %d' % x.i)
        for x in sim.builders:
            x.all(2, None, 'a last recording of builder %d' % x.i)
        sim.check('the last recordings')
        stats.check()


def simple(op, st, x, fault, sim, what, stats):
    sa = x.sa
    if op == 'animate':
        if fault and fault.kind == 'show' and not x.c['show']:
            fault.kind = 'cb-mid'
        sim.fault = fault
        x.animate(fault, what)
    elif op == 'open':
        cm = sa.next_step()
        dc = cm.__enter__()
        x.check_fresh(dc, what)
        x.open.append([cm, dc, x.reference()])
    elif op in ('paint', 'close', 'abort') and x.open:
        n = st['i'] % len(x.open)
        cm, dc, r = x.open[n]
        if op == 'paint':
            x.paint(st['prog'], 1, dc, r)
            expect(dc.image().tobytes() == r.image().tobytes(), 'wrong-frame', '%s does not show just what was drawn in that step', what)
        elif op == 'close':
            before = len(sa.images)
            expect(not cm.__exit__(None, None, None), 'error-hidden', '%s returned True', what)
            expect(len(sa.images) == before + 1, 'wrong-frames', '%s recorded %d frames', what, len(sa.images) - before)
            x.accept(sa.images[-1], r, what)
            x.done.append(dc)
            del x.open[n]
        else:
            err = make_fault(st['exc'])
            stats.fault('abort-' + st['exc'])
            expect(not cm.__exit__(type(err), err, None), 'error-hidden', '%s: the error was swallowed', what)
            x.done.append(dc)
            del x.open[n]
    elif op == 'late' and x.done:
        # painting into the context of a finished step
        dc = x.done[st['i'] % len(x.done)]
        if any(dc is o[1] for o in x.open):
            return
        dc.draw.rectangle((0, 0, 30, 30), fill='magenta')
        dc.background.paste('cyan', (0, 0, 3, 3))
        dc.matrix.translate(5, 5)
        stats.probe('late-paint')
    elif op == 'set' and not x.open:
        new = st['new']
        for k in ('steps', 'lo', 'hi', 'show', 'bg'):
            x.c[k] = new[k]
        sa.steps, sa.t_low, sa.t_high, sa.show_steps, sa.background = new['steps'], new['lo'], new['hi'], new['show'], new['bg'] or 'grey'
    elif op == 'scribble':
        scribble(sim, st, what)


def scribble(sim, st, what):
    """The owner of a frame may paint on it; no other frame changes"""
    if sim.frames:
        f = sim.frames[st['i'] % len(sim.frames)]
        f[0].paste('lime', (0, 0, f[0].size[0], 2))
        f[1] = f[0].tobytes()


def builder(op, st, x, fault, sim, what, stats):
    if fault and fault.kind == 'show':
        fault.kind = 'canvas'
    if op == 'all':
        sim.fault = fault
        x.all(st['n'], fault, what)
    elif op == 'one':
        sim.fault = fault
        x.one(st['t'], fault, what)
    elif op == 'move':
        k = st['i'] % 3
        sim.world.shared[k].setxy(st['x'], st['y'])
        sim.log.append(['e', k, st['x'], st['y']])
    elif op == 'paintbase':
        sim.base.paste(['red', 'white', 'black'][st['i'] % 3], (st['i'] % 20, 0, st['i'] % 20 + 6, 9))
        sim.basebytes = sim.base.tobytes()
    elif op == 'scribble':
        scribble(sim, st, what)
