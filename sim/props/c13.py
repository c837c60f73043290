"""C13: saving an animation stores every frame, or reports the failure"""
import contextlib
import os
import pathlib
import sys
import types

from PIL import Image

from .. import gif
from ..core import Violation, SimFault, expect, patched
from ..build import Transform, Group, ElemRectangle, PenBrush, Point
from ..faults import SimInterrupt
from ..simfs import SimFS, Plan
from x7.geom.anim import Builder, AnimationHolder, AnimationGeneric
from x7.geom.anim_simple import SimpleAnimation
from x7.geom import platform as geom_platform

RUNS = {'quick': 4000, 'thorough': 120000}
RULE = ('A run sets up 1-2 SimpleAnimations and 1-2 Builders and interleaves 2-9 steps: record (once more, moving, standing still, blank or cropped '
        'content), save to one of several paths given as text, path object or default, directly or as part of run(), on a simulated desktop platform, with storage faults: the '
        'k-th open, write, flush or close fails (I/O error, full disk with a short write, out of memory, interrupt), disk of limited size, missing '
        'directory, optimiser fails, viewer missing. After a save that returned, the bytes on the simulated disk are decoded by an independent '
        'GIF decoder and compared with the recorded frames: pixels, order, display time, looping. After a failure the same recorder saves again. '
        'All files saved before must still be the same. Non-trivial: a fault, or a second save.')
REAL = ['x7.geom.anim_simple', 'x7.geom.anim Builder', 'x7.geom.imagehelp', 'x7.geom.drawing', 'PIL GIF and PNG writers']
STUB = ['disk', 'viewer commands', 'GIF optimiser', 'platform name']
STATE_MEASURE = '(recorder, platform, fault kind and whether it fired, number of frames, shape of the content, saves so far)'
ASSUMPTIONS = ['identical frames in a row may be stored as one frame shown for the sum of their times', 'times are stored in units of 10 ms, rounded down',
               'Builder output is documented to be half size, cropped to 16 pixels around the content, on black, the colour of its top left pixel (of the first frame or of the frame itself) transparent, and limited to 256 colours',
               'frames without a change are stored as one, which cannot last for more than 655 seconds (a limit of the format)',
               'stored colours may differ by the precision of the palette search of the image library (14 of 255)']

COLORS = ['red', 'blue', 'lime', 'white', 'black', 'yellow', 'grey', 'magenta']
PATHS = ['/sim/a.gif', '/sim/b.gif', '/sim/deep/er/c.gif', 'rel.gif', None, 'path:/sim/d.gif', '/sim/E.GIF', '/sim/missing/x.gif', '/sim/noext']


def gen_show(rng):
    w, h = rng.randint(8, 30), rng.randint(8, 30)
    kind = rng.choice(['move', 'move', 'jump', 'still', 'blank', 'somestill', 'someblank', 'flash', 'busy'])
    n = rng.choice([1, 2, 3, 4, 5, 7, 9])
    if rng.random() < 0.01 and kind != 'busy':
        w, h, n = rng.randint(4, 8), rng.randint(4, 8), rng.choice([20, 52, 52, 103, 130, 257, 300])
    rects = []
    for k in range(n):
        x, y, c = rng.randrange(w), rng.randrange(h), rng.choice(COLORS)
        if kind == 'move':
            x, y, c = 2 + k, 3 + k % 3, 'red'
        elif kind == 'still' or kind == 'somestill' and rng.random() < 0.6:
            x, y, c = 3, 4, 'blue'
        if kind == 'blank' or kind == 'someblank' and rng.random() < 0.5:
            rects.append(None)
        else:
            rects.append([x, y, rng.randint(1, 9), rng.randint(1, 9), c] if kind not in ('still', 'move', 'somestill') else [x, y, 5, 4, c])
    return dict(size=[w, h], kind=kind, rects=rects, time=rng.choice([0.1, 0.1, 0.5, 1/60, 0.57, 0.29, 1.0, 2.5, 0.04, 0.033]), duration=rng.choice([2.0, 1.0, 3.3, 0.5, 5.0, 20.0]),
                bg=rng.choice(['white', 'grey', 'clear', 'clear', 'blue', 'many']), top=rng.choice([0, 0, 6]))


def gen(rng):
    steps = []
    recs = ['s%d' % i for i in range(rng.randint(1, 2))] + ['b%d' % i for i in range(rng.randint(1, 2))]
    for _ in range(rng.randint(2, 9)):
        steps.append(dict(c=rng.choice(recs), op=rng.choice(['record', 'record', 'save', 'save', 'save', 'save', 'save', 'images', 'run', 'more', 'time']), show=gen_show(rng),
                          path=rng.choice(PATHS[:7] * 3 + PATHS), platform=rng.choice(['linux', 'linux', 'linux', 'darwin', 'darwin', 'win32']),
                          fault=rng.choice([None, None, None, 'open', 'write', 'write', 'write', 'flush', 'close', 'full', 'optimizer', 'alloc']),
                          exc=rng.choice(['error', 'error', 'full', 'memory', 'interrupt', 'EPIPE', 'EROFS', 'EDQUOT', 'ETIMEDOUT', 'ESTALE', 'EINTR', 'EAGAIN', 'ENXIO', 'EPERM', 'ENOENT']), k=rng.choice([1, 1, 2, 2, 3, 4, 6, 9, 15, 30, 60]), room=rng.choice([0, 10, 100, 300, 900]),
                          autocrop=rng.random() < 0.7, rgb=rng.random() < 0.3, shell=rng.choice([0, 0, 256])))
    return dict(config=dict(recs=recs, shows={r: gen_show(rng) for r in recs}), steps=steps)


class Sim(object):
    def __init__(self):
        self.fs = SimFS()
        self.optimized = []
        self.commands = []
        self.shell = 0
        self.optimizer_fault = None
        self.saved = {}     # path -> bytes of files saved normally

    def system(self, cmd):
        self.commands.append(cmd)
        return self.shell

    def optimize(self, src, dst=None, *args, **kw):
        if self.optimizer_fault:
            self.optimizer_fault.fired = FileNotFoundError('gifsicle not found (simulated)')
            raise self.optimizer_fault.fired
        self.optimized.append(self.fs.key(src))
        key = self.fs.key(src)
        if key not in self.fs.files:
            raise FileNotFoundError(key)
        self.fs.files[self.fs.key(dst or src)] = self.fs.files[key]

    @contextlib.contextmanager
    def mounted(self, name):
        mod = types.ModuleType('pygifsicle')
        mod.optimize = mod.gifsicle = self.optimize
        old = sys.modules.get('pygifsicle')
        sys.modules['pygifsicle'] = mod
        try:
            with self.fs.mounted(), patched(os, 'system', self.system), patched(sys, 'platform', name), \
                    patched(geom_platform, 'quicklook', lambda path: self.system('quicklook %r' % path)):
                yield
        finally:
            if old is None:
                del sys.modules['pygifsicle']
            else:
                sys.modules['pygifsicle'] = old


class Recorder(object):
    def __init__(self, name, show):
        self.name = name
        self.simple = name[0] == 's'
        self.show = show
        self.rec = None
        self.frames = []        # recorded: (image, mode, size, bytes)
        self.record(show)

    def record(self, show):
        # (a file cannot show one picture for more than 655 seconds)
        show = self.show = dict(show, time=min(show['time'], 600 / len(show['rects'])))
        w, h = show['size']
        if not self.simple:
            show = self.show = dict(show, rects=show['rects'][:exact(show)])      # (more would be shown for less than a centisecond each)
        n = len(show['rects'])
        if self.simple:
            calls = []

            def draw(dc, t):
                r = show['rects'][len(calls) % n]
                calls.append(t)
                if r:
                    dc.draw.rectangle((r[0], r[1], r[0] + r[2], r[1] + r[3]), fill=r[4])
                if show['kind'] == 'busy':
                    for i in range(60):
                        dc.draw.point((i % w, i // w), fill=(*((40, 90, 170, 220)[v % 4] for v in (i, i // 4, i // 16)), 255))
            def more():
                calls.clear()
                if n == 1:
                    with self.rec.next_step() as dc:
                        draw(dc, 0)
                else:
                    self.rec.animate()
            self.more = more
            if n == 1:
                # a single step recorded by hand
                self.rec = SimpleAnimation(draw, image_size=(w, h), frame_display_time=show['time'])
                with self.rec.next_step() as dc:
                    draw(dc, 0)
            else:
                self.rec = SimpleAnimation(draw, image_size=(w, h), steps=n - 1, frame_display_time=show['time'])
                if show['bg'] not in ('clear', 'many'):
                    self.rec.background = show['bg']
                self.rec.animate()
        else:
            if show['bg'] == 'many':
                # more colours than fit
                w, h = show['size'] = [40, 40]
                base = Image.new('RGBA', (w, h), 'white')
                base.putdata([(6 * x, 6 * y, 40 * ((x + y) % 5), 255) if x < 34 else (20, 30, 40, 255) for y in range(h) for x in range(w)])
                base.paste('white', (0, 0, 9, 9))
            else:
                base = Image.new('RGBA', (w, h), (0, 0, 0, 0) if show['bg'] == 'clear' else show['bg'])
            if show['top']:
                base.paste('lime', (0, 0, show['top'], 2))
            model = Group('g', PenBrush('black'))
            rect = ElemRectangle('r', PenBrush('red', 'red'), Point(0, 0), Point(0, 0))
            model.add('r', rect)
            anims = AnimationHolder()

            def at(t):
                return show['rects'][min(n - 1, int(t * n + 0.5))]

            def corner(far):
                def func(t, orig, point):
                    r = at(t)
                    if r:
                        rect.penbrush = PenBrush(r[4], r[4])
                    off = 14 if show['bg'] == 'many' else 0
                    return (off + r[0] + far * r[2], off + r[1] + far * r[3]) if r else (1e5 + far, 1e5 + far)
                return func
            anims.add(AnimationGeneric(rect.p1, corner(0)))
            anims.add(AnimationGeneric(rect.p2, corner(1)))
            if show['duration'] == 2.0:
                self.fresh = lambda: Builder(base, Transform(), model, anims)
            else:
                self.fresh = lambda: Builder(base, Transform(), model, anims, duration=show['duration'])
            self.rec = self.fresh()
            self.rec.build_all(n)
        self.note()

    def note(self):
        self.frames = [(im, im.mode, im.size, im.tobytes()) for im in self.rec.images]

    def check_untouched(self, what):
        now = self.rec.images
        expect(len(now) == len(self.frames) and all(im is f[0] for im, f in zip(now, self.frames)), 'frames-changed', '%s: the list of recorded frames changed', what)
        for k, (im, mode, size, data) in enumerate(self.frames):
            expect(im.mode == mode and im.size == size and im.tobytes() == data, 'frames-changed', '%s changed recorded frame %d', what, k)


def expected_builder(images, autocrop):
    size = images[0].size
    if autocrop:
        boxes = []
        for im in images:
            data, w = im.tobytes(), im.size[0]
            n = len(im.mode)
            on = [i // n for i in range(0, len(data), n) if (data[i+3] if n == 4 else any(data[i:i+3]))]
            if on:
                xs, ys = [i % w for i in on], [i // w for i in on]
                boxes.append((min(xs), min(ys), max(xs) + 1, max(ys) + 1))
        if boxes:
            xl, yl, xh, yh = (f(b[i] for b in boxes) for i, f in enumerate((min, min, max, max)))
        else:
            xl, yl, xh, yh = 0, 0, size[0], size[1]
        box = (max(0, xl - 16), max(0, yl - 16), min(size[0], xh + 16), min(size[1], yh + 16))
        images = [im.crop(box) for im in images]
        size = images[0].size
    out = []
    for im in images:
        small = im.resize((size[0] // 2, size[1] // 2), resample=Image.BICUBIC)
        if small.mode == 'RGBA':
            px = small.tobytes()
            out.append([(px[i], px[i+1], px[i+2]) if px[i+3] == 255 else (0, 0, 0) for i in range(0, len(px), 4)])
        else:
            px = small.tobytes()
            out.append([(px[i], px[i+1], px[i+2]) for i in range(0, len(px), 3)])
    return (size[0] // 2, size[1] // 2), out


def exact(show):
    """Frames that each last an exact number of centiseconds, or 9"""
    cs = round(100 * show['duration'])
    return max([n for n in range(10, len(show['rects']) + 1) if cs % n == 0 and cs >= 2*n], default=9)


def check_gif(data, what):
    try:
        got = gif.decode(data)
    except gif.BadGif as err:
        raise Violation('bad-file', '%s: the file cannot be read: %s (%d bytes)' % (what, err, len(data)))
    expect(got['loop'] == 0, 'not-looping', '%s: the animation does not loop for ever (%r)', what, got['loop'])
    return got


def check_simple(data, images, seconds, what):
    got = check_gif(data, what)
    expect(got['size'] == images[0].size, 'wrong-frames', '%s: stored size is %s, expected %s', what, got['size'], images[0].size)
    runs = []       # identical frames in a row
    for k, im in enumerate(images):
        px = im.convert('RGB').tobytes()
        if runs and runs[-1][0] == px:
            runs[-1][1] += 1
        else:
            runs.append([px, 1, k])
    frames = got['frames']
    i = 0
    for px, n, k in runs:
        # stored as one frame or as several equal ones
        total, m = 0, 0
        while m < n and i < len(frames):
            flat = bytes(v for p in frames[i][1] for v in p[:3])
            if any(p[3] != 255 for p in frames[i][1]) or flat != px and any(abs(a - b) > 14 for a, b in zip(flat, px)):
                break
            total += frames[i][0]
            m += 1
            i += 1
        expect(m > 0, 'wrong-frames', '%s: stored frame %d is not recorded frame %d (%d frames stored, %d recorded)', what, i, k, len(frames), len(images))
        want = seconds * 1000 * n
        expect(want - 10 * m - n < total <= want + 0.5, 'wrong-time', '%s: frames %d..%d are shown for %d ms, expected %.1f ms', what, k, k + n - 1, total, want)
    expect(i == len(frames), 'wrong-frames', '%s: %d frames stored, %d recorded', what, len(frames), len(images))


def near(a, b, tol):
    return abs(a[0]-b[0]) <= tol and abs(a[1]-b[1]) <= tol and abs(a[2]-b[2]) <= tol


def check_builder(data, images, autocrop, duration, what):
    size, want = expected_builder(images, autocrop)
    got = check_gif(data, what)
    expect(got['size'] == size, 'wrong-frames', '%s: stored size is %s, expected %s', what, got['size'], size)
    count = {}
    for f in want:
        for c in f:
            count[c] = count.get(c, 0) + 1
    ranks = sorted(count.values(), reverse=True)
    common = {c for c, n in count.items() if len(ranks) <= 180 or n > ranks[180]}
    ms = 1000 * duration / len(images)
    k = 0
    for i, (delay, px) in enumerate(got['frames']):
        n = max(1, int(delay / ms + 0.5))
        expect(k + n <= len(want), 'wrong-frames' if n == 1 else 'wrong-time', '%s: stored frame %d is shown for %d ms, after %d of %d frames', what, i, delay, k, len(want))
        expect(n * ms - 10 - n < delay <= n * ms + 0.5, 'wrong-time', '%s: stored frame %d is shown for %d ms, expected %.1f ms', what, i, delay, n * ms)
        for j in range(k, k + n):
            corner = want[j][0]
            for at, (p, w) in enumerate(zip(px, want[j])):
                if w not in common:
                    continue
                ok = near(p, w, 14) if p[3] else near(corner, w, 28) or near(want[0][0], w, 28)
                expect(ok, 'wrong-frames', '%s: stored frame %d is not recorded frame %d: pixel %d is %s, expected %s', what, i, j, at, p, w)
        k += n
    expect(k == len(want), 'wrong-frames', '%s: %d of %d frames stored', what, k, len(want))


def run(sc, stats):
    cfg = sc['config']
    sim = Sim()
    recs = {r: Recorder(r, cfg['shows'][r]) for r in cfg['recs'] if r in cfg['shows']}
    if not recs:
        return
    saves = 0
    for st in sc['steps']:
        r = recs.get(st['c'])
        if r is None:
            continue
        op = st['op']
        stats.step(st['c'], op)
        if op == 'record':
            r.record(st['show'])
            stats.sim_time += len(r.frames)
            continue
        if op == 'more':
            # record once more: the frames of a SimpleAnimation follow the others, those of a Builder replace them
            if r.simple and len(r.frames) < 12:
                r.more()
                r.note()
                stats.sim_time += len(r.frames)
            continue
        if op == 'time':
            r.show = dict(r.show, time=min(st['show']['time'], 600 / len(r.frames)))
            r.rec.frame_display_time = r.show['time']
            if r.simple or len(r.frames) <= 9:
                r.rec.duration = st['show']['duration']
            continue
        saves += 1
        if saves > 1:
            stats.nontrivial()
        fired = save(sim, r, st, saves, stats, op == 'images', op == 'run' and not r.simple and st['fault'] != 'alloc')
        stats.state([r.name[0], st['platform'], st['fault'], fired, len(r.frames), r.show['kind'], min(saves, 3)])
        stats.check()
    for r in recs.values():
        st = dict(platform='linux', fault=None, path='/sim/last-%s.gif' % r.name, autocrop=True, rgb=False, shell=0, exc='error', k=1, room=0)
        save(sim, r, st, saves + 1, stats, False)
        stats.check()


def save(sim, r, st, number, stats, own_images, whole=False):
    fs = sim.fs
    path = st['path']
    if r.name[0] == 'b' and path is None and st['platform'] == 'darwin':
        path = '/sim/a.gif'
    what = 'save %d of %s (%s, %s)' % (number, r.name, st['platform'], path)
    given = pathlib.PurePosixPath(path[5:]) if path and path.startswith('path:') else path
    fs.plan = fs.capacity = fs.was_full = None
    fs.lazy = st['k'] % 2 == 0
    sim.optimizer_fault = None
    kind = st['fault']
    if kind == 'optimizer' and st['platform'] != 'darwin':
        kind = None
    if kind in ('open', 'write', 'flush', 'close'):
        fs.plan = Plan(kind, st['k'] if kind == 'write' else 1 + st['k'] % 3, st['exc'])
    elif kind == 'full':
        fs.capacity = fs.used() + st['room']
    elif kind == 'optimizer':
        sim.optimizer_fault = types.SimpleNamespace(fired=None)
    sim.shell = st['shell']
    if kind:
        stats.plan(kind)
    kw = {}
    images = r.rec.images
    if not r.simple:
        duration = r.rec.duration
        autocrop = st['autocrop'] or whole
        if not autocrop or st['k'] % 3:
            kw['autocrop'] = autocrop
        if own_images:
            # the frames backwards, some of them, or one of them twice
            order = list(range(len(images)))[::-1]
            order = [order, order, order[:1 + st['k'] % len(order)], order + order[:1]][st['k'] % (4 if len(order) <= 9 else 2)]
            given_images = [im.convert('RGB') if st['rgb'] else im.copy() for im in images]
            images = [given_images[n] for n in order]     # (maybe the same image twice)
            kw['images'] = images
    shown_to = [len(sim.optimized), len(sim.commands)]
    error = None
    before = set(fs.files)
    with sim.mounted(st['platform']):
        alloc = Plan('alloc', st['k'], 'memory')
        with contextlib.ExitStack() as stack:
            if kind == 'alloc':
                old = Image.new

                def new(*args, **kwargs):
                    err = alloc.hit('alloc')
                    if err:
                        raise err
                    return old(*args, **kwargs)
                stack.enter_context(patched(Image, 'new', new))
            try:
                if whole:
                    r.rec = r.fresh()
                    r.rec.duration = duration
                    r.rec.run(len(r.frames), given)
                else:
                    r.rec.save_animation(given, **kw)
            except Exception as err:        # noqa
                error = err
            except SimInterrupt as err:
                error = err
    fs.abandon()
    injected = (fs.plan and fs.plan.fired) or fs.was_full or (sim.optimizer_fault and sim.optimizer_fault.fired) or alloc.fired
    expected_refusal = path is not None and ('/missing/' in path or path.endswith('noext')) or r.simple and st['platform'] not in ('linux', 'darwin')
    fs.plan = fs.capacity = None
    if injected:
        name = kind + '-' + st['exc'] if kind in ('open', 'write', 'flush', 'close') else kind
        stats.fault(name)
    if whole:
        # recorded again: the same frames
        stats.probe('run')
        images = r.rec.images
        expect(len(images) == len(r.frames), 'wrong-frames', '%s: run() recorded %d frames, expected %d', what, len(images), len(r.frames))
        for k, (im, f) in enumerate(zip(images, r.frames)):
            expect(im.mode == f[1] and im.size == f[2] and im.tobytes() == f[3], 'wrong-frames', '%s: frame %d of run() differs from the frame recorded for that step', what, k)
        r.note()
    r.check_untouched(what)
    if own_images and not r.simple:
        for k, im in enumerate(images):
            want = r.frames[order[k]][0]
            expect(im.tobytes() == (want.convert('RGB') if st['rgb'] else want).tobytes(), 'frames-changed', '%s changed given frame %d', what, k)
    if error is not None:
        stats.probe('reported-' + type(error).__name__)
        if not expected_refusal:
            expect(injected, 'save-failed', '%s failed though storage is fine: %s: %s', what, type(error).__name__, error)
            chain, e = [], error
            while e is not None and e not in chain:
                chain.append(e)
                e = e.__cause__ or e.__context__
            expect(injected in chain, 'error-hidden', '%s: the failure %r was reported as %r', what, injected, error)
            # a file that was saved before to the same place may be damaged; all others are not
        keys = {fs.key(given)} if given else set(fs.files) - before
        keys |= {k for k in fs.files if k.startswith('/tmp/')} | {fs.key(default_path(r))}
        for k in keys:
            sim.saved.pop(k, None)
        check_saved(sim, what)
        if injected and not expected_refusal:
            # the fault is gone: the same call gives the complete file
            st2 = dict(st, fault=None)
            stats.probe('saved-again')
            save(sim, r, st2, number, stats, own_images, whole)
        return bool(injected)
    key = fs.key(given if given else default_path(r))
    expect(not expected_refusal, 'error-hidden', '%s returned normally, though nothing can be stored there', what)
    expect(key in fs.files, 'not-stored', '%s returned normally, but there is no file %s', what, key)
    data = fs.files[key]
    what += ' (%s)' % ('after a fault that was not reported' if injected else 'no fault')
    if r.simple:
        check_simple(data, images, r.show['time'], what)
    else:
        check_builder(data, images, autocrop, duration, what)
    for src in sim.optimized[shown_to[0]:]:
        expect(src == key, 'not-stored', '%s: optimised %s, which is not its output', what, src)
    for k in [k for k in sim.saved if k.startswith('/tmp/')]:
        sim.saved.pop(k)
    sim.saved[key] = data
    check_saved(sim, what)
    stats.probe('saved-' + ('simple' if r.simple else 'builder'))
    return bool(injected)


def default_path(r):
    from x7.geom import anim, anim_simple
    return anim_simple.TMP_ANIM if r.simple else anim.TMP_ANIM


def check_saved(sim, what):
    for k, data in sim.saved.items():
        expect(sim.fs.files.get(k) == data, 'other-file', '%s changed the file %s', what, k)
