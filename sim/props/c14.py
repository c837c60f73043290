"""C14: the plot viewer under a virtual clock and a simulated window system"""
import heapq
import importlib
import sys
import tkinter

import matplotlib
from matplotlib.backends import backend_tkagg
from matplotlib.backends.backend_agg import FigureCanvasAgg

from ..core import Violation, expect, patched, pick
from ..faults import SimInterrupt, ERRORS, gen_exc, make_fault

RUNS = {'quick': 700, 'thorough': 60000}
RULE = ('A run opens 1-4 plot viewers on one simulated event loop (virtual clock; Tk and the canvas are stand-ins) with frame rates from 0.2 to 2000, and '
        'lets a seeded driver run the loop, stall it, jump the clock, close windows, open more viewers, and inject into update functions and the canvas: slow '
        'updates and draws, event processing in the middle of an update, errors, interrupts, the window closing itself. Each frame of each viewer must show the sequence '
        'empty axes, one update, one draw, one timer; non-trivial: several viewers, or at least one fault fired.')
REAL = ['x7.geom.plot_viewer.PlotViewer', 'x7.geom.utils.arc_animate', 'matplotlib Figure and Axes', 'Agg drawing in one run of 16']
STUB = ['tkinter.Tk (simulated window with after/update/destroy on a virtual clock)', 'FigureCanvasTkAgg (records draws; Agg without a window)']
STATE_MEASURE = '(pending timers per viewer, viewers alive, frame phase, faults armed)'
ASSUMPTIONS = ['Tk calls a callback once, not before its time, in order of time; closing a window drops its timers; an error in a callback is reported and the loop goes on',
               'one frame period is 1000/fps milliseconds, rounded to a whole number of them']

CUR = {}


class Loop(object):
    """The event loop shared by all windows of the process"""

    def __init__(self):
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self.cancelled = set()
        self.stop_at = None
        self.reported = []
        self.depth = 0

    def add(self, root, delay, cb, args):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0, delay), self.seq, root, cb, args))
        return 'after#%d' % self.seq

    def pending(self, root):
        return [(due, seq) for due, seq, r, cb, args in self.heap if r is root and seq not in self.cancelled]

    def drop(self, root):
        self.heap = [h for h in self.heap if h[2] is not root]
        heapq.heapify(self.heap)

    def run_due(self, limit=8):
        """Everything that is due by now.  Timers set meanwhile wait for the next turn."""
        last = self.seq
        while self.heap and self.heap[0][0] <= self.now and limit:
            if self.heap[0][1] > last:
                return
            due, seq, root, cb, args = heapq.heappop(self.heap)
            if seq in self.cancelled:
                continue
            limit -= 1
            self.call(root, cb, args)

    def call(self, root, cb, args):
        self.depth += 1
        try:
            cb(*args)
        except (Violation, SimInterrupt):
            raise
        except Exception as err:        # noqa - what Tk does: report, and go on
            self.reported.append((root, err))
        finally:
            self.depth -= 1
            self.now += 0.3         # no callback is for free

    def run(self, until, most=4):
        turns = 0
        while self.heap and self.heap[0][0] <= until and turns < most:
            turns += 1
            self.now = max(self.now, self.heap[0][0])
            self.run_due()
        self.now = max(self.now, until if turns < most else self.now)


class Widget(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kw: None


class FakeTk(Widget):
    def __init__(self, *args, **kw):
        self.loop = CUR['loop']
        self.alive = True
        self.timers = 0
        CUR['roots'].append(self)

    def _check(self):
        if not self.alive:
            raise tkinter.TclError('application has been destroyed')

    def after(self, ms, func=None, *args):
        self._check()
        if not isinstance(ms, int):
            raise tkinter.TclError('bad argument "%s": must be cancel, idle, info, or an integer' % (ms,))
        if func is None:
            self.loop.now += ms
            return None
        self.timers += 1
        CUR['on_after'](self, ms)
        return self.loop.add(self, ms, func, args)

    def after_idle(self, func, *args):
        self._check()
        return self.loop.add(self, 0, func, args)

    def after_cancel(self, ident):
        self._check()
        self.loop.cancelled.add(int(ident.partition('#')[2]))

    def update(self):
        self._check()
        self.loop.run_due(4)

    def mainloop(self, n=0):
        self._check()
        self.loop.run(CUR['until'])

    def destroy(self):
        self._check()
        self.alive = False
        self.loop.drop(self)

    def winfo_exists(self):
        return self.alive


class FakeCanvas(FigureCanvasAgg):
    def __init__(self, figure=None, master=None):
        super().__init__(figure)
        self.master = master
        self._tkcanvas = Widget()

    def get_tk_widget(self):
        return self._tkcanvas

    def draw(self):
        CUR['on_draw'](self)
        if CUR['real']:
            super().draw()

    def draw_idle(self, *args, **kw):
        self.master.after_idle(self.draw)


def load():
    with patched(matplotlib, 'use', lambda *a, **k: None), patched(tkinter, 'Tk', FakeTk), \
            patched(backend_tkagg, 'FigureCanvasTkAgg', FakeCanvas):
        if 'x7.geom.plot_viewer' in sys.modules:
            return importlib.reload(sys.modules['x7.geom.plot_viewer'])
        return importlib.import_module('x7.geom.plot_viewer')


plot_viewer = load()
utils = importlib.import_module('x7.geom.utils')

FPS = [0.2, 0.5, 1, 7, 12.5, 24, 25, 29.97, 30, 50, 60, 60, 60, 100, 144, 333, 1000, 2000]
ARTS = ['line', 'line', 'lines', 'title', 'text', 'patch', 'scatter', 'legend', 'limits', 'labels', 'nothing', 'log']
ACTS = ['slow', 'slow', 'slow', 'very-slow', 'pump', 'pump', 'error', 'error', 'interrupt', 'close-self', 'close-other', 'open', 'slow-draw', 'draw-error', 'jump']
OPS = ['run', 'run', 'run', 'run', 'run', 'mainloop', 'stall', 'jump', 'close', 'open', 'arm', 'arm', 'arm', 'arm', 'turn', 'turn', 'clear-by-user']


def gen(rng):
    steps = []
    for _ in range(rng.randint(3, 11)):
        op = rng.choice(OPS)
        s = dict(c='w%d' % rng.randrange(4), op=op, i=rng.randrange(100), d=rng.choice([0.01, 0.2, 0.9, 1, 1.5, 3, 10]))
        if op == 'open':
            s.update(viewer(rng))
        if op == 'arm':
            s.update(act=rng.choice(ACTS), after=rng.randrange(4), n=rng.choice([1, 1, 2, 5]), exc=gen_exc(rng))
        steps.append(s)
    cfg = dict(viewers=[viewer(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))], real=rng.random() < 1/16)
    if rng.random() < 1/60:
        cfg.update(viewers=[dict(viewer(rng), fps=rng.choice([1, 24, 60]), example=False, given=True)], real=False, arcs=rng.choice([130, 250]))
        steps = [s for s in steps[:4] if s['d'] < 3]
    elif rng.random() < 1/120:
        # a long show
        cfg.update(viewers=[dict(viewer(rng), fps=rng.choice([24, 60]), example=False, given=True, art=[rng.choice(['line', 'title', 'patch'])])], real=False)
        steps = [dict(c='w0', op='run', i=0, d=280, turns=300)] + [s for s in steps[:3] if s['d'] < 3]
    return dict(config=cfg, steps=steps)


def viewer(rng):
    return dict(fps=rng.choice(FPS) if rng.random() < 0.8 else round(rng.uniform(0.5, 500), 3), given=rng.random() < 0.9,
                example=rng.random() < 0.25, art=[rng.choice(ARTS) for _ in range(rng.randint(1, 3))])


def content(ax):
    """What the axes show: kind and identity of artists added by someone"""
    return dict(lines=list(ax.lines), patches=list(ax.patches), texts=list(ax.texts), collections=list(ax.collections), images=list(ax.images),
                tables=list(ax.tables), artists=list(ax.artists))


def leftovers(ax):
    out = [k for k, v in content(ax).items() if v]
    if ax.get_title() or ax.get_xlabel() or ax.get_ylabel():
        out.append('labels')
    if ax.get_legend() is not None:
        out.append('legend')
    if ax.get_xscale() != 'linear':
        out.append('scale')
    return out


class View(object):
    def __init__(self, world, spec, n):
        self.world = world
        self.spec = spec
        self.name = 'viewer%d' % n
        self.real = None
        self.root = None
        self.ax = None
        self.frames = 0
        self.done = 0                # frames that got their timer
        self.events = []             # of the current frame
        self.due = None              # when the pending refresh is due
        self.broken = False          # its chain was cut by a fault
        self.busy = False
        self.placed = None
        self.phase = []
        self.armed = []

    # --- seams
    def update(self, ax):
        w = self.world
        if self.root is None:
            self.root = w.roots[-1]
        w.stats.step(self.name, 'update')
        expect(not self.busy, 'overlap', '%s: a refresh started within another of the same viewer', self.name)
        expect(self.events == [], 'order', '%s: update called again after %s in one refresh', self.name, self.events)
        if self.ax is None:
            self.ax = ax
        expect(ax is self.ax, 'other-axes', '%s: update got other axes', self.name)
        left = leftovers(ax)
        expect(not left, 'stale-plot', '%s: frame %d starts with %s of an earlier frame', self.name, self.frames, left)
        if self.due is not None:
            expect(w.loop.now >= self.due, 'early', '%s: refresh at %.1f ms, due at %.1f', self.name, w.loop.now, self.due)
        w.stats.check(3)
        self.events.append('update')
        self.frames += 1
        self.due = None
        self.busy = True
        try:
            self.paint(ax)
            self.fault(('slow', 'very-slow', 'pump', 'error', 'interrupt', 'close-self', 'close-other', 'open', 'jump'))
        except BaseException:
            self.broken = True
            raise
        finally:
            self.busy = False
        self.placed = content(ax)

    def paint(self, ax):
        n = self.frames
        for a in self.spec['art']:
            if a == 'line':
                ax.plot([0, 1, 2], [n, 1, n % 3], label='l')
            elif a == 'lines':
                for i in range(3):
                    ax.plot([i, n], [0, i])
            elif a == 'title':
                ax.set_title('frame %d' % n)
            elif a == 'text':
                ax.text(0.5, 0.5, 't%d' % n)
            elif a == 'patch':
                ax.add_patch(matplotlib.patches.Circle((n, 0), 1))
            elif a == 'scatter':
                ax.scatter([0, 1], [n, 2])
            elif a == 'legend':
                ax.plot([0, 1], [1, 0], label='x')
                ax.legend()
            elif a == 'limits':
                ax.set_xlim(-n, n)
            elif a == 'labels':
                ax.set_xlabel('x%d' % n)
            elif a == 'log':
                ax.set_xscale('symlog')

    def fault(self, kinds):
        w = self.world
        for f in list(self.armed):
            if f['act'] not in kinds:
                continue
            f['after'] -= 1
            if f['after'] >= 0:
                continue
            f['n'] -= 1
            if f['n'] <= 0:
                self.armed.remove(f)
            act = f['act']
            w.stats.fault(act)
            if act in ('slow', 'slow-draw'):
                w.loop.now += f['d'] * 1000.0 / self.spec['fps']
            elif act == 'very-slow':
                w.loop.now += 5000
            elif act == 'jump':
                w.loop.now += 60000
            elif act == 'pump':
                if self.root.alive and w.loop.depth < 4:
                    busy, self.busy = self.busy, True
                    try:
                        self.root.update()
                    finally:
                        self.busy = busy
            elif act == 'error':
                raise make_fault(f.get('exc'))
            elif act == 'draw-error':
                self.broken = True
                raise make_fault(f.get('exc'))
            elif act == 'interrupt':
                raise SimInterrupt('interrupt')
            elif act == 'close-self':
                self.broken = True
                self.root.destroy()
            elif act == 'close-other':
                o = pick(w.views, f['i'])
                if o is not self and o.root is not None and o.root.alive:
                    o.root.destroy()
                    o.broken = True
            elif act == 'open':
                if len(w.views) < 6:
                    w.open(dict(fps=30, given=True, example=False, art=['line', 'title']))

    def draw(self, canvas):
        self.world.stats.step(self.name, 'draw')
        if not self.spec['example']:
            expect(self.events == ['update'], 'order', '%s: draw after %s', self.name, self.events)
            now = content(self.ax)
            expect(now == self.placed, 'not-this-frame', '%s: frame %d draws something else than its update placed', self.name, self.frames)
            expect(self.ax in canvas.figure.axes, 'other-figure', '%s: the drawn figure lacks the axes of the viewer', self.name)
        else:
            self.example_draw(canvas)
        self.world.stats.check(2)
        self.events.append('draw')
        self.fault(('slow-draw', 'draw-error'))

    def example_draw(self, canvas):
        """Without an update function: one curve that moves with every frame"""
        expect(self.events == [], 'order', '%s: draw after %s', self.name, self.events)
        self.frames += 1
        if self.due is not None:
            expect(self.world.loop.now >= self.due, 'early', '%s: refresh at %.1f, due %.1f', self.name, self.world.loop.now, self.due)
        self.due = None
        ax = canvas.figure.axes[0]
        expect(len(canvas.figure.axes) == 1 and len(ax.lines) == 1, 'example', '%s: the example shows %d curves', self.name, len(ax.lines))
        xy = [tuple(map(float, p)) for p in ax.lines[0].get_xydata()]
        expect(len(xy) > 10, 'example', '%s: the example has %d points', self.name, len(xy))
        expect(all(xy != p for p in self.phase[-3:]), 'example', '%s: the example does not move', self.name)
        self.phase.append(xy)
        self.events.append('update')

    def after(self, ms):
        w = self.world
        w.stats.step(self.name, 'after')
        expect(self.events == ['update', 'draw'], 'order', '%s: refresh requested after %s', self.name, self.events)
        expect(abs(ms - 1000.0 / self.spec['fps']) <= 0.5 + 1e-9, 'period', '%s: next refresh in %s ms at %s fps', self.name, ms, self.spec['fps'])
        expect(not w.loop.pending(self.root), 'two-timers', '%s: a refresh was pending already', self.name)
        w.stats.check(3)
        self.events = []
        self.due = w.loop.now + ms
        self.done += 1


class ArcView(View):
    """The arc example of x7.geom.utils: two pairs of arcs that turn with every frame"""

    def example_draw(self, canvas):
        expect(self.events == [], 'order', '%s: draw after %s', self.name, self.events)
        self.frames += 1
        if self.due is not None:
            expect(self.world.loop.now >= self.due, 'early', '%s: refresh at %.1f, due %.1f', self.name, self.world.loop.now, self.due)
        self.due = None
        ax = canvas.figure.axes[0]
        xy = [line.get_xydata().tolist() for line in ax.lines]
        if len(self.phase) > 0:
            expect(len(canvas.figure.axes) == 1 and len(xy) == len(self.phase[-1]), 'example', '%s: frame %d of the arc example has %d curves, before %d',
                   self.name, self.frames, len(xy), len(self.phase[-1]))
            expect(xy != self.phase[-1], 'example', '%s: the arc example does not turn', self.name)
        expect(all(v == v for line in xy for p in line for v in p), 'example', '%s: the arc example has points nowhere', self.name)
        self.phase = [xy]
        self.events.append('update')


class World(object):
    def __init__(self, stats):
        self.stats = stats
        self.loop = Loop()
        self.roots = []
        self.views = []
        self.opened = 0

    def by_root(self, root):
        return [v for v in self.views if v.root is root]

    def on_after(self, root, ms):
        for v in self.by_root(root) or [v for v in self.views if v.root is None]:
            v.root = root
            v.after(ms)
            return
        raise Violation('unknown-window', 'a refresh was requested of a window no viewer has')

    def on_draw(self, canvas):
        vs = self.by_root(canvas.master)
        if not vs:
            vs = [v for v in self.views if v.root is None]
            vs[-1].root = canvas.master
        vs[-1].draw(canvas)

    def open(self, spec):
        v = View(self, spec, len(self.views))
        self.views.append(v)
        self.opened += 1
        before = len(self.roots)
        if spec['example']:
            v.real = plot_viewer.PlotViewer(None, fps=spec['fps'])
        elif spec['given']:
            v.real = plot_viewer.PlotViewer(v.update, fps=spec['fps'])
        else:
            spec['fps'] = 60.0
            v.real = plot_viewer.PlotViewer(v.update)
        expect(len(self.roots) >= before + 1, 'no-window', '%s opened no window', v.name)
        expect(v.frames == 1, 'no-first-frame', '%s: %d frames after opening', v.name, v.frames)
        return v

    def arcs(self, frames):
        """The arc example runs until the loop is left"""
        v = ArcView(self, dict(fps=60.0, given=False, example=True, art=[]), len(self.views))
        self.views.append(v)
        v.real = None
        end = self.loop.now + frames * 17.5
        reported = len(self.loop.reported)
        CUR['until'] = self.loop.now
        utils.arc_animate()
        while self.loop.now < end and v.frames < frames:
            self.loop.now = max(self.loop.now, self.loop.pending(v.root)[0][0]) if self.loop.pending(v.root) else end
            self.loop.run_due()
        expect(not [e for r, e in self.loop.reported[reported:] if r is v.root], 'example', '%s: the arc example failed after %d frames: %s', v.name, v.frames,
               [e for r, e in self.loop.reported[reported:]][:1])
        expect(v.frames >= frames - 8, 'stopped', '%s: the arc example stopped after %d frames', v.name, v.frames)
        self.stats.probe('arc example')

    def invariant(self):
        """Between events: a living, unbroken viewer has exactly one refresh pending, all others none"""
        for v in self.views:
            if v.root is None:
                continue
            n = len(self.loop.pending(v.root))
            if v.broken or not v.root.alive:
                expect(n <= 1, 'many-timers', '%s: %d refreshes pending after a failure', v.name, n)
                if not v.root.alive:
                    expect(n == 0, 'closed-timer', '%s: refresh pending though closed', v.name)
            else:
                expect(n == 1, 'not-one-timer', '%s: %d refreshes pending between frames (frame %d)', v.name, n, v.frames)
                expect(v.done == v.frames, 'unfinished', '%s: %d frames but %d completed', v.name, v.frames, v.done)
        self.stats.check(len(self.views))
        self.stats.state([(len(self.loop.pending(v.root)) if v.root else -1, v.broken, bool(v.root and v.root.alive), min(v.frames, 4), [f['act'] for f in v.armed])
                          for v in self.views])


def guarded(w, fn):
    """Errors of update functions reach whoever started the refresh"""
    try:
        fn()
    except SimInterrupt:
        w.stats.probe('interrupt reached the caller')
    except ERRORS:
        w.stats.probe('error reached the caller')
    except tkinter.TclError:
        w.stats.probe('closed window reached the caller')


def run(sc, stats):
    with patched(tkinter, 'Tk', FakeTk):
        simulate(sc, stats)


def simulate(sc, stats):
    cfg = sc['config']
    w = World(stats)
    CUR.update(loop=w.loop, roots=w.roots, on_after=w.on_after, on_draw=w.on_draw, real=cfg['real'], until=0)
    for spec in cfg['viewers'][:4]:
        w.open(dict(spec))
    w.invariant()
    if cfg.get('arcs'):
        w.arcs(cfg['arcs'])
        w.invariant()
    if len(w.views) > 1:
        stats.nontrivial()
    for s in sc['steps']:
        op, live = s['op'], [v for v in w.views if v.root is not None and v.root.alive]
        stats.step(s['c'], op)
        t0 = w.loop.now
        if op == 'open':
            if len(w.views) < 6:
                w.open(dict(fps=s['fps'], given=s['given'], example=s['example'], art=s['art']))
        elif not live:
            continue
        elif op in ('run', 'mainloop'):
            v = pick(live, s['i'])
            before = {x.name: (x.frames, x.broken, x.root.alive, bool(x.armed), len(w.views)) for x in live}
            CUR['until'] = w.loop.now + s['d'] * 1000.0 / v.spec['fps']
            if op == 'run':
                guarded(w, lambda: w.loop.run(CUR['until'], s.get('turns', 4)))
            else:
                guarded(w, v.real.mainloop if v.real else v.root.mainloop)
            progress(w, live, before, t0)
        elif op == 'turn':
            if w.loop.heap:
                w.loop.now = max(w.loop.now, w.loop.heap[0][0])
                guarded(w, lambda: w.loop.run_due(1))
        elif op == 'stall':
            w.loop.now += s['d'] * 1000
            stats.fault('stalled event loop')
        elif op == 'jump':
            w.loop.now += 3600e3 * s['d']
            stats.fault('clock jump')
        elif op == 'close':
            v = pick(live, s['i'])
            v.root.destroy()
            stats.fault('window closed')
        elif op == 'arm':
            v = pick(live, s['i'])
            stats.plan(s['act'])
            if not v.spec['example'] or s['act'] in ('slow-draw', 'draw-error'):
                v.armed.append(dict(act=s['act'], after=s['after'], n=s['n'], d=s['d'], i=s['i'], exc=s.get('exc')))
        elif op == 'clear-by-user':
            v = pick(live, s['i'])
            if v.ax is not None:
                v.ax.plot([0, 1], [0, 1])           # somebody draws between two frames
                v.ax.set_title('user')
                stats.probe('axes used between frames')
        stats.sim_time += min(w.loop.now - t0, 1e7) / 1000.0
        w.invariant()
    for root, err in w.loop.reported:
        stats.event(type(err).__name__)
    # Liveness: with faults over, every living, unbroken viewer gets its next frame within one period
    for v in w.views:
        v.armed = []
    live = [v for v in w.views if v.root is not None and v.root.alive and not v.broken]
    slow = max([1000.0/v.spec['fps'] for v in live] or [0])
    quick = min([max(1, 1000.0/v.spec['fps']) for v in live] or [1])
    if slow / quick < 10:
        frames = [v.frames for v in live]
        for _ in range(60):
            if all(v.frames > f for v, f in zip(live, frames)) or not w.loop.heap:
                break
            w.loop.now = max(w.loop.now, w.loop.heap[0][0])
            guarded(w, w.loop.run_due)
            w.invariant()
        for v, f in zip(live, frames):
            expect(v.frames > f, 'stopped', '%s stopped refreshing after %d frames', v.name, f)
    stats.check(len(live))


def progress(w, live, before, t0):
    """On an undisturbed loop a viewer gets one frame per period"""
    dt = w.loop.now - t0
    for v in live:
        frames, broken, alive, armed, nviews = before[v.name]
        if any(before[x.name][3] for x in live) or len(w.views) != nviews or broken or not v.root.alive:
            continue
        period = round(1000.0 / v.spec['fps'])
        if period < 2:
            continue
        got = v.frames - frames
        w.stats.check()
        expect(got <= dt / (period - 0.5) + 1.001, 'too-many', '%s: %d frames in %.0f ms at %s fps', v.name, got, dt, v.spec['fps'])
