"""C15: plot-comparison blocks with faults anywhere inside"""
import contextlib
import io
import sys

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from PIL import Image
from x7.testing.support import RecordedData, RecordedDataModule, Pickler

from ..core import Violation, SimFault, expect, patched, pick
from ..faults import SimInterrupt, USUAL
from x7.geom.testing import TestCaseGeomExtended

RUNS = {'quick': 1600, 'thorough': 150000}
RULE = ('A run is a seeded history of 3-9 plot blocks (some nested, some with other figures open, settings changed by the user, in recording and in comparing mode) over '
        'an in-memory record, with faults in the body, the n-th rendering or image operation, the comparison, the store and the mismatch display. A reference '
        'pyplot state is compared after every block. Non-trivial: a fault fired or a mismatch was reported.')
REAL = ['x7.geom.testing.TestCaseGeomExtended.assertMatchPlot', 'matplotlib with the Agg backend (small figures)', 'Pillow', 'x7.testing matching']
STUB = ['record store: in memory (files are not touched), failing on demand', 'Image.show (the mismatch display)']
STATE_MEASURE = '(open figures, nesting depth, mode, kind of block outcome, fault)'
ASSUMPTIONS = ['blocks of one process are properly nested', 'a block works on the current figure of pyplot, as plt.show() would',
               'drawings of the catalogue are distinguishable at the shrink factors used (checked when the catalogue is loaded)']

FILES = {}


class MemoryModule(RecordedDataModule):
    """Recorded data that never touches a file"""

    def load(self):
        self.data = {}
        self.new = False
        self.fault = None

    def save(self):
        self.modified = False

    def get(self, cls, func, case):
        hit(self.fault, 'get')
        return super().get(cls, func, case)

    def put(self, cls, func, case, new_data, patch=False):
        hit(self.fault, 'put')
        super().put(cls, func, case, new_data, patch)


class Case(TestCaseGeomExtended):
    SAVE_MATCH = False

    def runTest(self):
        pass

    def match(self, new_data, case='0', func=None, cls=None, matcher=None):
        if CUR.get('nesting') is not None:
            CUR['seen'].append((new_data.size, new_data.mode, dict(new_data.info)))
            hit(CUR['fault'], 'match')
            if CUR['fault'] and CUR['fault']['at'] == 'match-error' and not CUR['fault']['fired']:
                fire(CUR['fault'])
                return ValueError('cannot compare')
        return super().match(new_data, case, func, cls, matcher)


CUR = {}


def fire(f):
    f['fired'] = True
    CUR['stats'].fault('%s (%s)' % (f['at'], f['kind']))


def hit(f, at):
    if f and f['at'] == at and not f['fired']:
        f['count'] -= 1
        if f['count'] <= 0:
            fire(f)
            raise f['error']


def error(kind):
    if kind in USUAL and kind not in ('os', 'assertion'):
        return USUAL[kind]('injected')
    if kind == 'stop':
        return StopIteration('injected')
    return dict(fault=SimFault('injected'), interrupt=SimInterrupt('injected'), memory=MemoryError('injected'), os=OSError(28, 'injected'),
                assertion=AssertionError('assertion of the test'), skip=__import__('unittest').SkipTest('injected'))[kind]


# -------------------------------------------------------------- drawings: clearly different from each other
def pic_line():
    plt.plot([0, 1], [0, 1], linewidth=8, color='red')


def pic_anti():
    plt.plot([0, 1], [1, 0], linewidth=8, color='blue')


def pic_fill():
    plt.fill([0, 4, 4, 0], [0, 0, 3, 3], color='green')


def pic_tri():
    plt.fill([0, 4, 2], [0, 0, 3], color='black')


def pic_title():
    plt.fill([0, 4, 2], [0, 0, 3], color='black')
    plt.title('MMMMMMMMMM', fontsize=40, color='red')


def pic_title_first():
    plt.title('WWWW', fontsize=60, color='red')
    plt.fill([0, 4, 4, 0], [0, 0, 3, 3], color='green')


def pic_two():
    plt.plot([0, 0], [0, 2], linewidth=10, color='orange')
    plt.plot([0, 2], [0, 0], linewidth=10, color='purple')


def pic_blank():
    plt.gca()


PICS = [pic_line, pic_anti, pic_fill, pic_tri, pic_title, pic_title_first, pic_two, pic_blank]
SHRINKS = [1, 2, 3]
KEYS = [k for k in matplotlib.rcParams if k.partition('.')[0] in ('axes', 'figure', 'savefig', 'font', 'text', 'lines', 'xtick', 'ytick')]
DPI = 25
OPS = ['block', 'block', 'block', 'block', 'block', 'block', 'nested', 'figure', 'close-figure', 'setting', 'current', 'helper']
FAULT_AT = ['body', 'body', 'body-end', 'savefig', 'open', 'convert', 'resize', 'get', 'get', 'match', 'match-error', 'show', 'put', 'ordinary-draw']
KINDS = ['fault', 'fault', 'interrupt', 'memory', 'os', 'assertion', 'skip', 'usual', 'usual', 'stop']
OTHERS = sorted(set(USUAL) - {'assertion'})


def gen_block(rng, depth=0):
    b = dict(pic=rng.randrange(len(PICS)), shrink=rng.choice(SHRINKS), case='c%d' % rng.randrange(3), func=rng.choice([None, 'fa', 'fb']),
             save=rng.random() < 0.2, new_figure=rng.choice([0, 0, 0, 1, 2]), fault=None, nested=None, inner=None)
    if rng.random() < 0.5:
        b['fault'] = dict(at=rng.choice(FAULT_AT), kind=rng.choice(KINDS), n=rng.randint(1, 2))
        if b['fault']['kind'] == 'usual':
            b['fault']['kind'] = rng.choice(OTHERS)
        if b['fault']['kind'] == 'stop' and not b['fault']['at'].startswith('body'):
            b['fault']['kind'] = 'fault'
    r = rng.random()
    if rng.random() < 0.15 and not depth:
        b['early'] = {'axes.titley': rng.choice([None, 0.7]), 'axes.titlepad': rng.choice([6.0, 1.0])}
    if r < 0.1:
        b['inner'] = rng.choice(['titlepad', 'titley', 'rc_context', 'titlepad-left', 'titley-left'])
    if depth == 0 and rng.random() < 0.25 or depth == 1 and rng.random() < 0.2:
        b['nested'] = gen_block(rng, depth + 1)
        b['where'] = rng.choice(['before', 'after', 'middle'])
    return b


def gen(rng):
    steps = []
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(OPS)
        s = dict(c=rng.choice(['test-a', 'test-b', 'user']), op=op, i=rng.randrange(20))
        if op in ('block', 'nested', 'helper'):
            s['block'] = gen_block(rng)
        if op == 'setting':
            s.update(titley=rng.choice([None, 0.5, 1.1]), titlepad=rng.choice([6.0, 0.0, 12.5]), titleloc=rng.choice(['left', 'right', 'center']))
        steps.append(s)
    return dict(config=dict(titley=rng.choice([None, None, 0.9]), titlepad=rng.choice([6.0, 6.0, 3.0]), open=rng.choice([0, 0, 1, 3]),
                            record=rng.random() < 0.8), steps=steps)


# -------------------------------------------------------------- reference images
REF = {}


def reference(pic, shrink):
    """The picture as a test author expects it: title inside, no axes, the whole figure, shrunk"""
    key = (pic, shrink)
    if key not in REF:
        if (pic, 0) not in REF:
            with matplotlib.rc_context({'axes.titley': 1.0, 'axes.titlepad': -20}):
                fig = plt.figure()
                PICS[pic]()
                plt.gca().axis('off')
                plt.gca().axis('equal')
                fig.subplots_adjust(0, 0, 1, 1)
                buf = io.BytesIO()
                fig.savefig(buf, format='png')
                plt.close(fig)
            buf.seek(0)
            REF[pic, 0] = Image.open(buf).convert('RGB')
        im = REF[pic, 0]
        REF[key] = im.resize((im.size[0] // shrink, im.size[1] // shrink))
        REF[key].info = {}
    return REF[key]


def titles_visible():
    """The title is part of the expected picture"""
    for shrink in SHRINKS:
        px = list(reference(PICS.index(pic_title), shrink).getdata())
        assert any(r > g + 40 for r, g, b in px)
        ims = [reference(p, shrink).tobytes() for p in range(len(PICS))]
        assert len(set(ims)) == len(ims)


class World(object):
    def __init__(self, stats, cfg):
        self.stats = stats
        self.case = Case()
        self.mod = MemoryModule(Case.__module__, Pickler(Case.PICKLERS))
        RecordedData.data[Case.__module__] = self.mod
        self.figs = []          # figures that must be open, oldest first
        self.current = None
        self.stored = {}        # key -> picture name or None when unknown
        self.depth = 0
        self.sure = True        # the model knows which figure is current

    def settings(self):
        return plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad']

    def all_settings(self):
        return {k: plt.rcParams[k] for k in KEYS}


@contextlib.contextmanager
def seams(f):
    """Failing library calls.  Only calls made by the code under test count, i.e. those of the outermost block being left."""
    def wrap(fn, at):
        def inner(*args, **kw):
            if CUR.get('nesting') is not None:
                hit(CUR['fault'], at)
            return fn(*args, **kw)
        return inner

    def show(self, *args, **kw):
        CUR['shown'] += 1
        hit(CUR['fault'], 'show')

    with contextlib.ExitStack() as st:
        st.enter_context(patched(Image.Image, 'show', show))
        st.enter_context(patched(plt, 'savefig', wrap(plt.savefig, 'savefig')))
        st.enter_context(patched(matplotlib.figure.Figure, 'savefig', wrap(matplotlib.figure.Figure.savefig, 'ordinary-draw')))
        st.enter_context(patched(Image, 'open', wrap(Image.open, 'open')))
        st.enter_context(patched(Image.Image, 'convert', wrap(Image.Image.convert, 'convert')))
        st.enter_context(patched(Image.Image, 'resize', wrap(Image.Image.resize, 'resize')))
        yield


def block(w, b):
    """One assertMatchPlot block.  Returns ('ok'|'mismatch'|'error', exception)"""
    stats = w.stats
    fault = None
    if b['fault']:
        fault = dict(at=b['fault']['at'], kind=b['fault']['kind'], count=b['fault']['n'], error=error(b['fault']['kind']), fired=False)
        if fault['at'] in ('body', 'body-end', 'match', 'savefig', 'match-error', 'show', 'get', 'put'):
            fault['count'] = 1
        stats.plan(fault['at'])
    before = w.all_settings()
    figs_before = plt.get_fignums()
    kw = dict(shrink=b['shrink'], case=b['case'])
    if b['func']:
        kw['func'] = b['func']
    Case.SAVE_MATCH = bool(b['save'])
    key = (b['func'] or 'enter_block', b['case'])
    state = dict(created=[], inner=[], pic=True)
    outer_cur = {k: CUR.get(k) for k in ('nesting', 'fault', 'shown', 'seen')}
    CUR.update(nesting=None, fault=fault, shown=0, seen=[], stats=stats)
    w.mod.fault = fault
    raised = [None]
    w.depth += 1

    def body():
        expect(plt.get_fignums() == figs_before, 'figures', 'figures %s are open on entering the block, %s were before', plt.get_fignums(), figs_before)
        for _ in range(b['new_figure']):
            state['created'].append(plt.figure().number)
        if b['nested'] and b['where'] == 'before':
            nested()
        hit(fault, 'body')
        if b['inner'] == 'titlepad':
            plt.rcParams['axes.titlepad'] = 33
            plt.rcParams['axes.titlepad'] = -20
        elif b['inner'] == 'titley':
            plt.rcParams['axes.titley'] = 1.0
        if b['inner'] == 'rc_context':
            with plt.rc_context({'axes.titley': 0.2}):
                pass
        expect(w.settings() == (1.0, -20), 'settings-inside', 'titles are placed at %s within the block', w.settings())
        if not plt.get_fignums():
            state['created'].append(plt.figure().number)
        if b['nested'] and b['where'] == 'middle':
            nested()
            if not plt.get_fignums():
                state['created'].append(plt.figure().number)
        # (a title somewhere else makes it another picture)
        state['plain'] = not plt.gcf().axes and (plt.rcParams['axes.titlelocation'] == 'center' or PICS[b['pic']] not in (pic_title, pic_title_first))
        PICS[b['pic']]()
        if b['nested'] and b['where'] == 'after':
            nested()
        if b['inner'] == 'titlepad-left':
            plt.rcParams['axes.titlepad'] = 12
        elif b['inner'] == 'titley-left':
            plt.rcParams['axes.titley'] = 0.5
        hit(fault, 'body-end')
        state['at_exit'] = plt.get_fignums()
        state['compared'] = plt.gcf().number if plt.get_fignums() else None
        w.mod.fault = fault
        CUR.update(nesting=True, fault=fault, seen=[], shown=0)
        Case.SAVE_MATCH = bool(b['save'])

    def nested():
        out = block(w, b['nested'])
        state['inner'].append(out[0])
        CUR.update(nesting=None, fault=fault, shown=0, seen=[])
        w.mod.fault = fault
        expect(w.settings() == (1.0, -20), 'nested-settings', 'a nested block left titles at %s within the outer block', w.settings())

    def body_guard():
        try:
            body()
        except BaseException as err:
            raised[0] = err
            state['at_exit'] = plt.get_fignums()
            state['compared'] = plt.gcf().number if state['at_exit'] else None
            raise

    old_data = dict(w.mod.data)
    outcome, exc = 'ok', None
    try:
        enter_block(w.case, kw, body_guard, before, b.get('early'))
    except Violation:
        raise
    except w.case.failureException as err:
        outcome, exc = 'mismatch', err
    except BaseException as err:      # noqa
        if type(err).__name__ == 'RunTimeout':
            raise
        outcome, exc = 'error', err
    finally:
        w.depth -= 1
    seen, shown = CUR['seen'], CUR['shown']
    CUR.update(outer_cur)
    CUR['stats'] = stats
    # --- what must hold whatever happened
    what = 'block %s/%s with fault %s' % (key[0], key[1], fault and (fault['at'], fault['kind'], fault['fired']))
    now = w.all_settings()
    expect(now == before, 'settings-leaked', '%s left other settings than before: %s', what, [(k, before[k], now[k]) for k in KEYS if now[k] != before[k]])
    figs = plt.get_fignums()
    stats.check(4)
    stats.state([len(figs), w.depth, bool(b['save']), outcome, fault and fault['at'], fault and fault['fired'], b['new_figure'], bool(b['nested'])])
    if raised[0] is not None:
        expect(exc is raised[0], 'error-hidden', '%s: the body raised %r, the test sees %r', what, raised[0], exc)
        expect(w.mod.data == old_data or b['nested'], 'recorded-incomplete', '%s: a plot was recorded though its block failed', what)
        # the current figure goes with the block; one that was there before may stay
        want = [n for n in state['at_exit'] if n != state['compared']]
        if state['compared'] in figs_before and figs == state['at_exit']:
            want = figs
        expect(figs == want, 'figures', '%s: figures %s are open after the failed block, should be %s (current was %s)', what, figs, want, state['compared'])
        stats.check(3)
        return 'error', exc
    # the body ran to its end: the compared figure is closed, all others are still there
    compared = state['compared']
    want = [n for n in state['at_exit'] if n != compared]
    expect(figs == want, 'figures', '%s: figures %s are open, should be %s (compared %s)', what, figs, want, compared)
    fired = fault is not None and fault['fired']
    if fired and fault['at'] == 'match-error':
        expect(isinstance(exc, ValueError), 'fault-hidden', '%s: the comparison could not be done, the test sees %r', what, exc)
    elif fired:
        expect(exc is not None, 'fault-hidden', '%s: passed', what)
        expect(exc is fault['error'] or exc.__context__ is fault['error'] or exc.__cause__ is fault['error'], 'fault-hidden', '%s: the test sees %r', what, exc)
    elif b['save']:
        expect(exc is None, 'record-failed', '%s: recording failed: %r', what, exc)
        got = w.mod.data.get(w.mod._key(type(w.case), key[0], key[1]))
        expect(isinstance(got, Image.Image), 'not-recorded', '%s: nothing recorded', what)
        if state['plain'] and not state['inner']:
            expect(same(got, reference(b['pic'], b['shrink'])), 'wrong-picture', '%s: the recorded picture is not what was plotted (%s)', what, PICS[b['pic']].__name__)
            w.stored[key] = (b['pic'], b['shrink'])
        else:
            w.stored[key] = None
        stats.check(2)
    else:
        expect(w.mod.data == old_data or b['nested'], 'recorded-on-compare', '%s: comparing changed the record', what)
        if key not in w.stored:
            expect(outcome == 'mismatch', 'no-record', '%s: nothing is recorded, but the test sees %r', what, exc)
        elif w.stored[key] and state['plain'] and not state['inner']:
            if w.stored[key] == (b['pic'], b['shrink']):
                expect(exc is None, 'false-mismatch', '%s: same plot (%s) as recorded, but %s', what, PICS[b['pic']].__name__, str(exc)[:200])
                expect(shown == 0, 'shown-on-match', '%s: a match was displayed', what)
            else:
                expect(outcome == 'mismatch', 'mismatch-hidden', '%s: recorded %s, plotted %s, but the test sees %r', what, w.stored[key],
                       (PICS[b['pic']].__name__, b['shrink']), exc)
                stats.nontrivial()
                stats.probe('mismatch reported')
        stats.check(2)
    return outcome, exc


def same(a, b):
    return a.mode == b.mode and a.size == b.size and a.tobytes() == b.tobytes()


def enter_block(case, kw, body, before, early):
    """Names the record when no func is given"""
    block = case.assertMatchPlot(**kw)
    if early:
        # the block is made before the settings are what they are when it is entered
        before.update(early)
        plt.rcParams.update(early)
    with block:
        body()


def run(sc, stats):
    cfg = sc['config']
    CUR.clear()
    CUR.update(stats=stats)
    rc = {'figure.dpi': DPI, 'savefig.dpi': 'figure', 'figure.max_open_warning': 0, 'axes.titley': cfg['titley'], 'axes.titlepad': cfg['titlepad']}
    plt.close('all')
    if not REF:
        with matplotlib.rc_context({'figure.dpi': DPI, 'savefig.dpi': 'figure'}):
            titles_visible()
    try:
        with matplotlib.rc_context(rc), seams(None):
            w = World(stats, cfg)
            for _ in range(cfg['open']):
                plt.figure()
            if cfg['record']:
                for case, func in (('c0', 'fa'), ('c1', 'fb'), ('c0', 'enter_block'), ('c1', 'enter_block')):
                    p = (len(case) + len(func) + int(case[1])) % len(PICS)
                    RecordedData.put(Case, func, case, reference(p, 1).copy(), True)
                    w.stored[func, case] = (p, 1)
            for s in sc['steps']:
                step(w, s)
    finally:
        Case.SAVE_MATCH = False
        plt.close('all')


def step(w, s):
    op = s['op']
    w.stats.step(s['c'], op)
    figs = plt.get_fignums()
    if op == 'figure':
        if len(figs) < 6:
            plt.figure()
    elif op == 'close-figure':
        if figs:
            plt.close(pick(figs, s['i']))
    elif op == 'current':
        if figs:
            plt.figure(pick(figs, s['i']))
    elif op == 'setting':
        plt.rcParams['axes.titley'] = s['titley']
        plt.rcParams['axes.titlepad'] = s['titlepad']
        plt.rcParams['axes.titlelocation'] = s['titleloc']
    else:
        b = s['block']
        if op == 'nested' and not b['nested']:
            b['nested'] = dict(b, fault=None, nested=None, inner=None, early=None)
            b['where'] = 'middle'
        before = {n: len(plt.figure(n).axes) for n in figs}
        if figs:
            plt.figure(figs[-1] if op != 'helper' else figs[0])
        if op == 'helper':
            b['new_figure'] = max(1, b['new_figure'])
        out = block(w, b)
        w.stats.event(out[0])
        for n in plt.get_fignums():
            if n in before and b['new_figure'] and not b['nested']:
                expect(len(plt.figure(n).axes) == before[n], 'other-figure', 'the block changed figure %d, which it did not use', n)
