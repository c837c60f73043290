"""C08: a morph installs in place, blends by time only, and undoes cleanly"""
import copy

from PIL import Image

from .. import ref, build
from ..core import Violation, expect
from ..build import Transform, DrawingContext, Group, GroupBuilder, PensByShape, ElemCurve, PenBrush, Point
from ..faults import make_fault, ERRORS, gen_exc
from .c07 import gen_fn, make_fn, eval_fn
from x7.geom.anim import Morph, MorphMultiStep, AnimationHolder

RUNS = {'quick': 6000, 'thorough': 300000}
RULE = ('A run builds a nested model (curves in groups and as parts of shapes with holes, with equal twins in several groups), a pool of target curves '
        'with other point counts, and interleaves 5-30 steps: create simple or multi-step morphs (also sharing targets, also refused ones: '
        'foreign source, incompatible pair), update one or all at times that advance, jump, repeat or run back, hide, fail in the time function, move points of the stand-in, add points to source and target, move target '
        'points, draw, remove, remove twice. After every step membership is compared by identity and order, the stand-in with the blend for that '
        'time only, everything else with its state before. Non-trivial: at least two updates out of order, a removal or a fault.')
REAL = ['x7.geom.anim morphs', 'x7.geom.model replacement and point splitting', 'x7.geom.bezier']
STUB = ['clock', 'time functions that fail or hide on demand']
STATE_MEASURE = '(operation, live morphs by kind, removed, depth of the source)'
ASSUMPTIONS = ['source and targets of a morph are both open or both closed', 'step times increase']

OPS = ['morph', 'morph', 'multi', 'multi', 'tick', 'tick', 'tick', 'tick', 'all', 'all', 'remove', 'remove', 'again', 'foreign', 'mismatch', 'draw', 'movetarget', 'hide', 'fault', 'scribble', 'scribble', 'lengthen']


def gen_curve(rng, name, closed):
    s = dict(k='curve', name=name, pen=rng.randrange(8) if closed else rng.randrange(4), xf=ref.gen_xf(rng), closed=closed, cps=ref.gen_cps(rng, rng.randint(2, 5) if rng.random() < 0.93 else rng.choice([1, 9, 14])))
    if rng.random() < 0.2 and len(s['cps']) > 1:
        s['cps'][1][0] = list(s['cps'][0][0])       # coincident points
    return s


def gen(rng):
    model = ref.unusual(rng, ref.gen_group(rng, 'm', depth=2, size=4, kinds=('curve', 'curve', 'curve', 'rect')))
    curves = [s for p, s in ref.walk(model) if s['k'] == 'curve']
    groups = [s for p, s in ref.walk(model) if s['k'] == 'group']
    for _ in range(rng.randint(0, 2)):
        # an equal shape in another group
        if curves and len(groups) > 1:
            c, g = copy.deepcopy(rng.choice(curves)), rng.choice(groups)
            if all(e['name'] != c['name'] for e in g['elems']):
                g['elems'].insert(rng.randrange(len(g['elems']) + 1), c)
    targets = [gen_curve(rng, 't%d' % i, bool(i % 2)) for i in range(6)]
    steps = []
    for _ in range(rng.randint(5, 30)):
        ts, t = [], 0.0
        for _ in range(rng.randint(1, 4) if rng.random() < 0.92 else rng.randint(5, 16)):
            t += round(rng.uniform(0.1, 0.5), 3) if rng.random() < 0.9 else 0.002
            ts.append([round(t, 3), rng.randrange(1000)])
        if len(ts) > 4 and rng.random() < 0.7:
            # most points at one of the steps only, often in the middle
            most = rng.choice([len(ts) // 2, rng.randrange(len(ts))])
            for k, s in enumerate(ts):
                s[1] = -2 if k == most else -1
        steps.append(dict(c='c%d' % rng.randrange(3), op=rng.choice(OPS), i=rng.randrange(1000), j=rng.randrange(1000), t=rng.choice([0.0, 1.0, 0.5, round(rng.uniform(-0.5, 2.2), 3)]),
                          ts=ts, fn=gen_fn(rng, 0, True) if rng.random() < 0.4 else ['id'], force=rng.random() < 0.8, exc=gen_exc(rng),
                          x=ref.gnum(rng), y=ref.gnum(rng), n=rng.randrange(1000), beside=rng.choice([None, None, 0.0, 1e-5, -1e-5, 1e-7, -1e-7, 4e-4, -4e-4]), hide=rng.choice([None, None, 0.0, 0.3])))
    return dict(config=dict(models=[model], targets=targets), steps=steps)


def outline(o, closed=None, n=48):
    """Dense sample of the drawn curve and a bound for its deviation"""
    cps = [(c, dl, dr) for c, dl, dr, k in o['cps']]
    segs = ref.segments(cps, o['closed'] if closed is None else closed)
    if not segs:
        return [tuple(c) for c, dl, dr in cps], 1e-6       # an open curve of a single point
    bound = 1e-6
    for a, b, c, d in segs:
        for u, v, w in ((a, b, c), (b, c, d)):
            bound = max(bound, 1.5 * 6 * max(abs(u[0] - 2*v[0] + w[0]), abs(u[1] - 2*v[1] + w[1])) / 8 / n / n)
    return ref.sample(segs, n), bound + 1e-6 * max(max(abs(x), abs(y)) for s in segs for x, y in s)


def same_outline(a, b, closed=None):
    """Largest deviation between two curves, 0 if within the sampling error"""
    (pa, ba), (pb, bb) = outline(a, closed), outline(b, closed)
    worst = 0.0
    for p, q in ((pa, pb), (pb, pa)):
        worst = max(worst, ref.outline_dist(p[::3], q))
    return worst if worst > ba + bb else 0.0


def unchanged(before, curve, what):
    now = build.observe(curve)
    if build.same(now, before, 1e-12):
        d = build.same(dict(now, cps=0), dict(before, cps=0), 1e-12)
        expect(not d, 'source-changed', '%s changed %s%s', what, before['name'], d)
        expect(len(now['cps']) > len(before['cps']), 'source-changed', '%s changed the points of %s', what, before['name'])
        dev = same_outline(before, now)
        expect(dev == 0, 'source-changed', '%s changed the drawn curve of %s by %.5f', what, before['name'], dev)


class M(object):
    """A live morph"""


def run(sc, stats):
    cfg = sc['config']
    if not cfg['models'] or len(cfg['targets']) < 6:
        return
    spec = cfg['models'][0]
    model = build.elem(spec)
    paths = [p for p, s in ref.walk(spec)]
    curve_paths = [p for p, s in ref.walk(spec) if s['k'] == 'curve']
    if not curve_paths:
        return
    sources = {p: build.child(model, p) for p in curve_paths}
    original = dict(sources)                    # path -> the very source
    present = {p: build.child(model, p) for p in paths}     # path -> object that has to be there
    targets = [build.elem(s) for s in cfg['targets']]
    obs = {}            # id -> observation of everything that may not change

    def snap():
        for c in list(original.values()) + targets:
            obs[id(c)] = build.observe(c)
        for p in paths:
            if p not in original and not isinstance(present[p], Group) and type(present[p]).__name__ != 'ElemWithHoles':
                obs[id(present[p])] = build.observe(present[p])

    def structure(what):
        for p in paths:
            got = build.child(model, p)
            expect(got is present[p], 'membership', '%s: the shape at %s is %r, expected %r', what, p, getattr(got, 'name', got), present[p].name)
        for p in paths:
            if isinstance(present[p], Group):
                n = len([q for q in paths if len(q) == len(p) + 1 and q[:len(p)] == p])
                expect(list(present[p].elems.keys()) == [e.name for e in present[p].elems.values()] and len(present[p].elems) == n, 'membership',
                       '%s: group %s has members %s', what, p, list(present[p].elems))

    def rest(what):
        for c in list(original.values()) + targets:
            unchanged(obs[id(c)], c, what)
        for p in paths:
            if p not in original and id(present[p]) in obs:
                d = build.same(build.observe(present[p]), obs[id(present[p])], 0.0)
                expect(not d, 'model-changed', '%s changed %s at %s', what, p, d)
        for p in paths:
            s = build.spec_at(spec, p)
            e = present[p]
            if s['k'] in ('group', 'holes'):
                expect(e.name == s['name'] and not build.same(list(map(float, e.xform.as_6tuple())), list(ref.xf_of(s))), 'model-changed', '%s changed %s', what, p)
        snap()

    snap()
    live, removed = [], []
    multi_targets = set()
    last_t = 0.0
    dc = DrawingContext(Image.new('RGBA', (8, 8), 'white'), Transform())
    dc.points_per_curve = 5

    def tfunc(m):
        def func(t):
            if m.fault is not None:
                raise m.fault
            v = float(eval_fn(m.fn, t))
            return None if m.hide is not None and v < m.hide else v
        return func

    def create(st, src, kind, tgts, force):
        m = M()
        m.kind, m.fn, m.hide, m.fault = kind, st['fn'], st['hide'], None
        where = GroupBuilder('b', PensByShape(), group=model) if st['x'] > 0 else model      # either will do
        if kind == 'morph':
            m.targets = tgts[:1]
            m.real = Morph(where, src, tgts[0], tfunc(m), force)
        else:
            m.ts = [t for t, i in st['ts']][:len(tgts)]
            m.snaps = [src.copy()] + [t.copy() for t in tgts]
            m.real = MorphMultiStep(where, src, list(zip(m.ts, tgts)), tfunc(m))
        return m

    def blend(m, what, t):
        """The stand-in is what a fresh morph shows for that time"""
        f = float(eval_fn(m.fn, t))
        stand = build.observe(m.stand)
        src = build.observe(m.source)
        d = build.same(dict(stand, cps=0), dict(src, cps=0))
        expect(not d, 'stand-in', '%s: stand-in and source differ at %s', what, d)
        if m.hide is not None and f < m.hide:
            for p in outline(stand)[0]:
                expect(min(abs(p[0]), abs(p[1])) > 1e5, 'not-hidden', '%s: hidden stand-in still passes (%.2f, %.2f)', what, *p)
            stats.probe('hidden')
            return
        closed = src['closed']
        if m.kind == 'morph':
            a, b, g = m.source, m.targets[0], f
            steps = [(0.0, a), (1.0, b)]
        else:
            times = [0.0] + m.ts
            steps = list(zip(times, m.snaps))
            f = min(max(f, times[0]), times[-1])
            g = None
        for ft, c in steps:
            if abs(f - ft) < 1e-12:
                dev = same_outline(stand, build.observe(c), closed)
                expect(dev == 0, 'wrong-blend', '%s: at its step the stand-in is off the step shape by %.5f', what, dev)
                stats.probe('at-step')
        if m.kind == 'morph' and len(a.control_points) == len(b.control_points):
            lo, hi = build.observe(a)['cps'], build.observe(b)['cps']
        elif m.kind == 'multi':
            k = max(i for i in range(len(steps)) if steps[i][0] <= f)
            if k == len(steps) - 1:
                k -= 1
            lo, hi = key_shape(m, steps, steps[k][0]), key_shape(m, steps, steps[k+1][0])
            g = (f - steps[k][0]) / (steps[k+1][0] - steps[k][0])
        else:
            return
        want = [[[u + g * (v - u) for u, v in zip(p, q)] for p, q in zip(x[:3], y[:3])] for x, y in zip(lo, hi)]
        if len(want) != len(stand['cps']):
            # other points are fine if they draw the same curve
            dev = same_outline(stand, dict(stand, cps=[w + ['smooth'] for w in want]), closed)
            expect(dev == 0, 'wrong-blend', '%s: the stand-in is off the blend for %.4f by %.5f', what, f, dev)
            return
        d = build.same([x[:3] for x in stand['cps']], want, 1e-8)
        expect(not d, 'wrong-blend', '%s: the stand-in is not the blend for %.4f%s', what, f, d)

    for st in sc['steps']:
        op = st['op']
        stats.step(st['c'], op)
        what = op
        if op in ('morph', 'multi'):
            free = [p for p in curve_paths if present[p] is original[p]]
            if not free or len(live) > 3:
                continue
            p = free[st['i'] % len(free)]
            src = original[p]
            same = [t for t in targets if t.closed == src.closed or src.closed and st['n'] % 3 == 0]
            if op == 'morph' and st['n'] % 4 == 0:
                same = [c for q, c in original.items() if c.closed == src.closed and q != p] or same
            ends = sorted(same, key=lambda c: len(c.control_points))        # -1: fewest points, -2: most
            tgts = [(ends[0] if i == -1 else ends[-1]) if i < 0 else same[(st['j'] if op == 'morph' else i) % len(same)] for t, i in (st['ts'] if op == 'multi' else [[0, 0]])]
            force = st['force'] or op == 'multi'
            what = '%s of %s' % (op, p)
            if not force and len(src.control_points) != len(tgts[0].control_points):
                try:
                    create(st, src, op, tgts, False)
                except Exception as err:        # noqa
                    stats.fault('refused-incompatible')
                    what += ' (refused: %s)' % type(err).__name__
                else:
                    raise Violation('not-refused', '%s: incompatible shapes were accepted with force off' % what)
            else:
                src_before = build.observe(src)
                m = create(st, src, op, tgts, force)
                m.source, m.path = src, p
                m.stand = build.child(model, p)
                expect(m.stand is not src and isinstance(m.stand, ElemCurve), 'not-installed', '%s: no stand-in at the place of the source', what)
                expect(all(m.stand is not c for c in list(original.values()) + targets), 'not-installed', '%s: the stand-in is one of the shapes', what)
                d = build.same(dict(build.observe(m.stand), cps=0), dict(src_before, cps=0))
                expect(not d, 'stand-in', '%s: stand-in and source differ at %s', what, d)
                dev = same_outline(build.observe(m.stand), src_before)
                expect(dev == 0, 'stand-in', '%s: the stand-in is off the source by %.5f before any update', what, dev)
                present[p] = m.stand
                live.append(m)
                if op == 'multi':
                    multi_targets.update(id(t) for t in tgts)
        elif op in ('foreign', 'mismatch'):
            foreign = targets[st['i'] % len(targets)].copy()
            tgts = [t for t in targets if t.closed == foreign.closed]
            try:
                create(st, foreign, 'morph' if op == 'mismatch' or st['j'] % 2 else 'multi', [tgts[st['j'] % len(tgts)]], True)
            except Exception as err:        # noqa
                what += ' (refused: %s)' % type(err).__name__
                stats.fault('refused-foreign')
            else:
                raise Violation('not-refused', 'a morph of a source that is not in the model was accepted')
        elif op in ('tick', 'all', 'hide', 'fault', 'scribble'):
            if not live:
                continue
            t = st['t'] if op != 'scribble' else last_t
            if st.get('beside') is not None and op in ('tick', 'all'):
                m = live[st['i'] % len(live)]       # at a step or just beside it
                t = ([0.0] + m.ts if m.kind == 'multi' else [0.0, 1.0])[st['j'] % (len(m.ts) + 1 if m.kind == 'multi' else 2)] + st['beside']
                stats.probe('beside-step')
            if t < last_t:
                stats.nontrivial()
            stats.sim_time += abs(t - last_t)
            last_t = t
            what = '%s t=%.3f' % (op, t)
            if op == 'all':
                h = AnimationHolder()
                for m in live:
                    h.add(m.real)
                h.update(t)
                for m in live:
                    blend(m, '%s of %s' % (what, m.path), t)
            else:
                m = live[st['i'] % len(live)]
                what += ' of %s' % (m.path,)
                if op == 'fault':
                    m.fault = make_fault(st['exc'])
                    try:
                        m.real.update(t)
                        raise Violation('error-swallowed', '%s: the error of the time function was swallowed' % what)
                    except ERRORS as err:
                        expect(err is m.fault, 'wrong-error', '%s: other error', what)
                    finally:
                        m.fault = None
                    stats.fault('time-function-' + st['exc'])
                if op == 'scribble':
                    # someone else moves points of the stand-in; the next update decides by time only
                    cp = m.stand.control_points[st['j'] % len(m.stand.control_points)]
                    [cp.c, cp.dl, cp.dr][st['n'] % 3].setxy(st['x'], st['y'])
                    # its transform is its own as well
                    with m.stand.xform.push():
                        m.stand.xform.translate(st['x'], 3.0)
                        rest(what)
                old = m.hide
                if op == 'hide':
                    m.hide = 1e9
                m.real.update(t)
                blend(m, what, t)
                m.hide = old
        elif op in ('remove', 'again'):
            pool = live if op == 'remove' else removed
            if not pool:
                continue
            m = pool[st['i'] % len(pool)]
            what = '%s of %s' % (op, m.path)
            if op == 'remove':
                # whatever else was done to the stand-in, its style and placement go with it
                m.stand.xform.translate(st['x'], st['y'])
                m.stand.penbrush = PenBrush('red')
            m.real.restore()
            if op == 'remove':
                live.remove(m)
                removed.append(m)
                present[m.path] = m.source
            stats.nontrivial()
        elif op == 'lengthen':
            # the user adds points to source and target; neither is drawn differently for it
            if not live:
                continue
            m = live[st['i'] % len(live)]
            for c in ([m.source] + m.targets if m.kind == 'morph' else [m.source]):
                for _ in range(1 + st['j'] % 2):
                    c.add_one()
            stats.probe('lengthened')
        elif op == 'movetarget':
            tgt = targets[st['i'] % len(targets)]
            if id(tgt) in multi_targets:
                continue
            tgt.control_points[st['j'] % len(tgt.control_points)].c.setxy(st['x'], st['y'])
            obs[id(tgt)] = build.observe(tgt)
        else:
            now = copy.deepcopy(spec)
            for p in curve_paths:
                s, o = build.spec_at(now, p), build.observe(present[p])
                s['cps'] = o['cps']

            def bad(fmt, *args):
                raise Violation('misplaced', 'drawing the model with morphs: ' + fmt % args)
            build.check_paths(now, model, dc, ref.IDENT, [], 5, bad)
        structure(what)
        rest(what)
        stats.check()
        stats.state([op, sorted(m.kind for m in live), len(removed) > 0, len(present)])


def key_shape(m, steps, t):
    """Points of the stand-in at a step time, from a fresh morph of the same shapes"""
    if not hasattr(m, 'keys'):
        m.keys = {}
    if t not in m.keys:
        twin = Group('twin', PenBrush('default'))
        src = steps[0][1].copy()
        twin.add(src.name, src)
        mm = MorphMultiStep(twin, src, [(tt, c.copy()) for tt, c in steps[1:]], lambda x: x)
        mm.update(t)
        m.keys[t] = build.observe(list(twin.elems.values())[0])['cps']
    return m.keys[t]
