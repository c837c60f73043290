"""C07: animation state is a function of time, not of how time was reached"""
import math
from fractions import Fraction

import numpy as np

from .. import ref, build
from ..core import Violation, expect, close, close_xy, pick
from ..build import Point, PointRelative, PointCalc
from ..faults import make_fault, ERRORS, gen_exc
from x7.geom.anim import (
    Animation, AnimationGeneric, AnimationLinear, AnimationLinearFunc, AnimationSinusoidal, AnimationCircular, AnimationHolder)

RUNS = {'quick': 40000, 'thorough': 1000000}
RULE = ('A run sets up 2-5 points, derived points on them and 1-2 animation sets with 1-6 animations of any kind and shaping function, '
        'driven by independent simulated clocks (int, float, numpy and fraction times) that advance, jump, stall, repeat and run backwards, interleaved with movers of points and '
        'targets, animations added late, single animations updated out of order and callbacks that fail at chosen calls. After every step '
        'all points are compared with the definition evaluated for the current time only. Non-trivial: a clock that did not simply '
        'advance, or a failed callback.')
REAL = ['x7.geom.anim animations, sets and shaping functions', 'x7.geom.geom points']
STUB = ['clocks', 'custom callbacks that fail on demand']
STATE_MEASURE = '(operation, clock motion, kinds of animation in the set, failed callback)'
ASSUMPTIONS = ['how far a set of animations gets when a callback fails is not prescribed; the next update must be right']


def gen_fn(rng, depth=2, scalar=False):
    k = rng.choice(['id', 'up', 'down', 'interp', 'sin', 'cos', 'per'] + ([] if scalar else ['idxy', 'xy', 'sincos', 'interpxy']))
    if k in ('id', 'idxy'):
        return [k]
    if k in ('up', 'down', 'sin', 'cos', 'sincos') and rng.random() < 0.2:
        return [k]      # as it comes
    if k in ('up', 'down'):
        a = round(rng.uniform(0.05, 0.5), 3)
        return [k, a, round(rng.uniform(a + 0.05, 0.95), 3)]
    if k == 'interp' or k == 'interpxy':
        xs = sorted(rng.sample(range(-10, 30), rng.randint(2, 5) if rng.random() < 0.95 else 25))
        if k == 'interp' and rng.random() < 0.2:      # steep
            xs[1] = xs[0] + rng.choice([0.01, 1e-4])
        curve = [[x / 20, round(rng.uniform(-2, 2), 2)] for x in xs]
        return [k, curve] if k == 'interp' else [k, curve, gen_fn(rng, 0, True), gen_fn(rng, 0, True)]
    if k == 'xy':
        return ['xy', gen_fn(rng, 0, True), gen_fn(rng, 0, True)]
    args = [k, rng.choice([1.0, 0.5, 2.0, 3.0, 1.25, -1.0, -0.5]), rng.choice([0.0, 90.0, 30.0, -45.0, 180.0]), rng.choice([1.0, 0.5, -2.0]), rng.choice([0.0, 0.5, 1.0])]
    return args


def interpolation(curve):
    steps = [tuple(p) for p in curve]
    fn = Animation.interpolate(steps)
    steps[:] = [(0.0, 777.0), (1.0, -777.0)]      # the caller goes on using his list
    return fn


def make_fn(f):
    k = f[0]
    if len(f) == 1 and k not in ('id', 'idxy'):
        return getattr(Animation, dict(up='ramp_up', down='ramp_down', sin='sin', cos='cos', sincos='sin_cos')[k])()
    if k == 'id':
        return Animation.identity()
    if k == 'idxy':
        return Animation.identity_xy()
    if k == 'up':
        return Animation.ramp_up(f[1], f[2])
    if k == 'down':
        return Animation.ramp_down(f[1], f[2])
    if k == 'interp':
        return interpolation(f[1])
    if k == 'xy':
        return Animation.xy(make_fn(f[1]), make_fn(f[2]))
    if k == 'interpxy':
        outer, inner = interpolation(f[1]), Animation.xy(make_fn(f[2]), make_fn(f[3]))
        return lambda t: outer(inner(t))
    kw = dict(frequency=f[1], offset=f[2], scale=f[3], shift=f[4])
    if k == 'per':
        return Animation.periodic(math.sin, **kw)
    return getattr(Animation, dict(sin='sin', cos='cos', sincos='sin_cos')[k])(**kw)


def interp(t, curve):
    if t <= curve[0][0]:
        return curve[0][1]
    for (x0, y0), (x1, y1) in zip(curve, curve[1:]):
        if t <= x1:
            return y0 + (y1-y0) * (t-x0) / (x1-x0)
    return curve[-1][1]


def eval_fn(f, t):
    k = f[0]
    if len(f) == 1 and k not in ('id', 'idxy'):
        f = [k, 0.25, 0.75] if k in ('up', 'down') else [k, 1.0, 0.0, 1.0, 0.0]
    if k == 'id':
        return t
    if k == 'idxy':
        return t, t
    if k == 'up':
        return interp(t, [(0, 0), (f[1], 0), (f[2], 1), (1, 1)])
    if k == 'down':
        return interp(t, [(0, 1), (f[1], 1), (f[2], 0), (1, 0)])
    if k == 'interp':
        return interp(t, f[1])
    if k == 'xy':
        return eval_fn(f[1], t), eval_fn(f[2], t)
    if k == 'interpxy':
        return interp(eval_fn(f[2], t), f[1]), interp(eval_fn(f[3], t), f[1])
    a = 2 * math.pi * f[1] * t + f[2] * math.pi / 180
    s, c = math.sin(a) * f[3] + f[4], math.cos(a) * f[3] + f[4]
    return dict(per=s, sin=s, cos=c, sincos=(s, c))[k]


def edges(f):
    """Times just beside the corners of an interpolation"""
    if f[0] not in ('interp', 'up', 'down') or len(f) == 1:
        return ()
    return tuple(x + d for x in ([p[0] for p in f[1]] if f[0] == 'interp' else f[1:]) for d in (-1e-6, 1e-6, 0.0))


def gen_anim(rng, npts):
    k = rng.choice(['linear', 'linear', 'func', 'func', 'sinus', 'circle', 'custom', 'custom'])
    return dict(kind=k, p=rng.randrange(npts), target=rng.choice([['p', rng.randrange(npts)], ['t', rng.randrange(3)], ['t', rng.randrange(3)], ['r', rng.randrange(3)]]),
                fn=gen_fn(rng), freq=rng.choice([1.0, 2.0, 0.5, 1.5, -1.0, -0.5]), share=rng.choice([None, None, 0, 1]), off=rng.choice([0, 90, 45, -30, 1.5]), radius=rng.choice([5.0, 12.5, -3.0, 1e5]),
                fail=rng.choice([None, None, 1, 2, 3, 5]), exc=gen_exc(rng), ret=rng.choice(['tuple', 'point', 'rel']))


KIND = dict(int=round, np=np.float64, half=lambda t: np.float32(round(t * 8) / 8), frac=lambda t: Fraction(round(t * 8), 8))      # kinds of number a clock may give
NEAR = [1e-3, -1e-3, 1e-5, -1e-5, 1e-6, -3e-7, 1e-7, -1e-7]
TIMES = ['next', 'next', 'next', 'same', 'back', 'jump', 'jumpback', 'zero', 'one', 'near', 'near', 'again', 'far']


def gen(rng):
    n = rng.randint(2, 5)
    sets = rng.randint(1, 2)
    steps = []
    for _ in range(rng.randint(5, 35)):
        op = rng.choice(['tick', 'tick', 'tick', 'tick', 'tick', 'tick', 'single', 'movep', 'movet', 'add', 'fn', 'refuse', 'hide'])
        steps.append(dict(c='k%d' % rng.randrange(sets) if op in ('tick', 'single', 'add') else 'u', op=op, time=rng.choice(TIMES), dt=round(rng.uniform(0, 0.4), 3),
                          i=rng.randrange(1000), x=ref.gnum(rng), y=ref.gnum(rng), anim=gen_anim(rng, n), fn=gen_fn(rng), t=round(rng.uniform(-0.5, 1.5), 3),
                          tt=rng.choice(['int', 'np', 'half', 'frac']) if rng.random() < 0.15 else None))
    return dict(config=dict(pts=[[ref.gnum(rng), ref.gnum(rng)] for _ in range(n)], targets=[[ref.gnum(rng), ref.gnum(rng)] for _ in range(3)],
                            rels=[[ref.gnum(rng, -20, 20), ref.gnum(rng, -20, 20), rng.randrange(n)] for _ in range(3)],
                            sets=[[gen_anim(rng, n) for _ in range(rng.randint(1, 6) if rng.random() < 0.99 else rng.randint(20, 140))] for _ in range(sets)]), steps=steps)


class Anim(object):
    """One animation: the real one and its definition"""

    def __init__(self, d, w):
        self.d = d
        i = d['p'] % len(w.pts)
        self.i = i
        self.orig = tuple(w.xy[i])
        real = w.pts[i]
        k = d['kind']
        tgt = d['target']
        self.tgt = tgt
        target = w.pts[tgt[1] % len(w.pts)] if tgt[0] == 'p' else w.targets[tgt[1]] if tgt[0] == 't' else w.rels[tgt[1]]
        self.calls = 0
        self.failed = False
        self.fault = None

        def armed(fn):
            def inner(*args):
                self.calls += 1
                if d['fail'] and self.calls == d['fail'] and w.faults_on:
                    self.failed = True
                    self.fault = make_fault(d['exc'])
                    raise self.fault
                return fn(*args)
            return inner

        if k == 'linear':
            self.real = AnimationLinear(real, target)
        elif k == 'func':
            self.real = AnimationLinearFunc(real, target, armed(make_fn(d['fn'])))
        elif k == 'sinus':
            if d['off'] == 0 and d['freq'] == 1.0:
                self.real = AnimationSinusoidal(real, target)
            else:
                self.real = AnimationSinusoidal(real, target, frequency=d['freq'], offset=d['off'])
        elif k == 'circle':
            self.real = AnimationCircular(real, d['radius'], d['freq'], d['off']) if d['off'] else AnimationCircular(real, d['radius'], d['freq'])
        elif d.get('share') is not None:
            self.real = AnimationGeneric(real, w.shared[d['share']])      # one callback moves several points
        else:
            def custom(t, orig, point):
                x, y = orig.x + d['radius'] * t, orig.y - d['freq'] * t * t
                if d['ret'] == 'rel':
                    x, y = point.x * 0 + x, y       # may look at the current point as well
                return Point(x, y) if d['ret'] == 'point' else (x, y)
            self.real = AnimationGeneric(real, armed(custom))

    def value(self, t, w):
        """Where the definition puts the point at time t, given the current position of the target"""
        d, k = self.d, self.d['kind']
        ox, oy = self.orig
        if k == 'circle':
            a = 2 * math.pi * d['freq'] * t + d['off']
            w.big = max(w.big, abs(d['radius']) * max(1, abs(t)))
            return ox + d['radius'] * math.sin(a), oy + d['radius'] * math.cos(a)
        if k == 'custom' and d.get('share') is not None:
            w.big = max(w.big, 10 * t * t)
            return (ox + 10 * t, oy - 5 * t * t) if d['share'] == 0 else (ox - 7 * t * t, oy + 3 * t)
        if k == 'custom':
            w.big = max(w.big, abs(d['radius'] * t), abs(d['freq'] * t * t))
            return ox + d['radius'] * t, oy - d['freq'] * t * t
        tx, ty = w.target_xy(self.tgt)
        if k == 'sinus':
            f = (1 - math.cos(2 * math.pi * d['freq'] * t + math.radians(d['off']))) / 2
        else:
            f = t if k == 'linear' else eval_fn(d['fn'], t)
        fx, fy = f if isinstance(f, tuple) else (f, f)
        w.big = max(w.big, abs(tx), abs(ty), abs(fx * (tx - ox)), abs(fy * (ty - oy)))
        return ox + fx * (tx - ox), oy + fy * (ty - oy)


class World(object):
    def __init__(self, cfg):
        self.xy = [list(p) for p in cfg['pts']]
        self.txy = [list(p) for p in cfg['targets']]
        self.relspec = cfg['rels']
        self.pts = [Point(*p) for p in self.xy]
        self.targets = [Point(*p) for p in self.txy]
        self.rels = [PointRelative(dx, dy, self.pts[i % len(self.pts)]) for dx, dy, i in self.relspec]
        self.shared = [lambda t, orig, point: (orig.x + 10 * t, orig.y - 5 * t * t), lambda t, orig, point: Point(orig.x - 7 * t * t, orig.y + 3 * t)]
        self.faults_on = False
        self.big = 0.0      # largest number on the way: limits what rounding leaves

    def target_xy(self, tgt):
        if tgt[0] == 'p':
            return self.xy[tgt[1] % len(self.xy)]
        if tgt[0] == 't':
            return self.txy[tgt[1]]
        dx, dy, i = self.relspec[tgt[1]]
        x, y = self.xy[i % len(self.xy)]
        return x + dx, y + dy

    def check(self, what):
        for i, (p, want) in enumerate(zip(self.pts, self.xy)):
            got = p.xy()
            expect(close_xy(got, want, 1e-8, 1e-4 * self.big), 'wrong-position', '%s: point %d is at (%.6f, %.6f), expected (%.6f, %.6f)', what, i, got[0], got[1], *want)
        for i, (p, want) in enumerate(zip(self.targets, self.txy)):
            expect(close_xy(p.xy(), want, 1e-12), 'target-moved', '%s moved target %d', what, i)


def run(sc, stats):
    cfg = sc['config']
    if len(cfg['pts']) < 1 or not cfg['sets']:
        return
    w = World(cfg)
    holders = [AnimationHolder() for _ in cfg['sets']]
    sets = []
    for h, descs in zip(holders, cfg['sets']):
        anims = [Anim(d, w) for d in descs]
        for a in anims:
            h.add(a.real)
        sets.append(anims)
    clock = [0.0] * len(sets)
    past = [[0.0] for s in sets]
    w.faults_on = True
    for st in sc['steps']:
        op = st['op']
        stats.step(st['c'], op)
        k = int(st['c'][1:]) % len(sets) if st['c'] != 'u' else 0
        what = '%s set %d' % (op, k)
        failed = False
        if op in ('tick', 'single'):
            t0 = clock[k]
            how = st['time']
            t = dict(next=t0 + st['dt'], same=t0, back=t0 - st['dt'], jump=t0 + 3 * st['dt'] + 1, jumpback=t0 - 2 * st['dt'] - 1, zero=0.0, one=1.0,
                     near=t0 + NEAR[st['i'] % len(NEAR)], again=pick(past[k], st['i']), far=(st['dt'] - 0.2) * (100, 100, 100, 2000)[st['i'] % 4])[how]
            ticks = t = KIND[st['tt']](t) if st.get('tt') else t
            t = float(t)
            past[k].append(t)
            clock[k] = t
            stats.sim_time += abs(t - t0)
            if how != 'next':
                stats.nontrivial()
                stats.probe('clock-' + how)
            what += ' t=%.3f' % t
            anims = sets[k]
            if op == 'single' and anims:
                anims = [anims[st['i'] % len(anims)]]
            before = [list(p) for p in w.xy]
            for a in anims:
                a.failed = False
            try:
                if op == 'tick':
                    holders[k].update(ticks)
                elif anims:
                    anims[0].real.update(ticks)
            except ERRORS as err:
                failed = True
                bad = [a for a in anims if a.failed]
                expect(len(bad) >= 1 and err is bad[0].fault, 'wrong-error', '%s: unexpected error %r', what, err)
            if any(a.failed for a in anims):
                failed = True
                for a in anims:
                    if a.failed:
                        stats.fault('callback-' + a.d['exc'])
                # whatever was applied: each point is where it was or where some animation of this set puts it
                w.xy = [list(p.xy()) for p in w.pts]
                moved = {a.i for a in anims}
                for i, (a, b) in enumerate(zip(w.xy, before)):
                    if i not in moved:
                        expect(close_xy(a, b, 1e-12), 'wrong-position', '%s moved point %d, which no animation of the set has', what, i)
                # the next update is right again
                if op == 'tick':
                    retry(w, anims, holders[k].update, t, what + ' (again after the failure)')
                else:
                    retry(w, anims, anims[0].real.update, t, what + ' (again after the failure)')
            else:
                for a in anims:
                    w.xy[a.i] = list(a.value(t, w))
            stats.state([op, how, sorted(a.d['kind'] for a in anims), failed])
        elif op == 'movep':
            i = st['i'] % len(w.pts)
            w.pts[i].setxy(st['x'], st['y'])
            w.xy[i] = [st['x'], st['y']]
        elif op == 'movet':
            i = st['i'] % len(w.targets)
            w.targets[i].set(Point(st['x'], st['y']))
            w.txy[i] = [st['x'], st['y']]
        elif op == 'add':
            a = Anim(st['anim'], w)
            sets[k].append(a)
            holders[k].add(a.real)
        elif op == 'refuse':
            # derived points cannot be animated
            make = [lambda p: AnimationLinear(p, w.targets[0]), lambda p: AnimationSinusoidal(p, w.targets[0]),
                    lambda p: AnimationCircular(p, 2, 1), lambda p: AnimationGeneric(p, lambda *a: (0, 0)),
                    lambda p: AnimationLinearFunc(p, w.targets[0], Animation.identity())][st['i'] % 5]
            try:
                make(w.rels[st['i'] % len(w.rels)])
            except Exception:       # noqa
                stats.probe('refused-derived')
            else:
                raise Violation('not-refused', 'an animation of a derived point was accepted')
        elif op == 'hide':
            scalar = st['fn'] if not isinstance(eval_fn(st['fn'], 0.0), tuple) else ['id']
            f = Animation.hide_if(make_fn(scalar), 0.25) if st['i'] % 2 else Animation.hide_if(make_fn(scalar))
            thr = 0.25 if st['i'] % 2 else 0
            at = Animation.hide_if(Animation.identity(), st['t'])
            expect(at(st['t']) == st['t'], 'wrong-function', 'hide_if(identity, %s) hides %s, which is not below', st['t'], st['t'])
            for t in (st['t'], -0.3, 0.8, st['t']):
                want, got = eval_fn(scalar, t), f(t)
                if abs(want - thr) > 1e-9:
                    expect((got is None) == (want < thr) and (got is None or close(got, want)), 'wrong-function',
                           'hide_if(%s, %s)(%s) is %s', scalar, thr, t, got)
        else:
            f = make_fn(st['fn'])
            seen = {}
            for t in (st['t'], 0.0, 1.0, -st['t'], 0.5, st['t'], 0.0) + tuple(st['t'] + d for d in NEAR) + edges(st['fn']):
                got, want = f(t), eval_fn(st['fn'], t)
                ok = close_xy(got, want, 1e-9) if isinstance(want, tuple) else not isinstance(got, tuple) and close(got, want)
                expect(ok, 'wrong-function', '%s(%s) is %s, expected %s', st['fn'], t, got, want)
                expect(seen.setdefault(t, got) == got, 'not-pure', '%s(%s) changed from %s to %s', st['fn'], t, seen[t], got)
            if st['fn'][0] in ('interp', 'up', 'down', 'idxy'):
                got = f((st['t'], 0.4))
                want = (st['t'], 0.4) if st['fn'][0] == 'idxy' else (eval_fn(st['fn'], st['t']), eval_fn(st['fn'], 0.4))
                expect(close_xy(got, want), 'wrong-function', '%s((%s, 0.4)) is %s, expected %s', st['fn'], st['t'], got, want)
        if op not in ('tick', 'single'):
            stats.state([op, st['fn'][0] if op == 'fn' else ''])
        w.check(what)
        w.xy = [list(p.xy()) for p in w.pts]        # an animation towards its own point multiplies rounding errors
        stats.check()
    for k, anims in enumerate(sets):
        retry(w, anims, holders[k].update, 0.625, 'a last update of set %d' % k)
        stats.check()


def retry(w, anims, update, t, what):
    w.faults_on = False
    try:
        update(t)
    finally:
        w.faults_on = True
    for a in anims:
        w.xy[a.i] = list(a.value(t, w))
    w.check(what)
    w.xy = [list(p.xy()) for p in w.pts]
