"""C09: adding control points never changes the drawn curve"""
from PIL import Image

from .. import ref, build
from ..core import Violation, expect
from ..build import Transform, DrawingContext, ElemCurve, Group, PenBrush, Point, Vector

RUNS = {'quick': 9000, 'thorough': 800000}
RULE = ('A run keeps 1-4 curves (one to many points, open, closed, with shared and derived points, loops, cusps, coincident points, taken from boxes), '
        'some of them members of a group, and interleaves 5-40 steps of several owners: add a control point (1-6 times), move points and handles, move shared '
        'points, copy, transform, restore from a copy (also one with another number of points, which must change nothing if refused), draw. Each addition is compared '
        'with an exact subdivision of one segment of the curve before. Non-trivial: an addition after a copy, move or restore.')
REAL = ['x7.geom.model.ElemCurve', 'x7.geom.bezier split and ControlPoint', 'x7.geom.geom points', 'x7.geom.drawing extraction']
STUB = []
STATE_MEASURE = '(operation, open/closed and number of points of all curves)'
ASSUMPTIONS = ['the kind of a point (smooth/sharp) is not part of the drawn curve', 'the outline of an open curve of one point is that point',
               'which gap gets the point and at what parameter is not prescribed']

OPS = ['add', 'add', 'add', 'add', 'add', 'add3', 'move', 'move', 'handle', 'shared', 'copy', 'copy', 'restore', 'restore', 'transform', 'draw', 'xf']


def gen_curve(rng, name):
    closed = rng.random() < 0.5
    npts = 3 if rng.random() < 0.4 else 0
    s = dict(k='curve', name=name, pen=rng.randrange(8) if closed else rng.randrange(4), xf=ref.gen_xf(rng), closed=closed,
             cps=ref.gen_cps(rng, rng.randint(2, 6) if rng.random() < 0.93 else 1, npts))
    r = rng.random()
    if r < 0.2:
        i, j = rng.randrange(len(s['cps'])), rng.randrange(len(s['cps']))
        s['cps'][i][0] = list(s['cps'][j][0])
    elif r < 0.3:
        for cp in s['cps']:
            cp[0] = list(s['cps'][0][0])
    elif r < 0.45:
        for cp in s['cps']:
            cp[1], cp[2] = [0.0, 0.0], [0.0, 0.0]       # polygon
    elif r < 0.55:
        k = rng.choice([1e-6, 1e5])
        for cp in s['cps']:
            for v in cp[:3]:
                if not isinstance(v[0], str):
                    v[:] = [v[0] * k, v[1] * k]
    return s


def gen(rng):
    curves = [gen_curve(rng, 'c%d' % i) for i in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        curves.append(ref.gen_leaf(rng, 'box', kinds=('rect', 'ellipse', 'rrect')))
    steps = [dict(c='o%d' % rng.randrange(4), op=rng.choice(OPS), i=rng.randrange(1000), j=rng.randrange(1000), x=ref.gnum(rng), y=ref.gnum(rng),
                  xf=ref.gen_xf(rng)) for _ in range(rng.randint(5, 40))]
    return dict(config=dict(pts=[[ref.gnum(rng), ref.gnum(rng)] for _ in range(3)], curves=curves), steps=steps)


def xy3(o):
    return [(tuple(c), tuple(dl), tuple(dr)) for c, dl, dr, k in o['cps']]


def split(seg, t):
    a, b, c, d = seg

    def mid(p, q):
        return p[0] + t*(q[0]-p[0]), p[1] + t*(q[1]-p[1])
    ab, bc, cd = mid(a, b), mid(b, c), mid(c, d)
    abc, bcd = mid(ab, bc), mid(bc, cd)
    m = mid(abc, bcd)
    return [(a, ab, abc, m), (m, bcd, cd, d)]


def check_added(before, after, what):
    """after is before with one more point, and the same drawn curve"""
    d = build.same(dict(after, cps=0), dict(before, cps=0), 0.0)
    expect(not d, 'other-changed', '%s changed %s', what, d)
    n = len(before['cps'])
    expect(len(after['cps']) == n + 1, 'not-one-point', '%s: %d points, %d before', what, len(after['cps']), n)
    a, b = xy3(before), xy3(after)
    scale = 1e-12 + max(abs(v) for cp in a for p in cp for v in p)
    tol = 1e-9 * scale

    def near(p, q):
        return abs(p[0]-q[0]) <= tol and abs(p[1]-q[1]) <= tol
    places = [k for k in range(n + 1) if all(near(p[0], q[0]) for p, q in zip(a, b[:k] + b[k+1:]))]
    if not before['closed'] and n > 1:
        places = [k for k in places if 0 < k < n]
    expect(places, 'point-moved', '%s: existing points moved or changed order', what)
    sa, sb = ref.segments(a, before['closed']), ref.segments(b, after['closed'])
    why = ''
    if n == 1 and not before['closed']:
        # nothing but the point itself
        if all(near(p, a[0][0]) for p in ref.sample(sb, 16)):
            return 1
        raise Violation('curve-changed', '%s: something is drawn where there was but a point' % what)
    for k in places:
        gap = (k - 1) % n           # the segment of `before` that was split
        rest = [sb[i] for i in range(len(sb)) if i not in ((k - 1) % (n + 1), k)]
        old = [s for i, s in enumerate(sa) if i != gap]
        if k == 0:
            pass                    # closed, split the closing segment; new point first
        bad = [1 for s, t in zip(old, rest) if not all(near(p, q) for p, q in zip(s, t))]
        if bad or len(old) != len(rest):
            why = 'another part of the curve changed'
            continue
        parts = [sb[(k - 1) % (n + 1)], sb[k]]
        seg = sa[gap]
        ts = [0.5]
        for u, v, w in ((seg[0], seg[1], parts[0][1]), (seg[3], seg[2], parts[1][2])):
            i = 0 if abs(v[0]-u[0]) > abs(v[1]-u[1]) else 1
            if abs(v[i]-u[i]) > tol:
                t = (w[i]-u[i]) / (v[i]-u[i])
                ts.append(t if u is seg[0] else 1 - t)
        for t in ts:
            if 0 <= t <= 1 and all(near(p, q) for s, x in zip(split(seg, t), parts) for p, q in zip(s, x)):
                return k
        # not a plain subdivision: compare as sets of points
        one, two = ref.sample([seg], 400), ref.sample(parts, 300)
        bend = max(max(abs(u[0] - 2*v[0] + w[0]), abs(u[1] - 2*v[1] + w[1])) for s in [seg] + parts for u, v, w in zip(s, s[1:], s[2:]))
        err = max(ref.outline_dist(one, two), ref.outline_dist(two, one))
        if err <= 2e-5 * bend + tol:
            return k
        why = 'the curve moved by %.6g' % err
    raise Violation('curve-changed', '%s: %s' % (what, why))


class Curve(object):
    def __init__(self, real, what, live, n=0):
        self.real, self.what, self.live, self.n = real, what, live, n
        self.state = build.observe(real)


def run(sc, stats):
    cfg = sc['config']
    if not cfg['curves']:
        return
    shared = build.shared_points(cfg['pts'])
    model = Group('model', PenBrush('default'))
    curves = []
    for i, s in enumerate(cfg['curves']):
        if s['k'] == 'curve' and not s['cps']:
            continue
        e = build.elem(s, shared)
        if not isinstance(e, ElemCurve):
            e = e.as_curves()[0]
        elif i % 2:
            model.add(e.name, e)
        live = s['k'] == 'curve' and any(isinstance(v[0], str) for cp in s['cps'] for v in cp[:3])
        curves.append(Curve(e, s['name'], live))
    if not curves:
        return
    dc = DrawingContext(Image.new('RGBA', (8, 8), 'white'), Transform())
    dc.points_per_curve = 6
    history = set()
    members = [id(e) for e in model.elems.values()]

    def others(what, *changed):
        for c in curves:
            if c not in changed:
                d = build.same(build.observe(c.real), c.state, 0.0)
                expect(not d, 'other-changed', '%s changed %s at %s', what, c.what, d)
        expect([id(e) for e in model.elems.values()] == members, 'other-changed', '%s changed the model', what)

    for st in sc['steps']:
        op, i, j = st['op'], st['i'], st['j']
        c = curves[int(st['c'][1:]) % len(curves)]
        stats.step(st['c'], op)
        what = '%s on %s' % (op, c.what)
        e = c.real
        cps = e.control_points
        if op in ('add', 'add3'):
            for _ in range(1 if op == 'add' else 2 + i % 5):
                if len(e.control_points) > 60:
                    break
                e.add_one()
                now = build.observe(e)
                k = check_added(c.state, now, what)
                stats.probe('closing-segment' if c.state['closed'] and k in (0, len(now['cps']) - 1) else 'inner-segment')
                c.state = now
                c.n += 1
                others(what, c)
                stats.check()
            if history:
                stats.nontrivial()
        elif op == 'move':
            cp = cps[i % len(cps)]
            if type(cp.c) is Point and not c.live and j % 2:
                cp.c.setxy(st['x'], st['y'])
            else:
                cp.c = Point(st['x'], st['y'])
            c.state['cps'][i % len(cps)][0] = [st['x'], st['y']]
            history.add(op)
        elif op == 'handle':
            cp = cps[i % len(cps)]
            side = j % 2
            name = ('dl', 'dr')[side]
            if type(getattr(cp, name)) is Vector and not c.live and i % 2:
                getattr(cp, name).setxy(st['x'], st['y'])
            else:
                setattr(cp, name, Vector(st['x'], st['y']))
            c.state['cps'][i % len(cps)][1 + side] = [st['x'], st['y']]
            history.add(op)
        elif op == 'shared':
            shared[i % 3].setxy(st['x'], st['y'])
            for x in curves:
                if x.live:
                    x.state = build.observe(x.real)     # how far a point stays linked is not prescribed
            history.add(op)
        elif op in ('copy', 'transform'):
            if len(curves) > 7:
                continue
            if op == 'copy':
                real = e.copy() if j % 3 else e.fixed()
                new = Curve(real, 'copy of ' + c.what, c.live, c.n)
                expect(not build.same(new.state, c.state), 'wrong-copy', '%s: copy differs', what)
            else:
                new = Curve(e.transform(Transform(tuple(st['xf'] or ref.IDENT))), 'transformed ' + c.what, c.live, c.n)
            new.live = new.live and op == 'copy'
            curves.append(new)
            history.add(op)
        elif op == 'restore':
            o = curves[i % len(curves)]
            if o is c:
                continue
            what = 'restore of %s from %s' % (c.what, o.what)
            if len(o.state['cps']) != len(cps):
                try:
                    e.restore(o.real)
                    stats.probe('restored-other-size')
                    if c.state['closed'] != e.closed or not build.same(build.observe(e)['cps'], o.state['cps']):
                        c.state = build.observe(e)
                    else:
                        raise Violation('wrong-restore', '%s neither refused nor restored' % what)
                except Violation:
                    raise
                except Exception as err:        # noqa
                    stats.fault('refused-restore')
                    what += ' (refused: %s)' % type(err).__name__
            else:
                e.restore(o.real)
                expect(not build.same(build.observe(e)['cps'], o.state['cps']), 'wrong-restore', '%s: points differ', what)
                c.state = build.observe(e)
                c.live = c.live or o.live
            history.add(op)
        elif op == 'xf':
            if not (model.elems.get(e.name) is e and j % 2):
                e.xform.translate(st['x'], st['y'])
                c.state['xf'] = list(ref.mul(ref.translate(st['x'], st['y']), c.state['xf']))
        else:
            spec = dict(k='curve', name=e.name, pen=0, xf=c.state['xf'], closed=c.state['closed'], cps=c.state['cps'])
            got = e.paths(dc)
            expect(len(got) == 1, 'wrong-path', '%s: %d paths', what, len(got))

            def bad(fmt, *args):
                raise Violation('wrong-path', 'drawing %s: ' % c.what + fmt % args)
            ref.check_outline(build.path_points(got[0]), spec, ref.xf_of(spec), [], 6, bad, c.what)
        for x in curves:
            d = build.same(build.observe(x.real), x.state, 1e-12)
            expect(not d, 'other-changed', '%s: %s differs at %s', what, x.what, d)
            x.state = build.observe(x.real)
        stats.check()
        stats.state([op, [[x.state['closed'], len(x.state['cps'])] for x in curves]])
