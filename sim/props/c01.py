"""C01: derived points and vectors always follow their base points"""
import math

from PIL import Image

from .. import ref
from ..core import Violation, SimFault, expect
from ..build import (Point, PointRelative, PointCalc, Vector, VectorRelative, BBox, Line, ControlPoint, ElemCurve, PenBrush,
                     ElemRectangle, ElemEllipse, ElemRectangleRounded, Transform, DrawingContext, path_points)
from x7.geom.anim import AnimationHolder, AnimationLinear, AnimationCircular, AnimationSinusoidal, AnimationGeneric, Morph
from x7.geom.model import Group

RUNS = {'quick': 15000, 'thorough': 250000}
RULE = ('A run builds a random dependency network (plain points, corner points of shapes, offset, scaled and difference objects, up to 3 deep) with '
        'control points, lines and curves on top, then interleaves up to 30 steps of independent movers (set, setxy, restore, shape '
        'restore and box update, animation ticks that may be cut off at any component) and readers, among them readers that compute values and boxes and keep them; every object is compared with its '
        'definition after every step and inside every tick.  Non-trivial: a base moved after a derived object was read, with dependents '
        'at least two deep, or a tick was cut off.')
REAL = ['x7.geom.geom points, vectors, lines, boxes', 'x7.geom.bezier.ControlPoint', 'x7.geom.model shapes', 'x7.geom.anim animations and holder']
STUB = ['one animation component raises on demand (tick cut off)']
STATE_MEASURE = 'multiset of node kinds with depth, last two movers, tick cut off or not'

KINDS = ['linear', 'circular', 'sinus', 'generic']


def gen(rng):
    npl = rng.randint(2, 5)
    pts = [[ref.gnum(rng), ref.gnum(rng)] for _ in range(npl)]
    shapes = [dict(k=rng.choice(['rect', 'ellipse', 'rrect']), p=[ref.gnum(rng) for _ in range(4)]) for _ in range(rng.randint(0, 2))]
    total = npl + 2*len(shapes)
    nodes = []
    kinds = ['pt'] * total
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(['rel', 'rel', 'rel', 'calc', 'calc', 'vec'])
        rels = [i for i, x in enumerate(kinds) if x == 'rel']
        points = [i for i, x in enumerate(kinds) if x != 'vec']
        if k == 'calc' and not rels:
            k = 'rel'
        if k == 'rel':
            base = rng.choice(points[-4:]) if rng.random() < 0.5 else rng.choice(points)
            nodes.append(dict(k='rel', dx=ref.gnum(rng, -20, 20), dy=ref.gnum(rng, -20, 20), b=base, at=rng.random() < 0.4))
        elif k == 'calc':
            nodes.append(dict(k='calc', b=rng.choice(rels), s=rng.choice([0.5, 2.0, -1.0, 1.0, 0.0])))
        else:
            nodes.append(dict(k='vec', a=rng.choice(points), b=rng.choice(points)))
        kinds.append(k)
    points = [i for i, x in enumerate(kinds) if x != 'vec']
    vecs = [i for i, x in enumerate(kinds) if x == 'vec']

    def pvec():
        if rng.random() < 0.15:
            return [0.0, 0.0]
        return rng.choice(vecs) if vecs and rng.random() < 0.5 else [ref.gnum(rng, -20, 20), ref.gnum(rng, -20, 20)]

    curves = [dict(closed=rng.random() < 0.5, xf=ref.gen_xf(rng),
                   cps=[[rng.choice(points), pvec(), pvec()] for _ in range(rng.randint(2, 4))]) for _ in range(rng.randint(1, 2))]
    lines = [[rng.choice(points), pvec()] for _ in range(rng.randint(0, 2))]
    anims = []
    for _ in range(rng.randint(0, 4)):
        anims.append(dict(k=rng.choice(KINDS), p=rng.randrange(total), t=rng.choice(points), a=ref.gnum(rng, -20, 20),
                          f=rng.choice([1.0, 2.0, 0.5]), o=rng.choice([0, 90, 45])))
    steps = []
    for _ in range(rng.randint(3, 30)):
        op = rng.choice(['set', 'setxy', 'setxy', 'restore', 'nudge', 'tick', 'tick', 'refuse', 'fixed', 'fixcurve', 'restorecurve', 'shape_update',
                         'shape_restore', 'redef', 'curve_transform', 'vecset', 'snapshape', 'morphtick', 'copyrel', 'value', 'value', 'boxes', 'cpcopy'])
        st = dict(c='%s%d' % (op[:4], rng.randrange(2)), op=op, i=rng.randrange(1000), j=rng.randrange(1000),
                  x=ref.gnum(rng), y=ref.gnum(rng), t=rng.choice([0.0, 0.25, 0.5, 1.0, rng.random()]))
        if op == 'tick' and rng.random() < 0.4:
            st['fault'] = 'cut'
            st['cut'] = rng.randrange(5)
        steps.append(st)
    return dict(config=dict(pts=pts, shapes=shapes, net=nodes, curves=curves, lines=lines, anims=anims), steps=steps)


def run(sc, stats):
    cfg = sc['config']
    W = World(cfg, stats)
    W.check('building')
    for st in sc['steps']:
        stats.step(st['c'], st['op'])
        W.step(st)
        W.check(st['op'])
    stats.state(W.kinds())


class World(object):
    def __init__(self, cfg, stats):
        self.stats = stats
        self.pos = []           # reference: positions of plain points
        self.obj = []           # real objects, plain points first
        self.defs = []          # reference: definitions
        self.names = []
        self.read = False
        for p in cfg['pts']:
            self.pos.append(list(p))
            self.obj.append(Point(*p, [None, 'a', 'b', None, 'fixed_a'][len(self.obj) % 5]))
        self.shapes = []
        cls = dict(rect=ElemRectangle, ellipse=ElemEllipse, rrect=ElemRectangleRounded)
        for s in cfg['shapes']:
            x1, y1, x2, y2 = s['p']
            extra = dict(radius=3.0) if s['k'] == 'rrect' else {}
            e = cls[s['k']]('s', PenBrush('black'), Point(x1, y1), Point(x2, y2), **extra)
            self.shapes.append((e, len(self.obj), []))
            self.obj += [e.p1, e.p2]
            self.pos += [[x1, y1], [x2, y2]]
        self.nplain = len(self.obj)
        self.defs = [('pt',)] * self.nplain
        self.depth = [0] * self.nplain
        for nd in cfg['net']:
            if nd['k'] == 'rel':
                self.defs.append(['rel', nd['dx'], nd['dy'], nd['b']])
                base = self.obj[nd['b']]
                if nd.get('at'):    # by its place
                    bx, by = self.val(nd['b'])
                    self.obj.append(PointRelative.fromxy(bx + nd['dx'], by + nd['dy'], base))
                else:
                    self.obj.append(PointRelative(nd['dx'], nd['dy'], base))
                self.depth.append(self.depth[nd['b']] + 1)
            elif nd['k'] == 'calc':
                self.defs.append(['calc', nd['b'], nd['s']])
                self.obj.append(PointCalc(self.obj[nd['b']], nd['s']))
                self.depth.append(self.depth[nd['b']] + 1)
            else:
                self.defs.append(['vec', nd['a'], nd['b']])
                self.obj.append(VectorRelative(self.obj[nd['a']], self.obj[nd['b']]))
                self.depth.append(max(self.depth[nd['a']], self.depth[nd['b']]) + 1)
        self.vconst = []
        self.curves = []
        for c in cfg['curves']:
            cps = [ControlPoint(self.obj[a], self.vec(dl), self.vec(dr)) for a, dl, dr in c['cps']]
            xf = Transform(tuple(c['xf'])) if c['xf'] else None
            self.curves.append(dict(real=ElemCurve('c', PenBrush('black'), cps, closed=c['closed'], xform=xf), closed=c['closed'],
                                    cps=[list(x) for x in c['cps']], xf=tuple(c['xf']) if c['xf'] else ref.IDENT, snap=None))
        self.lines = [(Line(self.obj[o], self.vec(d)), o, d) for o, d in cfg['lines']]
        self.fixed = []
        self.holder = AnimationHolder()
        self.anims = []
        self.cut = None
        for a in cfg['anims']:
            self.add_anim(a)
        self.last = (None, None)
        self.torn = False

    def kinds(self):
        return [sorted((d[0], n) for d, n in zip(self.defs, self.depth)), self.last, self.torn]

    def vec(self, v):
        if isinstance(v, list):
            out = Vector(*v)
            self.vconst.append((out, v))
            return out
        return self.obj[v]

    # ---- reference values
    def val(self, i):
        d = self.defs[i]
        if d[0] == 'pt':
            return tuple(self.pos[i])
        if d[0] == 'rel':
            b = self.val(d[3])
            return b[0] + d[1], b[1] + d[2]
        if d[0] == 'calc':
            r = self.defs[d[1]]
            b = self.val(r[3])
            return b[0] + d[2]*r[1], b[1] + d[2]*r[2]
        a, b = self.val(d[1]), self.val(d[2])
        return a[0]-b[0], a[1]-b[1]

    def vval(self, v):
        return tuple(v) if isinstance(v, list) else self.val(v)

    def cval(self, c):
        """Current (c, dl, dr) of every control point of a curve"""
        return [x if isinstance(x, tuple) else (self.val(x[0]), self.vval(x[1]), self.vval(x[2])) for x in c['cps']]

    # ---- animations
    def add_anim(self, a):
        i = a['p'] % self.nplain
        p, orig = self.obj[i], tuple(self.pos[i])
        tgt = a['t']
        if a['k'] == 'linear':
            self.holder.add(AnimationLinear(p, self.obj[tgt]))

            def f(t):
                T = self.val(tgt)
                return orig[0] + t*(T[0]-orig[0]), orig[1] + t*(T[1]-orig[1])
        elif a['k'] == 'circular':
            self.holder.add(AnimationCircular(p, a['a'], a['f'], math.radians(a['o'])))

            def f(t):
                th = t*math.tau*a['f'] + math.radians(a['o'])
                return orig[0] + a['a']*math.sin(th), orig[1] + a['a']*math.cos(th)
        elif a['k'] == 'sinus':
            self.holder.add(AnimationSinusoidal(p, self.obj[tgt], a['f'], a['o']))

            def f(t):
                k = (1 - math.cos(t*math.tau*a['f'] + math.radians(a['o']))) / 2
                T = self.val(tgt)
                return orig[0] + k*(T[0]-orig[0]), orig[1] + k*(T[1]-orig[1])
        else:
            self.holder.add(AnimationGeneric(p, lambda t, o, q: (o.x + a['a']*t, o.y - a['a']*t)))

            def f(t):
                return orig[0] + a['a']*t, orig[1] - a['a']*t
        num = len(self.anims)
        self.anims.append((i, f))

        def trip(t, o, q):
            # Runs inside the tick, right after component num
            i2, f2 = self.anims[num]
            self.pos[i2] = list(f2(t))
            self.check('component %d of a tick' % num)
            if self.cut == num:
                self.stats.fault('tick-cut')
                raise SimFault('cut')
            return 0.0, 0.0

        self.holder.add(AnimationGeneric(Point(0, 0), trip))

    # ---- one step
    def step(self, st):
        op, i, j = st['op'], st['i'], st['j']
        self.last = (self.last[1], op)
        i %= self.nplain
        target = self.obj[i]
        other = j % len(self.obj)
        x, y = st['x'], st['y']
        if op in ('set', 'restore'):
            if self.defs[other][0] == 'vec' and op == 'restore':
                return
            val = self.val(other)
            exact = tuple(self.obj[other].xy())
            getattr(target, op)(self.obj[other])
            expect(tuple(target.xy()) == exact, 'not-moved', 'point %d moved to %r is at %r', i, exact, target.xy())
            self.pos[i] = list(val)
            self.moved(i)
        elif op == 'setxy':
            target.setxy(x, y)
            expect(tuple(target.xy()) == (x, y), 'not-moved', 'point %d moved to %r is at %r', i, (x, y), target.xy())
            self.pos[i] = [x, y]
            self.moved(i)
        elif op == 'nudge':
            # moves however small are moves
            d = [1e-3, 1e-5, 3e-7, 1e-8, 2e-9, 1e-12, 0.0][st['j'] % 7]
            x, y = target.xy()
            x = x + d if st['i'] % 2 or not d else x
            y = y - d if st['i'] % 3 or not d else y
            if not d:
                x = math.nextafter(x, math.inf)
            how = int(st['t'] * 10) % 3
            if how == 0:
                target.setxy(x, y)
            elif how == 1:
                target.set(Point(x, y))
            else:
                target.restore(Point(x, y))
            expect(tuple(target.xy()) == (x, y) and (target.x, target.y) == (x, y), 'not-moved', 'point %d moved by %g is at %r, expected %r', i, d, target.xy(), (x, y))
            self.pos[i] = [x, y]
            self.moved(i)
        elif op == 'tick':
            self.cut = st.get('cut') % max(1, len(self.anims)) if st.get('fault') else None
            if self.cut is not None:
                self.stats.plan('tick-cut')
            try:
                self.holder.update(st['t'])
                expect(self.cut is None or not self.anims, 'error-swallowed', 'the failing component of a tick was swallowed')
            except SimFault:
                self.torn = True
            self.cut = None
            self.stats.sim_time += 1/30
            self.stats.probe('tick')
            self.stats.nontrivial()
        elif op == 'refuse':
            k = self.nplain + j % max(1, len(self.obj) - self.nplain)
            if k < len(self.obj):
                o = self.obj[k]
                for call in (lambda: o.setxy(x, y), lambda: o.set(Point(x, y)) if self.defs[k][0] != 'vec' else o.set(Vector(x, y))):
                    try:
                        call()
                    except Exception:   # noqa any refusal
                        continue
                    raise Violation('derived-moved', '%s accepted to be moved directly' % type(o).__name__)
                self.stats.probe('refused')
        elif op == 'fixed':
            if len(self.fixed) < 30:
                val = self.val(other)
                fx = self.obj[other].fixed()
                self.fixed.append((fx, val, 'fixed copy of object %d' % other))
                if self.defs[other][0] == 'pt':
                    self.fixed.append((self.obj[other].copy(), val, 'copy of point %d' % other))
        elif op == 'copyrel':
            # the copy of an offset or scaled point follows the same base
            k = self.nplain + j % max(1, len(self.obj) - self.nplain)
            if k < len(self.obj) and self.defs[k][0] in ('rel', 'calc') and len(self.obj) < 30:
                d = list(self.defs[k])
                self.obj.append(self.obj[k].copy())
                self.defs.append(d)
                self.depth.append(self.depth[k])
        elif op == 'fixcurve':
            c = self.curves[j % len(self.curves)]
            cp = c['real'].copy() if st['i'] % 2 else c['real'].fixed()
            c['snap'] = (cp, self.cval(c))
        elif op == 'restorecurve':
            c = self.curves[j % len(self.curves)]
            if c['snap']:
                c['real'].restore(c['snap'][0])
                c['cps'] = [tuple(v) for v in c['snap'][1]]     # detached from now on
        elif op == 'shape_update' and self.shapes:
            e, k, snaps = self.shapes[j % len(self.shapes)]
            e.bbox_int_update(BBox(x, y, x + 20, y + 10))
            self.pos[k], self.pos[k+1] = [x, y], [x+20, y+10]
            self.moved(k)
        elif op == 'snapshape' and self.shapes:
            e, k, snaps = self.shapes[j % len(self.shapes)]
            snaps.append((e.copy(), list(self.pos[k]), list(self.pos[k+1])))
        elif op == 'shape_restore' and self.shapes:
            e, k, snaps = self.shapes[j % len(self.shapes)]
            if snaps:
                snap, a, b = snaps[st['i'] % len(snaps)]
                e.restore(snap)
                self.pos[k], self.pos[k+1] = list(a), list(b)
                self.moved(k)
        elif op == 'redef':
            k = self.nplain + j % max(1, len(self.obj) - self.nplain)
            if k < len(self.obj) and self.defs[k][0] == 'rel':
                self.obj[k].dx = x
                self.defs[k][1] = x
                if st['i'] % 3 == 0:
                    self.obj[k].base = self.obj[i]
                    self.defs[k][3] = i
                self.moved(k)
        elif op == 'vecset':
            # a plain vector used by several handles is as live as a point
            if self.vconst:
                v, val = self.vconst[j % len(self.vconst)]
                if st['i'] % 2:
                    v.setxy(x, y)
                else:
                    v.set(Vector(x, y))
                val[:] = [x, y]
        elif op == 'curve_transform':
            c = self.curves[j % len(self.curves)]
            m = [1.0, 0.5, x, -0.5, 1.0, y]
            got = c['real'].transform(Transform(tuple(m)))
            whole = ref.mul(tuple(m), c['xf'])
            cv = self.cval(c)
            for k, (cp, (cc, dl, dr)) in enumerate(zip(got.control_points, cv)):
                self.near(cp.c.xy(), ref.apply(whole, cc), 'point %d of the transformed curve', k)
                self.near(cp.l.xy(), ref.apply(whole, (cc[0]+dl[0], cc[1]+dl[1])), 'left handle %d of the transformed curve', k)
            if len(self.fixed) < 30:
                self.fixed.append((got.control_points[0].c, ref.apply(whole, cv[0][0]), 'point of a transformed curve'))
        elif op == 'value':
            self.value(st)
        elif op == 'boxes':
            self.boxes(st)
        elif op == 'cpcopy':
            # rounded, fixed and copied control points are values of their own
            c = self.curves[j % len(self.curves)]
            cv = self.cval(c)
            k = st['i'] % len(cv)
            cp, (cc, dl, dr) = c['real'].control_points[k], cv[k]
            if len(self.fixed) < 24:
                kind = st['t']
                if kind < 0.3:
                    got, what = cp.fixed(), 'fixed control point'
                elif kind < 0.6:
                    got, what = cp.copy(), 'copied control point'
                    if isinstance(c['cps'][k], tuple) or any(not isinstance(v, list) or self.defs[c['cps'][k][0]][0] != 'pt'
                                                             for v in c['cps'][k][1:]):
                        return      # the copy of a derived object goes on following
                else:
                    got, what = cp.transform(Transform((1.0, 0.0, x, 0.0, 1.0, y))), 'moved control point'
                    cc = (cc[0] + x, cc[1] + y)
                self.fixed.append((got.c, cc, what))
                self.fixed.append((got.l, (cc[0]+dl[0], cc[1]+dl[1]), what + ', left handle'))
                self.fixed.append((got.r, (cc[0]+dr[0], cc[1]+dr[1]), what + ', right handle'))
        elif op == 'morphtick':
            # blending one curve over another leaves both alone, whatever they are built on
            c = self.curves[0]
            d = self.curves[-1]
            if len(c['cps']) == len(d['cps']) and c is not d:
                g = Group('g', PenBrush('black'))
                g.add('c', c['real'])
                name = c['real'].name
                Morph(g, c['real'], d['real'], lambda t: t, force=False).update(st['t'])
                c['real'].name = name

    def value(self, st):
        """Compute something from the current positions; it has the value of now, and keeps it"""
        pts = [n for n, d in enumerate(self.defs) if d[0] != 'vec']
        vecs = [n for n, d in enumerate(self.defs) if d[0] == 'vec']
        na, nb = pts[st['i'] % len(pts)], pts[st['j'] % len(pts)]
        a, b = self.obj[na], self.obj[nb]
        A, B = self.val(na), self.val(nb)
        V = (st['x'], st['y'])
        v = Vector(*V)
        if vecs and st['t'] < 0.5:
            nv = vecs[st['i'] % len(vecs)]
            v, V = self.obj[nv], self.val(nv)
        D = (B[0]-A[0], B[1]-A[1])
        k = [0.5, 2.0, -1.0, 1.0][st['j'] % 4]
        c90 = (-V[1], V[0])
        todo = [
            ('point + vector', lambda: a + v, (A[0]+V[0], A[1]+V[1])),
            ('vector + point', lambda: v + a, (A[0]+V[0], A[1]+V[1])),
            ('point - vector', lambda: a - v, (A[0]-V[0], A[1]-V[1])),
            ('point - point', lambda: b - a, D),
            ('negated point', lambda: -a, (-A[0], -A[1])),
            ('middle', lambda: a.mid(b), ((A[0]+B[0])/2, (A[1]+B[1])/2)),
            ('vector of a point', lambda: a.v, A),
            ('vector + vector', lambda: v + a.v, (A[0]+V[0], A[1]+V[1])),
            ('vector - vector', lambda: v - b.v, (V[0]-B[0], V[1]-B[1])),
            ('vector times number', lambda: v * k, (V[0]*k, V[1]*k)),
            ('number times vector', lambda: k * v, (V[0]*k, V[1]*k)),
            ('vector by number', lambda: v / k, (V[0]/k, V[1]/k)),
            ('negated vector', lambda: -v, (-V[0], -V[1])),
            ('normal', lambda: v.normal(), (V[1], -V[0])),
            ('turned vector', lambda: v.rotate(90), c90),
            ('point of a vector', lambda: v.p, V),
            ('fixed vector', lambda: v.fixed(), V),
            ('rounded point', lambda: round(a, 1), (round(A[0], 1), round(A[1], 1))),
            ('rounded point', lambda: a.round(1), (round(A[0], 1), round(A[1], 1))),
            ('end of a line', lambda: Line(a, v).p2, (A[0]+V[0], A[1]+V[1])),
            ('end of a line', lambda: Line(a, b).p2, B),
            ('end of a line', lambda: Line.from_pts(a, b).p2, B),
            ('middle of a line', lambda: Line(a, v).midpoint, (A[0]+V[0]/2, A[1]+V[1]/2)),
            ('middle of a line', lambda: Line(a, b).midpoint, ((A[0]+B[0])/2, (A[1]+B[1])/2)),
            ('corner of a box', lambda: BBox(a, b).p1, (min(A[0], B[0]), min(A[1], B[1]))),
            ('corner of a box', lambda: BBox(a, b).phh, (max(A[0], B[0]), max(A[1], B[1]))),
            ('middle of a box', lambda: BBox(a, b).center, ((A[0]+B[0])/2, (A[1]+B[1])/2)),
        ]
        c = self.curves[st['j'] % len(self.curves)]
        m = st['i'] % len(c['cps'])
        cp, (cc, dl, dr) = c['real'].control_points[m], self.cval(c)[m]
        todo += [('left handle', lambda: cp.l, (cc[0]+dl[0], cc[1]+dl[1])), ('right handle', lambda: cp.r, (cc[0]+dr[0], cc[1]+dr[1]))] * 3
        zero = Vector(0, 0)
        todo += [('point + zero vector', lambda: a + zero, A), ('point - zero vector', lambda: a - zero, A)]
        if math.hypot(*V) > 1e-6:
            n = math.hypot(*V)
            todo.append(('unit vector', lambda: v.unit(), (V[0]/n, V[1]/n)))
            s = (D[0]*V[0] + D[1]*V[1]) / n / n
            todo.append(('closest point', lambda: Line(a, v).closest(b), (A[0]+s*V[0], A[1]+s*V[1])))
        what, f, want = todo[int(st['t'] * 997 + st['i'] * 31 + st['j']) % len(todo)]
        if what == 'rounded point' and any(abs(z * 10 % 1 - 0.5) < 1e-6 for z in A):
            return
        got = f()
        self.near(got.xy(), want, '%s', what)
        if len(self.fixed) < 24:
            self.fixed.append((got, want, what))
            self.stats.probe('value-kept')
        # simple numbers
        self.near((v.dot(b.v), v.cross(b.v)), (V[0]*B[0]+V[1]*B[1], V[0]*B[1]-V[1]*B[0]), 'dot and cross product')
        expect(a.close(b, 0.5) == (math.hypot(*D) < 0.5) or abs(math.hypot(*D) - 0.5) < 1e-6, 'not-following', 'close() of two points')

    def boxes(self, st):
        """Boxes are values: making one from others changes neither them nor, later, it"""
        i, j = st['i'], st['j']
        real = [BBox(None)]
        want = [(None,)*4]
        for c in self.curves:
            cv = [(q[0] + d[0], q[1] + d[1]) for q, dl, dr in self.cval(c) for d in ((0, 0), dl, dr)]
            real.append(c['real'].bbox_int())
            want.append((min(p[0] for p in cv), min(p[1] for p in cv), max(p[0] for p in cv), max(p[1] for p in cv)))
        for e, k, snaps in self.shapes:
            p, q = self.pos[k], self.pos[k+1]
            real.append(e.bbox_int())
            want.append((min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1])))
        r, w, s, u = real[i % len(real)], want[i % len(real)], real[j % len(real)], want[j % len(real)]

        def union(w, u):
            if w[0] is None or u[0] is None:
                return u if w[0] is None else w
            return min(w[0], u[0]), min(w[1], u[1]), max(w[2], u[2]), max(w[3], u[3])

        made = [(r + s, union(w, u), 'union of boxes'), (r.copy(), w, 'copy of a box')]
        if w[0] is not None:
            made.append((r.expand(3, 1), (w[0]-3, w[1]-1, w[2]+3, w[3]+1), 'expanded box'))
            made.append((r.transformed(Transform((1.0, 0.0, 5.0, 0.0, -1.0, 2.0))), (w[0]+5, 2-w[3], w[2]+5, 2-w[1]), 'transformed box'))
        if w[0] is not None and u[0] is not None and max(w[0], u[0]) < min(w[2], u[2]) and max(w[1], u[1]) < min(w[3], u[3]):
            made.append((r.intersection(s), (max(w[0], u[0]), max(w[1], u[1]), min(w[2], u[2]), min(w[3], u[3])), 'intersection of boxes'))
        made += [(r, w, 'box'), (s, u, 'box')]
        for n in range(len(made)):
            for m, (box, val, what) in enumerate(made):
                self.box_is(box, val, what)
            # edit the boxes one after the other: none of the others changes
            box, val, what = made[n]
            if any(box is o[0] for o in made[:n]):
                break
            px, py = st['x'] + 500*n, st['y'] - 300*n
            box.grow(Point(px, py))
            for m in range(len(made)):
                if made[m][0] is box and (m == n or (m >= len(made) - 2 and n >= len(made) - 2)):
                    made[m] = (box, union(made[m][1], (px, py, px, py)), made[m][2])
        for box, val, what in made:
            self.box_is(box, val, what)
        self.stats.probe('boxes')

    def box_is(self, box, val, what):
        if val[0] is None:
            expect(box.is_none and box.xl is None, 'not-following', '%s is %r, expected none', what, box)
        else:
            expect(not box.is_none, 'not-following', '%s is none', what)
            self.near((box.xl, box.yl), val[:2], '%s, low corner', what)
            self.near((box.xh, box.yh), val[2:], '%s, high corner', what)

    def moved(self, i):
        if self.read and any(n > 1 for n in self.depth):
            self.stats.nontrivial()
        self.stats.probe('moved-after-read' if self.read else 'moved')

    def near(self, got, want, fmt, *args):
        tol = 1e-12 * (1 + abs(want[0]) + abs(want[1]) + 200)
        if not (abs(float(got[0]) - want[0]) <= tol and abs(float(got[1]) - want[1]) <= tol):
            raise Violation('not-following', '%s is (%r, %r), expected (%r, %r)' % (
                fmt % args, float(got[0]), float(got[1]), want[0], want[1]))

    def check(self, when):
        self.stats.check()
        self.read = True
        for i, o in enumerate(self.obj):
            want = self.val(i)
            kind = self.defs[i][0]
            self.near(o.xy(), want, '%s %d after %s: xy()', kind, i, when)
            self.near((o.x, o.y), want, '%s %d after %s: .x/.y', kind, i, when)
            self.near(tuple(o), want, '%s %d after %s: iteration', kind, i, when)
            if kind == 'vec':
                self.near(o.p.xy(), want, '%s %d after %s: .p', kind, i, when)
                self.near((o.length(), 0), (math.hypot(*want), 0), '%s %d after %s: length', kind, i, when)
                self.near((-o).xy(), (-want[0], -want[1]), '%s %d after %s: negated', kind, i, when)
                expect(bool(o) == bool(o.x or o.y), 'not-following', '%s %d after %s: truth value', kind, i, when)
                self.near(o.normal().xy(), (want[1], -want[0]), '%s %d after %s: normal', kind, i, when)
                self.near(o.rotate(90).xy(), (-want[1], want[0]), '%s %d after %s: turned', kind, i, when)
                self.near((o * 2).xy(), (want[0]*2, want[1]*2), '%s %d after %s: doubled', kind, i, when)
                self.near((o / 2).xy(), (want[0]/2, want[1]/2), '%s %d after %s: halved', kind, i, when)
                self.near((o + UNIT).xy(), (want[0]+1, want[1]+2), '%s %d after %s: plus a vector', kind, i, when)
                self.near((UNIT - o).xy(), (1-want[0], 2-want[1]), '%s %d after %s: from a vector', kind, i, when)
                self.near((o.dot(UNIT), o.cross(UNIT)), (want[0]+2*want[1], 2*want[0]-want[1]), '%s %d after %s: products', kind, i, when)
            else:
                self.near(o.v.xy(), want, '%s %d after %s: .v', kind, i, when)
                self.near(o.fixed().xy(), want, '%s %d after %s: fixed copy', kind, i, when)
                if i >= self.nplain or i == 0:
                    self.near((-o).xy(), (-want[0], -want[1]), '%s %d after %s: negated', kind, i, when)
                    self.near((o + UNIT).xy(), (want[0]+1, want[1]+2), '%s %d after %s: plus a vector', kind, i, when)
                    self.near((UNIT + o).xy(), (want[0]+1, want[1]+2), '%s %d after %s: added to a vector', kind, i, when)
                    self.near((o - UNIT).xy(), (want[0]-1, want[1]-2), '%s %d after %s: minus a vector', kind, i, when)
                    self.near((o - ORIGIN).xy(), (want[0]-1, want[1]+1), '%s %d after %s: minus a point', kind, i, when)
                    self.near((ORIGIN - o).xy(), (1-want[0], -1-want[1]), '%s %d after %s: from a point', kind, i, when)
                    self.near(o.mid(ORIGIN).xy(), ((want[0]+1)/2, (want[1]-1)/2), '%s %d after %s: middle', kind, i, when)
                    self.near(ORIGIN.mid(o).xy(), ((want[0]+1)/2, (want[1]-1)/2), '%s %d after %s: middle', kind, i, when)
        a, b = self.obj[0], self.obj[-1]
        va, vb = self.val(0), self.val(len(self.obj)-1)
        if self.defs[-1][0] != 'vec':
            self.near((b - a).xy(), (vb[0]-va[0], vb[1]-va[1]), 'difference after %s', when)
            self.near(((b - a).length(), 0), (math.hypot(vb[0]-va[0], vb[1]-va[1]), 0), 'distance after %s', when)
            self.near(a.mid(b).xy(), ((va[0]+vb[0])/2, (va[1]+vb[1])/2), 'midpoint after %s', when)
            bb = BBox(a, b)
            self.near((bb.xl, bb.yl), (min(va[0], vb[0]), min(va[1], vb[1])), 'box after %s', when)
        else:
            self.near((a + b).xy(), (vb[0]+va[0], vb[1]+va[1]), 'sum after %s', when)
        for fx, val, what in self.fixed:
            self.near(fx.xy(), val, '%s after %s', what, when)
            self.near((fx.x, fx.y), val, '%s after %s', what, when)
        for line, o, d in self.lines:
            p, v = self.val(o), self.vval(d)
            self.near(line.p1.xy(), p, 'line start after %s', when)
            self.near(line.p2.xy(), (p[0]+v[0], p[1]+v[1]), 'line end after %s', when)
            self.near(line.midpoint.xy(), (p[0]+v[0]/2, p[1]+v[1]/2), 'line midpoint after %s', when)
        dc = None
        for n, c in enumerate(self.curves):
            cv = self.cval(c)
            xs, ys = [], []
            for k, (cp, (cc, dl, dr)) in enumerate(zip(c['real'].control_points, cv)):
                self.near(cp.c.xy(), cc, 'curve %d point %d after %s', n, k, when)
                for side, h, dv in (('left', cp.l, dl), ('right', cp.r, dr)):
                    w = (cc[0]+dv[0], cc[1]+dv[1])
                    self.near(h.xy(), w, 'curve %d %s handle %d after %s', n, side, k, when)
                    xs.append(w[0])
                    ys.append(w[1])
                xs.append(cc[0])
                ys.append(cc[1])
            bb = c['real'].bbox_int()
            self.near((bb.xl, bb.yl), (min(xs), min(ys)), 'box of curve %d after %s', n, when)
            self.near((bb.xh, bb.yh), (max(xs), max(ys)), 'box of curve %d after %s', n, when)
            if c['snap']:
                for k, (cp, (cc, dl, dr)) in enumerate(zip(c['snap'][0].control_points, c['snap'][1])):
                    self.near(cp.c.xy(), cc, 'snapshot of curve %d, point %d after %s', n, k, when)
                    self.near(cp.r.xy(), (cc[0]+dr[0], cc[1]+dr[1]), 'snapshot of curve %d, handle %d after %s', n, k, when)
            # extracted path
            if dc is None:
                dc = DrawingContext(IMG, Transform())
                dc.points_per_curve = 4
            spec = dict(k='curve', name='c', closed=c['closed'], cps=[[list(p), list(q), list(r), ''] for p, q, r in cv])
            path, = c['real'].paths(dc)
            ref.check_outline(path_points(path), spec, c['xf'], [], 4, self.fail, 'path of curve %d after %s' % (n, when))
        for e, k, snaps in self.shapes:
            bb = e.bbox_int()
            p, q = self.pos[k], self.pos[k+1]
            self.near((bb.xl, bb.yl), (min(p[0], q[0]), min(p[1], q[1])), 'box of shape after %s', when)
            self.near((bb.xh, bb.yh), (max(p[0], q[0]), max(p[1], q[1])), 'box of shape after %s', when)
            for snap, a, b in snaps:
                self.near(snap.p1.xy(), a, 'corner of shape snapshot after %s', when)
                self.near(snap.p2.xy(), b, 'corner of shape snapshot after %s', when)

    @staticmethod
    def fail(fmt, *args):
        raise Violation('not-following', fmt % args)


IMG = Image.new('RGBA', (8, 8), 'white')
UNIT = Vector(1, 2)
ORIGIN = Point(1, -1)
