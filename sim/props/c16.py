"""C16: vector fields answer from their current values; derived fields are independent"""
import math
import random
import warnings

import numpy as np
from matplotlib.figure import Figure

from .. import ref
from ..core import SimFault, expect, patched, pick, close
from ..build import Point, Vector, ControlPoint, BBox
from x7.geom.vec_field import Mesh, VectorField
import scipy.interpolate

RUNS = {'quick': 10000, 'thorough': 600000}
RULE = ('A run keeps 1-8 fields on 1-3 meshes (2-12 steps per side, any box) and a plain-Python replica of all grid values, and interleaves 6-40 steps of several '
        'owners: edit values in place (single, row, whole, through another reference), replace value arrays (also one of the two, other element types and orders), look up at '
        'grid points, inside and outside, transform points and control points, copy, normalise, smooth, scale, plot, create random fields under a seeded generator, '
        'and failing allocations inside lookups. After every step all fields equal their replica. Non-trivial: a lookup after an edit or replacement of a field looked up before, or a fault.')
REAL = ['x7.geom.vec_field.VectorField and Mesh', 'x7.geom.transform.Transformer', 'x7.geom.bezier.ControlPoint.transform', 'scipy interpolation', 'numpy']
STUB = ['the axes given to quiver (records the arrows)', 'the random generator is seeded']
STATE_MEASURE = '(operation, number of fields, looked up before, edited since, element type, steps)'
ASSUMPTIONS = ['meshes have two or more steps and a box of non-zero width and height', 'numbers between 1e-12 and 1e6 in magnitude (or zero)']

OPS = ['edit', 'edit', 'edit', 'row', 'fill', 'inplace-op', 'replace', 'replace', 'replace-x', 'replace-y', 'replace-int', 'replace-f', 'lookup', 'lookup', 'lookup',
       'lookup', 'grid', 'grid', 'pts', 'pts', 'np_pts', 'cp', 'width', 'copy', 'copy', 'normalized', 'smoothed', 'scaled', 'scaled', 'scaled2', 'uniform', 'new', 'quiver', 'equal',
       'fault', 'swap', 'constant', 'loop']


def gen_mesh(rng):
    k = rng.choice([1, 1, 1, 1e-3, 1e3])
    x, y = ref.gnum(rng), ref.gnum(rng)
    w, h = rng.choice([1, 2, 5, 10, 7.5, 100]), rng.choice([1, 2, 5, 10, 3.25, 30])
    return [x*k, y*k, (x+w)*k, (y+h)*k, rng.choice([2, 2, 3, 4, 5, 6, 8, 12]) if rng.random() < 0.97 else rng.randint(13, 40)]


def gen(rng):
    steps = [dict(c='o%d' % rng.randrange(4), op=rng.choice(OPS), f=rng.randrange(8), g=rng.randrange(8), i=rng.randrange(100), j=rng.randrange(100),
                  v=rng.choice([rng.uniform(-3, 3), float(rng.randint(-5, 5)), rng.uniform(-100, 100)]) if rng.random() < 0.9 else rng.uniform(-1, 1) * 10.0**rng.randint(-12, 6), s=rng.randrange(10**6),
                  u=[round(rng.uniform(-0.3, 1.3), 3), round(rng.uniform(-0.3, 1.3), 3)]) for _ in range(rng.randint(6, 40))]
    return dict(config=dict(meshes=[gen_mesh(rng) for _ in range(rng.randint(1, 3))]), steps=steps)


class Field(object):
    def __init__(self, real, mesh, vx, vy):
        self.real = real
        self.mesh = mesh
        self.vx = vx            # replica: lists of lists
        self.vy = vy
        self.used = False
        self.stale = False      # edited since last lookup


def listed(a):
    return [[float(v) for v in row] for row in a]


def interp(xs, ys, v, x, y):
    """Bilinear, extrapolating the outer cells"""
    def cell(c, p):
        i = 0
        while i < len(c) - 2 and p >= c[i+1]:
            i += 1
        return i, (p - c[i]) / (c[i+1] - c[i])
    i, s = cell(xs, x)
    j, t = cell(ys, y)
    return (v[i][j]*(1-s)*(1-t) + v[i+1][j]*s*(1-t) + v[i][j+1]*(1-s)*t + v[i+1][j+1]*s*t)


class World(object):
    def __init__(self, stats, cfg):
        self.stats = stats
        self.meshes = []
        for xl, yl, xh, yh, n in cfg['meshes']:
            m = Mesh(BBox(xl, yl, xh, yh), n)
            xs = [xl + (xh-xl) * i / (n-1) for i in range(n)]
            ys = [yl + (yh-yl) * i / (n-1) for i in range(n)]
            for got, want in ((m.coord_x, xs), (m.coord_y, ys)):
                expect(len(got) == n and all(abs(a - b) <= 1e-9 * (abs(xs[0]) + abs(xs[-1]) + abs(ys[0]) + abs(ys[-1])) for a, b in zip(got, want)), 'mesh',
                       'mesh coordinates %s, should be %s', list(got), want)
            self.meshes.append((m, [float(v) for v in m.coord_x], [float(v) for v in m.coord_y]))
        self.fields = []

    def add(self, real, mesh, vx=None, vy=None):
        n = len(self.meshes[mesh][1])
        expect(np.shape(real.vx) == (n, n) and np.shape(real.vy) == (n, n), 'shape', 'field has values of shape %s, %s on a mesh of %d steps',
               np.shape(real.vx), np.shape(real.vy), n)
        expect(real.mesh == self.meshes[mesh][0], 'mesh', 'field has another mesh')
        f = Field(real, mesh, vx if vx is not None else listed(real.vx), vy if vy is not None else listed(real.vy))
        if len(self.fields) < 8:
            self.fields.append(f)
        else:
            self.fields[0] = f
        return f

    def check_all(self, op):
        for k, f in enumerate(self.fields):
            for name, got, want in (('vx', f.real.vx, f.vx), ('vy', f.real.vy, f.vy)):
                expect(listed(got) == want, 'values', '%s: %s of field %d changed', op, name, k)
        self.stats.check(len(self.fields))

    def at(self, f, x, y):
        m, xs, ys = self.meshes[f.mesh]
        return interp(xs, ys, f.vx, x, y), interp(xs, ys, f.vy, x, y)

    def tol(self, f, x, y):
        m, xs, ys = self.meshes[f.mesh]
        big = max(abs(v) for a in (f.vx, f.vy) for row in a for v in row)
        out = 1 + abs(x - xs[0]) / (xs[1] - xs[0]) + abs(y - ys[0]) / (ys[1] - ys[0])
        pos = max(abs(v) for v in (xs[0], xs[-1], x)) / (xs[1] - xs[0]) + max(abs(v) for v in (ys[0], ys[-1], y)) / (ys[1] - ys[0])
        return 1e-12 * big * (out * out + pos * out) + 1e-300

    def check_moved(self, f, x, y, got, what):
        vx, vy = self.at(f, x, y)
        tol = self.tol(f, x, y) + 1e-12 * (abs(x) + abs(y))
        ok = abs(got[0] - (x+vx)) <= tol and abs(got[1] - (y+vy)) <= tol
        expect(ok, 'moved', '%s of (%g, %g) gives (%.9g, %.9g), should be (%.9g, %.9g)%s', what, x, y, got[0], got[1], x+vx, y+vy,
               ' (values were edited since the last lookup)' if f.stale else '')
        self.stats.check()

    def looked(self, f):
        if f.used and f.stale:
            self.stats.nontrivial()
            self.stats.probe('lookup after an edit of a used field')
        f.used, f.stale = True, False

    def point(self, f, u):
        m, xs, ys = self.meshes[f.mesh]
        return xs[0] + u[0] * (xs[-1]-xs[0]), ys[0] + u[1] * (ys[-1]-ys[0])


class Axes(object):
    def __init__(self):
        self.args = None

    def quiver(self, *args, **kw):
        self.args = args


def mags(vx, vy):
    return max(math.hypot(a, b) for r, s in zip(vx, vy) for a, b in zip(r, s))


def unshared(f, others, what):
    for o in others:
        for a in (f.real.vx, f.real.vy):
            for b in (o.real.vx, o.real.vy):
                expect(not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)), 'shared', '%s shares values with its source', what)


def run(sc, stats):
    cfg = sc['config']
    if not cfg['meshes']:
        return
    w = World(stats, cfg)
    random.seed(7)
    np.random.seed(7)
    for k in range(len(w.meshes)):
        f = w.add(w.meshes[k][0].zeros(), k)
        expect(all(v == 0 for row in f.vx + f.vy for v in row), 'zeros', 'zeros() has other values')
        w.add(w.meshes[k][0].uniform(2), k)
    w.check_all('start')
    for s in sc['steps']:
        step(w, s)
        w.check_all(s['op'])


def step(w, s):
    op, f, g = s['op'], pick(w.fields, s['f']), pick(w.fields, s['g'])
    stats = w.stats
    stats.step(s['c'], op)
    n = len(f.vx)
    i, j = s['i'] % n, s['j'] % n
    m, xs, ys = w.meshes[f.mesh]
    rng = random.Random(s['s'])
    stats.state([op, len(w.fields), f.used, f.stale, str(f.real.vx.dtype), n])

    def grid(k=3.0):
        return [[round(rng.uniform(-k, k), 3) for _ in range(n)] for _ in range(n)]

    if op == 'edit':
        if rng.random() < 0.5:
            f.real.vx[i, j] = s['v']
            f.vx[i][j] = float(f.real.vx[i, j])
        else:
            f.real.vy[i][j] = s['v']
            f.vy[i][j] = float(f.real.vy[i, j])
        f.stale = True
    elif op == 'row':
        f.real.vx[i] = [s['v'] * k for k in range(n)]
        f.vx[i] = [float(v) for v in f.real.vx[i]]
        f.real.vy[:, j] = s['v']
        for row, v in zip(f.vy, f.real.vy[:, j]):
            row[j] = float(v)
        f.stale = True
    elif op == 'fill':
        a = np.array(grid(3.0)) * (10.0 ** rng.randint(-12, 6) if rng.random() < 0.3 else 1.0)
        f.real.vx[...] = a
        f.vx = listed(f.real.vx)
        f.real.vy[:] = a.T
        f.vy = listed(f.real.vy)
        f.stale = True
    elif op == 'constant':
        f.real.vx[:] = s['v']
        f.real.vy[:] = -1
        f.vx, f.vy = [[float(f.real.vx[0, 0])] * n for _ in range(n)], [[-1.0] * n for _ in range(n)]
        f.stale = True
    elif op == 'inplace-op':
        a = f.real.vx
        np.negative(a, out=a)
        f.vx = [[-v for v in row] for row in f.vx]
        f.real.vy *= 2
        f.vy = [[2*v for v in row] for row in f.vy]
        f.stale = True
    elif op in ('replace', 'replace-x', 'replace-y', 'replace-int', 'replace-f', 'swap'):
        if op == 'swap':
            f.real.vx, f.real.vy = f.real.vy, f.real.vx
            f.vx, f.vy = f.vy, f.vx
        else:
            a, b = np.array(grid()), np.array(grid())
            if op == 'replace-int':
                a, b = np.rint(a).astype(int), np.rint(b).astype(int)
            elif op == 'replace-f':
                a, b = np.asfortranarray(a), (b.astype(np.float32) if rng.random() < 0.5 else np.ascontiguousarray(b[::-1, ::-1])[::-1, ::-1])
            if s['v'] > 0 and op in ('replace', 'replace-x', 'replace-y'):
                # other arrays with the same values, looked at, and then changed one by one
                if op != 'replace-y':
                    f.real.vx = np.array(f.real.vx)
                if op != 'replace-x':
                    f.real.vy = np.array(f.real.vy)
                f.stale = True
                x, y = w.point(f, s['u'])
                vx, vy = w.at(f, x, y)
                got = f.real.lookup(x, y)
                tol = w.tol(f, x, y)
                expect(abs(got[0] - vx) <= tol and abs(got[1] - vy) <= tol, 'lookup', 'lookup(%g, %g) in equal arrays gives (%.9g, %.9g), should be (%.9g, %.9g)', x, y, got[0], got[1], vx, vy)
                f.stale = False
                return
            if op != 'replace-y':
                f.real.vx, f.vx = a, listed(a)
            if op != 'replace-x':
                f.real.vy, f.vy = b, listed(b)
        f.stale = True
    elif op == 'lookup':
        x, y = w.point(f, s['u'])
        got = f.real.lookup(x, y)
        vx, vy = w.at(f, x, y)
        tol = w.tol(f, x, y)
        expect(abs(got[0] - vx) <= tol and abs(got[1] - vy) <= tol, 'lookup', 'lookup(%g, %g) gives (%.9g, %.9g), should be (%.9g, %.9g)%s', x, y, got[0], got[1], vx, vy,
               ' (values were edited since the last lookup)' if f.stale else '')
        stats.check()
        w.looked(f)
    elif op == 'grid':
        got = f.real.lookup(xs[i], ys[j])
        tol = 1e-13 * mags(f.vx, f.vy)
        expect(abs(got[0] - f.vx[i][j]) <= tol and abs(got[1] - f.vy[i][j]) <= tol, 'grid-point', 'grid point [%d, %d] has (%.9g, %.9g), looked up (%.9g, %.9g)', i, j,
               f.vx[i][j], f.vy[i][j], got[0], got[1])
        stats.check()
        w.looked(f)
    elif op in ('pts', 'np_pts', 'loop'):
        pts = [w.point(f, (rng.uniform(-0.2, 1.2), rng.uniform(-0.2, 1.2))) for _ in range(1 + s['i'] % 5)]
        if s['j'] % 5 == 0:
            pts = [pts[0]] * len(pts)               # the same point several times
        elif s['j'] % 5 == 1:
            pts = [(pts[0][0], pts[0][0])] * len(pts)
        if op == 'pts':
            kind = s['j'] % 3
            got = f.real.transform_pts([Point(*p) for p in pts] if kind == 1 else pts, flatten=kind == 2)
            if kind == 2:
                got = list(zip(got[::2], got[1::2]))
            elif kind == 1:
                expect(all(isinstance(p, Point) for p in got), 'type', 'transform_pts of points gives %s', [type(p).__name__ for p in got])
                got = [p.xy() for p in got]
        elif op == 'np_pts':
            got = [tuple(p)[:2] for p in f.real.transform_np_pts(f.real.points_to_np_points([Point(*p) for p in pts]))]
        else:
            got = []
            for p in pts:               # one at a time, with an edit in between
                got.append(f.real.transform(*p))
                w.check_moved(f, p[0], p[1], got[-1], 'transform')
                w.looked(f)
                f.real.vx[i, j] += 1
                f.vx[i][j] = float(f.real.vx[i, j])
                f.stale = True
            return
        expect(len(got) == len(pts), 'count', '%d points give %d', len(pts), len(got))
        for p, q in zip(pts, got):
            w.check_moved(f, p[0], p[1], q, 'transformation')
        w.looked(f)
    elif op == 'cp':
        c = w.point(f, s['u'])
        dl, dr = (-(xs[1]-xs[0]) * 0.2, (ys[1]-ys[0]) * 0.01 * s['v']), ((xs[1]-xs[0]) * 0.3, -(ys[1]-ys[0]) * 0.015 * s['v'])
        kind = ['sharp', 'smooth', 'very-smooth'][s['i'] % 3]
        if kind == 'very-smooth':
            dr = (-dl[0], -dl[1])
        pt = f.real.transform_pt(Point(*c))
        w.check_moved(f, c[0], c[1], pt.xy(), 'transform_pt')
        l, r = (c[0]+dl[0], c[1]+dl[1]), (c[0]+dr[0], c[1]+dr[1])
        ml, mr = [(p[0]+w.at(f, *p)[0], p[1]+w.at(f, *p)[1]) for p in (l, r)]
        hl, hr = [math.hypot(p[0]-pt.x, p[1]-pt.y) for p in (ml, mr)]
        apart = math.hypot(ml[0]-mr[0], ml[1]-mr[1])
        tol = 10 * (w.tol(f, *l) + w.tol(f, *r) + w.tol(f, *c)) + 1e-11 * sum(abs(v) for v in l + r + c + ml + mr)
        if apart > 1e3 * tol and apart > 1e-3 * (hl + hr):
            cp = ControlPoint(Point(*c), Vector(*dl), Vector(*dr), kind)
            got = cp.transform(f.real)
            expect(got.kind == kind, 'kind', 'a %s point became %s', kind, got.kind)
            w.check_moved(f, c[0], c[1], got.c.xy(), 'control point')
            if kind == 'sharp':
                w.check_moved(f, l[0], l[1], got.l.xy(), 'left handle')
                w.check_moved(f, r[0], r[1], got.r.xy(), 'right handle')
            elif kind == 'smooth':
                tol = max(tol, 1e-9 * (hl + hr)) * (hl + hr) / apart + tol
                expect(abs(got.dl.length() - hl) <= tol and abs(got.dr.length() - hr) <= tol, 'handle-length', 'smooth handles have length %.9g, %.9g, should be %.9g, %.9g',
                       got.dl.length(), got.dr.length(), hl, hr)
                cross = got.dl.x * got.dr.y - got.dl.y * got.dr.x
                dot = got.dl.x * got.dr.x + got.dl.y * got.dr.y
                expect(abs(cross) <= tol * (hl + hr) and dot <= tol * (hl + hr), 'not-smooth', 'a smooth point got handles %s and %s', got.dl, got.dr)
            else:
                half = ((mr[0]-ml[0]) / 2, (mr[1]-ml[1]) / 2)
                expect(abs(got.dr.x - half[0]) <= tol and abs(got.dr.y - half[1]) <= tol, 'very-smooth', 'very smooth handle %s, should be %s', got.dr, half)
                expect(abs(got.dr.x + got.dl.x) <= tol and abs(got.dr.y + got.dl.y) <= tol, 'very-smooth', 'handles of a very smooth point are %s and %s', got.dl, got.dr)
            expect(tuple(cp.dl) == dl and tuple(cp.dr) == dr and cp.c.xy() == c, 'cp-changed', 'transforming changed the control point')
            stats.check(3)
        w.looked(f)
    elif op == 'width':
        a = w.at(f, 0, 0)
        k = abs(s['v']) + 0.5
        d = k * math.sqrt(2) / 2
        b = w.at(f, d, d)
        got = f.real.transform_width(k)
        want = math.hypot(d + b[0] - a[0], d + b[1] - a[1])
        tol = 2 * (w.tol(f, 0, 0) + w.tol(f, d, d)) + 1e-10 * (k + abs(want))
        expect(abs(got - want) <= tol, 'width', 'transform_width(%g) gives %.9g, should be %.9g', k, got, want)
        stats.check()
        w.looked(f)
    elif op == 'copy':
        c = f.real.copy()
        expect(c == f.real and f.real == c, 'not-equal', 'a copy is not equal to its source')
        c = w.add(c, f.mesh, [list(r) for r in f.vx], [list(r) for r in f.vy])
        unshared(c, [o for o in w.fields if o is not c], 'a copy')
        stats.check(2)
    elif op in ('scaled', 'scaled2'):
        kx = s['v']
        ky = kx if op == 'scaled' else (s['i'] % 7) - 3.0
        c = f.real.scaled(kx) if op == 'scaled' else f.real.scaled(kx, ky)
        c = w.add(c, f.mesh)
        ok = all(close(a, v * kx, 1e-6 if f.real.vx.dtype == np.float32 else 1e-12) for r, t in zip(c.vx, f.vx) for a, v in zip(r, t)) and \
            all(close(a, v * ky, 1e-6 if f.real.vy.dtype == np.float32 else 1e-12) for r, t in zip(c.vy, f.vy) for a, v in zip(r, t))
        expect(ok, 'scaled', 'scaled(%g, %g) has other values', kx, ky)
        unshared(c, [o for o in w.fields if o is not c], 'a scaled field')
        stats.check(2)
    elif op in ('normalized', 'smoothed'):
        big = mags(f.vx, f.vy)
        if big < 1e-60:
            return
        if op == 'normalized':
            c = w.add(f.real.normalized(), f.mesh)
            tol = 1e-6 if np.float32 in (f.real.vx.dtype, f.real.vy.dtype) else 1e-11
            ok = all(abs(a - v / big) <= tol for r, t in zip(c.vx + c.vy, f.vx + f.vy) for a, v in zip(r, t))
            expect(ok, 'normalized', 'a normalised field is not a multiple of its source')
        else:
            c = w.add(f.real.smoothed(), f.mesh)
            tol = 1e-9
            flat = [(a, b) for r, t in zip(f.vx, f.vy) for a, b in zip(r, t)]
            if all(p == flat[0] for p in flat):
                want = [flat[0][0] / big, flat[0][1] / big]
                got = [(a, b) for r, t in zip(c.vx, c.vy) for a, b in zip(r, t)]
                expect(all(abs(a - want[0]) < 1e-9 and abs(b - want[1]) < 1e-9 for a, b in got), 'smoothed', 'smoothing a constant field changes its direction')
            # smoothing averages neighbours: by one common factor, no vector leaves the range of its source
            for vals, src in ((c.vx, f.vx), (c.vy, f.vy)):
                lo, hi = min(v for r in src for v in r), max(v for r in src for v in r)
                expect(not (lo >= 0 and min(v for r in vals for v in r) < -1e-9) and not (hi <= 0 and max(v for r in vals for v in r) > 1e-9), 'smoothed',
                       'smoothing gives a value outside of the range of its source')
        expect(abs(mags(c.vx, c.vy) - 1) <= tol, 'magnitude', '%s field has largest magnitude %.12g', op, mags(c.vx, c.vy))
        unshared(c, [o for o in w.fields if o is not c], 'a %s field' % op)
        stats.check(3)
    elif op == 'uniform':
        k = abs(s['v']) + 0.01
        out = []
        for _ in range(2):
            random.seed(s['s'])
            np.random.seed(s['s'])
            out.append(m.uniform(k))
        expect(out[0] == out[1], 'not-repeatable', 'two random fields from one seed differ')
        c = w.add(out[0], f.mesh)
        expect(all(abs(v) <= k for r in c.vx + c.vy for v in r), 'magnitude', 'a random field of magnitude %g has other values', k)
        expect(len(set(v for r in c.vx + c.vy for v in r)) > n * n, 'random', 'a random field has equal values')
        d = w.add(m.uniform(k), f.mesh)
        expect(not d.real == out[0] and d.vx != c.vx, 'random', 'the next random field is the same')
        unshared(c, [o for o in w.fields if o is not c], 'a random field')
        unshared(d, [o for o in w.fields if o is not d], 'a random field')
        stats.check(4)
    elif op == 'new':
        a, b = np.array(grid()), np.array(grid())
        if s['i'] % 3 == 0:
            w.add(VectorField(m, a), f.mesh, listed(a), [[0.0] * n for _ in range(n)])
        elif s['i'] % 3 == 1:
            w.add(VectorField(m, vy=b), f.mesh, [[0.0] * n for _ in range(n)], listed(b))
        else:
            w.add(VectorField(m, a, b), f.mesh, listed(a), listed(b))
    elif op == 'quiver':
        ax = Axes()
        if s['i'] % 4:
            f.real.quiver(ax)
        else:
            # the whole plot, on axes of a figure of its own
            axes = Figure().add_subplot()
            axes.quiver = ax.quiver
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f.real.plot(ax=axes)
            expect(ax.args is not None, 'quiver', 'plot() does not plot the vectors')
        X, Y, U, V = [np.ravel(a) for a in ax.args[:4]]
        arrows = sorted(zip(map(float, X), map(float, Y), map(float, U), map(float, V)))
        want = sorted((xs[a], ys[b], f.vx[a][b], f.vy[a][b]) for a in range(n) for b in range(n))
        expect(arrows == want, 'quiver', 'the plotted arrows are not the values at their grid points')
        stats.check()
    elif op == 'equal':
        same = f.mesh == g.mesh and f.vx == g.vx and f.vy == g.vy
        if f.mesh == g.mesh or w.meshes[f.mesh][1:] != w.meshes[g.mesh][1:]:
            expect((f.real == g.real) == same, 'equality', 'fields compare %s', f.real == g.real)
            stats.check()
    elif op == 'fault':
        # An allocation fails inside the next lookup; the one after it must be right
        x, y = w.point(f, s['u'])
        count = [s['i'] % 4]
        stats.plan('failing interpolator')
        rgi = scipy.interpolate.RegularGridInterpolator

        def hit():
            count[0] -= 1
            if count[0] == -1:
                stats.fault('failing interpolator')
                raise [MemoryError('injected'), SimFault('injected')][s['j'] % 2]

        class Failing(rgi):
            def __init__(self, *args, **kw):
                hit()
                super().__init__(*args, **kw)

            def __call__(self, *args, **kw):
                hit()
                return super().__call__(*args, **kw)
        with patched(scipy.interpolate, 'RegularGridInterpolator', Failing):
            try:
                got = f.real.lookup(x, y)
            except (MemoryError, SimFault):
                got = None
            if got is None:
                got = f.real.lookup(x, y)
        vx, vy = w.at(f, x, y)
        tol = w.tol(f, x, y)
        expect(abs(got[0] - vx) <= tol and abs(got[1] - vy) <= tol, 'lookup-after-fault', 'after a failed lookup, lookup(%g, %g) gives (%.9g, %.9g), should be (%.9g, %.9g)', x, y,
               got[0], got[1], vx, vy)
        stats.check()
        w.looked(f)
