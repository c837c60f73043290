"""
Small executable reference model: pure Python, independent of the code under test.

Matrices are 6-tuples (a, b, c, d, e, f): x' = a*x + b*y + c, y' = d*x + e*y + f.

A *shape spec* is plain JSON:
    {"k": "curve", "name", "pen", "closed", "xf", "cps": [[pt, vec, vec, kind], ...]}
    {"k": "rect" | "ellipse" | "rrect", "name", "pen", "p1", "p2", ("radius"), "xf"}
        ("pn": names of the points, for leaf shapes)
    {"k": "group", "name", "hidden", "xf", "elems": [...]}
    {"k": "holes", "name", "pen", "outside", "inside": [...], "xf"}
    pt:  [x, y] | ["n", i] | ["r", dx, dy, i] | ["c", dx, dy, i, scale]       (i: index of a shared point)
    vec: [x, y] | ["d", i, j]                                               (difference of shared points i - j)
"""
import json
import math

import numpy as np

IDENT = (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)


# ------------------------------------------------------------------ matrices
def mul(m, n):
    """m after n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a*A + b*D, a*B + b*E, a*C + b*F + c,
            d*A + e*D, d*B + e*E, d*C + e*F + f)


def apply(m, p):
    a, b, c, d, e, f = m
    x, y = p
    return a*x + b*y + c, d*x + e*y + f


def det(m):
    return m[0]*m[4] - m[1]*m[3]


def inv(m):
    a, b, c, d, e, f = m
    q = a*e - b*d
    A, B, D, E = e/q, -b/q, -d/q, a/q
    return A, B, -(A*c + B*f), D, E, -(D*c + E*f)


def translate(dx, dy):
    return 1.0, 0.0, dx, 0.0, 1.0, dy


def scale(sx, sy):
    return sx, 0.0, 0.0, 0.0, sy, 0.0


def rotate(deg):
    """The documented rotate(): maps (1, 0) to (cos, -sin)"""
    s, c = math.sin(math.radians(deg)), math.cos(math.radians(deg))
    return c, s, 0.0, -s, c, 0.0


def rotate_ccw(deg):
    return rotate(-deg)


def rotate_about(deg, center):
    x, y = center
    return mul(translate(x, y), mul(rotate(deg), translate(-x, -y)))


def norm(m):
    return max(abs(v) for v in m)


def cond(m):
    """Rough condition number of the whole affine map"""
    d = abs(det(m))
    if d < 1e-280:
        return float('inf')
    return norm(m) * norm(inv(m))


def gen_xf(rng, allow_none=True):
    """Well-conditioned affine map"""
    if allow_none and rng.random() < 0.35:
        return None
    m = IDENT
    if rng.random() < 0.06:
        # close to the identity
        return [1.0, rng.choice([0.0, 0.003]), rng.choice([0.0, 0.004]), 0.0, rng.choice([1.0, 1.002]), rng.choice([-0.001, 0.0049])]
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < 0.4:
            m = mul(translate(rng.randint(-40, 40), rng.randint(-40, 40)), m)
        elif k < 0.65:
            m = mul(rotate(rng.choice([30, 90, 180, -45, rng.uniform(-180, 180)])), m)
        elif k < 0.9:
            m = mul(scale(rng.choice([0.5, 2.0, -1.0, 1.5, 1.0]), rng.choice([0.5, 2.0, 1.0, -1.0])), m)
        else:
            m = mul((1.0, rng.choice([0.3, -0.5]), 0.0, 0.0, 1.0, 0.0), m)
    return [round(v, 6) for v in m]


# ------------------------------------------------------------------ points
def pt_xy(pt, pts):
    if isinstance(pt[0], str):
        k = pt[0]
        if k == 'n':
            return tuple(pts[pt[1] % len(pts)])
        if k == 'r':
            bx, by = pts[pt[3] % len(pts)]
            return bx + pt[1], by + pt[2]
        if k == 'c':
            bx, by = pts[pt[3] % len(pts)]
            return bx + pt[1]*pt[4], by + pt[2]*pt[4]
        raise ValueError(pt)
    return tuple(pt)


def vec_xy(vec, pts):
    if isinstance(vec[0], str):
        a, b = pts[vec[1] % len(pts)], pts[vec[2] % len(pts)]
        return a[0]-b[0], a[1]-b[1]
    return tuple(vec)


# ------------------------------------------------------------------ generation of shapes
PENS = 10
KINDS = ['smooth', 'sharp', 'very-smooth']


def gnum(rng, lo=-60, hi=60):
    return float(rng.randint(lo, hi)) if rng.random() < 0.6 else round(rng.uniform(lo, hi), 3)


def gen_pt(rng, npts=0):
    if npts and rng.random() < 0.4:
        k = rng.random()
        i = rng.randrange(npts)
        if k < 0.5:
            return ['n', i]
        if k < 0.8:
            return ['r', gnum(rng, -20, 20), gnum(rng, -20, 20), i]
        return ['c', gnum(rng, -20, 20), gnum(rng, -20, 20), i, rng.choice([0.5, 2.0, -1.0])]
    return [gnum(rng), gnum(rng)]


def gen_vec(rng, npts=0):
    if npts > 1 and rng.random() < 0.15:
        return ['d'] + rng.sample(range(npts), 2)
    if rng.random() < 0.15:
        return [0.0, 0.0]
    return [gnum(rng, -30, 30), gnum(rng, -30, 30)]


def gen_cps(rng, n, npts=0):
    cps = [[gen_pt(rng, npts), gen_vec(rng, npts), gen_vec(rng, npts), rng.choice(KINDS)] for _ in range(n)]
    for cp in cps:
        if rng.random() < 0.15:
            cp[2] = list(cp[1])     # equal handles
    return cps


def gen_leaf(rng, name, npts=0, kinds=('curve', 'curve', 'rect', 'ellipse', 'rrect'), closed=None, fills=True):
    k = rng.choice(list(kinds))
    s = dict(k=k, name=name, pen=rng.randrange(PENS), xf=gen_xf(rng))
    if k == 'curve':
        s['closed'] = (rng.random() < 0.6) if closed is None else closed
        s['cps'] = gen_cps(rng, rng.randint(2, 5) if rng.random() < 0.95 else rng.choice([1, 1, 1, 10, 24]), npts)
        if not s['closed']:
            s['pen'] = s['pen'] % 4     # an open shape cannot be filled
    else:
        x, y = gnum(rng), gnum(rng)
        w, h = gnum(rng, 4, 50), gnum(rng, 4, 50)
        s['p1'], s['p2'] = [x, y], [x + w * rng.choice([1, 1, -1]), y + h * rng.choice([1, 1, -1])]
        if k == 'rrect':
            s['radius'] = rng.choice([0.0, 1.0, 3.0, 5.0, 10.0, 40.0])
    if rng.random() < 0.2:
        # points of the user that have names
        s['pn'] = [rng.choice([None, 'p1', 'corner', "it's", 'fixed_p', 'a.b']) for _ in range(len(s.get('cps', 'xx')))]
    return s


def gen_holes(rng, name, groups=False):
    """A shape with holes that are inside the outside, as bbox() requires; groups: a hole may consist of several shapes"""
    x, y = gnum(rng), gnum(rng)
    k = rng.choice(['rect', 'rrect', 'ellipse', 'rect', 'rrect', 'ellipse', 'curve'])
    # the transform of the outside and the box it is given in, so that it covers (x, y) to (x+60, y+50)
    xf, x1, y1, x2, y2 = rng.choice([
        (None, x, y, x + 60, y + 50), (None, x, y, x + 60, y + 50),
        ([1, 0, 300, 0, 1, -40.5], x - 300, y + 40.5, x - 240, y + 90.5),
        ([2, 0, 0, 0, 2, 0], x/2, y/2, x/2 + 30, y/2 + 25),
        ([0, -1, 0, 1, 0, 0], y, -x - 60, y + 50, -x)])
    if k == 'curve':
        outside = dict(k=k, name='out', pen=0, xf=xf, closed=True, cps=[
            [[a, b], [0.0, 0.0], [0.0, 0.0], 'sharp'] for a, b in ((x1, y1), (x2, y1), (x2, y2), (x1, y2))])
    else:
        outside = dict(k=k, name='out', pen=0, xf=xf, p1=[x1, y1], p2=[x2, y2])
    if k == 'rrect':
        outside['radius'] = 5.0
    inside = []
    for i in range(rng.randint(0, 2)):
        k = rng.choice(['rect', 'ellipse', 'curve', 'group'] if groups else ['rect', 'ellipse', 'curve'])
        ix, iy = x + 5 + 27*i, y + 10
        if k == 'group':
            inside.append(dict(k='group', name='in%d' % i, hidden=False, xf=None, elems=[
                dict(k='rect', name='ga', pen=0, xf=None, p1=[ix, iy], p2=[ix + 6, iy + 7]),
                dict(k='ellipse', name='gb', pen=0, xf=None, p1=[ix + 7, iy + 8], p2=[ix + 14, iy + 20])]))
        elif k == 'curve':
            inside.append(dict(k='curve', name='in%d' % i, pen=0, xf=None, closed=rng.random() < 0.85, cps=[
                [[ix, iy], [0.0, 3.0], [0.0, -3.0], 'smooth'], [[ix + 15, iy + 20], [1.0, 0.0], [-1.0, 1.0], 'sharp']]))
        else:
            inside.append(dict(k=k, name='in%d' % i, pen=0, xf=rng.choice([None, None, [1, 0, 1.5, 0, 1, -2.0]]),
                               p1=[ix, iy], p2=[ix + 15, iy + 20]))
    if inside and rng.random() < 0.2:
        inside.insert(rng.randint(0, len(inside)), json.loads(json.dumps(rng.choice(inside))))      # the same hole twice
    return dict(k='holes', name=name, pen=rng.randrange(PENS), outside=outside, inside=inside, xf=gen_xf(rng))


def gen_group(rng, name, depth=2, npts=0, holes=True, hidden=True, size=4, kinds=('curve', 'curve', 'rect', 'ellipse', 'rrect'), prefix='',
              hole_groups=False):
    elems = []
    for i in range(rng.randint(1, size)):
        nm = '%s%s%d' % (prefix, rng.choice('abc'), i)
        r = rng.random()
        if depth and r < 0.3:
            elems.append(gen_group(rng, nm, depth-1, npts, holes, hidden, max(2, size-1), kinds,
                                   hole_groups=hole_groups))
        elif holes and r < 0.42:
            elems.append(gen_holes(rng, nm, hole_groups))
        else:
            elems.append(gen_leaf(rng, nm, npts, kinds))
    return dict(k='group', name=name, hidden=bool(hidden and rng.random() < 0.12), xf=gen_xf(rng), elems=elems)


ODD_NAMES = ['a#1', '#0', 'a b', '50%', '%s', '{0}', 'ü', 'q"x', "a'b", 'back\\slash', 'None', '0', '-1', 'x' * 80, 'A', '__class__', 'inside', 'outside', 'elems', '*', '/',
             'a\tb', 'rectangle#0', 'curve#7', '\u2028', ':', 'out', 'in0', 'a:b', 'm', '@', '', '', '']


def unusual(rng, model, wide=24, deep=12):
    """Some models have strange names, many members, or are nested deeply"""
    groups = [s for p, s in walk(model) if s['k'] == 'group' and not any(isinstance(x, str) for x in p)]
    r = rng.random()
    if r < 0.1:
        for g in groups:
            for e in g['elems']:
                if rng.random() < 0.5:
                    n = rng.choice(ODD_NAMES)
                    if all(o['name'] != n for o in g['elems']):
                        e['name'] = n
    elif r < 0.13:
        g = rng.choice(groups)
        g['elems'] += [gen_leaf(rng, 'w%d' % i, 0, ('rect', 'ellipse')) for i in range(rng.randint(4, wide))]
    elif r < 0.17:
        g = rng.choice(groups)
        for i in range(rng.randint(4, deep)):
            xf = rng.choice([None, None, list(translate(3.0, -2.0)), [-1, 0, 1.0, 0, 1, 0]])
            g['elems'] = [dict(k='group', name='deep%d' % (i % 3), hidden=False, xf=xf, elems=g['elems'])]
    return model


def walk(spec, path=()):
    """Yield (path, spec) of every shape; path is a tuple of keys"""
    yield path, spec
    if spec['k'] == 'group':
        for i, e in enumerate(spec['elems']):
            yield from walk(e, path + (i,))
    elif spec['k'] == 'holes':
        yield from walk(spec['outside'], path + ('out',))
        for i, e in enumerate(spec['inside']):
            yield from walk(e, path + ('in%d' % i,))


# ------------------------------------------------------------------ expected geometry
def bez_at(p, t):
    s = 1 - t
    k0, k1, k2, k3 = s*s*s, 3*s*s*t, 3*s*t*t, t*t*t
    return (k0*p[0][0] + k1*p[1][0] + k2*p[2][0] + k3*p[3][0],
            k0*p[0][1] + k1*p[1][1] + k2*p[2][1] + k3*p[3][1])


def segments(cps, closed):
    """cps: [(c, dl, dr)] -> list of 4 control points per segment"""
    out = []
    pairs = list(zip(cps, cps[1:]))
    if closed:
        pairs.append((cps[-1], cps[0]))
    for (c, dl, dr), (c2, dl2, dr2) in pairs:
        out.append((c, (c[0]+dr[0], c[1]+dr[1]), (c2[0]+dl2[0], c2[1]+dl2[1]), c2))
    return out


def cps_xy(spec, pts):
    return [(pt_xy(c, pts), vec_xy(dl, pts), vec_xy(dr, pts)) for c, dl, dr, kind in spec['cps']]


def sample(segs, steps):
    out = []
    for seg in segs:
        out.extend(bez_at(seg, i/steps) for i in range(1 if out else 0, steps + 1))
    return out


def seg_dist(p, a, b):
    dx, dy = b[0]-a[0], b[1]-a[1]
    q = dx*dx + dy*dy
    t = 0.0 if q == 0 else max(0.0, min(1.0, ((p[0]-a[0])*dx + (p[1]-a[1])*dy) / q))
    return math.hypot(a[0] + t*dx - p[0], a[1] + t*dy - p[1])


def line_dist(p, poly):
    return min(seg_dist(p, a, b) for a, b in zip(poly, poly[1:])) if len(poly) > 1 else math.hypot(p[0]-poly[0][0], p[1]-poly[0][1])


def outline_dist(points, poly):
    """Largest distance of the points from the polygon"""
    p, q = np.array(points, float), np.array(poly, float)
    if len(q) < 2:
        return float(np.hypot(*(p - q[0]).T).max())
    a, d = q[:-1], q[1:] - q[:-1]
    dd = (d * d).sum(1)
    w = p[:, None, :] - a[None]
    t = np.clip((w * d).sum(2) / np.where(dd > 0, dd, 1.0), 0.0, 1.0)
    r = w - t[:, :, None] * d
    return float(np.sqrt((r * r).sum(2).min(1)).max())


def round_rect_dist(p, p1, p2, radius):
    """Distance of p from the outline of the rounded rectangle"""
    cx, cy = (p1[0]+p2[0])/2, (p1[1]+p2[1])/2
    w, h = abs(p2[0]-p1[0])/2, abs(p2[1]-p1[1])/2
    r = min(radius, w, h)
    qx, qy = abs(p[0]-cx) - (w - r), abs(p[1]-cy) - (h - r)
    outside = math.hypot(max(qx, 0.0), max(qy, 0.0))
    return abs(outside + min(max(qx, qy), 0.0) - r)


def round_rect_keys(p1, p2, radius):
    """Points that must be covered: the ends of the straight edges and the middle of the corners"""
    cx, cy = (p1[0]+p2[0])/2, (p1[1]+p2[1])/2
    w, h = abs(p2[0]-p1[0])/2, abs(p2[1]-p1[1])/2
    r = min(radius, w, h)
    d = r * (1 - math.sqrt(0.5))
    out = []
    for sx in (-1, 1):
        for sy in (-1, 1):
            out += [(cx + sx*(w-r), cy + sy*h), (cx + sx*w, cy + sy*(h-r)), (cx + sx*(w-d), cy + sy*(h-d))]
    return out


def ellipse_err(p, p1, p2):
    """Distance in units of the radius from the ellipse"""
    cx, cy = (p1[0]+p2[0])/2, (p1[1]+p2[1])/2
    rx, ry = abs(p2[0]-p1[0])/2, abs(p2[1]-p1[1])/2
    return abs(math.hypot((p[0]-cx)/rx, (p[1]-cy)/ry) - 1)


def ellipse_keys(p1, p2):
    cx, cy = (p1[0]+p2[0])/2, (p1[1]+p2[1])/2
    rx, ry = abs(p2[0]-p1[0])/2, abs(p2[1]-p1[1])/2
    return [(cx + rx*math.cos(k*math.pi/4), cy + ry*math.sin(k*math.pi/4)) for k in range(8)]


def xf_of(spec):
    return tuple(spec['xf']) if spec.get('xf') else IDENT


def leaves(spec, pts, m=IDENT, include_hidden=False, holes_as_leaf=False):
    """Yield (matrix including the own transform, leaf spec, hidden) in drawing order"""
    m = mul(m, xf_of(spec))
    if spec['k'] == 'group':
        if spec['hidden'] and not include_hidden:
            return
        for e in spec['elems']:
            yield from leaves(e, pts, m, include_hidden, holes_as_leaf)
    elif spec['k'] == 'holes' and not holes_as_leaf:
        yield from leaves(spec['outside'], pts, m, include_hidden)
        for e in spec['inside']:
            yield from leaves(e, pts, m, include_hidden)
    else:
        yield m, spec


def check_outline(points, spec, m, pts, steps, fail, what):
    """points: [(x, y)] of an extracted path; m: whole matrix.  fail(fmt, *args) is called on a mismatch."""
    scale_ = 1.0 + max(norm(m), 1.0) + max((max(abs(x), abs(y)) for x, y in points), default=0.0)
    if spec['k'] == 'curve':
        cps = cps_xy(spec, pts)
        segs = segments(cps, spec['closed'])
        want = [apply(m, p) for p in sample(segs, steps)]
        if len(want) != len(points):
            fail('%s: %d points, expected %d', what, len(points), len(want))
        for i, (p, q) in enumerate(zip(points, want)):
            if not (abs(p[0]-q[0]) <= 1e-6*scale_ and abs(p[1]-q[1]) <= 1e-6*scale_):
                fail('%s: point %d is at (%.6f, %.6f), expected (%.6f, %.6f)', what, i, p[0], p[1], q[0], q[1])
        return
    if spec['k'] == 'rect':
        (x1, y1), (x2, y2) = spec['p1'], spec['p2']
        want = [apply(m, p) for p in ((x1, y1), (x1, y2), (x2, y2), (x2, y1), (x1, y1))]
        if len(points) != 5:
            fail('%s: %d points, expected 5', what, len(points))
        for i, (p, q) in enumerate(zip(points, want)):
            if not (abs(p[0]-q[0]) <= 1e-6*scale_ and abs(p[1]-q[1]) <= 1e-6*scale_):
                fail('%s: corner %d is at (%.6f, %.6f), expected (%.6f, %.6f)', what, i, p[0], p[1], q[0], q[1])
        return
    back = inv(m)
    local = [apply(back, p) for p in points]
    p1, p2 = spec['p1'], spec['p2']
    size = max(abs(p2[0]-p1[0]), abs(p2[1]-p1[1]))
    if not local:
        fail('%s: no points', what)
    if max(abs(points[0][0]-points[-1][0]), abs(points[0][1]-points[-1][1])) > 1e-6*scale_:
        fail('%s: outline is not closed', what)
    for i, p in enumerate(local):
        if spec['k'] == 'ellipse':
            e = ellipse_err(p, p1, p2)
            if not e <= 2e-3:
                fail('%s: point %d is off the ellipse by %.5f radii', what, i, e)
        else:
            e = round_rect_dist(p, p1, p2, spec['radius'])
            if not e <= 2e-3 * (size + 1):
                fail('%s: point %d is off the rounded rectangle by %.5f', what, i, e)
    keys = ellipse_keys(p1, p2) if spec['k'] == 'ellipse' else round_rect_keys(p1, p2, spec['radius'])
    for key in keys:
        if not line_dist(key, local) <= 1e-2 * (size + 1):
            fail('%s: outline does not pass (%.4f, %.4f)', what, key[0], key[1])
