"""Builds real objects of the code under test from specs, and observes them through public attributes only."""
from x7.geom.geom import Point, PointRelative, PointCalc, Vector, VectorRelative, BBox, Line  # noqa
from x7.geom.transform import Transform, EmptyStackError    # noqa
from x7.geom.colors import Pen, Brush, PenBrush, PensByShape    # noqa
from x7.geom.model import (     # noqa
    Group, GroupBuilder, Elem, ElemCurve, ElemEllipse, ElemRectangle, ElemRectangleRounded, ElemWithHoles,
    ControlPoint, DumpContext)
from x7.geom.drawing import DrawingContext      # noqa
from . import ref


def pen(i):
    """0..3 cannot fill, 4..9 fill, 8 and 9 clear"""
    return [
        lambda: PenBrush('black'),
        lambda: PenBrush(Pen('blue', 3)),
        lambda: PenBrush(('red', -1.4142135623730951)),
        lambda: PenBrush(Pen((10, 20, 30, 255), 1)),
        lambda: PenBrush('green', 'yellow'),
        lambda: PenBrush(None, 'orange'),
        lambda: PenBrush(('purple', 7), Brush((200, 10, 10, 255))),
        lambda: PenBrush(Pen('black', -1/3), 'cyan'),
        lambda: PenBrush('navy', (0, 0, 0, 0)),
        lambda: PenBrush(None, (0, 0, 0, 0)),
    ][i % ref.PENS]()


def xform(xf):
    return Transform(tuple(xf)) if xf else None


def shared_points(pts):
    return [Point(x, y) for x, y in pts]


def point(pt, shared=(), name=None):
    if isinstance(pt[0], str):
        k = pt[0]
        if k == 'n':
            return shared[pt[1] % len(shared)]
        if k == 'r':
            return PointRelative(pt[1], pt[2], shared[pt[3] % len(shared)], name)
        return PointCalc(PointRelative(pt[1], pt[2], shared[pt[3] % len(shared)]), pt[4], name)
    return Point(pt[0], pt[1], name)


def vector(vec, shared=()):
    if isinstance(vec[0], str):
        return VectorRelative(shared[vec[1] % len(shared)], shared[vec[2] % len(shared)])
    return Vector(vec[0], vec[1])


def cps(spec, shared=()):
    names = list(spec.get('pn') or ()) + [None] * len(spec['cps'])
    return [ControlPoint(point(c, shared, nm), vector(dl, shared), vector(dr, shared), kind) for (c, dl, dr, kind), nm in zip(spec['cps'], names)]


def elem(spec, shared=()):
    k, xf = spec['k'], xform(spec.get('xf'))
    if k == 'curve':
        return ElemCurve(spec['name'], pen(spec['pen']), cps(spec, shared), closed=spec['closed'], xform=xf)
    if k == 'group':
        g = Group(spec['name'], PenBrush('default'), hidden=spec['hidden'], xform=xf)
        for e in spec['elems']:
            g.add(e['name'], elem(e, shared))
        return g
    if k == 'holes':
        return ElemWithHoles(spec['name'], pen(spec['pen']), elem(spec['outside'], shared),
                             [elem(e, shared) for e in spec['inside']], xform=xf)
    names = spec.get('pn') or (None, None)
    p1, p2 = Point(*spec['p1'], names[0]), Point(*spec['p2'], names[1])
    if k == 'rect':
        return ElemRectangle(spec['name'], pen(spec['pen']), p1, p2, xform=xf)
    if k == 'ellipse':
        return ElemEllipse(spec['name'], pen(spec['pen']), p1, p2, xform=xf)
    if k == 'rrect':
        return ElemRectangleRounded(spec['name'], pen(spec['pen']), p1, p2, spec['radius'], xform=xf)
    raise ValueError(k)


def child(e, path):
    """The real element at a path made by ref.walk (groups must be built in spec order and not reordered)"""
    for p in path:
        if isinstance(p, int):
            e = list(e.elems.values())[p]
        elif p == 'out':
            e = e.outside
        else:
            e = e.inside[int(p[2:])]
    return e


def spec_at(spec, path):
    for p in path:
        if isinstance(p, int):
            spec = spec['elems'][p]
        elif p == 'out':
            spec = spec['outside']
        else:
            spec = spec['inside'][int(p[2:])]
    return spec


CLASS = dict(curve='ElemCurve', rect='ElemRectangle', ellipse='ElemEllipse', rrect='ElemRectangleRounded', group='Group', holes='ElemWithHoles')


def obs_pen(p):
    return [p.stroke_color, p.pen.width if p.pen else None, p.fill_color]


def observe(e):
    """Everything public about a shape, as plain data"""
    o = dict(cls=type(e).__name__, name=e.name, pen=obs_pen(e.penbrush), closed=bool(e.closed),
             xf=[float(v) for v in e.xform.as_6tuple()])
    if isinstance(e, ElemCurve):
        o['cps'] = [[list(map(float, cp.c.xy())), list(map(float, cp.dl.xy())), list(map(float, cp.dr.xy())), cp.kind]
                    for cp in e.control_points]
    elif isinstance(e, Group):
        o['hidden'] = bool(e.hidden)
        o['elems'] = [[n, observe(x)] for n, x in e.elems.items()]
        o['points'] = [[n, list(map(float, p.xy()))] for n, p in sorted(e.points.items(), key=lambda kv: str(kv[0]))]
    elif isinstance(e, ElemWithHoles):
        o['outside'] = observe(e.outside)
        o['inside'] = [observe(x) for x in e.inside]
    elif hasattr(e, 'p1'):
        o['p1'], o['p2'] = list(map(float, e.p1.xy())), list(map(float, e.p2.xy()))
        if isinstance(e, ElemRectangleRounded):
            o['radius'] = float(e.radius)
    return o


def same(a, b, tol=1e-9):
    """Equality of observations, floats within tol.  Returns '' or the place of the first difference"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 'keys %s / %s' % (sorted(a), sorted(b))
        for k in a:
            r = same(a[k], b[k], tol)
            if r:
                return '.%s%s' % (k, r)
        return ''
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return ': %d items / %d items' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol)
            if r:
                return '[%d]%s' % (i, r)
        return ''
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= tol * (1 + abs(a) + abs(b)):
            return ''
        return ': %r / %r' % (a, b)
    return '' if a == b else ': %r / %r' % (a, b)


def path_points(path):
    """[(x, y), ...] of an extracted path"""
    p = path.points
    return [(float(x), float(y)) for x, y in p.tolist()]


def paths_of(e, dc):
    """Plain data of all extracted paths"""
    return [[obs_pen(p.penbrush), bool(p.closed), path_points(p)] for p in e.paths(dc)]


def control_paths_of(e, dc):
    out = []
    for path in e.control_paths(dc):
        row = []
        for p in path.points:
            if isinstance(p, ControlPoint):
                row.append([list(map(float, p.c.xy())), list(map(float, p.l.xy())), list(map(float, p.r.xy()))])
            else:
                row.append([list(map(float, p.xy()))])
        out.append(row)
    return out


def check_paths(model_spec, model, dc, base, pts, steps, fail):
    """All extracted paths of model agree with the spec under base matrix; returns them"""
    got = model.paths(dc)
    i = 0

    def nxt(what):
        nonlocal i
        if i >= len(got):
            fail('%s: path is missing (%d paths)', what, len(got))
        i += 1
        return got[i-1]

    def leaf(spec, m, penobs, what, path=None):
        path = path or nxt(what)
        m = ref.mul(m, ref.xf_of(spec))
        ref.check_outline(path_points(path), spec, m, pts, steps, fail, what)
        if penobs is not None and obs_pen(path.penbrush) != penobs:
            fail('%s: drawn with %r, expected %r', what, obs_pen(path.penbrush), penobs)
        closed = spec.get('closed', True)
        if path.closed != closed:
            fail('%s: closed=%r', what, path.closed)

    def one(spec, m, what):
        if spec['k'] == 'group':
            if spec['hidden']:
                return
            m = ref.mul(m, ref.xf_of(spec))
            for e in spec['elems']:
                one(e, m, what + '.' + e['name'])
        elif spec['k'] == 'holes':
            m = ref.mul(m, ref.xf_of(spec))
            stroke, width, fill = obs_pen(pen(spec['pen']))
            fill_path = nxt(what + ' fill') if fill is not None else None
            j = i

            def edges(e, m, what):
                if e['k'] == 'group':
                    for x in e['elems'] if not e['hidden'] else []:
                        edges(x, ref.mul(m, ref.xf_of(e)), what + '.' + x['name'])
                else:
                    leaf(e, m, [stroke, width, None], what)

            for e in [spec['outside']] + spec['inside']:
                edges(e, m, what + '.' + e['name'])
            if fill_path is not None:
                if obs_pen(fill_path.penbrush) != [None, None, fill]:
                    fail('%s: filled with %r', what, obs_pen(fill_path.penbrush))
                want = path_points(got[j])
                last = want[-1]
                for p in got[j+1:i]:
                    want = want + path_points(p) + [last]
                have = path_points(fill_path)
                if same(have, want, 1e-9):
                    fail('%s: filled area does not follow its outline and holes%s', what, same(have, want, 1e-9))
        else:
            leaf(spec, m, obs_pen(pen(spec['pen'])), what)

    one(model_spec, base, model_spec['name'])
    if i != len(got):
        fail('%d extra paths', len(got) - i)
    return got
