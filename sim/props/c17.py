"""C17: a builder adds exactly the shape asked for, in the style in force"""
import json

from PIL import Image, ImageChops

from .. import ref, build
from ..core import Violation, expect, close_xy
from ..build import Transform, DrawingContext, Group, GroupBuilder, ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, ElemWithHoles
from ..build import PenBrush, Pen, Brush, PensByShape, Point, Vector, ControlPoint
from ..faults import PlugElem, Counter, make_fault, gen_exc
from .c05 import check_cover

RUNS = {'quick': 3500, 'thorough': 300000}
RULE = ('A run holds up to 4 pen tables and a growing tree of builders (nested, sharing tables, several on one group), used by up to 4 clients that interleave 6-45 '
        'requests: rectangles, rounded rectangles, ellipses, curves (on points of the user, offset points and plain ones), nested builders, named points, rotated copies of any '
        'shape (with or without the mark at the centre), hiding, drawing; between them points are moved, tables and defaults exchanged, widths derived, caller lists edited. '
        'Requests are refused (unknown kinds, open shapes with a fill, dotted names, wrong tables, empty groups) or fail (pen, table, point, box or transformation raises). '
        'After every step all groups, tables and builders are compared with the reference.  Non-trivial: a refused or failed request, a rotated copy, or a nested builder.')
REAL = ['x7.geom.model.GroupBuilder, Group and shapes', 'x7.geom.colors']
STUB = ['pens, tables, points and shapes that raise (fault)']
STATE_MEASURE = '(operation, outcome, members per group, builders per table)'
ASSUMPTIONS = ['shapes are added to one group once', 'the size of the mark at the centre is not stated, only its centre and pen']

KINDS = ['edge', 'filled', 'clear', 'edge_filled', 'edge_clear']
COLORS = ['black', 'white', 'red', 'orange', [0, 0, 0, 0], [10, 200, 30, 255]]
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'a', 'b', 'x.y', 'rectangle#0', 'a_r', 'a_c', 'A']
OPS = ['rect', 'rrect', 'ellipse', 'curve', 'curve', 'curve', 'rect', 'group', 'group', 'rotate', 'rotate', 'rotate', 'move', 'move', 'move', 'point', 'own', 'restyle', 'retable', 'width',
       'hide', 'draw', 'refused', 'refused', 'fault', 'fault', 'front', 'edit']
SHAPE_OPS = ['rect', 'rrect', 'ellipse', 'curve']


def gen_kind(rng):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.8:
        return rng.choice(KINDS)
    return rng.randrange(ref.PENS)       # a pen of its own


def gen_table(rng):
    r = rng.random()
    if r < 0.75:
        return dict(draft=rng.random() < 0.3, color=rng.choice(COLORS), fill=rng.choice(COLORS + [None]), clear=rng.choice(COLORS + [None]),
                    width=rng.choice([None, 0.0, 3.0, -2.0, 7]))
    if r < 0.85:
        return dict()
    return dict(pens={k: rng.randrange(ref.PENS) for k in KINDS if rng.random() < 0.7})


def gen(rng):
    points = [[ref.gnum(rng), ref.gnum(rng)] for _ in range(3)]
    steps = []
    for _ in range(rng.randint(6, 45)):
        leaf = ref.gen_leaf(rng, 'x', 3)
        steps.append(dict(c='b%d' % rng.randrange(4), op=rng.choice(OPS), i=rng.randrange(1000), j=rng.randrange(1000), k=rng.randrange(1000), name=rng.choice(NAMES), kind=gen_kind(rng),
                          closed=rng.choice([None, True, False]), cps=ref.gen_cps(rng, rng.randint(2, 5), 3), p=[ref.gen_pt(rng, 3), ref.gen_pt(rng, 3)], radius=rng.choice([0, 1.0, 4, 30.0]),
                          angle=rng.choice([0, 10, 36, 45, 90, 180, -30, 360, rng.uniform(-400, 400)]), show=rng.random() < 0.35, extra=rng.choice(['', '', '2', '_x', '.']),
                          table=gen_table(rng), own=rng.random(), x=ref.gnum(rng), y=ref.gnum(rng), how=rng.randrange(8), at=rng.randint(1, 3), exc=gen_exc(rng),
                          leaf=rng.choice([leaf, leaf, ref.gen_holes(rng, 'x')]), w=rng.choice([0, 1, 2.5, -3.0])))
    return dict(config=dict(points=points, tables=[gen_table(rng) for _ in range(rng.randint(1, 2))], xf=ref.gen_xf(rng), kind=rng.choice([None] + KINDS)), steps=steps)


# ------------------------------------------------------------------ reference
def color(c):
    return tuple(c) if isinstance(c, list) else c


def obs(stroke, width, fill):
    return [color(stroke), width, color(fill)]


def table_model(t):
    """The documented pens of a table"""
    if 'pens' in t:
        return {k: build.obs_pen(build.pen(t['pens'][k])) if k in t['pens'] else obs('black', 1, None) for k in KINDS}
    if not t:
        t = dict(draft=True, color='white', fill=None, clear=None, width=None)
    width, fill, clear = t['width'] or 0.0, t['fill'] or (0, 0, 0, 0), t['clear'] or (0, 0, 0, 0)
    if t['draft']:
        return {k: obs(t['color'], 0.0, None) for k in KINDS}
    return dict(edge=obs(t['color'], width, None), filled=obs(None, None, t['color']), clear=obs(None, None, clear),
                edge_filled=obs(t['color'], width, fill), edge_clear=obs(t['color'], width, clear))


def table_real(t):
    if 'pens' in t:
        return PensByShape(**{k: build.pen(v) for k, v in t['pens'].items()})
    kw = dict(draft=t.get('draft'), color=color(t.get('color')), fill=color(t.get('fill')), transparent=color(t.get('clear')), width=t.get('width'))
    return PensByShape.make(**{k: v for k, v in kw.items() if v is not None})


class World(object):
    pass


class Member(object):
    """A shape that was added: what it has to look like from now on"""

    def __init__(self, real, want):
        self.real, self.want = real, want       # want: observation, or group record


class GroupRec(object):
    def __init__(self, real):
        self.real = real
        self.members = []       # [[name, Member]]
        self.points = []        # [[name, idx of the user's point or [x, y] , real]]
        self.hidden = False
        o = build.observe(real)
        self.xf, self.pen, self.closed = o['xf'], o['pen'], o['closed']


class BuilderRec(object):
    def __init__(self, real, table, kind, group):
        self.real, self.table, self.kind, self.group = real, table, kind, group
        self.name = real.name


def want_of(m, pts):
    """Expected observation of a member at the moment"""
    if isinstance(m.want, GroupRec):
        return group_of(m.want, m.real.name, pts)
    w = dict(m.want)
    if 'cps' in w:
        w['cps'] = [[list(map(float, ref.pt_xy(c, pts))), list(map(float, ref.vec_xy(dl, pts))), list(map(float, ref.vec_xy(dr, pts))), kind] for c, dl, dr, kind in w['cps']]
    return w


def group_of(g, name, pts):
    return dict(cls='Group', name=name, pen=g.pen, closed=g.closed, xf=g.xf, hidden=g.hidden,
                elems=[[n, want_of(m, pts)] for n, m in g.members],
                points=sorted(([n, list(map(float, pts[p] if isinstance(p, int) else p))] for n, p, real in g.points), key=lambda x: str(x[0])))


def rebuild(o):
    """A fresh shape from an observation"""
    stroke, width, fill = o['pen']
    pb = PenBrush(None if stroke is None else Pen(stroke, width), None if fill is None else Brush(fill))
    xf = Transform(tuple(o['xf']))
    k = o['cls']
    if k == 'Group':
        g = Group(o['name'], pb, hidden=o['hidden'], xform=xf)
        for n, e in o['elems']:
            g.add(n, rebuild(e))
        return g
    if k == 'ElemWithHoles':
        return ElemWithHoles(o['name'], pb, rebuild(o['outside']), [rebuild(e) for e in o['inside']], xform=xf)
    if k == 'PlugElem':
        return PlugElem(o['name'])
    if k == 'ElemCurve':
        return ElemCurve(o['name'], pb, [ControlPoint(Point(*c), Vector(*dl), Vector(*dr), kind) for c, dl, dr, kind in o['cps']], closed=o['closed'], xform=xf)
    p1, p2 = Point(*o['p1']), Point(*o['p2'])
    if k == 'ElemRectangleRounded':
        return ElemRectangleRounded(o['name'], pb, p1, p2, o['radius'], xform=xf)
    return dict(ElemRectangle=ElemRectangle, ElemEllipse=ElemEllipse)[k](o['name'], pb, p1, p2, xform=xf)


def spec_of(o):
    """Spec for the geometry oracle of C05, from an observation"""
    s = dict(name=o['name'], xf=list(o['xf']), closed=o['closed'])
    if o['cls'] == 'ElemCurve':
        return dict(s, k='curve', cps=o['cps'])
    if o['cls'] in ('Group', 'ElemWithHoles'):
        return None
    s.update(p1=o['p1'], p2=o['p2'], k=dict(ElemRectangle='rect', ElemEllipse='ellipse', ElemRectangleRounded='rrect')[o['cls']])
    if s['k'] == 'rrect':
        s['radius'] = o['radius']
    return s


class FaultyPen(PenBrush):
    armed = None

    @property
    def filled(self):
        if self.armed:
            self.armed.hit()
        return bool(self.brush)


class FaultyTable(PensByShape):
    armed = None

    def __getitem__(self, kind):
        if self.armed:
            self.armed.hit()
        return super().__getitem__(kind)


class FaultyPoint(Point):
    armed = None

    def fixed(self):
        if self.armed:
            self.armed.hit()
        return super().fixed()

    def xy(self):
        if self.armed:
            self.armed.hit()
        return super().xy()


def run(sc, stats):
    cfg = sc['config']
    pts = [list(p) for p in cfg['points']]
    shared = build.shared_points(pts)
    tables = [[table_real(t), table_model(t)] for t in cfg['tables']]
    builders, groups = [], []
    moved_vecs = []

    def new_builder(real, table, kind, group):
        builders.append(BuilderRec(real, table, kind, group))
        return builders[-1]

    def top(table, kind, real_group=None):
        kw = {} if kind is None else dict(shape_kind=kind)
        if real_group is not None:
            kw['group'] = real_group.real
        b = GroupBuilder('top%d' % len(builders), tables[table][0], **kw)
        g = real_group
        if g is None:
            g = GroupRec(b.the_group)
            groups.append(g)
        expect(b.the_group is g.real, 'wrong-group', 'the builder does not work on its group')
        return new_builder(b, table, kind or 'edge', g)

    g0 = Group('own', PenBrush('default'), xform=build.xform(cfg['xf']))
    groups.append(GroupRec(g0))
    top(0, cfg['kind'])
    top(0, None, groups[0])

    def verify(what):
        for g in groups:
            d = build.same(build.observe(g.real), group_of(g, g.real.name, pts))
            expect(not d, 'changed', 'after %s: group %r differs at %s', what, g.real.name, d)
            for n, m in g.members:
                expect(g.real.lookup(n) is m.real, 'changed', 'after %s: member %r of %r is another object', what, n, g.real.name)
            for n, p, real in g.points:
                expect(g.real.lookup_pt(n) is real, 'changed', 'after %s: point %r of %r is another object', what, n, g.real.name)
        for i, (real, model) in enumerate(tables):
            for k in KINDS:
                d = build.same(build.obs_pen(PensByShape.__getitem__(real, k)), model[k])
                expect(not d, 'table', 'after %s: kind %r of pen table %d%s', what, k, i, d)
        for b in builders:
            expect(b.real.pens_by_shape is tables[b.table][0] and b.real.default_shape_kind == b.kind and b.real.the_group is b.group.real and b.real.name == b.name,
                   'builder', 'after %s: builder %r has another table, default kind (%r, expected %r) or group', what, b.name, b.real.default_shape_kind, b.kind)
        for (real, xy), i in zip(((s, s.xy()) for s in shared), range(len(pts))):
            expect(close_xy(xy, pts[i]), 'changed', 'after %s: a point of the user is at %s, expected %s', what, xy, pts[i])
        stats.check(len(groups) + len(tables) + len(builders))

    def style(b, kind):
        """Expected pen, and the argument for it"""
        if isinstance(kind, int):
            return build.obs_pen(build.pen(kind)), build.pen(kind)
        return tables[b.table][1][kind or b.kind], kind

    def added(g, before, name, what):
        """Exactly one new member at the end, under a proper name"""
        names = list(g.real.elems.keys())
        expect(names[:len(before)] == before and len(names) == len(before) + 1, 'not-added', '%s: members were %s, now %s', what, before, names)
        n = names[-1]
        if name in before or '.' in name:
            expect('.' not in n, 'bad-name', '%s: registered as %r', what, n)
        else:
            expect(n == name, 'bad-name', '%s: registered as %r, expected %r', what, n, name)
        return n, g.real.elems[n]

    def request(st, b, op, kind, name, what, closed='default', p=None, cps=None, pen=None):
        """Issue one shape request"""
        kw = {}
        if kind is not None:
            kw['shape_kind'] = kind
        if closed != 'default' and (closed is not None or op == 'curve'):
            kw['closed'] = closed
        if op == 'curve':
            return getattr(b.real, op)(name, cps, **kw)
        args = [name] + p + ([st['radius']] if op == 'rrect' else [])
        return getattr(b.real, op)(*args, **kw)

    for st in sc['steps']:
        b = builders[st['i'] % len(builders)]
        g = b.group
        op, name = st['op'], st['name']
        before = list(g.real.elems.keys())
        outcome = 'ok'
        what = '%s %r by builder %r' % (op, name, b.name)
        stats.step(st['c'], op)
        if op in SHAPE_OPS:
            wantpen, arg = style(b, st['kind'])
            closed = st['closed'] if op == 'curve' else True
            is_closed = bool(wantpen[2] is not None) if closed is None else closed
            refuse = wantpen[2] is not None and not is_closed or '.' in name and name not in before
            what += ' as %r (%s)' % (st['kind'], b.kind)
            cps = build.cps(dict(cps=st['cps']), shared)
            args = [build.point(p, shared) for p in st['p']]
            spots = list(st['p'])
            if st['how'] == 5:
                # one point for both corners, to be drawn out afterwards
                args[1], spots[1] = args[0], spots[0]
            args_before = [p.xy() for p in args]
            try:
                e = request(st, b, op, arg, name, what, closed if op == 'curve' else 'default' if st['how'] % 2 else True, args, cps)
            except (AssertionError, ValueError) as err:
                if not refuse:
                    raise Violation('refused', '%s: %s: %s' % (what, type(err).__name__, err))
                outcome = 'refused'
                stats.fault('refused-' + op)
            else:
                n, real = added(g, before, name, what)
                expect(real is e, 'wrong-result', '%s: returned another shape', what)
                want = dict(cls=build.CLASS[op], name=n, pen=wantpen, closed=is_closed, xf=list(ref.IDENT))
                if op == 'curve':
                    want['cps'] = st['cps']
                    if st['how'] % 4 == 0:
                        cps.reverse()       # the list belongs to the caller
                        del cps[1:]
                else:
                    want['p1'], want['p2'] = [list(map(float, ref.pt_xy(p, pts))) for p in spots]
                    if op == 'rrect':
                        want['radius'] = float(st['radius'])
                    expect([p.xy() for p in args] == args_before, 'changed', '%s: the given points moved', what)
                    if st['how'] % 3 == 0:
                        for p, s in zip(args, spots):
                            if not isinstance(s[0], str):
                                p.setxy(p.x + 5, p.y - 7)       # the point belongs to the caller
                if st['how'] == 5 and op != 'curve':
                    real.p2.setxy(st['x'], st['y'])
                    want['p2'] = [st['x'], st['y']]
                g.members.append([n, Member(real, want)])
        elif op == 'own':
            # a shape made elsewhere
            leaf = build.elem(st['leaf'], [Point(*p) for p in pts])
            if '.' not in name:
                b.real.add(name, leaf)
                n, real = added(g, before, name, what)
                expect(real is leaf, 'wrong-result', '%s: another shape was added', what)
                g.members.append([n, Member(leaf, build.observe(leaf))])
                d = build.same(dict(build.observe(build.elem(st['leaf'], [Point(*p) for p in pts])), name=n), build.observe(leaf))
                expect(not d, 'changed', '%s: the shape was changed at %s', what, d)
        elif op == 'group':
            table, kind = b.table, b.kind
            kw = {}
            if st['own'] < 0.4:
                if len(tables) < 5:
                    tables.append([table_real(st['table']), table_model(st['table'])])
                table = st['j'] % len(tables)
                kw['pens_by_shape'] = tables[table][0]
            if isinstance(st['kind'], str) and st['kind']:
                kind = kw['shape_kind'] = st['kind']
            elif st['how'] % 2:
                kw['shape_kind'] = None
            if len(groups) >= 8:
                continue
            try:
                nb = b.real.group(name, **kw)
            except ValueError as err:
                expect('.' in name, 'refused', '%s: %s', what, err)
                outcome = 'refused'
                stats.fault('refused-group')
            else:
                n, real = added(g, before, name, what)
                expect(real is nb.the_group, 'wrong-group', '%s: the nested builder works on another group', what)
                ng = GroupRec(real)
                expect(not build.same(ng.xf, list(ref.IDENT)) and not real.elems and not real.points and not real.hidden, 'not-empty', '%s: the new group is not empty', what)
                g.members.append([n, Member(real, ng)])
                groups.append(ng)
                new_builder(nb, table, kind, ng)
                stats.probe('nested')
                stats.nontrivial()
        elif op == 'front':
            if len(builders) < 10:
                top(st['j'] % len(tables), st['kind'] if isinstance(st['kind'], str) and st['kind'] else None, groups[st['k'] % len(groups)])
        elif op == 'rotate':
            outcome = rotate(st, groups, b, g, before, pts, added, stats, what)
        elif op == 'move':
            i = st['j'] % len(pts)
            if st['how'] % 2:
                shared[i].set(Point(st['x'], st['y']))
            else:
                shared[i].setxy(st['x'], st['y'])
            pts[i] = [st['x'], st['y']]
        elif op == 'point':
            name = 'p%d' % (st['j'] % 6)
            if name in [n for n, p, real in g.points]:
                continue
            if st['how'] % 2:
                got = b.real.point(name, st['x'], st['y'])
                g.points.append([name, [st['x'], st['y']], got])
            else:
                i = st['k'] % len(pts)
                got = b.real.add_pt(name, shared[i])
                expect(got is shared[i], 'wrong-result', '%s: returned another point', what)
                g.points.append([name, i, shared[i]])
            expect(b.real.lookup_pt(name) is got, 'lookup', '%s: lookup_pt finds another point', what)
        elif op == 'restyle':
            if st['how'] % 2 and isinstance(st['kind'], str) and st['kind']:
                b.real.default_shape_kind = b.kind = st['kind']
            else:
                b.table = st['j'] % len(tables)
                b.real.pens_by_shape = tables[b.table][0]
        elif op == 'retable':
            # the user exchanges a pen of a table
            t = tables[st['j'] % len(tables)]
            k = KINDS[st['k'] % 5]
            p = st['how'] + 2
            setattr(t[0], k, build.pen(p))
            t[1] = dict(t[1], **{k: build.obs_pen(build.pen(p))})
        elif op == 'width':
            t = tables[st['j'] % len(tables)]
            new = t[0].replace_width(st['w'])
            if len(tables) < 5:
                tables.append([new, {k: [s, None if s is None else st['w'], f] for k, (s, w, f) in t[1].items()}])
        elif op == 'hide':
            if st['how'] % 3 == 0:
                b.real.hide()
                expect(b.real.hidden is True, 'not-hidden', '%s: builder is not hidden', what)
                g.hidden = True
        elif op == 'edit':
            # somebody edits a shape that was built: nothing else changes
            leaves = [m for gg in groups for n, m in gg.members if isinstance(m.want, dict) and 'p1' in m.want]
            if leaves:
                m = leaves[st['j'] % len(leaves)]
                m.real.p1.setxy(st['x'], st['y'])
                m.want = dict(m.want, p1=[float(st['x']), float(st['y'])])
        elif op == 'draw':
            draw(st, b, g, pts, what)
            stats.probe('draw')
        elif op == 'refused':
            outcome = refused(st, b, g, before, tables, shared, style, what)
            stats.fault('refused-' + outcome)
        elif op == 'fault':
            outcome = fault(st, b, g, before, tables, shared, request, added, style, groups, pts, what, stats)
        verify(what + ' (%s)' % outcome)
        stats.state([op, outcome, sorted(len(x.members) for x in groups), sorted(x.table for x in builders)])


def sources(groups):
    return [m for gg in groups for n, m in gg.members if not isinstance(m.real, PlugElem)]


def corners(o, m):
    m = ref.mul(m, o['xf'])
    return [ref.apply(m, (x, y)) for x in (o['p1'][0], o['p2'][0]) for y in (o['p1'][1], o['p2'][1])]


def box_center(o):
    """Centre of the box around the transformed corners"""
    c = corners(o, ref.IDENT)
    return (min(x for x, y in c) + max(x for x, y in c)) / 2, (min(y for x, y in c) + max(y for x, y in c)) / 2


def rotate(st, groups, b, g, before, pts, added, stats, what):
    srcs = sources(groups)
    if st['how'] == 0 or not srcs:
        loose = dict(st['leaf'], name='x')
        src = build.elem(loose, [Point(*p) for p in pts])
        m = Member(src, build.observe(src))
    else:
        m = srcs[st['j'] % len(srcs)]
    src = m.real
    isgroup = isinstance(m.want, GroupRec)
    if isgroup and (len(groups) >= 8 or g.real is src or contains(m.want, g)):
        return 'skipped'
    o = want_of(m, pts)
    what = 'rotated copy (%s, angle %g) of %s, %s' % (what, st['angle'], o['cls'], 'marked' if st['show'] else 'unmarked')
    stats.nontrivial()
    show = st['show'] and not isgroup
    try:
        center = src.bbox().center
    except Exception:       # noqa
        center = None
    kw = {}
    if show:
        kw['show'] = True
    if st['extra']:
        kw['extra'] = st['extra']
    name = src.name + '_r' + st['extra']
    try:
        new = b.real.rotate_about_center(src, st['angle'], **kw)
    except Exception as err:        # noqa
        expect(center is None or '.' in name, 'refused', '%s: %s: %s', what, type(err).__name__, err)
        stats.fault('refused-rotate')
        return 'refused'
    expect(center is not None, 'accepted', '%s: accepted though it has no box', what)
    center = center.xy()
    if 'p1' in o:
        expect(close_xy(center, box_center(o), 1e-9, ref.norm(o['xf'])), 'box', '%s: centre of its box is %s, expected %s', what, center, box_center(o))
    names = list(g.real.elems.keys())
    count = 2 if show else 1
    expect(names[:len(before)] == before and len(names) == len(before) + count, 'not-added', '%s: members were %s, now %s', what, before, names)
    expect(g.real.elems[names[len(before)]] is new, 'not-added', '%s: the copy is not the member added', what)
    n = names[len(before)]
    expect('.' not in n and (n == name or name in before), 'bad-name', '%s: registered as %r', what, n)
    expect(new is not src, 'not-added', '%s: is the source itself', what)
    turn = ref.rotate_about(st['angle'], center)
    got = build.observe(new)
    if got['cls'] != o['cls'] or got['pen'] != o['pen'] or got['closed'] != o['closed'] or got['name'] != n:
        raise Violation('wrong-copy', '%s: class, pen, closed or name differ: %r' % (what, got))
    if isgroup:
        d = build.same(got['xf'], list(ref.mul(turn, o['xf'])), 1e-8) or build.same(got['elems'], o['elems']) or build.same(got['points'], o['points']) \
            or build.same(got['hidden'], o['hidden'])
        expect(not d, 'wrong-copy', '%s: differs at %s', what, d)
        rec = GroupRec(new)
        rec.members, rec.points, rec.hidden = list(map(list, m.want.members)), list(map(list, m.want.points)), m.want.hidden
        groups.append(rec)
        g.members.append([n, Member(new, rec)])
    else:
        spec = spec_of(o)
        if spec:
            dc = DrawingContext(Image.new('RGBA', (8, 8)), Transform())
            dc.points_per_curve = 5
            if 'p1' in o and min(abs(o['p1'][0] - o['p2'][0]), abs(o['p1'][1] - o['p2'][1])) < 1e-3:
                # an empty box: its corners
                for a, b_ in ((corners(got, ref.IDENT), corners(o, turn)), (corners(o, turn), corners(got, ref.IDENT))):
                    expect(all(any(close_xy(p, q, 1e-8, ref.norm(turn)) for q in b_) for p in a), 'wrong-cover', '%s: has corners %s, expected %s', what, a, b_)
            else:
                check_cover(new, spec, turn, dc, what)
        else:
            d = build.same(got['xf'], list(ref.mul(turn, o['xf'])), 1e-8) or build.same([got['outside'], got['inside']], [o['outside'], o['inside']])
            expect(not d, 'wrong-copy', '%s: differs at %s', what, d)
        g.members.append([n, Member(new, got)])
    if show:
        n = names[-1]
        mark = g.real.elems[n]
        wanted = src.name + '_c' + st['extra']
        expect('.' not in n and (n == wanted or wanted in before + names[:-1]), 'bad-name', '%s: mark registered as %r', what, n)
        mo = build.observe(mark)
        expect(mo['cls'] == 'ElemEllipse' and mo['pen'] == o['pen'], 'wrong-mark', '%s: mark is %r', what, mo)
        c = box_center(mo)
        expect(close_xy(c, center, 1e-9), 'wrong-mark', '%s: mark is at %s, expected %s', what, c, center)
        expect(max(abs(mo['p1'][0] - mo['p2'][0]), abs(mo['p1'][1] - mo['p2'][1])) > 0, 'wrong-mark', '%s: mark is empty', what)
        g.members.append([n, Member(mark, mo)])
    return 'ok'


def contains(rec, g):
    return rec is g or any(isinstance(m.want, GroupRec) and contains(m.want, g) for n, m in rec.members)


def draw(st, b, g, pts, what):
    images = []
    cfg = (2.0, 0.0, 32.0, 0.0, -2.0, 32.0)
    for one in (b.real, rebuild(group_of(g, 'm', pts))):
        im = Image.new('RGBA', (64, 64), 'white')
        dc = DrawingContext(im, Transform(cfg))
        dc.prod = bool(st['how'] % 2)
        dc.points_per_curve = 6
        one.draw(dc)
        images.append(im)
    expect(images[0].tobytes() == images[1].tobytes(), 'drawing', '%s: draws another picture than its members', what)


def refused(st, b, g, before, tables, shared, style, what):
    """Requests that cannot be met"""
    how = st['how']
    p = [build.point(x, shared) for x in st['p']]
    cps = build.cps(dict(cps=st['cps']), shared)
    bad = ['bogus', 'Edge', 'keys', 'make', '__init__', 'edge ', 'replace_width', '__class__', 'edge_', 'fill'][st['j'] % 10]
    filling = build.pen(4 + st['k'] % 6)
    if how in (0, 1, 2):
        label, op, args, kw = 'kind', SHAPE_OPS[st['j'] % 4], None, dict(shape_kind=bad)
    elif how == 3:
        label, op, args, kw = 'open-fill', 'curve', None, dict(shape_kind=filling, closed=False)
    elif how == 4:
        label, op, args, kw = 'open-box', SHAPE_OPS[st['j'] % 3], None, dict(closed=False)
    elif how == 5:
        label, op, args, kw = 'dotted', SHAPE_OPS[st['j'] % 4], None, dict()
    elif how == 6:
        label, op, args, kw = 'table', 'group', [st['name'] or 'a'], dict(pens_by_shape=['edge', {'edge': 1}, 7, PenBrush('red')][st['j'] % 4])
    else:
        label, op, args, kw = 'empty', 'rotate_about_center', [Group('none', PenBrush('default')), st['angle']], dict()
    if args is None:
        name = 'n.%d' % st['k'] if label == 'dotted' else 'n%d' % st['k']
        args = [name, cps] if op == 'curve' else [name] + p + ([st['radius']] if op == 'rrect' else [])
    try:
        getattr(b.real, op)(*args, **kw)
    except Exception:       # noqa
        return label
    raise Violation('accepted', '%s: %s with %r was accepted (%s)' % (what, op, kw or args[0], label))


def fault(st, b, g, before, tables, shared, request, added, style, groups, pts, what, stats):
    err = make_fault(st['exc'])
    counter = Counter(st['at'], err)
    how = st['how'] % 4
    op = SHAPE_OPS[st['j'] % 4]
    name = 'n%d' % st['k']
    p = [build.point(x, shared) for x in st['p']]
    cps = build.cps(dict(cps=st['cps']), shared)
    wantpen, arg = style(b, st['kind'])
    keep = b.real.pens_by_shape
    plug = None
    closed = 'default' if op != 'curve' else True
    want = None
    stats.plan(['pen', 'table', 'point', 'shape'][how])
    try:
        if how == 0:
            arg = FaultyPen('red', 'blue')
            wantpen = build.obs_pen(arg)
            arg.armed = counter
        elif how == 1:
            t = FaultyTable(**{k: PensByShape.__getitem__(keep, k) for k in KINDS})
            t.armed = counter
            b.real.pens_by_shape = t
        elif how == 2:
            op = SHAPE_OPS[st['j'] % 3]
            closed = 'default'
            bad = FaultyPoint(*p[1].xy())
            bad.armed = counter
            p = [p[0], bad] if st['at'] % 2 else [bad, p[0]]
        else:
            plug = PlugElem('plug')
            counter.k = 1 + st['at'] % 2
            plug.armed = counter
        try:
            if plug:
                new = b.real.rotate_about_center(plug, st['angle'])
            else:
                new = request(st, b, op, arg, name, what, closed, p, cps)
        except BaseException as e:      # noqa
            if e is not err:
                raise
            stats.fault('failed-' + ['pen', 'table', 'point', 'shape'][how])
            return 'failed'
        finally:
            counter.k = -1
        expect(not counter.fired, 'swallowed', '%s: the error was swallowed', what)
    finally:
        b.real.pens_by_shape = keep
    n, real = added(g, before, 'plug_r' if plug else name, what)
    expect(real is new, 'wrong-result', '%s: returned another shape', what)
    # a fault that came too late: an ordinary request
    got = build.observe(real)
    if not plug:
        expect(got['pen'] == wantpen and got['cls'] == build.CLASS[op] and got['closed'] is True, 'wrong-shape', '%s: added %r', what, got)
        if isinstance(arg, FaultyPen):
            real.penbrush = PenBrush('red', 'blue')
        if op == 'curve':
            got['cps'] = st['cps']
    g.members.append([n, Member(real, got)])
    return 'too-late'
