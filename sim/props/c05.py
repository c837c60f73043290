"""C05: traversals visit every shape once, correctly placed, independent of each other"""
from PIL import Image

from .. import ref, build
from ..core import Violation, SimFault, expect
from ..build import Transform, DrawingContext, Group, GroupBuilder, PensByShape, path_points
from .c03 import Ctx

RUNS = {'quick': 8000, 'thorough': 300000}
RULE = ('A run builds 1-2 nested models and up to 6 traversals (raw deep, or transformed shallow; from any group or shape with holes; with or '
        'without a matrix of the caller that already has saved levels), and interleaves 5-60 steps: advance one, close, throw into, drop, '
        'run one traversal or draw nested inside the step of another on its live matrix, move a point, draw elsewhere.  '
        'Each step is compared with the reference; caller matrices after each end.  Non-trivial: at least two traversals live at once, '
        'or one abandoned.')
REAL = ['x7.geom.model traversals and shape transformation', 'x7.geom.transform', 'x7.geom.drawing (nested draws)']
STUB = ['none; the schedule and the abandonments are simulated']
STATE_MEASURE = 'sorted positions of all live traversals with kind and depth'
ASSUMPTIONS = ['corners of rounded rectangles under a non-uniform scale are not compared (their radius is one number)']


def gen(rng):
    models = [ref.unusual(rng, ref.gen_group(rng, 'm%d' % i, depth=rng.choice([1, 2, 3]), size=4, hidden=True,
                                             hole_groups=True)) for i in range(rng.randint(1, 2))]
    steps = []
    for _ in range(rng.randint(5, 60)):
        op = rng.choice(['start', 'start', 'start', 'next', 'next', 'next', 'next', 'next', 'next', 'next', 'finish', 'close', 'throw', 'drop',
                         'nested', 'move', 'draw', 'nested_draw'])
        steps.append(dict(c='t%d' % rng.randrange(6), op=op, i=rng.randrange(1000), j=rng.randrange(1000),
                          kind=rng.choice(['iter', 'iter', 'iterx']), matrix=rng.random() < 0.75, root=rng.random() < 0.4,
                          xf=ref.gen_xf(rng, False), levels=rng.randint(0, 2), x=ref.gnum(rng), y=ref.gnum(rng),
                          viabuilder=rng.random() < 0.2))
    return dict(config=dict(models=models), steps=steps)


class Trav(object):
    """A live traversal and its remaining expected steps"""


def expected(spec, real, path_spec, base, kind, root):
    """[(check name, element, placement, spec)] from one group or shape with holes"""
    out = []

    def join(r, n):
        return r + '.' + n if r else n

    if kind == 'iter':
        def rec(sp, e, m, name):
            if sp['k'] == 'group':
                m = ref.mul(m, ref.xf_of(sp))
                for s, x in zip(sp['elems'], e.elems.values()):
                    rec(s, x, m, join(name, s['name']))
            elif sp['k'] == 'holes':
                m = ref.mul(m, ref.xf_of(sp))
                for s, x in [(sp['outside'], e.outside)] + list(zip(sp['inside'], e.inside)):
                    part(s, x, m, name)
            else:
                out.append((name, e, m, sp))

        def part(s, x, m, name):
            if s['k'] == 'group':
                for s2, x2 in zip(s['elems'], x.elems.values()):
                    part(s2, x2, ref.mul(m, ref.xf_of(s)), name)
            else:
                out.append(((name, s['name']), x, m, s))
        rec(spec, real, base, join(root, spec['name']))
    else:
        m = ref.mul(base, ref.xf_of(spec))
        name = join(root, spec['name'])
        if spec['k'] == 'group':
            for s, x in zip(spec['elems'], real.elems.values()):
                out.append((name + '.' + s['name'], x, m, s))
        else:
            out.append((name + '.outside.' + spec['outside']['name'], real.outside, m, spec['outside']))
            for s, x in zip(spec['inside'], real.inside):
                out.append((name + '.inside.' + s['name'], x, m, s))
    return out


def run(sc, stats):
    cfg = sc['config']
    specs = cfg['models']
    if not specs:
        return
    models = [build.elem(s) for s in specs]
    dc0 = DrawingContext(Image.new('RGBA', (24, 24), 'white'), Transform())
    dc0.points_per_curve = 5
    live = {}

    def containers(k):
        return [(p, s) for p, s in ref.walk(specs[k]) if s['k'] in ('group', 'holes')]

    def start(st):
        k = st['i'] % len(models)
        path, spec = (lambda c: c[st['j'] % len(c)])(containers(k))
        real = build.child(models[k], path)
        tr = Trav()
        tr.kind = st['kind']
        tr.matrix = None
        tr.levels = []
        tr.m = ref.IDENT
        if st['matrix']:
            tr.m = tuple(st['xf'])
            tr.matrix = Transform(tr.m)
            for lv in range(st['levels']):
                tr.matrix.push().rotate(90).translate(lv, 3)
                tr.levels.append(tr.m)
                tr.m = ref.mul(ref.translate(lv, 3), ref.mul(ref.rotate(90), tr.m))
        root = 'r' if st['root'] else None
        src = real
        if st['viabuilder'] and isinstance(real, Group):
            src = GroupBuilder('b', PensByShape(), group=real)
        tr.what = '%s of %s' % (st['kind'], '.'.join(['m%d' % k] + list(map(str, path))))
        fn = src.iter_elems if st['kind'] == 'iter' else src.iter_elems_transformed
        if tr.matrix is None and root is None and st['j'] % 2:
            tr.it = iter(fn())
        else:
            tr.it = iter(fn(root, tr.matrix))
        tr.want = expected(spec, real, path, tr.m, tr.kind, root)
        tr.pos = 0
        tr.current = None
        return tr

    def advance(tr):
        """One step of a traversal; returns False at the end"""
        try:
            got = next(tr.it)
        except StopIteration:
            expect(tr.pos == len(tr.want), 'skipped', '%s ended after %d of %d shapes', tr.what, tr.pos, len(tr.want))
            ended(tr, 'ended')
            return False
        if tr.pos >= len(tr.want):
            raise Violation('extra', '%s yields more than its %d shapes' % (tr.what, len(tr.want)))
        name, e, m, spec = tr.want[tr.pos]
        tr.pos += 1
        what = '%s step %d' % (tr.what, tr.pos)
        stats.check()
        if tr.kind == 'iter':
            gname, ge, gm = got
            expect(ge is e, 'wrong-shape', '%s yields %r, expected %r', what, getattr(ge, 'name', ge), e.name)
            tr.current = gm
            check_name(gname, name, what)
            near_matrix(gm.as_6tuple(), m, what)
            if tr.matrix is not None:
                expect(gm is tr.matrix, 'wrong-matrix', '%s does not yield the matrix of the caller', what)
        else:
            expect(got is not e, 'wrong-shape', '%s yields the original shape instead of a transformed one', what)
            expect(type(got) is type(e), 'wrong-shape', '%s yields a %s instead of a %s', what, type(got).__name__, type(e).__name__)
            check_name(got.name, name, what)
            check_cover(got, spec, m, dc0, what)
        return True

    def ended(tr, how):
        if tr.matrix is not None:
            near_matrix(tr.matrix.as_6tuple(), tr.m, '%s %s: matrix of the caller' % (tr.what, how))
            Ctx.check_levels(tr.matrix, tr.m, tr.levels, '%s %s' % (tr.what, how))
        stats.probe(how)

    for st in sc['steps']:
        c, op = st['c'], st['op']
        stats.step(c, op)
        tr = live.get(c)
        if op == 'start':
            if tr is None:
                live[c] = start(st)
                if len(live) > 1:
                    stats.nontrivial()
        elif op == 'move':
            k = st['i'] % len(specs)
            curves = [(p, s) for p, s in ref.walk(specs[k]) if s['k'] == 'curve']
            if curves:
                p, s = curves[st['j'] % len(curves)]
                n = st['i'] % len(s['cps']) if s['cps'] else None
                if n is not None:
                    build.child(models[k], p).control_points[n].c.setxy(st['x'], st['y'])
                    s['cps'][n][0] = [st['x'], st['y']]
        elif op == 'draw':
            k = st['i'] % len(specs)
            build.check_paths(specs[k], models[k], dc0, ref.IDENT, [], 5, drawn_wrong)
        elif tr is None:
            continue
        elif op == 'next':
            if not advance(tr):
                del live[c]
        elif op == 'finish':
            while advance(tr):
                pass
            del live[c]
        elif op in ('nested', 'nested_draw'):
            # use the live placement of a raw traversal as the caller's matrix of something else
            if tr.kind == 'iter' and tr.current is not None:
                placed = tr.want[tr.pos-1][2]
                if op == 'nested':
                    inner = start(dict(st, matrix=False))
                    inner.m = placed
                    k = st['i'] % len(models)
                    path, spec = (lambda q: q[st['j'] % len(q)])(containers(k))
                    real = build.child(models[k], path)
                    inner.matrix, inner.levels = None, []
                    inner.it = iter((real.iter_elems if inner.kind == 'iter' else real.iter_elems_transformed)('n', tr.current))
                    inner.want = expected(spec, real, path, placed, inner.kind, 'n')
                    limit = st['x']
                    while advance(inner):
                        if limit > 0 and inner.pos >= limit:
                            inner.it.close()
                            break
                    del inner
                else:
                    k = st['i'] % len(specs)
                    dc = DrawingContext(Image.new('RGBA', (24, 24), 'white'), tr.current)
                    dc.points_per_curve = 4
                    build.check_paths(specs[k], models[k], dc, placed, [], 4, drawn_wrong)
                    models[k].draw(dc)
                near_matrix(tr.current.as_6tuple(), placed, '%s: matrix after nested use' % tr.what)
                stats.probe(op)
        else:
            if op == 'close':
                tr.it.close()
            elif op == 'throw':
                fault = SimFault('thrown into traversal')
                try:
                    tr.it.throw(fault)
                    raise Violation('error-swallowed', '%s swallowed the error thrown into it' % tr.what)
                except SimFault as err:
                    expect(err is fault, 'wrong-error', 'other error')
            else:
                tr.it = None
            tr.it = None
            del live[c]
            stats.fault('traversal-' + op)
            ended(tr, op)
        tr = None
        for o in live.values():
            if o.kind == 'iter' and o.current is not None and o.pos:
                near_matrix(o.current.as_6tuple(), o.want[o.pos-1][2], '%s: placement at its current step' % o.what)
        stats.state(sorted((o.kind, o.pos, len(o.want), len(o.levels)) for o in live.values()))
    for c, tr in list(live.items()):
        while advance(tr):
            pass
    for spec, model in zip(specs, models):
        d = build.same(build.observe(model), build.observe(build.elem(spec)))
        expect(not d, 'model-changed', 'traversing changed the model at %s', d)


def drawn_wrong(fmt, *args):
    raise Violation('misplaced', 'drawing between traversal steps: ' + fmt % args)


def check_name(got, want, what):
    # (whether an empty first name leaves its dot is open)
    got, want = got.lstrip('.'), (want[0].lstrip('.'), want[1]) if isinstance(want, tuple) else want.lstrip('.')
    if isinstance(want, tuple):
        ok = got.startswith(want[0]) and got.endswith('.' + want[1])
        want = want[0] + '...' + want[1]
    else:
        ok = got == want
    expect(ok, 'wrong-name', '%s has name %r, expected %r', what, got, want)


def near_matrix(got, m, what):
    tol = 1e-9 * (1 + ref.norm(m))
    if any(not abs(float(g) - w) <= tol for g, w in zip(got, m)):
        raise Violation('wrong-placement', '%s: %s, expected %s' % (
            what, tuple(round(float(v), 4) for v in got), tuple(round(v, 4) for v in m)))


def check_cover(got, spec, m, dc, what):
    """A transformed shape covers the points the original covers under m"""
    def fail(fmt, *args):
        raise Violation('wrong-cover', what + ': ' + fmt % args)

    if spec['k'] in ('group', 'holes'):
        whole = ref.mul(m, ref.xf_of(spec))
        if spec['k'] == 'group':
            expect(got.hidden == spec['hidden'], 'wrong-cover', '%s: hidden flag lost', what)
        near_matrix(got.xform.as_6tuple(), whole, what + ': placement of the transformed group')
        build.check_paths(dict(spec, xf=list(whole)), got, dc, ref.IDENT, [], 5, fail)
        return
    whole = ref.mul(m, ref.xf_of(spec))
    paths = got.paths(dc)
    if len(paths) != 1:
        fail('%d paths', len(paths))
    pts = path_points(paths[0])
    if spec['k'] == 'curve':
        ref.check_outline(pts, spec, whole, [], 5, fail, 'outline')
        return
    p1, p2 = spec['p1'], spec['p2']
    size = max(abs(p2[0]-p1[0]), abs(p2[1]-p1[1])) + 1
    if spec['k'] == 'ellipse':
        # always represented exactly
        ref.check_outline(pts, spec, whole, [], 5, fail, 'outline')
    elif spec['k'] == 'rect' or spec.get('radius') == 0:
        corners = [(p1[0], p1[1]), (p1[0], p2[1]), (p2[0], p2[1]), (p2[0], p1[1]), (p1[0], p1[1])]
        back = ref.inv(whole)
        local = [ref.apply(back, p) for p in pts]
        for p in local:
            if ref.line_dist(p, corners) > 1e-6 * size * 100:
                fail('outline passes (%.4f, %.4f), which is not on the rectangle', *p)
        for p in corners:
            if ref.line_dist(p, local) > 1e-6 * size * 100:
                fail('outline misses the corner (%.4f, %.4f)', *p)
    else:
        sx, sy = (whole[0]**2 + whole[3]**2)**0.5, (whole[1]**2 + whole[4]**2)**0.5
        back = ref.inv(whole)
        local = [ref.apply(back, p) for p in pts]
        if abs(sx - sy) < 1e-9 * (sx + sy):
            ref.check_outline(pts, spec, whole, [], 5, fail, 'outline')
        else:
            # the bounding rectangle still has to be right
            lo = (min(p[0] for p in local), min(p[1] for p in local))
            hi = (max(p[0] for p in local), max(p[1] for p in local))
            for g, w in ((lo, (min(p1[0], p2[0]), min(p1[1], p2[1]))), (hi, (max(p1[0], p2[0]), max(p1[1], p2[1])))):
                if abs(g[0]-w[0]) > 1e-3*size or abs(g[1]-w[1]) > 1e-3*size:
                    fail('extent (%.4f, %.4f), expected (%.4f, %.4f)', g[0], g[1], w[0], w[1])
