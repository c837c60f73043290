"""C06: snapshots are equal, independent, and restore exactly"""
import copy

from PIL import Image

from .. import ref, build, faults
from ..core import Violation, expect
from ..build import Transform, DrawingContext, Group, ElemWithHoles, ElemCurve, Point, Vector, BBox
from ..faults import Counter, make_fault, ERRORS, gen_exc

RUNS = {'quick': 8000, 'thorough': 250000}
RULE = ('A run keeps 1-3 shapes of any kind (curves with plain, shared and derived points, boxes, holes, groups with points) and interleaves '
        '6-40 steps of independent owners: take a snapshot (also of a snapshot), edit a shape or a snapshot in place, by replacing '
        'attributes or by reordering, doubling or deleting points, restore from any snapshot of the same kind, restore from an incompatible one (must change nothing if refused), restore or copy while a '
        'plug-in part fails.  After every step every shape and snapshot is compared with its own reference state and some are drawn. '
        'Non-trivial: a restore or a refused/failed operation after an edit.')
REAL = ['x7.geom.model copy/restore/fixed', 'x7.geom.bezier.ControlPoint', 'x7.geom.geom points', 'x7.geom.transform copies']
STUB = ['a plug-in part whose copy() raises on demand']
STATE_MEASURE = '(operation, kinds and snapshot counts of all owners)'
ASSUMPTIONS = ['the pen object may be shared by copies (it is style, not geometry)', 'names of points in curves are not compared (fixed copies rename them)',
               'what happens to the link to a shared point after a restore is not prescribed']

OPS = ['snap', 'snap', 'snap', 'resnap', 'edit', 'edit', 'edit', 'edit', 'edit', 'restore', 'restore', 'restore', 'mismatch', 'failcopy', 'failrestore',
       'shared', 'read', 'read', 'cpsnap', 'cprestore', 'placed', 'placed']
EDITS = ['move', 'movec', 'handle', 'handlec', 'kind', 'corner', 'cornerr', 'boxupd', 'radius', 'xf', 'xfin', 'xfin', 'xfin', 'pen', 'name', 'hide', 'addm', 'delm',
         'member', 'member', 'member', 'reorder', 'twin', 'twin', 'addpt', 'delpt', 'movept', 'addcp', 'addhole']


def gen(rng):
    pts = [[ref.gnum(rng), ref.gnum(rng)] for _ in range(3)]
    shapes = []
    for i in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.25:
            s = ref.gen_group(rng, 's%d' % i, depth=1, npts=3, size=3)
            s['points'] = {}
            s['closed'] = rng.random() < 0.3
            if rng.random() < 0.15:
                s['elems'] = []
        elif r < 0.45:
            s = ref.gen_holes(rng, 's%d' % i, rng.random() < 0.4)
        else:
            s = ref.gen_leaf(rng, 's%d' % i, 3)
        shapes.append(s)
    steps = []
    for _ in range(rng.randint(6, 40)):
        steps.append(dict(c='o%d' % rng.randrange(len(shapes)), op=rng.choice(OPS), e=rng.choice(EDITS), i=rng.randrange(1000), j=rng.randrange(1000),
                          t=rng.choice([0, 0, 0, 1, 2, 3, 4]), x=ref.gnum(rng), y=ref.gnum(rng), xf=ref.gen_xf(rng), how=rng.randrange(5),
                          leaf=ref.gen_leaf(rng, 'n%d' % rng.randrange(6), 3), cp=ref.gen_cps(rng, 1, 3)[0], exc=gen_exc(rng)))
    return dict(config=dict(pts=pts, shapes=shapes), steps=steps)


def make(spec, shared):
    """Like build.elem, with points and closed of groups"""
    e = build.elem(spec, shared)

    def extra(e, s):
        if s['k'] == 'group':
            e.closed = s.get('closed', False)
            for n, p in s.get('points', {}).items():
                e.add_pt(n, Point(*p))
            for x, y in zip(e.elems.values(), s['elems']):
                extra(x, y)
        elif s['k'] == 'holes':
            for x, y in zip([e.outside] + e.inside, [s['outside']] + s['inside']):
                extra(x, y)
    extra(e, spec)
    return e


def frozen(spec, pts):
    """What a snapshot holds: own geometry; a group shares its members and points"""
    if spec['k'] == 'group':
        return dict(spec, elems=list(spec['elems']), points=dict(spec.get('points', {})), xf=copy.deepcopy(spec['xf']))
    if spec['k'] == 'holes':
        s = {k: copy.deepcopy(v) for k, v in spec.items() if k not in ('outside', 'inside', 'live')}
        return dict(s, outside=frozen(spec['outside'], pts), inside=[frozen(e, pts) for e in spec['inside']])
    s = copy.deepcopy(spec)
    s.pop('live', None)
    for _, leaf in ref.walk(s):
        if leaf['k'] == 'curve':
            leaf['cps'] = [[list(c), list(dl), list(dr), k] for (c, dl, dr), k in zip(ref.cps_xy(leaf, pts), [x[3] for x in leaf['cps']])]
    return s


def derived(spec):
    """Some point or handle depends on shared points ('live': restored from such a shape)"""
    return any(s.get('live') for _, s in ref.walk(spec)) or any(isinstance(v[0], str) for _, s in ref.walk(spec) if s['k'] == 'curve' for cp in s['cps'] for v in cp[:3])


class Obj(object):
    """A shape or a snapshot with its reference state"""

    def __init__(self, real, spec, what):
        self.real, self.spec, self.what = real, spec, what


def run(sc, stats):
    cfg = sc['config']
    if not cfg['shapes']:
        return
    pts = [list(p) for p in cfg['pts']]
    shared = build.shared_points(pts)
    owners = [[Obj(make(s, shared), s, s['name'])] for s in cfg['shapes']]
    cpsnaps = []
    placed = []         # transformed copies: (real, what it was, what)
    pinned = False
    edited = False
    dc = DrawingContext(Image.new('RGBA', (8, 8), 'white'), Transform())
    dc.points_per_curve = 4

    def check(what):
        fresh = build.shared_points(pts)
        for objs in owners:
            for o in objs:
                d = build.same(build.observe(o.real), build.observe(make(o.spec, fresh)))
                expect(not d, 'wrong-state', 'after %s: %s differs from what was last put into it at %s', what, o.what, d)
        stats.check()

    for st in sc['steps']:
        op = st['op']
        oi = int(st['c'][1:]) % len(owners)
        objs = owners[oi]
        stats.step(st['c'], op if op != 'edit' else st['e'])
        live = objs[0]
        target = objs[st['t'] % len(objs)]
        what = '%s of %s' % (op, live.what)
        if op in ('snap', 'resnap'):
            src = live if op == 'snap' else target
            if len(objs) > 5:
                continue
            fixed = isinstance(src.real, ElemCurve) and st['how'] == 0
            real = src.real.fixed() if fixed else src.real.copy()
            spec = frozen(src.spec, pts)
            expect(real is not src.real and type(real) is type(src.real), 'not-a-copy', '%s is not a new object of the same kind', what)
            if not derived(src.spec):
                expect(real == src.real and src.real == real and not (real != src.real), 'not-equal', '%s: snapshot and shape are not equal', what)
            if isinstance(real, Group):
                expect(all(a is b for a, b in zip(real.elems.values(), src.real.elems.values())), 'members', '%s: members are not shared', what)
            objs.append(Obj(real, spec, 'snapshot %d of %s' % (len(objs), live.what)))
        elif op == 'edit':
            what = '%s of %s' % (st['e'], target.what)
            edited = edit(st, target, pts, shared) or edited
        elif op == 'restore':
            if len(objs) < 2:
                continue
            snap = objs[1 + st['i'] % (len(objs) - 1)]
            if target is snap:
                continue
            what = 'restore of %s from %s' % (target.what, snap.what)
            pinned = pinned or derived(target.spec) or derived(snap.spec)
            restore(target, snap, pts, what, stats)
            if edited:
                stats.nontrivial()
        elif op == 'mismatch':
            other = owners[st['i'] % len(owners)]
            other = other[st['j'] % len(other)]
            a, b = live.spec['k'], other.spec['k']
            boxes = ('rect', 'ellipse', 'rrect')
            if other is live or (a == b and a != 'curve') or (a in boxes and b in boxes and not (a == 'rrect')):
                continue
            what = 'restore of %s from %s %s' % (live.what, b, other.what)
            before = build.observe(live.real)
            try:
                live.real.restore(other.real)
            except Exception as err:        # noqa
                stats.fault('refused-restore')
                d = build.same(build.observe(live.real), before, 0.0)
                expect(not d, 'refused-changed', '%s was refused (%s) but changed %s', what, type(err).__name__, d)
            else:
                if a != b:
                    stats.probe('mismatch-accepted')
                    return
                pinned = pinned or derived(live.spec) or derived(other.spec)
                live.spec.update(frozen(other.spec, pts), live=derived(other.spec))
        elif op in ('failcopy', 'failrestore'):
            if live.spec['k'] != 'holes':
                continue
            src = live if op == 'failcopy' else target
            plug = faults.PlugElem('plug')
            src.real.inside.insert(st['j'] % (len(src.real.inside) + 1), plug)
            counter = Counter(1, make_fault(st['exc']))
            stats.plan('plug-' + st['exc'])
            others = [o for o in objs if o is not src] or [live]
            dest = others[st['i'] % len(others)]
            before = build.observe(dest.real) if dest is not src else None
            plug.armed = counter
            try:
                if op == 'failcopy':
                    src.real.copy()
                elif dest is not src:
                    dest.real.restore(src.real)
                else:
                    counter.fired = None
            except ERRORS as err:
                expect(err is counter.fault, 'wrong-error', '%s: other error', what)
                stats.fault('plug-' + st['exc'])
            finally:
                plug.armed = None
                src.real.inside.remove(plug)
            if before is not None and op == 'failrestore':
                d = build.same(build.observe(dest.real), before, 0.0)
                expect(not d, 'refused-changed', '%s failed but changed %s', what, d)
        elif op == 'shared':
            if not pinned:
                shared[st['i'] % 3].setxy(st['x'], st['y'])
                pts[st['i'] % 3] = [st['x'], st['y']]
        elif op == 'read':
            o = target

            def bad(fmt, *args):
                raise Violation('misplaced', 'drawing %s: ' % o.what + fmt % args)
            build.check_paths(o.spec, o.real, dc, ref.IDENT, pts, 4, bad)
        elif op in ('cpsnap', 'cprestore'):
            curves = [(p, s) for p, s in ref.walk(target.spec) if s['k'] == 'curve' and s['cps']]
            if not curves:
                continue
            p, s = curves[st['i'] % len(curves)]
            n = st['j'] % len(s['cps'])
            cp = build.child(target.real, p).control_points[n]
            if op == 'cpsnap':
                if any(isinstance(v[0], str) and v[0] != 'n' for v in s['cps'][n][:3]):
                    continue
                c, dl, dr, k = s['cps'][n]
                dup = cp.copy()
                cpsnaps.append((dup, [list(ref.pt_xy(c, pts)), list(dl), list(dr), k], s.get('live')))
            elif cpsnaps:
                dup, vals, lives = cpsnaps[st['i'] % len(cpsnaps)]
                pinned = pinned or derived(target.spec)
                cp.restore(dup)
                s['cps'][n] = copy.deepcopy(vals)
                if lives:
                    s['live'] = True
        elif op == 'placed' and len(placed) < 6:
            # a transformed copy is a shape of its own as well
            what = 'transformed copy of %s' % target.what
            m = Transform(tuple(st['xf'])) if st['xf'] and st['how'] else Transform()
            placed.append((target.real.transform(m), what))
            placed[-1] += (own(placed[-1][0]),)
            scribble(target.real.transform(m), st)
        for real, name, was in placed:
            d = build.same(own(real), was, 0.0)
            expect(not d, 'wrong-state', 'after %s: a %s changed at %s', what, name, d)
        check(what)
        for dup, vals, lives in cpsnaps:
            got = [list(dup.c.xy()), list(dup.dl.xy()), list(dup.dr.xy()), dup.kind]
            expect(not build.same(got, vals), 'wrong-state', 'after %s: a copied control point changed: %s', what, build.same(got, vals))
        stats.state([op, [[o[0].spec['k'], len(o)] for o in owners]])


def own(real):
    """All that belongs to a transformed copy.  The members of a group are shared"""
    if isinstance(real, Group):
        return dict(name=real.name, hidden=real.hidden, closed=real.closed, xf=list(map(float, real.xform.as_6tuple())), elems=list(real.elems), points=list(real.points))
    if isinstance(real, ElemWithHoles):
        return dict(name=real.name, xf=list(map(float, real.xform.as_6tuple())), parts=[own(e) for e in [real.outside] + list(real.inside)])
    return build.observe(real)


def scribble(real, st):
    """Change everything that belongs to a transformed copy"""
    real.name = 'scribbled'
    real.xform.translate(st['x'], 5)
    if isinstance(real, Group):
        real.hidden = not real.hidden
        if st['j'] % 2 and real.elems:
            del real.elems[list(real.elems)[st['j'] % len(real.elems)]]
        else:
            real.add('scribbled', build.elem(dict(k='rect', name='scribbled', pen=0, xf=None, p1=[0, 0], p2=[1, 2])))
        real.add_pt('scribbled', Point(1, 2))
    elif isinstance(real, ElemWithHoles):
        scribble(real.outside, st)
        for e in real.inside:
            scribble(e, st)
        del real.inside[:]
    elif isinstance(real, ElemCurve):
        if not real.control_points:
            return
        cp = real.control_points[st['j'] % len(real.control_points)]
        for p in (cp.c, cp.dl, cp.dr):
            p.setxy(st['x'], st['y'])
        real.control_points.reverse()
    else:
        real.p1.setxy(st['x'], st['y'])
        real.p2.setxy(st['y'], st['x'])


def restore(target, snap, pts, what, stats):
    if target.spec['k'] == 'curve' and len(target.spec['cps']) != len(snap.spec['cps']):
        before = build.observe(target.real)
        try:
            target.real.restore(snap.real)
        except Exception as err:        # noqa
            stats.fault('refused-restore')
            d = build.same(build.observe(target.real), before, 0.0)
            expect(not d, 'refused-changed', '%s was refused (%s) but changed %s', what, type(err).__name__, d)
            return
    else:
        target.real.restore(snap.real)
        if not derived(snap.spec):
            expect(target.real == snap.real, 'not-equal', '%s: shape and snapshot are not equal afterwards', what)
        if isinstance(target.real, Group):
            expect(list(target.real.elems) == list(snap.real.elems) and
                   all(a is b for a, b in zip(target.real.elems.values(), snap.real.elems.values())),
                   'members', '%s: members are not those captured', what)
    new = dict(frozen(snap.spec, pts), live=derived(snap.spec) and snap.spec['k'] != 'holes')
    target.spec.clear()
    target.spec.update(new)


def edit(st, o, pts, shared):
    op, i, j, x, y = st['e'], st['i'], st['j'], st['x'], st['y']
    real, spec = o.real, o.spec
    path, s = (), spec
    if op in ('move', 'movec', 'handle', 'handlec', 'kind', 'addcp'):
        curves = [(p, q) for p, q in ref.walk(spec) if q['k'] == 'curve' and q['cps']]
        if not curves:
            return False
        path, s = curves[i % len(curves)]
        e = build.child(real, path)
        n = j % len(s['cps'])
        cp, sp = e.control_points[n], s['cps'][n]
        if op == 'addcp':
            e.control_points.append(build.cps(dict(cps=[st['cp']]), shared)[0])
            s['cps'].append(copy.deepcopy(st['cp']))
        elif op == 'kind':
            cp.kind = sp[3] = ref.KINDS[j % 3]
        elif op == 'move':
            if isinstance(sp[0][0], str) or s.get('live'):
                return False
            if st['how'] % 2:
                cp.c.set(Point(x, y))
            else:
                cp.c.setxy(x, y)
            sp[0] = [x, y]
        elif op == 'movec':
            cp.c = Point(x, y)
            sp[0] = [x, y]
        else:
            side = 1 + st['how'] % 2
            name = ('dl', 'dr')[side - 1]
            if op == 'handlec':
                setattr(cp, name, Vector(x, y))
            else:
                if isinstance(sp[side][0], str) or s.get('live'):
                    return False
                getattr(cp, name).setxy(x, y)
            sp[side] = [x, y]
        return True
    if op in ('corner', 'cornerr', 'boxupd', 'radius'):
        boxes = [(p, q) for p, q in ref.walk(spec) if q['k'] in (('rrect',) if op == 'radius' else ('rect', 'ellipse', 'rrect'))]
        if not boxes:
            return False
        path, s = boxes[i % len(boxes)]
        e = build.child(real, path)
        q = [max(s['p1'][0], s['p2'][0]) + 1 + abs(x), max(s['p1'][1], s['p2'][1]) + 1 + abs(y)]
        if op == 'radius':
            e.radius = s['radius'] = abs(x)
        elif op == 'boxupd':
            lo = [min(s['p1'][0], s['p2'][0]) - abs(y), min(s['p1'][1], s['p2'][1]) - abs(x)]
            e.bbox_int_update(BBox(Point(*lo), Point(*q)))
            s['p1'], s['p2'] = lo, q
        elif op == 'corner':
            e.p2.setxy(*q)
            s['p2'] = q
        else:
            e.p2 = Point(*q, e.p2.name)
            s['p2'] = q
        return True
    if op in ('xf', 'xfin', 'pen', 'name'):
        shapes = list(ref.walk(spec))
        path, s = shapes[i % len(shapes)] if st['how'] < 2 else ((), spec)
        e = build.child(real, path)
        if op == 'name':
            real.name = spec['name'] = 'nm%d' % (j % 5) if not path else spec['name']
        elif op == 'pen':
            if s['k'] == 'group' or s['k'] == 'holes' or any(isinstance(p, str) for p in path):
                return False
            s['pen'] = j % ref.PENS if s.get('closed', True) else j % 4
            e.penbrush = build.pen(s['pen'])
        elif op == 'xf':
            e.xform = build.xform(st['xf']) or Transform()
            s['xf'] = st['xf']
        else:
            m = ref.xf_of(s)
            how = j % 5
            if how == 0:
                e.xform.translate(x, y)
                m = ref.mul(ref.translate(x, y), m)
            elif how == 1:
                e.xform.rotate(30)
                m = ref.mul(ref.rotate(30), m)
            elif how == 2:
                e.xform.scale(-1, 1)
                m = ref.mul(ref.scale(-1, 1), m)
            elif how == 3:
                e.xform.set_matrix(build.xform(st['xf']) or Transform())
                m = tuple(st['xf'] or ref.IDENT)
            else:
                e.xform.rotate_about(90, Point(x, y))
                m = ref.mul(ref.rotate_about(90, (x, y)), m)
            s['xf'] = list(m)
        return True
    if op == 'addhole':
        if spec['k'] != 'holes' or len(spec['inside']) > 9:
            return False
        leaf = dict(k='rect', name='h%d' % len(spec['inside']), pen=spec['pen'], xf=None, p1=[x, y], p2=[x + 3, y + 4])
        for leaf in [leaf] + [dict(leaf, name='h%d' % (len(spec['inside']) + k + 1)) for k in range(st['j'] % 4)]:
            real.inside.append(build.elem(leaf))
            spec['inside'].append(leaf)
        return True
    # groups
    groups = [(p, q) for p, q in ref.walk(spec) if q['k'] == 'group' and (q['elems'] or op != 'member')]
    if not groups:
        return False
    path, s = groups[i % len(groups)] if op == 'member' else groups[0]
    g = build.child(real, path)
    if op == 'hide':
        g.hidden = s['hidden'] = not s['hidden']
    elif op == 'addm':
        leaf = copy.deepcopy(st['leaf'])
        if any(q['name'] == leaf['name'] for q in s['elems']):
            return False
        g.add(leaf['name'], build.elem(leaf, shared))
        s['elems'].append(leaf)
    elif op == 'delm':
        if not s['elems']:
            return False
        k = j % len(s['elems'])
        del g.elems[s['elems'][k]['name']]
        del s['elems'][k]
    elif op == 'member':
        k = j % len(s['elems'])
        m = ref.xf_of(s['elems'][k])
        g.elems[s['elems'][k]['name']].xform.translate(x, y)
        s['elems'][k]['xf'] = list(ref.mul(ref.translate(x, y), m))
    elif op == 'addpt':
        s.setdefault('points', {})
        name = 'p%d' % (j % 5)
        if name in s['points']:
            return False
        g.add_pt(name, Point(x, y))
        s['points'][name] = [x, y]
    elif op == 'reorder':
        # the drawing order
        if len(s['elems']) < 2:
            return False
        items = list(g.elems.items())
        k = 1 + j % (len(items) - 1)
        g.elems = dict(items[k:] + items[:k])
        s['elems'] = s['elems'][k:] + s['elems'][:k]
    elif op == 'twin':
        # an equal shape takes the place of a member
        if not s['elems']:
            return False
        k = j % len(s['elems'])
        if derived(s['elems'][k]):
            return False
        name = s['elems'][k]['name']
        g.elems[name] = g.elems[name].copy()
        s['elems'][k] = frozen(s['elems'][k], pts)
    elif op == 'delpt':
        if not s.get('points'):
            return False
        name = sorted(s['points'])[j % len(s['points'])]
        del g.points[name]
        del s['points'][name]
    elif op == 'movept':
        if not s.get('points'):
            return False
        name = sorted(s['points'])[j % len(s['points'])]
        g.lookup_pt(name).setxy(x, y)
        s['points'][name][:] = [x, y]
    return True
