"""C04: rendering is repeatable, read-only and a function of the current model only"""
import copy
import math
import random

import numpy as np
from PIL import Image, ImageColor, ImageFilter

from .. import ref, build, faults
from ..core import Violation, expect
from ..build import Transform, DrawingContext, Group, GroupBuilder, PensByShape, Point, Vector
from ..faults import Counter, make_fault, ERRORS, gen_exc

RUNS = {'quick': 5000, 'thorough': 120000}
RULE = ('A run builds 1-2 nested models with points shared between shapes and offset/scaled points, two drawing contexts with own '
        'placement, background, mode and resolution, and interleaves 4-25 steps of an editor (move a point or handle, resize, change '
        'radius, transform in place or replace it, change pen, hide, add or remove members and points, move there and back) and the two contexts '
        '(draw, failing draw, shadow, extract paths / control paths / curves, boxes, compose).  After each reading step the extracted outlines are '
        'compared with the reference model, pixels with a freshly built model in a fresh context and with colours predicted from the reference, '
        'the background and the whole public model state with their values before.  At the end every context that saw no failure is '
        'compared with a fresh one given the same drawings.  Non-trivial: at least one edit between two reading steps or a fault.')
REAL = ['x7.geom.model', 'x7.geom.drawing', 'x7.geom.transform', 'x7.geom.bezier', 'x7.geom.geom', 'x7.geom.colors', 'PIL']
STUB = ['PIL drawing primitives raise on demand']
STATE_MEASURE = '(operation, mode, shapes drawn, hidden groups, edits so far mod 4)'
ASSUMPTIONS = ['pixels less than 2 pixels from the edge of a drawn line or area may have the colour of either side']
SIZE = 56
PICKS = 40     # pixels looked at per drawing, besides as many near outlines

EDITS = ['move', 'move', 'moveback', 'shared', 'handle', 'corner', 'radius', 'xf', 'xfin', 'xfin', 'pen', 'hide', 'hide', 'add', 'remove', 'addcp', 'delcp', 'swap']
READS = ['draw', 'draw', 'draw', 'faildraw', 'faildraw', 'shadow', 'paths', 'paths', 'cpaths', 'curves', 'box', 'image', 'crop']


def gen(rng):
    pts = [[ref.gnum(rng, 0, 50), ref.gnum(rng, 0, 50)] for _ in range(3)]
    models = [ref.unusual(rng, ref.gen_group(rng, 'm%d' % i, depth=rng.choice([1, 2]), npts=3, size=3, hole_groups=True), rng.choice([8, 8, 30])) for i in range(rng.randint(1, 2))]
    steps = []
    for _ in range(rng.randint(4, 25)):
        if rng.random() < 0.45:
            st = dict(c='edit', op=rng.choice(EDITS), xf=ref.gen_xf(rng), dx=ref.gnum(rng, -20, 20), dy=ref.gnum(rng, -20, 20),
                      leaf=ref.gen_leaf(rng, 'n%d' % rng.randrange(5), 3), cp=ref.gen_cps(rng, 1, 3)[0])
        else:
            st = dict(c='d%d' % rng.randrange(2), op=rng.choice(READS), k=rng.choice([1, 2, 3, 5, 8]),
                      exc=gen_exc(rng), viabuilder=rng.random() < 0.2)
        st.update(m=rng.randrange(4), i=rng.randrange(1000), j=rng.randrange(1000), whole=rng.random() < 0.5)
        steps.append(st)
    ctxs = []
    for _ in range(2):
        base = ref.mul(ref.translate(SIZE/2, SIZE/2), ref.mul(ref.scale(rng.choice([0.4, 0.5, 1.0]), rng.choice([0.4, -0.5, 1.0])),
                                                             ref.mul(ref.rotate(rng.choice([0, 0, 20, 90])), ref.translate(-10, -10))))
        if rng.random() < 0.12:
            base = ref.IDENT
        box = [ref.gnum(rng, -5, 45), ref.gnum(rng, -5, 45)]
        box += [v + rng.choice([-1, 1, 1]) * rng.uniform(4, 25) for v in box]
        if rng.random() < 0.3:
            box = [round(v) for v in box]
        ctxs.append(dict(base=[round(v, 6) for v in base], prod=rng.random() < 0.7, debug=rng.random() < 0.5, show_cps=rng.random() < 0.15,
                         ppc=rng.choice([3, 6, 10]), levels=rng.choice([0, 0, 0, 1, 2, 3, 5, 12]), bg=rng.choice(['white', 'grey', 'noise', 'noise', 'veil']),
                         mode=rng.choice(['RGBA', 'RGBA', 'RGBA', 'RGB', 'RGB', 'L', 'LA', 'P', '1', 'CMYK']),
                         crop=rng.choice([None, None, [0, 0, 30, 20], box])))
    return dict(config=dict(models=models, pts=pts, ctxs=ctxs), steps=steps)


def background(cc):
    im = Image.new('RGBA', (SIZE, SIZE), 'white' if cc['bg'] in ('noise', 'veil') else cc['bg'])
    if cc['bg'] in ('noise', 'veil'):
        im.putdata([((x*37) % 256, (x*11) % 256, (x*5) % 256, 255 if cc['bg'] == 'noise' else x*3 % 256) for x in range(SIZE*SIZE)])
    return im if cc['mode'] == 'RGBA' else im.convert(cc['mode'])


class Ctx(object):
    def __init__(self, cc):
        self.cc = cc
        self.supplied = background(cc)
        self.bytes0 = self.supplied.tobytes()
        self.t = Transform(tuple(cc['base']))
        for k in range(cc.get('levels', 0)):    # levels the owner of the placement has saved
            self.t.push()
            if k % 2:
                self.t.translate(k, 1).translate(-k, -1)
                self.t.set_matrix(Transform(tuple(cc['base'])))
        self.dc = self.make(self.supplied, self.t)
        self.log = []           # what was drawn: (kind, spec, pts)
        self.partial = False

    def make(self, im, t):
        dc = DrawingContext(im, t, prod=self.cc['prod'], crop=self.cc['crop'] and tuple(self.cc['crop']))
        dc.debug, dc.show_cps, dc.points_per_curve = self.cc['debug'], self.cc['show_cps'], self.cc['ppc']
        return dc

    def width(self, width):
        """The documented width of a pen: positive widths are pixels, negative ones scale with the placement"""
        if width > 0:
            return width
        a, b, _, d, e, _ = self.cc['base']
        return -width * (math.hypot(a, d) + math.hypot(b, e)) / 2

    @property
    def steps(self):
        return 10 if self.cc['show_cps'] else self.cc['ppc']

    def fresh(self):
        """A fresh context that uses the same placement object"""
        return self.make(self.supplied, self.t)

    def fresh_own(self):
        return self.make(background(self.cc), Transform(tuple(self.cc['base'])))


def run(sc, stats):
    cfg = sc['config']
    if not cfg['models'] or len(cfg['ctxs']) < 2:
        return
    specs = cfg['models']
    pts = [list(p) for p in cfg['pts']]
    shared = build.shared_points(pts)
    models = [build.elem(s, shared) for s in specs]
    ctxs = [Ctx(c) for c in cfg['ctxs']]
    edits = reads = 0
    unboxed = False

    for st in sc['steps']:
        op = st['op']
        stats.step(st['c'], op)
        mi = st['m'] % len(models)
        spec, model = specs[mi], models[mi]
        everything = list(ref.walk(spec))
        if st['c'] == 'edit':
            if edit(st, spec, model, pts, shared, everything):
                edits += 1
                if reads:
                    stats.nontrivial()
            if any(s['k'] == 'holes' for _, s in everything):
                unboxed = True
            stats.probe('edit-' + op)
            continue
        reads += 1
        cx = ctxs[int(st['c'][1]) % 2]
        path = ()
        if not st['whole']:
            path = everything[st['i'] % len(everything)][0]
            if path and isinstance(path[-1], str):
                path = path[:-1]        # parts of a shape with holes are drawn with it
            while path and isinstance(path[-1], str):
                path = path[:-1]
            for cut in range(len(path)):
                if isinstance(path[cut], str):
                    path = path[:cut]
                    break
        sp, e = build.spec_at(spec, path), build.child(model, path)
        if st.get('viabuilder') and not path and op != 'box':
            target = GroupBuilder('b', PensByShape(), group=model)
        else:
            target = e
        what = '%s of %s' % (op, '.'.join(['m%d' % mi] + list(map(str, path))))
        before = [build.observe(m) for m in models]
        fired = read(op, st, cx, sp, e, target, pts, unboxed, what, stats)
        stats.check()
        for k, m in enumerate(models):
            d = build.same(build.observe(m), before[k], 0.0)
            expect(not d, 'model-changed', '%s changed model %d at %s', what, k, d)
        for c in ctxs:
            expect(c.supplied.tobytes() == c.bytes0 and c.supplied.size == (SIZE, SIZE), 'background-changed', '%s changed the supplied background', what)
        stats.state([op, fired, cx.cc['prod'], sum(1 for _ in ref.leaves(sp, pts)), edits % 4])

    # the model is what the edits made it
    for spec, model in zip(specs, models):
        d = build.same(build.observe(model), build.observe(build.elem(spec, build.shared_points(pts))))
        expect(not d, 'model-changed', 'after the run the model differs from the edits applied at %s', d)
    for k, cx in enumerate(ctxs):
        if cx.partial or not cx.log or len(cx.log) > 8:
            continue
        dc = cx.fresh_own()
        for kind, spec, p in cx.log:
            e = build.elem(spec, build.shared_points(p))
            if kind == 'shadow':
                dc.shadow_draw(e)
            else:
                e.draw(dc)
        a, b = cx.dc.image(), dc.image()
        expect(a.size == b.size and a.tobytes() == b.tobytes(), 'not-repeatable',
               'context %d: the image differs from that of the same %d drawings in a fresh context', k, len(cx.log))
        stats.probe('history-redrawn')


def read(op, st, cx, sp, e, target, pts, unboxed, what, stats):
    dc, base = cx.dc, tuple(cx.cc['base'])

    def bad(fmt, *args):
        raise Violation('misplaced', what + ': ' + fmt % args)

    if op in ('paths', 'cpaths'):
        build.check_paths(sp, e, dc, base, pts, cx.steps, bad)
        a, b = build.paths_of(e, dc), build.paths_of(e, dc)
        expect(a == b, 'not-repeatable', '%s: extracting again gives other outlines%s', what, build.same(a, b))
        if op == 'cpaths':
            check_cpaths(sp, e, dc, base, pts, bad)
    elif op == 'curves':
        check_curves(sp, e, pts, bad)
    elif op == 'box':
        if not unboxed:
            check_box(sp, e, pts, bad)
    elif op == 'image':
        a, b = dc.image(), dc.image()
        expect(a.tobytes() == b.tobytes(), 'not-repeatable', '%s: composing again gives another image', what)
        expect(a is not cx.supplied and a is not dc.background, 'background-changed', '%s: the image is the background itself', what)
        expect_crop(cx, b, dc.image(crop=False), what)
        full = dc.image(crop=False)
        copy_of = full.tobytes()
        full.paste('black', (0, 0, SIZE, SIZE))
        expect(dc.image(crop=False).tobytes() == copy_of, 'not-repeatable', '%s: painting on a composed image shows in the next one', what)
        a.paste('black', (0, 0, a.size[0], a.size[1]))
        expect(dc.image().tobytes() == b.tobytes(), 'not-repeatable', '%s: painting on a composed image shows in the next one', what)
    elif op == 'crop':
        x, y = st['i'] % 30 - 10.37, st['j'] % 30 - 10.61
        box = (x, y, x + 17.21, y + 13.43)
        px = [ref.apply(base, box[:2]), ref.apply(base, box[2:])]
        q = [int(v) for p in px for v in p]
        if all(1e-6 < v % 1 < 1 - 1e-6 for p in px for v in p):
            want = (min(q[0], q[2]), min(q[1], q[3]), max(q[0], q[2]), max(q[1], q[3]))
            full = dc.image(crop=False)
            expect(full.size == (SIZE, SIZE), 'wrong-image', '%s: uncropped image has size %s', what, full.size)
            got = dc.image(crop=box)
            expect(got.size == (want[2]-want[0], want[3]-want[1]) and got.tobytes() == full.crop(want).tobytes(),
                   'wrong-image', '%s: crop %s is not that part of the image', what, box)
    elif op == 'faildraw':
        counter = Counter(st['k'], make_fault(st['exc']))
        stats.plan('canvas-' + st['exc'])
        try:
            with faults.failing_canvas(counter):
                target.draw(dc)
        except ERRORS:
            pass
        if counter.fired:
            cx.partial = True
            stats.fault('canvas-' + st['exc'])
        else:
            cx.log.append(('draw', copy.deepcopy(sp), copy.deepcopy(pts)))
        build.check_paths(sp, e, dc, base, pts, cx.steps, bad)
        return counter.fired
    elif op == 'shadow':
        dc.shadow_draw(target)
        cx.log.append(('shadow', copy.deepcopy(sp), copy.deepcopy(pts)))
        one, two = cx.fresh(), cx.fresh_own()
        one.shadow_draw(target)
        two.shadow_draw(build.elem(sp, build.shared_points(pts)))
        expect(one.image().tobytes() == two.image().tobytes(), 'not-repeatable', '%s differs from the shadow of a fresh model', what)
        silhouette(cx, target, one, what)
        # the shadow of something else later takes nothing from it
        drawn = np.asarray(one.shadow)[:, :, 3] == 255
        x, y = st['i'] % 30, st['j'] % 30
        one.shadow_draw(build.elem(dict(k='rect', name='other', pen=0, xf=None, p1=[x, y], p2=[x + 6.0, y + 5.0])), **({} if st['i'] % 3 else {'color': (20, 20, 20, 255)}))
        expect(bool((np.asarray(one.shadow)[:, :, 3][drawn] == 255).all()), 'wrong-image', '%s: part of the shadow is gone after that of another shape', what)
        build.check_paths(sp, e, dc, base, pts, cx.steps, bad)
    else:
        target.draw(dc)
        cx.log.append(('draw', copy.deepcopy(sp), copy.deepcopy(pts)))
        if st['i'] % 4 == 0:
            # modes are for the drawings made in them
            d = cx.fresh()
            modes = d.show_cps, d.prod, d.debug, d.points_per_curve
            d.show_cps, d.prod, d.debug = not d.show_cps, d.prod != bool(st['j'] % 2), d.debug != bool(st['j'] % 3)
            target.draw(d)
            d.show_cps, d.prod, d.debug = modes[:3]
            build.check_paths(sp, e, d, base, pts, cx.steps, bad)
            expect(d.points_per_curve == modes[3], 'not-repeatable', '%s changed the number of points per curve', what)
            stats.probe('other-modes')
        images = []
        for k in range(2):
            d = cx.fresh()
            target.draw(d)
            images.append(d.image(crop=False))
        d = cx.fresh_own()
        build.elem(sp, build.shared_points(pts)).draw(d)
        expect(images[0].tobytes() == images[1].tobytes(), 'not-repeatable', '%s: drawing again gives another image', what)
        expect(images[0].tobytes() == d.image(crop=False).tobytes(), 'not-current',
               '%s: image differs from that of a freshly built model with the same geometry', what)
        d2 = cx.fresh()
        target.draw(d2)
        once = d2.image().tobytes()
        target.draw(d2)
        expect(d2.image().tobytes() == once, 'not-repeatable', '%s: drawing a second time on top changes the image', what)
        got = build.check_paths(sp, e, dc, base, pts, cx.steps, bad)
        if not cx.cc['show_cps']:
            probe_pixels(got, images[0], cx, st, what, stats)
    return False


def expect_crop(cx, got, full, what):
    """The image is cut to the crop box of the context, given in model coordinates by any two opposite corners"""
    box = cx.cc['crop']
    if box is None:
        want = (0, 0, SIZE, SIZE)
    else:
        px = [ref.apply(cx.cc['base'], box[:2]), ref.apply(cx.cc['base'], box[2:])]
        if tuple(cx.cc['base']) != tuple(ref.IDENT) and not all(1e-6 < v % 1 < 1 - 1e-6 for p in px for v in p):
            return
        q = [int(v) for p in px for v in p]
        want = (min(q[0], q[2]), min(q[1], q[3]), max(q[0], q[2]), max(q[1], q[3]))
    expect(got.size == (want[2]-want[0], want[3]-want[1]) and got.tobytes() == full.crop(want).tobytes(),
           'wrong-image', '%s: the image is not the part %s asked for', what, box)


def silhouette(cx, target, dc, what):
    """The shadow covers what the shape covers, is dark only near it, and nothing is painted on the layer"""
    plain = cx.fresh()
    target.draw(plain)
    drawn = np.asarray(plain.layer)[:, :, 3] > 0
    alpha = np.asarray(dc.shadow)[:, :, 3]
    expect(not np.asarray(dc.layer).any(), 'wrong-image', '%s: the shadow was painted on the layer', what)
    expect(bool((alpha[drawn] == 255).all()), 'wrong-image', '%s: the shadow leaves out part of the shape', what)
    r = 9
    near = np.asarray(Image.fromarray(np.pad(drawn, r, 'wrap').astype('uint8') * 255).filter(ImageFilter.MaxFilter(2 * r + 1)))[r:-r, r:-r] > 0
    expect(not (alpha[~near] == 255).any(), 'wrong-image', '%s: the shadow is dark where there is no shape', what)


# ------------------------------------------------------------------------------------------------- edits
def edit(st, spec, model, pts, shared, everything):
    """Apply one edit to the spec and to the real model, the latter through the public interface"""
    op, i, j = st['op'], st['i'], st['j']

    def choose(*kinds):
        c = [(p, s) for p, s in everything if s['k'] in kinds]
        return c[i % len(c)] if c else (None, None)

    if op in ('move', 'moveback', 'handle', 'addcp', 'delcp'):
        p, s = choose('curve')
        if s is None or not s['cps']:
            return False
        e = build.child(model, p)
        n = j % len(s['cps'])
        if op == 'handle':
            e.control_points[n].dl = Vector(st['dx'], st['dy'])
            s['cps'][n][1] = [st['dx'], st['dy']]
        elif op == 'addcp':
            e.control_points.insert(n, build.cps(dict(cps=[st['cp']]), shared)[0])
            s['cps'].insert(n, copy.deepcopy(st['cp']))
        elif op == 'delcp':
            if len(s['cps']) < 3:
                return False
            del e.control_points[n]
            del s['cps'][n]
        else:
            c = s['cps'][n][0]
            if isinstance(c[0], str):
                return False
            real = e.control_points[n].c
            old = real.xy()
            real.setxy(st['dx'], st['dy'])
            if op == 'moveback':
                real.setxy(*old)
                return False
            s['cps'][n][0] = [st['dx'], st['dy']]
    elif op == 'shared':
        k = i % len(pts)
        shared[k].setxy(st['dx'] + 20, st['dy'] + 20)
        pts[k] = [st['dx'] + 20, st['dy'] + 20]
    elif op == 'corner':
        p, s = choose('rect', 'ellipse', 'rrect')
        if s is None:
            return False
        e = build.child(model, p)
        q = [s['p1'][0] + abs(st['dx']) + 4, s['p1'][1] + abs(st['dy']) + 4]
        e.p2.setxy(*q)
        s['p2'] = q
    elif op == 'radius':
        p, s = choose('rrect')
        if s is None:
            return False
        build.child(model, p).radius = s['radius'] = abs(st['dx'])
    elif op in ('xf', 'xfin'):
        p, s = everything[i % len(everything)]
        e = build.child(model, p)
        if op == 'xf':
            e.xform = build.xform(st['xf']) or Transform()
            s['xf'] = st['xf']
        elif j % 2:
            e.xform.translate(st['dx'], st['dy'])
            s['xf'] = list(ref.mul(ref.xf_of(s), ref.IDENT))
            s['xf'] = list(ref.mul(ref.translate(st['dx'], st['dy']), ref.xf_of(s)))
        else:
            e.xform.rotate_about(30, Point(st['dx'], st['dy']))
            s['xf'] = list(ref.mul(ref.rotate_about(30, (st['dx'], st['dy'])), ref.xf_of(s)))
    elif op == 'pen':
        p, s = everything[i % len(everything)]
        if s['k'] == 'group' or any(isinstance(x, str) for x in p):
            return False
        s['pen'] = j % ref.PENS if s.get('closed', True) else j % 4
        e = build.child(model, p)
        for x in [e] + ([e.outside] + e.inside if s['k'] == 'holes' else []):
            pb = build.pen(s['pen'])
            x.penbrush = pb if x.closed else build.PenBrush(pb.pen, None)
    elif op == 'hide':
        p, s = choose('group')
        if any(isinstance(x, str) for x in p):
            return False
        s['hidden'] = not s['hidden']
        real = build.child(model, p)
        if s['hidden'] and j % 2:
            GroupBuilder('b', PensByShape(), group=real).hide()
        else:
            real.hidden = s['hidden']
    elif op in ('add', 'remove', 'swap'):
        p, s = choose('group')
        if any(isinstance(x, str) for x in p):
            return False
        g = build.child(model, p)
        if op == 'add':
            leaf = copy.deepcopy(st['leaf'])
            if any(x['name'] == leaf['name'] for x in s['elems']):
                return False
            g.add(leaf['name'], build.elem(leaf, shared))
            s['elems'].append(leaf)
        elif op == 'remove':
            if len(s['elems']) < 2:
                return False
            k = j % len(s['elems'])
            del g.elems[s['elems'][k]['name']]
            del s['elems'][k]
        else:
            # exchange the first member with the last in the drawing order
            names = list(g.elems)
            names = names[-1:] + names[1:-1] + names[:1] if len(names) > 1 else names
            g.elems = {n: g.elems[n] for n in names}
            if len(names) > 1:
                s['elems'][0], s['elems'][-1] = s['elems'][-1], s['elems'][0]
    return True


# ------------------------------------------------------------------------------------------------- checks
def check_cpaths(sp, e, dc, base, pts, bad):
    got = build.control_paths_of(e, dc)
    want = [(m, s) for m, s in ref.leaves(sp, pts, base)]
    if len(got) != len(want):
        bad('%d control paths, expected %d', len(got), len(want))
    for row, (m, s) in zip(got, want):
        if s['k'] == 'curve':
            exp = []
            for c, dl, dr in ref.cps_xy(s, pts):
                exp.append([ref.apply(m, c), ref.apply(m, (c[0]+dl[0], c[1]+dl[1])), ref.apply(m, (c[0]+dr[0], c[1]+dr[1]))])
        elif s['k'] == 'rect':
            (x1, y1), (x2, y2) = s['p1'], s['p2']
            exp = [[ref.apply(m, p)] for p in ((x1, y1), (x1, y2), (x2, y2), (x2, y1))]
        else:
            lo = (min(s['p1'][0], s['p2'][0]), min(s['p1'][1], s['p2'][1]))
            hi = (max(s['p1'][0], s['p2'][0]), max(s['p1'][1], s['p2'][1]))
            back = ref.inv(m)
            loc = [ref.apply(back, r[0]) for r in row]
            tol = 1e-6 * (1 + ref.cond(m)) * (1 + max(map(abs, lo + hi)))
            if not all(lo[0]-tol <= x <= hi[0]+tol and lo[1]-tol <= y <= hi[1]+tol for x, y in loc):
                bad('control points of %s are outside of its box', s['name'])
            for d in (0, 1):
                if abs(min(p[d] for p in loc) - lo[d]) > tol or abs(max(p[d] for p in loc) - hi[d]) > tol:
                    bad('control points of %s do not span its box', s['name'])
            continue
        d = build.same(row, exp, 1e-7 * (1 + ref.norm(m)))
        if d:
            bad('control points of %s%s', s['name'], d)


def check_curves(sp, e, pts, bad):
    if any(s['k'] == 'group' and s['hidden'] for _, s in ref.walk(sp)):
        return
    want = list(ref.leaves(sp, pts))
    got = e.as_curves()
    if len(got) != len(want):
        bad('%d curves, expected %d', len(got), len(want))
    dc = DrawingContext(Image.new('RGBA', (2, 2), 'white'), Transform())
    dc.points_per_curve = 20
    for c, (m, s) in zip(got, want):
        if bool(c.closed) != s.get('closed', True):
            bad('curve of %s: closed is %r', s['name'], c.closed)
        points = build.path_points(c.paths(dc)[0])
        if s['k'] == 'rect':
            (x1, y1), (x2, y2) = s['p1'], s['p2']
            ring = [ref.apply(m, p) for p in ((x1, y1), (x1, y2), (x2, y2), (x2, y1), (x1, y1))]
            tol = 1e-6 * (1 + ref.norm(m)) * 100
            for p in points:
                if ref.line_dist(p, ring) > tol:
                    bad('curve of %s passes (%.4f, %.4f)', s['name'], p[0], p[1])
            for p in ring:
                if ref.line_dist(p, points) > tol:
                    bad('curve of %s misses (%.4f, %.4f)', s['name'], p[0], p[1])
        else:
            ref.check_outline(points, s, m, pts, 20, bad, 'curve of %s' % s['name'])


def check_box(sp, e, pts, bad):
    b = e.bbox()
    b2 = e.bbox()
    if b != b2:
        bad('asking again gives another box')
    for m, s in ref.leaves(sp, pts, include_hidden=True):
        if s['k'] == 'curve':
            points = ref.sample(ref.segments(ref.cps_xy(s, pts), s['closed']), 6)
        elif s['k'] == 'ellipse':
            points = ref.ellipse_keys(s['p1'], s['p2'])
        elif s['k'] == 'rect':
            points = [s['p1'], s['p2']]
        else:
            points = ref.round_rect_keys(s['p1'], s['p2'], s['radius'])
        for p in points:
            x, y = ref.apply(m, p)
            tol = 1e-6 * (1 + abs(x) + abs(y) + ref.norm(m))
            if not (b.xl - tol <= x <= b.xh + tol and b.yl - tol <= y <= b.yh + tol):
                bad('box %s does not contain (%.4f, %.4f) of %s', b, x, y, s['name'])


def rgba(color):
    return ImageColor.getcolor(color, 'RGBA') if isinstance(color, str) else tuple(color)


def probe_pixels(paths, image, cx, st, what, stats):
    """Colours away from all outlines follow from the outlines, fills and order; outlines carry their colour, and no other colour appears"""
    items = []
    for p in paths:
        stroke, width, fill = build.obs_pen(p.penbrush)
        if stroke is None and fill is None:
            continue        # draws nothing
        w = reach = 1.0
        if stroke is not None:
            reach = max(1.0, round(cx.width(width)))
            if cx.cc['prod']:
                w = reach
            elif not cx.cc['debug']:
                reach = 1.0
        pts = build.path_points(p)
        if not pts:
            continue        # an open curve of a single point draws nothing
        items.append((np.array(pts + pts[:1] if fill is not None else pts), stroke, w, fill, reach))
    bg = np.array(cx.supplied.convert('RGBA')).reshape(-1, 4)
    got = np.array(image).reshape(-1, 4)
    known = np.all(got == bg, axis=1)
    colours = {rgba(c) for pts, stroke, w, fill, reach in items for c in (stroke, fill) if c is not None and rgba(c)[3]}
    if cx.cc['debug'] and not cx.cc['prod']:
        colours.add(rgba('red'))        # marks of wide pens
    for c in colours:
        known |= np.all(got == c, axis=1)
    if not known.all():
        n = int(np.argmin(known))
        raise Violation('wrong-colour', '%s: pixel (%d, %d) is %s, which is no colour of the background or of any pen' % (
            what, n % SIZE, n // SIZE, tuple(got[n])))
    rng = random.Random(st['i'] * 1000 + st['j'])
    picks = [rng.randrange(SIZE * SIZE) for _ in range(PICKS)]
    # half of the places are near an outline
    for _ in range(PICKS if items else 0):
        pts, stroke, w, fill, reach = rng.choice(items)
        p = pts[rng.randrange(len(pts))]
        x, y = (round(float(v) + rng.uniform(-w - 4, w + 4)) if abs(v) < 1e6 else -1 for v in p)
        if 0 <= x < SIZE and 0 <= y < SIZE:
            picks.append(y * SIZE + x)
    picks = np.array(sorted(set(picks)))
    at = np.stack([picks % SIZE, picks // SIZE], 1).astype(float)
    want, sure = bg[picks].copy(), np.ones(len(picks), bool)
    for pts, stroke, w, fill, reach in items:
        d, odd, core = distances(at, pts)
        if fill is not None:
            want[odd] = rgba(fill) if rgba(fill)[3] else bg[picks][odd]      # a clear fill uncovers the background
            sure[odd] = True
            sure &= d > 2.0
        if stroke is not None:
            on = core < w / 2 - 1.6
            want[on] = rgba(stroke)
            sure[d < reach / 2 + 2.5] = False
            sure[on] = True
            if on.any():
                stats.probe('pixel-on-pen')
    if sure.any():
        stats.probe('pixel')
    wrong = sure & (want != got[picks]).any(axis=1)
    if wrong.any():
        n = int(np.argmax(wrong))
        raise Violation('wrong-colour', '%s: pixel (%d, %d) is %s, expected %s' % (
            what, at[n][0], at[n][1], tuple(got[picks][n]), tuple(want[n])))
    for n in range(6):
        if not items:
            break
        idx = rng.randrange(len(items))
        pts, stroke, w, fill, reach = items[idx]
        if stroke is None or len(pts) < 2 or reach > max(w, 4):
            continue        # (marks of wide pens cover their line)
        q = rng.randrange(len(pts) - 1)
        x, y = (pts[q] + pts[q + 1]) / 2
        if not (2 <= x < SIZE - 3 and 2 <= y < SIZE - 3) or np.abs(pts).max() > 2000:
            continue
        at = np.array([[x, y]])
        if any(d[0] < ow / 2 + 4.0 or of is not None and odd[0]
               for op, os_, _, of, ow in items[idx+1:] for d, odd, _ in [distances(at, op)]):
            continue
        near = [image.getpixel((int(x) + dx, int(y) + dy)) for dx in (-1, 0, 1, 2) for dy in (-1, 0, 1, 2)]
        expect(rgba(stroke) in near, 'wrong-colour', '%s: no pixel near outline point (%.1f, %.1f) has the pen colour %r', what, x, y, stroke)
        stats.probe('pixel-stroke')


def distances(at, pts):
    """Distance of each place from the polyline, whether it is inside (even-odd), and the distance from the pieces it is beside of

    (a thick line is drawn piece by piece, with gaps where they meet at an angle)
    """
    if len(pts) < 2:
        d = np.hypot(*(at - pts[0]).T)
        return d, np.zeros(len(at), bool), d + np.inf
    a, d = pts[:-1], pts[1:] - pts[:-1]
    dd = (d * d).sum(1)
    r = at[:, None, :] - a[None]
    t = (r * d).sum(2) / np.where(dd > 0, dd, 1.0)
    margin = 1.5 / np.sqrt(np.where(dd > 0, dd, 1e-12))
    beside = (t > margin) & (t < 1 - margin)
    r = r - np.clip(t, 0.0, 1.0)[:, :, None] * d
    r = np.sqrt((r * r).sum(2))
    dist = r.min(1)
    core = np.where(beside, r, np.inf).min(1)
    x, y = at[:, 0] + 1e-4, at[:, 1] + 1e-4
    y1, y2 = a[:, 1], pts[1:, 1]
    cross = (y1 > y[:, None]) != (y2 > y[:, None])
    dy = np.where(y2 == y1, 1.0, y2 - y1)
    xx = (pts[1:, 0] - a[:, 0]) * (y[:, None] - y1) / dy + a[:, 0]
    odd = (cross & (x[:, None] < xx)).sum(1) % 2 == 1
    return dist, odd, core
