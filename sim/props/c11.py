"""C11: a written model reloads as the same model"""
import copy
import io

import numpy as np
from PIL import Image

from .. import ref, build, faults
from ..core import Violation, expect
from ..build import (Transform, DrawingContext, DumpContext, Group, GroupBuilder, ElemWithHoles, PenBrush, PensByShape, Point, PointRelative,
                     PointCalc, Vector, VectorRelative, ControlPoint, BBox, Pen, Brush)
from ..faults import Counter, make_fault, ERRORS, gen_exc
from . import c06
from x7.geom.testing import PicklerExtensionGeom
from x7.testing.support import Pickler

RUNS = {'quick': 4500, 'thorough': 250000}
RULE = ('A run edits a model (nested groups with points, curves with shared and derived points, boxes, shapes with holes; awkward names and numbers) and interleaves '
        '5-35 steps: edits, moves of shared points, save (as a program with or without variables, through a builder, of a single member), save while a '
        'plug-in part fails, crash (all objects dropped; only the last written text survives and is run in an empty namespace; the run goes on with the reloaded model), '
        'draw, and recordings of shapes and values through the test-data store. Every reloaded model is compared with the reference state at the time of the save, '
        'by the model\'s own equality and by its drawn paths. Non-trivial: a crash or failed save, or a save after an edit.')
REAL = ['x7.geom.model dump of all shapes, DumpContext', 'x7.geom.testing.PicklerExtensionGeom', 'reprs of points, pens, transforms', 'x7.testing Pickler (library)']
STUB = ['text files (kept in memory)', 'a plug-in part whose dump() fails on demand']
STATE_MEASURE = '(operation, kinds of all shapes, text saved or not)'
ASSUMPTIONS = ['coordinates are finite', 'the parts of a shape with holes have its pen, as its constructor gives them',
               'a reloaded point keeps its value; its link to a point shared between shapes is not prescribed']

NAMES = ["a'b", 'q"x', 'new\nline', 'ü', 'back\\slash', ' ', "'''", '%s', '{0}', 'pen_1', 'model', 'None', '#', '\t', 'x' * 300, '\u2028', 'xform_1']
OPS = ['edit', 'edit', 'edit', 'edit', 'edit', 'shared', 'save', 'save', 'save', 'reload', 'reload', 'crash', 'crash', 'member', 'member', 'record', 'record', 'failsave', 'draw', 'rename', 'penholes', 'addrel']
ODD = [1e-300, -0.0, 1e22, 1/3, 123456789.123456789, 5e-324, 0.1 + 0.2, -1e-7, 1e16, 2.0**53 + 2]
SMALL = [v for v in ODD[1:] if abs(v) < 1e6]


def gen(rng):
    model = ref.gen_group(rng, rng.choice(['m', 'm', 'm'] + NAMES), depth=2, size=4, npts=3, hole_groups=True)
    ref.unusual(rng, model, 60)
    if rng.random() < 0.2:
        model = rng.choice([ref.gen_leaf(rng, 'm', 3), ref.gen_holes(rng, 'm', True)])
    for p, s in ref.walk(model):
        if s['k'] == 'group' and p and rng.random() < 0.12:
            s['elems'] = []
    for p, s in ref.walk(model):
        if s['k'] == 'group' and rng.random() < 0.5:
            for e in s['elems']:
                if rng.random() < 0.3:
                    n = rng.choice(NAMES)
                    if all(o['name'] != n for o in s['elems']):
                        e['name'] = n
        if s['k'] == 'group':
            s['points'] = {rng.choice(['p0', 'p1', "p'2", 'x y']): [ref.gnum(rng), ref.gnum(rng)] for _ in range(rng.choice([0, 0, 1, 2]))}
            s['closed'] = rng.random() < 0.1 and not any(isinstance(x, str) for x in p)
        if rng.random() < 0.15 and s['k'] == 'curve':
            cp = rng.choice(s['cps'])
            v = rng.choice(cp[:3])
            if not isinstance(v[0], str):
                v[rng.randrange(2)] = rng.choice(ODD)
    steps = []
    for _ in range(rng.randint(5, 35)):
        steps.append(dict(c=rng.choice(['user', 'saver']), op=rng.choice(OPS), e=rng.choice(c06.EDITS), i=rng.randrange(1000), j=rng.randrange(1000), t=0, x=ref.gnum(rng),
                          y=rng.choice([ref.gnum(rng)] * 3 + [rng.choice(SMALL)]), xf=ref.gen_xf(rng), how=rng.randrange(6), leaf=ref.gen_leaf(rng, 'n%d' % rng.randrange(6), 3),
                          cp=ref.gen_cps(rng, 1, 3)[0], exc=gen_exc(rng), name=rng.choice(NAMES)))
    return dict(config=dict(pts=[[ref.gnum(rng), ref.gnum(rng)] for _ in range(3)], models=[model]), steps=steps)


def freeze(spec, pts):
    """Values only; curves that had derived points are marked live"""
    s = copy.deepcopy(spec)
    for _, leaf in ref.walk(s):
        if leaf['k'] == 'curve':
            if any(isinstance(v[0], str) for cp in leaf['cps'] for v in cp[:3]):
                leaf['live'] = True
            leaf['cps'] = [[list(c), list(dl), list(dr), k] for (c, dl, dr), k in zip(ref.cps_xy(leaf, pts), [x[3] for x in leaf['cps']])]
    return s


def reload_text(text):
    ns = {'__name__': 'reloaded'}
    exec(compile(text, 'saved', 'exec'), ns)
    return ns['model']


def write(model, how):
    """The text written for a model, complete program"""
    if how % 3 == 1:
        c = model.dump(DumpContext(use_vars=False))
        texts = ['\n'.join(c.imports + ['model = ' + c.output(just_lines=True)]) for _ in range(2)]
    else:
        if how % 3 == 0:
            c = model.dump(DumpContext())
        elif isinstance(model, Group):
            c = GroupBuilder('front', PensByShape(), group=model).dump()
        elif isinstance(model, ElemWithHoles):
            c = model.dump()
        else:
            c = model.dump(DumpContext())
        if how % 2:
            c.output(just_lines=True)
        texts = [c.output() for _ in range(2)]
    expect(texts[0] == texts[1], 'write-not-repeatable', 'asking for the written text again gives another one')
    return texts[0]


def alike(a, b, what):
    d = build.same(build.observe(a), build.observe(b), 0.0)
    expect(not d, 'not-equal', '%s differs at %s', what, d)
    expect(a == b and b == a, 'not-equal', '%s is not equal', what)


def run(sc, stats):
    cfg = sc['config']
    if not cfg['models']:
        return
    pts = [list(p) for p in cfg['pts']]
    shared = build.shared_points(pts)
    spec = cfg['models'][0]
    if spec['k'] != 'group' and not spec.get('elems', True):
        return
    o = c06.Obj(c06.make(spec, shared), spec, 'the model')
    saved = None            # text, reference, version
    version, edited = 0, False
    dc = DrawingContext(Image.new('RGBA', (8, 8), 'white'), Transform())
    dc.points_per_curve = 4

    def check(what):
        d = build.same(build.observe(o.real), build.observe(c06.make(o.spec, build.shared_points(pts))), 0.0 if o.spec.get('exact') else 1e-12)
        expect(not d, 'wrong-state', 'after %s the model differs from what was put into it at %s', what, d)
        stats.check()

    def save(model, how, what):
        before = build.observe(model)
        text = write(model, how)
        d = build.same(build.observe(model), before, 0.0)
        expect(not d, 'writing-changed', '%s: writing changed %s', what, d)
        expect(write(model, how) == text, 'not-repeatable', '%s: writing again gives another text', what)
        return text

    for st in sc['steps']:
        op, i, j = st['op'], st['i'], st['j']
        stats.step(st['c'], op if op != 'edit' else st['e'])
        what = op
        if op == 'edit':
            if c06.edit(st, o, pts, shared):
                version += 1
                edited = True
        elif op == 'shared':
            shared[i % 3].setxy(st['x'], st['y'])
            pts[i % 3] = [st['x'], st['y']]
            version += 1
        elif op == 'rename':
            cand = [(p, s) for p, s in ref.walk(o.spec) if not p or p[-1] in ('out',) or str(p[-1]).startswith('in')]
            p, s = cand[i % len(cand)]
            build.child(o.real, p).name = s['name'] = st['name']
            version += 1
        elif op == 'penholes':
            cand = [(p, s) for p, s in ref.walk(o.spec) if s['k'] == 'holes']
            if cand:
                p, s = cand[i % len(cand)]
                s['pen'] = j % ref.PENS
                e = build.child(o.real, p)
                for x in [e] + [e.outside] + e.inside:
                    pb = build.pen(s['pen'])
                    x.penbrush = pb if x.closed else PenBrush(pb.pen, None)
                for x in [s['outside']] + s['inside']:
                    x['pen'] = s['pen'] if x.get('closed', True) else 0
                version += 1
        elif op == 'addrel':
            # a named derived point of a group; not in the reference, so take it out again
            groups = [p for p, s in ref.walk(o.spec) if s['k'] == 'group']
            if groups:
                g = build.child(o.real, groups[i % len(groups)])
                base = Point(st['x'], st['y'], 'base')
                rel = PointRelative(3, 4.5, base)
                g.add_pt('rel', rel)
                if j % 2:
                    g.add_pt('calc', PointCalc(rel, 0.5))
                text = save(o.real, st['how'], op)
                alike(reload_text(text), o.real, 'the model reloaded with a derived point')
                for n in ('rel', 'calc'):
                    g.points.pop(n, None)
        elif op == 'save':
            saved = (save(o.real, st['how'], what), freeze(o.spec, pts), version)
            if edited:
                stats.nontrivial()
        elif op == 'reload':
            text = save(o.real, st['how'], what)
            again = reload_text(text)
            alike(again, o.real, 'the reloaded model')
            expect(write(again, st['how']) == text, 'not-repeatable', 'the reloaded model is written differently')
            a, b = build.paths_of(o.real, dc), build.paths_of(again, dc)
            d = build.same(a, b, 1e-12)
            expect(not d, 'drawn-differently', 'the reloaded model is drawn differently%s', d)
            if edited:
                stats.nontrivial()
        elif op == 'crash':
            if saved is None:
                continue
            stats.fault('crash')
            text, frozen, v = saved
            again = reload_text(text)
            if v == version:
                alike(again, o.real, 'the model recovered after a crash')
            else:
                stats.probe('crash-with-unsaved-edits')
            pts = [list(p) for p in pts]
            shared = build.shared_points(pts)
            o = c06.Obj(again, copy.deepcopy(frozen), 'the model')
            version += 1
            saved = (text, frozen, version)
            what = 'recovery from the saved text'
        elif op == 'member':
            cand = list(ref.walk(o.spec))
            p, s = cand[i % len(cand)]
            e = build.child(o.real, p)
            text = save(e, st['how'], 'writing %r' % (p,))
            alike(reload_text(text), e, 'the reloaded shape %r' % (p,))
        elif op == 'failsave':
            holes = [p for p, s in ref.walk(o.spec) if s['k'] in ('holes', 'group')]
            if not holes:
                continue
            e = build.child(o.real, holes[i % len(holes)])
            plug = faults.PlugElem('plug')
            counter = Counter(1, make_fault(st['exc']))
            stats.plan('write-' + st['exc'])

            def dump(context):
                counter.hit()
            plug.dump = dump
            if isinstance(e, Group):
                e.add('plug', plug)
            else:
                e.inside.append(plug)
            try:
                write(o.real, st['how'])
                raise Violation('error-swallowed', 'writing a model swallowed the failure of one of its shapes')
            except ERRORS as err:
                expect(err is counter.fault, 'wrong-error', '%s: other error', what)
                stats.fault('write-' + st['exc'])
            finally:
                if isinstance(e, Group):
                    del e.elems['plug']
                else:
                    e.inside.remove(plug)
            alike(reload_text(save(o.real, st['how'], what)), o.real, 'the model reloaded after a failed write')
        elif op == 'record':
            record(st, o, stats)
        elif not any(isinstance(v, float) and abs(v) > 1e6 for _, s in ref.walk(o.spec) for cp in s.get('cps', []) for p in cp[:3] for v in p):
            def bad(fmt, *args):
                raise Violation('drawn-differently', 'drawing the model: ' + fmt % args)
            build.check_paths(o.spec, o.real, dc, ref.IDENT, pts, 4, bad)
        check(what)
        stats.state([op, sorted(s['k'] for p, s in ref.walk(o.spec)), saved is not None])


def value(how, st, o):
    x, y = st['x'], st['y']
    p = Point(x, y)
    q = Point(y, 2, 'n\'m')
    rel = PointRelative(x, 1, p, 'r')
    elems = [build.child(o.real, path) for path, s in ref.walk(o.spec)]
    e = elems[st['j'] % len(elems)]
    return [
        lambda: e, lambda: elems, lambda: [e], lambda: (e, 1), lambda: [e, 'x', None], lambda: {'b': e, 'a': [e, e]},
        lambda: list(o.real.iter_elems('root', Transform())), lambda: [('nm', e, Transform((1, 2, x, 4, 5, y))), ('z', elems[0], Transform())] + [
            ('z%d' % k, elems[0], Transform((1 / 3, 0.1 + 0.2 * k, x / 7, -2 / 3, 1e-11 * k, y / 3))) for k in range(st['j'] // 7 % 14)],
        lambda: [p, q, rel, PointCalc(rel, 2.5)], lambda: ControlPoint(rel, VectorRelative(p, q), Vector(x, y), 'sharp'),
        lambda: {'k': Transform((1, 2, 3, 4, 5, y)), 'j': [Pen('red', 2), Brush((1, 2, 3, 4)), PenBrush('a', 'b'), PenBrush(None, None)]},
        lambda: BBox(p, q), lambda: [BBox(None), {}, [], (), '', "'", None, True, 1.5], lambda: {(1, 2): [p], 'x': 1} if False else {'x': (p, (q, [rel]))},
        lambda: [Point(np.float64(x), np.float64(y)), Vector(np.float64(x), 1)], lambda: [[e], [[p]]],
    ][how % 16]()


def equal(a, b):
    if isinstance(a, build.Elem):
        return type(a) is type(b) and not build.same(build.observe(a), build.observe(b), 0.0) and a == b
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return type(a) is type(b) and sorted(map(repr, a)) == sorted(map(repr, b)) and all(equal(v, b[k]) for k, v in a.items())
    return type(a) is type(b) and a == b and repr(a) == repr(b)


def record(st, o, stats):
    data = {}
    for k in range(1 + st['i'] % 3):
        data['Case.test:%d' % k] = value(st['i'] // 3 + k * 5, st, o)
    before = build.observe(o.real)
    texts = []
    for _ in range(2):
        out = io.StringIO()
        Pickler(PicklerExtensionGeom).dump_dict(data, out)
        texts.append(out.getvalue())
    expect(texts[0] == texts[1], 'not-repeatable', 'a recording is written differently the second time')
    d = build.same(build.observe(o.real), before, 0.0)
    expect(not d, 'writing-changed', 'recording changed %s', d)
    got = Pickler(PicklerExtensionGeom).load(io.StringIO(texts[0]))
    expect(sorted(got) == sorted(data), 'not-equal', 'a recording has keys %s, expected %s', sorted(got), sorted(data))
    for k, v in data.items():
        expect(equal(v, got[k]), 'not-equal', 'a recorded value changed: %.200r became %.200r', v, got[k])
    stats.probe('recorded')
