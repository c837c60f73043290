"""C03: a failed or abandoned drawing leaves the drawing context as it was"""
import contextlib

from PIL import Image

from .. import ref, build, faults
from ..core import Violation, expect
from ..build import Transform, EmptyStackError, DrawingContext, PenBrush, Group, GroupBuilder, PensByShape
from ..faults import Counter, make_fault, ERRORS, gen_exc

RUNS = {'quick': 4000, 'thorough': 200000}
RULE = ('A run builds a random model (nested transformed groups, holes, plug-in shapes), a context with 0-2 levels already saved '
        'on its matrix, and performs 3-20 draws, shadow draws, path/control path extractions, shape transformations and '
        'traversals of random parts, most with a fault (k-th canvas call, k-th path allocation, plug-in shape, point or pen, unknown colour, singular '
        'transform, shadow image operations; as exception, allocation failure or interrupt) or abandoned after n elements. The '
        'whole context is compared with its state before the call, after every call. Non-trivial: at least one fault fired.')
REAL = ['x7.geom.model', 'x7.geom.drawing', 'x7.geom.transform', 'x7.geom.bezier', 'x7.geom.colors', 'PIL canvas']
STUB = ['PIL primitives, path allocation and image operations raise on demand', 'a plug-in shape that raises on demand']
STATE_MEASURE = '(operation, fault kind, fired, caller levels, depth of the part drawn)'

OPS = ['draw', 'draw', 'draw', 'shadow', 'shadow', 'paths', 'control_paths', 'transform', 'iter', 'iter', 'iterx', 'iterx', 'bdraw', 'offset']
FAULTS = ['canvas', 'canvas', 'path', 'plug', 'plug', 'color', 'singular', 'shadowlib', 'point', 'pen']


def gen(rng):
    model = ref.unusual(rng, ref.gen_group(rng, 'm', depth=rng.choice([1, 2, 2, 3]), size=4))
    steps = []
    for _ in range(rng.randint(3, 20)):
        op = rng.choice(OPS)
        st = dict(c='d%d' % rng.randrange(2), op=op, i=rng.randrange(1000), n=rng.choice([0, 1, 1, 2, 3, 5, 8]),
                  how=rng.choice(['end', 'close', 'throw', 'drop', 'interrupt']), own=rng.random() < 0.3)
        if rng.random() < 0.75:
            st['fault'] = rng.choice(FAULTS)
            st['k'] = rng.choice([1, 1, 2, 3, 4, 6, 9, 15])
            st['exc'] = gen_exc(rng)
            st['j'] = rng.randrange(1000)
        steps.append(st)
    return dict(config=dict(models=[model], levels=rng.randint(0, 2), prod=rng.random() < 0.7, show_cps=rng.random() < 0.25,
                            debug=rng.random() < 0.5, plugs=rng.randint(0, 2), color=rng.choice([0, 0, 0, 0, 1, 2]),
                            base=ref.gen_xf(rng, False)), steps=steps)


class Ctx(object):
    """A drawing context with levels saved by its owner"""

    def __init__(self, cfg, num):
        base = tuple(cfg['base'])
        self.ref_stack = []
        self.m = base
        t = Transform(base)
        self.dc = DrawingContext(Image.new('RGBA', (48, 48), 'white'), t, prod=cfg['prod'])
        self.dc.points_per_curve = 6
        self.dc.show_cps = cfg['show_cps']
        self.dc.debug = cfg['debug']
        if cfg['color']:
            self.dc.shadow_color = (1, 2, 3, 255) if cfg['color'] == 1 else (140, 140, 170, 255)
        for lv in range(cfg['levels']):
            t.push()
            self.ref_stack.append(self.m)
            t.translate(3 + lv, 5).rotate(30)
            self.m = ref.mul(ref.rotate(30), ref.mul(ref.translate(3 + lv, 5), self.m))
        self.t = t
        self.exact = t.as_6tuple()

    def state(self):
        dc = self.dc
        return dict(matrix=dc.matrix, m=tuple(dc.matrix.as_6tuple()), draw=dc.draw, shadow_color=dc.shadow_color,
                    modes=(dc.prod, dc.debug, dc.show_cps, dc.showall, dc.points_per_curve, dc.color))

    def check(self, before, what):
        now = self.state()
        expect(now['matrix'] is before['matrix'], 'matrix-object', '%s replaced the matrix object of the context', what)
        expect(now['m'] == before['m'], 'matrix-changed', '%s left the matrix at %s, it was %s', what,
               tuple(round(float(v), 4) for v in now['m']), tuple(round(float(v), 4) for v in before['m']))
        expect(now['draw'] is before['draw'], 'draw-target', '%s left another draw target in the context', what)
        expect(now['shadow_color'] == before['shadow_color'], 'shadow-color', '%s left shadow colour %r, it was %r',
               what, now['shadow_color'], before['shadow_color'])
        expect(now['modes'] == before['modes'], 'drawing-mode', '%s left the drawing modes (prod, debug, show_cps, showall, points_per_curve, color) %r, they were %r',
               what, now['modes'], before['modes'])
        self.check_levels(self.dc.matrix, self.m, self.ref_stack, what)

    @staticmethod
    def check_levels(t, m, levels, what):
        """Only the public interface: pop everything the caller saved, see that nothing else is there, and save it again"""
        mats = [t.as_6tuple()]
        for k, want in enumerate(reversed(levels)):
            try:
                t.pop()
            except EmptyStackError:
                raise Violation('levels-lost', '%s lost saved levels: %d of %d left' % (what, k, len(levels)))
            got = t.as_6tuple()
            if any(abs(float(g) - w) > 1e-9 * (1 + ref.norm(want)) for g, w in zip(got, want)):
                raise Violation('levels-changed', '%s: level %d popped by the caller is %s, expected %s' % (
                    what, len(levels) - k, tuple(round(float(v), 4) for v in got), tuple(round(v, 4) for v in want)))
            mats.append(got)
        try:
            t.pop()
            raise Violation('levels-left', '%s left extra saved levels behind' % what)
        except EmptyStackError:
            pass
        mats.reverse()
        t.set_matrix(Transform(mats[0]))
        for mm in mats[1:]:
            t.push()
            t.set_matrix(Transform(mm))


def run(sc, stats):
    cfg = sc['config']
    if not cfg['models']:
        return
    spec = cfg['models'][0]
    model = build.elem(spec)
    parts = [(p, s) for p, s in ref.walk(spec) if not (p and isinstance(p[-1], str))]
    groups = [build.child(model, p) for p, s in parts if s['k'] == 'group']
    real = [build.child(model, p) for p, s in parts]
    plugs = []
    for k in range(cfg['plugs']):
        g = groups[(k * 7) % len(groups)]
        plug = faults.PlugElem('plug%d' % k)
        g.add('plug%d' % k, plug)
        plugs.append(plug)
    before_model = None
    ctxs = [Ctx(cfg, 0), Ctx(dict(cfg, levels=1), 1)]
    builder = GroupBuilder('b', PensByShape(), group=model)

    for st in sc['steps']:
        cx = ctxs[int(st['c'][1]) % 2]
        dc = cx.dc
        op, fk = st['op'], st.get('fault')
        part = st['i'] % len(parts)
        path, sp = parts[part]
        e = real[part]
        what = '%s of %s' % (op, '.'.join(map(str, ('m',) + path)))
        stats.step(st['c'], op)
        fault = make_fault(st.get('exc'))
        counter = Counter(st.get('k', 1), fault)
        before = cx.state()
        fired = None
        with contextlib.ExitStack() as stack:
            undo = None
            if fk:
                stats.plan(fk)
                what += ' with %s fault at %d' % (fk, counter.k)
                if fk == 'canvas':
                    stack.enter_context(faults.failing_canvas(counter))
                elif fk == 'path':
                    stack.enter_context(faults.failing_paths(counter))
                elif fk == 'shadowlib':
                    stack.enter_context(faults.failing_shadow(counter))
                elif fk == 'plug' and plugs:
                    plugs[st['j'] % len(plugs)].armed = counter
                    stack.callback(setattr, plugs[st['j'] % len(plugs)], 'armed', None)
                elif fk == 'point':
                    spots = [(x, n) for x in real for n in ('p1', 'p2') if hasattr(x, n)]
                    spots += [(cp, 'c') for x in real if hasattr(x, 'control_points') for cp in x.control_points]
                    if spots:
                        owner, attr = spots[st['j'] % len(spots)]
                        old = getattr(owner, attr)
                        setattr(owner, attr, faults.PlugPoint(old, counter))
                        stack.callback(setattr, owner, attr, old)
                elif fk == 'pen':
                    victim = real[st['j'] % len(real)]
                    old = victim.penbrush
                    if old.pen and not isinstance(victim, Group):
                        victim.penbrush = faults.PlugPen(old.pen, old.brush)
                        victim.penbrush.counter = counter
                        stack.callback(setattr, victim, 'penbrush', old)
                elif fk in ('color', 'singular'):
                    victim = real[st['j'] % len(real)]
                    attr = 'penbrush' if fk == 'color' else 'xform'
                    if not (fk == 'color' and isinstance(victim, Group)):
                        bad = PenBrush('no such colour', 'nor this' if victim.penbrush.filled else None) if fk == 'color' \
                            else Transform((1, 1, 5, 1, 1, 7))
                        old = getattr(victim, attr)
                        setattr(victim, attr, bad)
                        stack.callback(setattr, victim, attr, old)
            try:
                perform(op, st, cx, e, builder, fault, stats)
            except ERRORS as err:
                fired = err
                expect(err is fault, 'wrong-error', '%s: caller got %r instead of the original error', what, err)
            except Violation:
                raise
            except Exception as err:    # noqa
                if fk not in ('color', 'singular'):
                    raise
                fired = err
                counter.fired = True
        if counter.fired and fired is None:
            raise Violation('error-swallowed', '%s: the error did not reach the caller' % what)
        if fired is not None:
            stats.fault(fk if counter.fired else 'abandoned-' + st['how'])
        cx.check(before, what)
        other = ctxs[1 - int(st['c'][1]) % 2]
        other.check(other.state(), what + ' on another context')
        stats.check()
        stats.state([op, fk, counter.fired, len(cx.ref_stack), len(path), st['how'] if op.startswith('iter') else ''])
        # drawing again puts every shape where it belongs
        build.check_paths(spec, model, dc, cx.m, [], 10 if dc.show_cps else 6, misplaced)


def misplaced(fmt, *args):
    raise Violation('misplaced', 'drawing again after the fault: ' + fmt % args)


def perform(op, st, cx, e, builder, fault, stats):
    dc = cx.dc
    if op == 'draw':
        e.draw(dc)
    elif op == 'bdraw':
        builder.draw(dc)
    elif op == 'shadow':
        dc.shadow_draw(e)
    elif op == 'paths':
        e.paths(dc)
    elif op == 'control_paths':
        e.control_paths(dc)
    elif op == 'transform':
        e.transform(dc.matrix)
    elif op == 'offset':
        if hasattr(e, 'control_points_transformed'):
            e.control_points_transformed(dc.matrix)
        elif hasattr(e, 'bbox'):
            e.bbox()
    elif op in ('iter', 'iterx'):
        if not hasattr(e, 'iter_elems_transformed'):
            it = e.iter_elems('r', dc.matrix)
        elif op == 'iter':
            it = e.iter_elems('r' if st['own'] else None, dc.matrix)
        else:
            it = e.iter_elems_transformed('r' if st['own'] else None, dc.matrix)
        n = 0
        try:
            for _ in it:
                n += 1
                if n > st['n'] and st['how'] != 'end':
                    break
            else:
                return
            if st['how'] == 'close':
                stats.fault('abandoned-close')
                it.close()
            elif st['how'] in ('throw', 'interrupt'):
                it.throw(fault)
        finally:
            if st['how'] == 'drop':
                stats.fault('abandoned-drop')
            del it
    else:
        raise ValueError(op)
