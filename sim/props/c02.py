"""C02: a transform maps, and un-maps, by its current matrix after any history"""
import contextlib
import math

import numpy as np

from .. import ref
from ..core import Violation, expect, patched, pick
from ..faults import ERRORS, gen_exc, make_fault
from ..build import Transform, EmptyStackError, BBox, Point
from x7.geom.transform import Matrix

RUNS = {'quick': 60000, 'thorough': 400000}
RULE = ('A run is a random interleaving of up to 60 operations by 2-4 clients, each owning a Transform: mutators, matrix exchange between '
        'transforms, push/pop, scoped use left normally / by exception / by close, forward and inverse queries, injected failures of the '
        'matrix inversion.  Every transform is compared with its reference after every step.  Non-trivial: the run '
        'asked for an inverse, changed the same transform, and asked again, or left a scope by an exception, or hit a fault.')
REAL = ['x7.geom.transform.Transform', 'x7.geom.transform.Matrix', 'x7.geom.geom.BBox/Point']
STUB = ['numpy.linalg.inv raises on demand (allocation failure)']
STATE_MEASURE = 'per transform: (saved levels, inverse asked since last change, singular), over all transforms of the run'
ASSUMPTIONS = ['matrices are kept within norm 1e4 and condition 1e6 so that the float tolerance is sound',
               'the matrix returned by .inverse is not written to by its readers (documented)']

P = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [13.0, -7.5]]
MUTATORS = ['translate', 'scale', 'rotate', 'rotate_ccw', 'rotate_about', 'scale_bbox', 'compose', 'compose_outer',
            'set_matrix', 'reset', 'compose_matrix']
QUERIES = ['untransform', 'inverse', 'untransform_pt', 'untransform_pts', 'transform', 'transform_pt', 'transform_pts',
           'flatten', 'scale_vals', 'width', 'simplify', 'repr', 'eq']
OPS = (MUTATORS * 2 + ['copy', 'canvas_fit', 'singular', 'new', 'identity'] + ['push'] * 4 + ['pop'] * 4 + ['open'] * 4
       + ['exit'] * 4 + ['bare_enter'] + QUERIES + ['untransform', 'inverse', 'untransform_pts'] * 3)


def gen(rng):
    n = rng.randint(2, 4)
    steps = []
    focus = rng.random() < 0.3
    for _ in range(rng.randint(4, 60)):
        op = rng.choice(OPS) if rng.random() < 0.995 else 'nest'
        st = dict(c=0 if focus and rng.random() < 0.7 else rng.randrange(n), op=op)
        f = rng.choice([lambda: float(rng.randint(-20, 20)), lambda: rng.uniform(-50, 50)])
        if op in ('translate', 'bare_enter'):
            st['a'] = [f(), f()]
        elif op == 'scale':
            st['a'] = [rng.choice([0.5, 2.0, -1.0, 1.5, 0.8]), rng.choice([0.5, 2.0, -1.0, 1.5, 1.0])]
        elif op in ('rotate', 'rotate_ccw'):
            st['a'] = [rng.choice([0, 30, 45, 90, 180, -90, rng.uniform(-360, 360)])]
        elif op == 'rotate_about':
            st['a'] = [rng.choice([30, 90, 180, rng.uniform(-360, 360)]), f(), f()]
        elif op == 'scale_bbox':
            w, h = rng.uniform(5, 50), rng.uniform(5, 50)
            st['a'] = [f(), f(), w, h, f(), f(), w * rng.uniform(0.5, 2), h * rng.uniform(0.5, 2), rng.random() < 0.5]
        elif op == 'canvas_fit':
            st['a'] = [rng.randint(10, 200), rng.randint(10, 200), rng.choice([1.0, 2.0, 0.5]), f(), f()]
        elif op in ('new', 'compose_matrix'):
            st['a'] = ref.gen_xf(rng, False)
        elif op == 'singular':
            st['a'] = [rng.choice([0, 1])]
        elif op == 'nest':
            st['a'] = [rng.choice([3, 12, 20, 40, 70, 150])]
            st['how'] = rng.choice(['push', 'with', 'with'])
        elif op == 'open':
            st['a'] = [f(), f(), rng.choice([0, 30, 90])]
        elif op == 'exit':
            st['how'] = rng.choice(['normal', 'throw', 'close'])
            st['exc'] = gen_exc(rng)
            st['which'] = rng.randrange(4)
        elif op in QUERIES:
            st['a'] = [f(), f()]
            if rng.random() < 0.12:
                st['fault'] = 'inv-fails'
            if rng.random() < 0.02:
                st['many'] = rng.choice([0, 1, 100, 255, 256, 257, 300, 1000, 1024, 2000, 5000])
        st['o'] = rng.randrange(n)      # the other transform
        steps.append(st)
    return dict(config=dict(n=n), steps=steps)


class Ref(object):
    def __init__(self):
        self.m = ref.IDENT
        self.stack = []
        self.asked = False


def usable(m):
    return ref.norm(m) <= 1e4 and ref.cond(m) <= 1e6


def exactly_singular(m):
    return (m[0] == 0 and m[1] == 0) or (m[3] == 0 and m[4] == 0)


def near(p, q, tol, what, fmt, *args):
    if not (abs(float(p[0]) - q[0]) <= tol and abs(float(p[1]) - q[1]) <= tol):
        raise Violation(what, '%s: got (%r, %r), expected (%r, %r)' % (fmt % args, float(p[0]), float(p[1]), q[0], q[1]))


def run(sc, stats):
    n = max(2, sc['config']['n'])
    real = [Transform() for _ in range(n)]
    model = [Ref() for _ in range(n)]
    scopes = []         # (transform index, generator)

    def forward(i, p):
        return ref.apply(model[i].m, p)

    def check_all(when):
        for i, (t, r) in enumerate(zip(real, model)):
            got = t.as_6tuple()
            tol = 1e-9 * (1 + ref.norm(r.m))
            for g, w in zip(got, r.m):
                if not abs(float(g) - w) <= tol:
                    raise Violation('wrong-matrix', 'transform %d after %s is %s, expected %s' % (
                        i, when, tuple(round(float(v), 6) for v in got), tuple(round(v, 6) for v in r.m)))
        stats.check()

    def scope(t, dx, dy, deg):
        with t.push().translate(dx, dy).rotate(deg):
            yield

    for st in sc['steps']:
        i, op, a = st['c'] % n, st['op'], st.get('a')
        j = st['o'] % n
        t, r, t2, r2 = real[i], model[i], real[j], model[j]
        stats.step(i, op)
        res = None
        new = None
        if op == 'translate':
            new = ref.mul(ref.translate(*a), r.m)
            call = lambda: t.translate(*a)      # noqa
        elif op == 'scale':
            new = ref.mul(ref.scale(*a), r.m)
            call = lambda: t.scale(*a)      # noqa
        elif op == 'rotate':
            new = ref.mul(ref.rotate(a[0]), r.m)
            call = lambda: t.rotate(a[0])      # noqa
        elif op == 'rotate_ccw':
            new = ref.mul(ref.rotate_ccw(a[0]), r.m)
            call = lambda: t.rotate_ccw(a[0])      # noqa
        elif op == 'rotate_about':
            new = ref.mul(ref.rotate_about(a[0], a[1:]), r.m)
            call = lambda: t.rotate_about(a[0], Point(*a[1:]))      # noqa
        elif op == 'scale_bbox':
            x, y, w, h, X, Y, W, H, keep = a
            sx, sy = W/w, H/h
            if keep:
                s = min(sx, sy)
                fit = ref.mul(ref.translate(X + (W - w*s)/2, Y + (H - h*s)/2), ref.mul(ref.scale(s, s), ref.translate(-x, -y)))
            else:
                fit = ref.mul(ref.translate(X, Y), ref.mul(ref.scale(sx, sy), ref.translate(-x, -y)))
            new = ref.mul(fit, r.m)
            call = lambda: t.scale_bbox(BBox(x, y, x+w, y+h), BBox(X, Y, X+W, Y+H), keep_aspect=keep)      # noqa
        elif op == 'compose':
            new = ref.mul(r.m, r2.m)
            call = lambda: t.compose(t2)      # noqa
        elif op == 'compose_outer':
            new = ref.mul(r2.m, r.m)
            call = lambda: t.compose_outer(t2)      # noqa
        elif op == 'compose_matrix':
            new = ref.mul(r.m, tuple(a))
            call = lambda: t.compose(Matrix([a[0:3], a[3:6], [0, 0, 1]]))      # noqa
        elif op == 'set_matrix':
            new = r2.m
            call = lambda: t.set_matrix(t2) or t      # noqa
        elif op == 'reset':
            new = ref.IDENT
            call = lambda: t.reset()      # noqa
        if new is not None:
            if not (usable(new) or (exactly_singular(new) and ref.norm(new) <= 1e4)):
                continue
            res = call()
            expect(res is t, 'not-chained', '%s did not return the transform itself', op)
            if r.asked:
                stats.probe('changed-after-inverse')
            r.m, r.asked = new, False
        elif op == 'singular':
            s = (0.0, 1.0) if a[0] else (1.0, 0.0)
            t.scale(*s)
            r.m, r.asked = ref.mul(ref.scale(*s), r.m), False
        elif op in ('copy', 'canvas_fit', 'new', 'identity'):
            if any(k == i for k, _ in scopes):
                continue            # the scope still belongs to the old object
            if op == 'copy':
                real[i], m = t2.copy(), r2.m
                expect(real[i] is not t2, 'copy-is-self', 'copy() returned the same object')
            elif op == 'canvas_fit':
                w, h, zoom, x, y = a
                real[i] = Transform.canvas_fit((w, h), zoom, (x, y))
                m = (zoom, 0.0, x, 0.0, -zoom, h - y)
            elif op == 'identity':
                real[i], m = Transform.identity(), ref.IDENT
            else:
                real[i], m = Transform(tuple(a)), tuple(a)
            if not (usable(m) or exactly_singular(m)):
                real[i], m = Transform(), ref.IDENT
            model[i] = r = Ref()
            r.m = m
        elif op == 'push':
            if len(r.stack) < 8:
                expect(t.push() is t, 'not-chained', 'push did not return the transform itself')
                r.stack.append(r.m)
        elif op == 'nest':
            # many levels down and up again; all come back exactly
            seen = []
            inside = []
            for k in range(int(a[0])):
                t.push().translate(k, 1).rotate(90)
                if st.get('how') == 'with':
                    inside.append(contextlib.ExitStack())
                    inside[-1].enter_context(t)
                seen.append(t.as_6tuple())
            for k in range(int(a[0])):
                expect(tuple(t.as_6tuple()) == tuple(seen.pop()), 'pop', 'level %d of %d saved levels is not what it was', int(a[0]) - k, a[0])
                if ref.norm(r.m) <= 100 and ref.cond(r.m) <= 1000:
                    near(t.untransform(*t.transform(3, 4)), (3, 4), 1e-5, 'wrong-inverse', 'there and back on level %d', int(a[0]) - k)
                if inside:
                    inside.pop().close()
                else:
                    t.pop()
            r.asked = False
            stats.probe('nested %d' % a[0])
        elif op == 'pop':
            try:
                t.pop()
                popped = True
            except EmptyStackError:
                popped = False
            expect(popped == bool(r.stack), 'pop', 'pop of transform %d with %d saved levels %s', i, len(r.stack),
                   'succeeded' if popped else 'was refused')
            if popped:
                if r.asked:
                    stats.probe('pop-after-inverse')
                r.m, r.asked = r.stack.pop(), False
            else:
                stats.probe('empty-pop')
        elif op == 'bare_enter':
            if not r.stack:
                try:
                    with t:
                        raise Violation('bare-enter', 'scope without push was accepted')
                except EmptyStackError:
                    stats.probe('bare-enter')
        elif op == 'open':
            if len(scopes) < 6 and usable(ref.mul(ref.rotate(a[2]), ref.mul(ref.translate(a[0], a[1]), r.m))):
                g = scope(t, *a)
                next(g)
                scopes.append((i, g))
                r.stack.append(r.m)
                r.m, r.asked = ref.mul(ref.rotate(a[2]), ref.mul(ref.translate(a[0], a[1]), r.m)), False
        elif op == 'exit':
            if scopes:
                k, g = scopes.pop(st['which'] % len(scopes))
                rk = model[k]
                how = st['how']
                fault = make_fault(st.get('exc'))
                out = None
                try:
                    if how == 'normal':
                        next(g)
                    elif how == 'close':
                        g.close()
                    else:
                        g.throw(fault)
                        out = 'swallowed'
                except StopIteration:
                    out = 'done'
                except ERRORS as err:
                    out = 'fault' if err is fault else 'other'
                except EmptyStackError:
                    out = 'empty'
                if how != 'normal':
                    stats.fault('scope-' + how)
                want = 'empty' if not rk.stack else {'normal': 'done', 'close': None, 'throw': 'fault'}[how]
                expect(out == want, 'scope-exit', 'scope of transform %d left by %s ended with %s, expected %s', k, how, out, want)
                if rk.stack:
                    rk.m, rk.asked = rk.stack.pop(), False
        else:
            query(t, r, t2, r2, i, j, op, a, st.get('fault'), stats, model, st.get('many', 0))
        check_all(op)
        stats.state([(len(q.stack), q.asked, exactly_singular(q.m)) for q in model])
    # Unwinding: every saved level comes back exactly
    for k, g in reversed(scopes):
        r = model[k]
        try:
            next(g)
        except StopIteration:
            pass
        except EmptyStackError:
            expect(not r.stack, 'scope-exit', 'pop refused with %d saved levels', len(r.stack))
        if r.stack:
            r.m = r.stack.pop()
    check_all('unwinding scopes')
    for i, (t, r) in enumerate(zip(real, model)):
        while r.stack:
            t.pop()
            r.m = r.stack.pop()
        try:
            t.pop()
            raise Violation('pop', 'transform %d had more levels than were saved' % i)
        except EmptyStackError:
            pass
    check_all('popping everything')


def query(t, r, t2, r2, i, j, op, a, fault, stats, model, many=0):
    p = (a[0], a[1])
    tol = 1e-9 * (1 + ref.norm(r.m)) * (1 + max(abs(p[0]), abs(p[1])))
    pts = [tuple(q) for q in P] + [p]
    if many:
        pts += [(k % 37 - 18.0, k % 29 - 14.5) for k in range(many)]
        stats.probe('long list of points')
    if op in ('untransform', 'inverse', 'untransform_pt', 'untransform_pts'):
        singular = exactly_singular(r.m)
        if not singular and not usable(r.m):
            return

        def ask():
            if op == 'untransform':
                return [(p, t.untransform(*p))]
            if op == 'untransform_pt':
                q = t.untransform_pt(Point(*p))
                return [(p, (q.x, q.y))]
            if op == 'untransform_pts':
                return paired(pts, t.untransform_pts(list(pts)))
            m = np.array(t.inverse, dtype=float)
            return [(q, (m[0][0]*q[0] + m[0][1]*q[1] + m[0][2], m[1][0]*q[0] + m[1][1]*q[1] + m[1][2])) for q in pts]

        if fault:
            stats.plan('inv-fails')
            fired = []

            def failing(*args, **kw):
                fired.append(1)
                raise MemoryError('simulated allocation failure')

            try:
                with patched(np.linalg, 'inv', failing):
                    got = ask()
                if fired and not singular:
                    raise Violation('error-swallowed', 'inversion failed but %s returned a result' % op)
            except MemoryError:
                expect(bool(fired), 'unexpected-MemoryError', 'MemoryError without injected fault')
                got = None
            except Exception:
                if not fired and not singular:
                    raise
                got = None
            if fired:
                stats.fault('inv-fails')
            if got is not None and not singular:
                verify(got, r, op, i)
            # Asking again without the fault must work
        if singular:
            try:
                got = ask()
            except Exception:       # noqa any refusal will do
                stats.probe('singular-refused')
                return
            raise Violation('singular-inverted', 'transform %d is singular, but %s returned %r' % (i, op, got))
        got = ask()
        if r.asked:
            stats.probe('inverse-again')
        r.asked = True
        stats.probe('inverse')
        verify(got, r, op, i)
        stats.nontrivial()
    elif op == 'transform':
        near(t.transform(*p), ref.apply(r.m, p), tol, 'forward', 'transform %d of %r', i, p)
    elif op == 'transform_pt':
        q = t.transform_pt(Point(*p))
        near((q.x, q.y), ref.apply(r.m, p), tol, 'forward', 'transform_pt %d of %r', i, p)
        near(t.transform_pt(Point(*p), as_pt=False), ref.apply(r.m, p), tol, 'forward', 'transform_pt %d of %r', i, p)
    elif op == 'transform_pts':
        src = [Point(*q) for q in pts]
        for w, q in paired(pts, t.transform_pts(src)):
            expect(isinstance(q, Point), 'forward', 'transform_pts of Points gave %r', q)
            near((q.x, q.y), ref.apply(r.m, w), tol, 'forward', 'transform_pts %d of %r', i, w)
        expect([s.xy() for s in src] == pts, 'argument-changed', 'transform_pts changed its argument')
        for w, q in paired(pts, t.transform_pts(list(pts))):
            near(q, ref.apply(r.m, w), tol, 'forward', 'transform_pts %d of %r', i, w)
    elif op == 'flatten':
        out = t.transform_pts(list(pts), flatten=True)
        expect(len(out) == 2*len(pts), 'forward', 'flattened list has %d values', len(out))
        for k, w in enumerate(pts):
            near(out[2*k:2*k+2], ref.apply(r.m, w), tol, 'forward', 'flattened %d of %r', i, w)
    elif op == 'scale_vals':
        sx, sy = t.scale_vals()
        near((sx, sy), (math.hypot(r.m[0], r.m[3]), math.hypot(r.m[1], r.m[4])), tol, 'scale', 'scale_vals of transform %d', i)
    elif op == 'width':
        w = abs(a[0]) + 1
        s = (math.hypot(r.m[0], r.m[3]) + math.hypot(r.m[1], r.m[4])) / 2
        near((t.transform_width(w), 0), (w*s, 0), 1e-9 * (1 + w*s) + tol, 'scale', 'transform_width(%r) of transform %d', w, i)
    elif op == 'simplify':
        outer, inner = t.simplify()
        expect(outer is not t and inner is not t, 'simplify', 'simplify returned the transform itself')
        m = ref.mul(tuple(map(float, outer.as_6tuple())), tuple(map(float, inner.as_6tuple())))
        for g, w in zip(m, r.m):
            expect(abs(g - w) <= tol, 'simplify', 'parts of transform %d combine to %r, expected %r', i, m, r.m)
        # the parts belong to the caller
        outer.translate(5, 5)
        inner.scale(2, 2)
    elif op == 'repr':
        dup = eval(repr(t), dict(Transform=Transform))
        expect(dup == t, 'repr', 'repr of transform %d recreates %s', i, dup)
        dup.translate(1, 1)
    elif op == 'eq':
        same = all(abs(g - w) <= 1e-12 for g, w in zip(r.m, r2.m))
        differ = any(abs(g - w) > 1e-6 for g, w in zip(r.m, r2.m))
        if differ:
            expect(not t == t2, 'equality', 'transforms %d and %d are equal: %r %r', i, j, r.m, r2.m)
        if i == j or (same and t.as_6tuple() == t2.as_6tuple()):
            expect(t == t2, 'equality', 'transforms %d and %d are not equal', i, j)


def paired(pts, got):
    got = list(got)
    expect(len(got) == len(pts), 'forward', '%d points became %d', len(pts), len(got))
    return list(zip(pts, got))


def verify(got, r, op, i):
    back = ref.inv(r.m)
    for p, q in got:
        w = ref.apply(back, p)
        tol = 1e-12 * (1 + ref.cond(r.m)) * (1 + abs(w[0]) + abs(w[1])) + 1e-9 * (1 + max(abs(p[0]), abs(p[1])))
        near(q, w, min(tol, 1e-3 * (1 + abs(w[0]) + abs(w[1]) + max(abs(p[0]), abs(p[1])))), 'stale-inverse', '%s of transform %d at %r', op, i, p)
