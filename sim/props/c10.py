"""C10: a group never loses, duplicates or overwrites a member"""
import copy

from PIL import Image

from .. import ref, build
from ..core import Violation, expect
from ..build import Transform, DrawingContext, Group, GroupBuilder, ElemWithHoles, PenBrush, PensByShape, Point, ElemCurve, ElemRectangle
from ..faults import make_fault, ERRORS, gen_exc

RUNS = {'quick': 10000, 'thorough': 600000}
RULE = ('A run holds a tree of groups and shapes with holes, used by up to 3 clients through Group and GroupBuilder, and interleaves 6-40 steps: add a shape, group '
        'or point under fresh, colliding, dotted, empty or generated-looking names (with or without renaming), construct a group from a list, replace a shape by '
        'a fresh one (matching none, one or several equal members, colliding or dotted new names, also inside holes), snapshot and restore a group, look up, '
        'iterate, and add members or points whose naming fails. After every step the whole registry is compared by identity, order, name and lookup with a reference tree. '
        'Non-trivial: a refused or failed request, a replacement of a member, or a restore.')
REAL = ['x7.geom.model.Group, GroupBuilder, ElemWithHoles']
STUB = ['members whose name cannot be set (fault)']
STATE_MEASURE = '(operation, shape of the registry tree)'
ASSUMPTIONS = ['the outside of a shape with holes has an outline', 'an object is added to one group once', 'members are renamed only by the registry (not by assigning .name or restoring a member from one of another name)',
               'two shapes are equal if all their attributes are']

NAMES = ['a', 'a', 'b', 'b', 'c', 'd', '', 'x.y', 'a.b', 'q.', '.', '.a', 'rectangle#0', 'curve#0', 'curve#1', 'group#0', 'a#0', 'ga', 'ga', 'gb', 'gb', 'outside', 'inside', 'A', 'a ', 'rectangle#1', 'rectangle#2', 'rectangle#4', 'curve#2', 'curve#3', 'ellipse#1', 'ellipse#2', 'n1', 'n2', 'n3', 'n4']
OPS = ['add', 'add', 'add', 'add', 'addfix', 'addfix', 'build', 'build', 'group', 'group', 'holes', 'rotate', 'badadd', 'badpt', 'pt', 'pt', 'pt', 'lookup', 'lookup', 'replace', 'replace', 'replace',
       'replace', 'twin', 'twin', 'snap', 'restore', 'read', 'make', 'addmany']


def gen(rng):
    model = ref.unusual(rng, ref.gen_group(rng, 'm', depth=2, size=4, kinds=('curve', 'rect', 'ellipse', 'rrect'), hole_groups=True))
    for p, s in ref.walk(model):
        if s['k'] == 'group' and not any(isinstance(x, str) for x in p):
            for i, e in enumerate(s['elems']):
                if rng.random() < 0.4 and all(o['name'] != 'abc'[i % 3] for o in s['elems']):
                    e['name'] = 'abc'[i % 3]
    steps = []
    for _ in range(rng.randint(6, 40)):
        leaf = ref.gen_leaf(rng, rng.choice(NAMES), kinds=('curve', 'rect', 'ellipse', 'rrect'))
        if leaf['k'] == 'curve' and len(leaf['cps']) < 2:
            leaf['closed'] = True       # it may become the outside of a shape with holes, which needs an outline
        steps.append(dict(c='k%d' % rng.randrange(3), op=rng.choice(OPS), i=rng.randrange(1000), j=rng.randrange(1000), name=rng.choice(NAMES), leaf=leaf,
                          how=rng.randrange(8), fix=rng.random() < 0.5, exc=gen_exc(rng),
                          names=[rng.choice(NAMES) for _ in range(3)]))
    return dict(config=dict(models=[model]), steps=steps)


class Layer(Group):
    """A kind of group of the user's own"""


class Node(object):
    """Reference: one shape.  Groups have members [[name, Node]], holes have parts [Node] (outside first), other shapes a fixed state"""

    def __init__(self, real):
        self.real = real
        self.name = real.name
        self.members = self.points = self.parts = None
        self.state = None
        if isinstance(real, Group):
            self.members = [[n, Node(e)] for n, e in real.elems.items()]
            self.points = list(real.points.items())
        elif isinstance(real, ElemWithHoles):
            self.parts = [Node(real.outside)] + [Node(e) for e in real.inside]
        else:
            self.state = build.observe(real)

    def deep(self):
        """Plain data that decides equality"""
        head = [type(self.real).__name__, self.name, build.obs_pen(self.real.penbrush), bool(self.real.closed), list(map(float, self.real.xform.as_6tuple()))]
        if self.members is not None:
            # groups are equal whatever the order of their members
            return head + [bool(self.real.hidden), [[n, m.deep()] for n, m in sorted(self.members, key=lambda x: x[0])],
                           [[n, list(p.xy())] for n, p in sorted(self.points, key=lambda x: x[0])]]
        if self.parts is not None:
            return head + [[m.deep() for m in self.parts]]
        return head + [self.state]

    def walk(self, path=()):
        yield path, self
        for n, m in self.members or []:
            yield from m.walk(path + (n,))
        for i, m in enumerate(self.parts or []):
            yield from m.walk(path + (i,))


def shape(node):
    if node.members is not None:
        return [len(node.points)] + [shape(m) for n, m in node.members]
    return len(node.parts) if node.parts is not None else 0


class Unnamable(object):
    """A member whose name cannot be set"""

    def __init__(self, fault):
        object.__setattr__(self, 'fault', fault)
        object.__setattr__(self, 'name', 'unnamable')

    def __setattr__(self, key, value):
        raise self.fault


def verify(root, what):
    """The registry agrees with the reference"""
    def one(node, groups):
        if node.members is not None:
            g = node.real
            names = [n for n, m in node.members]
            expect(list(g.elems.keys()) == names, 'members', 'after %s: members of %r are %s, expected %s', what, node.name, list(g.elems.keys()), names)
            expect(len(set(names)) == len(names), 'members', 'harness')
            for n, m in node.members:
                expect(g.elems[n] is m.real, 'overwritten', 'after %s: member %r of %r is another object', what, n, node.name)
                expect(m.real.name == n and '.' not in n, 'name', 'after %s: %r is registered in %r as %r', what, m.real.name, node.name, n)
                expect(g.lookup(n) is m.real, 'lookup', 'after %s: lookup(%r) in %r finds something else', what, n, node.name)
                for top, path in groups:
                    expect(top.lookup('.'.join(path + (n,))) is m.real, 'lookup', 'after %s: lookup(%r) finds something else', what, '.'.join(path + (n,)))
            expect(sorted(g.points.keys()) == sorted(n for n, p in node.points), 'points', 'after %s: points of %r are %s, expected %s', what, node.name, list(g.points), [n for n, p in node.points])
            for n, p in node.points:
                expect(g.points[n] is p and p.name == n and g.lookup_pt(n) is p, 'points', 'after %s: point %r of %r is another one', what, n, node.name)
            for n, m in node.members:
                one(m, [(top, path + (n,)) for top, path in groups] + [(g, (n,))])
        elif node.parts is not None:
            parts = [node.real.outside] + list(node.real.inside)
            expect(len(parts) == len(node.parts) and all(p is m.real for p, m in zip(parts, node.parts)), 'parts', 'after %s: the parts of %r changed', what, node.name)
            for k, m in enumerate(node.parts):
                tag = ('inside.' if k else 'outside.') + m.real.name
                first = [x for x in node.parts[1 if k else 0:] if x.real.name == m.real.name][0]
                expect(node.real.lookup(tag) is first.real, 'lookup', 'after %s: lookup(%r) in the shape with holes %r finds something else', what, tag, node.name)
                for bad in ('inside.' + m.real.name + '?', 'outside.' + m.real.name + '?', 'both.' + m.real.name):
                    try:
                        res = node.real.lookup(bad)
                    except Exception:       # noqa
                        continue
                    raise Violation('lookup', 'after %s: lookup(%r) in the shape with holes %r finds %r' % (what, bad, node.name, res))
                one(m, [])
        else:
            d = build.same(dict(build.observe(node.real), name=0), dict(node.state, name=0), 0.0)
            expect(not d, 'shape-changed', 'after %s: shape %r changed at %s', what, node.name, d)
    one(root, [])


def run(sc, stats):
    if not sc['config']['models']:
        return
    real = build.elem(sc['config']['models'][0])
    root = Node(real)
    pens = PensByShape()
    snaps = []          # (Node, real copy, members, points)
    dc = DrawingContext(Image.new('RGBA', (8, 8), 'white'), Transform())
    dc.points_per_curve = 4
    verify(root, 'construction')

    def added(node, n, req, obj, what, mark=None):
        """Outcome of an accepted request: exactly one new last member, or (mark) two"""
        g = node.real
        new = [k for k in g.elems if k not in n]
        reqs = [req] + [mark] * (mark is not None)
        expect(len(new) == len(reqs) and len(g.elems) == len(n) + len(new), 'members', '%s: members %s became %s', what, n, list(g.elems))
        expect(list(g.elems)[-len(new):] == new, 'order', '%s: the new member %r is not the last', what, new[-1])
        for k, (name, want) in enumerate(zip(new, reqs)):
            if '.' not in want and want not in n + new[:k]:
                expect(name == want, 'name', '%s: registered as %r although %r was free', what, name, want)
            if name != want:
                stats.probe('renamed')
            got = g.elems[name]
            expect(obj is None or k or got is obj, 'overwritten', '%s: registered another object', what)
            m = Node(got)
            m.name = name
            if m.state:
                m.state['name'] = name
            node.members.append([name, m])

    def request(node, req, obj, call, what, fix=False, mark=None):
        n = list(node.real.elems)
        try:
            res = call()
        except Exception as err:        # noqa
            stats.fault('refused-add')
            expect(list(node.real.elems) == n, 'refused-changed', '%s was refused (%s) but members %s became %s', what, err, n, list(node.real.elems))
            expect(not fix and any('.' in r or r in n for r in (req, mark) if r is not None), 'refused', '%s was refused: %s', what, err)
        else:
            if obj is None and isinstance(res, GroupBuilder):
                obj = res.the_group
            added(node, n, req, obj if obj is not None else res, what, mark)

    for st in sc['steps']:
        op, i, j, name = st['op'], st['i'], st['j'], st['name']
        stats.step(st['c'], op)
        live = list(root.walk())
        groups = [m for p, m in live if m.members is not None]
        reg = [m for m in groups if m.real is root.real or any(m is x for g in groups for n, x in g.members)]
        node = reg[i % len(reg)]
        g = node.real
        front = GroupBuilder('front', pens, group=g)
        what = '%s %r in %r' % (op, name, node.name)
        small = len(live) < 40
        if op in ('add', 'addfix') and small:
            leaf = build.elem(st['leaf'])
            if op == 'addfix':
                request(node, name, leaf, lambda: g.add(name, leaf, fixname=True), what, True)
            elif j % 2:
                request(node, name, leaf, lambda: g.add(name, leaf), what)
            else:
                request(node, name, leaf, lambda: front.add(name, leaf), what)
        elif op == 'addmany':
            # one name again and again
            if len(live) < 60 and i % 6 == 0:
                leaf = build.elem(dict(k='rect', name=name, pen=0, xf=None, p1=[0, 0], p2=[3, 4]))
                for n in range(14 + j % 22):
                    e = leaf.copy()
                    request(node, name, e, lambda: g.add(name, e, fixname=True), what, True)
        elif op == 'build' and small:
            p1, p2 = Point(0, 0), Point(10, 20)
            kind = [None, 'edge_filled', PenBrush('red', 'blue'), 'clear'][st['how'] % 4]
            call = [lambda: front.rect(name, p1, p2, kind), lambda: front.ellipse(name, p1, p2, 'filled'), lambda: front.rrect(name, p1, p2, 3),
                    lambda: front.curve(name, build.cps(dict(cps=[[[0, 0], [1, 0], [0, 1], 'sharp'], [[5, 5], [1, 0], [0, 1], 'smooth']])))][j % 4]
            request(node, name, None, call, what)
        elif op == 'group' and small:
            if st['how'] < 2:
                # groups of the user's own kind, with members and all
                own = Layer('own', PenBrush('default'), elems=[build.elem(dict(st['leaf'], name='a'))] if j % 2 else [])
                if j % 3 == 0:
                    inner = Layer('own', PenBrush('default'))
                    own.add('b', inner)
                    inner.add('c', build.elem(dict(st['leaf'], name='c')))
                request(node, name, own, lambda: (front if j % 5 else g).add(name, own), what)
            else:
                request(node, name, None, lambda: front.group(name), what)
        elif op == 'holes' and small:
            leaf = build.elem(st['leaf'])
            old = [m for p, m in live if m.state is not None]
            if st['how'] % 2 and old:
                leaf = old[j % len(old)].real.copy()
            inside = [leaf]
            if st['how'] >= 4 and '.' not in leaf.name:
                # the same shape once more, in a group that is a hole
                k = build.elem(dict(st['leaf'], name=leaf.name + '2'))
                inside.insert(i % 2, Group('hg', PenBrush('default'), elems=[leaf.copy(), k] if i % 3 else [k, leaf.copy()]))
            e = ElemWithHoles('h', PenBrush('black'), ElemRectangle('out', PenBrush('black'), Point(0, 0), Point(9, 9)), inside)
            request(node, name, e, lambda: g.add(name, e, st['fix']), what, st['fix'])
        elif op == 'rotate' and small:
            cand = [m for n, m in node.members if m.state is not None]
            if cand:
                m = cand[j % len(cand)]
                extra = st['names'][0]
                show = st['how'] > 4
                request(node, m.name + '_r' + extra, None, lambda: front.rotate_about_center(m.real, 90, show, extra), 'rotate %r in %r' % (m.name, node.name),
                        mark=m.name + '_c' + extra if show else None)
        elif op == 'badadd':
            fault = make_fault(st['exc'])
            stats.plan('naming-' + st['exc'])
            n = list(g.elems)
            bad = Unnamable(fault) if j % 3 else None
            try:
                g.add(name, bad, st['fix'])
                stats.probe('bad-member-accepted')
                return
            except ERRORS as err:
                expect(err is fault, 'wrong-error', '%s: other error', what)
                stats.fault('naming-' + st['exc'])
            except Exception:       # noqa
                stats.fault('refused-add')
        elif op in ('pt', 'badpt'):
            names = [n for n, p in node.points]
            fault = make_fault(st['exc'])
            if names and st['how'] < 2:
                # an equal point under the same name is still another one
                name = names[i % len(names)]
                same = Point(*g.points[name].xy(), name)
            else:
                same = Point(i % 3, j % 3)
            pt = same if op == 'pt' else Unnamable(fault) if j % 3 else (1, 2)
            try:
                got = front.add_pt(name, pt) if j % 2 or op == 'badpt' else front.point(name, i % 3, j % 3)
            except ERRORS as err:
                expect(err is fault, 'wrong-error', '%s: other error', what)
                stats.fault('naming-' + st['exc'])
            except Exception as err:        # noqa
                stats.fault('refused-point')
                expect(op == 'badpt' or name in names or '.' in name, 'refused', '%s was refused: %r', what, err)
            else:
                if op == 'badpt':
                    stats.probe('bad-point-accepted')
                    return
                expect(name not in names and '.' not in name, 'overwritten', '%s: accepted', what)
                expect((got is pt if j % 2 else got.xy() == (i % 3, j % 3)), 'points', '%s: other point', what)
                node.points.append((name, got))
        elif op == 'lookup':
            tag = name if j % 2 else '.'.join(st['names'][:1 + i % 3])
            want = node
            for part in tag.split('.'):
                hit = [m for n, m in want.members or [] if n == part] if want is not None else []
                want = hit[0] if hit else None
            try:
                got = front.lookup(tag)
            except Exception:       # noqa
                expect(want is None, 'lookup', 'lookup(%r) in %r failed', tag, node.name)
                stats.fault('refused-lookup')
            else:
                expect(want is not None and got is want.real, 'lookup', 'lookup(%r) in %r found %r', tag, node.name, getattr(got, 'name', got))
        elif op == 'twin' and small:
            # an equal shape somewhere else
            cand = [m for p, m in live if m.state is not None]
            if cand:
                m = cand[j % len(cand)]
                e = m.real.copy()
                request(node, m.name, e, lambda: g.add(m.name, e), 'twin of %r in %r' % (m.name, node.name))
        elif op == 'replace':
            cand = [m for p, m in live if p and (m.state is not None) != (st['fix'] and i % 3 == 0)]
            top = node if st['how'] % 2 else root
            leafspec = st['leaf']
            if not cand:
                continue
            m = cand[j % len(cand)]
            target = m.real if st['how'] % 3 else m.real.copy() if st['how'] else build.elem(dict(leafspec, name='foreign'))
            rep = build.elem(leafspec)
            if st['fix'] and i % 2:
                # by a whole group
                rep = Group(rep.name, PenBrush('default'), elems=[rep, build.elem(dict(leafspec, name='member'))] if '.' not in rep.name else [])
            if st['how'] in (4, 5):
                rep.name = m.name
            if st['how'] in (6, 7):
                # the name of a neighbour of some equal shape
                near = [n for x in groups for n, y in x.members if any(z.deep() == m.deep() for _, z in x.members)]
                rep.name = near[i % len(near)] if near else rep.name
            tstate = Node(target).deep()
            spots, refuse = [], False

            def find(x):
                nonlocal refuse
                for k, y in enumerate([m for n, m in x.members] if x.members is not None else x.parts or []):
                    if y.real is target or build.same(y.deep(), tstate, 0.0) == '':
                        spots.append((x, k))
                        if x.members is not None:
                            refuse = refuse or '.' in rep.name or rep.name != y.name and rep.name in [n for n, m in x.members]
                    else:
                        find(y)
            find(top)
            if isinstance(rep, Group) and (len(spots) > 1 or any(x.parts is not None and k == 0 for x, k in spots)):
                continue        # (the outside of a shape with holes has to be a single shape)
            what = 'replacing %r by %r in %r' % (target.name, rep.name, top.name)
            try:
                count = GroupBuilder('front', pens, group=top.real).replace(target, rep) if i % 2 else top.real.replace(target, rep)
            except Exception as err:        # noqa
                stats.fault('refused-replace')
                expect(refuse, 'refused', '%s was refused: %s', what, err)
            else:
                expect(not refuse, 'overwritten', '%s was accepted', what)
                expect(count == len(spots), 'count', '%s: reported %s, expected %d', what, count, len(spots))
                if spots:
                    stats.nontrivial()
                    stats.probe('replaced-%d' % min(len(spots), 3))
                for x, k in spots:
                    new = Node(rep)
                    if x.members is not None:
                        x.members[k] = [rep.name, new]
                    else:
                        x.parts[k] = new
        elif op == 'snap':
            if len(snaps) < 6:
                snaps.append((node, g.copy(), [list(x) for x in node.members], list(node.points), node.name))
        elif op == 'restore':
            mine = [s for s in snaps if s[0] is node]
            if mine:
                _, snap, members, points, nm = mine[j % len(mine)]
                g.restore(snap)
                node.members, node.points = [list(x) for x in members], list(points)
                node.name = g.name
                stats.nontrivial()
        elif op == 'make':
            # a new group made of a list
            elems = [build.elem(dict(st['leaf'], name=n)) for n in st['names']]
            given = dict(p=Point(1, 2))
            try:
                new = Group('new', PenBrush('default'), elems=elems, fix_names=st['fix'], points=given)
            except Exception as err:        # noqa
                stats.fault('refused-make')
                expect(any('.' in n for n in st['names']) or len(set(st['names'])) < 3, 'refused', 'a group of %s was refused: %s', st['names'], err)
            else:
                expect(len(new.elems) == 3 and all(a is b for a, b in zip(new.elems.values(), elems)), 'members', 'a group of %s has members %s', st['names'], list(new.elems))
                given['p'].name = 'p'
                new.add_pt('q', Point(3, 4))
                expect(list(given) == ['p'], 'points', 'a point added to a new group shows in the points it was made with')
                verify(Node(new), 'construction of a group of %s' % st['names'])
        elif op == 'read':
            how = st['how']
            if how == 0:
                leaves = []

                def collect(x):
                    for y in [m for n, m in x.members] if x.members is not None else x.parts:
                        collect(y) if y.state is None else leaves.append(y)
                collect(node)
                got = [e for n, e, m in g.iter_elems('r', Transform())]
                expect(len(got) == len(leaves) and all(a is b.real for a, b in zip(got, leaves)), 'iteration', 'iterating %r gave %d of %d shapes', node.name, len(got), len(leaves))
            elif how == 1:
                expect(len(list(g.iter_elems_transformed())) == len(node.members), 'iteration', 'transformed iteration of %r is incomplete', node.name)
            elif how == 2:
                g.paths(dc)
            elif how == 3:
                g.dump().output()
            elif how == 4:
                g.display()
            elif how == 5:
                g.transform(Transform().translate(1, 2)).name = 'other'
            elif how == 6:
                g.copy().name = 'other'
            else:
                g.as_curves()
        verify(root, what)
        for nd, snap, members, points, nm in snaps:
            expect(list(snap.elems) == [n for n, m in members] and all(snap.elems[n] is m.real for n, m in members) and sorted(snap.points) == sorted(n for n, p in points) and all(snap.points[n] is p for n, p in points),
                   'snapshot', 'after %s: a snapshot of %r changed', what, nm)
        stats.check()
        stats.state([op, shape(root)])
