"""Writes /verif/known_findings.txt from the fix: commits in /repo (run by hand; checks only read the result)."""
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = [  # property, start of the commit subject, what failed
    ('C02', 'Transform.rotate_about must drop', 'untransform after rotate_about used the inverse of the matrix before the rotation'),
    ('C01', 'VectorRelative.p raised', 'VectorRelative(a, b).p raised AttributeError instead of giving the current difference'),
    ('C05', 'Group.iter_elems left the matrix', 'closing (or throwing into) Group.iter_elems half-way left the caller\'s matrix with the group transforms and extra saved levels'),
    ('C06', 'copies of shapes shared', 'shape.copy().xform was shape.xform: editing the transform of either changed both'),
    ('C06', 'restoring a Group or ElemWithHoles shared', 'Group/ElemWithHoles.restore shared the transform and members with the snapshot, or did not restore holes'),
    ('C06', 'a refused ElemCurve.restore', 'ElemCurve.restore of a snapshot with another number of points raised, but had already changed name, pen and transform'),
    ('C10', 'Group.replace lost the element', 'Group.replace on a name conflict had already removed the element; otherwise moved the replacement to the end of the drawing order'),
    ('C08', 'replacing any element failed in a model', 'ElemWithHoles.replace raised NotImplementedError, so no morph could be made in a model with holes'),
    ('C09', 'ElemCurve.add_one changed the shape', 'add_one on an open curve whose end points are furthest apart split the segment that is not drawn, adding a visible one'),
    ('C07', 'Animation.periodic and sin_cos multiplied', 'phase offset was multiplied by t: cos(offset=90)(0.0) was 1.0 instead of 0.0'),
    ('C12', 'SimpleAnimation.animate recorded every', 'animate() with 4 steps recorded 10 frames instead of 5'),
    ('C12', 'SimpleAnimation recorded a partial', 'a drawing function that raised left a partial frame in the list'),
    ('C11', 'DumpContext.output could only', 'second DumpContext.output() raised or gave other text'),
    ('C11', 'Group.dump lost hidden', 'reloaded group was visible, had no points and its members sorted by name'),
    ('C11', 'ElemWithHoles.dump wrote', 'text of a model with holes could not be executed, or had the outside as tuple'),
    ('C14', 'PlotViewer without an update', 'PlotViewer(None) called the factory with the axes: TypeError'),
    ('C15', 'assertMatchPlot leaked plot', 'a failing renderer or matcher left changed rcParams and an open figure'),
    ('C16', 'VectorField kept interpolating', 'lookup after replacing vx/vy still used the old values'),
    ('C16', 'transform_pts failed for a VectorField', 'VectorField.transform_pts raised ValueError (not enough values to unpack)'),
    ('C13', 'building the GIF palette', 'Builder.save_animation raised: cannot allocate more than 256 colors'),
    ('C13', 'saving an animation with an empty frame', 'Builder.save_animation raised TypeError when a frame was empty'),
    ('C13', 'Builder.save_animation optimized', 'on darwin the optimizer was given a fixed file, not the output just written'),
    ('C13', 'Builder.save_animation silently', 'on Linux Builder.save_animation returned without writing anything'),
    ('C08', 'MorphMultiStep changed the shape', 'at a step time the stand-in of an open curve was a rotated, different curve'),
    ('C11', 'recorded test data with derived', 'a recording with PointRelative, PointCalc or VectorRelative could not be loaded: NameError'),
    ('C03', 'shadow_draw reset', 'shadow_draw inside another shadow_draw left the shadow colour None instead of the one in effect before'),
    ('C04', 'drawing control points failed', 'drawing a curve with show_cps raised ValueError with Pillow (x1 < x0)'),
    ('C04', 'the box of an ElemWithHoles without', 'ElemWithHoles without holes: bbox_int() raised (BBox is empty), drawing it with holes=[] failed'),
    ('C04', 'an ElemWithHoles without a pen', 'a filled ElemWithHoles without pen got white outlines (default ink)'),
    ('C04', 'GroupBuilder.hide had no', 'GroupBuilder.hide() did not hide the group'),
    ('C06', 'restoring from another kind', 'rrect.restore(rect), group.restore(curve) ... raised, but had already changed name, pen and transform'),
    ('C08', 'a morph replaced every equal', 'with equal shapes in two groups, Morph() replaced both and restore() put the same source into both; two hidden morphs of the same name likewise'),
    ('C08', 'MorphMultiStep split and', 'MorphMultiStep() changed the control points of its targets'),
    ('C08', 'a morph created with force off', 'a morph created with force=False whose target (or source) later got points from another morph blended the first points only'),
    ('C08', 'a morph sharing its target', 'a second Morph adding points to a shared target made the first one blend with the first points only'),
    ('C06', 'copies and restored snapshots of a Group lost closed', 'Group(closed=True).copy().closed was False (and failed for a filled pen)'),
    ('C10', 'a refused Group.add or add_pt', 'Group.add(name, x) and add_pt(name, p) left x or p registered when naming it failed'),
    ('C10', 'Group.lookup found the group itself', "lookup('sub.') found sub instead of its member with the empty name"),
    ('C06', 'a filled ElemWithHoles with a group', 'ElemWithHoles(filled pen, outside, [group]).copy()/.transform() raised AssertionError'),
    ('C10', 'a replacement refused by a group within', 'replace() refused by a group inside a hole had already replaced equal shapes elsewhere'),
    ('C11', 'shapes with equal transforms shared', 'after reloading a dump, moving one shape (xform.translate) also moved every shape that had the same transform'),
    ('C13', 'SimpleAnimation.save_animation reused', 'save_animation() to a path that cannot be opened, one more animate(), save_animation() again: the file had the old frames and frame time only'),
    ('C12', 'SimpleAnimation drew outside', 'with a draw_bbox not centered vertically (e.g. (0, 5, 80, 20)) everything drawn in that box fell outside of the image'),
    ('C13', 'an animation with a blank frame after', 'Builder.save_animation of [blank, drawing, blank] wrote a second file header in the middle of the file'),
    ('C13', 'parts of the frames of a saved', 'Builder.save_animation: in the 2nd and later frames areas of one colour (e.g. white) were missing, because Pillow renumbered colours'),
    ('C15', 'an error within assertMatchPlot', 'with assertMatchPlot(): plot; raise X -> the test saw the mismatch of the incomplete plot, or (recording) the incomplete plot was recorded'),
    ('C16', 'VectorField.quiver drew', 'quiver() drew vx[i, j], vy[i, j] at (coord_x[j], coord_y[i]) though lookup() uses (coord_x[i], coord_y[j])'),
    ('C16', 'a VectorField could not be used any more', 'an allocation failure while preparing a lookup made every later lookup raise AttributeError/TypeError'),
    ('C04', 'the box of an ElemWithHoles ignored the', 'ElemWithHoles whose outside has its own transform: bbox() was the box of the untransformed outside, or failed with AssertionError'),
    ('C06', 'a copy of a named point lost', 'ControlPoint/Point copies: Point(1, 2, "n").copy() != Point(1, 2, "n"), so a snapshot of a shape with named points was not equal to it'),
    ('C06', 'the fixed copy of a plain named', 'rectangle on named points: r.copy() != r, and the reloaded text has "fixed_fixed_..." points, so it was not equal'),
    ('C10', 'a Group made with points kept', 'two Groups constructed with the same points dict: add_pt() on one showed in the other (and was then refused there)'),
    ('C04', 'ElemWithHoles.paths repeated', 'a hole consisting of n paths was extracted and drawn n times'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True, check=True).stdout.splitlines()
lines = ['# fixed: entries suppress nothing.  finding: entries (none) would be "finding: property=<id> match=<name> :: <what fails>"']
for line in log:
    h, _, subject = line.partition(' ')
    if subject.startswith('fix: '):
        hits = [(p, what) for p, start, what in WHAT if subject[5:].startswith(start)]
        assert len(hits) == 1, (subject, hits)
        lines.append('fixed: property=%s %s %s' % (hits[0][0], h, hits[0][1]))
assert len(lines) - 1 == len(WHAT), 'unused entry'
open(os.path.join(V, 'known_findings.txt'), 'w').write('\n'.join(lines) + '\n')
print(len(lines) - 1)
