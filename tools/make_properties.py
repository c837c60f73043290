"""Writes /verif/properties.jsonl (kept as code only so the text is easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


G, M, T, D = 'x7/geom/geom.py', 'x7/geom/model.py', 'x7/geom/transform.py', 'x7/geom/drawing.py'
A, S, B, U = 'x7/geom/anim.py', 'x7/geom/anim_simple.py', 'x7/geom/bezier.py', 'x7/geom/utils.py'
I, C, V = 'x7/geom/imagehelp.py', 'x7/geom/colors.py', 'x7/geom/vec_field.py'
TE, PV = 'x7/geom/testing.py', 'x7/geom/plot_viewer.py'

prop('C01', 'Derived points and vectors always follow their base points',
     'At every moment, including part-way through an animation tick and whichever of several writers moved what last, an offset point, a '
     'scaled point or the difference vector of two points has exactly the value its definition gives for the current positions of its base '
     'points, and so does every handle, line, distance, bounding box, transformed shape or extracted path built on it. Moving a base point by '
     'any supported means (set, set coordinates, restore, animation, shape restore) is seen by all dependents at once and by nobody else. '
     'A detached ("fixed") copy keeps the value it had when it was taken, and a derived object refuses to be moved directly.',
     ['schedules', 'histories'],
     'For all dependency networks of plain, offset, scaled and difference objects, and all interleavings of independent movers, animation '
     'ticks cut off at any component, snapshots and readers.',
     'The tests build one small chain and move one point once; they never interleave writers or read in the middle of a tick.',
     [G, B, M, A],
     [('values are computed from the bases on every read, nothing is cached', 'x7/geom/geom.py: PointRelative.xy, PointCalc.xy, VectorRelative.xy'),
      ('handles computed on read', 'x7/geom/bezier.py: ControlPoint.l, ControlPoint.r')],
     [('base coordinates', 'current position of each plain point', 'x7/geom/geom.py: Point'),
      ('dependency links', 'base / difference references', 'x7/geom/geom.py: PointRelative, PointCalc, VectorRelative')],
     ['xy()/x/y/iteration of any point or vector', 'control point handles', 'Line ends', 'paths()'])

prop('C02', 'A transform maps, and un-maps, by its current matrix after any history',
     'After any sequence of translate, scale, rotate, rotate-about, fit-box, compose, reset, assign, copy, push, pop and scoped use (left '
     'normally or by an exception), the forward map is the composition of exactly the operations still in force in documented order, and the inverse map '
     'undoes that same current map (never an earlier one); widths scale by the current matrix. Pop returns exactly the '
     'matrix of the matching push, popping more than was pushed is refused and changes nothing, and a singular transform '
     'refuses to be inverted without damaging itself. Copies share nothing with their original.',
     ['histories', 'fault_sequences'],
     'For all operation histories over several transforms, with exceptions thrown inside scopes at any depth and inverse queries at any point.',
     'Tests exercise each operation once on a fresh object; a stale cached inverse, a leaked stack level or an aliased copy only shows after a '
     'particular sequence.',
     [T],
     [('cached inverse dropped by every mutator', 'x7/geom/transform.py: Transform'), ('saved-matrix stack and scope exit', 'x7/geom/transform.py: push, pop, __enter__, __exit__')],
     [('current matrix', 'the map in force', 'x7/geom/transform.py: Transform'), ('inverse cache', 'must belong to the current matrix', 'x7/geom/transform.py: Transform.inverse'),
      ('stack', 'matrices saved by push', 'x7/geom/transform.py: Transform')],
     ['transform*/untransform*', 'as_6tuple, scale_vals, transform_width', 'exceptions raised'])

prop('C03', 'A failed or abandoned drawing leaves the drawing context as it was',
     'When drawing, path or control-path extraction, shape transformation, element iteration or shadow drawing fails part-way (the canvas, a '
     'shape, a colour or the image library raises) or is abandoned before its end, the caller gets the original error, and the transform in '
     'force, the levels saved on it, the draw target, the shadow colour and the drawing modes are exactly what they were before the call. Drawing again after '
     'the fault therefore puts every shape where it belongs.',
     ['fault_sequences', 'crash_points'],
     'For all models with nested transformed groups and holes, all fault positions (k-th canvas call, path allocation, shape), all iteration '
     'cut-off points, and any sequence of failed and successful draws on one context.',
     'No test makes a drawing primitive fail, and none looks at the context after an abandoned iteration.',
     [M, D, T],
     [('scoped transform restored on exit', 'x7/geom/model.py: draw_space, Group.paths, iter_elems'), ('draw target restored in finally', 'x7/geom/drawing.py: DrawingContext.shadow_draw')],
     [('context matrix and its saved levels', 'placement in force', 'x7/geom/drawing.py: DrawingContext.matrix'), ('draw target / shadow colour', 'where and how primitives are drawn', 'x7/geom/drawing.py: DrawingContext')],
     ['context matrix, pops by the caller, draw target, shadow colour', 'image of a later draw', 'error seen by the caller'])

prop('C04', 'Rendering is repeatable, read-only and a function of the current model only',
     'Drawing a model, extracting its paths or control paths, or asking for boxes changes neither the model nor the supplied background '
     'image, and gives the same result however often it is repeated and whatever was drawn, moved back, or failed before. '
     'The result equals that of a freshly built model with the same current geometry drawn in a fresh context, and each shape lies on the '
     'curve its points, its own transform and its groups\' transforms define, in drawing order, hidden groups contributing nothing.',
     ['histories', 'inputs'],
     'For all models and all histories of edits, draws, failed draws, extractions and shadow draws, over several contexts sharing models.',
     'Tests compare single draws of fixed models with stored images; they never draw twice, after a failure, or after an edit history.',
     [M, D, B, C],
     [('paths computed from current points and context matrix', 'x7/geom/model.py: paths() of each shape'), ('composition onto a copy of the background', 'x7/geom/drawing.py: DrawingContext.image')],
     [('model geometry', 'points, transforms, membership', 'x7/geom/model.py'), ('layer, shadow and background', 'pixels', 'x7/geom/drawing.py')],
     ['paths(), control_paths(), bbox()', 'image()', 'background image', 'model equality before/after'])

prop('C05', 'Traversals visit every shape once, correctly placed, independent of each other',
     'Stepping through a model (raw elements with placement, or transformed elements) yields every leaf shape (deep) or direct member (shallow) exactly once in '
     'drawing order under its path name; at each step the placement is the product of the enclosing groups\' transforms on top of '
     'the caller\'s matrix, and a transformed element covers the same points (rounded corners up to their radius). Any number of traversals can be stepped alternately or '
     'dropped half-way without disturbing each other or the model, and a caller\'s matrix is back to its own value once a traversal '
     'ends or is closed.',
     ['schedules', 'histories'],
     'For all nested models and all interleavings of stepping, closing and throwing into several live traversals, with draws and moves in between.',
     'Tests consume each traversal to the end in one go with one model, so a leaked or shared transform level is invisible.',
     [M, T],
     [('scoped push/compose around recursive generators', 'x7/geom/model.py: iter_elems, iter_elems_transformed'), ('transform of each shape kind', 'x7/geom/model.py: transform')],
     [('traversal matrix', 'placement at the current step', 'x7/geom/model.py: iter_elems')],
     ['(name, element, matrix) at each step', 'caller matrix afterwards'])

prop('C06', 'Snapshots are equal, independent, and restore exactly',
     'A copy of a shape equals the shape when it is taken and shares no changeable geometry with it (nor does a transformed copy): later edits of either (points, handles, '
     'transform, radius, holes) never show in the other. Restoring from a snapshot brings back exactly the captured '
     'geometry, style and transform, any number of times, and leaves the snapshot reusable; a refused restore changes nothing. A group\'s snapshot captures its membership, '
     'visibility, transform and point names and restores those, while sharing its members.',
     ['histories', 'fault_sequences'],
     'For all shape kinds and all interleavings of edits (in place and by replacement), snapshots, restores, and mismatched restores.',
     'Tests copy and restore once right away; aliasing needs an edit on one side after the copy, often of the transform or a hole.',
     [M, B, G],
     [('copy/restore of each shape kind', 'x7/geom/model.py: copy, restore'), ('control point restore by copying', 'x7/geom/bezier.py: ControlPoint.restore')],
     [('shape geometry', 'points, handles, radius, holes, transform', 'x7/geom/model.py')],
     ['points, transform, style and extracted paths of original and snapshot'])

prop('C07', 'Animation state is a function of time, not of how time was reached',
     'After an update to time t each animated point is where its definition puts it for t (linear, shaped linear, sinusoidal, circular, '
     'custom callback; shaped by ramps, interpolation, sine/cosine, x/y combination or hiding), from its position at set-up '
     'and its target\'s current position, whatever frames were skipped, repeated, reordered, run backwards or cut short before. '
     'A callback that fails disturbs no other animation\'s definition and the next update is right again. '
     'A set of animations applies in the order added.',
     ['schedules', 'histories', 'fault_sequences'],
     'For all animation kinds and parameters, shaping functions, moving targets, clock histories (jump, stall, reverse, duplicate) and callback faults.',
     'There are no tests of the animation module, and history dependence only shows over several updates in unusual order.',
     [A],
     [('update computes from remembered origin', 'x7/geom/anim.py: Animation*.update'), ('pure shaping functions', 'x7/geom/anim.py: interpolate, periodic, ramp_up ...')],
     [('origin', 'position at set-up', 'x7/geom/anim.py: Animation.orig'), ('animation list', 'order of application', 'x7/geom/anim.py: AnimationHolder')],
     ['positions of animated points and targets', 'values of shaping functions'])

prop('C08', 'A morph installs in place, blends by time only, and undoes cleanly',
     'Creating a morph puts a stand-in shape into the model in place of the source, at the same place in the drawing order and with nothing else changed; each '
     'update makes the stand-in the blend of the step shapes for that time (clamped to the first/last step for step sequences, moved out '
     'of sight when hidden) regardless of earlier updates, and never alters source or targets. Removing it puts the very source back in '
     'its place. A source not in the model, or an incompatible pair when adjustment is off, is reported without changing the model.',
     ['histories', 'schedules'],
     'For all models, sources, targets with different point counts, step lists, update orders, hide periods and nested groups.',
     'No test creates a morph; order of members and reuse after hide need a sequence of calls.',
     [A, M],
     [('replacement in the group registry', 'x7/geom/model.py: Group.replace'), ('blend per control point', 'x7/geom/anim.py: Morph.update, MorphMultiStep.update'), ('point count matching', 'x7/geom/model.py: ElemCurve.add_one')],
     [('stand-in shape', 'what is drawn', 'x7/geom/anim.py: Morph.morph'), ('members', 'order and identity', 'x7/geom/model.py: Group.elems')],
     ['member list and identity', 'drawn curve of the stand-in', 'source/target geometry'])

prop('C09', 'Adding control points never changes the drawn curve',
     'Each request to add a control point to an open or closed curve adds exactly one, keeps all existing points where they are and in '
     'order, and leaves the drawn curve unchanged, however many times it is repeated and mixed with moves, copies and restores.',
     ['histories', 'inputs'],
     'For all curves (two or more points, open or closed, with live derived points, loops, cusps, coincident points) and all add/move/undo histories.',
     'The one test adds points to one closed curve; the effect on an open curve depends on which gap is the longest.',
     [M, B],
     [('split the longest segment', 'x7/geom/model.py: ElemCurve.add_one'), ('de Casteljau split', 'x7/geom/bezier.py: bez_split')],
     [('control points', 'the curve', 'x7/geom/model.py: ElemCurve.control_points')],
     ['extracted path before/after', 'control point list'])

prop('C10', 'A group never loses, duplicates or overwrites a member',
     'After any sequence of adding (with or without automatic renaming), adding points, replacing, restoring and looking up, every member is '
     'registered once under a name without dots equal to its own name, is found by that name (and by its dotted path from any '
     'ancestor group; the parts of a shape with holes as outside.name and inside.name), and nothing ever added has silently disappeared or been replaced by something else. A refused request changes nothing, '
     'and replacing changes only the members equal to the one given, reports how many, and keeps the drawing order.',
     ['histories', 'fault_sequences'],
     'For all histories of registry operations with colliding, dotted, empty and generated-looking names, nested groups and equal members.',
     'Tests check single additions and one replacement; loss on a refused replacement or renaming collisions need a sequence.',
     [M],
     [('name clash handling', 'x7/geom/model.py: Group.add'), ('replace', 'x7/geom/model.py: Group.replace'), ('path lookup', 'x7/geom/model.py: Group.lookup')],
     [('member registry', 'name to member, in drawing order', 'x7/geom/model.py: Group.elems'), ('point registry', 'name to point', 'x7/geom/model.py: Group.points')],
     ['members, lookup(), lookup_pt(), return counts, exceptions'])

prop('C11', 'A written model reloads as the same model',
     'The text written for any model recreates, when run in a fresh process, an equal model: shapes, names, pens, transforms, points, nesting, '
     'holes, hidden state and drawing order; so it draws the same. Writing does not change the model and can be repeated with the same result, '
     'at any point of an edit history. A recording saved and reloaded by the test-data store gives back equal values.',
     ['histories', 'crash_points', 'inputs'],
     'For all models and edit histories, with the process lost after any save and only the written text surviving.',
     'Tests compare the text of one model with a stored text; they do not reload it.',
     [M, TE, B, G, C, T],
     [('dump of each shape', 'x7/geom/model.py: dump, dump_elem, DumpContext'), ('data pickler extension', 'x7/geom/testing.py: PicklerExtensionGeom')],
     [('dump text', 'only durable state', 'x7/geom/model.py: DumpContext.output')],
     ['model rebuilt from the text', 'paths of the rebuilt model'])

prop('C12', 'A frame sequence is complete, ordered and isolated',
     'Recording an animation calls the drawing exactly once per step, in order, at the evenly spaced times promised, on a fresh background '
     'which the promised drawing area fills, and records exactly one frame per step showing that step only; frames already recorded and the '
     'supplied background never change afterwards. '
     'If a step fails, the error reaches the caller, no partial frame is recorded, and a later run is unaffected.',
     ['histories', 'fault_sequences'],
     'For all step counts, time ranges, models, animation sets and failures of the drawing callback or an animation at any step, and repeated runs.',
     'There are no tests of either frame recorder.',
     [S, A, D],
     [('step loop', 'x7/geom/anim_simple.py: SimpleAnimation.animate, StepContext'), ('frame list', 'x7/geom/anim.py: Builder.build_all, build_one')],
     [('recorded frames', 'one image per step', 'x7/geom/anim_simple.py, x7/geom/anim.py: images')],
     ['frames, callback times, background image, shown frames'])

prop('C13', 'Saving an animation stores every frame, or reports the failure',
     'When saving a recorded animation returns normally, the file holds all frames, in order, each shown for the requested time, looping for '
     'ever. If storage fails at any point (cannot open, full, I/O error) the '
     'error reaches the caller, the recorded frames are untouched, and saving again once the fault is gone produces the complete file.',
     ['fault_sequences', 'crash_points'],
     'For all frame sequences (including blank, identical and cropped frames), both recorders, supported desktop platforms, and storage faults at any write.',
     'No test saves an animation, and none injects a storage fault.',
     [S, A, I],
     [('GIF writing', 'x7/geom/anim_simple.py: save_animation; x7/geom/anim.py: Builder.save_animation'), ('palette and crop', 'x7/geom/anim.py: make_palette, max_bbox, scaled')],
     [('output file', 'durable result', 'file system')],
     ['bytes of the output file decoded independently', 'errors', 'recorded frames'])

prop('C14', 'The plot viewer refreshes at its frame rate, one refresh at a time',
     'From start, and for as long as the window lives, the viewer clears the axes, calls the update function once with them, draws, and only then schedules '
     'exactly one next refresh one frame period later; so at most one refresh is ever pending, a slow update delays but '
     'never multiplies refreshes, and no plot from an earlier frame stays. Without an update function it animates its example; the arc example keeps turning for ever.',
     ['schedules', 'configurations'],
     'For all frame rates, update durations, clock stalls and jumps, and several viewers on one event loop.',
     'No test creates a viewer (it needs a display), and timing cannot be sampled reliably.',
     [PV],
     [('refresh chain', 'x7/geom/plot_viewer.py: PlotViewer.do_update')],
     [('pending timer', 'next refresh', 'x7/geom/plot_viewer.py')],
     ['timer requests on the (simulated) event loop', 'axes content at draw time'])

prop('C15', 'A plot check never leaks state or hides an error',
     'Leaving a plot-comparison block, whatever happens inside it or while rendering, comparing or reading stored data, restores the plot title '
     'settings it changed and closes the figure it compared and no other. An error raised in the block reaches the test and its incomplete plot is neither compared nor recorded, '
     'a mismatch is reported as a failure, and a match passes.',
     ['fault_sequences', 'histories'],
     'For all sequences and nestings of plot blocks with faults in the body, the renderer, the image conversion and the stored-data comparison.',
     'The existing tests only pass through the success path.',
     [TE],
     [('context manager exit', 'x7/geom/testing.py: PlotMatchContextManager')],
     [('global plot settings', 'title position and pad', 'matplotlib rcParams'), ('open figures', 'process-wide list', 'matplotlib pyplot')],
     ['plot settings and open figures after the block', 'exception seen by the caller'])

prop('C16', 'A vector field answers from its current values; derived fields are independent',
     'At any time looking up a point, or transforming points, by a field gives the bilinear interpolation of the current grid values, whatever was looked '
     'up or edited before, and a grid value is returned exactly at its grid point, where it is also plotted; a failed lookup does not spoil the next. Copies and normalised, '
     'smoothed or scaled fields share no values with their source and leave it unchanged; a normalised or smoothed non-zero field has largest '
     'magnitude one, scaling multiplies every vector, and a random field stays within the requested magnitude and is repeatable under a seeded generator.',
     ['histories', 'inputs'],
     'For all meshes, and all interleavings of edits in place, replacement of values, lookups, derivations and transformations over several fields.',
     'Tests look up once on one field; a stale interpolation cache needs a lookup, an edit and another lookup.',
     [V, T],
     [('interpolator', 'x7/geom/vec_field.py: VectorField.interp_coords'), ('derived fields', 'x7/geom/vec_field.py: copy, normalized, smoothed, scaled'), ('random', 'x7/geom/vec_field.py: Mesh.uniform')],
     [('grid values', 'field definition', 'x7/geom/vec_field.py: VectorField.vx, vy'), ('interpolator cache', 'must match the values', 'x7/geom/vec_field.py')],
     ['lookup, transform results', 'values of all fields'])

prop('C17', 'A builder adds exactly the shape asked for, in the style in force',
     'However the requests to several builders are interleaved (nested ones, ones that share a pen table, ones that work on the same group), each accepted request adds exactly one '
     'member at the end of the builder\'s own group: a shape with the geometry asked for, in the pen of the kind asked for at that moment (the builder\'s default kind if '
     'none is named), closed as asked; a nested builder with an empty group, which inherits pen table and default kind unless given its own; or a copy of a shape turned about the '
     'centre of its box (and, when asked for, then a mark with the same pen at that centre). A refused or failing request adds nothing and changes nothing, and no request changes '
     'other members, the source of a copy, pen tables or other builders. Moving a point of the user later shows in the curves built on it and in no other shape. A pen table '
     'holds the documented pen for each kind; deriving one with another width leaves the original as it was.',
     ['schedules', 'histories', 'fault_sequences'],
     'For all interleavings of requests over several builders, tables and users, with moves of shared points, exchanged pens, refused requests and failing pens, tables, points and shapes.',
     'Tests build one fixed model and compare its text; they never share tables or points between builders, change a style half-way, or fail a request.',
     [M, C],
     [('one place that makes members', 'x7/geom/model.py: GroupBuilder.elem_any'), ('nested builder', 'x7/geom/model.py: GroupBuilder.group'),
      ('rotated copy', 'x7/geom/model.py: GroupBuilder.rotate_about_center'), ('pen tables', 'x7/geom/colors.py: PensByShape')],
     [('style in force', 'pen table and default kind of each builder', 'x7/geom/model.py: GroupBuilder'), ('members', 'shapes added so far', 'x7/geom/model.py: Group.elems')],
     ['attributes and outlines of members', 'pictures drawn', 'pen tables'])

# ------------------------------------------------------------- not applicable
NA = 'inputs'
prop('N01', 'Bounding boxes obey box algebra',
     'Union, intersection, containment, overlap, touching, growth and expansion of boxes agree with point-set meaning, including empty and coordinate-less boxes.',
     [NA], 'For all boxes and points.', 'Tests sample a few boxes; the claim is over all coordinates.',
     [G], [('box operations', 'x7/geom/geom.py: BBox')])
prop('N02', 'Point, vector and line arithmetic obey affine algebra',
     'Point/vector sums, differences, rotation, unit, normal, dot and cross products, closest point and line intersection satisfy the affine and metric identities, and refuse degenerate input.',
     [NA], 'For all finite coordinates.', 'Tests sample a few values.', [G], [('operators', 'x7/geom/geom.py: Vector, BasePoint, Line')])
prop('N03', 'Splitting and evaluating a cubic curve is exact',
     'Splitting a cubic at any parameter gives two cubics that trace the same curve, and sampled points lie on it from first to last end point.',
     [NA], 'For all control points and parameters.', 'Tests sample a few curves.', [B], [('de Casteljau, Bernstein sampling', 'x7/geom/bezier.py: bez_split, bez, bez_path')])
prop('N04', 'Curve intersections are found and lie on both curves',
     'Reported intersections of two curves lie on both, parameters match the points, and a self-intersecting closed outline is decomposed into simple outlines covering the same boundary.',
     [NA], 'For all pairs of cubics and closed outlines.', 'Tests sample a few shapes.', [B], [('intersection graph', 'x7/geom/bezier.py: bez_intersect, bez_self_intersect')])
prop('N05', 'Offsetting a curve moves each point by the offset along its normal',
     'An offset outline keeps the number of points and lies at the requested distance from the original at its control points, limited at sharp corners.',
     [NA], 'For all outlines and offsets.', 'Tests compare a few stored results.', [M], [('offset', 'x7/geom/model.py: ElemCurve.offset, offset_pt')])
prop('N06', 'A shape\'s box encloses its drawn curve',
     'The reported box of a shape contains everything it draws, through any own transform.',
     [NA], 'For all shapes and transforms.', 'Tests sample a few shapes.', [M], [('bbox', 'x7/geom/model.py: Elem.bbox, bbox_int')])
prop('N07', 'Generated ellipses, rounded rectangles and arcs have the promised geometry',
     'Generated outlines stay within the requested box, meet the stated radius, start and end where asked and run in the stated direction.',
     [NA], 'For all radii, angles and boxes.', 'Tests sample a few values.', [M, U], [('generators', 'x7/geom/model.py: make_rounded_rect_cps, make_ellipse_cps; x7/geom/utils.py: arc, arc2p, circle')])
prop('N08', 'Pens, brushes and colour tables follow the documented width and fill rules',
     'Positive pen widths are absolute, negative ones scale with the transform, and draft/production tables map shape kinds to the documented pens.',
     [NA], 'For all pens and tables.', 'Tests sample a few pens.', [C], [('policy', 'x7/geom/colors.py')])
prop('N09', 'Point lists parse unambiguously',
     'Mixed sequences of numbers, pairs and points parse to the same points in order, and malformed ones are refused.',
     [NA], 'For all sequences.', 'Tests sample a few lists.', [G, U], [('parser', 'x7/geom/geom.py: BasePoint.parse; x7/geom/utils.py: check_point_list')])
prop('N10', 'Images for GIF output have binary alpha and a palette of the common colours',
     'Shrunken frames have only fully opaque or fully clear pixels, and the shared palette holds the most frequent colours.',
     [NA], 'For all images.', 'There are no tests of these helpers.', [A, I], [('image helpers', 'x7/geom/anim.py: resize_for_gif, make_palette; x7/geom/imagehelp.py')])
prop('N11', 'Geometry test matchers accept close values and reject different ones',
     'Comparing points, vectors, control points, shapes or images in tests accepts exactly the values within tolerance.',
     [NA], 'For all value pairs.', 'Tests sample a few pairs.', [TE], [('matchers', 'x7/geom/testing.py: ExtendedMatcher*')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fp:
    for p in P:
        fp.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
