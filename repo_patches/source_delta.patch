From 345389337f201130268fb0ccdaf525011d08165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 01/54] fix: Transform.rotate_about must drop the cached
 inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From 93cae8659ebfcba7029b3fdbdcf83d6c8f6932db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 02/54] fix: VectorRelative.p raised AttributeError

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..9777364 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -119,7 +119,7 @@ class Vector(typing.SupportsRound):
 
     @property
     def p(self):
-        return Point(self._x, self._y)
+        return Point(*self.xy())
 
     def set(self, v: 'Vector') -> None:
         self._x, self._y = v.xy()
-- 
2.43.0


From 8e415be91ae7afe2c31cfdf42dca64767d95ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 03/54] fix: Group.iter_elems left the matrix changed when
 abandoned or failing

---
 x7/geom/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..e9bf440 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -950,13 +950,11 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push():
+            if self.xform:
+                matrix.compose(self.xform)
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From bf22e36399eeee1506b1d707f5c975a71f5e540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 04/54] fix: copies of shapes shared their transform with the
 original

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e9bf440..13faf05 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -580,7 +580,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -746,7 +746,7 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From 2e06661c88175738f19627a1012e9a32538deb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 05/54] fix: restoring a Group or ElemWithHoles shared the
 transform with, or did not restore the holes from, the snapshot

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 13faf05..ed5f835 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -900,7 +900,7 @@ class Group(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
@@ -1110,9 +1110,9 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 1d13d522d7fb22b76074436ca3d488cc412c8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 06/54] fix: a refused ElemCurve.restore had already changed
 name, pen and transform

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ed5f835..88f32bf 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -386,8 +386,8 @@ class ElemCurve(Elem):
 
     def restore(self, other: 'ElemCurve'):
         """Restore self from copy in other"""
-        super().restore(other)
         if len(self.control_points) == len(other.control_points):
+            super().restore(other)
             for cp, ocp in zip(self.control_points, other.control_points):
                 cp.restore(ocp)
         else:
-- 
2.43.0


From ec2b6fb0fb464b16cdab054b0ff0b8d92408227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 07/54] fix: Group.replace lost the element on a name conflict
 and moved the replacement to the end of the drawing order

---
 x7/geom/model.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 88f32bf..88812e1 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -981,18 +981,31 @@ class Group(Elem):
         else:
             return item
 
+    def check_replace(self, elem: Elem, replacement):
+        """Raise ValueError if .replace() is not possible, before anything has been changed"""
+        for name, e in self.elems.items():
+            if e == elem:
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+                if replacement.name != name and replacement.name in self.elems:
+                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
+                        replacement.name, self.name))
+            elif hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        self.check_replace(elem, replacement)
         count = 0
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
-                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
-                        replacement.name, self.name))
-                self.add(replacement.name, replacement)
+                # Rebuild instead of delete + add to keep the position in the drawing order
+                self.elems = {
+                    replacement.name if n == name else n: replacement if n == name else other
+                    for n, other in self.elems.items()
+                }
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
-- 
2.43.0


From cce309c0b713f0c679eb74048d0b5976c68b7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 08/54] fix: replacing any element failed in a model with an
 ElemWithHoles

---
 x7/geom/model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 88812e1..22c35c5 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1190,8 +1190,19 @@ class ElemWithHoles(Elem):
 
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
-        unused(elem, replacement)
-        raise NotImplementedError
+        count = 0
+        if self.outside == elem:
+            self.outside = replacement
+            count += 1
+        elif hasattr(self.outside, 'replace'):
+            count += self.outside.replace(elem, replacement)
+        for idx, e in enumerate(self.inside):
+            if e == elem:
+                self.inside[idx] = replacement
+                count += 1
+            elif hasattr(e, 'replace'):
+                count += e.replace(elem, replacement)
+        return count
 
 
 class GroupBuilder(object):
-- 
2.43.0


From 06e0e59a6089c143014418147d538b1ebd49366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 09/54] fix: ElemCurve.add_one changed the shape of open curves
 when the end points are furthest apart

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 22c35c5..cf584af 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -493,6 +493,8 @@ class ElemCurve(Elem):
         orig_len = len(self.control_points)
         cps = self.control_points
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        if not self.closed and len(dists) > 1:
+            dists.pop()     # No segment from last point to first point
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
-- 
2.43.0


From 779460019ae849c9784539c05328c41845da245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 10/54] fix: Animation.periodic and sin_cos multiplied the
 phase offset by t

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..f556ac4 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From 3616a5c3883ba59e89f8d68ad5c85547ff870825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 11/54] fix: SimpleAnimation.animate recorded every frame twice

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From d352685c2ba3f9731db1bc259bf062f5cfcdeeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 12/54] fix: SimpleAnimation recorded a partial frame when the
 drawing failed

---
 x7/geom/anim_simple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..ef3f68b 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -29,7 +29,8 @@ class StepContext(object):
         return self.dc
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.sa.finish_step(self.dc)
+        if exc_type is None:
+            self.sa.finish_step(self.dc)
 
 
 class SimpleAnimation(object):
-- 
2.43.0


From d2fd75821f0041e68d91d2a1fe3dca07e43a650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 13/54] fix: DumpContext.output could only be called once

---
 x7/geom/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index cf584af..6e01684 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -62,8 +62,7 @@ class DumpContext(object):
         for var_value, var_name in sorted(self.vars.items(), key=lambda it: (it[1], it[0])):
             var_lines.append('%s = %s' % (var_name, var_value))
         var_lines.append('')
-        self.lines[0] = 'model = ' + self.lines[0]
-        return '\n'.join(var_lines + self.lines)
+        return '\n'.join(var_lines + ['model = ' + self.lines[0]] + self.lines[1:])
 
     def prefix(self):
         return '    ' * self.depth
-- 
2.43.0


From ca33b14ba4b670f965fd2a28da301460d3471325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 14/54] fix: Group.dump lost hidden, points and the drawing
 order

---
 x7/geom/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6e01684..de3f618 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -940,9 +940,14 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
-            for name, elem in sorted(self.elems.items()):
+            for name, elem in self.elems.items():
                 elem.dump(context)
                 context.add_comma()
         context.append('])')
-- 
2.43.0


From 65cb6d7edd67a50c237faf316f829ebd4b579c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 15/54] fix: ElemWithHoles.dump wrote an outside that cannot be
 loaded

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index de3f618..50ce06d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1152,12 +1152,15 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, inside=list)
         with context:
             for elem in self.inside:
                 elem.dump(context)
                 context.add_comma()
-        context.append('])')
+        context.append('], outside=(')
+        with context:
+            self.outside.dump(context)
+        context.append('))')
         return context
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
-- 
2.43.0


From af519b116f7b32795bb260b2daeea91aa5a1403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 16/54] fix: PlotViewer without an update function used the
 example factory as update function

---
 x7/geom/plot_viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/plot_viewer.py b/x7/geom/plot_viewer.py
index 6330b77..55f51da 100644
--- a/x7/geom/plot_viewer.py
+++ b/x7/geom/plot_viewer.py
@@ -13,7 +13,7 @@ from matplotlib.axes import Axes                                    # noqa
 
 class PlotViewer:
     def __init__(self, update_func: Callable[[Axes], None], fps=60.0):
-        self.update_func = update_func or self.update_example
+        self.update_func = update_func or self.update_example()
         self.delay_ms = round(1000/fps)
         self.root = tk.Tk()
 
-- 
2.43.0


From 924c264b57b8d666f3024a56b761ec1f9f6b20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 17/54] fix: assertMatchPlot leaked plot settings and the
 figure when rendering or matching failed

---
 x7/geom/testing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..0246e7e 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -179,11 +179,15 @@ class PlotMatchContextManager:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         import matplotlib.pyplot as plt
-        new_data = fig_to_image(self.shrink)
-        plt.rcParams['axes.titley'] = self.titley
-        plt.rcParams['axes.titlepad'] = self.titlepad
-        msg = self.test_case.match(new_data, self.case, self.func, type(self.test_case))
-        plt.close()     # Close this figure, a la plt.show()
+        try:
+            try:
+                new_data = fig_to_image(self.shrink)
+            finally:
+                plt.rcParams['axes.titley'] = self.titley
+                plt.rcParams['axes.titlepad'] = self.titlepad
+            msg = self.test_case.match(new_data, self.case, self.func, type(self.test_case))
+        finally:
+            plt.close()     # Close this figure, a la plt.show()
         if isinstance(msg, Exception):
             raise msg
         if msg is not True:
-- 
2.43.0


From 0514cc95e7552fd26174143034615e7c5047b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 18/54] fix: VectorField kept interpolating old values after vx
 or vy was replaced

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 5fece85..22b3ea3 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -64,7 +64,7 @@ class VectorField(Transformer):
 
     def interp_coords(self, pts: NumpyArray):
         """Lookup/interpolate at all pts.  Return (vx-list, vy-list)"""
-        if not self.interp_x:
+        if not self.interp_x or self.interp_x.values is not self.vx or self.interp_y.values is not self.vy:
             coords = (self.mesh.coord_x, self.mesh.coord_y)
             rgi = scipy.interpolate.RegularGridInterpolator
             self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
-- 
2.43.0


From a9ba719a4d9c3cb2c880b334aa1c6d06a6715636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 19/54] fix: transform_pts failed for a VectorField, which
 yields (x, y) pairs

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..008e1cb 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From 8a04df77d909ad562ebb2cf39e792b6ea3bfc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 20/54] fix: building the GIF palette failed (cannot allocate
 more than 256 colors)

---
 x7/geom/anim.py      | 1 +
 x7/geom/imagehelp.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f556ac4..864da93 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -528,6 +528,7 @@ class Builder(object):
             print('make_palette: found %d colors' % len(colors))
         all_colors = list(reversed(sorted([(v, k) for k, v in colors.items()])))
 
+        im.palette.palette = bytearray()
         im.palette.colors = {}  # Start over on list of colors
         for count, color in all_colors[:256]:
             im.palette.getcolor(color)
diff --git a/x7/geom/imagehelp.py b/x7/geom/imagehelp.py
index c4836d4..36404cb 100644
--- a/x7/geom/imagehelp.py
+++ b/x7/geom/imagehelp.py
@@ -152,7 +152,7 @@ def palette_image(empty_image=False):
     """Return a 16-place palette image"""
     im = Image.new('P', (1024, 64))
     pal: ImagePalette.ImagePalette = im.palette
-    pal.palette = b'\x00' * 768
+    pal.palette = bytearray()
     pal.getcolor((0, 0, 0))
     pal.getcolor((255, 255, 255))
     if not empty_image:
-- 
2.43.0


From 1f9e1bce76b162f0c9bb748f9b2605985783eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 21/54] fix: saving an animation with an empty frame failed

---
 x7/geom/anim.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 864da93..2999b29 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -465,9 +465,13 @@ class Builder(object):
 
     def max_bbox(self, images=None):
         images = images or self.images
-        bb = images[0].getbbox()
-        for im in images[1:]:
-            bb = bbox_max(bb, im.getbbox())
+        bb = None
+        for im in images:
+            im_bb = im.getbbox()    # None for an empty image
+            if im_bb:
+                bb = bbox_max(bb, im_bb) if bb else im_bb
+        if bb is None:
+            bb = (0, 0) + images[0].size
         print('BBox max: %s %s over %d images' % (images[0].size, bb, len(images)))
         return bb
 
-- 
2.43.0


From 3f8a2836a092a380b3dd498eff47b0b07b5bb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 22/54] fix: Builder.save_animation optimized a fixed file
 instead of its output

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 2999b29..b6d0762 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -567,7 +567,7 @@ class Builder(object):
             images[0].save('/tmp/images.png')
             images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0)
             import pygifsicle
-            pygifsicle.optimize('/tmp/anim.gif', '/tmp/anim_opt.gif')
+            pygifsicle.optimize(output, '/tmp/anim_opt.gif')
             platform.quicklook('/tmp/anim_opt.gif')
         elif sys.platform == 'ios':
             # noinspection PyUnresolvedReferences,PyPackageRequirements
-- 
2.43.0


From 9932027f2b17da1197b181258078a713f5d40686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 23/54] fix: Builder.save_animation silently wrote nothing on
 Linux

---
 x7/geom/anim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index b6d0762..4fb1871 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -576,6 +576,8 @@ class Builder(object):
             writeGif(output, images, duration=ms_per_frame / 1000.0)
             # [im.resize((100,100)).show() for im in images]
             platform.quicklook(output)
+        else:
+            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0)
 
     def run(self, steps=10, output=None):
         self.build_all(steps=steps)
-- 
2.43.0


From 936d0481d0190bd3707a59b79e53950b69454ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 24/54] fix: MorphMultiStep changed the shape of open curves by
 rotating their points

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 4fb1871..9804cc5 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -357,7 +357,7 @@ class MorphMultiStep(Animation):
                 c.add_one()
             # TODO-make sure points are CCW
             # Rotate the so that lower left is 0
-            rotate = force
+            rotate = force and c.closed     # Rotating an open curve would change its shape
             if rotate:
                 bbox = c.bbox()
                 dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
-- 
2.43.0


From f35d7aa698bcea2d2bfd9284d2af9249933f7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 25/54] fix: recorded test data with derived points or vectors
 could not be reloaded

---
 x7/geom/testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 0246e7e..970ede6 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -27,7 +27,10 @@ class PicklerExtensionGeom(support.PicklerExtension):
 
     def __init__(self, pickler: support.Pickler):
         super().__init__(pickler)
-        self.primitives = (BBox, Point, Vector, ControlPoint, Pen, Brush, PenBrush, Transform)
+        self.primitives = (
+            BBox, Point, PointRelative, PointCalc, Vector, VectorRelative, ControlPoint,
+            Pen, Brush, PenBrush, Transform
+        )
         self.types = (Elem, )
 
     def methods(self):
-- 
2.43.0


From e85062172f70883805687fd354a2066c9a24e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 26/54] fix: shadow_draw reset a shadow color that was in
 effect before

---
 x7/geom/drawing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 4724383..8f6a994 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -98,6 +98,7 @@ class DrawingContext(object):
     def shadow_draw(self, model, color=(140, 140, 170, 255)):
         # TODO - just draw into an L image?
         draw = self.draw
+        shadow_color = self.shadow_color
         self.alloc_shadow()
         shadow_draw = ImageDraw.Draw(self.shadow)
         try:
@@ -106,7 +107,7 @@ class DrawingContext(object):
             model.draw(self)
         finally:
             self.draw = draw
-            self.shadow_color = None
+            self.shadow_color = shadow_color
 
         self.shadow = make_shadow(self.shadow)
 
-- 
2.43.0


From 4f3bedf577207ae985e6ea4039e8b9c2dc24f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 27/54] fix: drawing control points failed (x1 must be greater
 than or equal to x0)

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 50ce06d..7652df7 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -299,9 +299,9 @@ class Elem(ABC):
                     draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                     draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                     draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
-                    draw.draw.rectangle((cp.c + rad).xy() + (cp.c - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')
                 elif isinstance(cp, BasePoint):
-                    draw.draw.rectangle((cp + rad).xy() + (cp - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp - rad).xy() + (cp + rad).xy(), outline='red', fill='grey')
                 else:
                     raise TypeError('unknown control_path element: %r' % cp)
 
-- 
2.43.0


From 7190c2b6ad5fc3e92f63c7f4a85291b44e7e240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 28/54] fix: the box of an ElemWithHoles without holes failed
 (BBox is empty)

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 7652df7..f1cc1da 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1114,7 +1114,7 @@ class ElemWithHoles(Elem):
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-            assert bbox_outside.contains(bbox_inside)
+            assert not self.inside or bbox_outside.contains(bbox_inside)
         return bbox_outside
 
     def bbox_int_update(self, bbox: BBox, context=None):
-- 
2.43.0


From 3c862c1ab663da51af2a4d5d05f05602d58114ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 29/54] fix: an ElemWithHoles without a pen was drawn with a
 white outline

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index f1cc1da..3cce6f3 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -262,7 +262,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From 1c5f5ed2e70d165753847ef4869ac0e7edc35125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 30/54] fix: GroupBuilder.hide had no effect on what is drawn

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3cce6f3..ae1e9a7 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1337,6 +1337,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From 46c8c048846d3cfcceaec8e22ee47f4051d0fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 31/54] fix: copies and restored snapshots of a Group lost
 closed

---
 x7/geom/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ae1e9a7..5ad4156 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -895,11 +895,12 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
+        self.closed = other.closed
         self.hidden = other.hidden
         self.xform = other.xform.copy()
         self.elems = dict(other.elems)
@@ -907,7 +908,7 @@ class Group(Elem):
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From 4fb1719bb94a188bea2dc4cd04a79c5e026758fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 32/54] fix: ElemWithHoles.paths repeated the edges of a hole
 with several paths

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 5ad4156..6166923 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1083,8 +1083,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From d448e9dff33d9e97096a1613916b70c864365c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 33/54] fix: restoring from another kind of shape failed
 half-way

---
 x7/geom/model.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6166923..f58ceb1 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -585,9 +585,10 @@ class ElemP1P2(Elem, ABC):
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
+        p1, p2 = other.p1, other.p2     # Fails before anything has been changed if other has no such points
         super().restore(other)
-        self.p1.restore(other.p1)
-        self.p2.restore(other.p2)
+        self.p1.restore(p1)
+        self.p2.restore(p2)
 
     def transform_pts(self, matrix: Transform, points: PointList) -> Tuple[Transform, PointList]:
         """Helper for .transform(): return residual rotation matrix and transform points"""
@@ -751,10 +752,9 @@ class ElemRectangleRounded(ElemP1P2):
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
+        radius = other.radius           # Fails before anything has been changed if other is not rounded
         super().restore(other)
-        self.p1.restore(other.p1)
-        self.p2.restore(other.p2)
-        self.radius = other.radius
+        self.radius = radius
 
     def transform(self, matrix: Transform):
         """Return a copy of this shape transformed by matrix.  .transform(identity) is like .copy()"""
@@ -898,13 +898,12 @@ class Group(Elem):
         return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
 
     def restore(self, other: 'Group'):
-        self.name = other.name
-        self.penbrush = other.penbrush
-        self.closed = other.closed
-        self.hidden = other.hidden
-        self.xform = other.xform.copy()
-        self.elems = dict(other.elems)
-        self.points = dict(other.points)
+        # Fails before anything has been changed if other is not a Group
+        hidden, elems, points = other.hidden, dict(other.elems), dict(other.points)
+        super().restore(other)
+        self.hidden = hidden
+        self.elems = elems
+        self.points = points
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
@@ -1127,12 +1126,11 @@ class ElemWithHoles(Elem):
             [e.copy() for e in self.inside], self.closed, self.xform.copy())
 
     def restore(self, other: 'ElemWithHoles'):
-        self.name = other.name
-        self.penbrush = other.penbrush
-        self.closed = other.closed
-        self.xform = other.xform.copy()
-        self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in other.inside]
+        # Fails before anything has been changed if other is not an ElemWithHoles
+        outside, inside = other.outside.copy(), [e.copy() for e in other.inside]
+        super().restore(other)
+        self.outside = outside
+        self.inside = inside
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 784b28b6962d632a6cf08d6921f7dc4e404ca844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 34/54] fix: a morph replaced every equal shape, and removing
 it could put back the wrong one

---
 x7/geom/anim.py  |  8 ++++----
 x7/geom/model.py | 38 +++++++++++++++++++-------------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 9804cc5..e6594e1 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -305,7 +305,7 @@ class Morph(Animation):
         self.target = target
         self.t_func = t_func
         self.validate()
-        count = model.replace(self.orig, self.morph)
+        count = model.replace(self.orig, self.morph, exact=True)
         if not count:
             raise MorphError('Cannot find source in model')
 
@@ -339,7 +339,7 @@ class Morph(Animation):
                 m.setxy(*(o + t * (tgt - o)).xy())
 
     def restore(self):
-        self.model.replace(self.morph, self.orig)
+        self.model.replace(self.morph, self.orig, exact=True)
 
 
 class MorphMultiStep(Animation):
@@ -368,7 +368,7 @@ class MorphMultiStep(Animation):
 
         self.morph = self.all_curves[0].fixed()
         self.t_func = t_func
-        count = model.replace(self.orig, self.morph)
+        count = model.replace(self.orig, self.morph, exact=True)
         if not count:
             raise MorphError('Cannot find source in model')
 
@@ -408,7 +408,7 @@ class MorphMultiStep(Animation):
                 morph_pt.setxy(*(low_pt + t * (high_pt - low_pt)).xy())
 
     def restore(self):
-        self.model.replace(self.morph, self.orig)
+        self.model.replace(self.morph, self.orig, exact=True)
 
 
 # noinspection DuplicatedCode
diff --git a/x7/geom/model.py b/x7/geom/model.py
index f58ceb1..6272851 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -479,8 +479,8 @@ class ElemCurve(Elem):
         """Update shape based on changes to bounding box, resize/scale/translate as needed"""
         raise ValueError("Can't bbox_update a curve yet")
 
-    def replace(self, curve, replacement):
-        unused(self, curve, replacement)
+    def replace(self, curve, replacement, exact=False):
+        unused(self, curve, replacement, exact)
         return 0
 
     def add_one(self):
@@ -987,25 +987,25 @@ class Group(Elem):
         else:
             return item
 
-    def check_replace(self, elem: Elem, replacement):
+    def check_replace(self, elem: Elem, replacement, exact=False):
         """Raise ValueError if .replace() is not possible, before anything has been changed"""
         for name, e in self.elems.items():
-            if e == elem:
+            if e is elem or not exact and e == elem:
                 if '.' in replacement.name:
                     raise ValueError('name may not contain ".": %r' % replacement.name)
                 if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
             elif hasattr(e, 'check_replace'):
-                e.check_replace(elem, replacement)
+                e.check_replace(elem, replacement, exact)
 
-    def replace(self, elem: Elem, replacement):
-        """Replace this elem throughout the model.  Return count of replacements"""
+    def replace(self, elem: Elem, replacement, exact=False):
+        """Replace this elem (exact: this very object only) throughout the model.  Return count of replacements"""
 
-        self.check_replace(elem, replacement)
+        self.check_replace(elem, replacement, exact)
         count = 0
         for name, e in list(self.elems.items()):
-            if e == elem:
+            if e is elem or not exact and e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
                 # Rebuild instead of delete + add to keep the position in the drawing order
                 self.elems = {
@@ -1014,7 +1014,7 @@ class Group(Elem):
                 }
                 count += 1
             elif hasattr(e, 'replace'):
-                count += e.replace(elem, replacement)
+                count += e.replace(elem, replacement, exact)
         return count
 
     def add_pt(self, name, pt):
@@ -1196,20 +1196,20 @@ class ElemWithHoles(Elem):
         raise KeyError('%s: expected outside.%s or inside.{%s}, not %s' % (
             self.name, self.outside.name, ', '.join(e.name for e in self.inside), tag))
 
-    def replace(self, elem: Elem, replacement):
-        """Replace this elem throughout the model.  Return count of replacements"""
+    def replace(self, elem: Elem, replacement, exact=False):
+        """Replace this elem (exact: this very object only) throughout the model.  Return count of replacements"""
         count = 0
-        if self.outside == elem:
+        if self.outside is elem or not exact and self.outside == elem:
             self.outside = replacement
             count += 1
         elif hasattr(self.outside, 'replace'):
-            count += self.outside.replace(elem, replacement)
+            count += self.outside.replace(elem, replacement, exact)
         for idx, e in enumerate(self.inside):
-            if e == elem:
+            if e is elem or not exact and e == elem:
                 self.inside[idx] = replacement
                 count += 1
             elif hasattr(e, 'replace'):
-                count += e.replace(elem, replacement)
+                count += e.replace(elem, replacement, exact)
         return count
 
 
@@ -1362,10 +1362,10 @@ class GroupBuilder(object):
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         return self.the_group.iter_elems_transformed(root, matrix)
 
-    def replace(self, elem, replacement):
-        """Replace this elem throughout the model.  Return count of replacements"""
+    def replace(self, elem, replacement, exact=False):
+        """Replace this elem (exact: this very object only) throughout the model.  Return count of replacements"""
 
-        return self.the_group.replace(elem, replacement)
+        return self.the_group.replace(elem, replacement, exact)
 
 
 def gen_test_model_original() -> GroupBuilder:
-- 
2.43.0


From 0411d473e1ec626950d92ce9ba08fa2deb059f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 35/54] fix: MorphMultiStep split and rotated the target curves
 of the caller

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index e6594e1..2c72b59 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -348,7 +348,7 @@ class MorphMultiStep(Animation):
         super().__init__(Point(0, 0))
         self.model = model
         self.orig = source
-        all_steps, all_curves = zip(*([(0.0, source.copy())] + targets))
+        all_steps, all_curves = zip(*((t, c.copy()) for t, c in [(0.0, source)] + targets))
         self.all_curves: List[ElemCurve] = all_curves
         self.all_steps: List[float] = all_steps
         max_len = max(len(c.control_points) for c in self.all_curves)
-- 
2.43.0


From 464821356828b9bcc3e2866afb6db2f41e70370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 36/54] fix: a morph sharing its target with another one
 blended the wrong points

---
 x7/geom/anim.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 2c72b59..5e2a32a 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -294,12 +294,8 @@ class Morph(Animation):
         super().__init__(Point(0, 0))
         self.model = model
         if force:
-            if len(source.control_points) != len(target.control_points):
-                print('Force: source=%d target=%d' % (len(source.control_points), len(target.control_points)))
-            while len(source.control_points) < len(target.control_points):
-                source.add_one()
-            while len(target.control_points) < len(source.control_points):
-                target.add_one()
+            self.adjust(source, target)
+        self.force = force
         self.orig = source
         self.morph = source.fixed()
         self.target = target
@@ -309,6 +305,16 @@ class Morph(Animation):
         if not count:
             raise MorphError('Cannot find source in model')
 
+    @staticmethod
+    def adjust(source: ElemCurve, target: ElemCurve):
+        """Add control points until both have the same number"""
+        if len(source.control_points) != len(target.control_points):
+            print('Force: source=%d target=%d' % (len(source.control_points), len(target.control_points)))
+        while len(source.control_points) < len(target.control_points):
+            source.add_one()
+        while len(target.control_points) < len(source.control_points):
+            target.add_one()
+
     def validate(self):
         if len(self.orig.control_points) != len(self.target.control_points):
             raise MorphError('%s.#cp=%d %s.#cp=%d' % (
@@ -318,6 +324,11 @@ class Morph(Animation):
     def update(self, t):
         t = self.t_func(t)
 
+        if self.force and not len(self.orig.control_points) == len(self.target.control_points) == len(self.morph.control_points):
+            # Points have been added since, e.g. by another Morph with the same source or target
+            self.adjust(self.orig, self.target)
+            self.morph.control_points[:] = self.orig.fixed().control_points
+
         morph_cp = self.morph.control_points
         orig_cp = self.orig.control_points
         target_cp = self.target.control_points
-- 
2.43.0


From ee6047871382a641f4b0b8c2dd432874c3c44153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 37/54] fix: a morph created with force off blended the wrong
 points once its target had got more

---
 x7/geom/anim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 5e2a32a..0094cca 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -295,7 +295,6 @@ class Morph(Animation):
         self.model = model
         if force:
             self.adjust(source, target)
-        self.force = force
         self.orig = source
         self.morph = source.fixed()
         self.target = target
@@ -324,7 +323,7 @@ class Morph(Animation):
     def update(self, t):
         t = self.t_func(t)
 
-        if self.force and not len(self.orig.control_points) == len(self.target.control_points) == len(self.morph.control_points):
+        if not len(self.orig.control_points) == len(self.target.control_points) == len(self.morph.control_points):
             # Points have been added since, e.g. by another Morph with the same source or target
             self.adjust(self.orig, self.target)
             self.morph.control_points[:] = self.orig.fixed().control_points
-- 
2.43.0


From b078224f00bd76a4b3377ba18111a8ec698986b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 38/54] fix: a refused Group.add or add_pt left the refused
 object registered

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6272851..7b94d23 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -925,8 +925,8 @@ class Group(Elem):
             raise ValueError('name may not contain ".": %r' % name)
         if name in self.elems:
             raise ValueError('duplicate name: %r' % name)
+        elem.name = name    # Fails before anything has been registered if elem cannot be a member
         self.elems[name] = elem
-        elem.name = name
 
     def display(self, detail=1, prefix=''):
         print('%sElemGroup: %r %s' % (prefix, self.name, 'hidden' if self.hidden else 'visible'))
@@ -1020,8 +1020,8 @@ class Group(Elem):
     def add_pt(self, name, pt):
         assert name not in self.points
         assert '.' not in name
+        pt.name = name      # Fails before anything has been registered if pt cannot be named
         self.points[name] = pt
-        pt.name = name
         return pt
 
     def lookup_pt(self, name):
-- 
2.43.0


From 7cd423a631477fcc42adc9d6e00c9e3aab337a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 39/54] fix: Group.lookup found the group itself for the path
 of its member with an empty name

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 7b94d23..44710ba 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -979,7 +979,7 @@ class Group(Elem):
         if head not in self.elems:
             raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
         item = self.elems[head]
-        if tail:
+        if sep:
             if isinstance(item, Group):
                 return item.lookup(tail)
             else:
-- 
2.43.0


From a4ea2cf2aaf31c94f3fb3c48892dfe4523b7bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 40/54] fix: a filled ElemWithHoles with a group as hole could
 not be copied or transformed

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 44710ba..d5dae48 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1036,9 +1036,9 @@ class ElemWithHoles(Elem):
         super().__init__(name, penbrush, closed=closed, xform=xform)
         self.outside = outside
         self.inside = inside
-        self.outside.penbrush = penbrush
-        for elem in self.inside:
-            elem.penbrush = penbrush
+        for elem in [self.outside] + self.inside:
+            # Only closed shapes may be filled, e.g. a group cannot
+            elem.penbrush = penbrush if elem.closed else PenBrush(penbrush.pen, None)
 
     def __str__(self):
         return 'ElemWithHoles(%s, %s, [%s])' % (
-- 
2.43.0


From 21ba67c7031d0669d5f82dd56e3013f37349ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 41/54] fix: a replacement refused by a group within a hole
 left others already replaced

---
 x7/geom/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d5dae48..b9079f7 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1196,8 +1196,15 @@ class ElemWithHoles(Elem):
         raise KeyError('%s: expected outside.%s or inside.{%s}, not %s' % (
             self.name, self.outside.name, ', '.join(e.name for e in self.inside), tag))
 
+    def check_replace(self, elem: Elem, replacement, exact=False):
+        """Raise ValueError if .replace() is not possible, before anything has been changed"""
+        for e in [self.outside] + self.inside:
+            if not (e is elem or not exact and e == elem) and hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement, exact)
+
     def replace(self, elem: Elem, replacement, exact=False):
         """Replace this elem (exact: this very object only) throughout the model.  Return count of replacements"""
+        self.check_replace(elem, replacement, exact)
         count = 0
         if self.outside is elem or not exact and self.outside == elem:
             self.outside = replacement
-- 
2.43.0


From d5bb9bef5606a42bc75be7f419aeecf37e2f2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 42/54] fix: shapes with equal transforms shared one Transform
 after reloading a dump

---
 x7/geom/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b9079f7..1b80958 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -317,7 +317,10 @@ class Elem(ABC):
         basic = '%s(%r, %s, closed=%r, ' % (
             type(self).__name__, self.name, penbrush, self.closed)
         if self.xform != Transform():
+            shared = repr(self.xform) in dc.vars
             xform = dc.set_var(self.xform, 'xform')
+            if shared:
+                xform += '.copy()'      # Each shape has its own transform
             basic += 'xform=%s, ' % xform
         items = list(kwargs.items())
         if isinstance(items[-1][1], type):
-- 
2.43.0


From 5f47defcac5c65191962100484efda63089ac3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 43/54] fix: SimpleAnimation drew outside of the image unless
 draw_bbox was centered vertically

The y axis was flipped before the box was fitted, so that the fitted box was
(yl..yh) where the flipped one is (-yh..-yl).
---
 x7/geom/anim_simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index ef3f68b..bf73c9d 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -68,8 +68,8 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf = Transform().scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf.compose_outer(Transform.canvas_fit(self.image_size.xy()))
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From 1fd36f980dcd3059a3fd795b3401f2e2492ac0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:12 +0000
Subject: [PATCH 44/54] fix: an animation with a blank frame after another one
 was saved as a broken file

Pillow's GIF writer takes a frame without any difference to the background for
the first one, and repeats the file header and color table before it.  Browsers
stop there.
---
 x7/geom/anim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 0094cca..21eb204 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -572,6 +572,12 @@ class Builder(object):
         images_rgba = images
         palette = self.make_palette(images_rgba)
         images = [rgb_to_transparent(img, palette_image=palette) for img in images]
+        background = images[0].info['transparency']
+        for img in images[1:]:
+            if len(palette.palette.colors) > 1 and img.getextrema() == (background, background):
+                # Pillow repeats the file header in place of a frame that has only the background index, so use another one
+                img.info['transparency'] = 0 if background else 1
+                img.paste(img.info['transparency'], (0, 0) + img.size)
         if sys.platform == 'darwin':
             images_rgba[0].save('/tmp/images_rgba.png')
             images[0].save('/tmp/images.png')
-- 
2.43.0


From 9a5996a59a8057a1c45fbb37d543a633d6d229b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:54 +0000
Subject: [PATCH 45/54] fix: parts of the frames of a saved animation were
 missing

Pillow's GIF writer renumbers the colors of each frame to shrink its color
table, but then uses the old number of the transparent color to find what it
need not write.
---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 21eb204..85cf1b4 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -581,7 +581,7 @@ class Builder(object):
         if sys.platform == 'darwin':
             images_rgba[0].save('/tmp/images_rgba.png')
             images[0].save('/tmp/images.png')
-            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0)
+            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0, optimize=False)
             import pygifsicle
             pygifsicle.optimize(output, '/tmp/anim_opt.gif')
             platform.quicklook('/tmp/anim_opt.gif')
@@ -593,7 +593,7 @@ class Builder(object):
             # [im.resize((100,100)).show() for im in images]
             platform.quicklook(output)
         else:
-            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0)
+            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0, optimize=False)
 
     def run(self, steps=10, output=None):
         self.build_all(steps=steps)
-- 
2.43.0


From 0db9d058e0dcef058088bb23784b70efb82cd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 46/54] fix: an error within assertMatchPlot was hidden by the
 mismatch of the incomplete plot, or the plot recorded

---
 x7/geom/testing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 970ede6..0eb7cf4 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -182,6 +182,12 @@ class PlotMatchContextManager:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         import matplotlib.pyplot as plt
+        if exc_type is not None:
+            # The plot is incomplete: don't compare (or record) it, just let the error out
+            plt.rcParams['axes.titley'] = self.titley
+            plt.rcParams['axes.titlepad'] = self.titlepad
+            plt.close()
+            return
         try:
             try:
                 new_data = fig_to_image(self.shrink)
-- 
2.43.0


From fd80e138ac2c832bcbd9e59de7efe1aa06db076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 47/54] fix: VectorField.quiver drew each vector at the
 mirrored grid point

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 22b3ea3..89a0255 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -82,7 +82,7 @@ class VectorField(Transformer):
         return [(x+vx, y+vy) for (x, y), vx, vy in zip(np_pts, vx_vals, vy_vals)]
 
     def quiver(self, ax):                               # pragma: no cover
-        ax.quiver(self.mesh.x_grid, self.mesh.y_grid, self.vx, self.vy, units='xy', scale=0.1, color='red')
+        ax.quiver(self.mesh.x_grid, self.mesh.y_grid, self.vx.T, self.vy.T, units='xy', scale=0.1, color='red')
 
     def plot(self, title=None, ax=None):                # pragma: no cover
         if ax is None:
-- 
2.43.0


From 9ba44829664a6aae68d24acd7e44fdcfcd546e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:10 +0000
Subject: [PATCH 48/54] fix: a VectorField could not be used any more once
 preparing a lookup had failed

---
 x7/geom/vec_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 89a0255..f1d7a90 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -67,8 +67,9 @@ class VectorField(Transformer):
         if not self.interp_x or self.interp_x.values is not self.vx or self.interp_y.values is not self.vy:
             coords = (self.mesh.coord_x, self.mesh.coord_y)
             rgi = scipy.interpolate.RegularGridInterpolator
-            self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
-            self.interp_y = rgi(coords, self.vy, method='linear', bounds_error=False, fill_value=None)
+            interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
+            interp_y = rgi(coords, self.vy, method='linear', bounds_error=False, fill_value=None)
+            self.interp_x, self.interp_y = interp_x, interp_y
         return self.interp_x(pts), self.interp_y(pts)
 
     def lookup(self, x, y):
-- 
2.43.0


From 7698b8539c235693239994f5a3c67fe10fb7f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 49/54] fix: SimpleAnimation.save_animation reused the settings
 of an earlier save that could not open its file

---
 x7/geom/anim_simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index bf73c9d..f8ab5b2 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -91,7 +91,7 @@ class SimpleAnimation(object):
         if not output:
             output = TMP_ANIM
             print('Output to %r' % output)
-        images = self.images
+        images = [image.copy() for image in self.images]     # Pillow leaves its settings on an image if it cannot open the file
         ms_per_frame = int(self.frame_display_time * 1000)
         # palette = self.make_palette(images)
         # images = [rgb_to_transparent(img, palette_image=palette) for img in images]
-- 
2.43.0


From 564ee107908595a8c98393e572100fed4843a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 50/54] fix: the box of an ElemWithHoles ignored the transform
 of its outside

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1b80958..84af308 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1111,7 +1111,7 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
         if debug:
             bbox_inside = BBox(None)
-- 
2.43.0


From 594f3f94b618e03171af074ce089372664315ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 51/54] fix: a copy of a named point lost its name, so that a
 copied shape was not equal to its source

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 9777364..239665f 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -461,7 +461,7 @@ class Point(BasePoint):
 
     def copy(self) -> 'Point':
         """Return a copy of this point"""
-        return Point(self._x, self._y)
+        return Point(self._x, self._y, self.name)
 
     def restore(self, other: BasePoint):
         self._x, self._y = other.xy()
-- 
2.43.0


From 6aa2268097f8eda17f0cd3782379e3f5ed87fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 52/54] fix: the fixed copy of a plain named point was renamed,
 so that copied and reloaded shapes were not equal

---
 x7/geom/geom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 239665f..0b3c9f1 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -463,6 +463,10 @@ class Point(BasePoint):
         """Return a copy of this point"""
         return Point(self._x, self._y, self.name)
 
+    def fixed(self) -> 'Point':
+        # Nothing to detach from, so this is still the same named point
+        return self.copy()
+
     def restore(self, other: BasePoint):
         self._x, self._y = other.xy()
 
-- 
2.43.0


From dd140302ebabd9799eb06c11362924303598838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 53/54] fix: a Group made with points kept the dict of the
 caller, so that groups made with one dict shared later points

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 84af308..e88430d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -832,7 +832,7 @@ class Group(Elem):
         super().__init__(name, penbrush, closed=closed, xform=xform)
         self.elems: Dict[str, Elem] = {}
         self.hidden = hidden
-        self.points: Dict[str, BasePoint] = points or {}
+        self.points: Dict[str, BasePoint] = dict(points or {})
         if elems:
             if isinstance(elems, (list, tuple)):
                 for elem in elems:
-- 
2.43.0


From 37420806eae1b319e9f1df4b24d1f1e32d853b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 54/54] fix: ElemCurve.add_one changed the shape of curves of a
 single point

---
 x7/geom/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e88430d..8326b78 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -494,6 +494,12 @@ class ElemCurve(Elem):
         # Figure out where
         orig_len = len(self.control_points)
         cps = self.control_points
+        if orig_len == 1 and not self.closed:
+            # No segment to split: add one of no length
+            cp = cps[0]
+            cps.append(ControlPoint(cp.c.copy(), Vector(), cp.dr, cp.kind))
+            cp.dr = Vector()
+            return
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
         if not self.closed and len(dists) > 1:
             dists.pop()     # No segment from last point to first point
@@ -504,6 +510,8 @@ class ElemCurve(Elem):
         l, m, r = bez_split(cps[left], cps[right])
         cps[left].restore(l)
         cps[right].restore(r)
+        if left == right:
+            cps[left].dr = l.dr     # A loop from a single point: both of its handles change
         cps.insert(right, m)
         assert orig_len + 1 == len(self.control_points)
 
-- 
2.43.0

