From 183ea192809dbfd964df05e88dfab416dfa22314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 001/112] fix: apply outer transformations to 2D hull

---
 src/hob3l/csg3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..b94024f 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1802,6 +1802,9 @@ static bool csg3_from_hull(
         cp_v_push(&q->point_idx, i);
     }
 
+    /* the children were in a fresh coordinate system: in-place xform */
+    xform_2d(m, p);
+
     cp_v_push(r, cp_obj(p));
 
     return true;
-- 
2.43.0


From 01d473e785d985e497a6bc5ed1438f18950bc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 002/112] fix: apply outer transformations to
 projection(cut=true)

---
 src/hob3l/csg3.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index b94024f..b8186e1 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1163,9 +1163,18 @@ static bool csg3_from_projection(
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3_init_tree(csg3, s->loc);
 
-    /* start with fresh matrix in 2D space */
+    /* Only the 2D part of the outer matrix may be applied before cutting,
+     * because the cut is in the XY plane of the projection's children. */
+    cp_mat3w_t m2 = CP_MAT3W(
+        m->mat->n.b.m[0][0], m->mat->n.b.m[0][1], 0, m->mat->n.w.v[0],
+        m->mat->n.b.m[1][0], m->mat->n.b.m[1][1], 0, m->mat->n.w.v[1],
+        0, 0, 1, 0);
+    cp_mat3wi_t *m1 = mat_new(c->tree);
+    if (!cp_mat3wi_from_mat3w(m1, &m2)) {
+        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+    }
     local_t mn = *m;
-    mn.mat = the_unit(c->tree);
+    mn.mat = m1;
     if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
-- 
2.43.0


From e117614d30e548865235ee8414529fb632a87b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 003/112] fix: intersection with an empty, non-ignored child is
 empty (and no assertion failure)

---
 src/hob3l/csg3.c | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index b8186e1..aec3ddf 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -217,17 +217,16 @@ static bool csg3_from_difference(
 
 static void csg3_cut_push_add(
     cp_v_csg_add_p_t *cut,
-    cp_v_obj_p_t *add)
+    cp_v_obj_p_t *add,
+    cp_loc_t loc)
 {
-    if (add->size > 0) {
-        cp_csg_add_t *a = cp_csg_new(*a, cp_v_nth(add,0)->loc);
+    cp_csg_add_t *a = cp_csg_new(*a, loc);
 
-        a->add = *add;
+    a->add = *add;
 
-        cp_v_push(cut, a);
+    cp_v_push(cut, a);
 
-        CP_ZERO(add);
-    }
+    CP_ZERO(add);
 }
 
 static bool csg3_from_intersection(
@@ -239,24 +238,34 @@ static bool csg3_from_intersection(
 {
     cp_v_csg_add_p_t cut = CP_V_INIT;
 
-    /* each child is a union */
-    cp_v_obj_p_t add = CP_V_INIT;
+    /* Each child is a union.  Like for 'difference', children that are
+     * ignored, like 'group() {}', do not count, while children that are
+     * not ignored, but render empty, make the intersection empty. */
     for (cp_v_each(i, &s->child)) {
-        csg3_cut_push_add(&cut, &add);
-        if (!csg3_from_scad(no, &add, c, m, cp_v_nth(&s->child, i))) {
+        bool add_no = false;
+        cp_scad_t const *ch = cp_v_nth(&s->child, i);
+        cp_v_obj_p_t add = CP_V_INIT;
+        if (!csg3_from_scad(&add_no, &add, c, m, ch)) {
             assert(c->err->msg.size > 0);
             return false;
         }
+        if (add_no) {
+            *no = true;
+        }
+        if (add_no || (add.size > 0)) {
+            csg3_cut_push_add(&cut, &add, (add.size > 0) ? cp_v_nth(&add,0)->loc : ch->loc);
+        }
     }
 
     if (cut.size == 0) {
-        cp_v_append(r, &add);
-        cp_v_fini(&add);
         return true;
     }
 
-    csg3_cut_push_add(&cut, &add);
-    assert(cut.size >= 2);
+    if (cut.size == 1) {
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        cp_v_fini(&cut);
+        return true;
+    }
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
     cp_v_push(r, cp_obj(o));
-- 
2.43.0


From 981e2fa030898cee15525e7277a7bdb78ecb82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 004/112] fix: report unknown color names instead of
 dereferencing NULL

---
 src/hob3l/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..cc777a7 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -81,6 +81,9 @@ extern bool cp_color_by_name(
 
     /* by name */
     color_value_t const *c = color_find(name, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From fd043e46eed08e23cfa2c9435f4158aadf823e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 005/112] fix: report non-array matrix parameter instead of
 failing an assertion

---
 src/hob3l/scad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..f62ec9f 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
-- 
2.43.0


From 45fbbb8a929607b0251579a691284991d5613792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 006/112] fix: do not drop the parameters that follow an
 unknown one

---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index f62ec9f..baecfbe 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -741,8 +741,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From d5ba1011124a579d802c4aca7b09421419693ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 007/112] fix: report unimplemented 'use' instead of aborting

---
 src/hob3l/scad.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index baecfbe..e9de574 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1598,11 +1598,11 @@ static bool v_scad_from_syn_stmt_item(
 }
 
 static bool v_scad_from_syn_stmt_use(
-    ctxt_t *t CP_UNUSED,
+    ctxt_t *t,
     cp_v_scad_p_t *result CP_UNUSED,
-    cp_syn_stmt_use_t *f CP_UNUSED)
+    cp_syn_stmt_use_t *f)
 {
-    CP_NYI("`use <...>`");
+    return msg_fail(t, f->loc, NULL, "`use <...>` is not implemented.");
 }
 
 static bool v_scad_from_syn_stmt(
-- 
2.43.0


From 0c032d1c1fcbf8dade21b9cae18b7794a95154c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 008/112] fix: sphere must not shrink the bounding box

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index aec3ddf..02ebce0 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -483,7 +483,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From 8aba9eb273ae0ebe859a64f373fc3f0be7581861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 009/112] fix: bounding box of intersection must consider all
 children

---
 src/hob3l/csg3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 02ebce0..229bf45 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2400,12 +2400,12 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
             if (!cp_vec3_minmax_valid(&bb2)) {
-                break;
+                return;
             }
         }
         cp_vec3_minmax_or(bb, bb, &bb2);
-- 
2.43.0


From 7412286c4446016ab76b0307109ce1fb95a6fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 010/112] fix: report unimplemented 'surface' instead of
 aborting

---
 src/hob3l/csg3.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 229bf45..5d3ee46 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1008,8 +1008,7 @@ static bool csg3_from_surface(
 
     (void)r;
     (void)m;
-    CP_NYI("surface");
-    return false;
+    return msg(c, CP_ERR_FAIL, s->loc, NULL, "'surface' is not implemented.");
 }
 
 static bool csg3_from_text(
-- 
2.43.0


From 8eea10a5424b350b56b646b069033e26b954b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 011/112] fix: do not lose side walls at points where more than
 two edges meet

---
 src/hob3lop/op-trianglify.c | 44 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/hob3lop/op-trianglify.c b/src/hob3lop/op-trianglify.c
index c51a5cd..0fd1cbe 100644
--- a/src/hob3lop/op-trianglify.c
+++ b/src/hob3lop/op-trianglify.c
@@ -65,31 +65,33 @@ static inline edge_t *tri_edge_new(
     return e;
 }
 
+/**
+ * Whether the edge of v is an original edge and ends in the given point
+ */
+static inline bool vertex_is_outline(
+    vertex_t *v,
+    vertex_t *to)
+{
+    return (v != NULL) && !edge_of(v)->inner && (other_end(v)->point_idx == to->point_idx);
+}
+
+/**
+ * Whether the connection p--q is an original edge.
+ *
+ * This compares the ends by point index, because more than two
+ * vertices may meet in one point (e.g., if an improper END is
+ * followed by a BEND in the same point), so that the edge may end
+ * in a vertex that is neither p/q nor the equal buddy of p/q.
+ */
 static bool edge_is_outline(
     vertex_t *p,
     vertex_t *q)
 {
-    edge_t *e = edge_of(p);
-    if (e == edge_of(q)) {
-        return !e->inner;
-    }
-    vertex_t *w = vertex_eq_buddy(q);
-    if (w && (e == edge_of(w))) {
-        return !e->inner;
-    }
-
-    p = vertex_eq_buddy(p);
-    if (p) {
-        e = edge_of(p);
-        if (e == edge_of(q)) {
-            return !e->inner;
-        }
-        if (w && (e == edge_of(w))) {
-            return !e->inner;
-        }
-    }
-
-    return false;
+    return
+        vertex_is_outline(p, q) ||
+        vertex_is_outline(vertex_eq_buddy(p), q) ||
+        vertex_is_outline(q, p) ||
+        vertex_is_outline(vertex_eq_buddy(q), p);
 
 #if 0
     /* this does not work because the 'LEFT' and 'RIGT' stuff does not reflect
-- 
2.43.0


From e66cff74692cb85d7365caf3bdf477f96ded2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 012/112] fix: no false overflow in wide by normal width
 division

---
 src/hob3lop/matq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lop/matq.c b/src/hob3lop/matq.c
index 079f774..34fd0e1 100644
--- a/src/hob3lop/matq.c
+++ b/src/hob3lop/matq.c
@@ -103,7 +103,7 @@ extern cq_divmod_t cq_divmodx(
         .div = (cq_dim_t)(x / d),
         .mod = (cq_dim_t)(x % d)
     };
-    if ((v.mod + (v.div * d)) != x) {
+    if ((v.mod + ((cq_dimw_t)v.div * d)) != x) {
         cq_fail("overflow in divide");
     }
     if (v.mod >= 0) {
-- 
2.43.0


From 3b8a4b20406a7001918d5f717ad996486eeeaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 013/112] fix: reject rotation about a zero length axis

---
 src/hob3l/csg3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 5d3ee46..4818ca7 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -396,6 +396,9 @@ static bool csg3_from_rotate(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (s->around_n) {
+        if (cp_vec3_has_len0(&s->n)) {
+            return msg(c, CP_ERR_FAIL, s->loc, NULL, "Rotation axis vector has length zero.\n");
+        }
         cp_mat3wi_rot_v(m1, &s->n, &CP_SINCOS_DEG(s->a));
     }
     else {
-- 
2.43.0


From 3c79c11bbf18e9c2c8966a9dc6cdc5334d773a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 014/112] fix: accept matrix rows with two entries as
 documented

---
 src/hob3l/scad.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index e9de574..5dce9ce 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -612,6 +612,12 @@ static bool get_mat4(
     for (cp_size_each(y, a->value.size)) {
         cp_syn_value_t const *l = cp_v_nth(&a->value, y);
         cp_syn_value_array_t const *la = cp_syn_try_cast(*a, l);
+        if ((la != NULL) && (la->value.size == 2)) {
+            if (!get_vec2(&r->row[y].b.b, t, l)) {
+                return false;
+            }
+        }
+        else
         if ((la != NULL) && (la->value.size == 3)) {
             if (!get_vec3(&r->row[y].b, t, l)) {
                 return false;
-- 
2.43.0


From 3a718b16a0fa2e8aad028f4fb78594fbb45062f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 015/112] fix: --help names the actual default of --max-fn

---
 src/hob3l/opt.switch | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 34454fa..bdfad95 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -73,7 +73,7 @@ case "z": dim &opt->z_min {
 }
 
 case "max-fn": uint32 &opt->csg.max_fn {
-    "maximum value of $fn for treating round objects as polyhedra (default: 50).";
+    "maximum value of $fn for treating round objects as polyhedra (default: 100).";
     "At $fn values larger than this, spheres will be sliced into circles";
     "and not converted to polyhedra.";
     "Currently, because no output format has circular arc structures, no attempt";
-- 
2.43.0


From 8d8b356f7ecec486f1b7c20dd1c8b93d4186c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 016/112] fix: search extrusions, hulls and projections for the
 ! object

---
 src/hob3l/csg3.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4818ca7..38d8285 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2180,11 +2180,19 @@ static bool csg3_from_scad(
         case CP_SCAD_UNION:
         case CP_SCAD_DIFFERENCE:
         case CP_SCAD_INTERSECTION:
+            return csg3_from_rec(no, r, c, m, cp_scad_cast(cp_scad_rec_t, s));
+
         case CP_SCAD_LINEXT:
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_linext_t, s)->child);
+
         case CP_SCAD_ROTEXT:
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_rotext_t, s)->child);
+
         case CP_SCAD_HULL:
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_hull_t, s)->child);
+
         case CP_SCAD_PROJECTION:
-            return csg3_from_rec(no, r, c, m, cp_scad_cast(cp_scad_rec_t, s));
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_projection_t, s)->child);
 
         /* modifiers: treat them normally */
         case CP_SCAD_TRANSLATE:
-- 
2.43.0


From 883f1f1dd6c6a7bc6924a87798a4d57b14bcb032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 017/112] fix: escape quotes in the group names of JS output

---
 src/hob3l/csg2-2js.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index e3e5e02..7c23b34 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -91,8 +91,11 @@ static void scene_flush(
                 while (*e && !is_sep(*e)) {
                     e++;
                 }
-                cp_printf(s, "'%.*s':true,", (int)(e - g), g);
-                g = e;
+                cp_printf(s, "'");
+                for (; g < e; g++) {
+                    cp_printf(s, "%s%c", ((*g == '\'') || (*g == '\\')) ? "\\" : "", *g);
+                }
+                cp_printf(s, "':true,");
             }
         }
         cp_printf(s, "},\n");
-- 
2.43.0


From ae2b512e5e2d3f23a864d8f6f076405fb125a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 018/112] fix: print scale and matrix of JS output with full
 precision

---
 src/hob3l/csg2-2js.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index 7c23b34..b639bfb 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -99,15 +99,15 @@ static void scene_flush(
             }
         }
         cp_printf(s, "},\n");
-        cp_printf(s, "   'scaleV':%16g,\n", 1000.0 * PT_GRAN);
+        cp_printf(s, "   'scaleV':%.17g,\n", 1000.0 * PT_GRAN);
         cp_printf(s, "   'scaleC':255,\n");
         cp_printf(s, "   'shiftI':%u,\n", SHIFT_I);
 
         if (c->tree->root_xform != NULL) {
             cp_mat3w_t const *n = &c->tree->root_xform->n;
             cp_printf(s,
-                "   'xform':[%16g,%16g,%16g,0, %16g,%16g,%16g,0, "
-                "%16g,%16g,%16g,0, %16g,%16g,%16g,1],\n",
+                "   'xform':[%.17g,%.17g,%.17g,0, %.17g,%.17g,%.17g,0, "
+                "%.17g,%.17g,%.17g,0, %.17g,%.17g,%.17g,1],\n",
                 n->b.m[0][0], n->b.m[1][0], n->b.m[2][0],
                 n->b.m[0][1], n->b.m[1][1], n->b.m[2][1],
                 n->b.m[0][2], n->b.m[1][2], n->b.m[2][2],
-- 
2.43.0


From 882a941275bdba63eb1c74df105f6b27c04ce55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 019/112] fix: print modifiers and plain blocks in syntax tree
 dump

The dump dropped the modifiers and printed a { } block as '{() {',
which cannot be read back.
---
 src/hob3l/syn-2scad.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn-2scad.c b/src/hob3l/syn-2scad.c
index 6a0fed3..912dc6f 100644
--- a/src/hob3l/syn-2scad.c
+++ b/src/hob3l/syn-2scad.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 #include <hob3l/syn.h>
+#include <hob3l/gc.h>
 #include "internal.h"
 
 static void cp_syn_stmt_put_scad(
@@ -84,7 +85,9 @@ static void cp_syn_stmt_item_put_scad(
     cp_syn_stmt_item_t *f)
 {
     cp_printf(s, "%*s", d, "");
-    if (f->functor != NULL) {
+    cp_gc_modifier_put_scad(s, f->modifier);
+    bool block = (f->functor != NULL) && (f->functor[0] == '{');
+    if ((f->functor != NULL) && !block) {
         cp_printf(s, "%s(", f->functor);
         for (cp_v_each(i, &f->arg)) {
             cp_syn_arg_t const *a = f->arg.data[i];
@@ -98,7 +101,7 @@ static void cp_syn_stmt_item_put_scad(
         }
         cp_printf(s, ")");
     }
-    if (f->body.size == 0) {
+    if ((f->body.size == 0) && !block) {
         cp_printf(s, ";\n");
         return;
     }
-- 
2.43.0


From 02b9677371ce90cc0cd15915951cb95a7b9cf757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 020/112] fix: make SCAD tree dump of color, import, surface
 and rotate_extrude readable

color without a valid colour lacked the mandatory 'c', import and surface
printed an unknown parameter 's' instead of 'file' (and import dropped
layer, id, center, and dpi), and the angle had only 6 digits.
---
 src/hob3l/scad-2scad.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 4cb6818..b1b1a6d 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -82,7 +82,7 @@ static void rotext_put_scad(
     cp_scad_rotext_t const *r)
 {
     cp_printf(s, "rotate_extrude("
-        "angle=%g"
+        "angle="FF""
         ", $fn=%u, $fa=%g, $fs=%g"
         "){\n", r->angle,
         r->detail._fn, r->detail._fa, r->detail._fs);
@@ -113,7 +113,7 @@ static void color_put_scad(
             r->rgba.a/255.0);
     }
     else {
-        cp_printf(s, "color(alpha=%.3g){\n",
+        cp_printf(s, "color(c=undef,alpha=%.3g){\n",
             r->rgba.a/255.0);
     }
     v_scad_put_scad(s, d + IND, &r->child);
@@ -124,10 +124,17 @@ static void import_put_scad(
     cp_stream_t *s,
     cp_scad_import_t const *r)
 {
-    cp_printf(s, "import(s=\"%s\""
+    cp_printf(s, "import(file=\"%s\"", r->file_tok);
+    if (r->layer != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer);
+    }
+    if (r->id_tok != NULL) {
+        cp_printf(s, ", id=\"%s\"", r->id_tok);
+    }
+    cp_printf(s, ", center=%s, dpi="FF
         ", $fn=%u, $fa=%g, $fs=%g"
         ");\n",
-        r->file_tok,
+        r->center ? "true" : "false", r->dpi,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
@@ -135,7 +142,7 @@ static void surface_put_scad(
     cp_stream_t *s,
     cp_scad_surface_t const *r)
 {
-    cp_printf(s, "surface(s=\"%s\",center=%s);\n",
+    cp_printf(s, "surface(file=\"%s\",center=%s);\n",
         r->file_tok, r->center?"true":"false");
 }
 
-- 
2.43.0


From 98963aaa58e78c284e46489e714b0e90278e3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 021/112] fix: make CSG3 dump of models with a ! modifier
 readable

The modifier was printed at each leaf, which is rejected as 'Multiple !'
when read, and spheres had an unknown parameter 'center'.
---
 src/hob3l/csg3-2scad.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3-2scad.c b/src/hob3l/csg3-2scad.c
index d944c2f..fd51570 100644
--- a/src/hob3l/csg3-2scad.c
+++ b/src/hob3l/csg3-2scad.c
@@ -30,15 +30,26 @@ static void mat3wi_put_scad(
         b->m[2][0], b->m[2][1], b->m[2][2], w->v[2]);
 }
 
+/**
+ * The '!' modifier is not printed: it has been applied already (only its
+ * subtree is left), and it may be inherited by many objects, while only one
+ * may be marked in an input file. */
+static void modifier_put_scad(
+    cp_stream_t *s,
+    unsigned modifier)
+{
+    cp_gc_modifier_put_scad(s, modifier & ~(unsigned)CP_GC_MOD_EXCLAM);
+}
+
 static void sphere_put_scad(
     cp_stream_t *s,
     int d,
     cp_csg3_sphere_t *r)
 {
     cp_printf(s, "%*s", d,"");
-    cp_gc_modifier_put_scad(s, r->gc.modifier);
+    modifier_put_scad(s, r->gc.modifier);
     mat3wi_put_scad(s, r->mat);
-    cp_printf(s, " sphere(r=1,center=true,$fn=%"CP_Z"u);\n",
+    cp_printf(s, " sphere(r=1,$fn=%"CP_Z"u);\n",
         r->_fn);
 }
 
@@ -99,7 +110,7 @@ static void poly_put_scad(
     cp_csg3_poly_t *r)
 {
     cp_printf(s, "%*s", d,"");
-    cp_gc_modifier_put_scad(s, r->gc.modifier);
+    modifier_put_scad(s, r->gc.modifier);
     cp_printf(s, "polyhedron(");
     cp_printf(s, "points=[");
     for (cp_v_each(i, &r->point)) {
-- 
2.43.0


From 16aa55ca15354e771f1f9767ddee66dac3d1c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 022/112] fix: accept CSS3 colour names in any letter case

The documentation refers to CSS3, where colour names are case-insensitive.
---
 src/hob3l/gc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index cc777a7..7692491 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -79,8 +79,16 @@ extern bool cp_color_by_name(
         return true;
     }
 
-    /* by name */
-    color_value_t const *c = color_find(name, len);
+    /* by name: CSS3 colour names are case-insensitive */
+    char lower[sizeof(((color_value_t const *)NULL)->name)];
+    if (len >= sizeof(lower)) {
+        return false;
+    }
+    for (size_t i = 0; i < len; i++) {
+        char c = name[i];
+        lower[i] = ((c >= 'A') && (c <= 'Z')) ? (char)(c + ('a' - 'A')) : c;
+    }
+    color_value_t const *c = color_find(lower, len);
     if (c == NULL) {
         return false;
     }
-- 
2.43.0


From 0ddbee8035a6cfea03bd32b22c3a1b40b881f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 023/112] fix: do not skip the line after 'solid' without a
 name

If no name followed 'solid' or 'endsolid', the next line was skipped, so
that valid STL files were rejected, and garbage after 'endsolid' could be
accepted.
---
 src/hob3l/stl-parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..7d9dd76 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,6 +180,9 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
+    /* the character after the keyword was overwritten by '\0', but is still in
+     * lex_cur: if it ends the line, the rest of the line is empty */
+    bool empty = (p->lex_cur == '\n');
     lex_next(p);
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
@@ -187,7 +190,7 @@ static void tok_next_line(parse_t *p)
     p->tok_string = p->lex_string;
     p->tok_loc = p->lex_string;
 
-    while ((*p->lex_string != '\n') && (*p->lex_string != '\0')) {
+    while (!empty && (*p->lex_string != '\n') && (*p->lex_string != '\0')) {
         lex_next(p);
     }
     p->tok_type = T_STRING;
-- 
2.43.0


From 35bc565ca16ae4b258c1dd281a2152580341f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 024/112] fix: reject malformed numbers in STL files

E.g., '-', '.', '1e', and 1e999 were read as 0, 0, 1, and infinity.
---
 src/hob3l/stl-parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 7d9dd76..a6e10ca 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -336,7 +336,12 @@ static bool parse_float(
     parse_t *p,
     cp_f_t *v)
 {
-    *v = strtod(p->tok_string, NULL);
+    char *end = NULL;
+    *v = strtod(p->tok_string, &end);
+    if ((p->tok_type == T_FLOAT) && ((end != p->lex_string) || !isfinite(*v))) {
+        cp_vchar_printf(&p->err->msg, "Malformed number '%s'.\n", p->tok_string);
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From 3f196c9860296eebb42157c57baefe5c91bd8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 025/112] fix: read binary STL files whose header starts with
 'solid'

Many programs write such headers.  The file was taken for a text file and
rejected.
---
 src/hob3l/stl-parse.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index a6e10ca..d70d446 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -632,6 +632,22 @@ static bool parse_bin(
 
 /* ********************************************************************* */
 
+/**
+ * Whether the triangle count at offset 80 exactly explains the file size.
+ */
+static bool is_bin(
+    cp_syn_file_t *file)
+{
+    if (file->content.size < 84) {
+        return false;
+    }
+    size_t cnt = 0;
+    for (cp_size_each(i, 4)) {
+        cnt |= (size_t)(unsigned char)file->content.data[80 + i] << (8 * i);
+    }
+    return ((file->content.size - 84) % 50 == 0) && ((file->content.size - 84) / 50 == cnt);
+}
+
 /**
  * Parse an STL file into a CSG3 polyhedron.
  */
@@ -654,6 +670,11 @@ extern bool cp_stl_parse(
     };
     stl_start_file(&p, file);
 
+    /* binary STL files may also start with 'solid', so check the size first */
+    if (is_bin(file)) {
+        return parse_bin(&p);
+    }
+
     /* check for text STL */
     if ((file->content.size >= 5) &&
         (memcmp(file->content.data, "solid", 5) == 0))
-- 
2.43.0


From a7a0a457316acbb5fbd3621f15c9bc550f7270c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 026/112] fix: do not take the line after 'endsolid' for the
 name

The first word after 'endsolid' was scanned as a token, so that one line of
garbage was accepted, while names like '1.2.3' were rejected.
---
 src/hob3l/stl-parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index d70d446..dac2ec8 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -450,8 +450,9 @@ static bool parse_solid(
             return false;
         }
     }
-    if (!expect_err(p, K_ENDSOLID)) {
-        return false;
+    /* do not scan a token yet: the rest of the line is the name */
+    if (p->tok_type != K_ENDSOLID) {
+        return expect_err(p, K_ENDSOLID);
     }
     tok_next_line(p);
     tok_next(p);
-- 
2.43.0


From 3558d528464729b4dac12cb97508c275ba87f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 027/112] fix: insert elements of a vector in front of
 themselves

Inserting a part of a vector into the same vector at or shortly before
its own position failed an assertion, because the case distinction took
the end of the gap instead of its start.
---
 src/hob3lbase/vec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..843cb81 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
-- 
2.43.0


From 2ccd9401edfc0a676655c15542bc2d385da8e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 028/112] fix: insert elements of a vector in between
 themselves

The assertion was the wrong way round: the source starts before the gap,
so it also ends before the end of the gap.
---
 src/hob3lbase/vec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 843cb81..94b2921 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -327,7 +327,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
+            assert(src_end < dst_end);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From 8c5419099cc9f23a0825ee3fcf92d80511a15d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 029/112] fix: do not count one element too many after making a
 heap

The loop variable is the size of the vector itself, which was left one
above the real size.
---
 src/hob3lbase/vec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 94b2921..9e502e0 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -577,6 +577,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From ecdf7bbdaa7d40faffafd7687e5417dcf2791667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 030/112] fix: do not count one element too many after making
 an indexed heap

The loop variable is the size of the vector itself, which was left one
above the real size.
---
 src/hob3lbase/heap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From ddf4fde27109d38e2ca26f35559adfb7f64718f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 031/112] fix: accept alignment 0 in pool allocation

As documented, the alignment is then derived from the size.
---
 src/hob3lbase/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/pool.c b/src/hob3lbase/pool.c
index c1c7428..2a2bde3 100644
--- a/src/hob3lbase/pool.c
+++ b/src/hob3lbase/pool.c
@@ -215,6 +215,10 @@ extern void *cp_pool_calloc(
         return NULL;
     }
 
+    if (align == 0) {
+        align = cp_size_align(size1);
+    }
+
     for (size_t try = 0; try < 3; try++) {
         void *r = try_block_calloc(pool->used.head, nmemb, size1, align);
         if (r != NULL) {
-- 
2.43.0


From 36cfa331aa23d61b0178042e57289b304fa4f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 032/112] fix: do not take data right behind a vector for its
 own elements

A pool allocates arrays without a gap, so data that starts at the end of
the vector is a different array.
---
 src/hob3lbase/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 9e502e0..86cef9d 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -214,7 +214,7 @@ extern void cp_v_copy_arr_(
         /* recompute index pointer if it pointed into the dst vector*/
         if (old_data &&
             (data >= old_data) &&
-            (data <= cp_v_nth_elem_(old_data, old_size, esz)))
+            (data < cp_v_nth_elem_(old_data, old_size, esz)))
         {
             assert(
                 cp_v_nth_elem_(data, size, esz) <=
@@ -303,7 +303,7 @@ extern void *cp_v_insert_arr_(
      * originally contiguous data by the inflation. */
     if ((dst->data != NULL) &&
         (data >= dst->data) &&
-        (data <= cp_v_nth_elem_(dst->data, dst->size, esz)))
+        (data < cp_v_nth_elem_(dst->data, dst->size, esz)))
     {
         assert(cp_v_nth_elem_(data, size, esz) <= cp_v_nth_elem_(dst->data, dst->size, esz));
         size_t src_pos = cp_v_monus_(esz, data, dst->data);
-- 
2.43.0


From cdda66db9b7447631c15f7443c7b6222e25bad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 033/112] fix: allow an unknown root when removing from a
 dictionary

The documentation says that the root may be initialised to NULL, as it
is a pure output parameter, but the assertions read it.
---
 src/hob3lbase/dict.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/dict.c b/src/hob3lbase/dict.c
index e3ceb2f..34d972a 100644
--- a/src/hob3lbase/dict.c
+++ b/src/hob3lbase/dict.c
@@ -891,8 +891,8 @@ extern void cp_dict_remove_aug(
     cp_dict_aug_t *aug)
 {
     assert(c != NULL);
-    assert((root == NULL) || cp_dict_may_contain(*root, c));
-    assert((root == NULL) || (cp_dict_root(c) == *root));
+    assert((root == NULL) || (*root == NULL) || cp_dict_may_contain(*root, c));
+    assert((root == NULL) || (*root == NULL) || (cp_dict_root(c) == *root));
 
     /* if we remove the root, we remember a child pointer for
      * resetting root if necessary */
-- 
2.43.0


From 82254fb54dd76db4414044208fd08999d53bf34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 034/112] fix: decode the continuation bytes of UTF-8 sequences
 correctly

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From e0bf1cecc6c25c4cbb99d775b2124a6c08255b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 035/112] fix: report invalid code points when encoding UTF-8
 instead of aborting

---
 src/hob3lbase/utf8.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..933fd14 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -219,7 +219,9 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
  */
 extern size_t cp_utf8_encode(char *dst, size_t dst_size, unsigned cp)
 {
-    assert(cp_utf8_ok(cp));
+    if (!cp_utf8_ok(cp)) {
+        return 0;
+    }
     if (cp <= 0x7f) {
         if (dst_size < 1) {
             return 0;
-- 
2.43.0


From 93ba469d9b8e75ab6b61defb6ecb1029d3f92e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 036/112] fix: diagnose hexadecimal escapes that lack exactly
 one digit

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 933fd14..49ceb1f 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -187,7 +187,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -198,6 +197,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
         }
         iter_advance(iter);
         code = (code * base) + val;
+        --len;
     }
     if (len > 0) {
         iter_error(iter, start, "premature end of hexadecimal escape");
-- 
2.43.0


From 1787f91295b725a08026b34d6a1259088788f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 037/112] fix: compute the determinant of an inverted matrix
 from the source matrix

---
 script/mkmat               |  2 +-
 src/hob3lmat/mat_gen_ext.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 610e5cb..deb168a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1443,7 +1443,7 @@ sub gen_inv_mati($$$)
     $s.= "        r->n = a->i;\n";
     $s.= "        r->i = a->n;\n";
     $s.= "    }\n";
-    $s.= "    r->d = X_div0(1, r->d);\n";
+    $s.= "    r->d = X_div0(1, a->d);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index 012f1d9..c1264ef 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -1142,7 +1142,7 @@ extern void cp_mat2i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat2wi_inv(
@@ -1155,7 +1155,7 @@ extern void cp_mat2wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3i_inv(
@@ -1168,7 +1168,7 @@ extern void cp_mat3i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3wi_inv(
@@ -1181,7 +1181,7 @@ extern void cp_mat3wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat4i_inv(
@@ -1194,5 +1194,5 @@ extern void cp_mat4i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
-- 
2.43.0


From 092dd9816e2522f283c45161e7a64a55fe96c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 038/112] fix: let cp_min and cp_max compare negative integers
 correctly

---
 include/hob3lbase/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hob3lbase/arith.h b/include/hob3lbase/arith.h
index e95d43b..4f316de 100644
--- a/include/hob3lbase/arith.h
+++ b/include/hob3lbase/arith.h
@@ -47,7 +47,7 @@ static inline int cp_min_i(int a, int b)
 #define cp_min(a,b) \
     (_Generic(a, \
         size_t:  cp_min_z_, \
-        int:     cp_min_z_, \
+        int:     cp_min_i, \
         default: cp_min_f_)(a,b))
 
 #define cp_min_update(a,...) \
@@ -75,7 +75,7 @@ static inline int cp_max_i(int a, int b)
 #define cp_max(a,b) \
     (_Generic(a, \
         size_t:  cp_max_z_, \
-        int:     cp_max_z_, \
+        int:     cp_max_i, \
         default: cp_max_f_)(a,b))
 
 #define cp_max_update(a,...) \
-- 
2.43.0


From 14d8c51cb634506bc1e0f6d2796224d2d90a5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 039/112] fix: SVG import: a path that draws nothing caused an
 assertion failure

---
 src/hob3l/svg-parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..716a4ff 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,12 +346,15 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+    if (p->poly == NULL) {
+        /* nothing was drawn, e.g., 'd' is empty or consists of moves only */
+        return;
+    }
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
         cp_v_clear(&p->poly->point, 0);
         cp_v_clear(&p->poly->path,  0);
-        return;
     }
 
     p->poly = NULL;
-- 
2.43.0


From 47cb380cab73e019ea0b9943f03a68d657478060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 040/112] fix: SVG import: layer was only searched in elements
 with a 'transform'

---
 src/hob3l/svg-parse.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 716a4ff..872df58 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1455,15 +1455,11 @@ static void process_std_attr(
 {
     /* process transform commands */
     char const *s = s_attr_str(xml, "transform");
-    if (s == NULL) {
-        return;
-    }
-    s_sep(&s, SPACE);
-    while (*s != 0) {
-        if (!xform_cmd(c, n, p, &s)) {
-            return;
+    if (s != NULL) {
+        s_sep(&s, SPACE);
+        while ((*s != 0) && xform_cmd(c, n, p, &s)) {
+            s_sep(&s, COMMA);
         }
-        s_sep(&s, COMMA);
     }
 
     /* compare layer with `id` attribute in SVG, like InkScape stores it. */
-- 
2.43.0


From c47f95e84dcb07fbc6e27dd89d86869f11d9026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 041/112] fix: SVG import: numbers with a signed exponent were
 rejected

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 872df58..c9db0db 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -920,7 +920,7 @@ static char const *s_str_float(
     if ((*s == 'e') || (*s == 'E')) {
         char const *t = s;
         t++;
-        (void)(s_expect_raw(&s, "-") || s_expect_raw(&s, "+"));
+        (void)(s_expect_raw(&t, "-") || s_expect_raw(&t, "+"));
         bool have_exp = false;
         while ((*t >= '0') && (*t <= '9')) {
             have_exp = true;
-- 
2.43.0


From 64f8cc796eeeaff351ed94aa8a2a8fcedf96f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 042/112] fix: SVG import: arc flags other than 0 and 1 were
 silently taken as unset

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c9db0db..3f29a70 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -965,7 +965,7 @@ static bool s_bool(
         *rp = true;
         return true;
     }
-    return true;
+    return false;
 }
 
 static inline bool s_coord(
-- 
2.43.0


From 987cda479a8f394fefffb4d392934862b9133ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 043/112] fix: SVG import: closing a path right after 'M' went
 back to the previous subpath

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 3f29a70..0ec3dd3 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -464,6 +464,8 @@ static void path_move(
     }
     path_end(p, loc);
     path_cur(p, loc, x, y, 0,0,0);
+    p->init_x = x;
+    p->init_y = y;
 }
 
 static inline void path_quad_abs(
-- 
2.43.0


From 157b8bcc07cb2369ba01e046ac30611305926cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 044/112] fix: SVG import: 'T' and 'S' reflected a stale
 control point after an empty line or arc

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 0ec3dd3..c3b0c75 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -406,6 +406,7 @@ static inline void path_line_abs(
     double y)
 {
     if (cp_eq(p->cur_x, x) && cp_eq(p->cur_y, y)) {
+        path_cur(p, loc, x, y, 0,0,0);
         return;
     }
     path_start(p, loc);
@@ -669,6 +670,7 @@ static inline void path_arc_abs(
 
     /* 9.5.1 */
     if (cp_eq(p->cur_x, x2) && cp_eq(p->cur_y, y2)) {
+        path_cur(p, loc, x2, y2, 0,0,0);
         return;
     }
 
-- 
2.43.0


From 6505e42ee56e95a55ee7d96668e0c27dffd49c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 045/112] fix: SVG import: y coordinate was ignored when the x
 coordinate attribute was missing

---
 src/hob3l/svg-parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c3b0c75..33c817e 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1112,9 +1112,9 @@ static bool s_attr_coord(
 {
     *xp = 0.0;
     *yp = 0.0;
-    return
-        s_attr_dim(xp, xml, namex, c->width,  1) &&
-        s_attr_dim(yp, xml, namey, c->height, 1);
+    bool okx = s_attr_dim(xp, xml, namex, c->width,  1);
+    bool oky = s_attr_dim(yp, xml, namey, c->height, 1);
+    return okx && oky;
 }
 
 static bool s_attr_size(
-- 
2.43.0


From 60640377dd9cc63da72c068271e6faf80324159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 046/112] fix: SVG import: small arcs had the wrong centre

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 33c817e..9ba4687 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -706,7 +706,7 @@ static inline void path_arc_abs(
     double ry2 = cp_sqr(ry);
     double num = fmax(0, (rx2 * ry2) - (rx2 * y1p2) - (ry2 * x1p2));
     double den = (rx2 * y1p2) + (ry2 * x1p2);
-    double coef = sqrt(cp_div0(num, den));
+    double coef = (den > 0) ? sqrt(num / den) : 0;
     if (fa == fs) { coef = -coef; }
     double cxp = +coef * cp_div0(rx * v1p.y, ry);
     double cyp = -coef * cp_div0(ry * v1p.x, rx);
-- 
2.43.0


From bb61886f85a2f664cba2393b8a32c0e7f77ddb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 047/112] fix: SVG import: point lists with an error left a
 polygon without paths behind

---
 src/hob3l/svg-parse.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 9ba4687..9fc407f 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1738,8 +1738,7 @@ static bool csg2_from_polyline(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    (void)str_path_coord1(&q, &s, ABS, path_move, path_line);
     path_fini(&q, s);
     return true;
 }
@@ -1752,8 +1751,7 @@ static bool csg2_from_polygon(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    (void)str_path_coord1(&q, &s, ABS, path_move, path_line);
     path_close(&q, s);
     path_fini(&q, s);
     return true;
-- 
2.43.0


From b903d88d721b49dbe12fbeaf6bb209f49e0dd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 048/112] fix: SVG import: any prefix of a transform name was
 accepted

---
 src/hob3l/svg-parse.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 9fc407f..048ac27 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1327,6 +1327,14 @@ static void xform_apply(
     cp_mat2wi_mul(&n->mat, &n->mat, m1);
 }
 
+static inline bool cmd_is(
+    char const *cmd,
+    size_t cmd_len,
+    char const *name)
+{
+    return (cmd_len == strlen(name)) && strnequ(cmd, name, cmd_len);
+}
+
 static bool xform_cmd(
     local_t const **c,
     local_t *n,
@@ -1358,7 +1366,7 @@ static bool xform_cmd(
     cp_mat2wi_t m1;
     switch (*cmd) {
     case 't':
-        if (strnequ(cmd, "translate", cmd_len)) {
+        if (cmd_is(cmd, cmd_len, "translate")) {
             if (val_n > 2) {
                 WARN(p, cmd, "Too many arguments for 'translate': %zu.", val_n);
                 return false;
@@ -1370,7 +1378,7 @@ static bool xform_cmd(
         break;
 
     case 's':
-        if (strnequ(cmd, "scale", cmd_len)) {
+        if (cmd_is(cmd, cmd_len, "scale")) {
             if (val_n > 2) {
                 WARN(p, cmd, "Too many arguments for 'scale': %zu.", val_n);
                 return false;
@@ -1382,7 +1390,7 @@ static bool xform_cmd(
             xform_apply(c, n, &m1);
             return true;
         }
-        if (strnequ(cmd, "skewX", cmd_len)) {
+        if (cmd_is(cmd, cmd_len, "skewX")) {
             if (val_n > 1) {
                 WARN(p, cmd, "Too many arguments for 'skewX': %zu.", val_n);
                 return false;
@@ -1394,7 +1402,7 @@ static bool xform_cmd(
             xform_apply(c, n, &m1);
             return true;
         }
-        if (strnequ(cmd, "skewY", cmd_len)) {
+        if (cmd_is(cmd, cmd_len, "skewY")) {
             if (val_n > 1) {
                 WARN(p, cmd, "Too many arguments for 'skewY': %zu.", val_n);
                 return false;
@@ -1409,7 +1417,7 @@ static bool xform_cmd(
         break;
 
     case 'r':
-        if (strnequ(cmd, "rotate", cmd_len)) {
+        if (cmd_is(cmd, cmd_len, "rotate")) {
             if (val_n > 3) {
                 WARN(p, cmd, "Too many arguments for 'rotate': %zu.", val_n);
                 return false;
@@ -1429,7 +1437,7 @@ static bool xform_cmd(
         break;
 
     case 'm':
-        if (strnequ(cmd, "matrix", cmd_len)) {
+        if (cmd_is(cmd, cmd_len, "matrix")) {
             if (val_n > 6) {
                 WARN(p, cmd, "Too many arguments for 'matrix': %zu.", val_n);
                 return false;
-- 
2.43.0


From 69138a7653b0babeb5cc5dde3d6ac9940fa20109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 049/112] fix: SVG import: preserveAspectRatio was applied
 exactly when it was 'none' or missing an alignment

---
 src/hob3l/svg-parse.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 048ac27..297c440 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -761,7 +761,7 @@ static double match_align(
     if (strstr(haystack, needle_min)) { return 0; }
     if (strstr(haystack, needle_mid)) { return 0.5; }
     if (strstr(haystack, needle_max)) { return 1; }
-    return -1;
+    return 0.5;
 }
 
 static char const *s_sep(
@@ -1030,10 +1030,10 @@ static void svg_xform(
 
     s_expect(&pas, "defer");
 
-    /* 0 = min, 0.5 = mid, 1 = max, <0 = none */
+    /* 0 = min, 0.5 = mid (default), 1 = max */
     double align_x = match_align(pas, "xMin", "xMid", "xMax");
     double align_y = match_align(pas, "YMin", "YMid", "YMax");
-    bool do_align = (align_x < 0) && (align_y < 0);
+    bool do_align = (strstr(pas, "none") == NULL);
     bool slice = (strstr(pas, "slice") != NULL);
 
     double scale_x = cp_div0(ew, vw);
@@ -1058,8 +1058,8 @@ static void svg_xform(
     cp_mat2wi_scale(m, scale_x, scale_y);
     m->n.w.x = xlat_x;
     m->n.w.y = xlat_y;
-    m->i.w.x = cp_div0(xlat_x, scale_x);
-    m->i.w.y = cp_div0(xlat_y, scale_y);
+    m->i.w.x = -cp_div0(xlat_x, scale_x);
+    m->i.w.y = -cp_div0(xlat_y, scale_y);
 }
 
 static char const *s_attr_str(
@@ -1567,6 +1567,10 @@ static bool csg2_from_svg(
     if (have_viewBox && c0->toplevel) {
         xform_apply(&c, &c1,
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
+
+        /* At top level, have a coordinate shift to put the SVG in
+         * positive coordinates */
+        xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, have_size ? -eh : -vh));
     }
 
     /* scale only if we have all params: we have no external size limit */
@@ -1591,14 +1595,6 @@ static bool csg2_from_svg(
         }
     }
 
-    /* At top level, have a coordinate shift to put the SVG in
-     * positive coordinates */
-    if (c0->toplevel) {
-        if (have_viewBox) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -vh));
-        }
-    }
-
     /* recurse */
     return callback(r, p, c, x);
 }
-- 
2.43.0


From dae3e060596320529115461acb00d4f0c68049d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 050/112] fix: SVG import: viewBox origin and percentages were
 ignored without both width and height

---
 src/hob3l/svg-parse.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 297c440..43944ca 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1573,17 +1573,26 @@ static bool csg2_from_svg(
         xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, have_size ? -eh : -vh));
     }
 
-    /* scale only if we have all params: we have no external size limit */
-    if (have_size && have_viewBox) {
-        c1.width = vw;
-        c1.height = vh;
-        c1.dim = sqrt((vw*vw + vh*vh) / 2);
+    /* scale only if we have all params: we have no external size limit;
+     * otherwise, only the origin of the viewBox is applied */
+    if (have_viewBox) {
+        if (!have_size) {
+            ew = vw;
+            eh = vh;
+        }
 
         cp_mat2wi_t m1;
         svg_xform(&m1, vx, vy, vw, vh, 0, 0, ew, eh, pas);
         xform_apply(&c, &c1, &m1);
     }
 
+    /* percentages refer to the nearest viewport */
+    if (have_viewBox || (have_size && !c0->toplevel)) {
+        c1.width  = have_viewBox ? vw : ew;
+        c1.height = have_viewBox ? vh : eh;
+        c1.dim = sqrt(((c1.width * c1.width) + (c1.height * c1.height)) / 2);
+    }
+
     /* apply centering, if requested and possible (we're not clipping, so we
      * can do it late (i.e., only now)*/
     if (c0->center) {
-- 
2.43.0


From 54f17837e31cb6ccb8597dd468415d4d3436c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 051/112] fix: SVG import: center=true did not centre the
 viewBox and could use uninitialised values

---
 src/hob3l/svg-parse.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 43944ca..4cf881e 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1512,9 +1512,6 @@ static bool csg2_from_svg(
     callback_t callback)
 {
     cp_xml_t *x = parent->child;
-    // FIXME: implement centering, but not by coordinates, but by centering
-    // the viewBox.
-
     /* The 'transform' on <svg> seems to be a bit tricky.  OpenSCAD seems to
      * ignore it at toplevel (always?) and embedded <svg> does not really seem
      * to work either.
@@ -1569,8 +1566,10 @@ static bool csg2_from_svg(
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
 
         /* At top level, have a coordinate shift to put the SVG in
-         * positive coordinates */
-        xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, have_size ? -eh : -vh));
+         * positive coordinates, unless it is centered */
+        if (!c0->center) {
+            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, have_size ? -eh : -vh));
+        }
     }
 
     /* scale only if we have all params: we have no external size limit;
@@ -1583,7 +1582,15 @@ static bool csg2_from_svg(
 
         cp_mat2wi_t m1;
         svg_xform(&m1, vx, vy, vw, vh, 0, 0, ew, eh, pas);
+
         xform_apply(&c, &c1, &m1);
+
+        /* apply centering of the viewBox, if requested; m1.i.w is the point
+         * that is mapped to the origin */
+        if (c0->center) {
+            xform_apply(&c, &c1,
+                &CP_MAT2WI_XLAT(m1.i.w.x - (vx + (vw / 2)), m1.i.w.y - (vy + (vh / 2))));
+        }
     }
 
     /* percentages refer to the nearest viewport */
@@ -1593,16 +1600,6 @@ static bool csg2_from_svg(
         c1.dim = sqrt(((c1.width * c1.width) + (c1.height * c1.height)) / 2);
     }
 
-    /* apply centering, if requested and possible (we're not clipping, so we
-     * can do it late (i.e., only now)*/
-    if (c0->center) {
-        if (have_ew) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-vw/2, 0));
-        }
-        if (have_eh) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, +vh/2));
-        }
-    }
 
     /* recurse */
     return callback(r, p, c, x);
-- 
2.43.0


From ba0a7703c51b5f2f4e53ec244ad3409525a167cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 052/112] fix: SVG import: 'transform' of a nested svg was
 applied inside of its x/y shift

---
 src/hob3l/svg-parse.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 4cf881e..f6ec04f 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1549,16 +1549,17 @@ static bool csg2_from_svg(
     c1.dpi = 96; /* in non-toplevel contexts, DPI is again 96 as in SVG */
     local_t const *c = &c1;
 
-    /* do the shift if this is not top-level */
+    /* standard attributes */
+    process_std_attr(&c, &c1, p, x);
+
+    /* do the shift if this is not top-level: x and y are in the
+     * coordinate system established by 'transform' */
     double px, py;
     (void)s_attr_coord(&px, &py, c, x, "x", "y");
     if (!c0->toplevel) {
         xform_apply(&c, &c1, &CP_MAT2WI_XLAT(px, py));
     }
 
-    /* standard attributes */
-    process_std_attr(&c, &c1, p, x);
-
     /* if we have a viewBox, we'll apply the DPI setting unless
      * there is a size (which takes the unit into account) */
     if (have_viewBox && c0->toplevel) {
-- 
2.43.0


From f16deada3c2e80a25513269d50169cc06bba41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 053/112] fix: XML: namespace declaration without a value was a
 NULL pointer access

---
 src/hob3l/xml-parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..ac29618 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -386,6 +386,10 @@ static bool parse_attr(
 
     /* if no = follows, then we assume x="x" */
     if (p->cur != '=') {
+        r->child = CP_POOL_NEW(p->tmp, *r->child);
+        r->child->type = CP_XML_CDATA;
+        r->child->loc = loc;
+        r->child->data = name;
         return true;
     }
     TRY(lex_next(p));
-- 
2.43.0


From 5f0fd86612ad9dc09a36f1dc8b85c70810c90fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 054/112] fix: XML: an empty attribute name was an infinite
 loop

---
 src/hob3l/xml-parse.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index ac29618..7e09002 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -14,8 +14,6 @@ typedef struct {
     char *loc;
     char *str_next;
     char *str_end;
-
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -203,8 +201,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, tok, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
-- 
2.43.0


From bd2d9576847f08195223621f6a343081c17af65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 055/112] fix: XML: an unterminated comment was an infinite
 loop

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 7e09002..054643f 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -445,6 +445,9 @@ static bool skip_comment(
             TRY(expect(p, "-->"));
             return true;
         }
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Unexpected end of file inside a comment.");
+        }
         TRY(lex_next(p));
     }
 }
-- 
2.43.0


From f3fda91be8527b4d4193fe38324e61ce115c6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 056/112] fix: XML: too large character numbers wrapped around

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 054643f..d1ca4df 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -252,6 +252,9 @@ static bool read_num(unsigned *np, parse_t *p, unsigned base)
             break;
         }
         n = (n * base) + val;
+        if (n > 0x10ffff) {
+            ERR(p, p->loc, "Character number is out of range.");
+        }
         TRY(lex_next(p));
     }
     *np = n;
-- 
2.43.0


From 2af39d0daebed8f39e0ae03c3820993fdcf713e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 057/112] fix: XML: white space around '=' of an attribute was
 rejected

---
 src/hob3l/xml-parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index d1ca4df..cf779e8 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -385,6 +385,8 @@ static bool parse_attr(
     r->data = name;
     r->ns_prefix = nsp;
 
+    TRY(skip_space(p));
+
     /* if no = follows, then we assume x="x" */
     if (p->cur != '=') {
         r->child = CP_POOL_NEW(p->tmp, *r->child);
@@ -395,6 +397,8 @@ static bool parse_attr(
     }
     TRY(lex_next(p));
 
+    TRY(skip_space(p));
+
     /* expect " or ' */
     unsigned delim = p->cur;
     if ((delim != '"') && (delim != '\'')) {
-- 
2.43.0


From 337003079f727ba0e6e90b3f69d92bb373ad7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 058/112] fix: SVG import: incomplete 'matrix' was filled up
 with zeros

---
 src/hob3l/svg-parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index f6ec04f..52d6937 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1438,8 +1438,8 @@ static bool xform_cmd(
 
     case 'm':
         if (cmd_is(cmd, cmd_len, "matrix")) {
-            if (val_n > 6) {
-                WARN(p, cmd, "Too many arguments for 'matrix': %zu.", val_n);
+            if (val_n != 6) {
+                WARN(p, cmd, "Expected 6 arguments for 'matrix', found %zu.", val_n);
                 return false;
             }
             if (!cp_mat2wi_from_mat2w(&m1,
-- 
2.43.0


From 3ae4c6789a8ed69d71c835120f2c179c4d204383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 059/112] fix: XML: end of file inside a name was an infinite
 loop

---
 src/hob3l/xml-parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index cf779e8..89b61e4 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -182,6 +182,7 @@ static bool is_tag_char(unsigned c)
         return true;
     }
     switch (c) {
+    case 0:
     case '!':  case '"': case '#':  case '$': case '%':  case '&': case '\'': case '(':
     case ')':  case '*': case '+':  case ',': case '/':  case ';': case '<':  case '=':
     case '>':  case '?': case '@':  case '[': case '\\': case ']': case '^':  case '`':
-- 
2.43.0


From a493c40d9f73c5e642948b42a0a4609d580de027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 060/112] fix: messages about the first character of a line
 named the previous line

---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From 8dc4ac4d0a2c60eeb73bb0862f07a96b9a2995e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 061/112] fix: everything after a NUL character in a SCAD file
 was silently ignored

---
 src/hob3l/syn.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..1ec2129 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -115,6 +115,15 @@ static bool have_err_msg(parse_t *p)
     return p->err->msg.size > 0;
 }
 
+/**
+ * Whether the end of the file was reached, as opposed to a NUL character
+ * in the file, or one that was inserted to terminate a string.
+ */
+static bool lex_eof(parse_t *p)
+{
+    return p->c.lex.string >= p->c.lex.end;
+}
+
 static void lex_next(parse_t *p)
 {
     /* EOF? */
@@ -265,7 +274,7 @@ static void tok_next_aux2(parse_t *p)
     /* line comment */
     if ((p->c.lex.cur == '/') && (p->c.lex.string[1] == '/')) {
         p->c.tok.type = T_LCOM;
-        while ((p->c.lex.cur != '\n') && (p->c.lex.cur != '\0')) {
+        while ((p->c.lex.cur != '\n') && !lex_eof(p)) {
             lex_next(p);
         }
         /* do not eat '\n', it will be consumed as white space anyway. */
@@ -279,7 +288,7 @@ static void tok_next_aux2(parse_t *p)
         lex_next(p);
         char prev = 0;
         while ((prev != '*') || (p->c.lex.cur != '/')) {
-            if (p->c.lex.cur == '\0') {
+            if (lex_eof(p)) {
                 if (!have_err_msg(p)) {
                     cp_vchar_printf(&p->err->msg, "File ends inside comment.\n");
                 }
@@ -303,6 +312,13 @@ static void tok_next_aux2(parse_t *p)
         p->c.tok.type = T_ERROR;
         return;
     }
+    if ((p->c.lex.cur == '\0') && !lex_eof(p)) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg, "NUL characters are not supported.\n");
+        }
+        p->c.tok.type = T_ERROR;
+        return;
+    }
     p->c.tok.type = p->c.lex.cur & 127;
     lex_next(p);
 }
-- 
2.43.0


From f75d15cb19d543ac01fb76a11cc508099a9fb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 062/112] fix: 'include' without <path> took the next token as
 a file name

---
 src/hob3l/syn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 1ec2129..bcbaeed 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -888,6 +888,9 @@ static bool parse_item_push_stmt_item(
     sieve(p);
     if (expect(p, K_INCLUDE)) {
         tok_path(p);
+        if (p->c.tok.type != T_PATH) {
+            return expect_err(p, T_PATH);
+        }
         return parse_include_push_stmt_item(p, r, p->c.tok.string);
     }
     cp_syn_stmt_item_t *f = cp_syn_new(*f, p->c.tok.string);
-- 
2.43.0


From 3bc513e455d151869fe9f9997ab8f8fcf57977bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 063/112] fix: input files were never closed so that many
 include or import files exhausted the file descriptors

---
 src/hob3l/syn.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index bcbaeed..fbf4aed 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -50,11 +50,15 @@ typedef struct {
     tok_t tok;
 } parse_ctxt_t;
 
+/** Maximum nesting depth of include files: more is an endless recursion. */
+#define MAX_INCLUDE 100
+
 typedef struct {
     cp_syn_tree_t *tree;
     cp_err_t *err;
     cp_syn_input_t *input;
     parse_ctxt_t c;
+    unsigned include_depth;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -855,6 +859,12 @@ static bool parse_include_push_stmt_item(
     cp_v_syn_stmt_item_p_t *r,
     char const *fn)
 {
+    if (p->include_depth >= MAX_INCLUDE) {
+        cp_vchar_printf(&p->err->msg,
+            "Include files are nested too deeply, maximum is %u.\n", MAX_INCLUDE);
+        return false;
+    }
+
     cp_syn_file_t *file = CP_NEW(*file);
     if (!cp_syn_read(file, p->err, p->input, p->c.tok.loc, fn, NULL)) {
         assert(p->err->msg.size > 0);
@@ -862,6 +872,7 @@ static bool parse_include_push_stmt_item(
     }
     expect(p, T_PATH);
 
+    p->include_depth++;
     parse_ctxt_t prev = begin_file(p, file);
 
     if (!parse_stmt_item_list(p, r)) {
@@ -875,6 +886,7 @@ static bool parse_include_push_stmt_item(
     }
 
     end_file(p, &prev);
+    p->include_depth--;
     return true;
 }
 
@@ -985,6 +997,7 @@ static bool read_file(
     FILE *file)
 {
     cp_vchar_t dir = {0};
+    bool opened = false;
 
     if ((include_loc != NULL) && !is_absolute(filename)) {
         cp_syn_loc_t loc;
@@ -1014,6 +1027,7 @@ static bool read_file(
             err->loc = include_loc;
             return false;
         }
+        opened = true;
     }
     f->file = file;
     f->include_loc = include_loc;
@@ -1036,6 +1050,10 @@ static bool read_file(
         }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
+    if (opened) {
+        (void)fclose(f->file);
+        f->file = NULL;
+    }
     size_t z = f->content.size;
     cp_vchar_push(&f->content, '\0');
     f->content.size = z;
-- 
2.43.0


From 748e9a81418610fadb7f3b4163118271b9481104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 064/112] fix: message about a file read error did not state
 the reason

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index fbf4aed..d63f13e 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1044,7 +1044,7 @@ static bool read_file(
                 break;
             }
             cp_vchar_printf(&err->msg, "File read error: %s.\n",
-                strerror(ferror(f->file)));
+                strerror(errno));
             err->loc = include_loc;
             return false;
         }
-- 
2.43.0


From d5ee94e24ca3424e9439c6cbb179912688772dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 065/112] fix: stray quote in message about the end of an
 include file

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index d63f13e..a13ea07 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -880,7 +880,7 @@ static bool parse_include_push_stmt_item(
     }
 
     if (p->c.tok.type != T_EOF) {
-        cp_vchar_printf(&p->err->msg, "Expected end of include file'");
+        cp_vchar_printf(&p->err->msg, "Expected end of include file");
         err_found(p);
         return false;
     }
-- 
2.43.0


From 7eebb603ddda00aa86df8a288d3f27118a895abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 066/112] fix: deeply nested SCAD files overran the stack
 instead of causing an error

---
 src/hob3l/syn.c | 54 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index a13ea07..0b6881a 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -50,6 +50,10 @@ typedef struct {
     tok_t tok;
 } parse_ctxt_t;
 
+/** Maximum nesting depth of functors, blocks and arrays: all stages recurse
+ * into the tree, so this protects from overrunning the stack. */
+#define MAX_NESTING 1000
+
 /** Maximum nesting depth of include files: more is an endless recursion. */
 #define MAX_INCLUDE 100
 
@@ -59,6 +63,7 @@ typedef struct {
     cp_syn_input_t *input;
     parse_ctxt_t c;
     unsigned include_depth;
+    unsigned depth;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -670,7 +675,28 @@ static bool looking_at_value(
     }
 }
 
-static bool parse_value(
+static bool nesting_begin(
+    parse_t *p)
+{
+    if (p->depth >= MAX_NESTING) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg,
+                "Nesting is too deep, maximum is %u.\n", MAX_NESTING);
+        }
+        return false;
+    }
+    p->depth++;
+    return true;
+}
+
+static void nesting_end(
+    parse_t *p)
+{
+    assert(p->depth > 0);
+    p->depth--;
+}
+
+static bool parse_value_aux(
     parse_t *p,
     cp_syn_value_t **r)
 {
@@ -699,6 +725,18 @@ static bool parse_value(
     }
 }
 
+static bool parse_value(
+    parse_t *p,
+    cp_syn_value_t **r)
+{
+    if (!nesting_begin(p)) {
+        return false;
+    }
+    bool ok = parse_value_aux(p, r);
+    nesting_end(p);
+    return ok;
+}
+
 static bool looking_at_arg(
     parse_t *p)
 {
@@ -803,7 +841,7 @@ static bool parse_modifier(
     }
 }
 
-static bool parse_stmt_item(
+static bool parse_stmt_item_aux(
     parse_t *p,
     cp_syn_stmt_item_t *r)
 {
@@ -837,6 +875,18 @@ static bool parse_stmt_item(
     }
 }
 
+static bool parse_stmt_item(
+    parse_t *p,
+    cp_syn_stmt_item_t *r)
+{
+    if (!nesting_begin(p)) {
+        return false;
+    }
+    bool ok = parse_stmt_item_aux(p, r);
+    nesting_end(p);
+    return ok;
+}
+
 static bool parse_stmt_use(
     parse_t *p,
     cp_syn_stmt_use_t *r)
-- 
2.43.0


From 547f73e0eef1e8ff1d624ee014baf9975d97ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 067/112] fix: everything after a NUL character in an SVG file
 was silently ignored

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 89b61e4..9f127c1 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -127,6 +127,9 @@ static bool lex_next(
         ERR(p, p->loc, "UTF-8 decoding error: %s\n", iter.error_msg);
     }
     p->str_next += iter.data - p->str_next;
+    if ((p->cur == 0) && (p->loc < p->str_end)) {
+        ERR(p, p->loc, "NUL characters are not supported.\n");
+    }
     return true;
 }
 
-- 
2.43.0


From 1d309df7122011ddc5b6674bf265b13c95513590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 068/112] fix: deeply nested SVG files overran the stack
 instead of causing an error

---
 src/hob3l/xml-parse.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9f127c1..f5eae1a 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -5,10 +5,14 @@
 #include <hob3lbase/utf8.h>
 #include <hob3l/xml-parse.h>
 
+/** Maximum nesting depth of elements, to protect from overrunning the stack. */
+#define MAX_NESTING 1000
+
 typedef struct {
     cp_pool_t *tmp;
     cp_err_t *err;
     unsigned opt;
+    unsigned depth;
 
     unsigned cur;
     char *loc;
@@ -600,7 +604,12 @@ static bool parse_elem(
         return expect(p, "/>");
     }
     TRY(expect(p, ">"));
+    if (p->depth >= MAX_NESTING) {
+        ERR(p, loc, "Nesting is too deep, maximum is %u.\n", MAX_NESTING);
+    }
+    p->depth++;
     TRY(parse_content_list(p, c, nsp, tag));
+    p->depth--;
     if (p->opt & CP_XML_OPT_CHOMP) {
         cp_xml_chomp(r);
     }
-- 
2.43.0


From 3045a12c5c94c560f97c453899eaab77963102a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 069/112] fix: messages about the end of a file without final
 newline named a line after the last one

---
 src/hob3l/syn-msg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index 5a1aaf5..7247e3c 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -160,6 +160,15 @@ extern bool cp_syn_get_loc(
             assert(loc->line != CP_SIZE_MAX);
             assert(loc->line < f->line.size);
 
+            /* The end of the file belongs to the last line if that line is
+             * not terminated. */
+            if ((loc->line > 0) &&
+                (token == f->content.data + f->content.size) &&
+                (f->content_orig.data[f->content.size - 1] != '\n'))
+            {
+                loc->line--;
+            }
+
             /* compute line ranges for convenience */
             loc->copy = cp_v_nth(&f->line, loc->line);
             loc->copy_end = loc->copy;
-- 
2.43.0


From eb3f250287d3c02ee4f6b4e691a312227af2baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 070/112] fix: message after a source line that cannot be
 printed did not start on its own line

---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index 7247e3c..09681b6 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -69,7 +69,7 @@ static bool format_source_line(
     }
 
     if (old == out->size) {
-        out->size = old;
+        out->size = old - 1; /* also remove the leading space */
         return false;
     }
 
-- 
2.43.0


From 51eb1797d47f97cb25cc2d02718b8540673d2784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 071/112] fix: 'include' was rejected at the top level of a
 file

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 0b6881a..a98f110 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -999,7 +999,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if ((p->c.tok.type & _T_KEY) && (p->c.tok.type != K_INCLUDE)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From 5f776ee3f0e6e14e7ef673ea0fb40f48d13071b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 072/112] fix: integers outside of the int64 range were
 silently clamped, and floats overflowed to infinity

---
 src/hob3l/syn.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index a98f110..6247b0b 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -6,6 +6,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <errno.h>
+#include <math.h>
 #include <hob3l/syn.h>
 #include <hob3l/syn-msg.h>
 #include <hob3lbase/vchar.h>
@@ -526,12 +528,25 @@ static bool parse_id(
     return expect_err(p, T_ID);
 }
 
+static bool err_range(
+    parse_t *p)
+{
+    if (!have_err_msg(p)) {
+        cp_vchar_printf(&p->err->msg, "Number is out of range: '%s'.\n", p->c.tok.string);
+    }
+    return false;
+}
+
 static bool parse_int(
     parse_t *p,
     cp_syn_value_int_t *r)
 {
     assert(r->type == CP_SYN_VALUE_INT);
+    errno = 0;
     r->value = strtoll(p->c.tok.string, NULL, 10);
+    if ((p->c.tok.type == T_INT) && (errno == ERANGE)) {
+        return err_range(p);
+    }
     return expect_err(p, T_INT);
 }
 
@@ -541,6 +556,9 @@ static bool parse_float(
 {
     assert(r->type == CP_SYN_VALUE_FLOAT);
     r->value = strtod(p->c.tok.string, NULL);
+    if ((p->c.tok.type == T_FLOAT) && !isfinite(r->value)) {
+        return err_range(p);
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From 8c388cf4dafaeee9f4aede9b11931632e43060a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 073/112] fix: a lone '+' was accepted as a number in text STL
 files

---
 src/hob3l/stl-parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dac2ec8..e6d9ce1 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -338,7 +338,9 @@ static bool parse_float(
 {
     char *end = NULL;
     *v = strtod(p->tok_string, &end);
-    if ((p->tok_type == T_FLOAT) && ((end != p->lex_string) || !isfinite(*v))) {
+    if ((p->tok_type == T_FLOAT) &&
+        ((end == p->tok_string) || (end != p->lex_string) || !isfinite(*v)))
+    {
         cp_vchar_printf(&p->err->msg, "Malformed number '%s'.\n", p->tok_string);
         return false;
     }
-- 
2.43.0


From d9eef0e1a9f055dfc61ef17b38cf066b20852092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 074/112] fix: SVG numbers overflowed to infinity

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 52d6937..49f37f8 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -947,7 +947,7 @@ static bool s_double(
     char const *se = TRY(s_str_float(sp, comma));
     char *ep = NULL;
     double r = strtod(*sp, &ep);
-    TRY(ep == se);
+    TRY((ep == se) && cp_isfinite(r));
     *rp = r;
     *sp = se;
     return true;
-- 
2.43.0


From b85af2652c2721abf85f658c4efcd535614335dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 075/112] fix: message about failed close of the output file
 used the closed stream and did not state the reason

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..9504a03 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -785,7 +785,7 @@ int main(int argc, char **argv)
     if (fout != NULL) {
         if (fclose(fout) != 0) {
             cp_panic(CP_FILE, CP_LINE, "Unable to close output file '%s': %s\n",
-                opt.out_file_name, strerror(ferror(fout)));
+                opt.out_file_name, strerror(errno));
         }
     }
 
-- 
2.43.0


From 6f5a49fd983c0cc30c0b53b2c43c8df9b42db4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 076/112] fix: short writes were not noticed, and messages
 about write errors did not state the reason

---
 src/hob3lbase/stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hob3lbase/stream.c b/src/hob3lbase/stream.c
index f4fbc38..97d2c72 100644
--- a/src/hob3lbase/stream.c
+++ b/src/hob3lbase/stream.c
@@ -1,6 +1,8 @@
 /* -*- Mode: C -*- */
 /* Copyright (C) 2018-2024 by Henrik Theiling, License: GPLv3, see LICENSE file */
 
+#include <errno.h>
+#include <string.h>
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 
@@ -29,7 +31,7 @@ extern void cp_stream_vfprintf(
     int i = vfprintf(f, form, va);
     if (i < 0) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
 
@@ -42,8 +44,8 @@ extern void cp_stream_fwrite(
     size_t size)
 {
     size_t i = fwrite(buff, 1, size, f);
-    if (i == 0) {
+    if (i != size) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
-- 
2.43.0


From 7c4bb24a3f99044868a574855bd1a9be1fe930c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 077/112] fix: errors when writing to standard output were not
 noticed

---
 src/hob3l/main.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 9504a03..039facc 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -410,6 +410,10 @@ static void help(void)
     PRI("Options:\n");
     PRI("%s", opt_help);
 #undef PRI
+    if (fflush(stdout) != 0) {
+        fprintf(stderr, "Error: Unable to write help text: %s\n", strerror(errno));
+        exit(EXIT_FAILURE);
+    }
     exit(0);
 }
 
@@ -789,6 +793,12 @@ int main(int argc, char **argv)
         }
     }
 
+    else
+    if (fflush(stdout) != 0) {
+        cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
+            strerror(errno));
+    }
+
     /* print error */
     if (!ok) {
         cp_vchar_t pre, post;
-- 
2.43.0


From 8ad42e60de9a6dc571823138ec31fdd04f01d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 078/112] fix: negative and too large numbers wrapped around or
 were clamped in options taking a count

---
 src/hob3l/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 039facc..09cbb3b 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -526,8 +526,11 @@ static void get_arg_size(
     char const *str)
 {
     char *r = NULL;
+    errno = 0;
     unsigned long long val = strtoull(str, &r, 10);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (errno != 0) || (val > CP_MAX_OF(*v)) ||
+        (strchr(str, '-') != NULL))
+    {
         fprintf(stderr, "Error: %s: invalid number: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 0a633157de2c453970f64ff7580ae4be95db12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 079/112] fix: negative and too large numbers were accepted as
 RGB colors in options

---
 src/hob3l/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 09cbb3b..7af4b18 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -571,8 +571,11 @@ static void get_arg_rgb(
     char const *str)
 {
     char *r = NULL;
+    errno = 0;
     unsigned long w = strtoul(str, &r, 16);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (errno != 0) || (w > 0xffffff) ||
+        (strchr(str, '-') != NULL))
+    {
         fprintf(stderr, "Error: %s: invalid rgb color: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 2d03a1e71c549bbe4683ba0e9c733a48ee63e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 080/112] fix: errors when writing the help text were not
 noticed

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 7af4b18..f43ee1a 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -410,7 +410,7 @@ static void help(void)
     PRI("Options:\n");
     PRI("%s", opt_help);
 #undef PRI
-    if (fflush(stdout) != 0) {
+    if ((fflush(stdout) != 0) || ferror(stdout)) {
         fprintf(stderr, "Error: Unable to write help text: %s\n", strerror(errno));
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From e3b3b9b4cc048c414d3ce3c4e18b34a954b79e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 081/112] fix: linear_extrude: if a negative scale is not
 rejected, assume 0 for all slices

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 38d8285..73f0ed1 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1726,7 +1726,7 @@ static bool csg3_from_linext(
             cp_mat2w_t mk = {0};
             cp_mat2w_rot(&mk, &CP_SINCOS_DEG(z * -twist));
             cp_mat2w_t mks = {0};
-            cp_mat2w_scale(&mks, cp_lerp(1, s->scale.x, z), cp_lerp(1, s->scale.y, z));
+            cp_mat2w_scale(&mks, cp_lerp(1, scale.x, z), cp_lerp(1, scale.y, z));
             cp_mat2w_mul(&mk, &mks, &mk);
             for (cp_v_each(j, &q->point_idx)) {
                  size_t const jo = cp_v_nth(&q->point_idx, j);
-- 
2.43.0


From d83d5580761247ccfe3dbc0d1ff0eb81ac03b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 082/112] fix: objects that collapse are empty, but not ignored
 children

---
 src/hob3l/csg3.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 73f0ed1..48d7a26 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -317,6 +317,30 @@ static bool csg3_from_mirror(
     return csg3_from_v_scad(no, r, c, &mn, &s->child);
 }
 
+/**
+ * Handle children that collapse into emptiness by a transformation:
+ * they render nothing, but they still count as not ignored, like
+ * without the transformation.
+ */
+static bool csg3_collapse(
+    bool *no,
+    cp_v_obj_p_t *r,
+    ctxt_t *c,
+    local_t const *mo,
+    cp_v_scad_p_t const *child)
+{
+    if (c->search_root != NULL) {
+        /* only the root is rendered, in its own coordinates */
+        return csg3_from_v_scad(no, r, c, mo, child);
+    }
+    cp_v_obj_p_t rc = CP_V_INIT;
+    if (!csg3_from_v_scad(no, &rc, c, mo, child)) {
+        return false;
+    }
+    cp_v_fini(&rc);
+    return true;
+}
+
 static bool good_scale(
     cp_vec3_t const *v)
 {
@@ -342,8 +366,10 @@ static bool csg3_from_scale(
     cp_scad_scale_t const *s)
 {
     if (!good_scale(&s->v)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL,
-           "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v));
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL,
+               "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v)) &&
+            csg3_collapse(no, r, c, mo, &s->child);
     }
     cp_mat3wi_t *m1 = mat_new(c->tree);
     cp_mat3wi_scale_v(m1, &s->v);
@@ -363,7 +389,9 @@ static bool csg3_from_multmatrix(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (!cp_mat3wi_from_mat3w(m1, &s->m)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n") &&
+            csg3_collapse(no, r, c, mo, &s->child);
     }
     cp_mat3wi_mul(m1, mo->mat, m1);
 
-- 
2.43.0


From 2792357024079b127cdfbdf76dd83ccd961dbe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 083/112] fix: csg3 SCAD dump: empty operands were dumped so
 that they are ignored

---
 src/hob3l/csg3-2scad.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/csg3-2scad.c b/src/hob3l/csg3-2scad.c
index fd51570..55e1f96 100644
--- a/src/hob3l/csg3-2scad.c
+++ b/src/hob3l/csg3-2scad.c
@@ -62,6 +62,13 @@ static void union_put_scad(
         v_csg3_put_scad(s, d, r);
         return;
     }
+    if (r->size == 0) {
+        /* 'union(){}' would be ignored when read, but this is an operand */
+        cp_printf(s,
+            "%*slinear_extrude(height=1) "
+            "difference(){ square(1); square(1); }\n", d, "");
+        return;
+    }
     cp_printf(s, "%*sunion(){\n", d, "");
     v_csg3_put_scad(s, d + IND, r);
     cp_printf(s, "%*s}\n", d, "");
-- 
2.43.0


From f1dd90f8d48ca1bfe5a51249fe5ee43187f2682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 084/112] fix: difference: problems in subtracted children were
 missed if the base is empty

---
 src/hob3l/csg3.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 48d7a26..c74e2ab 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -160,7 +160,15 @@ static bool csg3_from_difference(
     }
 
     if (f.size == 0) {
-        /* empty, ignore */
+        /* empty: nothing to subtract from, but check the other children */
+        cp_v_obj_p_t g = CP_V_INIT;
+        for (cp_v_each(i, &s->child, sub_i)) {
+            if (!csg3_from_scad(no, &g, c, m, cp_v_nth(&s->child, i))) {
+                assert(c->err->msg.size > 0);
+                return false;
+            }
+        }
+        cp_v_fini(&g);
         return true;
     }
 
-- 
2.43.0


From e18ecb13e27d575e7814f1e3b5c5801704c3b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 085/112] fix: main: the stream of the output file was used
 after its scope had ended

---
 src/hob3l/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index f43ee1a..6e163eb 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -744,7 +744,6 @@ int main(int argc, char **argv)
 #endif
 
     /* output file: */
-    cp_stream_t *sout = CP_STREAM_FROM_FILE(stdout);
     FILE *fout = NULL;
     if (opt.out_file_name) {
         fout = fopen(opt.out_file_name, "wt");
@@ -753,7 +752,6 @@ int main(int argc, char **argv)
                 opt.out_file_name, strerror(errno));
             exit(EXIT_FAILURE);
         }
-        sout = CP_STREAM_FROM_FILE(fout);
 
         if (opt.dump == DUMP_NONE) {
             if (has_suffix(opt.out_file_name, ".stl")) {
@@ -785,6 +783,8 @@ int main(int argc, char **argv)
         }
     }
 
+    cp_stream_t *sout = CP_STREAM_FROM_FILE(fout != NULL ? fout : stdout);
+
     /* process files */
     cp_err_t *err = CP_NEW(*err);
     cp_syn_input_t *input = CP_NEW(*input);
-- 
2.43.0


From cdc71c3f1b86648ebb17aee9487c25ad1d07f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 086/112] fix: PS: empty layers without root caused a crash

---
 src/hob3l/csg2-2ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..63c3475 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -211,7 +211,7 @@ static void layer_put_ps(
     size_t zi,
     cp_csg2_layer_t *r)
 {
-    if (zi != r->zi) {
+    if ((zi != r->zi) || (cp_csg_add_size(r->root) == 0)) {
         return;
     }
     v_csg2_put_ps(k, t, zi, &r->root->add);
-- 
2.43.0


From 2723dfb2d4a74d2afa317dd3c06b3ce3e5c1f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 087/112] fix: csg3: --max-fn smaller than the minimum number
 of edges was used as such

---
 src/hob3l/csg3.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index c74e2ab..141735f 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -582,11 +582,11 @@ extern unsigned cp_csg3_get_fn(
         fn = ...
     }
 #endif
-    if (fn == 0) {
-        return have_circular ? 0 : max_fn;
-    }
-    if (fn > max_fn) {
-        return have_circular ? 0 : max_fn;
+    if ((fn == 0) || (fn > max_fn)) {
+        if (have_circular) {
+            return 0;
+        }
+        fn = max_fn;
     }
     if (fn < min_fn) {
         return min_fn;
@@ -834,7 +834,7 @@ static bool csg3_from_sphere(
     cp_v_push(r, cp_obj(o));
 
     o->mat = m;
-    o->_fn = c->opt->max_fn;
+    o->_fn = (c->opt->max_fn < 3) ? 3 : c->opt->max_fn;
 
     return true;
 }
-- 
2.43.0


From 283e9a6d6dd199341c55dfc95fe59a47dde433bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 088/112] fix: main: reject non-positive --step

---
 src/hob3l/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 6e163eb..58843ff 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -716,6 +716,10 @@ int main(int argc, char **argv)
     }
 
     /* post-process options */
+    if (!(opt.z_step > 0)) {
+        fprintf(stderr, "Error: Slice thickness must be positive: --step=%g\n", opt.z_step);
+        exit(EXIT_FAILURE);
+    }
     if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
-- 
2.43.0


From 51fa0e95403a7b5d2f057a6a4a4908bbff2903a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 089/112] fix: main: reject slicing into more layers than can
 be counted

---
 src/hob3l/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 58843ff..7c2f2d5 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -280,6 +280,12 @@ static bool do_file(
         z_max = opt->z_max;
     }
 
+    if (((z_max - z_min) / opt->z_step) >= UINT32_MAX) {
+        cp_vchar_printf(&err->msg, "Too many layers: Z: min=%g, step=%g, max=%g\n",
+            z_min, opt->z_step, z_max);
+        return false;
+    }
+
     cp_range_t range;
     cp_range_init(&range, z_min, z_max, opt->z_step);
     if (range.cnt == 0) {
-- 
2.43.0


From fea37b24ddeda56b26f9095ec009ec607234e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 090/112] fix: STL: do not fail if the normal of a huge
 triangle cannot be computed

---
 src/hob3l/csg2-2stl.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/hob3l/csg2-2stl.c b/src/hob3l/csg2-2stl.c
index c7f9694..8d9dbb6 100644
--- a/src/hob3l/csg2-2stl.c
+++ b/src/hob3l/csg2-2stl.c
@@ -128,7 +128,6 @@ static void poly_put_stl_outline_edge(
         &(cp_vec3_t){{ pj->coord.x, pj->coord.y, z1 }},
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z1 }});
 
-    assert(ok && "illegal triangle: normal is not finite");
     if (!ok) {
         n = (cp_vec3_t){};
     }
-- 
2.43.0


From 45c9ee72fd2bcecb24031ae84e8b2764cf8538df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 091/112] fix: unit vector assertions failed with a small --eps
 or --eps2

---
 include/hob3lmat/mat_gen_inl.h | 6 +++---
 script/mkmat                   | 2 +-
 src/hob3lmat/algo.c            | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hob3lmat/mat_gen_inl.h b/include/hob3lmat/mat_gen_inl.h
index 3385ebd..164b19d 100644
--- a/include/hob3lmat/mat_gen_inl.h
+++ b/include/hob3lmat/mat_gen_inl.h
@@ -827,19 +827,19 @@ static inline double cp_vec4_len(
 static inline bool cp_vec2_has_len1(
     cp_vec2_t const* a)
 {
-    return cp_sqr_eq(cp_vec2_sqr_len(a), 1);
+    return cp_e_eq(CP_SQR_EPSILON_DEFAULT, cp_vec2_sqr_len(a), 1);
 }
 
 static inline bool cp_vec3_has_len1(
     cp_vec3_t const* a)
 {
-    return cp_sqr_eq(cp_vec3_sqr_len(a), 1);
+    return cp_e_eq(CP_SQR_EPSILON_DEFAULT, cp_vec3_sqr_len(a), 1);
 }
 
 static inline bool cp_vec4_has_len1(
     cp_vec4_t const* a)
 {
-    return cp_sqr_eq(cp_vec4_sqr_len(a), 1);
+    return cp_e_eq(CP_SQR_EPSILON_DEFAULT, cp_vec4_sqr_len(a), 1);
 }
 
 static inline bool cp_vec2_has_len0_or_1(
diff --git a/script/mkmat b/script/mkmat
index deb168a..9dc69ef 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -713,7 +713,7 @@ sub gen_has_len1_vec($$$)
 {
     my ($oc, $t, $elem) = @_;
     my $p = proto($t, 'bool', $elem, a=>$t);
-    my $s = "    return X_sqr_eq(X_$t->{name}_sqr_len(a), 1);\n";
+    my $s = "    return X_e_eq(CP_SQR_EPSILON_DEFAULT, X_$t->{name}_sqr_len(a), 1);\n";
     publish_inline($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..ba406e6 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -1022,7 +1022,7 @@ extern void cp_vec2_nearest(
     /** point somewhere for which to find the closest point on the line */
     cp_vec2_t const *p)
 {
-    assert(cp_eq(cp_vec2_sqr_len(ud), 1));
+    assert(cp_e_eq(CP_EQ_EPSILON_DEFAULT, cp_vec2_sqr_len(ud), 1));
     cp_vec2_t w;
     cp_vec2_sub(&w, p, a);
     double d = cp_vec2_dot(&w, ud);
-- 
2.43.0


From 5354969aca87d791237d831e4a85733adc8a0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 092/112] fix: main: reject non-positive --eps and --eps2

---
 src/hob3l/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 7c2f2d5..eaa335b 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -726,6 +726,11 @@ int main(int argc, char **argv)
         fprintf(stderr, "Error: Slice thickness must be positive: --step=%g\n", opt.z_step);
         exit(EXIT_FAILURE);
     }
+    if (!(cp_eq_epsilon > 0) || !(cp_sqr_epsilon > 0)) {
+        fprintf(stderr, "Error: Comparison epsilon must be positive: --eps=%g, --eps2=%g\n",
+            cp_eq_epsilon, cp_sqr_epsilon);
+        exit(EXIT_FAILURE);
+    }
     if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
-- 
2.43.0


From 525dc28f397575f781f5f4c8e6b9967304f55bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 093/112] fix: binary STL: reject non-finite vertex coordinates

---
 src/hob3l/stl-parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index e6d9ce1..c05c70a 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -581,6 +581,11 @@ static bool bin_vertex(parse_t *p, cp_vec3_dict_node_t **n)
     if (!bin_vec3(p, &v)) {
         return false;
     }
+    if (!isfinite(v.x) || !isfinite(v.y) || !isfinite(v.z)) {
+        p->err->loc = loc;
+        cp_vchar_printf(&p->err->msg, "Vertex coordinate is not a finite number.\n");
+        return false;
+    }
 
     *n = cp_vec3_dict_insert(p->tmp, &p->point, &v, loc);
     return true;
-- 
2.43.0


From 1e400ee4029ae39d0e8dd732cb87910ee85a0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 094/112] fix: main: without an input file argument, a file
 named (null) was read

---
 src/hob3l/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index eaa335b..43af6f4 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -721,6 +721,11 @@ int main(int argc, char **argv)
         }
     }
 
+    if (in_file_name == NULL) {
+        fprintf(stderr, "Error: No input file given.\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* post-process options */
     if (!(opt.z_step > 0)) {
         fprintf(stderr, "Error: Slice thickness must be positive: --step=%g\n", opt.z_step);
-- 
2.43.0


From f4f648318b7cda75acfb9cc5b86a64a4596e18c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 095/112] fix: a read error followed by an end of file was
 missed, and the message did not name the file

---
 src/hob3l/syn.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 6247b0b..aa143bb 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1107,15 +1107,15 @@ static bool read_file(
         char buff[4096];
         size_t cnt = fread(buff, 1, sizeof(buff), f->file);
         assert(cnt <= sizeof(buff));
-        if (cnt == 0) {
-            if (feof(f->file)) {
-                break;
-            }
-            cp_vchar_printf(&err->msg, "File read error: %s.\n",
-                strerror(errno));
+        if (ferror(f->file)) {
+            cp_vchar_printf(&err->msg, "Unable to read '%s': %s\n",
+                f->filename.data, strerror(errno));
             err->loc = include_loc;
             return false;
         }
+        if (cnt == 0) {
+            break;
+        }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
     if (opened) {
-- 
2.43.0


From c41a4094998b03d0fcfd9bb0beed6458f1a29d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 096/112] fix: rotate_extrude: polygons narrower than epsilon
 at the axis failed an assertion

---
 src/hob3l/csg3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 141735f..c52f32f 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2116,7 +2116,10 @@ static bool csg3_from_rotext(
         return msg(c, CP_ERR_FAIL, s->loc, NULL,
             "'rotate_extrude' children have points with both x<0 and x>0.");
     }
-    assert((xi_cnt > 0) && "Collinear polygon encounted");
+    if (xi_cnt == 0) {
+        /* everything is on the rotation axis: this is as good as empty */
+        return true;
+    }
 
     /* make table of sincos for arc */
     cp_vec2_t *cs = CP_POOL_NEW_ARR(c->tmp, *cs, seg_cnt + 1);
-- 
2.43.0


From 95e992f562a831a39cafb1383c5d6d1cfedf8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 097/112] fix: spheres larger than about 33 m were dropped, and
 huge matrices of spheres failed an assertion

---
 src/hob3l/csg2-layer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-layer.c b/src/hob3l/csg2-layer.c
index 93b906e..f1649bf 100644
--- a/src/hob3l/csg2-layer.c
+++ b/src/hob3l/csg2-layer.c
@@ -87,7 +87,7 @@ static void csg2_add_layer_sphere(
     cp_vec3w_xform(&sb, &d->mat->i, &ob);
     cp_vec3w_xform(&sc, &d->mat->i, &oc);
     cp_vec3_t sn;
-    if (!cp_vec3_right_normal3(&sn, &sa, &sb, &sc)) {
+    if (!cp_vec3_right_normal3_x(&sn, &sa, &sb, &sc)) {
         /* coordinate system is too small/large: generate nothing */
         return;
     }
-- 
2.43.0


From 604199f359d8dc23eb38adcf7d350414a0714f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 098/112] fix: running out of memory while building a string
 crashed instead of being reported

---
 src/hob3lbase/vchar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/vchar.c b/src/hob3lbase/vchar.c
index 4cd3448..a089da5 100644
--- a/src/hob3lbase/vchar.c
+++ b/src/hob3lbase/vchar.c
@@ -2,6 +2,7 @@
 /* Copyright (C) 2018-2024 by Henrik Theiling, License: GPLv3, see LICENSE file */
 
 #include <stdio.h>
+#include <hob3lbase/panic.h>
 #include <hob3lbase/vchar.h>
 
 /**
@@ -35,6 +36,9 @@ static void v_grow(
     }
 
     vec->data = realloc(vec->data, sizeof(vec->data[0]) * new_alloc);
+    if (vec->data == NULL) {
+        cp_panic(CP_FILE, CP_LINE, "Out of memory: %"CP_FZU"\n", new_alloc);
+    }
     vec->alloc = new_alloc;
 }
 
-- 
2.43.0


From 9ca5dda163a60f63147aaa19a278a88a6c67da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 099/112] fix: --ps-scale-fit and --ps-scale-max had no effect
 if all of the model was below its left border

---
 src/hob3l/ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 8a55ab9..5d673aa 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -18,7 +18,7 @@ extern void cp_ps_xform_from_minmax(
     cp_dim_t y_max)
 {
     *d = CP_PS_XFORM_MM;
-    if (cp_gt(x_max, x_min) && cp_gt(y_max, x_min)) {
+    if (cp_gt(x_max, x_min) && cp_gt(y_max, y_min)) {
         d->mul_x = cp_min(
             (CP_PS_PAPER_X - CP_PS_PAPER_MARGIN) / (x_max - x_min),
             (CP_PS_PAPER_Y - CP_PS_PAPER_MARGIN) / (y_max - y_min));
-- 
2.43.0


From 691d2c868f91c6f7fa1d53764fb4f216d753360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 100/112] fix: PostScript: deferred comments must be written as
 (atend)

---
 src/hob3l/ps.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 5d673aa..3e12637 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -83,7 +83,7 @@ extern void cp_ps_doc_begin(
     }
     else {
         cp_printf(s,
-            "%%%%Pages: atend\n");
+            "%%%%Pages: (atend)\n");
     }
 
     if (x1 <= x2) {
@@ -93,7 +93,7 @@ extern void cp_ps_doc_begin(
     }
     else {
         cp_printf(s,
-            "%%%%BoundingBox: atend\n");
+            "%%%%BoundingBox: (atend)\n");
     }
 
     cp_printf(s,
-- 
2.43.0


From 8f7a2571e8816922c1939faf0d43d7b15811040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 101/112] fix: --gran smaller than the comparison epsilon, e.g.
 the documented 2^-20, was ignored

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 43af6f4..4290397 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -736,7 +736,7 @@ int main(int argc, char **argv)
             cp_eq_epsilon, cp_sqr_epsilon);
         exit(EXIT_FAILURE);
     }
-    if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
+    if (fabs(opt.cq_dim_scale_recip) > 0) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
-- 
2.43.0


From 60f3cb41e8b49b278641ebe087b6f35fa937cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 102/112] fix: negative --grid, and --grid=0 with
 --no-auto-grid (giving an empty result), were accepted

---
 src/hob3l/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 4290397..407b2e1 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -739,6 +739,12 @@ int main(int argc, char **argv)
     if (fabs(opt.cq_dim_scale_recip) > 0) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
+    if ((cq_dim_scale < 0) ||
+        ((opt.auto_scale == AUTO_SCALE_NONE) && !(cq_dim_scale > 0)))
+    {
+        fprintf(stderr, "Error: Grid must be positive: --grid=%g\n", cq_dim_scale);
+        exit(EXIT_FAILURE);
+    }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
         cp_sqr_epsilon = cp_eq_epsilon;
     }
-- 
2.43.0


From eca1b73a81ea497f5383bb226f96fc133131d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 103/112] fix: --grid=0 lost everything made from 2D objects
 (2D stage divided by a grid of 0)

---
 src/hob3l/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 407b2e1..b22e19e 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -229,10 +229,18 @@ static bool do_file(
     /* stage 3: 3D CSG */
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3->opt = &opt->csg;
+
+    /* 2D subtrees are combined in this stage, before the size of the model is
+     * known, so the grid cannot be maximised yet. */
+    double grid = cq_dim_scale;
+    if (cp_eq(cq_dim_scale, 0)) {
+        cq_dim_scale = CP_DIM_SCALE_DEFAULT;
+    }
     if (!cp_csg3_from_scad_tree(&pool, input, csg3, err, scad)) {
         assert(err->msg.size > 0);
         return false;
     }
+    cq_dim_scale = grid;
 
     cp_vec3_minmax_t full_minmax = CP_VEC3_MINMAX_EMPTY;
     if (csg3->root != NULL) {
-- 
2.43.0


From df2340a952761975c063943aa8e5b74b06d1839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 104/112] fix: --auto-grid-max: avoid overflow also for z and
 for subtracted objects

---
 src/hob3l/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index b22e19e..a16fa1a 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -153,7 +153,8 @@ static bool process_stack_diff(
  */
 static void auto_dim_scale(
     cp_opt_t *opt,
-    cp_vec3_minmax_t *bb)
+    cp_vec3_minmax_t *bb,
+    cp_vec3_minmax_t *full)
 {
     if (opt->auto_scale == AUTO_SCALE_NONE) {
         return;
@@ -166,6 +167,14 @@ static void auto_dim_scale(
     double absmaxy = cp_max(fabs(bb->min.y), fabs(bb->max.y));
     double absmax  = cp_max(absmaxx, absmaxy);
 
+    /* The integer algorithms also process the z coordinates, and what is
+     * subtracted or cut off, so all of that must fit. */
+    if (opt->auto_scale == AUTO_SCALE_INT) {
+        for (cp_arr_each(i, full->min.v)) {
+            absmax = cp_max(absmax, cp_max(fabs(full->min.v[i]), fabs(full->max.v[i])));
+        }
+    }
+
     int absmax_dig = 0;
     (void)frexp(absmax, &absmax_dig);
 
@@ -275,7 +284,7 @@ static bool do_file(
      * rounding error occurs when converting to `float` (for binary STL).
      */
     if (cp_vec3_minmax_valid(&bb)) {
-        auto_dim_scale(opt, &bb);
+        auto_dim_scale(opt, &bb, &full_minmax);
     }
 
     /* stage 4: 2D CSG */
-- 
2.43.0


From 94c22a8d51d881e96b2bc980f1f4fc7694c0830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 105/112] fix: --opt-skip-empty and --opt-drop-collinear did
 not undo their negations

---
 script/mkswitch | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/mkswitch b/script/mkswitch
index 8257e0d..4120ee5 100755
--- a/script/mkswitch
+++ b/script/mkswitch
@@ -40,6 +40,7 @@ sub learn_case($$$$$)
     push @case, $case;
 
     my $neg_case = {};
+    $neg_case->{action} = $case->{action};
 
     $case->{need_arg} = 0;
     if ($case->{arg}{name}) {
-- 
2.43.0


From 2d2f529f5b0ef4bd2d36d6d9800e28a720eedcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 106/112] fix: SVG: a comment right before an end tag was a
 syntax error

---
 src/hob3l/xml-parse.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index f5eae1a..b1f622b 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -482,7 +482,6 @@ static bool parse_content(
 {
     *rp = NULL;
 
-again:
     /* EOF is OK, leaves *rp==NULL */
     if (p->cur == 0) {
         return true;
@@ -490,13 +489,6 @@ again:
 
     if (p->cur == '<') {
         TRY(lex_next(p));
-        /* comment */
-        if  (p->cur == '!') {
-            TRY(expect(p, "!--"));
-            TRY(skip_comment(p));
-            goto again;
-        }
-
         /* element */
         return parse_elem(rp, p, c);
     }
@@ -515,6 +507,12 @@ static bool parse_content_list(
     char const *tag)
 {
     for (;;) {
+        /* comment: anything may follow, including the end tag */
+        if ((p->cur == '<') && (*p->str_next == '!')) {
+            TRY(lex_next(p) && expect(p, "!--") && skip_comment(p));
+            continue;
+        }
+
         /* end tag */
         if ((tag != NULL) && (p->cur == '<') && (*p->str_next == '/')) {
             TRY(lex_next(p) && lex_next(p));
-- 
2.43.0


From 45316f80ad235dd36bf696091fb1e419746561ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 107/112] fix: JS: outline normals of short edges of thin
 layers were zero

---
 src/hob3l/csg2-2js.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index b639bfb..abd08e8 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -241,10 +241,13 @@ static void poly_put_js_outline_edge(
      * and (pk,z[0])..(pj,z[0])--(pj,z[1])
      */
     cp_vec3_t n;
-    cp_vec3_left_normal3(&n,
+    bool ok = cp_vec3_left_normal3_x(&n,
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z[0] }},
         &(cp_vec3_t){{ pj->coord.x, pj->coord.y, z[1] }},
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z[1] }});
+    if (!ok) {
+        n = (cp_vec3_t){};
+    }
 
     triangle_put_js(c, s, point, z,
         n.x, n.y, n.z,
-- 
2.43.0


From 57c3b7d1e4e4f99564cb8b5f32e1fde17f8e3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 108/112] fix: vector normalisation reported success with a
 zero vector for short vectors

---
 script/mkmat               | 2 +-
 src/hob3lmat/mat_gen_ext.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 9dc69ef..68c10d6 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -475,7 +475,7 @@ sub gen_unit_vec($$$)
     my $s = '';
     $s .= "    $tdim l = ${name}_len(a);\n";
     $s .= "    ${name}_div(r, a, l);\n";
-    $s .= "    return !X_sqr_eq(l,0);\n";
+    $s .= "    return !X_eq(l,0);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index c1264ef..ea1aef6 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -339,7 +339,7 @@ extern bool cp_vec2_unit(
 {
     double l = cp_vec2_len(a);
     cp_vec2_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec3_unit(
@@ -348,7 +348,7 @@ extern bool cp_vec3_unit(
 {
     double l = cp_vec3_len(a);
     cp_vec3_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec4_unit(
@@ -357,7 +357,7 @@ extern bool cp_vec4_unit(
 {
     double l = cp_vec4_len(a);
     cp_vec4_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern void cp_vec2_lerp(
-- 
2.43.0


From 93d696a039902ecc65ab131ffb4ee5461d5edcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 109/112] fix: assertion failure if more than 100 edges cross
 in one point

---
 src/hob3lop/op-sweep.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 6a90ae7..7d405af 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -709,8 +709,7 @@ static void ev_cross(
     assert(ev->some_edge != NULL);
     edge_t *u = NULL;
     edge_t *t = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -724,8 +723,7 @@ static void ev_cross(
 
     edge_t *r = NULL;
     edge_t *s = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         r = tree_edge_prev(s);
         if (r == NULL) {
             break;
@@ -1064,8 +1062,7 @@ static inline void sweep_phase2_edge_reverse(
 
     /* find top-most and bottom most edge */
     edge_t *t = s;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -1077,8 +1074,7 @@ static inline void sweep_phase2_edge_reverse(
     }
     assert(t != NULL);
 
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *r = tree_edge_prev(s);
         if (r == NULL) {
             break;
-- 
2.43.0


From 64a56a594841f3f345ec4d82b742342aac019062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 110/112] fix: SVG: the xml: namespace prefix needs no
 declaration

Editors commonly write xml:space="preserve", which made the import fail with
"Namespace prefix 'xml' not found".
---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index b1f622b..f6e92b3 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -554,6 +554,12 @@ static bool find_ns(
         }
     }
 
+    /* this prefix is bound by definition and need not be declared */
+    if (strequ(ns_prefix, "xml")) {
+        *nsp = "http://www.w3.org/XML/1998/namespace";
+        return true;
+    }
+
     ERR(p, ns_prefix, "Namespace prefix '%s' not found.\n", ns_prefix);
     return true;
 }
-- 
2.43.0


From a0b2bc488540b560c7f06e8ebacab67a2eff1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 111/112] fix: SVG: crash on circle or ellipse element without
 attributes

---
 src/hob3l/svg-parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 49f37f8..58de990 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1808,6 +1808,11 @@ static bool csg2_from_obj(
         return true;
     }
 
+    /* without any attribute, no basic shape renders anything */
+    if (x == NULL) {
+        return true;
+    }
+
     /* layer is active => invoke worker */
     return callback(r, p, c, x);
 }
-- 
2.43.0


From 18f9e788158a08f543a408561c132a4edee153b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:46 +0000
Subject: [PATCH 112/112] fix: cq_has_intersect reports the right end point of
 overlapping edges, and junctions

---
 src/hob3lop/op-sweep.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 7d405af..a2cec42 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -1462,11 +1462,16 @@ extern int cq_has_intersect(
     for (cp_v_eachp(a, gon)) {
         for (cp_v_eachp(b, gon)) {
             cq_vec2if_t i;
-            switch (cq_line2if_intersect(&i, a, b)) {
-            default:
+            int r = cq_line2if_intersect(&i, a, b);
+            switch (r) {
+            case 0:
                 break;
 
-            case 1:
+            default: /* crossing or junction, but not two equal end points */
+                if ((r & 6) && (r & 24)) {
+                    break;
+                }
+                r = 1;
                 goto has;
 
             case -1:
@@ -1476,6 +1481,8 @@ extern int cq_has_intersect(
 
                     /* squares of distances */
                     cq_dim_t a1, a2, b1, b2;
+                    cq_line2_t sa = *a;
+                    cq_line2_t sb = *b;
                     if (a->a.x == a->b.x) { /* vertical */
                         a1 = a->a.y;
                         a2 = a->b.y;
@@ -1488,25 +1495,25 @@ extern int cq_has_intersect(
                         b1 = b->a.x;
                         b2 = b->b.x;
                     }
-                    if (a1 > a2) { CP_SWAP(&a1, &a2); }
-                    if (b1 > b2) { CP_SWAP(&b1, &b2); }
+                    if (a1 > a2) { CP_SWAP(&a1, &a2); CP_SWAP(&sa.a, &sa.b); }
+                    if (b1 > b2) { CP_SWAP(&b1, &b2); CP_SWAP(&sb.a, &sb.b); }
                     assert(a1 != a2);
                     assert(b1 != b2);
 
                     if ((b1 < a1) && (a1 < b2)) {
-                        i = CQ_VEC2IFI(a->a.x, a->a.y);
+                        i = CQ_VEC2IFI(sa.a.x, sa.a.y);
                         goto has;
                     }
                     if ((b1 < a2) && (a2 < b2)) {
-                        i = CQ_VEC2IFI(a->b.x, a->b.y);
+                        i = CQ_VEC2IFI(sa.b.x, sa.b.y);
                         goto has;
                     }
                     if ((a1 < b1) && (b1 < a2)) {
-                        i = CQ_VEC2IFI(b->a.x, b->a.y);
+                        i = CQ_VEC2IFI(sb.a.x, sb.a.y);
                         goto has;
                     }
                     if ((a1 < b2) && (b2 < a2)) {
-                        i = CQ_VEC2IFI(b->b.x, b->b.y);
+                        i = CQ_VEC2IFI(sb.b.x, sb.b.y);
                         goto has;
                     }
                 }
@@ -1517,7 +1524,7 @@ extern int cq_has_intersect(
             if (ip) { *ip = i; }
             if (ap) { *ap = a; }
             if (bp) { *bp = b; }
-            return 1;
+            return r;
         }
     }
     return 0;
-- 
2.43.0

