From fae9eb5b562c5c458e78c5080d7c7600717f847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 01/29] fix: mesher constants and random seed are per thread

Meshing calls on different threads overwrote each other's exact-arithmetic
constants (recomputed by every call) and point-location random seed.
---
 lib/nikfemm/src/triangle/triangle.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 74074e0..4de00a8 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -651,16 +651,16 @@ struct memorypool {
 
 /* Global constants.                                                         */
 
-static REAL splitter;       /* Used to split REAL factors for exact multiplication. */
-static REAL epsilon;                             /* Floating-point machine epsilon. */
-static REAL resulterrbound;
-static REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
-static REAL iccerrboundA, iccerrboundB, iccerrboundC;
-static REAL o3derrboundA, o3derrboundB, o3derrboundC;
+static thread_local REAL splitter;       /* Used to split REAL factors for exact multiplication. */
+static thread_local REAL epsilon;                             /* Floating-point machine epsilon. */
+static thread_local REAL resulterrbound;
+static thread_local REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
+static thread_local REAL iccerrboundA, iccerrboundB, iccerrboundC;
+static thread_local REAL o3derrboundA, o3derrboundB, o3derrboundC;
 
 /* Random number seed is not constant, but I've made it global anyway.       */
 
-unsigned long randomseed;                     /* Current random number seed. */
+static thread_local unsigned long randomseed;      /* Current random number seed. */
 
 
 /* Mesh data structure.  Triangle operates on only one mesh, but the mesh    */
-- 
2.43.0


From 783c4a100c986b2e4a93e01feff0159820880a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 02/29] fix: mesher options do not depend on the locale or
 overflow their buffer

The area limit was printed and parsed with the process locale (a decimal comma
cut it short) into a 42 byte buffer that large areas overflow.
---
 lib/nikfemm/src/mesh/mesh.hpp         | 13 ++++++++++---
 lib/nikfemm/src/triangle/triangle.cpp |  5 +++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..dcdc591 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -1,6 +1,7 @@
 #ifndef NIK_VIRTUAL_MESH_HPP
 #define NIK_VIRTUAL_MESH_HPP
 
+#include <charconv>
 #include <cstdint>
 #include <map>
 
@@ -216,9 +217,15 @@ namespace nikfemm {
             i++;
         }
         // printf("----------------------\n");
-        char switches[42];
-        sprintf(switches, "pzq%dAQa%.17f", min_angle, max_triangle_area);
-        
+        // the switches must look the same in every locale and fit any finite area
+        char switches[400] = "pzq";
+        char* const switches_end = switches + sizeof(switches) - 1;
+        char* pos = std::to_chars(switches + 3, switches_end, min_angle).ptr;
+        for (char c : {'A', 'Q', 'a'}) {
+            *pos++ = c;
+        }
+        pos = std::to_chars(pos, switches_end, max_triangle_area, std::chars_format::fixed, 17).ptr;
+        *pos = '\0';
 
         /* Make necessary initializations so that Triangle can return a */
         /*   triangulation in `mid' and a voronoi diagram in `vorout'.  */
diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 4de00a8..9b0f7a7 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -365,6 +365,7 @@
 #include "triangle.h"
 #endif /* TRILIBRARY */
 
+#include <charconv>
 #include <stdexcept>
 
 /* A few forward declarations.                                               */
@@ -3358,7 +3359,7 @@ struct behavior *b;
               k++;
             }
             workstring[k] = '\0';
-            b->minangle = (REAL) strtod(workstring, (char **) NULL);
+            std::from_chars(workstring, workstring + k, b->minangle);
 	  } else {
             b->minangle = 20.0;
 	  }
@@ -3376,7 +3377,7 @@ struct behavior *b;
               k++;
             }
             workstring[k] = '\0';
-            b->maxarea = (REAL) strtod(workstring, (char **) NULL);
+            std::from_chars(workstring, workstring + k, b->maxarea);
             if (b->maxarea <= 0.0) {
               printf("Error:  Maximum area must be greater than zero.\n");
               triexit(1);
-- 
2.43.0


From eccbe9c35f9cffbf30e6e7f2dfa73337b83873ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 03/29] fix: meshing a drawing with duplicate vertices reads
 uninitialised memory

A vertex dropped as a duplicate is in no triangle, so its vertex-to-triangle
pointer was never set and a segment that ends there followed garbage.
---
 lib/nikfemm/src/triangle/triangle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 9b0f7a7..34b9334 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -14179,6 +14179,10 @@ int numberofpointattribs;
       setvertexmark(vertexloop, 0);
     }
     setvertextype(vertexloop, INPUTVERTEX);
+    if (b->poly) {
+      /* A duplicate of another vertex never becomes part of a triangle. */
+      setvertex2tri(vertexloop, (triangle) NULL);
+    }
     /* Determine the smallest and largest x and y coordinates. */
     if (i == 0) {
       m->xmin = m->xmax = x;
-- 
2.43.0


From b88e06507feb14e325260587ee33c269cc71320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 04/29] fix: a failed triangulation releases its memory

Any error in the mesher (rejected geometry, out of memory) is thrown through
triangulate(), which kept all its pools and work arrays.
---
 lib/nikfemm/src/triangle/triangle.cpp | 52 ++++++++++++++++-----------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 34b9334..e3739b8 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -1460,6 +1460,17 @@ VOID *memptr;
   free(memptr);
 }
 
+/* Frees a block when an exception (see triexit()) leaves the scope that owns  */
+/*   it.  Blocks freed normally must be released with done().                  */
+
+struct trimemguard {
+  VOID *memptr;
+
+  trimemguard(VOID *memptr) : memptr(memptr) {}
+  ~trimemguard() { trifree(memptr); }
+  void done() { trifree(memptr); memptr = (VOID *) NULL; }
+};
+
 /**                                                                         **/
 /**                                                                         **/
 /********* Memory allocation and program exit wrappers end here      *********/
@@ -4624,35 +4635,28 @@ int number;
 
 /*****************************************************************************/
 /*                                                                           */
-/*  triangledeinit()   Free all remaining allocated memory.                  */
+/*  triangledeinit()   Free all remaining allocated memory, however far the  */
+/*                     triangulation got.                                    */
 /*                                                                           */
 /*****************************************************************************/
 
 #ifdef ANSI_DECLARATORS
-void triangledeinit(struct mesh *m, struct behavior *b)
+void triangledeinit(struct mesh *m)
 #else /* not ANSI_DECLARATORS */
-void triangledeinit(m, b)
+void triangledeinit(m)
 struct mesh *m;
-struct behavior *b;
 #endif /* not ANSI_DECLARATORS */
 
 {
   pooldeinit(&m->triangles);
   trifree((VOID *) m->dummytribase);
-  if (b->usesegments) {
-    pooldeinit(&m->subsegs);
-    trifree((VOID *) m->dummysubbase);
-  }
+  pooldeinit(&m->subsegs);
+  trifree((VOID *) m->dummysubbase);
   pooldeinit(&m->vertices);
-#ifndef CDT_ONLY
-  if (b->quality) {
-    pooldeinit(&m->badsubsegs);
-    if ((b->minangle > 0.0) || b->vararea || b->fixedarea || b->usertest) {
-      pooldeinit(&m->badtriangles);
-      pooldeinit(&m->flipstackers);
-    }
-  }
-#endif /* not CDT_ONLY */
+  pooldeinit(&m->viri);
+  pooldeinit(&m->badsubsegs);
+  pooldeinit(&m->badtriangles);
+  pooldeinit(&m->flipstackers);
 }
 
 /**                                                                         **/
@@ -6664,6 +6668,8 @@ struct mesh *m;
   poolzero(&m->badtriangles);
   poolzero(&m->flipstackers);
   poolzero(&m->splaynodes);
+  m->dummytribase = (triangle *) NULL;
+  m->dummysubbase = (subseg *) NULL;
 
   m->recenttri.tri = (triangle *) NULL; /* No triangle has been visited yet. */
   m->undeads = 0;                       /* No eliminated input vertices yet. */
@@ -10009,6 +10015,7 @@ struct behavior *b;
 
   /* Allocate an array of pointers to vertices for sorting. */
   sortarray = (vertex *) trimalloc(m->invertices * (int) sizeof(vertex));
+  trimemguard sortarrayguard((VOID *) sortarray);
   traversalinit(&m->vertices);
   for (i = 0; i < m->invertices; i++) {
     sortarray[i] = vertextraverse(m);
@@ -10050,7 +10057,7 @@ struct behavior *b;
 
   /* Form the Delaunay triangulation. */
   divconqrecurse(m, b, sortarray, i, 0, &hullleft, &hullright);
-  trifree((VOID *) sortarray);
+  sortarrayguard.done();
 
   return removeghosts(m, b, &hullleft);
 }
@@ -13056,6 +13063,7 @@ int regions;
   } else {
     regiontris = (struct otri *) NULL;
   }
+  trimemguard regiontrisguard((VOID *) regiontris);
 
   if (((holes > 0) && !b->noholes) || !b->convex || (regions > 0)) {
     /* Initialize a pool of viri to be used for holes, concavities, */
@@ -13191,7 +13199,7 @@ int regions;
     pooldeinit(&m->viri);
   }
   if (regions > 0) {
-    trifree((VOID *) regiontris);
+    regiontrisguard.done();
   }
 }
 
@@ -15753,6 +15761,11 @@ char **argv;
 #endif /* not NO_TIMER */
 
   triangleinit(&m);
+  struct meshguard {
+    /* Frees the pools when triangulation ends, normally or by an exception. */
+    struct mesh *m;
+    ~meshguard() { triangledeinit(m); }
+  } guard = {&m};
 #ifdef TRILIBRARY
   parsecommandline(1, &triswitches, &b);
 #else /* not TRILIBRARY */
@@ -16046,7 +16059,6 @@ char **argv;
   }
 #endif /* not REDUCED */
 
-  triangledeinit(&m, &b);
 #ifndef TRILIBRARY
   return 0;
 #endif /* not TRILIBRARY */
-- 
2.43.0


From d6c21bea939d1efc0b181c6f4af4b20794aa7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 05/29] fix: input arrays of the mesher are checked and always
 released

They were used without checking for a failed allocation, and leaked whenever
the mesher threw.
---
 lib/nikfemm/src/mesh/mesh.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index dcdc591..b27ede9 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -181,9 +181,11 @@ namespace nikfemm {
         };
 
         in.numberofpoints = drawing.points.size();
-        in.pointlist = (TRI_REAL*)malloc(in.numberofpoints * 2 * sizeof(TRI_REAL));
+        std::vector<TRI_REAL> in_points(in.numberofpoints * 2);
+        in.pointlist = in_points.data();
         in.numberofsegments = drawing.segments.size();
-        in.segmentlist = (int*)malloc(in.numberofsegments * 2 * sizeof(int));
+        std::vector<int> in_segments(in.numberofsegments * 2);
+        in.segmentlist = in_segments.data();
 
         for (uint32_t i = 0; i < drawing.points.size(); i++) {
             in.pointlist[2 * i] = drawing.points[i].x;
@@ -205,7 +207,8 @@ namespace nikfemm {
         in.holelist = NULL;
 
         in.numberofregions = drawing.regions.size();
-        in.regionlist = (TRI_REAL*)malloc(in.numberofregions * 4 * sizeof(TRI_REAL));
+        std::vector<TRI_REAL> in_regions(in.numberofregions * 4);
+        in.regionlist = in_regions.data();
         i = 0;
 
         for (auto r : drawing.regions) {
@@ -246,9 +249,7 @@ namespace nikfemm {
         data.edgemarkerlist = (int *) NULL;   /* Needed if -e used and -B not used. */
 
         triangulate(switches, &in, reinterpret_cast<triangulateio*>(&data), NULL);
-        free(in.pointlist);
-        free(in.segmentlist);
-        free(in.regionlist);
+        data.regionlist = nullptr;  // the mesher copies out the pointer to our local array
     }
 
     template <typename Prop>
-- 
2.43.0


From 6a50c834336ea7cd1d1278bafcf42ad0d2b1615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 06/29] fix: copies of a mesh own their arrays, re-meshing
 frees the old ones

Meshes are copied with their models, but the copy shared the arrays of the
original and both freed them. Meshing again forgot the previous arrays. The
counts of a mesh that was never generated were uninitialised.
---
 lib/nikfemm/src/mesh/mesh.hpp | 162 +++++++++++++++++++++++++---------
 1 file changed, 118 insertions(+), 44 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index b27ede9..97b23ba 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -1,9 +1,12 @@
 #ifndef NIK_VIRTUAL_MESH_HPP
 #define NIK_VIRTUAL_MESH_HPP
 
+#include <algorithm>
 #include <charconv>
 #include <cstdint>
 #include <map>
+#include <new>
+#include <utility>
 
 #include "../algebra/coo.hpp"
 #include "../algebra/math.hpp"
@@ -24,33 +27,120 @@ namespace nikfemm {
         Vector *pointlist = nullptr;                                               /* In / out */
         TRI_REAL *pointattributelist = nullptr;                                      /* In / out */
         int *pointmarkerlist = nullptr;                                          /* In / out */
-        int numberofpoints;                                            /* In / out */
-        int numberofpointattributes;                                   /* In / out */
+        int numberofpoints = 0;                                            /* In / out */
+        int numberofpointattributes = 0;                                   /* In / out */
 
         Elem *trianglelist = nullptr;                                             /* In / out */
         TRI_REAL *triangleattributelist = nullptr;                                   /* In / out */
         TRI_REAL *trianglearealist = nullptr;                                         /* In only */
         int *neighborlist = nullptr;                                             /* Out only */
-        int numberoftriangles;                                         /* In / out */
-        int numberofcorners;                                           /* In / out */
-        int numberoftriangleattributes;                                /* In / out */
+        int numberoftriangles = 0;                                         /* In / out */
+        int numberofcorners = 0;                                           /* In / out */
+        int numberoftriangleattributes = 0;                                /* In / out */
 
         int *segmentlist = nullptr;                                              /* In / out */
         int *segmentmarkerlist = nullptr;                                        /* In / out */
-        int numberofsegments;                                          /* In / out */
+        int numberofsegments = 0;                                          /* In / out */
 
         TRI_REAL *holelist = nullptr;                        /* In / pointer to array copied out */
-        int numberofholes;                                      /* In / copied out */
+        int numberofholes = 0;                                      /* In / copied out */
 
         TRI_REAL *regionlist = nullptr;                      /* In / pointer to array copied out */
-        int numberofregions;                                    /* In / copied out */
+        int numberofregions = 0;                                    /* In / copied out */
 
         int *edgelist = nullptr;                                                 /* Out only */
         int *edgemarkerlist = nullptr;            /* Not used with Voronoi diagram; out only */
         TRI_REAL *normlist = nullptr;                /* Used only with Voronoi diagram; out only */
-        int numberofedges;                                             /* Out only */
-
-        int hullsize;                                                  /* Out only */
+        int numberofedges = 0;                                             /* Out only */
+
+        int hullsize = 0;                                                  /* Out only */
+
+        // the arrays are allocated by the triangle library with malloc and belong to this struct
+        // (except trianglearealist, holelist, regionlist and normlist, which are not used)
+        MeshData() = default;
+
+        MeshData(const MeshData& other) : MeshData() {
+            numberofpoints = other.numberofpoints;
+            numberofpointattributes = other.numberofpointattributes;
+            numberoftriangles = other.numberoftriangles;
+            numberofcorners = other.numberofcorners;
+            numberoftriangleattributes = other.numberoftriangleattributes;
+            numberofsegments = other.numberofsegments;
+            numberofedges = other.numberofedges;
+            hullsize = other.hullsize;
+            pointlist = duplicate(other.pointlist, numberofpoints);
+            pointattributelist = duplicate(other.pointattributelist, (size_t)numberofpoints * numberofpointattributes);
+            pointmarkerlist = duplicate(other.pointmarkerlist, numberofpoints);
+            trianglelist = duplicate(other.trianglelist, numberoftriangles);
+            triangleattributelist = duplicate(other.triangleattributelist, (size_t)numberoftriangles * numberoftriangleattributes);
+            neighborlist = duplicate(other.neighborlist, (size_t)numberoftriangles * 3);
+            segmentlist = duplicate(other.segmentlist, (size_t)numberofsegments * 2);
+            segmentmarkerlist = duplicate(other.segmentmarkerlist, numberofsegments);
+            edgelist = duplicate(other.edgelist, (size_t)numberofedges * 2);
+            edgemarkerlist = duplicate(other.edgemarkerlist, numberofedges);
+        }
+
+        MeshData(MeshData&& other) noexcept : MeshData() {
+            swap(other);
+        }
+
+        MeshData& operator=(MeshData other) noexcept {
+            swap(other);
+            return *this;
+        }
+
+        ~MeshData() {
+            free(pointlist);
+            free(pointattributelist);
+            free(pointmarkerlist);
+            free(trianglelist);
+            free(triangleattributelist);
+            free(neighborlist);
+            free(segmentlist);
+            free(segmentmarkerlist);
+            free(edgelist);
+            free(edgemarkerlist);
+        }
+
+        void swap(MeshData& other) noexcept {
+            std::swap(pointlist, other.pointlist);
+            std::swap(pointattributelist, other.pointattributelist);
+            std::swap(pointmarkerlist, other.pointmarkerlist);
+            std::swap(numberofpoints, other.numberofpoints);
+            std::swap(numberofpointattributes, other.numberofpointattributes);
+            std::swap(trianglelist, other.trianglelist);
+            std::swap(triangleattributelist, other.triangleattributelist);
+            std::swap(trianglearealist, other.trianglearealist);
+            std::swap(neighborlist, other.neighborlist);
+            std::swap(numberoftriangles, other.numberoftriangles);
+            std::swap(numberofcorners, other.numberofcorners);
+            std::swap(numberoftriangleattributes, other.numberoftriangleattributes);
+            std::swap(segmentlist, other.segmentlist);
+            std::swap(segmentmarkerlist, other.segmentmarkerlist);
+            std::swap(numberofsegments, other.numberofsegments);
+            std::swap(holelist, other.holelist);
+            std::swap(numberofholes, other.numberofholes);
+            std::swap(regionlist, other.regionlist);
+            std::swap(numberofregions, other.numberofregions);
+            std::swap(edgelist, other.edgelist);
+            std::swap(edgemarkerlist, other.edgemarkerlist);
+            std::swap(normlist, other.normlist);
+            std::swap(numberofedges, other.numberofedges);
+            std::swap(hullsize, other.hullsize);
+        }
+
+        template <typename T>
+        static T* duplicate(const T* src, size_t n) {
+            if (src == nullptr) {
+                return nullptr;
+            }
+            T* dst = (T*) malloc(std::max(n, (size_t)1) * sizeof(T));
+            if (dst == nullptr) {
+                throw std::bad_alloc();
+            }
+            std::copy(src, src + n, dst);
+            return dst;
+        }
 
         inline Vector getElemBarycenter(uint32_t elem_id) {
             Elem myelem = trianglelist[elem_id];
@@ -104,8 +194,6 @@ namespace nikfemm {
         MeshData data;
         Drawing<Prop> drawing;
 
-        ~Mesh();
-
         void mesh(double max_triangle_area = 1.0, int min_angle = 33);
         void addKelvinBoundaryConditions(uint32_t boundary_points);
         void kelvinTransformCentered();
@@ -133,22 +221,6 @@ namespace nikfemm {
 #endif
     };
 
-    template <typename Prop>
-    Mesh<Prop>::~Mesh() {
-        // we don't know how triangle allocated the memory
-        if (data.pointlist != nullptr) free(data.pointlist);
-        if (data.pointattributelist != nullptr) free(data.pointattributelist);
-        if (data.pointmarkerlist != nullptr) free(data.pointmarkerlist);
-        if (data.trianglelist != nullptr) free(data.trianglelist);
-        if (data.triangleattributelist != nullptr) free(data.triangleattributelist);
-        if (data.neighborlist != nullptr) free(data.neighborlist);
-        if (data.segmentlist != nullptr) free(data.segmentlist);
-        if (data.segmentmarkerlist != nullptr) free(data.segmentmarkerlist);
-        if (data.holelist != nullptr) free(data.holelist);
-        if (data.edgelist != nullptr) free(data.edgelist);
-        if (data.edgemarkerlist != nullptr) free(data.edgemarkerlist);
-    }
-
     template <typename Prop>
     void Mesh<Prop>::computeEpsilon() {
         // compute epsilon to compare point distances
@@ -233,23 +305,25 @@ namespace nikfemm {
         /* Make necessary initializations so that Triangle can return a */
         /*   triangulation in `mid' and a voronoi diagram in `vorout'.  */
 
-        data.pointlist = (Vector *) NULL;            /* Not needed if -N switch used. */
+        MeshData out;                 /* the old mesh stays until this one is complete */
+        out.pointlist = (Vector *) NULL;            /* Not needed if -N switch used. */
         /* Not needed if -N switch used or number of point attributes is zero: */
-        data.pointattributelist = (TRI_REAL *) NULL;
-        data.pointmarkerlist = (int *) NULL; /* Not needed if -N or -B switch used. */
-        data.trianglelist = (Elem *) NULL;          /* Not needed if -E switch used. */
+        out.pointattributelist = (TRI_REAL *) NULL;
+        out.pointmarkerlist = (int *) NULL; /* Not needed if -N or -B switch used. */
+        out.trianglelist = (Elem *) NULL;          /* Not needed if -E switch used. */
         /* Not needed if -E switch used or number of triangle attributes is zero: */
-        data.triangleattributelist = (TRI_REAL *) NULL;
-        data.neighborlist = (int *) NULL;         /* Needed only if -n switch used. */
+        out.triangleattributelist = (TRI_REAL *) NULL;
+        out.neighborlist = (int *) NULL;         /* Needed only if -n switch used. */
         /* Needed only if segments are output (-p or -c) and -P not used: */
-        data.segmentlist = (int *) NULL;
+        out.segmentlist = (int *) NULL;
         /* Needed only if segments are output (-p or -c) and -P and -B not used: */
-        data.segmentmarkerlist = (int *) NULL;
-        data.edgelist = (int *) NULL;             /* Needed only if -e switch used. */
-        data.edgemarkerlist = (int *) NULL;   /* Needed if -e used and -B not used. */
+        out.segmentmarkerlist = (int *) NULL;
+        out.edgelist = (int *) NULL;             /* Needed only if -e switch used. */
+        out.edgemarkerlist = (int *) NULL;   /* Needed if -e used and -B not used. */
 
-        triangulate(switches, &in, reinterpret_cast<triangulateio*>(&data), NULL);
-        data.regionlist = nullptr;  // the mesher copies out the pointer to our local array
+        triangulate(switches, &in, reinterpret_cast<triangulateio*>(&out), NULL);
+        out.regionlist = nullptr;  // the mesher copies out the pointer to our local array
+        data.swap(out);
     }
 
     template <typename Prop>
@@ -342,15 +416,15 @@ namespace nikfemm {
 
         // reallocate memory for this mesh
         data.pointlist = (Vector *) realloc(data.pointlist, new_point_number * sizeof(Vector));
-        // I actually don't need these
+        data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
+        // I actually don't need this
         // data.pointattributelist = (TRI_REAL *) realloc(data.pointattributelist, new_point_number * sizeof(TRI_REAL));
-        // data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
 
         // add kelvin mesh non boundary vertices to this mesh
         for (uint32_t i = 0; i < kelvin_mesh.data.numberofpoints; i++) {
             if (!kelvin_mesh.data.pointmarkerlist[i]) {
                 data.pointlist[data.numberofpoints] = kelvin_mesh.data.pointlist[i];
-                // data.pointmarkerlist[data.numberofpoints] = 0;
+                data.pointmarkerlist[data.numberofpoints] = 0;
                 kelvin_to_this[i] = data.numberofpoints;
                 data.numberofpoints++;
             }
-- 
2.43.0


From 3e90f67c5a6527410bd936fc98f86de811768068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 07/29] fix: joining the outer mesh checks its allocations and
 maps every vertex

Failed reallocations were used. Boundary vertices that only the outer mesh has
were in no map, so its triangles kept uninitialised vertex numbers.
---
 lib/nikfemm/src/mesh/mesh.hpp | 56 +++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 97b23ba..66f3b7f 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -357,6 +357,16 @@ namespace nikfemm {
         }
     }
 
+    // changes the size of a malloc'ed array, which is left as it was if there is no memory
+    template <typename T>
+    inline T* reallocate(T* array, size_t n) {
+        T* res = (T*) realloc(array, std::max(n, (size_t)1) * sizeof(T));
+        if (res == nullptr) {
+            throw std::bad_alloc();
+        }
+        return res;
+    }
+
     template <typename Prop>
     void Mesh<Prop>::addKelvinBoundaryConditions(uint32_t boundary_points) {
         // kelvin mesh = km
@@ -414,44 +424,40 @@ namespace nikfemm {
         // calculate new this mesh point number
         uint32_t new_point_number = data.numberofpoints + kelvin_mesh.data.numberofpoints - kelvin_number_of_boundary_points;
 
+        // calculate new this mesh triangle number
+        uint32_t new_triangle_number = data.numberoftriangles + kelvin_mesh.data.numberoftriangles;
+
+        // find the id of the default prop in this mesh
+        uint32_t default_prop_id = drawing.getRegionId(default_prop);
+
         // reallocate memory for this mesh
-        data.pointlist = (Vector *) realloc(data.pointlist, new_point_number * sizeof(Vector));
-        data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
+        data.pointlist = reallocate(data.pointlist, new_point_number);
+        data.pointmarkerlist = reallocate(data.pointmarkerlist, new_point_number);
+        data.trianglelist = reallocate(data.trianglelist, new_triangle_number);
+        data.triangleattributelist = reallocate(data.triangleattributelist, new_triangle_number);
         // I actually don't need this
-        // data.pointattributelist = (TRI_REAL *) realloc(data.pointattributelist, new_point_number * sizeof(TRI_REAL));
+        // data.pointattributelist = reallocate(data.pointattributelist, new_point_number);
 
-        // add kelvin mesh non boundary vertices to this mesh
+        // add kelvin mesh vertices that are not shared with this mesh to this mesh
+        uint32_t next_point = data.numberofpoints;
         for (uint32_t i = 0; i < kelvin_mesh.data.numberofpoints; i++) {
-            if (!kelvin_mesh.data.pointmarkerlist[i]) {
-                data.pointlist[data.numberofpoints] = kelvin_mesh.data.pointlist[i];
-                data.pointmarkerlist[data.numberofpoints] = 0;
-                kelvin_to_this[i] = data.numberofpoints;
-                data.numberofpoints++;
+            if (kelvin_to_this.try_emplace(i, next_point).second) {
+                data.pointlist[next_point] = kelvin_mesh.data.pointlist[i];
+                data.pointmarkerlist[next_point] = 0;
+                next_point++;
             }
         }
 
-        // calculate new this mesh triangle number
-        uint32_t new_triangle_number = data.numberoftriangles + kelvin_mesh.data.numberoftriangles;
-
-        // reallocate memory for this mesh
-        data.trianglelist = (Elem *) realloc(data.trianglelist, new_triangle_number * sizeof(Elem));
-        data.triangleattributelist = (TRI_REAL *) realloc(data.triangleattributelist, new_triangle_number * sizeof(TRI_REAL));
-
-        // find the id of the default prop in this mesh
-        uint32_t default_prop_id = drawing.getRegionId(default_prop);
-
         // use map to update triangle vertex indices
         for (uint32_t i = 0; i < kelvin_mesh.data.numberoftriangles; i++) {
-            // check if point in map else leave it alone
+            uint32_t next_triangle = data.numberoftriangles + i;
             for (uint8_t j = 0; j < 3; j++) {
-                if (kelvin_to_this.count(kelvin_mesh.data.trianglelist[i][j])) {
-                    data.trianglelist[data.numberoftriangles][j] = kelvin_to_this[kelvin_mesh.data.trianglelist[i][j]];
-                }
+                data.trianglelist[next_triangle][j] = kelvin_to_this[kelvin_mesh.data.trianglelist[i][j]];
             }
-            data.triangleattributelist[data.numberoftriangles] = default_prop_id;
-            data.numberoftriangles++;
+            data.triangleattributelist[next_triangle] = default_prop_id;
         }
 
+        data.numberofpoints = next_point;
         data.numberoftriangles = new_triangle_number;
     }
 
-- 
2.43.0


From 0e40e3524c426ecd8c9ed3b3cc12a81f7a3b32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 08/29] fix: a failed generateSystem leaves the model as it was

It kept the translated drawing, the boundary circle and refinement points it
had already drawn, so that repeating the call built a different model.
---
 .../current_density/multilayer_simulation.cpp |  3 +++
 .../src/current_density/simulation.cpp        |  3 +++
 lib/nikfemm/src/drawing/drawing.hpp           |  6 -----
 lib/nikfemm/src/magnetostatic/simulation.cpp  |  3 ++-
 lib/nikfemm/src/utils/utils.hpp               | 23 +++++++++++++++++++
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..652bd6e 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -52,6 +52,9 @@ namespace nikfemm {
     }
 
     System<double> MultiLayerCurrentDensitySimulation::generateSystem(bool refine, double max_triangle_area, int min_angle) {
+        // a failure must not leave half drawn refinements and interconnections behind
+        RollbackOnException rollback(meshes);
+
         if (refine) {
             for (auto& mesh : meshes) {
                 mesh.drawing.addRefiningPoints();
diff --git a/lib/nikfemm/src/current_density/simulation.cpp b/lib/nikfemm/src/current_density/simulation.cpp
index 90a2068..7b0ae11 100644
--- a/lib/nikfemm/src/current_density/simulation.cpp
+++ b/lib/nikfemm/src/current_density/simulation.cpp
@@ -54,6 +54,9 @@ namespace nikfemm {
     }
 
     System<double> CurrentDensitySimulation::generateSystem(bool refine, double max_triangle_area, int min_angle) {
+        // a failure must not leave a half drawn refinement behind
+        RollbackOnException rollback(mesh);
+
         if (refine) {
             mesh.drawing.addRefiningPoints();
         }
diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..623e9eb 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -67,7 +67,6 @@ namespace nikfemm {
         std::vector<Polygon> polygons;
 
         Drawing();
-        ~Drawing();
 
         /* drawing */
         public:
@@ -104,11 +103,6 @@ namespace nikfemm {
 
     }
 
-    template <typename Prop>
-    Drawing<Prop>::~Drawing() {
-        
-    }
-
     template <typename Prop>
     void Drawing<Prop>::drawRectangle(Vector p1, Vector p2) {
         drawSegment(p1, Vector(p2.x, p1.y));
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4128817..37f445d 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -40,7 +40,8 @@ namespace nikfemm {
     }
 
     System<NonLinearExpression> MagnetostaticSimulation::generateSystem(bool refine, double max_triangle_area, int min_angle, bool refine_magnets) {
-        // get time in milliseconds
+        // a failure must not leave a half drawn boundary or refinement behind
+        RollbackOnException rollback(mesh);
 
         /* auto boundary */
         // find smallest enclosing circle using Welzl's algorithm
diff --git a/lib/nikfemm/src/utils/utils.hpp b/lib/nikfemm/src/utils/utils.hpp
index 94fcfd6..4d06961 100644
--- a/lib/nikfemm/src/utils/utils.hpp
+++ b/lib/nikfemm/src/utils/utils.hpp
@@ -1,8 +1,11 @@
 #ifndef NIK_UTILS_HPP
 #define NIK_UTILS_HPP
 
+#include <exception>
 #include <string>   
 #include <iostream>
+#include <type_traits>
+#include <utility>
 
 #ifdef NIKFEMM_USE_OPENCV
 #include <opencv2/core/core.hpp>
@@ -22,6 +25,26 @@ namespace nikfemm {
     cv::Scalar val2jet(double v, double vmin, double vmax);
 #endif
 
+    // gives an object back the value it had if an exception leaves the scope
+    template <typename T>
+    class RollbackOnException {
+        static_assert(std::is_nothrow_move_assignable_v<T>);
+
+        T& target;
+        T backup;
+        const int exceptions = std::uncaught_exceptions();
+
+        public:
+        explicit RollbackOnException(T& target) : target(target), backup(target) {}
+        RollbackOnException(const RollbackOnException&) = delete;
+        RollbackOnException& operator=(const RollbackOnException&) = delete;
+        ~RollbackOnException() {
+            if (std::uncaught_exceptions() > exceptions) {
+                target = std::move(backup);
+            }
+        }
+    };
+
     inline double map(double x, double in_min, double in_max, double out_min, double out_max) {
         return (x - in_min) * (out_max - out_min) / (in_max - in_min) + out_min;
     }
-- 
2.43.0


From 85acbb3c919ec4e3e2e5dd1c66896f17d19ff938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 09/29] fix: permeability in the last interval of a BH curve
 reads past the curve

Between the last two points the forward difference dereferenced end().
---
 lib/nikfemm/src/magnetostatic/properties.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..3a30658 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -1,3 +1,5 @@
+#include <iterator>
+
 #include "properties.hpp"
 #include "../utils/utils.hpp"
 
@@ -32,7 +34,9 @@ namespace nikfemm {
             double m = (B2 - B1) / (H2 - H1);
             // printf("B is smaller than the smallest B in the curve, returning mu %.17g\n", m);
             return m;
-        } else if (it == bh_curve.end()) {
+        } else if (it == bh_curve.end() || std::next(it) == bh_curve.end()) {
+            // there is no forward difference at the last point
+            it = bh_curve.end();
             double B1 = (--it)->B;
             double H1 = it->H;
             double B2 = (--it)->B;
-- 
2.43.0


From 1a354a674dbf2af8a0d0681a05754a88793a5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:20 +0000
Subject: [PATCH 10/29] fix: vertices with more than 18 elements overflow the
 adjacency tables

The mesher can put any number of elements around a vertex (more than 9 were
enough for the cotangent weights).
---
 lib/nikfemm/src/current_density/mesh.cpp     | 33 +++++++++-----------
 lib/nikfemm/src/magnetostatic/mesh.cpp       | 11 +++----
 lib/nikfemm/src/magnetostatic/simulation.cpp | 12 +++----
 lib/nikfemm/src/magnetostatic/simulation.hpp |  3 +-
 4 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..d54e00a 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,25 +11,24 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            if (adjelems_count[i] == 0) {
+            if (adjelems_ids[i].empty()) {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
@@ -96,26 +95,24 @@ namespace nikfemm {
 
         auto start = std::chrono::high_resolution_clock::now();
 
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
-        auto adjverts_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjverts_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjverts_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 1) % 3];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 2) % 3];
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 1) % 3]);
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 2) % 3]);
             }
         }
 
@@ -125,7 +122,7 @@ namespace nikfemm {
             // to do this we iterate over all adjacent vertices and for each we try to find the two adjacent triangles
             // the two adjacent triangles are the ones that both contain the current vertex and the adjacent vertex
             double sum = 0;
-            for (uint8_t j = 0; j < adjverts_count[i]; j++) {
+            for (uint32_t j = 0; j < adjverts_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 v2 = adjverts_ids[i][j];
@@ -133,7 +130,7 @@ namespace nikfemm {
                 // find the two triangles that contain the current vertex and the adjacent vertex
                 uint32_t t1 = 0, t2 = 0;
                 bool found_t1 = false, found_t2 = false;
-                for (uint8_t k = 0; k < adjelems_count[i]; k++) {
+                for (uint32_t k = 0; k < adjelems_ids[i].size(); k++) {
                     if (data.trianglelist[adjelems_ids[i][k]][0] == v1 || data.trianglelist[adjelems_ids[i][k]][1] == v1 || data.trianglelist[adjelems_ids[i][k]][2] == v1) {
                         if (data.trianglelist[adjelems_ids[i][k]][0] == v2 || data.trianglelist[adjelems_ids[i][k]][1] == v2 || data.trianglelist[adjelems_ids[i][k]][2] == v2) {
                             if (!found_t1) {
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..5f3f0c2 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,20 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 37f445d..7684667 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -224,14 +224,13 @@ namespace nikfemm {
         // EGGSHELL WITH LAPLACE PROBLEM
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(mesh.data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(mesh.data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(mesh.data.numberofpoints);
 
         nloginfo("computing adjelems_ids");
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = mesh.data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]++] = i;
+                adjelems_ids[myid].push_back(i);
             }
         }
 
@@ -316,7 +315,6 @@ namespace nikfemm {
 
         return SurroundingRegionBlockIntegralAssets{
             adjelems_ids,
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -332,7 +330,6 @@ namespace nikfemm {
         
         auto [
             adjelems_ids, 
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -353,7 +350,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
@@ -497,7 +494,6 @@ namespace nikfemm {
         
         auto [
             adjelems_ids, 
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -515,7 +511,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 75243f5..51c7875 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -19,8 +19,7 @@
 
 namespace nikfemm {
     struct SurroundingRegionBlockIntegralAssets {
-        std::vector<std::array<uint32_t, 18>> adjelems_ids;
-        std::vector<uint8_t> adjelems_count;
+        std::vector<std::vector<uint32_t>> adjelems_ids;
         std::vector<double> elem_field_errors;
         double min_err;
         double max_err;
-- 
2.43.0


From 4d238682b63ebb2495b43a0acecd15573cbe0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:20 +0000
Subject: [PATCH 11/29] fix: integrals over a region that nothing surrounds
 read an empty list

The outermost polygon of a drawing has no surrounding polygon; its first
element was read anyway.
---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 7684667..907fc9a 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -209,6 +209,10 @@ namespace nikfemm {
             }
         }
 
+        if (polygons_that_contain_integration_region.empty()) {
+            nexit("error: no polygon contains the integration region");
+        }
+
         // the boundary region is the polygon that is left
         boundary_region = *polygons_that_contain_integration_region.begin();
 
-- 
2.43.0


From 27fb034fbb836ad4355d9ed19461dc713cbb3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 12/29] fix: search for the surrounding region iterates a list
 it shrinks

After erasing a polygon the range loop went on over destroyed elements.
---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 907fc9a..325b4eb 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -201,6 +201,8 @@ namespace nikfemm {
                                     polygons_that_contain_integration_region.end(),
                                     polygon),
                         polygons_that_contain_integration_region.end());
+                    // the loop must start again because its iterators are not valid anymore
+                    break;
                 }
             }
             count++;
-- 
2.43.0


From 074ce882b9e5d8919081a9eb7bc59ea446c9a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 13/29] fix: edges with one element use an uninitialised
 neighbour in the field error

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 325b4eb..27f536c 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -252,7 +252,14 @@ namespace nikfemm {
                 uint32_t v1 = mesh.data.trianglelist[i][j];
                 uint32_t v2 = mesh.data.trianglelist[i][(j + 1) % 3];
                 uint64_t edge = v1 < v2 ? (uint64_t)v1 << 32 | v2 : (uint64_t)v2 << 32 | v1;
-                edge_to_triangles[edge].elems[edge_to_triangles[edge].count++] = i;
+                Edge& e = edge_to_triangles[edge];
+                if (e.count == 0) {
+                    // edges on the boundary have the same element on both sides
+                    e.elems[0] = e.elems[1] = i;
+                } else if (e.count == 1) {
+                    e.elems[1] = i;
+                }
+                e.count++;
             }
         }
 
-- 
2.43.0


From f1726e1ca3131f8f54d5950cffd0f7c1143f334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 14/29] fix: failed additions to an expression change nothing

Imposing a boundary value that ran out of memory half-way subtracted part of
an expression, and repeating it subtracted that part again.
---
 lib/nikfemm/src/algebra/non_linear.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/non_linear.hpp b/lib/nikfemm/src/algebra/non_linear.hpp
index dfaa115..a922fa8 100644
--- a/lib/nikfemm/src/algebra/non_linear.hpp
+++ b/lib/nikfemm/src/algebra/non_linear.hpp
@@ -28,8 +28,8 @@ namespace nikfemm {
         }
 
         NonLinearExpression& operator=(const NonLinearExpression& other) {
-            constant = other.constant;
             terms = other.terms;
+            constant = other.constant;
             return *this;
         }
 
@@ -44,6 +44,7 @@ namespace nikfemm {
         }
 
         NonLinearExpression& operator+=(const NonLinearExpression& other) {
+            terms.reserve(terms.size() + other.terms.size());  // all or nothing
             constant += other.constant;
             for (auto const& term : other.terms) {
                 terms.push_back(term);
@@ -62,6 +63,7 @@ namespace nikfemm {
         }
 
         NonLinearExpression& operator-=(const NonLinearExpression& other) {
+            terms.reserve(terms.size() + other.terms.size());  // all or nothing
             constant -= other.constant;
             for (auto const& term : other.terms) {
                 terms.push_back(NonLinearTerm{-term.linear_coefficient, term.nonlinear_coefficient_element_index});
-- 
2.43.0


From 7177b9e8127e6a5668b02247d96fdb19efb57614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 15/29] fix: minimum enclosing circle leaves points outside

---
 lib/nikfemm/src/geometry/circle.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..1285e89 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <cmath>
 #include <assert.h>
 #include <algorithm>
 #include <random>
@@ -28,6 +29,11 @@ namespace nikfemm {
         return !(*this == c);
     }
     
+    // points on the border of a computed circle may be slightly outside because of rounding
+    static bool containsRounded(const Circle& c, Vector p) {
+        return Vector::distance(c.center, p) <= c.radius * (1 + 1e-12) + 1e-14 * (fabs(p.x) + fabs(p.y));
+    }
+
     Circle Circle::trivialCircleFromPoints(std::vector<Vector> points) {
         assert(points.size() <= 3);
         if (points.size() == 0) {
@@ -43,7 +49,7 @@ namespace nikfemm {
             for (int j = i + 1; j < 3; j++) {
     
                 Circle c = getCircleFromPoints(points[i], points[j]);
-                if (c.containsPoints(points)) {
+                if (containsRounded(c, points[3 - i - j])) {
                     return c;
                 }
             }
@@ -53,7 +59,13 @@ namespace nikfemm {
     }
 
     Circle Circle::welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n) {
-        if (n == 0 || R.size() == 3) {
+        if (R.size() == 3) {
+            // all the points of R lie on the border of the searched circle
+            Circle c = getCircleFromPoints(R[0], R[1], R[2]);
+            return std::isfinite(c.radius) ? c : trivialCircleFromPoints(R);
+        }
+
+        if (n == 0) {
             return trivialCircleFromPoints(R);
         }
 
@@ -63,7 +75,7 @@ namespace nikfemm {
         std::swap(points[k], points[n - 1]);
         Circle c = welzlHelper(points, R, n - 1);
 
-        if (c.contains(p)) {
+        if (containsRounded(c, p)) {
             return c;
         }
 
-- 
2.43.0


From e7233b82004e4d1914d6a2683ad7e750042db9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 16/29] fix: file writing calls return normally when the file
 was not written

---
 lib/nikfemm/src/algebra/csr.cpp     | 18 ++++++-----
 lib/nikfemm/src/drawing/drawing.hpp |  2 +-
 lib/nikfemm/src/mesh/mesh.hpp       |  4 +--
 lib/nikfemm/src/utils/utils.cpp     | 46 +++++++++++++++++++++++++++++
 lib/nikfemm/src/utils/utils.hpp     | 21 +++++++++++++
 5 files changed, 80 insertions(+), 11 deletions(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 74025f0..e0d647c 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <algorithm>
+#include <charconv>
 #include <stdexcept>
 #include <assert.h>
 #include <math.h>
@@ -152,7 +153,7 @@ namespace nikfemm {
         }
 
         // save the image
-        cv::imwrite(filename, image);
+        writeImage(filename, image);
     };
 #endif
 
@@ -173,18 +174,19 @@ namespace nikfemm {
 
     void BaseCSR::write_to_file(const char *filename) {
         nloginfo("BaseCSR::write_to_file(%s)", filename);
-        FILE *f = fopen(filename, "w");
-        if (f == NULL) {
-            nexit("Error opening file!");
-        }
+        OutputFile f(filename);
+        char number[64];
 
         // iterate over CSR elements
         for (uint64_t i = 0; i < m; i++) {
             for (uint64_t j = 0; j < m; j++) {
-                fprintf(f, "%.17g ", (*this)(i, j));
+                // the same digits in every locale
+                auto r = std::to_chars(number, number + sizeof(number) - 1, (*this)(i, j), std::chars_format::general, 17);
+                *r.ptr++ = ' ';
+                f.write(number, r.ptr - number);
             }
-            fprintf(f, "\n");
+            f.write("\n", 1);
         }
-        fclose(f);
+        f.close();
     }
 }
\ No newline at end of file
diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 623e9eb..8b879bd 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -502,7 +502,7 @@ namespace nikfemm {
         plotRend(&image, width, height);
 
         // save the image
-        cv::imwrite(filename, image);
+        writeImage(filename, image);
     }
 #endif
 }
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 66f3b7f..2017a8e 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -825,7 +825,7 @@ namespace nikfemm {
         // flip image horizontally
         cv::flip(image, image, 0);
 
-        cv::imwrite(filename, image);
+        writeImage(filename, image);
     }
 
     template <typename Prop>
@@ -941,7 +941,7 @@ namespace nikfemm {
         cv::flip(image, image, 0);
 
         // save the image
-        cv::imwrite(filename, image);
+        writeImage(filename, image);
     }
 
     template <typename Prop>
diff --git a/lib/nikfemm/src/utils/utils.cpp b/lib/nikfemm/src/utils/utils.cpp
index 4bb0c40..9883516 100644
--- a/lib/nikfemm/src/utils/utils.cpp
+++ b/lib/nikfemm/src/utils/utils.cpp
@@ -1,4 +1,6 @@
 #include <cstdarg>
+#include <stdexcept>
+#include <vector>
 
 #include "utils.hpp"
 
@@ -46,7 +48,51 @@ namespace nikfemm {
 #endif
     }
 
+    OutputFile::OutputFile(std::string filename) : filename(filename) {
+        file = fopen(filename.c_str(), "wb");
+        if (file == NULL) {
+            nexit("Error opening file " + filename);
+        }
+    }
+
+    OutputFile::~OutputFile() {
+        if (file != NULL) {
+            fclose(file);
+        }
+    }
+
+    void OutputFile::fail() {
+        nexit("Error writing file " + filename);
+    }
+
+    void OutputFile::write(const void* data, size_t size) {
+        if (fwrite(data, 1, size, file) != size) {
+            fail();
+        }
+    }
+
+    void OutputFile::close() {
+        bool failed = fflush(file) != 0;
+        failed |= fclose(file) != 0;
+        file = NULL;
+        if (failed) {
+            fail();
+        }
+    }
+
 #ifdef NIKFEMM_USE_OPENCV
+    void writeImage(std::string filename, const cv::Mat& image) {
+        std::vector<unsigned char> encoded;
+        size_t dot = filename.rfind('.');
+        if (!cv::imencode(dot == std::string::npos ? "" : filename.substr(dot), image, encoded)) {
+            nexit("Error encoding image " + filename);
+        }
+
+        OutputFile file(filename);
+        file.write(encoded.data(), encoded.size());
+        file.close();
+    }
+
     cv::Scalar val2jet(double v, double vmin, double vmax) {
         cv::Scalar c = {255, 255, 255, 255}; // white
         double dv;
diff --git a/lib/nikfemm/src/utils/utils.hpp b/lib/nikfemm/src/utils/utils.hpp
index 4d06961..25006cb 100644
--- a/lib/nikfemm/src/utils/utils.hpp
+++ b/lib/nikfemm/src/utils/utils.hpp
@@ -1,6 +1,7 @@
 #ifndef NIK_UTILS_HPP
 #define NIK_UTILS_HPP
 
+#include <cstdio>
 #include <exception>
 #include <string>   
 #include <iostream>
@@ -23,8 +24,28 @@ namespace nikfemm {
 
 #ifdef NIKFEMM_USE_OPENCV
     cv::Scalar val2jet(double v, double vmin, double vmax);
+    // throws if the image could not be written completely
+    void writeImage(std::string filename, const cv::Mat& image);
 #endif
 
+    // a file being written, every failure throws
+    class OutputFile {
+        FILE* file;
+        std::string filename;
+
+        void fail();
+
+        public:
+        explicit OutputFile(std::string filename);
+        OutputFile(const OutputFile&) = delete;
+        OutputFile& operator=(const OutputFile&) = delete;
+        ~OutputFile();
+
+        void write(const void* data, size_t size);
+        // to be called after the last write, the file is complete only if it returns
+        void close();
+    };
+
     // gives an object back the value it had if an exception leaves the scope
     template <typename T>
     class RollbackOnException {
-- 
2.43.0


From 7a5f7158297ad1013a8cce878515e2a93246849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 17/29] fix: systems of drawings without regions read a null
 table

---
 lib/nikfemm/src/current_density/mesh.cpp |  2 ++
 lib/nikfemm/src/magnetostatic/mesh.cpp   |  1 +
 lib/nikfemm/src/mesh/mesh.hpp            | 10 ++++++++++
 3 files changed, 13 insertions(+)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index d54e00a..d4ce6f8 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -6,6 +6,7 @@ namespace nikfemm {
     }
 
     System<double> CurrentDensityMesh::getFemSystem() {
+        checkRegions();
         System<double> system(data.numberofpoints);
 
         auto start = std::chrono::high_resolution_clock::now();
@@ -91,6 +92,7 @@ namespace nikfemm {
     }
 
     System<double> CurrentDensityMesh::getFemSystemCotangentWeights() {
+        checkRegions();
         System<double> system(data.numberofpoints);
 
         auto start = std::chrono::high_resolution_clock::now();
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 5f3f0c2..feaf5ab 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -6,6 +6,7 @@ namespace nikfemm {
     }
 
     System<NonLinearExpression> MagnetostaticMesh::getFemSystem() {
+        checkRegions();
         System<NonLinearExpression> system(data.numberofpoints);
         // since the stiffness matrix is symmetric, this function only computes the upper triangular part
 
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 2017a8e..cdbb072 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -195,6 +195,7 @@ namespace nikfemm {
         Drawing<Prop> drawing;
 
         void mesh(double max_triangle_area = 1.0, int min_angle = 33);
+        void checkRegions() const;  // throws if the triangles have no properties
         void addKelvinBoundaryConditions(uint32_t boundary_points);
         void kelvinTransformCentered();
         void computeEpsilon();
@@ -326,6 +327,13 @@ namespace nikfemm {
         data.swap(out);
     }
 
+    template <typename Prop>
+    void Mesh<Prop>::checkRegions() const {
+        if (data.numberoftriangles > 0 && data.triangleattributelist == nullptr) {
+            nexit("The drawing has no regions");
+        }
+    }
+
     template <typename Prop>
     void Mesh<Prop>::kelvinTransformCentered() {
         // kelvin transform each Vertex<Prop> in the mesh
@@ -369,6 +377,8 @@ namespace nikfemm {
 
     template <typename Prop>
     void Mesh<Prop>::addKelvinBoundaryConditions(uint32_t boundary_points) {
+        checkRegions();
+
         // kelvin mesh = km
         // this mesh = tm
         // kelvin mesh boundary vertices = kmb
-- 
2.43.0


From c9529ed6f73f801edbb69ad35bb31030208e7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 18/29] fix: python: C++ exceptions end the interpreter

---
 python/nikfemm.cpp | 58 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4c193f2..ca037ff 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -7,6 +7,32 @@
 
 #include <Python.h>
 
+// sets the Python exception for the C++ exception that is being handled
+static void setPythonException() {
+    try {
+        throw;
+    } catch (std::bad_alloc&) {
+        PyErr_NoMemory();
+    } catch (std::invalid_argument& e) {
+        PyErr_SetString(PyExc_ValueError, e.what());
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        PyErr_SetString(PyExc_RuntimeError, "unknown error");
+    }
+}
+
+// no C++ exception may reach the interpreter
+template <auto method, typename Self>
+static PyObject* guarded(PyObject* self, PyObject* args) {
+    try {
+        return method((Self*)self, args, NULL);
+    } catch (...) {
+        setPythonException();
+        return NULL;
+    }
+}
+
 typedef struct {
     PyObject_HEAD
     nikfemm::System<double>* system;
@@ -55,7 +81,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     uint32_t num_layers;
     PyObject* depths;
 
-    if (self != NULL) {
+    if (self == NULL) {
+        return NULL;
+    } else {
         if (PyTuple_Size(args) == 2) {
             if (!PyArg_ParseTuple(args, "IO", &num_layers, &depths)) {
                 Py_XDECREF(self);
@@ -74,7 +102,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
         }
     }
 
-    self->simulation = new nikfemm::MultiLayerCurrentDensitySimulation(num_layers);
+    try {
+        self->simulation = new nikfemm::MultiLayerCurrentDensitySimulation(num_layers);
+    } catch (...) {
+        setPythonException();
+        Py_XDECREF(self);
+        return NULL;
+    }
 
     for (uint32_t i = 0; i < num_layers; i++) {
         PyObject* depth_item = PyList_GetItem(depths, i);
@@ -138,14 +172,14 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
 
     if (py_system == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Failed to create nikfemm_System object");
         return NULL;
     }
 
     try {
         py_system->system = new nikfemm::System(system);
-    } catch (std::exception& e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        setPythonException();
+        Py_DECREF(py_system);
         return NULL;
     }
 
@@ -533,13 +567,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
 }
 
 static PyMethodDef nikfemm_MultiLayerCurrentDensitySimulation_methods[] = {
-    {"generate_system", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_generateSystem, METH_VARARGS, "Generate system of linear equations for current density"},
-    {"solve", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_solve, METH_VARARGS, "Solve system of linear equations for current density"},
-    {"set_voltage", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_setVoltage, METH_VARARGS, "Set voltage on a node"},
-    {"add_interconnection", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
-    {"draw_rectangle", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle, METH_VARARGS, "Draw a rectangle on a layer"},
-    {"draw_region", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRegion, METH_VARARGS, "Draw a region on a layer"},
-    {"draw_polygon", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon, METH_VARARGS, "Draw a polygon on a layer"},
+    {"generate_system", guarded<nikfemm_MultiLayerCurrentDensitySimulation_generateSystem, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Generate system of linear equations for current density"},
+    {"solve", guarded<nikfemm_MultiLayerCurrentDensitySimulation_solve, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Solve system of linear equations for current density"},
+    {"set_voltage", guarded<nikfemm_MultiLayerCurrentDensitySimulation_setVoltage, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Set voltage on a node"},
+    {"add_interconnection", guarded<nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
+    {"draw_rectangle", guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Draw a rectangle on a layer"},
+    {"draw_region", guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRegion, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Draw a region on a layer"},
+    {"draw_polygon", guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon, nikfemm_MultiLayerCurrentDensitySimulation>, METH_VARARGS, "Draw a polygon on a layer"},
     {NULL} /* Sentinel */
 };
 
-- 
2.43.0


From dc936b8f43138c16865cf271e0e4c9fa73cdde19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 19/29] fix: python: arguments that are out of range, not
 finite or of the wrong system crash the interpreter

---
 python/nikfemm.cpp | 186 +++++++++++++++++++++++++++++++++------------
 1 file changed, 138 insertions(+), 48 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index ca037ff..dab3fa9 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <iostream>
 #include <string>
 #include <functional>
@@ -22,6 +23,27 @@ static void setPythonException() {
     }
 }
 
+// reads a float or an int
+static bool getNumber(PyObject* object, double* value) {
+    *value = PyFloat_Check(object) ? PyFloat_AsDouble(object) : PyLong_AsDouble(object);
+    if (PyErr_Occurred()) {
+        return false;
+    }
+    if (!std::isfinite(*value)) {
+        PyErr_SetString(PyExc_ValueError, "numbers must be finite");
+        return false;
+    }
+    return true;
+}
+
+static bool checkPoint(PyObject* list) {
+    if (PyList_Size(list) != 2) {
+        PyErr_SetString(PyExc_ValueError, "points must have two coordinates");
+        return false;
+    }
+    return true;
+}
+
 // no C++ exception may reach the interpreter
 template <auto method, typename Self>
 static PyObject* guarded(PyObject* self, PyObject* args) {
@@ -113,11 +135,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     for (uint32_t i = 0; i < num_layers; i++) {
         PyObject* depth_item = PyList_GetItem(depths, i);
 
-        if (PyFloat_Check(depth_item)) {
-            self->simulation->meshes[i].depth = PyFloat_AsDouble(depth_item);
-        } else if (PyLong_Check(depth_item)) {
-            // convert to double
-            self->simulation->meshes[i].depth = PyLong_AsDouble(depth_item);
+        if (PyFloat_Check(depth_item) || PyLong_Check(depth_item)) {
+            if (!getNumber(depth_item, &self->simulation->meshes[i].depth)) {
+                Py_XDECREF(self);
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "depth must be a double");
             Py_XDECREF(self);
@@ -134,6 +156,37 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     return (PyObject*)self;
 }
 
+// the voltages and the solution of a simulation need a system it generated
+static nikfemm::System<double>* getSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* object) {
+    nikfemm::System<double>* system = ((nikfemm_System*)object)->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the system was not generated by generate_system");
+        return NULL;
+    }
+
+    uint64_t number_of_points = 0;
+    for (auto& mesh : self->simulation->meshes) {
+        number_of_points += mesh.data.numberofpoints;
+    }
+    if (system->b.size() != number_of_points) {
+        PyErr_SetString(PyExc_ValueError, "the system does not belong to the current mesh of the simulation");
+        return NULL;
+    }
+    return system;
+}
+
+static bool getLayer(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* object, uint64_t* layer_id) {
+    *layer_id = PyLong_AsUnsignedLong(object);
+    if (PyErr_Occurred()) {
+        return false;
+    }
+    if (*layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_ValueError, "layer_id is out of range");
+        return false;
+    }
+    return true;
+}
+
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
     // generateSystem may have from 0 to 2 arguments which are: bool, double
     PyObject* refine = Py_True;
@@ -151,13 +204,21 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
                 PyErr_SetString(PyExc_TypeError, "min_angle must be a double");
                 return NULL;
             }
-            min_angle = PyFloat_AsDouble(PyTuple_GetItem(args, 2));
+            if (!getNumber(PyTuple_GetItem(args, 2), &min_angle)) {
+                return NULL;
+            }
+            if (min_angle < 0 || min_angle > 60) {
+                PyErr_SetString(PyExc_ValueError, "min_angle must be between 0 and 60 degrees");
+                return NULL;
+            }
         case 2:
             if (!PyFloat_Check(PyTuple_GetItem(args, 1)) && !PyLong_Check(PyTuple_GetItem(args, 1))) {
                 PyErr_SetString(PyExc_TypeError, "max_triangle_area must be a double");
                 return NULL;
             }
-            max_triangle_area = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
+            if (!getNumber(PyTuple_GetItem(args, 1), &max_triangle_area)) {
+                return NULL;
+            }
         case 1:
             if (!PyBool_Check(PyTuple_GetItem(args, 0))) {
                 PyErr_SetString(PyExc_TypeError, "refine must be a boolean");
@@ -230,7 +291,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
         }
     }
 
-    nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    nikfemm::System<double>* system = getSystem(self, PyTuple_GetItem(args, 0));
+    if (system == NULL) {
+        return NULL;
+    }
     std::vector<double> V = self->simulation->solve(*system);
     std::vector<double> P = self->simulation->computePowerDensity(V);
 
@@ -317,14 +381,20 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         }
     }
 
-    nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    nikfemm::System<double>* system = getSystem(self, PyTuple_GetItem(args, 0));
+    if (system == NULL) {
+        return NULL;
+    }
+    if (!checkPoint(PyTuple_GetItem(args, 1))) {
+        return NULL;
+    }
     double coords[2];
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 1), i);
-        if (PyFloat_Check(item)) {
-            coords[i] = PyFloat_AsDouble(item);
-        } else if (PyLong_Check(item)) {
-            coords[i] = PyLong_AsDouble(item);
+        if (PyFloat_Check(item) || PyLong_Check(item)) {
+            if (!getNumber(item, &coords[i])) {
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the second argument of type [double, double]");
             return NULL;
@@ -333,15 +403,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
 
     double V;
-    if (PyFloat_Check(PyTuple_GetItem(args, 2))) {
-        V = PyFloat_AsDouble(PyTuple_GetItem(args, 2));
-    } else if (PyLong_Check(PyTuple_GetItem(args, 2))) {
-        V = PyLong_AsDouble(PyTuple_GetItem(args, 2));
-    } else {
-        PyErr_SetString(PyExc_TypeError, "setVoltage must have the third argument of type double");
+    if (!getNumber(PyTuple_GetItem(args, 2), &V)) {
+        return NULL;
+    }
+    uint64_t layer_id;
+    if (!getLayer(self, PyTuple_GetItem(args, 3), &layer_id)) {
         return NULL;
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
 
     self->simulation->setVoltage(*system, p, V, layer_id);
 
@@ -383,12 +451,15 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     // the first two arguments are lists of doubles, convert them to Vector
     double coords[2][2];
     for (int i = 0; i < 2; i++) {
+        if (!checkPoint(PyTuple_GetItem(args, i))) {
+            return NULL;
+        }
         for (int j = 0; j < 2; j++) {
             PyObject* item = PyList_GetItem(PyTuple_GetItem(args, i), j);
-            if (PyFloat_Check(item)) {
-                coords[i][j] = PyFloat_AsDouble(item);
-            } else if (PyLong_Check(item)) {
-                coords[i][j] = PyLong_AsDouble(item);
+            if (PyFloat_Check(item) || PyLong_Check(item)) {
+                if (!getNumber(item, &coords[i][j])) {
+                    return NULL;
+                }
             } else {
                 PyErr_SetString(PyExc_TypeError, "add_interconnection must have the first two arguments of type [double, double]");
                 return NULL;
@@ -398,15 +469,16 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     // for each item if it is a long convert it to double, if it is a double use it
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer1_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
-    uint64_t layer2_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer1_id;
+    if (!getLayer(self, PyTuple_GetItem(args, 2), &layer1_id)) {
+        return NULL;
+    }
+    uint64_t layer2_id;
+    if (!getLayer(self, PyTuple_GetItem(args, 3), &layer2_id)) {
+        return NULL;
+    }
     double R;
-    if (PyFloat_Check(PyTuple_GetItem(args, 4))) {
-        R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
-    } else if (PyLong_Check(PyTuple_GetItem(args, 4))) {
-        R = PyLong_AsDouble(PyTuple_GetItem(args, 4));
-    } else {
-        PyErr_SetString(PyExc_TypeError, "add_interconnection must have the fifth argument of type double");
+    if (!getNumber(PyTuple_GetItem(args, 4), &R)) {
         return NULL;
     }
 
@@ -443,12 +515,15 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     // the first two arguments are tuples of doubles, convert them to Vector
     double coords[2][2];
     for (int i = 0; i < 2; i++) {
+        if (!checkPoint(PyTuple_GetItem(args, i))) {
+            return NULL;
+        }
         for (int j = 0; j < 2; j++) {
             PyObject* item = PyList_GetItem(PyTuple_GetItem(args, i), j);
-            if (PyFloat_Check(item)) {
-                coords[i][j] = PyFloat_AsDouble(item);
-            } else if (PyLong_Check(item)) {
-                coords[i][j] = PyLong_AsDouble(item);
+            if (PyFloat_Check(item) || PyLong_Check(item)) {
+                if (!getNumber(item, &coords[i][j])) {
+                    return NULL;
+                }
             } else {
                 PyErr_SetString(PyExc_TypeError, "drawRectangle must have the first two arguments of type (double, double)");
                 return NULL;
@@ -457,7 +532,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     }
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!getLayer(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
@@ -489,21 +567,30 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
 
     // extract arguments
     // the first argument is a tuple of doubles, convert it to Vector
+    if (!checkPoint(PyTuple_GetItem(args, 0))) {
+        return NULL;
+    }
     double coords[2];
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 0), i);
-        if (PyFloat_Check(item)) {
-            coords[i] = PyFloat_AsDouble(item);
-        } else if (PyLong_Check(item)) {
-            coords[i] = PyLong_AsDouble(item);
+        if (PyFloat_Check(item) || PyLong_Check(item)) {
+            if (!getNumber(item, &coords[i])) {
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
         }
     }
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
-    double material = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    double material;
+    if (!getNumber(PyTuple_GetItem(args, 1), &material)) {
+        return NULL;
+    }
+    uint64_t layer_id;
+    if (!getLayer(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
@@ -545,10 +632,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         double coords[2];
         for (int j = 0; j < 2; j++) {
             PyObject* subitem = PyList_GetItem(item, j);
-            if (PyFloat_Check(subitem)) {
-                coords[j] = PyFloat_AsDouble(subitem);
-            } else if (PyLong_Check(subitem)) {
-                coords[j] = PyLong_AsDouble(subitem);
+            if (PyFloat_Check(subitem) || PyLong_Check(subitem)) {
+                if (!getNumber(subitem, &coords[j])) {
+                    return NULL;
+                }
             } else {
                 PyErr_SetString(PyExc_TypeError, "drawPolygon must have the first argument of type [[double, double], ...]");
                 return NULL;
@@ -556,7 +643,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         }
         points.push_back(nikfemm::Vector(coords[0], coords[1]));
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
+    uint64_t layer_id;
+    if (!getLayer(self, PyTuple_GetItem(args, 1), &layer_id)) {
+        return NULL;
+    }
 
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
-- 
2.43.0


From b66497dedb5d042f252da10976f4d1132724fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 20/29] fix: python: results leak their items, failing
 allocations are not checked

---
 python/nikfemm.cpp | 118 +++++++++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 42 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index dab3fa9..b488d1c 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <iostream>
+#include <memory>
 #include <string>
 #include <functional>
 #include <iomanip>
@@ -44,11 +45,51 @@ static bool checkPoint(PyObject* list) {
     return true;
 }
 
+// thrown when a Python exception is already set
+struct PythonError {};
+
+struct DecRef {
+    void operator()(PyObject* object) const {
+        Py_DECREF(object);
+    }
+};
+typedef std::unique_ptr<PyObject, DecRef> PyRef;
+
+// takes over a new reference
+static PyRef owned(PyObject* object) {
+    if (object == NULL) {
+        throw PythonError();
+    }
+    return PyRef(object);
+}
+
+static PyRef number(uint64_t value) {
+    return owned(PyLong_FromUnsignedLong(value));
+}
+
+static PyRef number(double value) {
+    return owned(PyFloat_FromDouble(value));
+}
+
+static PyRef list(uint64_t size) {
+    return owned(PyList_New(size));
+}
+
+template <typename... Items>
+static PyRef tuple(Items... items) {
+    PyRef result = owned(PyTuple_New(sizeof...(items)));
+    Py_ssize_t i = 0;
+    (PyTuple_SET_ITEM(result.get(), i++, items.release()), ...);
+    return result;
+}
+
 // no C++ exception may reach the interpreter
 template <auto method, typename Self>
 static PyObject* guarded(PyObject* self, PyObject* args) {
     try {
         return method((Self*)self, args, NULL);
+    } catch (PythonError&) {
+        return NULL;
     } catch (...) {
         setPythonException();
         return NULL;
@@ -228,21 +269,14 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         default:
             break;
     }
-    auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
 
-    nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
+    // a failure below must not leave the simulation half generated
+    nikfemm::RollbackOnException rollback(self->simulation->meshes);
 
-    if (py_system == NULL) {
-        return NULL;
-    }
+    auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
 
-    try {
-        py_system->system = new nikfemm::System(system);
-    } catch (...) {
-        setPythonException();
-        Py_DECREF(py_system);
-        return NULL;
-    }
+    PyRef py_system = owned(PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL));
+    ((nikfemm_System*)py_system.get())->system = new nikfemm::System(system);
 
     std::vector<uint64_t> layer_offsets;
     uint64_t layer_offset = 0;
@@ -252,32 +286,32 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     }
 
     // return triangles and vertices too
-    PyObject* triangles = PyList_New(self->simulation->meshes.size());
+    PyRef triangles = list(self->simulation->meshes.size());
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
-        PyObject* mytriangles = PyList_New(self->simulation->meshes[i].data.numberoftriangles);
+        PyRef mytriangles = list(self->simulation->meshes[i].data.numberoftriangles);
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(3, PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i]));
-            PyList_SetItem(mytriangles, j, triangle);
+            PyRef triangle = tuple(number(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
+                                   number(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
+                                   number(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i]));
+            PyList_SET_ITEM(mytriangles.get(), j, triangle.release());
         }
-        PyList_SetItem(triangles, i, mytriangles);
+        PyList_SET_ITEM(triangles.get(), i, mytriangles.release());
     }
 
-    PyObject* vertices = PyList_New(layer_offset);
+    PyRef vertices = list(layer_offset);
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* vertex = PyTuple_Pack(2, PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
-                                              PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y));
-            PyList_SetItem(vertices, j + layer_offsets[i], vertex);
+            PyRef vertex = tuple(number(self->simulation->meshes[i].data.pointlist[j].x),
+                                 number(self->simulation->meshes[i].data.pointlist[j].y));
+            PyList_SET_ITEM(vertices.get(), j + layer_offsets[i], vertex.release());
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, (PyObject*)py_system, triangles, vertices);
+    PyRef result = tuple(std::move(py_system), std::move(triangles), std::move(vertices));
 
-    return (PyObject*)result;
+    return result.release();
 }
 
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
@@ -301,7 +335,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     // create list of tuples like this: [(int, double, double, double), ...]
     // where the first element is the layer id, and the next three are the x, y, and voltage
 
-    PyObject* voltages = PyList_New(V.size());
+    PyRef voltages = list(V.size());
 
     std::vector<uint64_t> layer_offsets;
     uint64_t layer_offset = 0;
@@ -312,22 +346,22 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* voltage = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
-                                                PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
-                                                PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y), 
-                                                PyFloat_FromDouble(V[j + layer_offsets[i]]));
-            PyList_SetItem(voltages, j + layer_offsets[i], voltage);
+            PyRef voltage = tuple(number(i),
+                                  number(self->simulation->meshes[i].data.pointlist[j].x),
+                                  number(self->simulation->meshes[i].data.pointlist[j].y),
+                                  number(V[j + layer_offsets[i]]));
+            PyList_SET_ITEM(voltages.get(), j + layer_offsets[i], voltage.release());
         }
     }
 
     // create list of tuples like this: [(int, double), ...]
     // where the first element is the layer id, and the next is the power density
 
-    PyObject* power_densities = PyList_New(P.size());
+    PyRef power_densities = list(P.size());
 
     for (uint64_t i = 0; i < P.size(); i++) {
-        PyObject* power_density = PyTuple_Pack(2, PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
-        PyList_SetItem(power_densities, i, power_density);
+        PyRef power_density = tuple(number(i), number(P[i]));
+        PyList_SET_ITEM(power_densities.get(), i, power_density.release());
     }
 
     // create list of tuples like this with the triangles: [(int, int, int, int), ...]
@@ -340,22 +374,22 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
         total_number_of_triangles += mesh.data.numberoftriangles;
     }
 
-    PyObject* triangles = PyList_New(total_number_of_triangles);
+    PyRef triangles = list(total_number_of_triangles);
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i])
+            PyRef triangle = tuple(number(i),
+                                   number(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
+                                   number(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
+                                   number(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i])
             );
-            PyList_SetItem(triangles, j + triangle_offsets[i], triangle);
+            PyList_SET_ITEM(triangles.get(), j + triangle_offsets[i], triangle.release());
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, voltages, triangles, power_densities);
+    PyRef result = tuple(std::move(voltages), std::move(triangles), std::move(power_densities));
 
-    return result;
+    return result.release();
 }
 
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
-- 
2.43.0


From a63042c570d0b11fee046f7971b955e50bf615c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 21/29] fix: meshing coordinates beyond the mesher's arithmetic
 crashes

---
 lib/nikfemm/src/mesh/mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index cdbb072..f7c00c5 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -260,7 +260,14 @@ namespace nikfemm {
         std::vector<int> in_segments(in.numberofsegments * 2);
         in.segmentlist = in_segments.data();
 
+        // the exact arithmetic of the mesher overflows beyond this
+        const double max_coordinate = 0x1p201;
+
         for (uint32_t i = 0; i < drawing.points.size(); i++) {
+            // also refuses what is not a number
+            if (!(fabs(drawing.points[i].x) <= max_coordinate && fabs(drawing.points[i].y) <= max_coordinate)) {
+                nexit("The drawing has points that are too far away to be meshed");
+            }
             in.pointlist[2 * i] = drawing.points[i].x;
             in.pointlist[2 * i + 1] = drawing.points[i].y;
         }
-- 
2.43.0


From e9ddac4107cf5429d00723c1130a9c1cdd157f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 22/29] fix: drawing a polygon without points reads past its
 end

---
 lib/nikfemm/src/drawing/drawing.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 8b879bd..f46db94 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -141,6 +141,9 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPolygon(Vector* points, uint32_t n_points) {
+        if (n_points == 0) {
+            nexit("Error: polygon without points");
+        }
         for (uint32_t i = 0; i < n_points - 1; i++) {
             drawSegment(points[i], points[i + 1]);
         }
-- 
2.43.0


From 7278adbfcfc6d3c334de0589b43b05d848ab5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 23/29] fix: a failed refinement of a drawing adds some of its
 points

---
 lib/nikfemm/src/drawing/drawing.hpp    | 4 +++-
 lib/nikfemm/src/magnetostatic/mesh.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index f46db94..7786b41 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -282,6 +282,7 @@ namespace nikfemm {
         double epsilon = getCurrentEpsilon();
 
         uint32_t n_points = points.size();
+        std::vector<Vector> refining_points;  // added at the end, all or none
 
         // for each corner, add as many points as possible and make sure they are at least 20 degrees apart
         // points should also stay away from the segments
@@ -347,10 +348,11 @@ namespace nikfemm {
                 }
 
                 if (!too_close && is_contained_in_a_polygon) {
-                    points.push_back(p);
+                    refining_points.push_back(p);
                 }
             }
         }
+        points.insert(points.end(), refining_points.begin(), refining_points.end());
     }
 
     template <typename Prop>
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index feaf5ab..796354a 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -233,6 +233,8 @@ namespace nikfemm {
     }
 
     void MagnetostaticMesh::refineMeshAroundMagnets() {
+        // all points are added or none
+        RollbackOnException rollback(drawing.points);
 
         // add magnets refining points
         // first we have to find the polygons that are magnets
-- 
2.43.0


From 37a69bd7739e00b43bdabd6c1c91707eb9318d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 24/29] fix: triangles with coincident corners overflow the
 mesher's queues

---
 lib/nikfemm/src/triangle/triangle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index e3739b8..608046d 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -352,6 +352,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
+#include <float.h>
 #ifndef NO_TIMER
 #include <sys/time.h>
 #endif /* not NO_TIMER */
@@ -6962,6 +6963,10 @@ struct badtriang *badtri;
     length = 1.0 / badtri->key;
     posexponent = 0;
   }
+  /* A key without a finite reciprocal goes into the last queue. */
+  if (length > DBL_MAX) {
+    length = DBL_MAX;
+  }
   /* `length' is approximately 2.0 to what exponent?  The following code */
   /*   determines the answer in time logarithmic in the exponent.        */
   exponent = 0;
-- 
2.43.0


From 4262b401d522243586ca371f68a918bb58bcfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 25/29] fix: matrices with holes in their diagonal overflow the
 compressed arrays

---
 lib/nikfemm/src/algebra/csr.cpp        | 5 ++++-
 lib/nikfemm/src/algebra/non_linear.cpp | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index e0d647c..21d10f5 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -63,7 +63,10 @@ namespace nikfemm {
             return a.first < b.first;
         });
 
-        nnz = elems.size() - m;
+        // the diagonal may have holes
+        nnz = std::count_if(elems.begin(), elems.end(), [](const auto& elem) {
+            return (elem.first >> 32) != (elem.first & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
diff --git a/lib/nikfemm/src/algebra/non_linear.cpp b/lib/nikfemm/src/algebra/non_linear.cpp
index f9a2e96..a9780a8 100644
--- a/lib/nikfemm/src/algebra/non_linear.cpp
+++ b/lib/nikfemm/src/algebra/non_linear.cpp
@@ -23,7 +23,10 @@ namespace nikfemm {
         // sort elems by key
         std::sort(keys.begin(), keys.end());
 
-        nnz = coo.elems.size() - m;
+        // the diagonal may have holes
+        nnz = std::count_if(keys.begin(), keys.end(), [](uint64_t key) {
+            return (key >> 32) != (key & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
@@ -58,7 +61,7 @@ namespace nikfemm {
         // diagonal
         for (uint32_t i = 0; i < m; i++) {
             double old_val = diag[i];
-            diag[i] = diag_expr[i]->evaluate(mu);
+            diag[i] = diag_expr[i] ? diag_expr[i]->evaluate(mu) : 0;
         }
         // off-diagonal
         for (uint32_t i = 0; i < nnz; i++) {
-- 
2.43.0


From aa9c0127aee241823521657bf5555c77212d9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:51 +0000
Subject: [PATCH 26/29] fix: a shape that fails part-way leaves some of its
 vertices in the drawing

---
 lib/nikfemm/src/drawing/drawing.hpp | 59 ++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 7786b41..4f04f6e 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -93,6 +93,8 @@ namespace nikfemm {
             void translate(Vector v);
             Prop getPolygonProp(Polygon p);
         private:
+            template <typename F>
+            void allOrNothing(F f);
             void drawSegment(Vector p1, Vector p2);
             void drawSegment(Segment s);
     };
@@ -103,13 +105,30 @@ namespace nikfemm {
 
     }
 
+    // runs f, which draws one shape; if it fails the drawing is as it was before
+    template <typename Prop>
+    template <typename F>
+    void Drawing<Prop>::allOrNothing(F f) {
+        size_t n_points = points.size();
+        size_t n_segments = segments.size();
+        try {
+            f();
+        } catch (...) {
+            points.erase(points.begin() + n_points, points.end());
+            segments.erase(segments.begin() + n_segments, segments.end());
+            throw;
+        }
+    }
+
     template <typename Prop>
     void Drawing<Prop>::drawRectangle(Vector p1, Vector p2) {
-        drawSegment(p1, Vector(p2.x, p1.y));
-        drawSegment(Vector(p2.x, p1.y), p2);
-        drawSegment(p2, Vector(p1.x, p2.y));
-        drawSegment(Vector(p1.x, p2.y), p1);
-        polygons.push_back(Polygon({p1, Vector(p2.x, p1.y), p2, Vector(p1.x, p2.y)}));
+        allOrNothing([&]() {
+            drawSegment(p1, Vector(p2.x, p1.y));
+            drawSegment(Vector(p2.x, p1.y), p2);
+            drawSegment(p2, Vector(p1.x, p2.y));
+            drawSegment(Vector(p1.x, p2.y), p1);
+            polygons.push_back(Polygon({p1, Vector(p2.x, p1.y), p2, Vector(p1.x, p2.y)}));
+        });
     }
 
     template <typename Prop>
@@ -124,14 +143,16 @@ namespace nikfemm {
         Vector p1 = Vector(p.x + radius, p.y);
         Vector p2;
         std::vector<Vector> my_points;
-        for (uint32_t i = 0; i < n_segments; i++) {
-            angle += angle_step;
-            p2 = Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
-            drawSegment(p1, p2);
-            p1 = p2;
-            my_points.push_back(p2);
-        }
-        polygons.push_back(Polygon(my_points));
+        allOrNothing([&]() {
+            for (uint32_t i = 0; i < n_segments; i++) {
+                angle += angle_step;
+                p2 = Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
+                drawSegment(p1, p2);
+                p1 = p2;
+                my_points.push_back(p2);
+            }
+            polygons.push_back(Polygon(my_points));
+        });
     }
 
     template <typename Prop>
@@ -144,11 +165,13 @@ namespace nikfemm {
         if (n_points == 0) {
             nexit("Error: polygon without points");
         }
-        for (uint32_t i = 0; i < n_points - 1; i++) {
-            drawSegment(points[i], points[i + 1]);
-        }
-        drawSegment(points[n_points - 1], points[0]);
-        polygons.push_back(Polygon(points, n_points));
+        allOrNothing([&]() {
+            for (uint32_t i = 0; i < n_points - 1; i++) {
+                drawSegment(points[i], points[i + 1]);
+            }
+            drawSegment(points[n_points - 1], points[0]);
+            polygons.push_back(Polygon(points, n_points));
+        });
     }
 
     template <typename Prop>
-- 
2.43.0


From 1a843fd821c7c4e2647e08061bd0e178226dab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:30 +0000
Subject: [PATCH 27/29] fix: a region label outside the mesh no longer crashes
 the point location

---
 lib/nikfemm/src/triangle/triangle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 608046d..1906522 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -7806,7 +7806,12 @@ struct otri *searchtri;
   if (ahead < 0.0) {
     /* Turn around so that `searchpoint' is to the left of the */
     /*   edge specified by `searchtri'.                        */
-    symself(*searchtri);
+    sym(*searchtri, sampletri);
+    if (sampletri.tri == m->dummytri) {
+      /* There is nothing beyond a boundary edge. */
+      return OUTSIDE;
+    }
+    otricopy(sampletri, *searchtri);
   } else if (ahead == 0.0) {
     /* Check if `searchpoint' is between `torg' and `tdest'. */
     if (((torg[0] < searchpoint[0]) == (searchpoint[0] < tdest[0])) &&
-- 
2.43.0


From 8b446467c83aea954d54178f1b1790ef105d8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:59 +0000
Subject: [PATCH 28/29] fix: python: a number of layers beyond 32 bits is cut
 off instead of refused

---
 python/nikfemm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index b488d1c..733f67d 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -141,19 +141,19 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     // constructor must have 2 arguments
 
     self = (nikfemm_MultiLayerCurrentDensitySimulation*)type->tp_alloc(type, 0);
-    uint32_t num_layers;
+    Py_ssize_t num_layers;
     PyObject* depths;
 
     if (self == NULL) {
         return NULL;
     } else {
         if (PyTuple_Size(args) == 2) {
-            if (!PyArg_ParseTuple(args, "IO", &num_layers, &depths)) {
+            if (!PyArg_ParseTuple(args, "nO", &num_layers, &depths)) {
                 Py_XDECREF(self);
                 return NULL;
             }
 
-            if (PyList_Size(depths) != num_layers) {
+            if (num_layers < 0 || num_layers > UINT32_MAX || PyList_Size(depths) != num_layers) {
                 PyErr_SetString(PyExc_ValueError, "depths.size() != num_layers");
                 Py_XDECREF(self);
                 return NULL;
-- 
2.43.0


From 19c73c2e9c9a5e079bd3b5fc3d7ddfbc80b7a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:34 +0000
Subject: [PATCH 29/29] fix: solving a system without unknowns no longer runs
 past the preconditioner's vectors

---
 lib/nikfemm/src/algebra/solvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..15680a5 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -23,7 +23,7 @@ namespace nikfemm {
         }
 
         // invert upper triangle
-        for (int64_t i = A.m - 1; i >= 0; i--) {
+        for (int64_t i = (int64_t)A.m - 1; i >= 0; i--) {
             for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) {
                 result[i] -= A.val[k] * result[A.col_ind[k]] * omega;
             }
-- 
2.43.0

