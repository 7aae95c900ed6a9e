From 9809bafdb954a9d3abdf85061aa2c85f9fa6c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 01/29] fix: Matrix4::inverse refused every small matrix as
 singular

The determinant was compared with an absolute threshold, so a uniform scale
below ~0.02 was reported as not invertible and its placement left without an
inverse. Compare it with the magnitude of the matrix instead.
---
 src/geometry/matrix4.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..9f01d36 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,13 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    //the determinant shrinks with the cube of the scale: compare it with the
+    //magnitude of the matrix, otherwise every small matrix looks singular
+    float mag = 0.f;
+    const float block[9] = {m00, m01, m02, m10, m11, m12, m20, m21, m22};
+    for(int i = 0; i<9; i++)
+        mag = max(mag, std::fabs(block[i]));
+    if(std::fabs(det)<=EPSILON*min(1.f, mag*mag*mag))
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From fe1915e54ec50883b4dfca3aa21a8dd0cd75f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 02/29] fix: Sphere: the far crossing must respect the best
 distance when the near one is masked

---
 src/primitives/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..47990e4 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2))
+        else if(!std::isnan(sol2) && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From f25cd59f29f4cb751d65d95473a602cc1dcd006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 03/29] fix: Triangle: the alpha mask was filtered with du in
 place of dv

---
 src/primitives/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..f25d693 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From 50c6b66af1220bb29c9ebef117d27384eca0d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 04/29] fix: Box: a hit from inside reported the normal of the
 entry axis

---
 src/primitives/box.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 04e5efd..a25dd8a 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -62,6 +62,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
+    char axis_far = 0; //same, but for rays starting inside the box
 
     //x plane
     float invr = 1.0f/r->direction.x;
@@ -83,7 +84,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 1;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        axis_far = 1;
+    }
     if(mint>maxt)
         return false;
 
@@ -98,7 +103,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 2;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        axis_far = 2;
+    }
     if(mint>maxt)
         return false;
     float tmpdistance;
@@ -107,6 +116,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     else if(maxt>SELF_INTERSECT_ERROR)
     {
         inside = true;
+        axis = axis_far;
         tmpdistance = maxt;
     }
     else
-- 
2.43.0


From 6fe50b6543d0b8a6fb750bb76c77b837a3d39a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 05/29] fix: Mesh::sample_point sampled the triangle before the
 one selected by area

---
 src/primitives/mesh.cpp | 53 ++++++++++-------------------------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..a78df2f 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -2,6 +2,7 @@
 //license: GNU GPLv3
 
 #include "mesh.hpp"
+#include <algorithm>
 
 Mesh::Mesh(unsigned int size)
 {
@@ -173,45 +174,15 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //flatten the random value between 0.0 and the total area
     float extSample = lerp(r0, 0.0f, densities[count-1]);
 
-    //divide et impera search
-    int start = 0;
-    int end = count-1;
-    int mid;
-    //the sample in the interval [0,1]. After processing the lerp step
-    float sample01;
-
-    //limit cases, they generate infinite loops
-    //first triangle of the array
-    if(extSample<densities[0])
-    {
-        sample01 = inverse_lerp(extSample, 0, densities[0]);
-        tris[0].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-    //last triangle of the array
-    if(extSample>densities[end-1])
-    {
-        sample01 = inverse_lerp(extSample-densities[end-1], 0,
-                                densities[end]-densities[end-1]);
-        tris[end].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-
-    //find the sampled triangle by using cumulative areas (cdf)
-    while(true)
-    {
-        mid = (start+end)/2;
-        //mid contains the value
-        if(densities[mid]<=extSample && densities[mid+1]>extSample)
-            break;
-        else if(densities[mid]>extSample)
-            end = mid;
-        else
-            start = mid;
-    }
-
-    //sample the triangle
-    sample01 = inverse_lerp(extSample-densities[mid], 0,
-                            densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    //find the first triangle whose cumulative area is past the sample. Being
+    //past it, the area of that triangle is never zero
+    const float* end = densities+count;
+    const float* found = std::upper_bound(densities, end, extSample);
+    if(found == end) //extSample is the total area
+        found = std::lower_bound(densities, end, densities[count-1]);
+    const float previous = found == densities?0.f:*(found-1);
+
+    //sample the triangle, after mapping the variate in the interval [0,1]
+    float sample01 = inverse_lerp(extSample-previous, 0, *found-previous);
+    tris[found-densities].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From 0189c004a35f19a9b7e53253c1c758ffb5229510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 06/29] fix: Bvh::intersect overflowed its stack on trees
 deeper than 32 levels

---
 src/accelerators/bvh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..80c607f 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -402,7 +402,7 @@ void Bvh::flatten(void* n, uint32_t* index)
     delete (node);
 }
 
-///Max depth of the Bvh tree
+///Expected depth of the Bvh tree, a deeper one just grows the traversal stack
 #define BVH_MAX_DEPTH 32
 
 bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
@@ -413,8 +413,9 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
     float dmax;
     bool found = false;
 
-    BvhNode* jobs[BVH_MAX_DEPTH];
-    unsigned char jobs_stack_top = 0;
+    //the agglomerative clustering does not bound the depth of the tree
+    std::vector<BvhNode*> jobs(BVH_MAX_DEPTH);
+    size_t jobs_stack_top = 0;
     BvhNode* node = Bvh::nodesList;
     while(node != NULL)
     {
@@ -439,6 +440,8 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
             }
             else //interior node
             {
+                if(jobs_stack_top == jobs.size())
+                    jobs.resize(jobs.size()*2);
                 if(*(&rp.isXInvNeg+node->axis))//better try the other side first
                 {
                     jobs[jobs_stack_top++] = node+1;
-- 
2.43.0


From 04a6bf9973074e693232b7eafc6fa39e93de668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:43 +0000
Subject: [PATCH 07/29] fix: KdTree dropped flat assets whose two sides were
 sorted the wrong way round

---
 src/accelerators/kdtree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..a83afe2 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -108,9 +108,12 @@ namespace KdHelpers
     };
 
     //used to sort the splicandidate in the kdtree build
+    //the left side of an aabb always precedes its right side, even if flat,
+    //otherwise the asset could end up in none of the children
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
-        return s1.pos<s2.pos;
+        return s1.pos<s2.pos ||
+               (s1.pos == s2.pos && s1.isLeftSide && !s2.isLeftSide);
     }
 
     //helper structure for kd tree traversal
-- 
2.43.0


From fb1a2dc653faca6e3df7362dd50d199f5bc1cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 08/29] fix: KdTree wrote past its assets array when the leaves
 reference more than _MAX_ASSETS_ assets

---
 src/accelerators/kdtree.cpp | 16 ++++++++++++----
 src/accelerators/kdtree.hpp |  4 ++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index a83afe2..0e5c939 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -153,11 +153,19 @@ KdTree::~KdTree()
 
 void KdTree::addAsset(const Asset* addme)
 {
-    if(assets_number == _MAX_ASSETS_)
+    if(assets_number>=_MAX_ASSETS_)
+    {
         Console.severe(MESSAGE_MAXASSETNUMBER);
+        return;
+    }
+    appendAsset(addme);
+}
+
+void KdTree::appendAsset(const Asset* addme)
+{
     if(assets_number == assets_allocated)
     {
-        int allocNo = min(assets_allocated << 1, _MAX_ASSETS_);
+        int allocNo = assets_allocated << 1;
         const Asset** tmp = (const Asset**)malloc(sizeof(Asset*)*(allocNo));
         if(tmp)
         {
@@ -275,7 +283,7 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
         //now i can reference them with a pointer to the first and the number
         //of assets for the leaf
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::appendAsset(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -370,7 +378,7 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
         node->offset_start = KdTree::assets_number;
         node->assets_number = a_n;
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::appendAsset(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
diff --git a/src/accelerators/kdtree.hpp b/src/accelerators/kdtree.hpp
index 00831f8..c59b0e5 100644
--- a/src/accelerators/kdtree.hpp
+++ b/src/accelerators/kdtree.hpp
@@ -227,6 +227,10 @@ public:
 
 private:
 
+    //append an asset to the array, the leaves can reference the same asset
+    //several times so this is not bounded by the maximum number of assets
+    void appendAsset(const Asset* addme);
+
     //recursive step for the build
     void build(void* node, char depth, void* split_candidates,
                Asset** assets_list, unsigned int assets_number, AABB area);
-- 
2.43.0


From 92055f2030877ae400f0a23be1b8c0fad83579ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:43 +0000
Subject: [PATCH 09/29] fix: shadow and camera rays evaluated alpha masks with
 an uninitialised or stale footprint

---
 src/primitives/hit_point.hpp | 5 +++++
 src/renderer.cpp             | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/primitives/hit_point.hpp b/src/primitives/hit_point.hpp
index 1f97c3a..465b067 100644
--- a/src/primitives/hit_point.hpp
+++ b/src/primitives/hit_point.hpp
@@ -55,6 +55,11 @@ struct HitPoint
 
     //true if the values du and dv are set
     bool differentials;
+
+    ///Default constructor, du and dv are not available until they are calculated
+    HitPoint():differentials(false)
+    {
+    }
 };
 
 void calculate_differentials(HitPoint* hp, Ray* rx, Ray* ry);
diff --git a/src/renderer.cpp b/src/renderer.cpp
index b683157..02f91ef 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -225,6 +225,7 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
             for(int i = 0; i<spp; i++)
             {
                 camera->create_ray(&(samples[i]), &r, &rx, &ry);
+                h.differentials = false; //still those of the previous sample
                 if(scene->k.intersect(&r, &h))
                 {
                     calculate_differentials(&h, &rx, &ry);
-- 
2.43.0


From 6cc941d52b4d4e069ddbee06767b81034c531ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 10/29] fix: samples skipped the last row and column of pixels
 in the range of the filter

---
 src/cameras/image_film.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..075dfe0 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -59,12 +59,12 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     int update_y1 = (int)floorf(centre_y+filter->range_y);
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
-    update_x1 = min(update_x1, width);
-    update_y1 = min(update_y1, height);
+    update_x1 = min(update_x1, width-1);
+    update_y1 = min(update_y1, height-1);
 
     //foreach affected pixel
-    for(int y = update_y0; y<update_y1; y++)
-        for(int x = update_x0; x<update_x1; x++)
+    for(int y = update_y0; y<=update_y1; y++)
+        for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
             if(x<secure_area->startx || x>secure_area->endx ||
-- 
2.43.0


From 432e6648f63cd61cddae769364a9a916f47f68fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:07 +0000
Subject: [PATCH 11/29] fix: pixels near the border of a tile were written
 without the lock while the neighbours wrote them too

---
 src/cameras/image_film.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 075dfe0..f3adec7 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -67,8 +67,12 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
         for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            //pixels near the border are in the range of the filter also for
+            //the samples of the neighbouring areas
+            if(x<secure_area->startx+filter->range_x ||
+               x>=secure_area->endx-filter->range_x ||
+               y<secure_area->starty+filter->range_y ||
+               y>=secure_area->endy-filter->range_y)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From 45b8c6287414c71a04787b38fff9177cb2849afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:30 +0000
Subject: [PATCH 12/29] fix: auxiliary rays of the orthographic camera were
 offset in camera units instead of pixels

---
 src/cameras/camera_orthographic.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..b91440b 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -58,20 +58,17 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     Matrix4 raster2screen(values);
     raster2world *= screen2camera;
     raster2world *= raster2screen;
-    Matrix4 raster2camera;
-    raster2camera.set_identity();
-    raster2camera *= screen2camera;
-    raster2camera *= raster2screen;
-    dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
+    //offset of the next pixel, in world space
+    dx = raster2world*Vec3(1, 0, 0);
+    dy = raster2world*Vec3(0, 1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
                                     Ray* ry) const
 {
     ray->origin = raster2world*Point3(spl->posx, spl->posy, 0);
-    rx->origin = raster2world*Point3(spl->posx+dx.x, spl->posy+dx.y, dx.z);
-    ry->origin = raster2world*Point3(spl->posx+dy.x, spl->posy+dy.y, dy.z);
+    rx->origin = ray->origin+dx;
+    ry->origin = ray->origin+dy;
     ray->direction = camera2world*Vec3(0, 0, 1);
     rx->direction = ray->direction;
     ry->direction = ray->direction;
-- 
2.43.0


From 0cc29fc4027a9b30863af78d8648dea2d866c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:11 +0000
Subject: [PATCH 13/29] fix: destroying a mesh that was not finalized freed an
 uninitialised pointer

---
 src/accelerators/bvh.cpp | 6 ++++++
 src/accelerators/bvh.hpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 80c607f..11ef0f0 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -298,6 +298,12 @@ static uint32_t traverseTree(Triangle* tris, Primitive* p, uint32_t offs,
 
 // <><><><><><><><> Bvh methods <><><><><><><><><><><><><><><><><><><><><><><><>
 
+Bvh::Bvh()
+        :nodesList(NULL), tris(NULL)
+{
+
+}
+
 Bvh::~Bvh()
 {
     free(nodesList);
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..17f5ba7 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -75,6 +75,9 @@ class Bvh
 {
 public:
 
+    ///Default constructor
+    Bvh();
+
     ///Default destructor
     ~Bvh();
 
-- 
2.43.0


From d7b3747e49430d1934f6b6e8def2eee8c45a0cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 14/29] fix: adding a triangle to a mesh created with no room
 wrote out of bounds

---
 src/primitives/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index a78df2f..d107a4f 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -44,6 +44,8 @@ void Mesh::add_triangle(const Vertex* a, const Vertex* b, const Vertex* c)
         if(Mesh::count == Mesh::alloc) //need to realloc a bigger area
         {
             unsigned int newsize = alloc << 1<_MAX_TRIS_?alloc << 1:_MAX_TRIS_;
+            if(newsize == 0) //doubling an empty area does not enlarge it
+                newsize = 1;
             Triangle* tmp = new Triangle[newsize];
             memcpy((void*)tmp, (void*)Mesh::tris, Mesh::count*sizeof(Triangle));
             delete[] Mesh::tris;
-- 
2.43.0


From d075178b864344d99510a609215b7df620d106b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:12 +0000
Subject: [PATCH 15/29] fix: total internal reflection lost the cosine factor
 of a mirror

---
 src/materials/reflection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..071de2b 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -88,7 +88,7 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
     float sinthetat = (ei/et)*sqrtf(max(0.f, 1.f-abscosthetai*abscosthetai));
     float eval;
     if(sinthetat>1.f)
-        eval = 1.f;
+        eval = 1.f/fabsf(wo->z);
     else
     {
         float costhetat = sqrtf(max(0.f, 1.f-sinthetat*sinthetat));
-- 
2.43.0


From 9937fe9292d693599db03cdb31e0c9b1688afbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 16/29] fix: Oren-Nayar took the sine of the azimuth as always
 positive

---
 src/materials/oren_nayar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..bf70c5a 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,8 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From f66de58dec27189cb241caf86ab3b66f0566fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 17/29] fix: sample area lights in world space and ignore
 masked points

---
 src/lights/area_light.cpp | 49 +++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..c6eb615 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -74,26 +74,20 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
     ray.direction.normalize();
     HitPoint hit;
     *distance = FLT_MAX;
-    //will always succeed
-//    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
-    //erase the next if after all the intersections are tried
-    //TODO: now this should never happen and has been commented. Tried
-    //blackbox testing for something like 1 hour, but maybe for newer
-    //shapes this could generate problems so it is left here as a reference
-//    if(!res)
-//    {
-//        bool res=AreaLight::model->intersect(&ray,distance,&hit);
-//        *pdf = 0;
-//        return SPECTRUM_BLACK;
-//    }
-    light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
-    *wi = ray.direction;
-    *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-           (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-           (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    *pdf /= (absdot(normal, -(*wi))*AreaLight::area);
+    if(!AreaLight::model->intersect(&ray, distance, &hit, &mask))
+    {
+        //the sampled point is masked
+        *pdf = 0;
+        *distance = FLT_MAX;
+        return SPECTRUM_BLACK;
+    }
+    //back to world space, where the area of the light has been measured
+    normal = transform_normal(hit.normal_h, &(AreaLight::worldToObj));
+    *wi = AreaLight::objToWorld*ray.direction;
+    const float scale = wi->length();
+    const float cosin = dot(normal, -(*wi))/(normal.length()*scale);
+    *distance *= scale;
+    *pdf = (*distance)*(*distance)/(fabsf(cosin)*AreaLight::area);
     if(std::isinf(*pdf))
     {
         *pdf = 0;
@@ -101,14 +95,12 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
     Spectrum retval;
-    if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
+    if(cosin>0) //cos between ray and hit point normal > 0
         retval = AreaLight::c;
     else
         retval = SPECTRUM_BLACK;
 
-    *wi = AreaLight::objToWorld**wi;
     wi->normalize();
     return retval;
 }
@@ -125,11 +117,12 @@ float AreaLight::pdf(const Point3* p, const Vec3* wi) const
     bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
     if(!res)
         return 0;
-    Point3 light_point = ray.apply(distance);
-    float pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-                (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-                (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    pdf /= (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
+    //back to world space, where the area of the light has been measured
+    const Normal normal = transform_normal(hit.normal_h,
+                                           &(AreaLight::worldToObj));
+    const float length = wi->length();
+    float pdf = distance*length*distance*length;
+    pdf /= (absdot(normal, *wi)/(normal.length()*length)*AreaLight::area);
     return pdf;
 }
 
-- 
2.43.0


From 309440d84baaa36dfca976d22493dd77182f27d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:00 +0000
Subject: [PATCH 18/29] fix: a layered surface tinted every lobe with the
 texture of the sampled one

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From b23431424ab8029bf6ebbfb6150b650afb1b44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:11 +0000
Subject: [PATCH 19/29] fix: sampling a surface without lobes read out of
 bounds

---
 src/materials/multi_bsdf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index 190067c..245b352 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -67,18 +67,18 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
         for(int i = 0; i<MultiBSDF::count; i++)
             if(!(MultiBSDF::bdfs[i]->is_specular()))
                 matching[matchcount++] = bdfs[i];
-        if(matchcount == 0)
-        {
-            //otherwise it will access invalid array positions
-            *pdf = 0.f;
-            return SPECTRUM_BLACK;
-        }
     }
     else
     {
         for(int i = 0; i<MultiBSDF::count; i++)
             matching[matchcount++] = bdfs[i];
     }
+    if(matchcount == 0)
+    {
+        //otherwise it will access invalid array positions
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
 
     int chosen = (int)(r0*matchcount);
     if(chosen == matchcount) //out of array
-- 
2.43.0


From da29791c54e2d47a06b828f9c1a12ba01c6c6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:22 +0000
Subject: [PATCH 20/29] fix: Russian roulette weighed survivors with the wrong
 probability

---
 src/integrators/path_tracer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrators/path_tracer.cpp b/src/integrators/path_tracer.cpp
index 6f19314..932605f 100644
--- a/src/integrators/path_tracer.cpp
+++ b/src/integrators/path_tracer.cpp
@@ -41,10 +41,10 @@ Spectrum PathTracer::l_rec(const Scene* sc, const HitPoint* hp, const Ray* r,
     if(r->ricochet>3)
     {
         float term = min(power->luminance(), 0.5f);
-        if(rand[0]<term)
+        if(rand[0]>=term)
             return retval;
         else
-            rrprob = term; //survived russian roulette, need to cut down contrib
+            rrprob = 1.f/term; //survived russian roulette, need to raise contrib
     }
     if(r->ricochet == DEFAULT_BOUNCES)
         return retval;
-- 
2.43.0


From 321edef262bba2a3e43a1f84205cf71cb47744c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:32 +0000
Subject: [PATCH 21/29] fix: light seen directly or in a mirror was counted
 twice

---
 src/integrators/ray_tracer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 163d0a9..112ae2a 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -10,9 +10,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
 {
     Spectrum L = SPECTRUM_BLACK;
     int nlights = sc->size_lights();
-    if(hp->asset_h->is_light())
-        if(dot(*normal_s, -r->direction)>0)
-            L += ((AreaLight*)hp->asset_h)->emissive_spectrum();
     if(nlights>0)
     {
         float rand[6];
-- 
2.43.0


From 8cbebfab571b72fd0bd7b4cca077826e0aa7fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 22/29] fix: direct light of one light out of many was not
 scaled by their number

---
 src/integrators/ray_tracer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 112ae2a..028e9a7 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -39,8 +39,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                 {
                     float weight = (lightpdf*lightpdf)/
                                    (lightpdf*lightpdf+bsdfpdf*bsdfpdf);
-                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight/
-                         lightpdf;
+                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight*
+                         nlights/lightpdf;
                 }
             }
         }
@@ -65,7 +65,7 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                     if(dot(h2.normal_h, -r2.direction)>0)
                     {
                         Spectrum rad = light->emissive_spectrum();
-                        L += bsdf_f*rad*absdot(wi, *normal_s)*w/bsdfpdf;
+                        L += bsdf_f*rad*absdot(wi, *normal_s)*w*nlights/bsdfpdf;
                     }
         }
     }
-- 
2.43.0


From 42a44a51f330221c532915f9bd887f93188e276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:05 +0000
Subject: [PATCH 23/29] fix: unfiltered textures return the texel containing
 the point, not the one before

---
 src/textures/image_map.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..1873ecb 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -106,8 +106,9 @@ ImageMap::~ImageMap()
 TexelUnion ImageMapUnfiltered::filter(float u, float v, float, float,
                                       float, float) const
 {
-    uint16_t x = (uint16_t)(u*side[0]-0.5f);
-    uint16_t y = (uint16_t)(v*side[0]-0.5f);
+    //texel containing the point. Points on an edge belong to the texel before
+    const int x = max((int)ceilf(u*side[0])-1, 0);
+    const int y = max((int)ceilf(v*side[0])-1, 0);
     return MIPmap[0]->get(x, y);
 }
 
-- 
2.43.0


From 12c412209bcd1cc7c487a8671310c8d76a23fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:24 +0000
Subject: [PATCH 24/29] fix: bilinear lookups before the centre of the first
 texel blend with the opposite border

---
 src/textures/image_map.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1873ecb..45d4125 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -209,15 +209,17 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
 {
     u = u*side[level]-0.5f;
     v = v*side[level]-0.5f;
-    int x = (int)u;
-    int y = (int)v;
-    float decimal_u = fabsf(u-x); //to avoid corner case where this can be -0.5f
-    float decimal_v = fabsf(v-y);
+    int x = (int)floorf(u);
+    int y = (int)floorf(v);
+    float decimal_u = u-x;
+    float decimal_v = v-y;
     float int_u = 1.f-decimal_u;
     float int_v = 1.f-decimal_v;
     //wraps texture if filtering happens outside bounds (val+1) = out of texture
     int next_x = (x+1)<=side[level]-1?(x+1):0;
     int next_y = (y+1)<=side[level]-1?(y+1):0;
+    x = x<0?side[level]-1:x;
+    y = y<0?side[level]-1:y;
     const Texel T0 = MIPmap[level]->get(x, y).bgra_texel;
     const Texel T1 = MIPmap[level]->get(next_x, y).bgra_texel;
     const Texel T2 = MIPmap[level]->get(x, next_y).bgra_texel;
-- 
2.43.0


From 1e24a4170d1de807eda13750ebb716c202d300c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:45 +0000
Subject: [PATCH 25/29] fix: do not read a level after the last one when the
 footprint covers the whole texture

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 45d4125..40477f3 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -125,7 +125,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -180,7 +180,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
-- 
2.43.0


From f60f534a6505c32a7af58f3215e0fa373ac078ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:30 +0000
Subject: [PATCH 26/29] fix: EWA ellipse coefficient multiplied the derivatives
 instead of adding them

---
 src/textures/image_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 40477f3..9afc775 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -250,7 +250,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
-- 
2.43.0


From 1f9e412b1078d04114df7d192951c2cc20170d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 27/29] fix: EWA filter read out of bounds, and with wrong
 weights, across the texture border

---
 src/textures/image_map.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 9afc775..22ed393 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -277,13 +277,15 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
-        const float voff = newy-v;
+        int newy = y%side[level];
+        newy = newy<0?newy+side[level]:newy;
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
-            const float uoff = newx-u;
+            int newx = x%side[level];
+            newx = newx<0?newx+side[level]:newx;
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
-- 
2.43.0


From f532f8923409bfee09a6954d0693eac686c9b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:09 +0000
Subject: [PATCH 28/29] fix: texture coordinates below zero read out of the
 image

---
 src/textures/texture_image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..b333e45 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u<0.f || u>1.f)
+        u = u-floorf(u);
+    if(v<0.f || v>1.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From 70b93fecd84f414537fb55550a6108b4b73bb1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:30 +0000
Subject: [PATCH 29/29] fix: texture derivatives were scaled with the factor of
 the other coordinate

---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index b333e45..eee6c6a 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -78,8 +78,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0

