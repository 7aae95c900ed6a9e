#include "sym.h"
#include "accelerators/bvh.hpp"
#include "primitives/triangle.hpp"
#include "geometry/AABB.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
// ---- construction: any placement of the centroids on a grid, any size of the triangles, any clustering decision
static float cx[16][3], ext[16];
AABB Triangle::compute_AABB() const
{
    int i = (int)a.p.x;
    float e = ext[i];
    return AABB(Point3(cx[i][0] - e, cx[i][1] - e, cx[i][2] - e), Point3(cx[i][0] + e, cx[i][1] + e, cx[i][2] + e));
}
float AABB::surface() const
{
    return sym_float("surface", 0, 100);
}
struct W
{
    BvhNode* n;
    Triangle* t;
    int len, seen[16], max;
};
static void walk(W* w, int i, int* end)
{
    sym_assert((i >= 0) & (i < w->max), "every child is a node of the tree");
    BvhNode* n = w->n + i;
    if(n->len)
    {
        sym_assert((int)(n->offset + n->len) <= w->len, "a leaf stays within the triangles");
        for(int k = 0; k < n->len; k++)
            w->seen[n->offset + k]++;
        *end = i + 1;
    }
    else
    {
        int e;
        walk(w, i + 1, &e);
        sym_assert((int)n->sibling == e, "the right child follows the left subtree");
        walk(w, n->sibling, end);
    }
}
static void inside(W* w, int i, int* lo, int* hi)
{
    // triangles below the node are contiguous or not: check each of them against the box
    BvhNode* n = w->n + i;
    if(n->len)
    {
        for(int k = 0; k < n->len; k++)
        {
            int id = (int)w->t[n->offset + k].a.p.x;
            *lo |= 1 << id;
        }
    }
    else
    {
        int e = 0, m = 0;
        inside(w, i + 1, &m, hi);
        inside(w, n->sibling, &e, hi);
        *lo |= m | e;
    }
    int m = *lo;
    for(int id = 0; id < w->len; id++)
        if(m >> id & 1)
            for(int x = 0; x < 3; x++)
            {
                sym_assert(n->bounding.bounds[0][x] <= cx[id][x] - ext[id], "a node encloses the triangles below it (lower)");
                sym_assert(n->bounding.bounds[1][x] >= cx[id][x] + ext[id], "a node encloses the triangles below it (upper)");
            }
    if(!n->len)
        sym_assert(n->axis < 3, "the split axis is one of three");
}
HARNESS(h_bvh_build)
{
    static const int L[] = {1, 3, 4, 5, 6, 7, 8, 9};
    int len = L[sym_choice("len", 8)], lay = sym_choice("layout", 6);
    Triangle* t = (Triangle*)malloc(sizeof(Triangle) * 16);
    for(int i = 0; i < len; i++)
    {
        new(t + i) Triangle();
        t[i].a.p = Point3((float)i, 0, 0);
        t[i].b.p = Point3(0, (float)i, 0);
        t[i].c.p = Point3(0, 0, (float)i);
        ext[i] = sym_float("e", 0, 4);
        int q = lay == 0 ? i : lay == 1 ? len - i : lay == 2 ? (i * 5) % 7 : lay == 3 ? i / 3 : lay == 4 ? (i == 2 ? 9 : 0) : (i < 2 ? 0 : i);
        cx[i][0] = (float)q;
        cx[i][1] = (float)((q * 3) % 4);
        cx[i][2] = (float)(lay == 3 ? i : q & 1);
    }
    Bvh* b = (Bvh*)calloc(1, sizeof(Bvh));
    b->buildTree(t, len);
    W w;
    memset(&w, 0, sizeof w);
    w.n = b->nodesList;
    w.t = t;
    w.len = len;
    w.max = 2 * len;
    int e = 0, m = 0;
    walk(&w, 0, &e);
    int ids = 0;
    for(int i = 0; i < len; i++)
    {
        sym_assert(w.seen[i] == 1, "every triangle is in exactly one leaf");
        int id = (int)t[i].a.p.x;
        sym_assert((t[i].b.p.y == (float)id) & (t[i].c.p.z == (float)id), "the vertices of a triangle stay together");
        ids |= 1 << id;
    }
    sym_assert(ids == (1 << len) - 1, "no triangle is lost or duplicated");
    inside(&w, 0, &m, &e);
    sym_reach("end");
}
