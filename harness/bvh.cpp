#include "sym.h"
#include "accelerators/bvh.hpp"
#include "primitives/triangle.hpp"
#include "geometry/AABB.hpp"
#include "textures/mask_boolean.hpp"
#include <cstdlib>
#include <cstring>
#include <new>

// ---- traversal: any tree, the boxes and triangles answer anything their contracts allow
static float tri_t[64];
static bool tri_hit[64];
static BvhNode* nd;
static float box_in[32];
static bool box_hit[32];
static const Triangle* tri0;
static const MaskBoolean* mk;
static bool wrong;
bool deep;
bool AABB::intersect(const Ray*, const RayProperties*, float* a, float* b) const
{
    if(deep)
    {
        *a = 0;
        *b = 1;
        return true;
    }
    int i = (int)((const BvhNode*)((const char*)this - offsetof(BvhNode, bounding)) - nd);
    *a = box_in[i];
    *b = 1000;
    return box_hit[i];
}
bool Triangle::intersect(const Ray*, float* d, HitPoint* h, const MaskBoolean* m) const
{
    int i = (int)(this - tri0);
    wrong = wrong | (m != mk);
    if(tri_hit[i] & (tri_t[i] < *d))
    {
        *d = tri_t[i];
        h->uv.x = tri_t[i];
        return true;
    }
    return false;
}
struct Tree
{
    BvhNode n[32];
    int nodes, tris;
};
static void leaf(Tree* t, int len)
{
    t->n[t->nodes].len = (uint8_t)len;
    t->n[t->nodes].offset = t->tris;
    t->n[t->nodes].axis = 0;
    t->nodes++;
    t->tris += len;
}
static void shape(Tree* t, int k)
{
    // a tree by its number of leaves and shape: preorder, left child first
    static const char* S[] = {"1", "N11", "N1N11", "NN111", "N2N12", "NN11N11", "N1N1N11", "NNN1111", "NN21N12", "NN1N111", "N1NN111", "NN13N2N11"};
    const char* s = S[k];
    int open[16], sp = 0;       // interior nodes waiting for their right child
    for(int i = 0; s[i]; i++)
    {
        if(s[i] == 'N')
        {
            open[sp++] = -(t->nodes + 1);
            t->n[t->nodes].len = 0;
            t->n[t->nodes].axis = (uint8_t)sym_choice("ax", 2);
            t->nodes++;
            continue;
        }
        leaf(t, s[i] - '0');
        // a subtree has been completed
        while(sp && open[sp - 1] > 0)
            sp--;
        if(sp)
        {
            int p = -open[sp - 1] - 1;
            open[sp - 1] = 1;
            t->n[p].sibling = t->nodes;
        }
    }
}
static float nearest(Tree* t, int i, bool* any, int* end)
{
    // nearest hit of the subtree, and the boxes are consistent with it
    float m = 1000;
    bool a = false;
    if(t->n[i].len)
    {
        for(int k = 0; k < t->n[i].len; k++)
        {
            int x = t->n[i].offset + k;
            m = sym_ite_f(tri_hit[x] & (tri_t[x] < m), tri_t[x], m);
            a = a | tri_hit[x];
        }
        *end = i + 1;
    }
    else
    {
        bool b = false;
        int e;
        m = nearest(t, i + 1, &a, &e);
        float r = nearest(t, e, &b, end);
        m = sym_ite_f(r < m, r, m);
        a = a | b;
    }
    sym_assume(sym_imp(a, box_hit[i] & (box_in[i] <= m)));
    *any = a;
    return m;
}
static Bvh* bvh_of(BvhNode* n, Triangle* t)
{
    Bvh* b = (Bvh*)calloc(1, sizeof(Bvh));
    b->nodesList = n;
    b->tris = t;
    return b;
}
HARNESS(h_bvh_walk)
{
    int k = sym_choice("shape", 12);
    static Tree t;
    t.nodes = t.tris = 0;
    shape(&t, k);
    Triangle* tr = (Triangle*)calloc(16, sizeof(Triangle));
    for(int i = 0; i < 16; i++)
        new(tr + i) Triangle();
    tri0 = tr;
    nd = t.n;
    for(int i = 0; i < t.tris; i++)
    {
        tri_t[i] = sym_float("t", 0, 100);
        tri_hit[i] = sym_bool("h");
    }
    for(int i = 0; i < t.nodes; i++)
    {
        box_in[i] = sym_float("b", -100, 100);
        box_hit[i] = sym_bool("bh");
    }
    bool any;
    int end;
    float m = nearest(&t, 0, &any, &end);
    Vec3 dir(sym_bool("nx") ? -1.f : 1.f, sym_bool("ny") ? -1.f : 1.f, 1);
    Ray r(Point3(0, 0, 0), dir);
    Bvh* b = bvh_of(t.n, tr);
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    MaskBoolean mask;
    mk = &mask;
    float lim = sym_float("best", 0, 200), d = lim;
    h.index = 77;
    bool got = b->intersect(&r, &d, &h, &mask);
    bool want = any & (m < lim);
    sym_assert(got == want, "a triangle is reported exactly when one is hit nearer than the best so far");
    if(got)
    {
        sym_assert(d == m, "the nearest hit triangle is reported");
        sym_assert((h.index < (unsigned)t.tris), "the index is that of a triangle");
        bool ok = false;
        for(int i = 0; i < t.tris; i++)
            ok = ok | ((h.index == (unsigned)i) & tri_hit[i] & (tri_t[i] == m));
        sym_assert(ok, "the index is that of the nearest triangle");
        sym_assert(h.uv.x == m, "the hit record is that of the nearest triangle");
        sym_reach("hit");
    }
    else
    {
        sym_assert((d == lim) & (h.index == 77), "a miss leaves distance and record alone");
        sym_reach("miss");
    }
    sym_assert(!wrong, "the mask is handed to the triangles");
}
// ---- traversal of chains of any depth
HARNESS(h_bvh_deep)
{
    static const int D[] = {2, 31, 32, 33, 70, 256, 300};
    int n = D[sym_choice("depth", 7)];
    bool side = sym_choice("side", 2) == 1;
    BvhNode* t = (BvhNode*)calloc(2 * n + 1, sizeof(BvhNode));
    // each interior node has a chain on one side and a leaf on the other
    Triangle* tr = (Triangle*)calloc(1, sizeof(Triangle));
    new(tr) Triangle();
    tri0 = tr;
    nd = t;
    for(int i = 0; i < 2 * n + 1; i++)
    {
        t[i].len = 1;
        t[i].offset = 0;
    }
    for(int i = 0; i < n; i++)
    {
        // left chain: nodes 0..n-1 interior, then n+1 leaves; right chain: leaf right after the parent
        int p = side ? 2 * i : i;
        t[p].len = 0;
        t[p].axis = 0;
        t[p].sibling = side ? p + 2 : 2 * n - i;
    }
    tri_t[0] = 1;
    tri_hit[0] = false;
    for(int i = 0; i < 32; i++)
        box_hit[i] = true;
    deep = true;
    Ray r(Point3(0, 0, 0), Vec3(side ? -1 : 1, 1, 1));
    Bvh* b = bvh_of(t, tr);
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    float d = 100;
    MaskBoolean mask;
    mk = &mask;
    bool got = b->intersect(&r, &d, &h, &mask);
    sym_assert(!got & (d == 100), "nothing is hit in the chain");
    sym_reach("end");
}
