#include "sym.h"
#include "accelerators/kdtree.hpp"
#include "primitives/asset.hpp"
#include "geometry/AABB.hpp"
#include <cstdlib>
#include <cstring>
#include <new>

static const int MA = 24;
static char* mem;                      // the assets are opaque: only their identity matters
static AABB boxes[MA];
static float at[MA], a_in[MA];
static bool ahit[MA], bhit[MA];
static bool s_hit;
static float s_in, s_out;
static AABB* scene_box;
static int tested[MA];
static Asset* asset(int i) { return (Asset*)(mem + i * sizeof(Asset)); }
static int idx(const Asset* a) { return (int)(((const char*)a - mem) / (long)sizeof(Asset)); }
const AABB* Asset::get_AABB() const { return &boxes[idx(this)]; }
bool Asset::intersect_AABB(const Ray*, const RayProperties*, float* a, float* b) const
{
    int i = idx(this);
    *a = a_in[i];
    *b = 2000;
    return bhit[i];
}
bool Asset::intersect(const Ray*, float* d, HitPoint* h) const
{
    int i = idx(this);
    if(ahit[i] & (at[i] < *d))
    {
        *d = at[i];
        h->uv.x = at[i];
        return true;
    }
    return false;
}
bool AABB::intersect(const Ray*, const RayProperties*, float* a, float* b) const
{
    *a = s_in;
    *b = s_out;
    return s_hit;
}
// the cost heuristic is free to split anywhere: keep it linear in the symbolic extents
static bool flat_cost;
float AABB::surface() const
{
    if(flat_cost)
        return 64;
    float x = bounds[1].x - bounds[0].x, y = bounds[1].y - bounds[0].y, z = bounds[1].z - bounds[0].z;
    return 2 * (x * y + y * z + z * x);
}
struct W
{
    KdTreeNode n[16];
    int nodes, leaves;
    int anc[8][4], side[8][4], depth[8];
    int axis[16];
    float split[16];
};
static const char* S[] = {"1", "N11", "N1N11", "NN111", "NN11N11", "N1N1N11"};
static const int LV[] = {1, 2, 3, 3, 4, 4};
HARNESS(h_kd_walk)
{
    int k = sym_choice("shape", 6), L = LV[k];
    int shared = sym_choice("shared", 16);
    sym_assume((shared < (1 << L)) & ((L < 3) | (shared == 0) | (shared == 6) | (shared == 5) | (L == 4 && shared == 9)));
    mem = (char*)calloc(MA, sizeof(Asset));
    const Asset** list = (const Asset**)malloc(sizeof(Asset*) * 16);
    W* w = (W*)calloc(1, sizeof(W));
    const char* s = S[k];
    int open[8], sd[8], sp = 0, refs = 0;
    int d0 = sym_choice("axes", 3);
    // the ray
    static const float D[] = {1, -1, 0, 2};
    float o[3], d[3] = {1, 1, 1};
    for(int x = 0; x < 3; x++)
        o[x] = sym_float("o", -20, 20);
    d[d0] = D[sym_choice("d0", 3)];
    d[(d0 + 1) % 3] = D[sym_choice("d1", 4)];
    for(int i = 0; s[i]; i++)
    {
        if(s[i] == 'N')
        {
            int n = w->nodes++;
            w->axis[n] = sp == 0 ? d0 : sym_choice("ax", 2) ? d0 : (d0 + 1) % 3;
            w->split[n] = sym_float("split", -10, 10);
            // a ray travelling inside a split plane is left out
            sym_assume((d[w->axis[n]] != 0) | (o[w->axis[n]] != w->split[n]));
            open[sp] = n;
            sd[sp++] = 0;
            continue;
        }
        int j = w->leaves++;
        w->depth[j] = sp;
        for(int q = 0; q < sp; q++)
        {
            w->anc[j][q] = open[q];
            w->side[j][q] = sd[q];
        }
        int off = refs;
        list[refs++] = asset(j);
        if(shared >> j & 1)
            list[refs++] = asset(L);
        w->n[w->nodes++] = KdTreeNode((unsigned)off, (unsigned)(refs - off));
        while(sp && sd[sp - 1] == 1)
            sp--;
        if(sp)
        {
            w->n[open[sp - 1]] = KdTreeNode(w->split[open[sp - 1]], w->axis[open[sp - 1]], (unsigned)w->nodes);
            sd[sp - 1] = 1;
        }
    }
    s_hit = sym_bool("scene");
    s_in = sym_float("in", -100, 100);
    s_out = sym_float("out", -100, 100);
    float m = 1000;
    bool any = false;
    int na = L + (shared ? 1 : 0);
    for(int i = 0; i < na; i++)
    {
        float t = at[i] = sym_float("t", 0.01f, 100);
        ahit[i] = sym_bool("h");
        bhit[i] = sym_bool("bh");
        a_in[i] = sym_float("b", -100, 100);
        bool okall = true;
        if(i < L)
        {
            for(int q = 0; q < w->depth[i]; q++)
            {
                int n = w->anc[i][q], x = w->axis[n];
                float p = o[x] + d[x] * t;
                okall = okall & (w->side[i][q] ? p >= w->split[n] : p <= w->split[n]);
            }
        }
        else
        {
            okall = false;
            for(int j = 0; j < L; j++)
                if(shared >> j & 1)
                {
                    bool ok = true;
                    for(int q = 0; q < w->depth[j]; q++)
                    {
                        int n = w->anc[j][q], x = w->axis[n];
                        float p = o[x] + d[x] * t;
                        ok = ok & (w->side[j][q] ? p >= w->split[n] : p <= w->split[n]);
                    }
                    okall = okall | ok;
                }
        }
        // a hit is inside the box of the asset, of the scene and of a leaf that lists the asset
        sym_assume(sym_imp(ahit[i], okall & bhit[i] & (a_in[i] < t) & s_hit & (s_in <= t) & (t <= s_out)));
        m = sym_ite_f(ahit[i] & (t < m), t, m);
        any = any | ahit[i];
    }
    KdTree* kt = new KdTree();
    kt->assetsList = list;
    kt->nodesList = w->n;
    kt->assets_number = refs;
    kt->nodes_index = w->nodes;
    Ray r(Point3(o[0], o[1], o[2]), Vec3(d[0], d[1], d[2]));
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    bool got = kt->intersect(&r, &h);
    sym_assert(got == any, "an asset is reported exactly when one is hit");
    if(got)
    {
        sym_assert(h.uv.x == m, "the hit record is that of the nearest asset");
        bool ok = false;
        for(int i = 0; i < na; i++)
            ok = ok | ((h.asset_h == asset(i)) & ahit[i] & (at[i] == m));
        sym_assert(ok, "the nearest asset is named");
        sym_reach("hit");
    }
    else
        sym_reach("miss");
}
// ---- construction
static void place(const float* q, const KdTree* k, int n, int id, bool* in, int depth)
{
    const KdTreeNode* nd = k->nodesList + n;
    sym_assert((n >= 0) & (n < k->nodes_index), "every child is a node of the tree");
    sym_assert(depth <= 15, "the tree is not deeper than the traversal stack");
    if(nd->isLeaf())
    {
        unsigned o = nd->getAssetOffset(), c = nd->getAssetsNumber();
        sym_assert((int)(o + c) <= k->assets_number, "a leaf stays within the list of assets");
        bool f = false;
        for(unsigned i = 0; i < c; i++)
            f = f | (k->assetsList[o + i] == asset(id));
        *in = f;
        return;
    }
    float s = nd->getSplit(), x = q[(int)nd->getAxis()];
    bool a, b;
    place(q, k, n + 1, id, &a, depth + 1);
    place(q, k, (int)nd->getOtherChildOffset(), id, &b, depth + 1);
    *in = (a & (x <= s)) | (b & (x >= s));
}
static void check_tree(KdTree* k, int n)
{
    for(int i = 0; i < n; i++)
    {
        float q[3];
        for(int x = 0; x < 3; x++)
        {
            q[x] = sym_float("q", -20, 40);
            sym_assume((q[x] >= boxes[i].bounds[0][x]) & (q[x] <= boxes[i].bounds[1][x]));
        }
        bool in;
        place(q, k, 0, i, &in, 0);
        sym_assert(in, "every point of an asset is in a leaf that lists the asset");
    }
}
// four to six assets with symbolic extents: the order of their sides is fixed along each axis, ties included
HARNESS(h_kd_build)
{
    int n = sym_choice("count", 2) + 4;
    mem = (char*)calloc(MA, sizeof(Asset));
    int lay = sym_choice("layout", 4);
    static const int O[4][12] = {{0, 1, 0, 2, 1, 3, 2, 4, 3, 5, 4, 5},     // staircase: sides in order, by asset
                                 {0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5},     // disjoint
                                 {0, 1, 2, 3, 4, 5, 5, 4, 3, 2, 1, 0},     // nested
                                 {0, 1, 1, 0, 2, 3, 3, 2, 4, 5, 5, 4}};
    for(int x = 0; x < 3; x++)
    {
        float p = sym_float("start", -4, 0);
        bool seen[6] = {false, false, false, false, false, false};
        for(int e = 0; e < 12; e++)
        {
            int a = O[x == 0 ? lay : (lay + x) % 4][e];
            if(a >= n)
                continue;
            bool l = !seen[a];
            if(x == 0)
                p += e & 1 ? sym_float("gap", 0, 2) : 0.5f;
            else
                p += 0.5f * (float)(1 + (e * 5) % 3);
            if(l)
                boxes[a].bounds[0][x] = p;
            else
                boxes[a].bounds[1][x] = p;
            seen[a] = true;
        }
    }
    flat_cost = true;
    KdTree* k = new KdTree();
    for(int i = 0; i < n; i++)
        k->addAsset(asset(i));
    k->buildTree();
    check_tree(k, n);
    sym_reach("end");
}
// many assets, several of them flat along an axis and stacked on the same planes
HARNESS(h_kd_flat)
{
    int n = sym_choice("count", 4) * 4 + 8, lay = sym_choice("layout", 4), ax = sym_choice("axis", 3);
    mem = (char*)calloc(MA, sizeof(Asset));
    float w = 0.5f + 0.5f * (float)sym_choice("w", 3);
    for(int i = 0; i < n; i++)
    {
        int c = lay == 0 ? i % 3 : lay == 1 ? i / 4 : lay == 2 ? (i * 7) % 5 : (i * i) % 4;
        bool flat = lay == 3 ? i & 1 : (i + lay) % 3 != 0;
        int u = (ax + 1) % 3, v = (ax + 2) % 3;
        boxes[i].bounds[0][ax] = (float)c;
        boxes[i].bounds[1][ax] = (float)c + (flat ? 0.f : 1.f);
        boxes[i].bounds[0][u] = (float)(i % 2);
        boxes[i].bounds[1][u] = (float)(i % 2) + w;
        boxes[i].bounds[0][v] = 0;
        boxes[i].bounds[1][v] = 1;
    }
    KdTree* k = new KdTree();
    for(int i = 0; i < n; i++)
        k->addAsset(asset(i));
    k->buildTree();
    check_tree(k, n);
    sym_reach("end");
}
// the list of assets referenced by the leaves may be longer than the scene limit, the scene may not
HARNESS(h_kd_limit)
{
    int n = 8;
    mem = (char*)calloc(MA, sizeof(Asset));
    float w = 8 + 0.25f * (float)sym_choice("w", 2);
    for(int i = 0; i < 12; i++)
        for(int x = 0; x < 3; x++)
        {
            boxes[i].bounds[0][x] = (float)((x + 1) * i);
            boxes[i].bounds[1][x] = (float)((x + 1) * i) + w + (float)i;
        }
    KdTree* k = new KdTree();
    int extra = sym_choice("extra", 3);
    for(int i = 0; i < n + extra; i++)
        k->addAsset(asset(i));
    sym_assert(k->assets_number <= n, "the scene limit is enforced");
    for(int i = 0; i < n; i++)
        sym_assert(k->assetsList[i] == asset(i), "the assets within the limit are kept");
    k->buildTree();
    check_tree(k, n);
    sym_reach("end");
}
HARNESS(h_kd_none)
{
    KdTree* k = new KdTree();
    k->buildTree();
    s_hit = false;
    Ray r(Point3(sym_float("o", -5, 5), 0, 0), Vec3(1, 0, 0));
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    sym_assert(!k->intersect(&r, &h), "an empty scene is never hit");
    sym_reach("end");
}
