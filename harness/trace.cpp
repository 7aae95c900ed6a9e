#include "sym.h"
#include "utility/occlusion_tester.hpp"
#include "utility/scene.hpp"
#include "primitives/asset.hpp"
#include "primitives/hit_point.hpp"
#include <cstring>
#include <cstdlib>

// ---- shadow rays
// A world of three assets: for each ray, whether each of them is met and where, is an unknown.
#define ASSETS 3
#define RAYS 2
static char room[ASSETS][sizeof(Asset)];
static Asset* thing(int i) { return (Asset*)room[i]; }
static bool hits[RAYS][ASSETS];
static float at[RAYS][ASSETS];
static int now;
static bool footprint;       // a shape was offered a footprint nobody computed
bool Asset::intersect(const Ray* r, float* distance, HitPoint* h) const
{
    for(int i = 0; i < ASSETS; i++)
        if(this == thing(i))
        {
            if(h->differentials)
        footprint = true;
            if(hits[now][i] & (at[now][i] < *distance))
            {
                *distance = at[now][i];
                h->point_h = r->apply(at[now][i]);
                return true;
            }
        }
    return false;
}
bool KdTree::intersect(const Ray* r, HitPoint* h) const
{
    if(h->differentials)
        footprint = true;
    float best = FLT_MAX;
    int who = -1;
    for(int i = 0; i < ASSETS; i++)
        if(hits[now][i] & (at[now][i] < best))
        {
            best = at[now][i];
            who = i;
        }
    if(who < 0)
        return false;
    h->asset_h = thing(who);
    h->point_h = r->apply(best);
    return true;
}
static void world()
{
    for(int k = 0; k < RAYS; k++)
        for(int i = 0; i < ASSETS; i++)
        {
            hits[k][i] = sym_choice("hits", 2);
            at[k][i] = hits[k][i] ? sym_float("at", 0.0078125f, 100) : 0;
        }
}
HARNESS(h_occlusion)
{
    world();
    Scene* s = (Scene*)calloc(1, sizeof(Scene));
    OcclusionTester ot(s);
    static const float dir[4][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 1, 0}};
    int ric[RAYS];
    for(now = 0; now < RAYS; now++)
    {
        int w = now * 2 + sym_choice("dir", 1);
        float x = sym_float("o", -5, 5), y = sym_float("o", -5, 5), z = sym_float("o", -5, 5);
        Ray r(Point3(x, y, z), Vec3(dir[w][0], dir[w][1], dir[w][2]));
        ric[now] = sym_choice("ricochet", DEFAULT_BOUNCES);
        r.ricochet = (unsigned char)ric[now];
        float limit = sym_float("limit", 0.0078125f, 100);
        footprint = false;
        bool got = ot.is_occluded(&r, limit);
        sym_assert(!footprint, "a shadow ray has no footprint");
        // occluded exactly when something lies in front of the expected distance
        bool any = false, close = false;
        for(int i = 0; i < ASSETS; i++)
        {
            any = any | (hits[now][i] & (at[now][i] < limit - 2e-3f));
            close = close | (hits[now][i] & (at[now][i] < limit));
        }
        sym_assert(sym_imp(any, got), "an asset clearly in front occludes");
        sym_assert(sym_imp(got, close), "only an asset in front occludes");
        if(got)
            sym_reach("occluded");
        else
            sym_reach("free");
    }
}

// ---- footprint of a pixel on the surface
HARNESS(h_footprint)
{
    int k = sym_choice("axis", 3), a = (k + 1) % 3, b = (k + 2) % 3, flip = sym_choice("flip", 2);
    float n[3], u[3], v[3];
    n[k] = 1;
    n[a] = sym_float("n", -0.99f, 0.99f);
    n[b] = sym_float("n", -0.99f, 0.99f);
    u[a] = sym_float("u", -2, 2);
    u[b] = sym_float("u", -2, 2);
    v[a] = sym_float("v", -2, 2);
    v[b] = sym_float("v", -2, 2);
    u[k] = -n[a] * u[a] - n[b] * u[b];
    v[k] = -n[a] * v[a] - n[b] * v[b];
    float det = u[a] * v[b] - u[b] * v[a];
    bool flat = sym_choice("flat", 2);
    if(flat)
    {
        float f = sym_float("f", -1, 1);
        for(int i = 0; i < 3; i++)
            v[i] = f * u[i];
    }
    else
        sym_assume((det >= 0.125f) | (det <= -0.125f));
    float sg = flip ? -1 : 1;
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    float px = sym_float("p", -5, 5), py = sym_float("p", -5, 5), pz = sym_float("p", -5, 5);
    h.point_h = Point3(px, py, pz);
    h.normal_h = Normal(sg * n[0], sg * n[1], sg * n[2]);
    h.dpdu = Vec3(u[0], u[1], u[2]);
    h.dpdv = Vec3(v[0], v[1], v[2]);
    h.differentials = flat;
    Ray r[2];
    float q[2][3], o[3], d[3], p[3] = {px, py, pz};
    for(int i = 0; i < 2; i++)
    {
        // the auxiliary ray meets the tangent plane at q
        float s0 = sym_float("qa", -2, 2), s1 = sym_float("qb", -2, 2);
        q[i][a] = p[a] + s0;
        q[i][b] = p[b] + s1;
        q[i][k] = p[k] - n[a] * s0 - n[b] * s1;
        float nd = 0;
        for(int j = 0; j < 3; j++)
        {
            d[j] = sym_float("d", -2, 2);
            nd += n[j] * d[j];
        }
        sym_assume((nd >= 0.125f) | (nd <= -0.125f));
        float t = sym_float("t", 0.125f, 8);
        for(int j = 0; j < 3; j++)
            o[j] = q[i][j] - t * d[j];
        r[i] = Ray(Point3(o[0], o[1], o[2]), Vec3(d[0], d[1], d[2]));
    }
    calculate_differentials(&h, &r[0], &r[1]);
    sym_assert(h.differentials == !flat, "a footprint is available exactly when the tangents span the plane");
    if(!flat)
    {
        for(int j = 0; j < 3; j++)
        {
            sym_assert(sym_near(h.du.x * u[j] + h.dv.x * v[j], q[0][j] - p[j], 1e-2f),
                       "the footprint along x leads to the point seen by the neighbour along x");
            sym_assert(sym_near(h.du.y * u[j] + h.dv.y * v[j], q[1][j] - p[j], 1e-2f),
                       "the footprint along y leads to the point seen by the neighbour along y");
        }
        sym_reach("spans");
    }
    else
        sym_reach("degenerate");
}
