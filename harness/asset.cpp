#include "sym.h"
#include "primitives/asset.hpp"
#include "primitives/shape.hpp"
#include "primitives/hit_point.hpp"
#include "utility/occlusion_tester.hpp"
#include "utility/scene.hpp"
#include "place.h"
#include <cstring>
#include <cstdlib>

static bool eq3(float ax, float ay, float az, float bx, float by, float bz, float t)
{
    return sym_near(ax, bx, t) & sym_near(ay, by, t) & sym_near(az, bz, t);
}
// ---- an asset intersects its shape in object space and reports in world space
static Ray seen;
static const MaskBoolean* seen_mask;
static bool s_hit;
static float s_t, s_uv;
static Point3 s_p;
static Normal s_n;
static Vec3 s_u, s_v;
struct Stub : public Shape
{
    bool intersect(const Ray* r, float* d, HitPoint* h, const MaskBoolean* m) const
    {
        seen = *r;
        seen_mask = m;
        if(s_hit & (s_t < *d))
        {
            *d = s_t;
            h->point_h = s_p;
            h->normal_h = s_n;
            h->dpdu = s_u;
            h->dpdv = s_v;
            h->uv.x = s_uv;
            h->index = 3;
            return true;
        }
        return false;
    }
    AABB compute_AABB() const { return AABB(Point3(0, 0, 0), Point3(1, 1, 1)); }
    AABB compute_AABB(const Matrix4*) const { return AABB(Point3(0, 0, 0), Point3(1, 1, 1)); }
    float surface() const { return 1; }
    float surface(const Matrix4*) const { return 1; }
    int get_faces_number() const { return 4; }
    void get_densities_array(const Matrix4*, float*) const {}
    void sample_point(float, float, const float*, Point3*, Normal*) const {}
};
static Vec3 sv(const char* n, float r)
{
    float x = sym_float(n, -r, r), y = sym_float(n, -r, r), z = sym_float(n, -r, r);
    return Vec3(x, y, z);
}
HARNESS(h_asset)
{
    M m;
    placement(&m, true);
    Stub sh;
    Asset a(&sh, Matrix4(m.v), 1);
    Vec3 o = sv("o", 5), d = sv("d", 2);
    Ray r(Point3(o.x, o.y, o.z), d);
    s_hit = sym_bool("hit");
    s_t = sym_float("st", 0, 50);
    s_uv = sym_float("uv", 0, 1);
    Vec3 p = sv("p", 5);
    s_p = Point3(p.x, p.y, p.z);
    s_u = sv("u", 2);
    s_v = sv("v", 2);
    Vec3 n = sv("n", 1);
    s_n = Normal(n.x, n.y, n.z);
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    float lim = sym_float("best", 0, 100), dist = lim;
    bool got = a.intersect(&r, &dist, &h);
    // the ray handed to the shape maps back to the ray of the caller
    float q[3];
    fwd(m.v, 1, seen.origin.x, seen.origin.y, seen.origin.z, q);
    sym_assert(eq3(q[0], q[1], q[2], o.x, o.y, o.z, 1e-2f), "the shape is tested with the origin in its own space");
    fwd(m.v, 0, seen.direction.x, seen.direction.y, seen.direction.z, q);
    sym_assert(eq3(q[0], q[1], q[2], d.x, d.y, d.z, 1e-2f), "the shape is tested with the direction in its own space");
    sym_assert(seen_mask == &a.mask, "the mask of the asset is used");
    sym_assert(got == (s_hit & (s_t < lim)), "the asset is hit when its shape is");
    if(got)
    {
        sym_assert(dist == s_t, "the distance is that of the shape");
        fwd(m.v, 1, p.x, p.y, p.z, q);
        sym_assert(eq3(h.point_h.x, h.point_h.y, h.point_h.z, q[0], q[1], q[2], 1e-3f), "the point is reported in world space");
        sym_assert((h.uv.x == s_uv) & (h.index == 3), "coordinates and face are passed on");
        sym_reach("hit");
    }
    else
    {
        sym_assert(dist == lim, "a miss leaves the distance alone");
        sym_reach("miss");
    }
}
// normals and tangents: unit length, perpendicular tangents stay perpendicular, orientation follows the surface
HARNESS(h_asset_frame)
{
    M m;
    placement(&m, false);
    Stub sh;
    Asset a(&sh, Matrix4(m.v), 1);
    s_hit = true;
    s_t = 1;
    s_p = Point3(0, 0, 0);
    s_u = sv("u", 2);
    Vec3 n = sv("n", 1);
    s_v = Vec3(1, 0, 0);
    sym_assume(n.x * n.x + n.y * n.y + n.z * n.z >= 0.1f);
    sym_assume(s_u.x * s_u.x + s_u.y * s_u.y + s_u.z * s_u.z >= 0.1f);
    float dt = n.x * s_u.x + n.y * s_u.y + n.z * s_u.z;
    sym_cut(dt);
    s_n = Normal(n.x, n.y, n.z);
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    Ray r(Point3(0, 0, -1), Vec3(0, 0, 1));
    float dist = 10;
    a.intersect(&r, &dist, &h);
    const Normal& N = h.normal_h;
    float l2 = N.x * N.x + N.y * N.y + N.z * N.z;
    sym_assert(sym_near(l2, 1, 1e-3f), "the world normal has unit length");
    float u2 = h.dpdu.x * h.dpdu.x + h.dpdu.y * h.dpdu.y + h.dpdu.z * h.dpdu.z;
    sym_assert(sym_near(u2, 1, 1e-3f), "the world tangent has unit length");
    sym_reach("end");
}
HARNESS(h_asset_perp)
{
    M m;
    placement(&m, false);
    Stub sh;
    Asset a(&sh, Matrix4(m.v), 1);
    s_hit = true;
    s_t = 1;
    s_p = Point3(0, 0, 0);
    int k = sym_choice("pair", 3);
    float b = sym_float("b", -1, 1);
    // normal and tangent, perpendicular by construction
    s_n = k == 0 ? Normal(1, b, 0) : k == 1 ? Normal(0, 1, b) : Normal(b, 0, 1);
    float e = sym_float("e", -1, 1);
    s_u = k == 0 ? Vec3(-b, 1, e) : k == 1 ? Vec3(e, -b, 1) : Vec3(1, e, -b);
    s_v = Vec3(1, 0, 0);
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    Ray r(Point3(0, 0, -1), Vec3(0, 0, 1));
    float dist = 10;
    a.intersect(&r, &dist, &h);
    float w[3], nn[3];
    fwd(m.v, 0, s_u.x, s_u.y, s_u.z, w);
    nn[0] = h.normal_h.x;
    nn[1] = h.normal_h.y;
    nn[2] = h.normal_h.z;
    float dt = nn[0] * w[0] + nn[1] * w[1] + nn[2] * w[2];
    sym_assert(sym_near(dt, 0, 1e-2f), "the world normal is perpendicular to the world tangents");
    // outside stays outside: moving along the object normal moves along the world normal
    fwd(m.v, 0, s_n.x, s_n.y, s_n.z, w);
    float sd = nn[0] * w[0] + nn[1] * w[1] + nn[2] * w[2];
    sym_assert(sd > 0, "the world normal points to the outer side");
    float x = w[0] * 0, c;
    fwd(m.v, 0, s_u.x, s_u.y, s_u.z, w);
    c = (h.dpdu.y * w[2] - h.dpdu.z * w[1]);
    sym_assert(sym_near(c, x, 1e-2f), "the world tangent is the transformed tangent");
    sym_reach("end");
}
