#include "sym.h"
#include "lights/area_light.hpp"
#include "primitives/hit_point.hpp"
#include "place.h"
#include <cstring>
#include <cmath>

static bool eq3(float ax, float ay, float az, float bx, float by, float bz, float t)
{
    return sym_near(ax, bx, t) & sym_near(ay, by, t) & sym_near(az, bz, t);
}
// the shape of the light: the sampled point and what a ray meets are arbitrary
static float A, s_r0, s_r1, s_t;
static Point3 s_p;
static Normal s_n;
static bool s_hit, s_ok = true;
static Ray seen;
static const float* s_cd;
static const MaskBoolean* s_mask;
struct Stub : public Shape
{
    bool intersect(const Ray* r, float* d, HitPoint* h, const MaskBoolean* m) const
    {
        seen = *r;
        s_mask = m;
        if(!s_hit)
            return false;
        *d = s_t;
        h->point_h = r->apply(s_t);
        h->normal_h = s_n;
        h->index = 2;
        return true;
    }
    AABB compute_AABB() const { return AABB(Point3(0, 0, 0), Point3(1, 1, 1)); }
    AABB compute_AABB(const Matrix4*) const { return AABB(Point3(0, 0, 0), Point3(1, 1, 1)); }
    float surface() const { return 77; }        // in object space: of no use to anybody
    float surface(const Matrix4*) const { return A; }
    int get_faces_number() const { return 4; }
    void get_densities_array(const Matrix4*, float* a) const { s_cd = a; }
    void sample_point(float a, float b, const float* c, Point3* p, Normal* n) const
    {
        s_ok = s_ok & (a == s_r0) & (b == s_r1) & (c == s_cd);
        *p = s_p;
        *n = s_n;
    }
};
static const float U[4][3] = {{1, 2, -2}, {-2, 1, 2}, {0, 0, -3}, {2, 2, 1}};    // of length three
static const float N[3][3] = {{0, 0, 1}, {0.6f, 0, 0.8f}, {0, -0.8f, 0.6f}};
static Spectrum colour()
{
    float r = sym_float("r", 0.125f, 4), g = sym_float("g", 0.125f, 4), b = sym_float("b", 0.125f, 4);
    Spectrum c;
    c.w[0] = r;
    c.w[1] = g;
    c.w[2] = b;
    return c;
}
static bool same(const Spectrum& a, const Spectrum& b) { return (a.w[0] == b.w[0]) & (a.w[1] == b.w[1]) & (a.w[2] == b.w[2]); }
static bool black(const Spectrum& a) { return (a.w[0] == 0) & (a.w[1] == 0) & (a.w[2] == 0); }
static void setup(M* m)
{
    placement(m, 2);
    A = sym_float("area", 0.25f, 4);
    s_r0 = sym_float("r0", 0, 1);
    s_r1 = sym_float("r1", 0, 1);
    int i = sym_choice("normal", 3);
    s_n = Normal(N[i][0], N[i][1], N[i][2]);
}
// ---- a point of the light seen from a place of the scene
HARNESS(h_light_sample)
{
    M m;
    setup(&m);
    Stub sh;
    Spectrum c = colour();
    AreaLight l(&sh, Matrix4(m.v), c);
    sym_assert(l.is_light() && same(l.emissive_spectrum(), c), "a light emits its spectrum");
    float ox = sym_float("o", -4, 4), oy = sym_float("o", -4, 4), oz = sym_float("o", -4, 4);
    float k = sym_float("k", 0.25f, 1);
    int u = sym_choice("dir", 4);
    s_p = Point3(ox + k * U[u][0], oy + k * U[u][1], oz + k * U[u][2]);
    // what the ray meets first may be nearer than the sampled point
    float near = sym_choice("nearer", 2) ? 0.5f : 1.f;
    sym_root(k);
    s_t = 3 * k * near;
    s_hit = sym_choice("visible", 2);
    float w[3], d[3];
    fwd(m.v, 1, ox, oy, oz, w);
    fwd(m.v, 0, U[u][0], U[u][1], U[u][2], d);
    Point3 pos(w[0], w[1], w[2]);
    Vec3 wi;
    float pdf = -1, dist = -1;
    Spectrum e = l.sample_visible_surface(s_r0, s_r1, &pos, &wi, &pdf, &dist);
    sym_assert(s_ok, "the point is sampled with the random numbers given, over the faces of the light");
    sym_assert(s_mask == &l.mask, "the mask of the light counts");
    if(!s_hit)
    {
        sym_assert((pdf == 0) & black(e), "a masked point gives no light");
        sym_reach("masked");
        return;
    }
    sym_assert(eq3(seen.origin.x, seen.origin.y, seen.origin.z, ox, oy, oz, 1e-3f), "the light is tested from the place in its own space");
    sym_assert(eq3(seen.direction.x * 3, seen.direction.y * 3, seen.direction.z * 3, U[u][0], U[u][1], U[u][2], 1e-3f), "the light is tested towards the sampled point");
    float q = k * near;
    float d2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];      // squared length in the world, over q squared
    float nd = s_n.x * U[u][0] + s_n.y * U[u][1] + s_n.z * U[u][2];
    // the normal in the world is that of the object times the transposed inverse
    float nx = inv[0] * s_n.x + inv[4] * s_n.y + inv[8] * s_n.z;
    float ny = inv[1] * s_n.x + inv[5] * s_n.y + inv[9] * s_n.z;
    float nz = inv[2] * s_n.x + inv[6] * s_n.y + inv[10] * s_n.z;
    float n2 = nx * nx + ny * ny + nz * nz;
    sym_assert(sym_near(wi.x * wi.x + wi.y * wi.y + wi.z * wi.z, 1, 1e-3f), "the direction to the light has unit length");
    sym_assert(sym_near(dist * dist, q * q * d2, 1e-2f) & (dist > 0), "the distance is that of the point in the world");
    sym_assert(eq3(wi.x * dist, wi.y * dist, wi.z * dist, q * d[0], q * d[1], q * d[2], 1e-2f), "the direction points to the light in the world");
    float want = d2 * sqrtf(d2 * n2), an = nd < 0 ? -nd : nd;
    sym_assert(sym_near(pdf * A * an, q * q * want, 1e-3f * want) & (pdf > 0), "the density is per solid angle of the visible point in the world");
    sym_assert(nd < 0 ? same(e, c) : black(e), "light leaves on the side of the normal only");
    sym_reach("seen");
}
// ---- the density of a direction that was sampled otherwise
HARNESS(h_light_pdf)
{
    M m;
    setup(&m);
    Stub sh;
    AreaLight l(&sh, Matrix4(m.v), colour());
    float ox = sym_float("o", -4, 4), oy = sym_float("o", -4, 4), oz = sym_float("o", -4, 4);
    int u = sym_choice("dir", 4);
    float w[3];
    fwd(m.v, 1, ox, oy, oz, w);
    Point3 pos(w[0], w[1], w[2]);
    Vec3 wi(U[u][0] / 3, U[u][1] / 3, U[u][2] / 3);
    s_t = sym_float("t", 0.25f, 2);
    s_hit = sym_choice("visible", 2);
    float pdf = l.pdf(&pos, &wi);
    sym_assert(s_mask == &l.mask, "the mask of the light counts");
    if(!s_hit)
    {
        sym_assert(pdf == 0, "a direction that misses the light has density zero");
        sym_reach("miss");
        return;
    }
    float q[3];
    fwd(m.v, 0, seen.direction.x, seen.direction.y, seen.direction.z, q);
    // whatever the length of the direction in object space, the point met is the same
    sym_assert(eq3(q[0] * 3, q[1] * 3, q[2] * 3, U[u][0], U[u][1], U[u][2], 1e-3f), "the light is tested along the direction");
    sym_assert(eq3(seen.origin.x, seen.origin.y, seen.origin.z, ox, oy, oz, 1e-3f), "the light is tested from the place in its own space");
    float nx = inv[0] * s_n.x + inv[4] * s_n.y + inv[8] * s_n.z;
    float ny = inv[1] * s_n.x + inv[5] * s_n.y + inv[9] * s_n.z;
    float nz = inv[2] * s_n.x + inv[6] * s_n.y + inv[10] * s_n.z;
    float n2 = nx * nx + ny * ny + nz * nz;
    float nw = (nx * U[u][0] + ny * U[u][1] + nz * U[u][2]) / 3;
    sym_assume((nw > 0.05f) | (nw < -0.05f));
    float len = sqrtf(n2), an = nw < 0 ? -nw : nw;
    sym_assert(sym_near(pdf * A * an, s_t * s_t * len, 1e-3f * len) & (pdf > 0), "the density is per solid angle of the point met in the world");
    sym_reach("hit");
}
// ---- a ray leaving the light
HARNESS(h_light_emit)
{
    M m;
    setup(&m);
    Stub sh;
    Spectrum c = colour();
    AreaLight l(&sh, Matrix4(m.v), c);
    float px = sym_float("p", -4, 4), py = sym_float("p", -4, 4), pz = sym_float("p", -4, 4);
    s_p = Point3(px, py, pz);
    float r2 = sym_float("r2", 0, 1), r3 = sym_float("r3", 0, 1);
    Ray out;
    float pdf = -1;
    Spectrum e = l.sample_surface(s_r0, s_r1, r2, r3, &out, &pdf);
    sym_assert(s_ok, "the point is sampled with the random numbers given, over the faces of the light");
    sym_assert(same(e, c), "the ray carries the spectrum of the light");
    float w[3], o[3];
    fwd(m.v, 1, px, py, pz, w);
    sym_assert(eq3(out.origin.x, out.origin.y, out.origin.z, w[0], w[1], w[2], 1e-2f), "the ray starts on the light in the world");
    fwd(inv, 0, out.direction.x, out.direction.y, out.direction.z, o);
    float z = 1 - 2 * r2;
    float f = o[0] * s_n.x + o[1] * s_n.y + o[2] * s_n.z;
    sym_assert(f >= -sym_tol(1e-4f), "the ray leaves on the side of the normal");
    sym_assert(sym_near(o[2], z, 1e-3f) | sym_near(o[2], -z, 1e-3f), "directions are spread evenly");
    float q = 6.2831853f * r3, k = z * z;
    float x = cosf(q), y = sinf(q);
    sym_assert(sym_near(o[0] * y, o[1] * x, 1e-3f), "directions are spread evenly about the axis");
    sym_assert(sym_near(o[0] * o[0] + o[1] * o[1] + k, 1, 1e-3f), "the direction has unit length before it is placed");
    sym_assert(sym_near(pdf * A * 6.2831853f, 1, 1e-3f) & (l.pdf((const Ray*)0) == pdf), "the density is even over area and half sphere");
    sym_reach("end");
}
