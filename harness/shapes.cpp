#include "sym.h"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "primitives/box.hpp"
#include "textures/mask_boolean.hpp"
#include "utility/utility.hpp"

// the alpha mask: an arbitrary predicate, consulted at most a few times
static int mask_mode = 0;      // 0: all visible, 1: arbitrary answers
static int mask_calls = 0;
static bool mask_ans[8];
static float mask_u[8], mask_v[8];
static bool mask_fp = true;    // the footprint given to the mask is the one of the ray
static bool ray_diff = false;  // whether the ray has one
static const float FP[4] = {0.25f, 0.5f, 0.125f, 0.75f};
bool MaskBoolean::is_visible(const HitPoint* h) const
{
    int k = mask_calls++;
    bool v = true;
    if(mask_mode == 1)
        v = sym_choice("visible", 2);
    if(k < 8)
    {
        mask_ans[k] = v;
        mask_u[k] = h->uv.x;
        mask_fp = mask_fp & (h->du.x == FP[0]) & (h->du.y == FP[1]) & (h->dv.x == FP[2]) & (h->dv.y == FP[3]) & (h->differentials == ray_diff);
        mask_v[k] = h->uv.y;
    }
    return v;
}
bool MaskBoolean::is_masked(const HitPoint* h) const { return !is_visible(h); }

static bool eq3(float ax, float ay, float az, float bx, float by, float bz, float t)
{
    return sym_near(ax, bx, t) & sym_near(ay, by, t) & sym_near(az, bz, t);
}
static const float EPS = SELF_INTERSECT_ERROR;

struct Setup
{
    float ox, oy, oz, dx, dy, dz;
    Ray r;
    float dist0;
    HitPoint h;
    MaskBoolean mask;
};
static void mk(Setup* s, float R)
{
    s->ox = sym_float("ox", -R, R);
    s->oy = sym_float("oy", -R, R);
    s->oz = sym_float("oz", -R, R);
    s->dx = sym_float("dx", -1, 1);
    s->dy = sym_float("dy", -1, 1);
    s->dz = sym_float("dz", -1, 1);
    s->r = Ray(Point3(s->ox, s->oy, s->oz), Vec3(s->dx, s->dy, s->dz));
    s->dist0 = sym_float("dist", 0.5f, 100.f);
    s->h.index = 77;
    s->h.uv = Point2(-3, -3);
    s->h.point_h = Point3(99, 99, 99);
    s->h.differentials = false;
    s->h.du = Vec2(0.25f, 0.5f);
    s->h.dv = Vec2(0.125f, 0.75f);
}
// everything but uv
HARNESS(h_sphere)
{
    Setup s;
    mk(&s, 5);
    float a = s.dx * s.dx + s.dy * s.dy + s.dz * s.dz;
    sym_assume(a > 0.2f);
    float b = 2 * (s.dx * s.ox + s.dy * s.oy + s.dz * s.oz), c = s.ox * s.ox + s.oy * s.oy + s.oz * s.oz - 1.f;
    sym_cut(a);
    sym_cut(b);
    sym_cut(c);
    float t = s.dist0;
    Sphere sp;
    bool hit = sp.intersect(&s.r, &t, &s.h, &s.mask);
    if(hit)
    {
        sym_assert(t >= EPS * 0.999f, "hit is ahead of the origin");
        sym_assert(t <= s.dist0 * 1.001f, "hit is not farther than the best so far");
        sym_assert(sym_near(a * t * t + b * t + c, 0.f, 0.02f), "hit lies on the sphere");
        Point3 p = s.r.apply(t);
        sym_assert(sym_near(p.y, s.h.point_h.y, 1e-3f) & sym_near(p.z, s.h.point_h.z, 1e-3f) &
                   sym_near(p.x, s.h.point_h.x, EPS * 2.1f), "reported point is the point at the distance");
        sym_assert(eq3(p.x, p.y, p.z, s.h.normal_h.x, s.h.normal_h.y, s.h.normal_h.z, 1e-3f), "normal is radial");
        sym_assert(s.h.index == 0, "a sphere has a single face");
        sym_reach("hit");
        sym_out("t", t);
    }
    else
    {
        sym_assert(t == s.dist0, "a miss leaves the distance");
        sym_assert((s.h.index == 77) & (s.h.point_h.x == 99.f) & (s.h.uv.x == -3.f), "a miss leaves the hit point");
        sym_reach("miss");
    }
}

// a ray through a point of the sphere: both crossings are known, alpha answers arbitrary
HARNESS(h_sphere_aim)
{
    float x = sym_float("x", -1, 1), y = sym_float("y", -1, 1), dx = sym_float("dx", -1, 1), dy = sym_float("dy", -1, 1),
          dz = sym_float("dz", -1, 1), q = sym_float("q", -3.f, 6.f);
    float rr = 1 - x * x - y * y;
    sym_assume(rr > 1e-4f);
    float z = sqrtf(rr);
    if(sym_choice("half", 2))
        z = -z;
    int ax = sym_choice("axis", 3);
    float P[3] = {x, y, z}, O[3], D[3];
    if(ax == 1)
    {
        P[0] = z;
        P[2] = x;
    }
    if(ax == 2)
    {
        P[1] = z;
        P[2] = y;
    }
    D[0] = dx;
    D[1] = dy;
    D[2] = dz;
    for(int i = 0; i < 3; i++)
        O[i] = P[i] - q * D[i];
    float a = dx * dx + dy * dy + dz * dz, e = P[0] * dx + P[1] * dy + P[2] * dz;
    sym_assume(a > 0.25f);
    sym_assume((e > 0.02f) | (e < -0.02f));   // not tangent
    sym_cut(a);
    sym_cut(e);
    sym_root(e);
    sym_alias(2 * (e - q * a));
    sym_alias(a * q * q - 2 * q * e);
    sym_alias(4 * (e * e));
    float q2 = q - 2 * (e / a);               // the other crossing
    float d0 = sym_float("dist", 0.5f, 100.f);
    const float T = 0.02f;
    Setup s;
    s.h.index = 77;
    s.h.uv = Point2(-3, -3);
    s.h.point_h = Point3(99, 99, 99);
    s.h.differentials = ray_diff = true;
    s.h.du = Vec2(0.25f, 0.5f);
    s.h.dv = Vec2(0.125f, 0.75f);
    s.r = Ray(Point3(O[0], O[1], O[2]), Vec3(dx, dy, dz));
    float lo = sym_ite_f(q < q2, q, q2), hi = sym_ite_f(q < q2, q2, q), t = d0;
    mask_mode = 1;
    Sphere sp;
    bool hit = sp.intersect(&s.r, &t, &s.h, &s.mask);
    bool v0 = mask_calls > 0 && mask_ans[0], v1 = mask_calls > 1 && mask_ans[1];
    bool lo_in = (lo > EPS + T) & (lo < d0 - T), lo_out = (lo < EPS - T) | (lo > d0 + T);
    bool hi_in = (hi > EPS + T) & (hi < d0 - T), hi_out = (hi < EPS - T) | (hi > d0 + T);
    sym_assert(mask_calls <= 2, "at most two candidates");
    sym_assert(sym_imp(lo_out & hi_out, !hit), "no crossing in range is a miss");
    sym_assert(sym_imp(lo_in, (mask_calls >= 1) & sym_imp(v0, hit & sym_near(t, lo, T))), "the nearest crossing, when visible, is the hit");
    sym_assert(sym_imp(lo_in & !v0 & hi_in, (mask_calls == 2) & (hit == v1) & sym_imp(hit, sym_near(t, hi, T))),
               "with the nearest crossing masked the far one counts");
    sym_assert(sym_imp(lo_in & !v0 & hi_out, !hit), "the far crossing does not count beyond the best so far");
    sym_assert(sym_imp(lo_out & hi_in & (lo < 0), (mask_calls == 1) & (hit == v0) & sym_imp(hit, sym_near(t, hi, T))), "from inside the exit is the hit");
    if(hit)
    {
        sym_assert(v0 | v1, "the hit is visible");
        sym_assert(mask_fp, "the mask sees the footprint of the ray");
        sym_assert((t >= EPS * 0.999f) & (t <= d0 * 1.001f), "distance of the hit in range");
        Point3 p = s.r.apply(t);
        sym_assert(eq3(p.x, p.y, p.z, s.h.normal_h.x, s.h.normal_h.y, s.h.normal_h.z, 1e-3f), "normal of the crossing reported");
        sym_assert(sym_near(p.y, s.h.point_h.y, 1e-3f) & sym_near(p.z, s.h.point_h.z, 1e-3f) &
                   sym_near(p.x, s.h.point_h.x, EPS * 2.1f), "point of the crossing reported");
        sym_assert((s.h.uv.x >= -1e-3f) & (s.h.uv.x <= 1.001f) & (s.h.uv.y >= -1e-3f) & (s.h.uv.y <= 1.001f), "u and v in the unit square");
        sym_assert(eq3(s.h.dpdu.x, s.h.dpdu.y, 0, -TWO_PI * s.h.point_h.y, TWO_PI * s.h.point_h.x, 0, 0.05f), "tangent of the crossing reported");
        sym_reach(v1 ? "second" : "hit");
    }
    else
    {
        sym_assert((t == d0) & (s.h.index == 77) & (s.h.uv.x == -3.f) & (s.h.point_h.x == 99.f), "a miss leaves no trace");
        sym_reach(mask_calls ? "masked" : "miss");
    }
}
// ------------------------------------------------------------ triangle
static Point3 spt(const char* n, float r)
{
    float x = sym_float(n, -r, r), y = sym_float(n, -r, r), z = sym_float(n, -r, r);
    return Point3(x, y, z);
}
static void mktri(Vertex* v, bool unituv)
{
    for(int i = 0; i < 3; i++)
    {
        v[i].p = spt("v", 4);
        float nx = sym_float("n", -1, 1), ny = sym_float("n", -1, 1), nz = sym_float("n", -1, 1);
        v[i].n = Normal(nx, ny, nz);
        v[i].t.x = unituv ? (i == 1 ? 1.f : 0.f) : sym_float("uv", -2, 2);
        v[i].t.y = unituv ? (i == 2 ? 1.f : 0.f) : sym_float("uv", -2, 2);
    }
}
static float det3(const Vec3& a, const Vec3& b, const Vec3& c)
{
    return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
}
static void prep(Setup* s, float dist0)
{
    s->dist0 = dist0;
    s->h.index = 77;
    s->h.uv = Point2(-3, -3);
    s->h.point_h = Point3(99, 99, 99);
    s->h.normal_h = Normal(9, 9, 9);
    s->h.dpdu = Vec3(9, 9, 9);
    s->h.differentials = false;
    s->h.du = Vec2(0.25f, 0.5f);
    s->h.dv = Vec2(0.125f, 0.75f);
}
// any ray: a reported hit is a point of the triangle, a miss leaves no trace
HARNESS(h_tri_sound)
{
    Vertex vx[3];
    mktri(vx, false);
    Triangle t(vx[0], vx[1], vx[2]);
    Setup s;
    mk(&s, 6);
    prep(&s, s.dist0);
    ray_diff = sym_choice("diff", 2);
    s.h.differentials = ray_diff;
    float uvd = (t.a.t.x - t.c.t.x) * (t.b.t.y - t.c.t.y) - (t.b.t.x - t.c.t.x) * (t.a.t.y - t.c.t.y);
    sym_assume((uvd > 0.05f) | (uvd < -0.05f));
    Vec3 ba = t.b.p - t.a.p, ca = t.c.p - t.a.p, tv = s.r.origin - t.a.p;
    Vec3 md(-s.dx, -s.dy, -s.dz);
    float D = det3(md, ba, ca);
    sym_assume((D > 0.05f) | (D < -0.05f));
    sym_cut(D);
    sym_cut(det3(md, tv, ca));
    sym_cut(det3(md, ba, tv));
    sym_cut(det3(tv, ba, ca));
    mask_mode = 1;
    float d = s.dist0;
    bool hit = t.intersect(&s.r, &d, &s.h, &s.mask);
    if(hit)
    {
        float u = det3(md, tv, ca) / D, v = det3(md, ba, tv) / D, w = 1 - u - v;
        Point3 p = s.r.apply(d);
        float X = t.a.p.x * w + t.b.p.x * u + t.c.p.x * v, Y = t.a.p.y * w + t.b.p.y * u + t.c.p.y * v,
              Z = t.a.p.z * w + t.b.p.z * u + t.c.p.z * v;
        sym_assert((u >= -sym_tol(0.01f)) & (v >= -sym_tol(0.01f)) & (w >= -sym_tol(0.01f)), "hit is inside the three edges");
        sym_assert(eq3(p.x, p.y, p.z, X, Y, Z, 0.02f), "hit is in the plane of the triangle");
        sym_assert(eq3(p.x, p.y, p.z, s.h.point_h.x, s.h.point_h.y, s.h.point_h.z, 1e-3f), "reported point is the point at the distance");
        sym_assert((d >= EPS * 0.999f) & (d <= s.dist0 * 1.0001f), "hit distance in range");
        float nx = t.a.n.x * w + t.b.n.x * u + t.c.n.x * v, ny = t.a.n.y * w + t.b.n.y * u + t.c.n.y * v,
              nz = t.a.n.z * w + t.b.n.z * u + t.c.n.z * v;
        sym_assert(eq3(s.h.normal_h.x, s.h.normal_h.y, s.h.normal_h.z, nx, ny, nz, 0.02f), "normal interpolates the vertex normals");
        sym_assert(sym_near(s.h.uv.x, t.a.t.x * w + t.b.t.x * u + t.c.t.x * v, 0.02f) &
                   sym_near(s.h.uv.y, t.a.t.y * w + t.b.t.y * u + t.c.t.y * v, 0.02f), "texture coordinates interpolate");
        sym_assert((mask_calls == 1) & mask_ans[0], "the hit was visible");
        sym_assert(mask_fp, "the mask sees the footprint of the ray");
        sym_assert(sym_near(mask_u[0], s.h.uv.x, 1e-3f) & sym_near(mask_v[0], s.h.uv.y, 1e-3f), "the mask sees the coordinates of the hit");
        float a0 = t.a.t.x - t.c.t.x, a1 = t.a.t.y - t.c.t.y, b0 = t.b.t.x - t.c.t.x, b1 = t.b.t.y - t.c.t.y;
        Vec3 ac = t.a.p - t.c.p, bc = t.b.p - t.c.p;
        Vec3 pu = s.h.dpdu, pv = s.h.dpdv;
        sym_assert(eq3(pu.x * a0 + pv.x * a1, pu.y * a0 + pv.y * a1, pu.z * a0 + pv.z * a1, ac.x, ac.y, ac.z, 0.05f),
                   "surface derivatives reproduce the first edge");
        sym_assert(eq3(pu.x * b0 + pv.x * b1, pu.y * b0 + pv.y * b1, pu.z * b0 + pv.z * b1, bc.x, bc.y, bc.z, 0.05f),
                   "surface derivatives reproduce the second edge");
        sym_reach("hit");
        sym_out("d", d);
    }
    else
    {
        sym_assert(d == s.dist0, "a miss leaves the distance");
        sym_assert((s.h.index == 77) & (s.h.point_h.x == 99.f) & (s.h.uv.x == -3.f) & (s.h.normal_h.x == 9.f) & (s.h.dpdu.x == 9.f),
                   "a miss leaves the hit record");
        if(mask_calls)
            sym_reach("masked");
        else
            sym_reach("miss");
    }
}
// a ray aimed at an inner point of the triangle hits it there
HARNESS(h_tri_complete)
{
    Vertex vx[3];
    mktri(vx, true);
    Triangle t(vx[0], vx[1], vx[2]);
    float u = sym_float("u", 0.02f, 0.96f), v = sym_float("v", 0.02f, 0.96f), q = sym_float("q", 0.02f, 50.f);
    sym_assume(u + v <= 0.98f);
    float dx = sym_float("dx", -1, 1), dy = sym_float("dy", -1, 1), dz = sym_float("dz", -1, 1);
    float w = 1 - u - v;
    Vec3 ba = t.b.p - t.a.p, ca = t.c.p - t.a.p, d(dx, dy, dz);
    float D = det3(d, ba, ca);
    sym_assume((D > 0.05f) | (D < -0.05f));
    sym_cut(D);
    Point3 P(t.a.p.x * w + t.b.p.x * u + t.c.p.x * v, t.a.p.y * w + t.b.p.y * u + t.c.p.y * v,
             t.a.p.z * w + t.b.p.z * u + t.c.p.z * v);
    Setup s;
    s.r = Ray(Point3(P.x - q * dx, P.y - q * dy, P.z - q * dz), d);
    float d0 = sym_float("dist", 0.1f, 100.f);
    prep(&s, d0);
    mask_mode = 1;
    float dist = d0;
    bool hit = t.intersect(&s.r, &dist, &s.h, &s.mask);
    bool vis = mask_calls == 0 || mask_ans[0];
    if(vis)
    {
        sym_assert(sym_imp(q < d0 - 0.01f, hit), "a ray through an inner point ahead hits");
        sym_assert(sym_imp(q > d0 + 0.01f, !hit), "farther than the best so far is not a hit");
        sym_reach("visible");
    }
    else
    {
        sym_assert(!hit, "a masked point is not a hit");
        sym_assert(dist == d0, "a masked point leaves the distance");
        sym_assert((s.h.index == 77) & (s.h.point_h.x == 99.f) & (s.h.uv.x == -3.f) & (s.h.normal_h.x == 9.f) & (s.h.dpdu.x == 9.f),
                   "a masked point leaves the hit record");
    }
    if(hit)
    {
        sym_assert(sym_near(dist, q, 0.02f), "at the distance of the point");
        sym_assert(sym_near(s.h.uv.x, u, 0.01f) & sym_near(s.h.uv.y, v, 0.01f), "with its coordinates");
        sym_reach("hit");
    }
}
// ray parallel to the plane or pointing away
HARNESS(h_tri_away)
{
    Vertex vx[3];
    mktri(vx, true);
    Triangle t(vx[0], vx[1], vx[2]);
    float u = sym_float("u", -3, 3), v = sym_float("v", -3, 3), q = sym_float("q", -50.f, 50.f);
    bool out = (u < -0.02f) | (v < -0.02f) | (u + v > 1.02f) | (q < EPS - 0.005f);
    sym_assume(out);
    float dx = sym_float("dx", -1, 1), dy = sym_float("dy", -1, 1), dz = sym_float("dz", -1, 1);
    float w = 1 - u - v;
    Vec3 ba = t.b.p - t.a.p, ca = t.c.p - t.a.p, d(dx, dy, dz);
    float D = det3(d, ba, ca);
    sym_assume((D > 0.05f) | (D < -0.05f));
    sym_cut(D);
    Point3 P(t.a.p.x * w + t.b.p.x * u + t.c.p.x * v, t.a.p.y * w + t.b.p.y * u + t.c.p.y * v,
             t.a.p.z * w + t.b.p.z * u + t.c.p.z * v);
    Setup s;
    s.r = Ray(Point3(P.x - q * dx, P.y - q * dy, P.z - q * dz), d);
    prep(&s, 100.f);
    float dist = 100.f;
    bool hit = t.intersect(&s.r, &dist, &s.h, &s.mask);
    sym_assert(!hit, "a ray outside the edges or pointing away misses");
    sym_reach("end");
}

// ------------------------------------------------------------ box
// a reported hit is a point of the surface with the outward normal of its face
HARNESS(h_box_sound)
{
    Setup s;
    mk(&s, 4);
    prep(&s, s.dist0);
    float D[3] = {s.dx, s.dy, s.dz};
    for(int i = 0; i < 3; i++)
        sym_assume((D[i] > 0.02f) | (D[i] < -0.02f));
    mask_mode = 1;
    Box b;
    float t = s.dist0;
    bool hit = b.intersect(&s.r, &t, &s.h, &s.mask);
    if(hit)
    {
        Point3 p = s.r.apply(t);
        float P[3] = {p.x, p.y, p.z}, N[3] = {s.h.normal_h.x, s.h.normal_h.y, s.h.normal_h.z};
        bool in = true, face = false, onlyone = true;
        float tl = sym_tol(0.01f);
        for(int i = 0; i < 3; i++)
        {
            in = in & (P[i] >= -tl) & (P[i] <= 1 + tl);
            bool lo = sym_near(P[i], 0, 0.01f) & (N[i] == -1.f), hi = sym_near(P[i], 1, 0.01f) & (N[i] == 1.f);
            bool rest = (N[(i + 1) % 3] == 0) & (N[(i + 2) % 3] == 0);
            face = face | ((lo | hi) & rest);
        }
        (void)onlyone;
        sym_assert(in, "hit is on the box");
        sym_assert(face, "normal is the outward normal of the face hit");
        sym_assert(eq3(p.x, p.y, p.z, s.h.point_h.x, s.h.point_h.y, s.h.point_h.z, 1e-3f), "reported point is the point at the distance");
        sym_assert((t >= EPS * 0.999f) & (t <= s.dist0 * 1.001f), "hit distance in range");
        float dp = s.h.dpdu.x * N[0] + s.h.dpdu.y * N[1] + s.h.dpdu.z * N[2];
        float dl = s.h.dpdu.x * s.h.dpdu.x + s.h.dpdu.y * s.h.dpdu.y + s.h.dpdu.z * s.h.dpdu.z;
        sym_assert((dp == 0) & (dl == 1.f), "tangent is perpendicular to the normal");
        sym_assert((mask_calls == 1) & mask_ans[0], "the hit was visible");
        sym_assert(s.h.index == 0, "a box has a single material index");
        sym_reach("hit");
        sym_out("t", t);
    }
    else
    {
        sym_assert((t == s.dist0) & (s.h.index == 77) & (s.h.point_h.x == 99.f) & (s.h.uv.x == -3.f) & (s.h.normal_h.x == 9.f) & (s.h.dpdu.x == 9.f),
                   "a miss leaves no trace");
        sym_reach(mask_calls ? "masked" : "miss");
    }
}
// a ray through a point of a face
HARNESS(h_box_aim)
{
    int k = sym_choice("face", 6), ax = k >> 1;
    float side = (float)(k & 1);
    float a = sym_float("a", 0.01f, 0.99f), b = sym_float("b", 0.01f, 0.99f), q = sym_float("q", -3, 10);
    float P[3], D[3], O[3];
    P[ax] = side;
    P[(ax + 1) % 3] = a;
    P[(ax + 2) % 3] = b;
    bool ok = true;
    for(int i = 0; i < 3; i++)
    {
        D[i] = sym_float("d", -1, 1);
        O[i] = P[i] - q * D[i];
        ok = ok & ((D[i] > 0.02f) | (D[i] < -0.02f));
    }
    sym_assume(ok);
    float d0 = sym_float("dist", 0.5f, 100.f);
    Setup s;
    prep(&s, d0);
    s.r = Ray(Point3(O[0], O[1], O[2]), Vec3(D[0], D[1], D[2]));
    mask_mode = 0;
    Box bx;
    float t = d0;
    bool hit = bx.intersect(&s.r, &t, &s.h, &s.mask);
    bool entering = side > 0.5f ? D[ax] < 0 : D[ax] > 0;
    // is the origin inside the box (strictly, with a margin)
    bool inside = true, outside = false;
    for(int i = 0; i < 3; i++)
    {
        inside = inside & (O[i] > 0.02f) & (O[i] < 0.98f);
        outside = outside | (O[i] < -0.02f) | (O[i] > 1.02f);
    }
    const float T = 0.005f;
    bool inr = (q > EPS + T) & (q < d0 - T);
    sym_assert(sym_imp(entering & inr, hit & sym_near(t, q, T)), "a ray entering through the face hits it there");
    sym_assert(sym_imp(!entering & inside & inr, hit & sym_near(t, q, T)), "from inside the exit is the hit");
    sym_assert(sym_imp(entering & (q > d0 + T), !hit), "farther than the best so far is not a hit");
    sym_assert(sym_imp(!entering & (q < EPS - T), !hit), "a box behind the origin is not hit");
    sym_assert(sym_imp(!entering & inr & outside, sym_imp(hit, t < q + T)), "the exit is not reported before the entry");
    // the parameter at which the ray enters the box: a start on the face or just before it is left through the far side
    float ent = -1000.f;
    for(int i = 0; i < 3; i++)
    {
        float n = sym_ite_f(D[i] > 0, -O[i] / D[i], (1.f - O[i]) / D[i]);
        ent = sym_ite_f(n > ent, n, ent);
    }
    float sl = sym_tol(1e-4f);
    sym_assert(sym_imp(!entering & inr & (ent < EPS - sl), hit & sym_near(t, q, T)), "from the surface or from inside the exit is the hit");
    sym_assert(sym_imp(!entering & inr & (ent > EPS + sl) & (ent < q), sym_imp(hit, sym_near(t, ent, T))), "from outside the entry is the hit");
    if(hit)
        sym_reach("hit");
    else
        sym_reach("miss");
}
