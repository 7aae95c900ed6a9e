#include "sym.h"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/asset.hpp"
#include "textures/mask_boolean.hpp"
#include "utility/utility.hpp"

static bool eq3(float ax, float ay, float az, float bx, float by, float bz, float t)
{
    return sym_near(ax, bx, t) & sym_near(ay, by, t) & sym_near(az, bz, t);
}
static Point3 spt(const char* n, float r)
{
    float x = sym_float(n, -r, r), y = sym_float(n, -r, r), z = sym_float(n, -r, r);
    return Point3(x, y, z);
}
static void affine(Matrix4* m, float v[16])
{
    for(int i = 0; i < 12; i++)
        v[i] = sym_float("m", -3, 3);
    v[12] = v[13] = v[14] = 0;
    v[15] = 1;
    *m = Matrix4(v);
}
static float row(const float* v, int i, const Point3& p) { return v[i * 4] * p.x + v[i * 4 + 1] * p.y + v[i * 4 + 2] * p.z + v[i * 4 + 3]; }
static void within(const AABB& b, const float* v, const Point3& p, const char* lo, const char* hi)
{
    float t = sym_tol(1e-3f);
    for(int i = 0; i < 3; i++)
    {
        float x = row(v, i, p);
        sym_assert(b.bounds[0][i] <= x + t, lo);
        sym_assert(b.bounds[1][i] >= x - t, hi);
    }
}
// ---- world bounds
HARNESS(h_bounds_box)
{
    Matrix4 m;
    float v[16];
    affine(&m, v);
    Box b;
    AABB w = b.compute_AABB(&m), o = b.compute_AABB();
    int k = sym_choice("corner", 8);
    Point3 p((float)(k & 1), (float)((k >> 1) & 1), (float)(k >> 2));
    within(w, v, p, "world bounds contain every corner of the box (lower)", "world bounds contain every corner of the box (upper)");
    sym_assert((o.bounds[0].x == 0) & (o.bounds[0].y == 0) & (o.bounds[0].z == 0) & (o.bounds[1].x == 1) &
               (o.bounds[1].y == 1) & (o.bounds[1].z == 1), "object bounds of the box");
    sym_reach("end");
}
HARNESS(h_bounds_sphere)
{
    Matrix4 m;
    float v[16];
    affine(&m, v);
    Sphere s;
    int k = sym_choice("sign", 8), i = sym_choice("row", 3);
    float a = v[i * 4], b = v[i * 4 + 1], c = v[i * 4 + 2];
    sym_assume(((k & 1) ? a >= 0 : a <= 0) & ((k & 2) ? b >= 0 : b <= 0) & ((k & 4) ? c >= 0 : c <= 0));
    AABB w = s.compute_AABB(&m), o = s.compute_AABB();
    // farthest point of the transformed sphere along an axis
    float r = sym_float("r", 0, 6);
    sym_assume(r * r <= a * a + b * b + c * c);
    sym_assert(w.bounds[1][i] >= v[i * 4 + 3] + r - sym_tol(1e-3f), "world bounds contain the far side of the sphere");
    sym_assert(w.bounds[0][i] <= v[i * 4 + 3] - r + sym_tol(1e-3f), "world bounds contain the near side of the sphere");
    for(int j = 0; j < 3; j++)
        sym_assert((o.bounds[0][j] <= -1) & (o.bounds[1][j] >= 1) & (o.bounds[0][j] >= -1.01f) & (o.bounds[1][j] <= 1.01f), "object bounds of the sphere");
    sym_reach("end");
}
static void tri_in(Vertex* x, float r)
{
    for(int i = 0; i < 3; i++)
    {
        x[i].p = spt("v", r);
        x[i].n = Normal(0, 0, 1);
        x[i].t = Point2((float)(i == 1), (float)(i == 2));
    }
}
HARNESS(h_bounds_tri)
{
    Matrix4 m;
    float v[16];
    affine(&m, v);
    Vertex x[3];
    tri_in(x, 4);
    Triangle t(x[0], x[1], x[2]);
    AABB w = t.compute_AABB(&m), o = t.compute_AABB();
    float I[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
    for(int k = 0; k < 3; k++)
    {
        within(w, v, x[k].p, "world bounds contain every vertex (lower)", "world bounds contain every vertex (upper)");
        within(o, I, x[k].p, "object bounds contain every vertex (lower)", "object bounds contain every vertex (upper)");
    }
    sym_reach("end");
}
// a mesh: bounds of all of its triangles
HARNESS(h_bounds_mesh)
{
    Vertex x[6];
    tri_in(x, 4);
    tri_in(x + 3, 4);
    Mesh m(2);
    m.add_triangle(x, x + 1, x + 2);
    m.add_triangle(x + 3, x + 4, x + 5);
    m.finalize();
    AABB o = m.compute_AABB();
    float I[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
    int k = sym_choice("vertex", 6);
    within(o, I, x[k].p, "object bounds of a mesh contain every vertex (lower)", "object bounds of a mesh contain every vertex (upper)");
    sym_assert(m.get_faces_number() == 2, "face count");
    sym_reach("end");
}
HARNESS(h_bounds_mesh_world)
{
    Matrix4 m;
    float v[16];
    affine(&m, v);
    Mesh ms(1);
    Point3 lo = spt("lo", 4), hi = spt("hi", 4);
    sym_assume((lo.x <= hi.x) & (lo.y <= hi.y) & (lo.z <= hi.z));
    ms.aabb = AABB(lo, hi);
    AABB w = ms.compute_AABB(&m);
    int k = sym_choice("corner", 8);
    Point3 p(k & 1 ? hi.x : lo.x, k & 2 ? hi.y : lo.y, k & 4 ? hi.z : lo.z);
    within(w, v, p, "world bounds of a mesh contain the corners of its object bounds (lower)", "world bounds of a mesh contain the corners of its object bounds (upper)");
    sym_reach("end");
}
// ---- world area: rigid rotation after a scale
struct Rot
{
    float sx, sy, sz;
    float v[16];
    Matrix4 m;
};
static void rigid(Rot* o, bool uniform)
{
    o->sx = sym_float("sx", 0.125f, 8);
    o->sy = uniform ? o->sx : sym_float("sy", 0.125f, 8);
    o->sz = uniform ? o->sx : sym_float("sz", 0.125f, 8);
    float t = sym_float("t", -2, 2), den = 1 + t * t, c = (1 - t * t) / den, s = 2 * t / den;
    int ax = sym_choice("axis", 3), b = (ax + 1) % 3, d = (ax + 2) % 3;
    float S[3] = {o->sx, o->sy, o->sz};
    for(int i = 0; i < 16; i++)
        o->v[i] = 0;
    o->v[15] = 1;
    o->v[ax * 4 + ax] = S[ax];
    o->v[b * 4 + b] = c * S[b];
    o->v[b * 4 + d] = -s * S[d];
    o->v[d * 4 + b] = s * S[b];
    o->v[d * 4 + d] = c * S[d];
    for(int i = 0; i < 3; i++)
    {
        o->v[i * 4 + 3] = sym_float("tr", -5, 5);
        sym_root(S[i]);
    }
    o->m = Matrix4(o->v);
}
HARNESS(h_area_sphere)
{
    Rot r;
    rigid(&r, true);
    Sphere s;
    float a = s.surface(&r.m);
    sym_assert(sym_near(a, 12.566371f * r.sx * r.sx, 1e-2f * r.sx * r.sx), "area of a scaled sphere");
    sym_assert(sym_near(s.surface(), 12.566371f, 1e-3f), "area of the unit sphere");
    sym_reach("end");
}
HARNESS(h_area_box)
{
    Rot r;
    rigid(&r, false);
    Box s;
    float a = s.surface(&r.m);
    float e = 2 * (r.sx * r.sy + r.sy * r.sz + r.sx * r.sz);
    sym_assert(sym_near(a, e, 1e-3f * e), "area of a scaled box");
    sym_assert(s.surface() == 6.f, "area of the unit box");
    float d[6];
    s.get_densities_array(&r.m, d);
    float f[6] = {r.sx * r.sy, r.sx * r.sy, r.sx * r.sz, r.sx * r.sz, r.sy * r.sz, r.sy * r.sz}, acc = 0;
    bool ok = true;
    for(int i = 0; i < 6; i++)
    {
        acc += f[i];
        ok = ok & sym_near(d[i], acc, 1e-3f * e);
    }
    sym_assert(ok, "cumulative areas of the six faces");
    sym_assert(s.get_faces_number() == 6, "six faces");
    sym_reach("end");
}
static float cross2(const float* a, const float* b)
{
    float x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
    return x * x + y * y + z * z;
}
HARNESS(h_area_tri)
{
    // a rotation does not change an area: compare with the scaled triangle
    Rot r;
    rigid(&r, false);
    Vertex x[3];
    tri_in(x, 2);
    Triangle t(x[0], x[1], x[2]);
    float e[2][3], o[2][3], S[3] = {r.sx, r.sy, r.sz};
    for(int k = 0; k < 2; k++)
    {
        Vec3 d = x[k + 1].p - x[0].p;
        o[k][0] = d.x;
        o[k][1] = d.y;
        o[k][2] = d.z;
        for(int i = 0; i < 3; i++)
        {
            e[k][i] = S[i] * o[k][i];
            sym_cut(e[k][i]);
        }
    }
    float a = t.surface(&r.m), b = t.surface();
    float c = cross2(e[0], e[1]), co = cross2(o[0], o[1]);
    sym_assert((a >= 0) & (b >= 0), "areas are not negative");
    sym_assert(sym_near(4 * a * a, c, 1e-3f * (1 + c)), "area of the transformed triangle");
    sym_assert(sym_near(4 * b * b, co, 1e-3f * (1 + co)), "area of a triangle");
    sym_reach("end");
}
float sarea[4];
HARNESS(h_area_mesh)
{
    Rot r;
    rigid(&r, false);
    Vertex x[6];
    tri_in(x, 2);
    tri_in(x + 3, 2);
    Mesh m(2);
    m.add_triangle(x, x + 1, x + 2);
    m.add_triangle(x + 3, x + 4, x + 5);
    m.finalize();
    Triangle a(x[0], x[1], x[2]), b(x[3], x[4], x[5]);
    float A = a.surface(&r.m), B = b.surface(&r.m), d[2];
    sym_assert(sym_near(m.surface(&r.m), A + B, 1e-3f * (1 + A + B)), "area of a mesh is the sum of its triangles");
    sym_assert(sym_near(m.surface(), a.surface() + b.surface(), 1e-3f), "object area of a mesh");
    m.get_densities_array(&r.m, d);
    sym_assert(sym_near(d[0], A, 1e-3f * (1 + A + B)) & sym_near(d[1], A + B, 1e-3f * (1 + A + B)), "cumulative areas of the triangles");
    sym_reach("end");
}
