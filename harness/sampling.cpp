#include "sym.h"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/asset.hpp"
#include "textures/mask_boolean.hpp"
#include "utility/utility.hpp"

static bool eq3(float ax, float ay, float az, float bx, float by, float bz, float t)
{
    return sym_near(ax, bx, t) & sym_near(ay, by, t) & sym_near(az, bz, t);
}
static Point3 spt(const char* n, float r)
{
    float x = sym_float(n, -r, r), y = sym_float(n, -r, r), z = sym_float(n, -r, r);
    return Point3(x, y, z);
}
static void affine(Matrix4* m, float v[16])
{
    for(int i = 0; i < 12; i++)
        v[i] = sym_float("m", -3, 3);
    v[12] = v[13] = v[14] = 0;
    v[15] = 1;
    *m = Matrix4(v);
}
static float row(const float* v, int i, const Point3& p) { return v[i * 4] * p.x + v[i * 4 + 1] * p.y + v[i * 4 + 2] * p.z + v[i * 4 + 3]; }
static void tri_in(Vertex* x, float r)
{
    for(int i = 0; i < 3; i++)
    {
        x[i].p = spt("v", r);
        x[i].n = Normal(0, 0, 1);
        x[i].t = Point2((float)(i == 1), (float)(i == 2));
    }
}
static float cross2(const float* a, const float* b)
{
    float x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
    return x * x + y * y + z * z;
}
// ---- sampling points of the surface
HARNESS(h_sample_sphere)
{
    float r0 = sym_float("r0", 0, 1), r1 = sym_float("r1", 0, 1);
    Sphere s;
    Point3 p, q;
    Normal n, nq;
    s.sample_point(r0, r1, 0, &p, &n);
    sym_assert(sym_near(p.x * p.x + p.y * p.y + p.z * p.z, 1, 1e-3f), "sample is on the sphere");
    sym_assert(eq3(p.x, p.y, p.z, n.x, n.y, n.z, 1e-6f), "normal is radial");
    // uniform: height linear in the first variate, azimuth in the second
    Point3 e0, e1;
    s.sample_point(0, r1, 0, &e0, &nq);
    s.sample_point(1, r1, 0, &e1, &nq);
    sym_assert(sym_near(e0.z * e1.z, -1, 1e-3f) & sym_near(p.z, e0.z + (e1.z - e0.z) * r0, 1e-3f), "height covers the sphere uniformly");
    float c = cosf(TWO_PI * r1), sn = sinf(TWO_PI * r1);
    sym_assert(sym_near(p.x * sn, p.y * c, 1e-3f) & (p.x * c + p.y * sn >= -1e-3f), "azimuth covers the circle uniformly");
    sym_reach("end");
    sym_out("z", p.z);
}
HARNESS(h_sample_tri)
{
    Vertex x[3];
    tri_in(x, 2);
    float r0 = sym_float("r0", -1e-3f, 1), r1 = sym_float("r1", 0, 1);
    Triangle t(x[0], x[1], x[2]);
    Vec3 ba = x[1].p - x[0].p, ca = x[2].p - x[0].p;
    Vec3 g(ba.y * ca.z - ba.z * ca.y, ba.z * ca.x - ba.x * ca.z, ba.x * ca.y - ba.y * ca.x);
    float g2 = g.x * g.x + g.y * g.y + g.z * g.z;
    sym_assume(g2 > 0.01f);
    sym_cut(g2);
    Point3 p;
    Normal n;
    t.sample_point(r0, r1, 0, &p, &n);
    // barycentric coordinates of the sample
    float sq = sqrtf(sym_ite_f(r0 < 0, 0, r0)), u = 1 - sq, v = r1 * sq, w = 1 - u - v;
    float X = u * x[0].p.x + v * x[1].p.x + w * x[2].p.x, Y = u * x[0].p.y + v * x[1].p.y + w * x[2].p.y,
          Z = u * x[0].p.z + v * x[1].p.z + w * x[2].p.z;
    (void)X; (void)Y; (void)Z;
    sym_assert((u >= 0) & (v >= 0) & (w >= -1e-3f), "weights");
    // inside: the three sub-areas add up with non-negative weights, whatever the assignment of the variates
    Vec3 pa = p - x[0].p;
    float b1 = (g.x * (pa.y * ca.z - pa.z * ca.y) + g.y * (pa.z * ca.x - pa.x * ca.z) + g.z * (pa.x * ca.y - pa.y * ca.x));
    float b2 = (g.x * (ba.y * pa.z - ba.z * pa.y) + g.y * (ba.z * pa.x - ba.x * pa.z) + g.z * (ba.x * pa.y - ba.y * pa.x));
    float tl = sym_tol(2e-3f);
    float off = g.x * pa.x + g.y * pa.y + g.z * pa.z;
    sym_assert((b1 >= -tl * g2) & (b2 >= -tl * g2) & (b1 + b2 <= g2 * (1 + tl)), "sample is inside the triangle");
    sym_assert(sym_near(off, 0, 0.01f * (1 + g2)), "sample is in the plane of the triangle");
    float nl = n.x * n.x + n.y * n.y + n.z * n.z;
    float dn = n.x * g.x + n.y * g.y + n.z * g.z;
    sym_assert(sym_near(nl, 1, 1e-3f) & (dn > 0) & sym_near(dn * dn, g2, 1e-3f * (1 + g2)), "normal is the unit geometric normal");
    sym_reach("end");
}
// density: images of nested strips have area proportional to the variate
HARNESS(h_sample_tri_uniform)
{
    Vertex x[3];
    tri_in(x, 2);
    float r0 = sym_float("r0", 0.01f, 1), r1 = sym_float("r1", 0, 1), r2 = sym_float("r2", 0, 1);
    Triangle t(x[0], x[1], x[2]);
    Point3 o, a, b, a1, b1, c;
    Normal n;
    t.sample_point(0, 0, 0, &o, &n);
    t.sample_point(r0, 0, 0, &a, &n);
    t.sample_point(r0, 1, 0, &b, &n);
    t.sample_point(1, 0, 0, &a1, &n);
    t.sample_point(1, 1, 0, &b1, &n);
    t.sample_point(r0, r1, 0, &c, &n);
    (void)r2;
    float e0[3] = {a.x - o.x, a.y - o.y, a.z - o.z}, e1[3] = {b.x - o.x, b.y - o.y, b.z - o.z};
    float f0[3] = {a1.x - o.x, a1.y - o.y, a1.z - o.z}, f1[3] = {b1.x - o.x, b1.y - o.y, b1.z - o.z};
    float s = cross2(e0, e1), S = cross2(f0, f1);
    Vec3 ba = x[1].p - x[0].p, ca = x[2].p - x[0].p;
    float g0[3] = {ba.x, ba.y, ba.z}, g1[3] = {ca.x, ca.y, ca.z};
    float G = cross2(g0, g1);
    sym_assert(sym_near(S, G, 1e-3f * (1 + G)), "the unit square covers the whole triangle");
    sym_assert(sym_near(s, r0 * r0 * S, 2e-3f * (1 + S)), "area below a variate is proportional to it");
    sym_assert(eq3(c.x, c.y, c.z, a.x + (b.x - a.x) * r1, a.y + (b.y - a.y) * r1, a.z + (b.z - a.z) * r1, 1e-3f), "second variate moves along the strip");
    sym_reach("end");
}
HARNESS(h_sample_box)
{
    float d[6], acc = 0, f[6];
    for(int i = 0; i < 3; i++)
        f[2 * i] = f[2 * i + 1] = sym_float("f", 0.1f, 10);
    for(int i = 0; i < 6; i++)
    {
        acc += f[i];
        d[i] = acc;
    }
    int k = sym_choice("face", 6);
    float w = sym_float("w", 0.001f, 0.999f), r1 = sym_float("r1", 0, 1);
    float r0 = (k ? d[k - 1] : 0.f) / d[5] + w * f[k] / d[5];
    Box b;
    Point3 p;
    Normal n;
    b.sample_point(r0, r1, d, &p, &n);
    float P[3] = {p.x, p.y, p.z}, N[3] = {n.x, n.y, n.z};
    // faces in the order of the cumulative areas: two z, two y, two x
    int ax = 2 - (k >> 1), o1 = ax == 0 ? 1 : 0, o2 = ax == 2 ? 1 : 2;
    sym_assert(((N[ax] == 1.f) | (N[ax] == -1.f)) & (N[o1] == 0) & (N[o2] == 0), "normal is the normal of the face chosen by area");
    sym_assert(sym_near(P[ax], N[ax] > 0 ? 1.f : 0.f, 1e-6f), "sample is on that face");
    bool lin = (sym_near(P[o1], w, 5e-3f) & sym_near(P[o2], r1, 1e-3f)) | (sym_near(P[o2], w, 5e-3f) & sym_near(P[o1], r1, 1e-3f));
    sym_assert(lin, "the face is covered uniformly");
    float w2 = sym_float("w2", 0.001f, 0.999f);
    int k2 = k ^ 1;
    Point3 p2;
    Normal n2;
    b.sample_point((k2 ? d[k2 - 1] : 0.f) / d[5] + w2 * f[k2] / d[5], r1, d, &p2, &n2);
    float N2[3] = {n2.x, n2.y, n2.z};
    sym_assert(N2[ax] == -N[ax], "the two faces of an axis are both sampled");
    sym_reach("end");
}
