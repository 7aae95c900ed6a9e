#include "sym.h"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/asset.hpp"
#include "textures/mask_boolean.hpp"
#include "utility/utility.hpp"

// a mesh: triangle selected with probability proportional to its area
static float rec_r0, rec_r1;
static const Triangle* rec_t;
static int rec_n;
void Triangle::sample_point(float r0, float r1, const float*, Point3* p, Normal* n) const
{
    rec_r0 = r0;
    rec_r1 = r1;
    rec_t = this;
    rec_n++;
    *p = a.p;
    *n = a.n;
}
HARNESS(h_sample_mesh)
{
    int cnt = sym_choice("count", 5) + 1;
    Mesh m(cnt);
    m.count = cnt;
    float d[5], f[5], acc = 0;
    for(int i = 0; i < cnt; i++)
    {
        f[i] = sym_float("f", 0.1f, 10);
        acc += f[i];
        d[i] = acc;
    }
    float* cd = new float[cnt];
    for(int i = 0; i < cnt; i++)
        cd[i] = d[i];
    int k = sym_choice("tri", 5);
    sym_assume(k < cnt);
    float w = sym_float("w", 0.001f, 0.999f), r1 = sym_float("r1", 0, 1);
    float r0 = (k ? d[k - 1] : 0.f) / d[cnt - 1] + w * f[k] / d[cnt - 1];
    Point3 p;
    Normal n;
    m.sample_point(r0, r1, cd, &p, &n);
    sym_assert(rec_n == 1, "one triangle is sampled");
    sym_assert(rec_t == &m.tris[k], "the triangle whose share of the area contains the variate is sampled");
    sym_assert(sym_near(rec_r0, w, 1e-2f) & (rec_r1 == r1), "the variate is rescaled to the share");
    delete[] cd;
    sym_reach("end");
}
