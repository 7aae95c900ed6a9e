#include "sym.h"
#include "primitives/sphere.hpp"
#include "geometry/matrix4.hpp"
#include "utility/utility.hpp"
#include "textures/mask_boolean.hpp"
HARNESS(h_sphere)
{
    Sphere s;
    Point3 o(sym_float("ox", -5, 5), sym_float("oy", -5, 5), sym_float("oz", -5, 5));
    Vec3 d(sym_float("dx", -1, 1), sym_float("dy", -1, 1), sym_float("dz", -1, 1));
    sym_assume(d.x * d.x + d.y * d.y + d.z * d.z > 0.01f);
    Ray r(o, d);
    float t = 1e30f;
    MaskBoolean mask;
    HitPoint h;
    if(s.intersect(&r, &t, &h, &mask))
    {
        sym_reach("hit");
        sym_out("t", t);
        sym_assert(t > 0, "t positive");
        Point3 p = r.apply(t);
        float l = p.x * p.x + p.y * p.y + p.z * p.z;
        sym_assert(sym_near(l, 1.f, 0.01f), "on sphere");
    }
    else
        sym_reach("miss");
}
HARNESS(h_clampbug)
{
    float a = sym_float("a", -10, 10);
    float c = ::clamp(a, -1.f, 5.f);
    sym_assert(c <= 4.f, "deliberately wrong");
    sym_reach("end");
}
HARNESS(h_mat)
{
    Vec3 t(sym_float("x", -10, 10), sym_float("y", -10, 10), sym_float("z", -10, 10));
    Matrix4 m, i;
    m.set_translation(t);
    bool ok = m.inverse(&i);
    sym_assert(ok, "invertible");
    Point3 p(sym_float("px", -10, 10), sym_float("py", -10, 10), sym_float("pz", -10, 10));
    Point3 q = i * (m * p);
    sym_out("q", q.x);
    sym_assert(sym_near(q.x, p.x, 1e-3f), "rt");
    sym_reach("end");
}
