#include "sym.h"
#include "materials/fresnel_conditions.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/shading_space.hpp"
#include "utility/utility.hpp"
#include <cmath>
#include <cstring>

static Spectrum spec(float a, float b, float c)
{
    Spectrum s(a);
    s.w[1] = b;
    s.w[2] = c;
    return s;
}
// a unit direction off the horizon
static Vec3 unit(const char* n, int up, float lim)
{
    float x = sym_float(n, -1, 1), y = sym_float(n, -1, 1);
    float zz = 1 - x * x - y * y;
    sym_assume(zz > lim);
    float z = sqrtf(zz);
    sym_root(z);
    return Vec3(x, y, up ? z : -z);
}
// ------------------------------------------------------------ Fresnel reflectance
HARNESS(h_conductor)
{
    float n0 = sym_float("n", 0.02f, 8), n1 = sym_float("n", 0.02f, 8), n2 = sym_float("n", 0.02f, 8);
    float k0 = sym_float("k", 0, 10), k1 = sym_float("k", 0, 10), k2 = sym_float("k", 0, 10);
    float c = sym_float("cos", 0, 1);
    Conductor f(spec(n0, n1, n2), spec(k0, k1, k2));
    Spectrum r = f.eval(c);
    float N[3] = {n0, n1, n2}, K[3] = {k0, k1, k2};
    for(int i = 0; i < 3; i++)
    {
        float m = N[i] * N[i] + K[i] * K[i];
        float ps = (m - 2 * N[i] * c + c * c) / (m + 2 * N[i] * c + c * c), pp = (m * c * c - 2 * N[i] * c + 1) / (m * c * c + 2 * N[i] * c + 1);
        sym_assert((r.w[i] >= -sym_tol(1e-5f)) & (r.w[i] <= 1 + sym_tol(1e-5f)), "reflectance of a metal is between zero and one");
        sym_assert(sym_near(r.w[i], (ps + pp) / 2, 1e-4f), "reflectance of a metal is the mean of both polarisations");
    }
    sym_reach("end");
}
static float dielectric(float ci, float ei, float et, bool* tir)
{
    float st = (ei / et) * sqrtf(1 - ci * ci);
    *tir = st >= 1;
    float ct = sqrtf(1 - st * st);
    float a = (ei * ci - et * ct) / (ei * ci + et * ct), b = (et * ci - ei * ct) / (et * ci + ei * ct);
    return (a * a + b * b) / 2;
}
HARNESS(h_dielectric)
{
    float ei = sym_float("ei", 1, 3), et = sym_float("et", 1, 3), c = sym_float("cos", 0.01f, 1);
    int out = sym_choice("side", 2);
    Dielectric f((Spectrum(ei)), Spectrum(et));
    sym_assert((f.get_eta_incident() == ei) & (f.get_eta_transmitted() == et), "refraction indices are kept");
    Spectrum r = f.eval(out ? c : -c);
    float a = out ? ei : et, b = out ? et : ei, st2 = a * a * (1 - c * c);
    sym_assert((r.w[0] == r.w[1]) & (r.w[0] == r.w[2]), "the same for all wavelengths");
    sym_assert((r.w[0] >= 0) & (r.w[0] <= 1 + sym_tol(1e-5f)), "reflectance is between zero and one");
    if(st2 >= b * b * 1.0001f)
    {
        sym_assert(r.w[0] == 1, "beyond the critical angle everything is reflected");
        sym_reach("total");
    }
    if(st2 < b * b * 0.9999f)
    {
        bool t;
        float v = dielectric(c, a, b, &t);
        sym_assert(sym_near(r.w[0], v, 1e-4f), "reflectance is the mean of both polarisations");
        sym_reach("partial");
    }
}
// ------------------------------------------------------------ mirrors and smooth glass
static bool eq3(const Vec3& a, float x, float y, float z, float t) { return sym_near(a.x, x, t) & sym_near(a.y, y, t) & sym_near(a.z, z, t); }
HARNESS(h_mirror_metal)
{
    float n = sym_float("n", 0.02f, 8), k = sym_float("k", 0, 10), r0 = sym_float("r", 0, 1), r1 = sym_float("r", 0, 1), pdf = -1;
    int up = sym_choice("side", 2);
    Vec3 wo = unit("wo", up, 0.001f), wi;
    ConductorReflection b((Spectrum(n)), Spectrum(k));
    Spectrum v = b.sample_value(&wo, &wi, r0, r1, &pdf);
    sym_assert((wi.x == -wo.x) & (wi.y == -wo.y) & (wi.z == wo.z), "a mirror reflects about the normal");
    sym_assert(pdf == 1, "the mirrored direction is certain");
    sym_assert(b.is_specular() & b.is_BRDF() & !b.is_BTDF(), "a mirror is a specular reflection");
    Spectrum z = b.value(&wo, &wi);
    sym_assert(z.is_black() & (b.pdf(&wo, &wi) == 0), "a mirror reflects no other direction");
    float c = up ? wo.z : -wo.z, m = n * n + k * k;
    float e = v.w[0] * c;
    float ps = (m - 2 * n * c + c * c) / (m + 2 * n * c + c * c), pp = (m * c * c - 2 * n * c + 1) / (m * c * c + 2 * n * c + 1);
    if(up)
        sym_assert(sym_near(e, (ps + pp) / 2, 1e-3f), "a metal mirror reflects as much as the Fresnel equations say");
    else
        sym_assert(sym_near(e, (ps + pp) / 2, 1e-3f), "a metal mirror seen from its back reflects as much as the Fresnel equations say");
    sym_reach("end");
}
HARNESS(h_glass)
{
    float ei = sym_float("ei", 1, 3), et = sym_float("et", 1, 3), r0 = sym_float("r", 0, 1), r1 = sym_float("r", 0, 1), pr = -1, pt = -1;
    int up = sym_choice("side", 2);
    Vec3 wo = unit("wo", up, 0.001f), wr, wt(9, 9, 9);
    DielectricReflection b((Spectrum(ei)), Spectrum(et));
    Refraction t((Spectrum(ei)), Spectrum(et));
    Spectrum vr = b.sample_value(&wo, &wr, r0, r1, &pr), vt = t.sample_value(&wo, &wt, r0, r1, &pt);
    sym_assert((wr.x == -wo.x) & (wr.y == -wo.y) & (wr.z == wo.z), "glass mirrors about the normal");
    sym_assert(pr == 1, "the mirrored direction is certain");
    sym_assert(b.is_specular() & b.is_BRDF() & t.is_specular() & t.is_BTDF() & !t.is_BRDF() & !b.is_BTDF(), "smooth glass has a specular reflection and a specular refraction");
    Spectrum z = b.value(&wo, &wr), y = t.value(&wo, &wt);
    sym_assert(z.is_black() & y.is_black() & (b.pdf(&wo, &wr) == 0) & (t.pdf(&wo, &wt) == 0), "smooth glass scatters to no other direction");
    float a = up ? ei : et, e = up ? et : ei, c = up ? wo.z : -wo.z, s2 = wo.x * wo.x + wo.y * wo.y;
    float R = vr.w[0] * c;
    if(a * a * s2 > e * e * 1.0001f)
    {
        sym_assert((pt == 0) & vt.is_black(), "no refraction beyond the critical angle");
        sym_assert(sym_near(R, 1, 1e-3f), "beyond the critical angle everything is reflected");
        sym_reach("total");
    }
    if(a * a * s2 < e * e * 0.9999f)
    {
        bool q;
        sym_assert(pt == 1, "the refracted direction is certain");
        sym_assert(sym_near(wt.x * e, -wo.x * a, 1e-3f) & sym_near(wt.y * e, -wo.y * a, 1e-3f), "refraction follows the law of Snell");
        sym_assert(sym_near(wt.x * wt.x + wt.y * wt.y + wt.z * wt.z, 1, 1e-3f), "the refracted direction has unit length");
        sym_assert(up ? wt.z < 0 : wt.z > 0, "the refracted ray continues on the other side");
        float F = dielectric(c, a, e, &q), ct = up ? -wt.z : wt.z;
        sym_assert(sym_near(R, F, 1e-3f), "glass reflects as much as the Fresnel equations say");
        // what is refracted is what the same equations, with the refracted angle, leave
        float u = (a * c - e * ct) / (a * c + e * ct), w = (e * c - a * ct) / (e * c + a * ct);
        sym_assert(sym_near(vt.w[0] * ct * (e * e), (1 - (u * u + w * w) / 2) * (a * a), 1e-3f), "reflected and refracted energy add up to what arrived");
        sym_reach("partial");
    }
}
// ------------------------------------------------------------ diffuse lobes
HARNESS(h_lambert)
{
    int u0 = sym_choice("side", 2), u1 = sym_choice("side", 2);
    Vec3 a = unit("wo", u0, 0), b = unit("wi", u1, 0);
    Lambertian l;
    Spectrum v = l.value(&a, &b), w = l.value(&b, &a);
    for(int i = 0; i < 3; i++)
        sym_assert(sym_near(v.w[i], INV_PI, 1e-3f) & (v.w[i] == w.w[i]) & (v.w[i] > 0), "a diffuse surface scatters evenly");
    sym_assert(l.is_BRDF() & !l.is_BTDF() & !l.is_specular(), "a diffuse surface reflects");
    sym_assert(l.pdf(&a, &b) == (u0 == u1 ? fabsf(b.z) * INV_PI : 0.f), "density of the cosine weighted direction, zero on the other side");
    sym_reach("end");
}
HARNESS(h_hemisphere)
{
    int u0 = sym_choice("side", 2);
    float r0 = sym_float("r0", 0, 1), r1 = sym_float("r1", 0, 0.9999f), pdf;
    Vec3 wo = unit("wo", u0, 0.0001f), wi;
    Lambertian l;
    Spectrum s = l.sample_value(&wo, &wi, r0, r1, &pdf), v = l.value(&wo, &wi);
    float c = cosf(TWO_PI * r0), n = sinf(TWO_PI * r0);
    sym_assert(sym_near(wi.x * wi.x + wi.y * wi.y + wi.z * wi.z, 1, 1e-3f), "sampled directions have unit length");
    sym_assert(u0 ? wi.z > 0 : wi.z < 0, "sampled directions are on the side of the viewer");
    sym_assert(sym_near(wi.x * wi.x + wi.y * wi.y, r1, 1e-3f), "the squared distance from the normal is uniform");
    sym_assert(sym_near(wi.x * n, wi.y * c, 1e-3f) & (wi.x * c + wi.y * n >= -sym_tol(1e-4f)), "the azimuth is uniform");
    sym_assert(sym_near(pdf, l.pdf(&wo, &wi), 1e-4f) & sym_near(pdf, (u0 ? wi.z : -wi.z) * INV_PI, 1e-4f), "the density reported is that of the pair of directions");
    sym_assert((s.w[0] == v.w[0]) & (s.w[1] == v.w[1]) & (s.w[2] == v.w[2]), "the value reported is that of the pair of directions");
    sym_reach("end");
}
HARNESS(h_oren)
{
    float sg = sym_float("sigma", 0, 1.6f);
    OrenNayar b(sg);
    float A = 1 - sg * sg / (2 * (sg * sg + 0.33f)), B = 0.45f * sg * sg / (sg * sg + 0.09f);
    Vec3 wo = unit("wo", 1, 0.01f), wi = unit("wi", 1, 0.01f);
    float so = wo.x * wo.x + wo.y * wo.y, si = wi.x * wi.x + wi.y * wi.y;
    Spectrum v = b.value(&wo, &wi);
    if((so > 0.0001f) & (si > 0.0001f))
    {
        // cos(difference of the azimuths) * sin * sin
        float cc = wo.x * wi.x + wo.y * wi.y;
        float mz = sym_ite_f(wi.z > wo.z, wi.z, wo.z);   // the angle closer to the normal is the smaller one
        float t = sym_ite_f(cc > 0, cc, 0.f) / mz;
        sym_assert(sym_near(v.w[0], (A + B * t) * INV_PI, 2e-3f), "value of the qualitative Oren-Nayar model");
        sym_assert(v.w[0] >= 0, "value is never negative");
        sym_reach("end");
    }
    sym_assert(b.is_BRDF() & !b.is_BTDF() & !b.is_specular(), "a rough diffuse surface reflects");
}
HARNESS(h_oren_swap)
{
    float sg = sym_float("sigma", 0, 1.6f);
    OrenNayar b(sg);
    Vec3 wo = unit("wo", 1, 0.01f), wi = unit("wi", 1, 0.01f);
    sym_assume((wo.x * wo.x + wo.y * wo.y > 0.0001f) & (wi.x * wi.x + wi.y * wi.y > 0.0001f));
    Spectrum v = b.value(&wo, &wi), w = b.value(&wi, &wo);
    sym_assert(sym_near(v.w[0], w.w[0], 1e-3f), "swapping light and viewer changes nothing");
    Vec3 mo(-wo.y, wo.x, wo.z), mi(-wi.y, wi.x, wi.z);
    Spectrum x = b.value(&mo, &mi);
    sym_assert(sym_near(v.w[0], x.w[0], 1e-3f), "turning the surface about its normal changes nothing");
    sym_reach("end");
}
// ------------------------------------------------------------ shading space
HARNESS(h_shading)
{
    static const int F[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
    // frame: a rotation in a coordinate plane, any angle, any of the planes
    int f = sym_choice("frame", 6), flip = sym_choice("flip", 2);
    float a = sym_float("angle", -3.2f, 3.2f), c = cosf(a), s = sinf(a);
    float N[3], S[3];
    N[F[f][0]] = c;
    N[F[f][1]] = s;
    N[F[f][2]] = 0;
    S[F[f][0]] = flip ? 0.f : -s;
    S[F[f][1]] = flip ? 0.f : c;
    S[F[f][2]] = flip ? 1.f : 0.f;
    HitPoint h;
    h.normal_h = Normal(N[0], N[1], N[2]);
    h.dpdu = Vec3(S[0], S[1], S[2]);
    ShadingSpace m(&h);
    float T[3] = {N[1] * S[2] - N[2] * S[1], N[2] * S[0] - N[0] * S[2], N[0] * S[1] - N[1] * S[0]};
    Vec3 v = unit("v", sym_choice("side", 2), 0);
    Vec3 w = m.to_world(v);
    sym_assert(eq3(w, S[0] * v.x + T[0] * v.y + N[0] * v.z, S[1] * v.x + T[1] * v.y + N[1] * v.z, S[2] * v.x + T[2] * v.y + N[2] * v.z, 1e-3f),
               "a direction in shading space is measured along tangent, bitangent and normal");
    Vec3 q = m.to_shading(v);
    sym_assert(eq3(q, S[0] * v.x + S[1] * v.y + S[2] * v.z, T[0] * v.x + T[1] * v.y + T[2] * v.z, N[0] * v.x + N[1] * v.y + N[2] * v.z, 1e-3f),
               "a direction in world space is projected on tangent, bitangent and normal");
    Vec3 b = m.to_shading(w);
    sym_assert(eq3(b, v.x, v.y, v.z, 1e-3f), "to world space and back is the identity");
    sym_reach("end");
}
