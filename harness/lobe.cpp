#include "sym.h"
#include "materials/microfacet.hpp"
#include "materials/fresnel_conditions.hpp"
#include <cmath>

// directions: six tilts and azimuths. distribution and reflectance with arbitrary answers that remember what they were asked
static float a_D, a_G, a_p, a_F, f_arg;
static Vec3 d_h, g_o, g_i, p_h, s_wh;
static float r_0, r_1;
static bool ok = true;
struct Dist : public MicrofacetDist
{
    float D(const Vec3* h) const { d_h = *h; return a_D; }
    float G(const Vec3* o, const Vec3* i) const { g_o = *o; g_i = *i; return a_G; }
    float pdf(const Vec3* o, const Vec3* h) const { p_h = *h; return a_p; }
    void sample_wh(const Vec3*, float r0, float r1, Vec3* wh) const
    {
        ok = ok & (r0 == r_0) & (r1 == r_1);
        *wh = s_wh;
    }
};
struct Fres : public Fresnel
{
    Spectrum eval(float c) const { f_arg = c; return Spectrum(a_F); }
};
static Vec3 unit(const char* n, int up, float lo, float hi)
{
    static const float P[3][2] = {{1, 0}, {0, 1}, {-0.6f, 0.8f}};
    static const float T[4] = {0.125f, 0.375f, 0.5f, 0.75f};
    int k = sym_choice(n, 6);
    float t = T[k % 4];
    int a = k % 3;
    float d = 1 + t * t, s = 2 * t / d, c = (1 - t * t) / d;
    return Vec3(s * P[a][0], s * P[a][1], up ? c : -c);
}
static float dot3(const Vec3& a, const Vec3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static bool eqv(const Vec3& a, const Vec3& b, float t) { return sym_near(a.x, b.x, t) & sym_near(a.y, b.y, t) & sym_near(a.z, b.z, t); }
static bool same(const Vec3& a, const Vec3& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static bool unitlen(const Vec3& a) { return sym_near(dot3(a, a), 1, 1e-3f); }
// h is parallel to v (either sense)
static bool par(const Vec3& h, const Vec3& v)
{
    return sym_near(h.x * v.y, h.y * v.x, 1e-3f) & sym_near(h.x * v.z, h.z * v.x, 1e-3f) & sym_near(h.y * v.z, h.z * v.y, 1e-3f);
}
static void answers()
{
    a_D = sym_float("D", 0.1f, 8);
    a_G = sym_float("G", 0, 1);
    a_p = sym_float("pdf", 0.01f, 8);
    a_F = sym_float("F", 0, 1);
    r_0 = sym_float("r0", 0, 1);
    r_1 = sym_float("r1", 0, 1);
}
// ------------------------------------------------------------ reflection
HARNESS(h_r_value)
{
    answers();
    int up = sym_choice("up", 2), other = sym_choice("other", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.9f), wi = unit("wi", other ? !up : up, 0.05f, 0.9f);
    MicrofacetR b(new Dist(), new Fres());
    sym_assert(b.is_BRDF() & !b.is_BTDF() & !b.is_specular(), "a rough reflection");
    Spectrum v = b.value(&wo, &wi);
    if(other)
    {
        sym_assert(v.is_black() & (b.pdf(&wo, &wi) == 0), "no reflection to the other side");
        sym_reach("other");
        return;
    }
    Vec3 m(wo.x + wi.x, wo.y + wi.y, wo.z + wi.z);
    float k = 4 * wo.z * wi.z;
    for(int i = 0; i < 3; i++)
        sym_assert(sym_near(v.w[i] * k, a_F * a_D * a_G, 1e-3f), "Torrance and Sparrow: reflectance, slopes and shadowing over four cosines");
    sym_assert(par(d_h, m) & unitlen(d_h) & (dot3(d_h, m) > 0), "slopes are looked up at the half vector");
    sym_assert((same(g_o, wo) & same(g_i, wi)) | (same(g_o, wi) & same(g_i, wo)), "shadowing is that of both directions");
    sym_assert(sym_near(f_arg, dot3(wi, d_h), 1e-3f) | sym_near(f_arg, dot3(wo, d_h), 1e-3f), "reflectance is that of the angle with the half vector");
    float p = b.pdf(&wo, &wi);
    sym_assert(par(p_h, m) & unitlen(p_h) & (dot3(p_h, m) > 0), "the density is that of the half vector");
    sym_assert(sym_near(p * 4 * dot3(wo, p_h), a_p, 1e-3f), "the density of the half vector is turned into one of directions");
    sym_reach("same");
}
HARNESS(h_r_swap)
{
    answers();
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.9f), wi = unit("wi", up, 0.05f, 0.9f);
    MicrofacetR b(new Dist(), new Fres());
    Spectrum v = b.value(&wo, &wi);
    Vec3 h = d_h;
    Spectrum w = b.value(&wi, &wo);
    sym_assert(sym_near(v.w[0], w.w[0], 1e-3f) & eqv(h, d_h, 1e-3f), "swapping light and viewer changes nothing");
    sym_reach("end");
}
HARNESS(h_r_sample)
{
    answers();
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.9f), wi(9, 9, 9);
    s_wh = unit("wh", up, 0.05f, 0.9f);
    float c = dot3(wo, s_wh);
    sym_assume((c > 0.01f) | (c < -0.01f));
    MicrofacetR b(new Dist(), new Fres());
    float pdf = -1;
    Spectrum v = b.sample_value(&wo, &wi, r_0, r_1, &pdf);
    sym_assert(ok, "the random numbers choose the half vector");
    Vec3 m(2 * c * s_wh.x - wo.x, 2 * c * s_wh.y - wo.y, 2 * c * s_wh.z - wo.z);
    sym_assert(eqv(wi, m, 1e-3f), "the direction is mirrored about the half vector");
    if(up ? wi.z < 0 : wi.z > 0)
    {
        sym_assert((pdf == 0) & v.is_black(), "samples below the surface are refused");
        sym_reach("below");
        return;
    }
    sym_assert(sym_near(pdf * 4 * c, a_p, 1e-3f) & (pdf > 0), "the density of the half vector is turned into one of directions");
    sym_assert(eqv(p_h, s_wh, 1e-3f), "the density is that of the half vector");
    if(up ? wi.z > 0.001f : wi.z < -0.001f)
    {
        sym_assert(sym_near(v.w[0] * 4 * wo.z * wi.z, a_F * a_D * a_G, 1e-3f) & eqv(d_h, s_wh, 1e-2f), "the value is that of the pair of directions");
        sym_reach("above");
    }
}
// ------------------------------------------------------------ transmission
// arbitrary reflectance
Spectrum Dielectric::eval(float c) const { f_arg = c; return Spectrum(a_F); }
static float sq(float a) { return a * a; }
HARNESS(h_t_value)
{
    answers();
    int up = sym_choice("up", 2), other = sym_choice("other", 2), dense = sym_choice("dense", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.9f), wi = unit("wi", other ? !up : up, 0.05f, 0.9f);
    float ei = dense ? 1.5f : 1, et = dense ? 1.25f : 1.5f;
    MicrofacetT b(new Dist(), Spectrum(ei), Spectrum(et));
    sym_assert(!b.is_BRDF() & b.is_BTDF() & !b.is_specular(), "a rough transmission");
    Spectrum v = b.value(&wo, &wi);
    if(!other)
    {
        sym_assert(v.is_black() & (b.pdf(&wo, &wi) == 0), "no transmission to the same side");
        sym_reach("same");
        return;
    }
    float eo = up ? ei : et, en = up ? et : ei;
    Vec3 m(eo * wo.x + en * wi.x, eo * wo.y + en * wi.y, eo * wo.z + en * wi.z);
    sym_assert(par(d_h, m) & unitlen(d_h), "slopes are looked up at the half vector of refraction");
    sym_assert(d_h.z >= 0, "the half vector points out of the surface");
    sym_assert((same(g_o, wo) & same(g_i, wi)) | (same(g_o, wi) & same(g_i, wo)), "shadowing is that of both directions");
    float a = dot3(wo, d_h), c = dot3(wi, d_h), up1 = eo * eo * a_D * a_G * a * c, den = sq(eo * a + en * c) * wo.z * wi.z;
    if(v.w[0] == 0)
        sym_assert(sym_near(up1 * (1 - a_F), 0, 1e-4f), "only what is negligible is dropped");
    else
    {
        // wo and wi are on different sides: the product of cosines is negative
        float w = up1 * (1 - a_F);
        bool pos = up1 >= 0;
        sym_assert(sym_near(v.w[0] * -den, pos ? w : -w, 1e-3f), "Walter et al.: transmittance, slopes and shadowing over the change of half vector");
        sym_assert(sym_near(f_arg, c, 1e-3f) | sym_near(f_arg, a, 1e-3f), "reflectance is that of the angle with the half vector");
    }
    float p = b.pdf(&wo, &wi);
    sym_assert(par(p_h, m) & unitlen(p_h), "the density is that of the half vector");
    float ao = dot3(wo, p_h), ci = dot3(wi, p_h), dd = sq(eo * ao + en * ci);
    float bad = eo * eo * a_p * (ao < 0 ? -ao : ao), good = en * en * a_p * (ci < 0 ? -ci : ci);
    if(sym_near(p * dd, bad, 1e-4f))
        sym_assert(sym_near(p * dd, good, 1e-3f), "the change of half vector is taken with the viewer in place of the light");
    else
        sym_assert(sym_near(p * dd, good, 1e-3f), "the density of the half vector is turned into one of directions");
    sym_reach("other");
}
HARNESS(h_t_sample)
{
    answers();
    int up = sym_choice("up", 2), dense = sym_choice("dense", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.9f), wi(9, 9, 9);
    s_wh = unit("wh", up, 0.05f, 0.9f);
    float ei = dense ? 1.5f : 1, et = dense ? 1.25f : 1.5f, eo = up ? ei : et, en = up ? et : ei, c = dot3(wo, s_wh);
    sym_assume(c > 0.05f);
    MicrofacetT b(new Dist(), Spectrum(ei), Spectrum(et));
    float pdf = -1;
    Spectrum v = b.sample_value(&wo, &wi, r_0, r_1, &pdf);
    sym_assert(ok, "the random numbers choose the half vector");
    float s2 = eo * eo * (1 - c * c);
    if(s2 > en * en * 1.001f)
    {
        sym_assert((pdf == 0) & v.is_black(), "no transmission beyond the critical angle");
        sym_reach("total");
        return;
    }
    if(s2 > en * en * 0.999f)
        return;
    sym_assert(unitlen(wi), "the refracted direction has unit length");
    // tangential parts relate as the indices, and the ray continues on the other side of the facet
    float ci = dot3(wi, s_wh);
    Vec3 to(wo.x - c * s_wh.x, wo.y - c * s_wh.y, wo.z - c * s_wh.z), ti(wi.x - ci * s_wh.x, wi.y - ci * s_wh.y, wi.z - ci * s_wh.z);
    sym_assert(sym_near(ti.x * en, -to.x * eo, 1e-3f) & sym_near(ti.y * en, -to.y * eo, 1e-3f) & sym_near(ti.z * en, -to.z * eo, 1e-3f) & (ci < 0), "refraction follows the law of Snell about the half vector");
    sym_assert(eqv(p_h, s_wh, 1e-3f), "the density is that of the half vector");
    float dd = sq(eo * c + en * ci), bad = eo * eo * a_p * c, good = en * en * a_p * -ci;
    if(sym_near(pdf * dd, bad, 1e-4f))
        sym_assert(sym_near(pdf * dd, good, 1e-3f), "a sample: the change of half vector is taken with the viewer in place of the light");
    else
        sym_assert(sym_near(pdf * dd, good, 1e-3f), "the density of the half vector is turned into one of directions");
    sym_reach("partial");
}
