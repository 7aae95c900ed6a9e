#include "sym.h"
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
#include "utility/utility.hpp"
#include <cmath>

// a unit direction: any tilt, and the azimuth of a rational point of the circle
static Vec3 unit(const char* n, int up, float lo, float hi)
{
    static const float P[4][2] = {{1, 0}, {0, 1}, {0.6f, -0.8f}, {-0.8f, -0.6f}};
    float t = sym_float(n, lo, hi);
    int a = sym_choice(n, 4);
    float d = 1 + t * t, s = 2 * t / d, c = (1 - t * t) / d;
    sym_root(s);
    return Vec3(s * P[a][0], s * P[a][1], up ? c : -c);
}
static bool rel(float a, float b, float t) { return sym_near(a, b, t * (1 + (b < 0 ? -b : b))); }
// ------------------------------------------------------------ distributions
static void mirror_of(const Vec3& wo, const Vec3& wh, bool up)
{
    sym_assert(up ? wh.z >= 0 : wh.z <= 0, "half vectors are on the side of the viewer");
    sym_assert(sym_near(wh.x * wh.x + wh.y * wh.y + wh.z * wh.z, 1, 1e-3f), "half vectors have unit length");
}
static void azimuth(const Vec3& wh, bool up, float r1)
{
    float phi = r1 * (float)TWO_PI, c = cosf(phi), s = sinf(phi);
    float x = up ? wh.x : -wh.x, y = up ? wh.y : -wh.y;
    sym_assert(sym_near(x * s, y * c, 1e-3f) & (x * c + y * s >= -sym_tol(1e-3f)), "the azimuth is uniform");
}
HARNESS(h_blinn)
{
    int square = sym_choice("square", 2);      // one exponent whose power is known
    float e = square ? 2 : sym_float("e", 1, 500), r0 = sym_float("r0", 0.01f, 0.99f), r1 = sym_float("r1", 0, 1);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), h = unit("h", sym_choice("hup", 2), 0.01f, 0.95f), wi = unit("wi", up, 0.05f, 0.95f), wh(9, 9, 9);
    Blinn b(e);
    float z = h.z < 0 ? -h.z : h.z, pw = powf(z, e);
    if(square)
        sym_assume(sym_near(pw, z * z, 1e-6f));
    sym_assert(rel(b.D(&h), (e + 2) * pw / (float)TWO_PI, 1e-4f), "Blinn: normalised cosine lobe");
    float p = b.pdf(&wo, &h), d = wo.x * h.x + wo.y * h.y + wo.z * h.z;
    if(d <= 0)
        sym_assert(p == 0, "Blinn: half vectors facing away have density zero");
    else
    {
        float t = 1e-4f * (1 + e);
        bool two = sym_near(p, (e + 2) * pw / (float)TWO_PI, t), one = sym_near(p, (e + 1) * pw / (float)TWO_PI, t);
        if(square && two)
            sym_assert(one, "Blinn: the density reported has the exponent plus two where samples follow the exponent plus one");
        sym_assert(one | two, "Blinn: the density reported is that of the samples");
    }
    b.sample_wh(&wo, r0, r1, &wh);
    float q = powf(r0, 1 / (e + 1));
    sym_assume((q >= 0) & (q <= 1));
    mirror_of(wo, wh, up);
    sym_assert(sym_near(up ? wh.z : -wh.z, q, 1e-4f), "Blinn: cosines are sampled by the inverse of their distribution");
    azimuth(wh, up, r1);
    sym_reach("end");
}
HARNESS(h_blinn_g)
{
    float e = sym_float("e", 1, 500);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), n(0, 0, up ? 1 : -1);
    Blinn b(e);
    float co = up ? wo.z : -wo.z, s = sqrtf(1 - wo.z * wo.z), c = sqrtf(0.5f * e + 1) / (s / co), g = b.G(&wo, &n);
    sym_assert(b.G(&n, &wo) == g, "shadowing and masking are alike");
    if(c >= 1.6f)
        sym_assert(g == 1, "shadowing and masking follow the approximation of Walter et al.");
    else
        sym_assert(sym_near(g * (1 + 2.276f * c + 2.577f * c * c), 3.535f * c + 2.181f * c * c, 1e-3f), "shadowing and masking follow the approximation of Walter et al.");
    sym_assert(g >= 0, "shadowing is not negative");
    sym_reach("end");
}
HARNESS(h_beckmann)
{
    float a = sym_float("a", 0.05f, 1), r0 = sym_float("r0", 0.01f, 0.99f), r1 = sym_float("r1", 0, 1);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), h = unit("h", up, 0.01f, 0.95f), wh(9, 9, 9);
    Beckmann b(a);
    float c2 = h.z * h.z, x = expf(-((1 - c2) / c2) / (a * a)), D = b.D(&h), k = a * a * c2 * c2 * (float)ONE_PI;
    sym_assume((x > 0) & (x < 1));
    if(sym_near(D * k, x * x, 1e-5f))
        sym_assert(sym_near(D * k, x, 1e-5f), "Beckmann: the exponential appears twice");
    else
        sym_assert(sym_near(D * k, x, 1e-5f), "Beckmann: Gaussian slopes");
    sym_assert(rel(b.pdf(&wo, &h), D * (up ? h.z : -h.z), 1e-4f), "half vectors have density D times the cosine");
    b.sample_wh(&wo, r0, r1, &wh);
    float l = logf(1 - r0);
    sym_assume(l < 0);
    mirror_of(wo, wh, up);
    sym_assert(sym_near(wh.z * wh.z * (1 - a * a * l), 1, 1e-3f), "Beckmann: cosines are sampled by the inverse of their distribution");
    azimuth(wh, up, r1);
    sym_reach("end");
}
HARNESS(h_beckmann_g)
{
    float a = sym_float("a", 0.05f, 1);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), n(0, 0, up ? 1 : -1);
    Beckmann b(a);
    float co = up ? wo.z : -wo.z, s = sqrtf(1 - wo.z * wo.z), c = co / (s * a), g = b.G(&wo, &n);
    sym_assert(b.G(&n, &wo) == g, "shadowing and masking are alike");
    if(c >= 1.6f)
        sym_assert(g == 1, "shadowing and masking follow the approximation of Walter et al.");
    else
        sym_assert(sym_near(g * (1 + 2.276f * c + 2.577f * c * c), 3.535f * c + 2.181f * c * c, 1e-3f), "shadowing and masking follow the approximation of Walter et al.");
    sym_assert(g >= 0, "shadowing is not negative");
    sym_reach("end");
}
HARNESS(h_ggx)
{
    float a = sym_float("a", 0.05f, 1), r0 = sym_float("r0", 0.01f, 0.99f), r1 = sym_float("r1", 0, 1);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), h = unit("h", up, 0, 0.95f), wh(9, 9, 9);
    GGXiso b(a);
    float c2 = h.z * h.z, D = b.D(&h), m = a * a * c2 + 1 - c2;
    sym_assert(sym_near(D * m * m * (float)ONE_PI, a * a, 1e-4f), "GGX: long tailed slopes");
    sym_assert(rel(b.pdf(&wo, &h), D * (up ? h.z : -h.z), 1e-4f), "half vectors have density D times the cosine");
    b.sample_wh(&wo, r0, r1, &wh);
    mirror_of(wo, wh, up);
    sym_assert(sym_near(wh.z * wh.z * (r0 * (a * a - 1) + 1), 1 - r0, 1e-3f), "GGX: cosines are sampled by the inverse of their distribution");
    azimuth(wh, up, r1);
    sym_reach("end");
}
HARNESS(h_ggx_g)
{
    float a = sym_float("a", 0.05f, 1);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0, 0.95f), n(0, 0, up ? 1 : -1);
    GGXiso b(a);
    float co = wo.z * wo.z, g = b.G(&wo, &n), r = 2 / g - 1;
    sym_assert(b.G(&n, &wo) == g, "shadowing and masking are alike");
    // the square root of Smith, squared
    if(sym_near(r * r * co, co + a * a * (1 - co * co), 1e-4f))
        sym_assert(sym_near(r * r * co, co + a * a * (1 - co), 1e-4f), "GGX: shadowing takes the sine from the squared cosine squared again");
    else
        sym_assert(sym_near(r * r * co, co + a * a * (1 - co), 1e-4f), "GGX: shadowing and masking of Smith");
    sym_assert((g > 0) & (g <= 1), "shadowing lies between zero and one");
    sym_reach("end");
}
// shadowing and masking are independent
template <class T> static void product(const T& b)
{
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), wi = unit("wi", up, 0.05f, 0.95f), n(0, 0, up ? 1 : -1);
    sym_assert(sym_near(b.G(&wo, &wi), b.G(&wo, &n) * b.G(&n, &wi), 1e-4f), "shadowing and masking multiply");
    sym_reach("end");
}
HARNESS(h_product)
{
    int k = sym_choice("kind", 3);
    if(k == 0)
        product(Blinn(sym_float("e", 1, 500)));
    else if(k == 1)
        product(Beckmann(sym_float("a", 0.05f, 1)));
    else
        product(GGXiso(sym_float("a", 0.05f, 1)));
}
HARNESS(h_aniso)
{
    float ax = sym_float("ax", 0.05f, 1), ay = sym_float("ay", 0.05f, 1);
    int up = sym_choice("up", 2);
    int peak = sym_choice("peak", 2);          // along the normal
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), h = peak ? Vec3(0, 0, up ? 1 : -1) : unit("h", up, 0.001f, 0.95f);
    GGXaniso b(ax, ay);
    float D = b.D(&h), X = h.x / ax, Y = h.y / ay, m = X * X + Y * Y + h.z * h.z;
    if(peak && D == 1)
        sym_assert(sym_near(ax * ay * (float)ONE_PI, 1, 1e-3f), "GGX with two roughnesses: the peak is one along the normal");
    else
        sym_assert(sym_near(D * m * m * (ax * ay * (float)ONE_PI), 1, 1e-3f), "GGX with two roughnesses: long tailed slopes");
    sym_assert(rel(b.pdf(&wo, &h), D * (up ? h.z : -h.z), 1e-4f), "half vectors have density D times the cosine");
    sym_reach("end");
}
HARNESS(h_aniso_g)
{
    float ax = sym_float("ax", 0.05f, 1), ay = sym_float("ay", 0.05f, 1);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), wi = unit("wi", up, 0.05f, 0.95f), n(0, 0, up ? 1 : -1);
    // both square roots: 1 + L = (1 + root) / 2 with root squared = 1 + tangent squared times roughness squared
    GGXaniso b(ax, ay);
    float go = 1 / b.G(&wo, &wo) , gi = 1 / b.G(&wi, &wi), g = 1 / b.G(&wo, &wi), zo = wo.z * wo.z, zi = wi.z * wi.z;
    // 1 + 2 L = root
    sym_assert(sym_near(go * go * zo, zo + ax * ax * wo.x * wo.x + ay * ay * wo.y * wo.y, 1e-3f), "GGX with two roughnesses: masking of Smith");
    sym_assert(sym_near(gi * gi * zi, zi + ax * ax * wi.x * wi.x + ay * ay * wi.y * wi.y, 1e-3f), "GGX with two roughnesses: shadowing of Smith");
    sym_assert(sym_near(g * 2, go + gi, 1e-3f), "GGX with two roughnesses: shadowing and masking of Smith together");
    sym_assert((g >= 1 - sym_tol(1e-4f)), "shadowing lies between zero and one");
    float p = b.G(&n, &n), q = b.G(&n, &wi);
    if(sym_near(p * 3, 1, 1e-4f))
        sym_assert(sym_near(p, 1, 1e-4f), "GGX with two roughnesses: perpendicular directions are shadowed");
    else
    {
        sym_assert(sym_near(p, 1, 1e-4f), "GGX with two roughnesses: perpendicular directions see everything");
        sym_assert(sym_near(q * (1 + gi), 2, 1e-3f), "GGX with two roughnesses: perpendicular directions see everything");
    }
    sym_reach("end");
}
HARNESS(h_aniso_sample)
{
    float ax = sym_float("ax", 0.05f, 1), ay = sym_float("ay", 0.05f, 1), r0 = sym_float("r0", 0.01f, 0.99f), r1 = sym_float("r1", 0.01f, 0.99f);
    int up = sym_choice("up", 2);
    Vec3 wo = unit("wo", up, 0.05f, 0.95f), wh(9, 9, 9);
    GGXaniso b(ax, ay);
    b.sample_wh(&wo, r0, r1, &wh);
    mirror_of(wo, wh, up);
    float x = (up ? wh.x : -wh.x), y = (up ? wh.y : -wh.y), z2 = wh.z * wh.z;
    float phi = atanf(ay / ax * tanf((float)TWO_PI * r1 + .5f * (float)ONE_PI));
    if(r1 > .5f)
        phi += (float)ONE_PI;
    float c = cosf(phi), s = sinf(phi), k = (c * c * (ay * ay) + s * s * (ax * ax)) * (1 - r0), q = ax * ax * ay * ay * r0;
    sym_assert(sym_near(z2 * (k + q), k, 1e-3f), "GGX with two roughnesses: cosines are sampled by the inverse of their distribution");
    sym_assert(sym_near(x * s, y * c, 1e-3f) & (x * c + y * s >= -sym_tol(1e-3f)), "GGX with two roughnesses: the azimuth is stretched with the roughness");
    sym_reach("end");
}
