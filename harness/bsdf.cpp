#include "sym.h"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/shading_space.hpp"
#include "utility/utility.hpp"
#include <cmath>
#include <cstring>
#include <new>

// shading space: an exact turn of the axes, so that what reaches the lobes is told apart from what is given
Vec3 ShadingSpace::to_shading(const Vec3& w) const { return Vec3(w.y, w.z, w.x); }
Vec3 ShadingSpace::to_world(const Vec3& s) const { return Vec3(s.z, s.x, s.y); }
// a lobe with arbitrary answers
static int asked = 0;
class Lobe : public Bdf
{
public:
    float v, p, sv, sp;
    Vec3 d;                // the sampled direction
    bool tir;
    const Vec3* wo;        // what the lobe must be asked about
    const Vec3* wi;
    mutable bool ok;
    float r0, r1;
    Lobe(char f) : Bdf(f), tir(false), ok(true) {}
    Spectrum value(const Vec3* a, const Vec3* b) const
    {
        note(a, b);
        return Spectrum(v);
    }
    float pdf(const Vec3* a, const Vec3* b) const
    {
        note(a, b);
        return p;
    }
    Spectrum sample_value(const Vec3* a, Vec3* b, float x, float y, float* q) const
    {
        asked++;
        ok = ok & (a->x == wo->y) & (a->y == wo->z) & (a->z == wo->x) & (x == r0) & (y == r1);
        if(!tir)
            *b = d;
        *q = tir ? 0.f : sp;
        return Spectrum(tir ? 0.f : sv);
    }
    void note(const Vec3* a, const Vec3* b) const
    {
        ok = ok & (a->x == wo->y) & (a->y == wo->z) & (a->z == wo->x) & (b->x == wi->y) & (b->y == wi->z) & (b->z == wi->x);
    }
};
class Tex : public Texture
{
public:
    float v;
    const HitPoint* h;
    mutable bool ok;
    Tex() : v(1), ok(true) {}
    Spectrum map(const HitPoint* q) const
    {
        ok = ok & (q == h);
        return Spectrum(v);
    }
};
static Tex dflt;
const Texture* TextureLibrary::get_dflt_texture() const { return &dflt; }
static Vec3 unitx(const char* n)
{
    // exactly representable unit directions on either side
    static const float U[5][3] = {{1, 0, 0}, {0.6f, 0.8f, 0}, {0, 0, 1}, {-1, 0, 0}, {-0.6f, 0, 0.8f}};
    int i = sym_choice(n, 5);
    return Vec3(U[i][0], U[i][1], U[i][2]);
}
static const char FL[4] = {FLAG_BRDF, FLAG_BTDF, FLAG_BRDF | FLAG_SPEC, FLAG_BTDF | FLAG_SPEC};
static bool near1(const Spectrum& s, float v) { return sym_near(s.w[0], v, 1e-3f) & sym_near(s.w[1], v, 1e-3f) & sym_near(s.w[2], v, 1e-3f); }
struct Ctx
{
    HitPoint h;
    ShadingSpace m;
    Vec3 wo, wi;
    float r0, r1, r2;
    Lobe* l[3];
    Tex* t[3];
    int n;
};
// the normal is the x axis of the world; the lobes see it as z
static void ctx(Ctx* c, int n, bool spec_ok)
{
    c->n = n;
    c->h.normal_h = Normal(1, 0, 0);
    dflt.h = &c->h;
    c->r0 = sym_float("r0", 0, 1);
    c->r1 = sym_float("r1", 0, 1);
    c->r2 = sym_float("r2", 0, 1);
    for(int i = 0; i < n; i++)
    {
        int f = sym_choice("kind", spec_ok ? 4 : 2);
        Lobe* l = new Lobe(FL[f]);
        l->v = f < 2 ? sym_float("v", 0, 2) : 0.f;
        l->p = f < 2 ? sym_float("p", 0, 2) : 0.f;
        l->sv = sym_float("sv", 0, 2);
        l->sp = sym_float("sp", 0.1f, 2);
        l->wo = &c->wo;
        l->wi = &c->wi;
        l->r0 = c->r1;
        l->r1 = c->r2;
        c->l[i] = l;
        c->t[i] = 0;
        if(i != 1)
        {
            c->t[i] = new Tex();
            c->t[i]->v = sym_float("tex", 0, 1);
            c->t[i]->h = &c->h;
        }
    }
}
static float tex(const Ctx* c, int i) { return c->t[i] ? c->t[i]->v : 1.f; }
static bool okay(const Ctx* c)
{
    bool ok = dflt.ok;
    for(int i = 0; i < c->n; i++)
        ok = ok & c->l[i]->ok & (!c->t[i] || c->t[i]->ok);
    return ok;
}
// value and density of a pair of directions
HARNESS(h_multi_value)
{
    Ctx c;
    ctx(&c, sym_choice("lobes", 4), true);
    c.wo = unitx("wo");
    c.wi = unitx("wi");
    bool spec = sym_choice("specular", 2);
    MultiBSDF b;
    for(int i = 0; i < c.n; i++)
        b.inherit_bdf(c.l[i], c.t[i]);
    Spectrum v = b.value(&c.wo, &c.h, &c.wi, &c.m, spec);
    bool refl = c.wo.x * c.wi.x > 0;
    float want = 0, dens = 0;
    int k = 0;
    for(int i = 0; i < c.n; i++)
    {
        if(c.l[i]->is_BRDF() == refl && (spec || !c.l[i]->is_specular()))
            want += c.l[i]->v * tex(&c, i);
        if(spec || !c.l[i]->is_specular())
        {
            dens += c.l[i]->p;
            k++;
        }
    }
    sym_assert(near1(v, want), "the lobes for that side of the surface add up, each with its own texture");
    float p = b.pdf(&c.wo, &c.h, &c.m, &c.wi, spec);
    sym_assert(sym_near(p * (k ? k : 1), dens, 1e-3f), "the density is the mean of the lobes that may be chosen");
    sym_assert(okay(&c), "lobes see the directions in shading space, textures the hit point");
    sym_reach("end");
}
// sampling
HARNESS(h_multi_sample)
{
    Ctx c;
    ctx(&c, sym_choice("lobes", 4), true);
    c.wo = unitx("wo");
    bool spec = sym_choice("specular", 2);
    int tir = sym_choice("tir", 2);
    Vec3 d = unitx("sampled");      // in world space
    for(int i = 0; i < c.n; i++)
    {
        c.l[i]->d = Vec3(d.y, d.z, d.x);
        c.l[i]->tir = tir;
    }
    MultiBSDF b;
    for(int i = 0; i < c.n; i++)
        b.inherit_bdf(c.l[i], c.t[i]);
    Lobe* can[3];
    int id[3], k = 0;
    for(int i = 0; i < c.n; i++)
        if(spec || !c.l[i]->is_specular())
        {
            id[k] = i;
            can[k++] = c.l[i];
        }
    float pdf = -1;
    bool ms = false;
    Vec3 wi;
    c.wi = d;
    Spectrum v = b.sample_value(c.r0, c.r1, c.r2, &c.wo, &c.h, &c.m, &wi, &pdf, spec, &ms);
    if(k == 0 || tir)
    {
        sym_assert((pdf == 0) & v.is_black(), "nothing to sample has density zero");
        sym_assert(asked == (k != 0), "one lobe is sampled");
        sym_reach("none");
        return;
    }
    sym_assert(asked == 1, "one lobe is sampled");
    // the lobe the random number stands for
    int x = 0;
    for(int i = 1; i < k; i++)
        if(c.r0 * k >= (float)i)
            x = i;
    Lobe* l = can[x];
    sym_assert((wi.x == d.x) & (wi.y == d.y) & (wi.z == d.z), "the direction of the lobe is brought to world space");
    sym_assert(ms == l->is_specular(), "whether the sample is specular is reported");
    if(l->is_specular())
    {
        sym_assert(near1(v, l->sv * tex(&c, id[x])), "a specular sample has the value and texture of its lobe");
        sym_assert(sym_near(pdf * k, l->sp, 1e-3f), "a specular sample has the density of its lobe times the chance of choosing it");
        sym_reach("specular");
    }
    else
    {
        bool refl = c.wo.x * d.x > 0;
        float want = 0, dens = 0;
        for(int i = 0; i < c.n; i++)
            if(!c.l[i]->is_specular() && c.l[i]->is_BRDF() == refl)
            {
                want += c.l[i]->v * tex(&c, i);
                dens += c.l[i]->p;
            }
        sym_assert(near1(v, want), "a sample has the value of its pair of directions, each lobe with its own texture");
        sym_assert(sym_near(pdf * k, dens, 1e-3f), "a sample has the density of its pair of directions");
        sym_reach("diffuse");
    }
    sym_assert(okay(&c), "lobes see the directions in shading space, textures the hit point");
}
// ------------------------------------------------------------ a single lobe
HARNESS(h_single)
{
    Ctx c;
    ctx(&c, 1, true);
    c.wo = unitx("wo");
    c.wi = unitx("wi");
    Vec3 d = unitx("sampled");
    bool spec = sym_choice("specular", 2), withtex = sym_choice("texture", 2);
    Lobe* l = c.l[0];
    l->d = Vec3(d.y, d.z, d.x);
    bool brdf = l->is_BRDF(), sp = l->is_specular();
    sym_assume(brdf);
    SingleBRDF b(l, withtex ? c.t[0] : NULL);
    float t = withtex ? c.t[0]->v : 1.f;
    Spectrum v = b.value(&c.wo, &c.h, &c.wi, &c.m, spec);
    bool refl = c.wo.x * c.wi.x > 0;
    sym_assert(near1(v, refl && (spec || !sp) ? l->v * t : 0.f), "the lobe counts for reflection only");
    float p = b.pdf(&c.wo, &c.h, &c.m, &c.wi, spec);
    sym_assert(p == (spec || !sp ? l->p : 0.f), "the density is that of the lobe");
    Vec3 wi;
    float pdf = -1;
    bool ms = !sp;
    asked = 0;
    Spectrum s = b.sample_value(c.r0, c.r1, c.r2, &c.wo, &c.h, &c.m, &wi, &pdf, spec, &ms);
    sym_assert(ms == sp, "whether the sample is specular is reported");
    if(spec || !sp)
    {
        sym_assert(near1(s, l->sv * t) & (pdf == l->sp) & (asked == 1), "a sample has the value and density of the lobe");
        sym_assert((wi.x == d.x) & (wi.y == d.y) & (wi.z == d.z), "the direction of the lobe is brought to world space");
    }
    else
        sym_assert((pdf == 0) & s.is_black(), "a mirror is not sampled when specular lobes are not wanted");
    sym_assert(okay(&c), "lobes see the directions in shading space, textures the hit point");
    sym_reach("end");
}
// a lobe that transmits is refused
HARNESS(h_single_wrong)
{
    Lobe* l = new Lobe(FL[sym_choice("kind", 2) * 2 + 1]);
    SingleBRDF b(l, NULL);
    sym_assert(b.bdf != l, "a transmitting lobe is refused");
    sym_assert(b.bdf->is_BRDF() & !b.bdf->is_specular(), "a diffuse lobe stands in");
    sym_reach("end");
}
// ------------------------------------------------------------ two materials
static bool vis;
static const HitPoint* mask_h;
static bool mask_ok = true;
bool MaskBoolean::is_visible(const HitPoint* h) const
{
    mask_ok = mask_ok & (h == mask_h);
    return vis;
}
bool MaskBoolean::is_masked(const HitPoint* h) const { return !is_visible(h); }
struct Call
{
    float r0, r1, r2;
    const Vec3* wo;
    const HitPoint* h;
    const Vec3* wi;
    const ShadingSpace* m;
    bool spec;
};
class Mat : public Bsdf
{
public:
    float v, p, sv, sp;
    bool ms;
    mutable int n;
    mutable Call c;
    Vec3 d;
    Mat() : n(0) {}
    Spectrum value(const Vec3* a, const HitPoint* h, const Vec3* b, const ShadingSpace* m, bool s) const
    {
        n++;
        c.wo = a; c.wi = b; c.h = h; c.m = m; c.spec = s;
        return Spectrum(v);
    }
    Spectrum sample_value(float r0, float r1, float r2, const Vec3* a, const HitPoint* h, const ShadingSpace* m, Vec3* b, float* q, bool s, bool* x) const
    {
        n++;
        c.r0 = r0; c.r1 = r1; c.r2 = r2;
        c.wo = a; c.wi = b; c.h = h; c.m = m; c.spec = s;
        *b = d;
        *q = sp;
        *x = ms;
        return Spectrum(sv);
    }
    float pdf(const Vec3* a, const HitPoint* h, const ShadingSpace* m, const Vec3* b, bool s) const
    {
        n++;
        c.wo = a; c.wi = b; c.h = h; c.m = m; c.spec = s;
        return p;
    }
    void gen_shading_matrix(const HitPoint* h, ShadingSpace* m, Normal* nn) const
    {
        n++;
        c.h = h; c.m = m;
        nn->x = v;
    }
};
HARNESS(h_dual)
{
    Mat a, b;
    Mat* ms[2] = {&a, &b};
    for(int i = 0; i < 2; i++)
    {
        ms[i]->v = sym_float("v", 0, 2);
        ms[i]->p = sym_float("p", 0, 2);
        ms[i]->sv = sym_float("sv", 0, 2);
        ms[i]->sp = sym_float("sp", 0, 2);
        ms[i]->ms = sym_choice("matched", 2);
        ms[i]->d = Vec3((float)i, 1, 2);
    }
    MaskBoolean mk;
    DualBsdf u(&a, &b, mk);
    vis = sym_choice("visible", 2);
    Mat* w = vis ? &a : &b;
    HitPoint h;
    ShadingSpace m;
    mask_h = &h;
    Vec3 wo(0, 0, 1), wi(0, 1, 0), out;
    bool spec = sym_choice("specular", 2);
    Spectrum v = u.value(&wo, &h, &wi, &m, spec);
    sym_assert((v.w[0] == w->v) & (v.w[2] == w->v), "the value of the material chosen by the mask");
    sym_assert((w->c.wo == &wo) & (w->c.wi == &wi) & (w->c.h == &h) & (w->c.m == &m) & (w->c.spec == spec), "arguments are passed on");
    float p = u.pdf(&wo, &h, &m, &wi, spec);
    sym_assert(p == w->p, "the density of the material chosen by the mask");
    sym_assert((w->c.wo == &wo) & (w->c.wi == &wi) & (w->c.h == &h) & (w->c.m == &m) & (w->c.spec == spec), "arguments are passed on");
    float pdf = -1;
    bool mt = !w->ms;
    float r0 = sym_float("r0", 0, 1), r1 = sym_float("r1", 0, 1), r2 = sym_float("r2", 0, 1);
    Spectrum s = u.sample_value(r0, r1, r2, &wo, &h, &m, &out, &pdf, spec, &mt);
    sym_assert((s.w[1] == w->sv) & (pdf == w->sp) & (mt == w->ms) & (out.x == w->d.x), "the sample of the material chosen by the mask");
    sym_assert((w->c.r0 == r0) & (w->c.r1 == r1) & (w->c.r2 == r2) & (w->c.wo == &wo) & (w->c.h == &h) & (w->c.m == &m) & (w->c.spec == spec), "arguments are passed on");
    Normal n;
    u.gen_shading_matrix(&h, &m, &n);
    sym_assert((n.x == w->v) & (w->c.m == &m) & (w->c.h == &h), "the shading space of the material chosen by the mask");
    sym_assert((w->n == 4) & (a.n + b.n == 4) & mask_ok, "the other material is never asked");
    sym_reach("end");
}
