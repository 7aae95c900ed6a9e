#include "sym.h"
#include "integrators/ray_tracer.hpp"
#include "integrators/path_tracer.hpp"
#include "lights/area_light.hpp"
#include "settings.h"
#include <cstring>
#include <cstdlib>
#include <cmath>

struct Shp : public Shape
{
    bool intersect(const Ray*, float*, HitPoint*, const MaskBoolean*) const { return false; }
    AABB compute_AABB() const { return AABB(Point3(0, 0, 0), Point3(1, 1, 1)); }
    AABB compute_AABB(const Matrix4*) const { return AABB(Point3(0, 0, 0), Point3(1, 1, 1)); }
    float surface() const { return 1; }
    float surface(const Matrix4*) const { return 1; }
    int get_faces_number() const { return 1; }
    void get_densities_array(const Matrix4*, float* a) const { a[0] = 1; }
    void sample_point(float, float, const float*, Point3*, Normal*) const {}
};
static Matrix4 ident()
{
    float m[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
    return Matrix4(m);
}
static bool eqv(const Vec3& a, const Vec3& b) { return sym_near(a.x, b.x, 1e-5f) & sym_near(a.y, b.y, 1e-5f) & sym_near(a.z, b.z, 1e-5f); }
static bool eqp(const Point3& a, const Point3& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static const float U[4][3] = {{1, 0, 0}, {0, 0, -1}, {0.6f, 0, 0.8f}, {0, -0.8f, 0.6f}};
static Vec3 unit(const char* n)
{
    int i = sym_choice(n, 4);
    return Vec3(U[i][0], U[i][1], U[i][2]);
}
static float dot3(const Vec3& a, const Normal& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static float absd(const Vec3& a, const Normal& b)
{
    float d = dot3(a, b);
    return sym_ite_f(d < 0, -d, d);
}
static bool all_ok = true;
static void need(bool b) { all_ok = all_ok & b; }
// spectra whose channels differ
static Spectrum spec(float v)
{
    Spectrum s;
    s.w[0] = v;
    s.w[1] = v * 0.5f;
    s.w[2] = v * 2;
    return s;
}
// ------------------------------------------------------------------ random numbers
#define RN 32
static float rnd[RN];
static int rnd_used;
void Sampler::get_random_numbers(float* c, int n)
{
    for(int i = 0; i < n; i++)
        c[i] = rnd[rnd_used++];
}
static const unsigned seed0[32] = {1};
struct Smp : public Sampler
{
    Smp() : Sampler(0, 1, 0, 1, 1, seed0) {}
    bool get_samples(Sample*) { return false; }
};
// ------------------------------------------------------------------ the scene
static const AreaLight* lts[3];
static int nl, asked_light = -1;
unsigned int Scene::size_lights() const { return nl; }
const AreaLight* Scene::get_light(int i) const
{
    need((i >= 0) & (i < nl));
    asked_light = i;
    return lts[i];
}
static Vec3 l_wi;
static float l_pdf, l_dist, l_pdf2;
static Spectrum l_e, l_c;
static const Point3* here;
static const AreaLight* l_self;
Spectrum AreaLight::sample_visible_surface(float r0, float r1, const Point3* p, Vec3* wi, float* pdf, float* d) const
{
    need((r0 == rnd[1]) & (r1 == rnd[2]) & (p == here) & (this == lts[asked_light]));
    *wi = l_wi;
    *pdf = l_pdf;
    *d = l_dist;
    return l_e;
}
static Vec3 m_wi;
float AreaLight::pdf(const Point3* p, const Vec3* wi) const
{
    need((p == here) & eqv(*wi, m_wi) & (this == lts[asked_light]));
    return l_pdf2;
}
static bool occ;
bool OcclusionTester::is_occluded(const Ray* r, float d)
{
    need(eqp(r->origin, *here) & eqv(r->direction, l_wi) & (d == l_dist));
    return occ;
}
OcclusionTester::OcclusionTester(const Scene*) {}
static bool (*k_hit)(const Ray*, HitPoint*);
bool KdTree::intersect(const Ray* r, HitPoint* h) const { return k_hit(r, h); }
static Scene* scene()
{
    return (Scene*)calloc(1, sizeof(Scene));
}
// ------------------------------------------------------------------ light arriving directly at a point
static Vec3 wo;
static const HitPoint* the_hp;
static const ShadingSpace* the_m;
static float b_v, b_p, b_s, b_sp;
struct Mat : public Bsdf
{
    Spectrum value(const Vec3* a, const HitPoint* h, const Vec3* b, const ShadingSpace* m, bool s) const
    {
        need(eqv(*a, wo) & (h == the_hp) & eqv(*b, l_wi) & (m == the_m) & !s);
        return spec(b_v);
    }
    Spectrum sample_value(float r0, float r1, float r2, const Vec3* a, const HitPoint* h, const ShadingSpace* m, Vec3* b, float* q, bool s, bool* x) const
    {
        need((r0 == rnd[3]) & (r1 == rnd[4]) & (r2 == rnd[5]) & eqv(*a, wo) & (h == the_hp) & (m == the_m) & !s);
        *b = m_wi;
        *q = b_sp;
        *x = false;
        return spec(b_s);
    }
    float pdf(const Vec3* a, const HitPoint* h, const ShadingSpace* m, const Vec3* b, bool s) const
    {
        need(eqv(*a, wo) & (h == the_hp) & eqv(*b, l_wi) & (m == the_m) & !s);
        return b_p;
    }
    void gen_shading_matrix(const HitPoint*, ShadingSpace*, Normal*) const {}
};
static int what;              // what the sampled direction meets: nothing, the light, another light, an object
static Normal what_n;
static const Asset* obj;
static bool direct_hit(const Ray* r, HitPoint* h)
{
    need(eqp(r->origin, *here) & eqv(r->direction, m_wi));
    h->normal_h = what_n;
    h->asset_h = what == 1 ? lts[asked_light] : what == 2 && nl > 1 ? lts[(asked_light + 1) % nl] : obj;
    return what != 0;
}
HARNESS(h_direct)
{
    Shp sh;
    Matrix4 id = ident();
    Asset o(&sh, id, 1);
    obj = &o;
    nl = sym_choice("lights", 4);
    float e = sym_float("e", 0.5f, 4);
    for(int i = 0; i < nl; i++)
        lts[i] = new AreaLight(&sh, id, spec(e * (i + 1)));
    for(int i = 0; i < 6; i++)
        rnd[i] = sym_float("rnd", 0, 1);
    Point3 p(1, 2, 3);
    here = &p;
    HitPoint hp;
    hp.asset_h = sym_choice("at_light", 2) && nl > 0 ? (const Asset*)lts[0] : &o;
    the_hp = &hp;
    ShadingSpace m;
    the_m = &m;
    wo = Vec3(0, 0, 1);
    Ray r(Point3(1, 2, 5), Vec3(0, 0, -1));
    Normal n(0, 0, 1);
    if(nl == 0)
    {
        Mat none;
        Smp any;
        OcclusionTester t0(NULL);
        Spectrum L = direct_l(scene(), &hp, &r, &any, &t0, &none, &p, &n, &m);
        sym_assert((L.w[0] == 0) & (L.w[1] == 0) & (L.w[2] == 0), "no lights, no light");
        sym_reach("none");
        return;
    }
    l_wi = unit("towards");
    m_wi = unit("sampled");
    l_pdf = sym_choice("light_density", 2) ? sym_float("lp", 0.1f, 4) : 0.f;
    l_dist = sym_float("dist", 0.1f, 9);
    l_e = sym_choice("faces", 2) ? spec(e) : spec(0);
    float lp2 = sym_choice("light_density2", 2) ? sym_float("lp2", 0.1f, 4) : 0.f;
    l_pdf2 = lp2;
    b_v = sym_choice("lit", 2) ? sym_float("v", 0.1f, 4) : 0.f;
    b_p = sym_choice("likely", 2) ? sym_float("p", 0.1f, 4) : 0.f;
    b_s = sym_choice("scatters", 2) ? sym_float("s", 0.1f, 4) : 0.f;
    b_sp = sym_choice("found", 2) ? sym_float("sp", 0.1f, 4) : 0.f;
    occ = sym_bool("occluded");
    what = sym_choice("meets", 4);
    bool front = sym_choice("front", 2);
    what_n = front ? Normal(-m_wi.x, -m_wi.y, -m_wi.z) : Normal(m_wi.x, m_wi.y, m_wi.z);
    k_hit = direct_hit;
    Mat mat;
    Smp smp;
    OcclusionTester ot(NULL);
    Spectrum L = direct_l(scene(), &hp, &r, &smp, &ot, &mat, &p, &n, &m);
    int x = 0;
    for(int i = 1; i < nl; i++)
        if(rnd[0] * nl >= (float)i)
            x = i;
    sym_assert(asked_light == x, "lights are chosen evenly");
    // each of both strategies, weighed by the squared densities, over the chance of choosing the light
    float a = 0, b = 0;
    if(l_pdf > 0 && l_e.w[0] > 0 && b_v > 0 && b_p > 0 && !occ)
        a = b_v * absd(l_wi, n) * l_pdf / (l_pdf * l_pdf + b_p * b_p) * nl;
    if(b_sp > 0 && b_s > 0 && lp2 > 0 && what == 1 && front)
        b = b_s * absd(m_wi, n) * b_sp / (b_sp * b_sp + lp2 * lp2) * nl;
    b = b * (x + 1);
    float w0 = e * (a + b);
    sym_assert(sym_near(L.w[0], w0, 1e-2f) & sym_near(L.w[1], w0 * 0.25f, 1e-2f) & sym_near(L.w[2], w0 * 4, 4e-2f),
               "both strategies are weighed so that together they count the light once");
    sym_assert(all_ok, "directions, points and random numbers are handed on");
    sym_reach("end");
}
// ------------------------------------------------------------------ paths
struct Vertex
{
    float E, D, f, pdf, r[4];
    bool light, front, sp;
    Normal n;
    Vec3 wi;
    Point3 p;
    bool hit;                  // does the ray leaving this vertex meet the next one?
    unsigned index;
};
static Vertex V[8];
static int nv, cur, asked_hits, start;
static const Asset* things[8];
static HitPoint* hps[8];
static const ShadingSpace* shading;
struct PMat : public Bsdf
{
    int i;
    Spectrum value(const Vec3*, const HitPoint*, const Vec3*, const ShadingSpace*, bool) const { return spec(0); }
    float pdf(const Vec3*, const HitPoint*, const ShadingSpace*, const Vec3*, bool) const { return 0; }
    Spectrum sample_value(float r0, float r1, float r2, const Vec3* a, const HitPoint* h, const ShadingSpace* m, Vec3* b, float* q, bool s, bool* x) const
    {
        Vertex& v = V[i];
        need((i == cur) & (r0 == v.r[1]) & (r1 == v.r[2]) & (r2 == v.r[3]) & eqv(*a, wo) & (m == shading) & s & eqp(h->point_h, v.p));
        *b = v.wi;
        *q = v.pdf;
        *x = v.sp;
        return spec(v.f);
    }
    void gen_shading_matrix(const HitPoint* h, ShadingSpace* m, Normal* n) const
    {
        cur = i;
        wo = i ? Vec3(-V[i - 1].wi.x, -V[i - 1].wi.y, -V[i - 1].wi.z) : Vec3(0, 0, 1);
        shading = m;
        need(eqp(h->point_h, V[i].p) & (h->index == V[i].index));
        *n = V[i].n;
    }
};
#ifdef PATHS
// direct light has its own check
Spectrum direct_l(const Scene*, const HitPoint* hp, const Ray* r, Sampler*, OcclusionTester*, const Bsdf* mat, const Point3* p, const Normal* n, const ShadingSpace* m)
{
    Vertex& v = V[cur];
    need((((const PMat*)mat)->i == cur) & eqp(*p, v.p) & (n->x == v.n.x) & (n->y == v.n.y) & (n->z == v.n.z) & (m == shading));
    need((hp->asset_h == things[cur]) & (r->ricochet == start + cur));
    rnd_used = 4 * cur;
    return spec(v.D);
}
#endif
static bool path_hit(const Ray* r, HitPoint* h)
{
    int i = asked_hits++;
    need((i == cur) & eqp(r->origin, V[i].p) & eqv(r->direction, V[i].wi) & (r->ricochet == start + i + 1));
    if(!V[i].hit || i + 1 >= nv)
        return false;
    h->asset_h = things[i + 1];
    h->point_h = V[i + 1].p;
    h->index = V[i + 1].index;
    h->normal_h = Normal(0, 1, 0);
    return true;
}
static Spectrum e_of[8];
static void vertex(int i, const Shape* sh, const Matrix4& id)
{
    Vertex& v = V[i];
    v.E = sym_float("E", 0.1f, 4);
    v.D = sym_float("D", 0, 4);
    int how = sym_choice("how", 4);     // goes on, meets nothing, has no density, scatters nothing
    v.f = sym_float("f", 0.1f, 2);
    v.pdf = sym_float("pdf", 0.25f, 2);
    if(how == 2)
        v.pdf = 0;
    if(how == 3)
        v.f = 0;
    v.hit = how == 0;
    for(int k = 0; k < 4; k++)
        v.r[k] = rnd[4 * i + k] = sym_float("rnd", 0, 1);
    int kind = sym_choice("light", 3);  // no light, a light from its back, a light
    v.light = kind > 0;
    v.front = kind != 1;
    v.sp = sym_choice("mirror", 2);
    v.p = Point3(i, 2 * i, 3);
    v.index = i;
}
static void finish(int i, const Shape* sh, const Matrix4& id)
{
    Vertex& v = V[i];
    Vec3 w = i ? Vec3(-V[i - 1].wi.x, -V[i - 1].wi.y, -V[i - 1].wi.z) : Vec3(0, 0, 1);
    v.n = v.front ? Normal(w.x, w.y, w.z) : Normal(-w.x, -w.y, -w.z);
    // a direction whose cosine with the normal is 0.6 or 0.8
    v.wi = i % 2 ? Vec3(0, 0.8f, -0.6f) : Vec3(0.6f, 0, -0.8f);
    PMat* m = new PMat();
    m->i = i;
    Asset* a = v.light ? new AreaLight(sh, id, spec(v.E)) : new Asset(sh, id, 1);
    const Bsdf** mm = (const Bsdf**)malloc(sizeof(Bsdf*) * 8);
    unsigned char* ix = (unsigned char*)malloc(8);
    for(int k = 0; k < 8; k++)
    {
        mm[k] = m;
        ix[k] = 0;
    }
    a->materials = mm;
    a->materials_index = ix;
    things[i] = a;
}
static Spectrum go(int q0, float p0, bool last)
{
    start = q0;
    asked_hits = rnd_used = 0;
    cur = -1;
    k_hit = path_hit;
    HitPoint hp;
    hp.asset_h = things[0];
    hp.point_h = V[0].p;
    hp.index = V[0].index;
    Ray r(Point3(0, 0, 9), Vec3(0, 0, -1));
    r.ricochet = q0;
    Smp smp;
    OcclusionTester ot(NULL);
    Spectrum pw = spec(p0);
    PathTracer t;
    return t.l_rec(scene(), &hp, &r, &smp, &pw, last, &ot);
}
static bool bl(float a, float b) { return sym_near(a, b, 1e-3f); }
// light gathered along up to three vertices of a path, before the path is cut at random
HARNESS(h_path)
{
    Shp sh;
    Matrix4 id = ident();
    nv = 3;
    int q0 = sym_choice("bounce", 3);
    bool last = sym_choice("after_mirror", 2);
    for(int i = 0; i < nv; i++)
    {
        vertex(i, &sh, id);
        finish(i, &sh, id);
        if(!V[i].hit)
            break;
    }
    float pw = sym_float("power", 0.1f, 2);
    Spectrum L = go(q0, pw, last);
    // channels scale as p, p/2, 2p and likewise for everything else
    float w0 = 0, w1 = 0, w2 = 0, a = pw, b = pw / 2, c = pw * 2;
    int want = 0;
    for(int i = 0; i < nv; i++)
    {
        Vertex& v = V[i];
        float s = v.D;
        if((q0 + i == 0 || (i ? V[i - 1].sp : last)) && v.light && v.front)
            s += v.E;
        w0 += a * s;
        w1 += b * s / 2;
        w2 += c * s * 2;
        if(v.pdf == 0 || v.f == 0)
            break;
        float g = v.f * absd(v.wi, v.n) / v.pdf;
        a = a * g;
        b = b * g / 2;
        c = c * g * 2;
        if(q0 + i <= 3)
            want++;
        else
        {
            want = -1;
            break;
        }
        if(!v.hit)
            break;
    }
    sym_assert(want < 0 || asked_hits == want, "the path goes on while there is something to meet");
    sym_assert(bl(L.w[0], w0) & bl(L.w[1], w1) & bl(L.w[2], w2), "direct light of each vertex and light seen first or in a mirror, times what the path lets through");
    sym_assert(all_ok, "directions, points and random numbers are handed on");
    sym_reach("end");
}
// cutting paths at random changes nothing on average: what survives weighs one over the chance to survive
static float factor(float p, float r)
{
    V[0].r[0] = rnd[0] = r;
    Spectrum L = go(4, p, false);
    if(asked_hits == 0)
        return -1;
    sym_assert(sym_near(L.w[1] * 8, L.w[0], 1e-3f) & sym_near(L.w[2], L.w[0] * 8, 1e-2f), "survivors keep their colour");
    return L.w[0] / p;
}
HARNESS(h_roulette)
{
    Shp sh;
    Matrix4 id = ident();
    nv = 2;
    for(int i = 0; i < nv; i++)
    {
        Vertex& v = V[i];
        v.E = 0;
        v.D = i;
        v.f = 1;
        v.pdf = i ? 0.6f : 0.8f;
        for(int k = 0; k < 4; k++)
            v.r[k] = rnd[4 * i + k] = 0.5f;
        v.light = false;
        v.front = true;
        v.sp = false;
        v.hit = true;
        v.p = Point3(i, 2 * i, 3);
        v.index = i;
        finish(i, &sh, id);
    }
    // are paths kept for small or for large random numbers?
    bool low = factor(1, 0) > 0;
    const float top = 0.99999994f;
    if(!low)
        sym_assert(factor(1, top) > 0, "some path survives");
    float p = sym_float("power", 0.1f, 8), r = sym_float("r", 0, 1);
    float F = factor(p, low ? 0 : top);
    sym_assert(F >= 1 - sym_tol(1e-3f), "survivors make up for the others");
    float G = factor(p, r);
    float x = low ? r : 1 - r;
    if(G > 0)
    {
        sym_assert(sym_near(F, G, 1e-3f), "survivors weigh the same whatever the random number");
        sym_assert(x * F <= 1 + sym_tol(1e-3f), "the weight of a survivor is one over its chance");
        sym_reach("survives");
    }
    else
    {
        sym_assert(x * F >= 1 - sym_tol(1e-3f), "the weight of a survivor is one over its chance");
        sym_reach("cut");
    }
}
// paths end
HARNESS(h_limit)
{
    Shp sh;
    Matrix4 id = ident();
    nv = 8;
    int q0 = sym_choice("bounce", DEFAULT_BOUNCES + 1);
    for(int i = 0; i < nv; i++)
    {
        Vertex& v = V[i];
        v.E = 0;
        v.D = 1;
        v.f = 1;
        v.pdf = 0.8f;
        for(int k = 0; k < 4; k++)
            v.r[k] = rnd[4 * i + k] = sym_float("rnd", 0, 1);
        v.light = false;
        v.front = true;
        v.sp = sym_choice("mirror", 2);
        v.hit = true;
        v.p = Point3(i, 2 * i, 3);
        v.index = i;
        finish(i, &sh, id);
    }
    go(q0, 1, false);
    sym_assert(asked_hits <= DEFAULT_BOUNCES - q0, "a path has a limited number of bounces");
    sym_assert(asked_hits >= (q0 < 4 ? 4 - q0 : 0), "the first bounces are never cut");
    sym_assert(all_ok, "bounces are counted");
    sym_reach("end");
}
// the first call starts with nothing lost
HARNESS(h_radiance)
{
    Shp sh;
    Matrix4 id = ident();
    nv = 2;
    for(int i = 0; i < nv; i++)
    {
        vertex(i, &sh, id);
        finish(i, &sh, id);
        if(!V[i].hit)
            break;
    }
    start = 0;
    k_hit = path_hit;
    HitPoint hp;
    hp.asset_h = things[0];
    hp.point_h = V[0].p;
    hp.index = 0;
    Ray r(Point3(0, 0, 9), Vec3(0, 0, -1));
    Smp smp;
    OcclusionTester ot(NULL);
    PathTracer t;
    const LightIntegrator& li = t;
    Spectrum L = li.radiance(scene(), &hp, &r, &smp, &ot);
    float w = V[0].D + (V[0].light && V[0].front ? V[0].E : 0.f);
    if(V[0].pdf > 0 && V[0].f > 0 && V[0].hit)
    {
        float s = V[1].D + (V[0].sp && V[1].light && V[1].front ? V[1].E : 0.f);
        w += V[0].f * absd(V[0].wi, V[0].n) / V[0].pdf * s;
    }
    sym_assert(bl(L.w[0], w), "a camera ray starts with full power");
    sym_reach("end");
}
