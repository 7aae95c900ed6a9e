#include "sym.h"
#include "renderer.hpp"
#include <cstring>
#include <cstdlib>
#define private public
#include <thread>
#undef private

// ---- the render loop: threads are run by the harness, at points where they could be scheduled
#ifndef SWITCHES
#define SWITCHES 2
#define WORKERS 3
#endif
#define MAXT 4
#define W_ 4
#define H_ 5
struct Th { std::thread::_State* st; int state; };       // 0 none, 1 started, 2 running, 3 done
static Th th[MAXT + 1];
static int started, current, budget;
static bool interleave;
static std::mutex* held;
static void run(int i)
{
    int was = current;
    current = i;
    th[i].state = 2;
    th[i].st->_M_run();
    th[i].state = 3;
    current = was;
}
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
    th[started].st = s.release();
    th[started].state = 1;
    _M_id = id((unsigned long)(started + 1));
    started++;
}
void std::thread::join()
{
    int i = (int)(unsigned long)_M_id._M_thread - 1;
    if(th[i].state == 1)
        run(i);
    sym_assert(th[i].state == 3, "joined threads are over");
    _M_id = id();
}
unsigned std::thread::hardware_concurrency() noexcept { return 2; }
// while one worker waits for the lock, or after it gave it back, another one may run
static void gap()
{
    if(!interleave || budget == 0)
        return;
    for(int i = 1; i < started; i++)
        if(th[i].state == 1)
        {
            if(sym_choice("switch", 2))
            {
                budget--;
                run(i);
            }
            return;
        }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    gap();
    sym_assert(held == NULL, "a worker never takes a lock twice");
    held = (std::mutex*)m;
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    sym_assert(held == (std::mutex*)m, "only the lock that was taken is given back");
    held = NULL;
    gap();
    return 0;
}
// ---- everything around the loop
extern "C" int rand() { static int k; return k++; }
void KdTree::buildTree() {}
static int shots[H_][W_], added[H_][W_], good, bad;
static bool stale, outside, wrong_tile, saved, order;
static float shade;
static int px(const Sample* s) { return (int)s->posx; }
static int py(const Sample* s) { return (int)s->posy; }
struct Cam : public Camera
{
    Cam() : Camera(&origin, &target, &updir, 1, 1) {}
    static Point3 origin, target;
    static Vec3 updir;
    void create_ray(const Sample* s, Ray* r, Ray* rx, Ray* ry) const
    {
        r->origin = Point3(s->posx, s->posy, 1);
        rx->origin = Point3(s->posx, s->posy, 2);
        ry->origin = Point3(s->posx, s->posy, 3);
        int x = px(s), y = py(s);
        if((s->posx < 0) | (s->posy < 0) | (x >= W_) | (y >= H_))
        {
            outside = true;
            return;
        }
        shots[y][x]++;
    }
    void create_single_ray(const Sample*, Point3*, Vec3*) const {}
};
Point3 Cam::origin(0, 0, 0), Cam::target(0, 0, 1);
Vec3 Cam::updir(0, 1, 0);
static bool solid(float x, float y) { return (((int)x) + (int)y) % 2 == 0; }
bool KdTree::intersect(const Ray* r, HitPoint* h) const
{
    if(h->differentials)
        stale = true;
    if(!solid(r->origin.x, r->origin.y))
        return false;
    h->point_h = r->origin;
    return true;
}
void calculate_differentials(HitPoint* h, Ray* rx, Ray* ry)
{
    if(!((rx->origin.z == 2) & (ry->origin.z == 3) & (rx->origin.x == h->point_h.x) & (ry->origin.y == h->point_h.y)))
        bad++;
    h->differentials = true;
}
struct Light : public LightIntegrator
{
    Spectrum radiance(const Scene*, const HitPoint* h, const Ray* r, Sampler*, OcclusionTester*) const
    {
        if(!(h->differentials & (h->point_h.x == r->origin.x) & (h->point_h.y == r->origin.y)))
            bad++;
        Spectrum s(0.0f);
        s.w[0] = h->point_h.x;
        s.w[1] = h->point_h.y;
        s.w[2] = shade;
        return s;
    }
};
struct Flt : public Filter
{
    Flt() : Filter(1, 1) {}
    float weight(float, float) const { return 1; }
};
OcclusionTester::OcclusionTester(const Scene*) {}
File::File(const char*) { absolute = NULL; ext = file = NULL; }
File::~File() {}
ImageFilm::ImageFilm(int w, int h, const char*) : width(w), height(h), buffer(1), output("out.ppm") { filter = NULL; }
void ImageFilm::add_pixel(const Sample* s, ColorXYZ c, ExecutorData* e)
{
    int x = px(s), y = py(s);
    if((s->posx < 0) | (s->posy < 0) | (x >= W_) | (y >= H_))
    {
        outside = true;
        return;
    }
    if((x < e->startx) | (x >= e->endx) | (y < e->starty) | (y >= e->endy))
        wrong_tile = true;
    bool hit = solid(s->posx, s->posy);
    if(hit ? !((c.r == s->posx) & (c.g == s->posy) & (c.b == shade)) : !((c.r == 0) & (c.g == 0) & (c.b == 0)))
        bad++;
    TodoPixel t;
    t.x = x;
    t.y = y;
    e->deferred.push(t);
}
static void drain(ExecutorData* e)
{
    while(!e->deferred.empty())
    {
        added[e->deferred.top().y][e->deferred.top().x]++;
        e->deferred.pop();
    }
}
void ImageFilm::add_pixel_deferred(ExecutorData* e)
{
    if(interleave || sym_choice("free", 2))      // the film may be locked by someone else
        drain(e);
}
void ImageFilm::add_pixel_forced(ExecutorData* e) { drain(e); }
static int want_spp, want_h;
bool ImageFilm::save_image()
{
    saved = true;
    for(int i = 1; i < started; i++)
        if(th[i].state != 3)
            order = true;
    return true;
}
float WELLrng::getNumber() { return 0.5f; }
HARNESS(h_render)
{
    int stratified = sym_choice("stratified", 2);
    want_spp = stratified ? (sym_choice("spp", 2) ? 4 : 1) : 1 + sym_choice("spp", 3);
    want_h = 1 + sym_choice("height", H_);
    int workers = sym_choice("workers", WORKERS);            // 0: as many as the machine has
    interleave = true;
    budget = SWITCHES;
    shade = sym_float("shade", 0, 100);
    Renderer r(W_, want_h, want_spp, "out.ppm", workers);
    sym_assert(r.numthreads == (workers ? workers : 2), "the requested number of workers is used");
    r.set_sampler(stratified ? SPECTRE_SAMPLER_STRATIFIED : SPECTRE_SAMPLER_RANDOM);
    r.inherit_camera(new Cam());
    r.inherit_filter(new Flt());
    r.inherit_integrator(new Light());
    Scene* s = (Scene*)calloc(1, sizeof(Scene));
    r.render(s);
    sym_assert(!outside, "no sample outside of the image");
    sym_assert(!wrong_tile, "samples lie in the tile the worker was given");
    sym_assert(saved & !order, "the image is saved after every worker is done");
    sym_assert(bad == 0, "every sample is shaded with its own hit and footprint");
    sym_assert(!stale, "a camera ray is not filtered with the footprint of another");
    for(int y = 0; y < H_; y++)
        for(int x = 0; x < W_; x++)
        {
            int want = y < want_h ? want_spp : 0;
            sym_assert(shots[y][x] == want, "every pixel gets its number of samples");
            sym_assert(added[y][x] == want, "every sample reaches the film");
        }
    sym_assert(held == NULL, "no lock is left taken");
    sym_reach("end");
}
