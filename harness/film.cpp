#include "sym.h"
#include "cameras/image_film.hpp"
#include <cstring>
#include <cstdlib>
#include <new>

// ---- accumulation of samples on the film
#define FW 6
#define FH 5
File::File(const char*) { absolute = NULL; ext = file = NULL; }
File::~File() {}
static float wgt(float x, float y) { return 4 + x * 0.5f + y * 0.25f; }
struct Flt : public Filter
{
    Flt(float rx, float ry) : Filter(rx, ry) {}
    float weight(float x, float y) const { return wgt(x, y); }      // neither even nor separable
};
static ImageFilm* film(const Filter* f)
{
    ImageFilm* o = (ImageFilm*)calloc(1, sizeof(ImageFilm));
    new(&o->buffer) Array2D<Pixel>(FW > FH ? FW : FH);
    new(&o->mtx) std::mutex();
    o->buffer.zero_out();
    *(int*)&o->width = FW;
    *(int*)&o->height = FH;
    o->filter = (Filter*)f;
    return o;
}
static void tile(ExecutorData* e, int x0, int x1, int y0, int y1)
{
    e->startx = x0;
    e->endx = x1;
    e->starty = y0;
    e->endy = y1;
}
// 0: tiles start at zero; 1: in the middle; 2: at the far end
static const int tx[3][2] = {{0, 2}, {2, 4}, {4, 6}}, ty[3][2] = {{0, 2}, {2, 4}, {4, 5}};
struct Smp { float x, y; int ix, iy, hx, hy; };
static Smp smp(int cx, int cy)
{
    Smp s;
    int half = sym_choice("half", 4);      // which half of the pixel, for both axes
    s.ix = tx[cx][0] + sym_choice("px", tx[cx][1] - tx[cx][0]);
    s.iy = ty[cy][0] + sym_choice("py", ty[cy][1] - ty[cy][0]);
    s.x = s.ix + sym_float("fx", (half & 1) * 0.5f + 0.0009765625f, (half & 1) * 0.5f + 0.4990234375f);
    s.y = s.iy + sym_float("fy", (half >> 1) * 0.5f + 0.0009765625f, (half >> 1) * 0.5f + 0.4990234375f);
    s.hx = half & 1;
    s.hy = half >> 1;
    return s;
}
// is the centre of a pixel k pixels away within r, when the sample is in the given half of its pixel?
static bool covers(int k, int half, int r) { return half ? (k > -r) & (k <= r) : (k >= -r) & (k < r); }
static float w2(const Smp& s, int x, int y, int rx, int ry, bool* in)
{
    float dx = x + 0.5f - s.x, dy = y + 0.5f - s.y;
    *in = covers(x - s.ix, s.hx, rx) && covers(y - s.iy, s.hy, ry);
    return wgt(dx, dy);
}
static float shift_unused;
HARNESS(h_film_add)
{
    static const int rng[4][2] = {{1, 1}, {2, 2}, {1, 2}, {4, 1}};
    int k = sym_choice("range", 4), cx = sym_choice("tilex", 3), cy = sym_choice("tiley", 3);
    Flt f(rng[k][0], rng[k][1]);
    ImageFilm* o = film(&f);
    ExecutorData e;
    tile(&e, tx[cx][0], tx[cx][1], ty[cy][0], ty[cy][1]);
    Smp s = smp(cx, cy);
    Sample sa;
    sa.posx = s.x;
    sa.posy = s.y;
    float pos = sym_float("c", 0, 10), g = sym_float("c", 0, 10), b = sym_float("c", 0, 10);
    // a negative channel counts as zero
    int neg = sym_choice("negative", 4);
    ColorXYZ c(neg == 1 ? -pos : pos, neg == 2 ? -g : g, neg == 3 ? -b : b);
    (neg == 1 ? pos : neg == 2 ? g : neg == 3 ? b : shift_unused) = 0;
    // what was there before stays
    float was = sym_float("was", 0, 100);
    Pixel p0 = {was, was, was, was};
    o->buffer.set(s.ix, s.iy, p0);
    o->add_pixel(&sa, c, &e);
    o->add_pixel_forced(&e);
    sym_assert(e.deferred.empty(), "nothing is left to add");
    for(int y = 0; y < FH; y++)
        for(int x = 0; x < FW; x++)
        {
            Pixel v = o->buffer.get(x, y);
            bool in;
            float w = w2(s, x, y, rng[k][0], rng[k][1], &in), base = ((x == s.ix) & (y == s.iy)) ? was : 0;
            if(!in)
                w = 0;
            sym_assert(sym_near(v.samples - base, w, 1e-3f), "every pixel within range, and no other, gets the weight of its offset");
            sym_assert(sym_near(v.cie_x - base, w * pos, 1e-2f), "the first channel is weighted");
            sym_assert(sym_near(v.cie_y - base, w * g, 1e-2f), "the second channel is weighted");
            sym_assert(sym_near(v.cie_z - base, w * b, 1e-2f), "the third channel is weighted");
        }
    sym_reach("end");
}

// ---- several workers: what one writes without the lock, no other may touch
static std::mutex* taken;
static ImageFilm* shared;
static int spot_x, spot_y;
static float noise[3];
static int nnoise;
static bool others, busy;
static void other_worker()
{
    if(!others)
        return;
    // another worker, holding the lock, adds to a pixel
    if(nnoise < 3)
    {
        Pixel p = shared->buffer.get(spot_x, spot_y);
        float v = sym_float("noise", 0, 10);
        p.cie_x += v;
        p.cie_y += v;
        p.cie_z += v;
        p.samples += v;
        noise[nnoise++] = v;
        shared->buffer.set(spot_x, spot_y, p);
    }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    sym_assert(taken == NULL, "the lock is not taken twice");
    other_worker();
    taken = (std::mutex*)m;
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    sym_assert(taken == NULL, "the lock is not taken twice");
    if(busy)
        return 16;
    other_worker();
    taken = (std::mutex*)m;
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    sym_assert(taken == (std::mutex*)m, "only a lock that was taken is given back");
    taken = NULL;
    other_worker();
    return 0;
}
HARNESS(h_film_race)
{
    static const int rng[3][2] = {{1, 1}, {2, 2}, {1, 2}};
    int k = sym_choice("range", 3), ax = sym_choice("tilex", 3), ay = sym_choice("tiley", 3), bx = sym_choice("tilex", 3), by = sym_choice("tiley", 3);
    sym_assume((ax != bx) | (ay != by));
    Flt f(rng[k][0], rng[k][1]);
    ImageFilm *fa = film(&f), *fb = film(&f);
    ExecutorData ea, eb;
    tile(&ea, tx[ax][0], tx[ax][1], ty[ay][0], ty[ay][1]);
    tile(&eb, tx[bx][0], tx[bx][1], ty[by][0], ty[by][1]);
    Smp a = smp(ax, ay), b = smp(bx, by);
    Sample sa, sb;
    sa.posx = a.x;
    sa.posy = a.y;
    sb.posx = b.x;
    sb.posy = b.y;
    ColorXYZ c(1, 1, 1);
    fa->add_pixel(&sa, c, &ea);          // unlocked writes of one worker
    fb->add_pixel(&sb, c, &eb);          // all writes of the other
    fb->add_pixel_forced(&eb);
    for(int y = 0; y < FH; y++)
        for(int x = 0; x < FW; x++)
        {
            bool wa = fa->buffer.get(x, y).samples != 0, wb = fb->buffer.get(x, y).samples != 0;
            sym_assert(!(wa & wb), "a pixel written without the lock is written by no other worker");
        }
    sym_reach("end");
}
HARNESS(h_film_lock)
{
    Flt f(1, 1);
    shared = film(&f);
    ExecutorData e;
    tile(&e, 0, 2, 0, 2);
    int n = 1 + sym_choice("todo", 2);
    float sum = 0, sumw = 0;
    spot_x = sym_choice("x", 2) * 5;
    spot_y = sym_choice("y", 2) * 4;
    for(int i = 0; i < n; i++)
    {
        TodoPixel t;
        t.x = spot_x;
        t.y = spot_y;
        t.samples = sym_float("w", 0, 1);
        t.cie_x = t.cie_y = t.cie_z = sym_float("v", 0, 10);
        sum += t.cie_x;
        sumw += t.samples;
        e.deferred.push(t);
    }
    others = true;
    int forced = sym_choice("forced", 2);
    busy = forced ? sym_choice("busy", 2) : sym_choice("busy", 2);
    if(forced)
        shared->add_pixel_forced(&e);
    else
        shared->add_pixel_deferred(&e);
    float more = 0;
    for(int i = 0; i < nnoise; i++)
        more += noise[i];
    sym_assert(taken == NULL, "the lock is given back");
    bool done = forced | !busy;
    sym_assert((int)e.deferred.size() == (done ? 0 : n), "pixels stay deferred exactly when the film is busy");
    Pixel p = shared->buffer.get(spot_x, spot_y);
    sym_assert(sym_near(p.samples, more + (done ? sumw : 0), 1e-3f), "no weight is lost, whatever other workers add meanwhile");
    sym_assert(sym_near(p.cie_x, more + (done ? sum : 0), 1e-3f), "nothing is lost in the first channel");
    sym_assert(sym_near(p.cie_y, more + (done ? sum : 0), 1e-3f), "nothing is lost in the second channel");
    sym_assert(sym_near(p.cie_z, more + (done ? sum : 0), 1e-3f), "nothing is lost in the third channel");
    sym_reach("end");
}
