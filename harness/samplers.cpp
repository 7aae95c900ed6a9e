#include "sym.h"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
#include "utility/utility.hpp"
#include <cmath>

// ---- samplers: every pixel of the tile once, the right number of samples, all inside the pixel
static int draws;
static float drawn[256];
float WELLrng::getNumber()
{
    float v = sym_float("u", 0.015625f, 0.984375f);
    drawn[draws++ & 255] = v;
    return v;
}
#define GUARD 12345.f
HARNESS(h_sampler)
{
    unsigned seed[WELL_R] = {1};
    int kind = sym_choice("kind", 3), w = 1 + sym_choice("w", 3), h = 1 + sym_choice("h", 3);
    int x0 = sym_int("x0", 0, 255), y0 = sym_int("y0", 0, 255);
    int spp;
    if(kind == 0)
        spp = 1 + sym_choice("spp", 4);
    else
    {
        int side = 1 + sym_choice("spp", 3);
        spp = side * side;
    }
    SamplerRandom ra(x0, x0 + w, y0, y0 + h, spp, seed);
    SamplerStratified st(x0, x0 + w, y0, y0 + h, spp, seed, kind == 1);
    Sampler* s = kind == 0 ? (Sampler*)&ra : (Sampler*)&st;
    int side = 1;
    while(side * side < spp)
        side++;
    bool seen[3][3] = {{false}};
    for(int round = 0; round < w * h; round++)
    {
        Sample out[11];
        for(int i = 0; i < 11; i++)
            out[i].posx = out[i].posy = GUARD;
        draws = 0;
        sym_assert(s->get_samples(out), "there are samples for every pixel of the tile");
        // which pixel? all samples of a round belong to the same one
        int which = -1;
        for(int y = 0; y < h; y++)
            for(int x = 0; x < w; x++)
            {
                bool in = true;
                for(int i = 0; i < spp; i++)
                {
                    float fx = out[i].posx - (x0 + x), fy = out[i].posy - (y0 + y);
                    in = in & (fx >= 0.004f) & (fx <= 0.996f) & (fy >= 0.004f) & (fy <= 0.996f);
                }
                if(in && which < 0 && !seen[y][x])
                    which = y * w + x;
            }
        sym_assert(which >= 0, "the samples of a pixel are inside a pixel of the tile not sampled before");
        if(which < 0)
            return;
        seen[which / w][which % w] = true;
        sym_assert((out[spp].posx == GUARD) & (out[spp].posy == GUARD), "no more samples than asked for");
        if(kind != 0)
        {
            // one sample per stratum
            bool cell[3][3] = {{false}};
            float d = 1.f / side;
            for(int i = 0; i < spp; i++)
            {
                float fx = out[i].posx - (x0 + which % w), fy = out[i].posy - (y0 + which / w);
                bool found = false;
                for(int a = 0; a < side; a++)
                    for(int b = 0; b < side; b++)
                        if(!found && !cell[a][b])
                        {
                            bool in = (fx >= b * d) & (fx <= (b + 1) * d) & (fy >= a * d) & (fy <= (a + 1) * d);
                            if(in)
                            {
                                cell[a][b] = true;
                                found = true;
                                if(kind == 2)
                                    sym_assert(sym_near(fx, (b + 0.5f) * d, 1e-3f) & sym_near(fy, (a + 0.5f) * d, 1e-3f), "without jitter samples are in the middle of their stratum");
                            }
                        }
                sym_assert(found, "every stratum gets one sample");
            }
        }
        if(kind != 2)
        {
            sym_assert(draws == 2 * spp, "every coordinate has its own random number");
            // the whole pixel (stratum) can be reached: positions move with the numbers
            float d = kind == 0 ? 1 : 1.f / side;
            for(int i = 0; i < spp; i++)
            {
                float fx = out[i].posx - (x0 + which % w), fy = out[i].posy - (y0 + which / w);
                float ux = fx / d, uy = fy / d;
                bool m = false;
                for(int a = 0; a < side; a++)
                    for(int b = 0; b < side; b++)
                        m |= (sym_near(ux - (kind ? b : 0), drawn[2 * i], 1e-2f) & sym_near(uy - (kind ? a : 0), drawn[2 * i + 1], 1e-2f)) |
                             (sym_near(ux - (kind ? b : 0), drawn[2 * i + 1], 1e-2f) & sym_near(uy - (kind ? a : 0), drawn[2 * i], 1e-2f));
                sym_assert(m, "samples cover their area uniformly");
            }
        }
    }
    Sample rest[11];
    for(int i = 0; i < 11; i++)
        rest[i].posx = GUARD;
    sym_assert(!s->get_samples(rest), "no samples once the tile is exhausted");
    sym_assert(!s->get_samples(rest) & (rest[0].posx == GUARD), "an exhausted tile stays exhausted and writes nothing");
    float more[6] = {GUARD, GUARD, GUARD, GUARD, GUARD, GUARD};
    draws = 0;
    int n = sym_choice("n", 5);
    s->get_random_numbers(more, n);
    bool ok = true;
    for(int i = 0; i < 6; i++)
        ok &= i < n ? more[i] == drawn[i] : more[i] == GUARD;
    sym_assert(ok & (draws == n), "as many fresh random numbers as asked for");
    sym_reach("end");
}
// ---- reconstruction filters
static float bound(float r) { return sym_float("o", -r, r); }
static float cube(float x, float b, float c)
{
    x = fabsf(x);
    float near = ((12 - 9 * b - 6 * c) * x * x * x + (-18 + 12 * b + 6 * c) * x * x + (6 - 2 * b)) / 6;
    float far = ((-b - 6 * c) * x * x * x + (6 * b + 30 * c) * x * x + (-12 * b - 48 * c) * x + (8 * b + 24 * c)) / 6;
    return sym_ite_f(x < 1, near, far);
}
HARNESS(h_filter_mitchell)
{
    float b = sym_float("b", 0, 1), c = sym_float("c", 0, 1);
    FilterMitchell f(b, c);
    sym_assert((f.range_x == 2) & (f.range_y == 2), "the filter reaches two pixels");
    float x = bound(2), y = bound(2);
    static const float at[5] = {0, 0.5f, -0.75f, 1.25f, -1.75f};
    int k = sym_choice("other", 5);
    if(sym_choice("axis", 2))
        x = at[k];
    else
        y = at[k];
    sym_assert(sym_near(f.weight(x, y), cube(x, b, c) * cube(y, b, c), 1e-3f), "weight is the Mitchell-Netravali cubic of both offsets");
    sym_assert(sym_near(f.weight(x, 2), 0, 1e-3f) & sym_near(f.weight(-2, y), 0, 1e-3f), "the filter fades out at its end");
    sym_reach("end");
}
HARNESS(h_filter_unity)
{
    // wherever the sample falls, the weights it hands out sum up to one
    float b = sym_float("b", 0, 1), c = sym_float("c", 0, 1);
    FilterMitchell f(b, c);
    int axis = sym_choice("axis", 2);
    float t = sym_float("t", 0, 1);
    int k = sym_choice("other", 4);
    static const float fixed[4] = {0, 0.5f, 1.25f, 1.75f};
    float s = 0;
    for(int i = -2; i < 2; i++)
        s += axis ? f.weight(fixed[k], t + i) : f.weight(t + i, fixed[k]);
    sym_assert(sym_near(s, cube(fixed[k], b, c), 1e-3f), "cubic weights sum up to the same amount wherever the sample falls");
    FilterTent g;
    s = 0;
    for(int i = -2; i < 2; i++)
        s += axis ? g.weight(fixed[k], t + i) : g.weight(t + i, fixed[k]);
    sym_assert(sym_near(s, 2 - fixed[k], 1e-3f), "tent weights sum up to the same amount wherever the sample falls");
    sym_reach("end");
}
HARNESS(h_filter_simple)
{
    FilterBox bx;
    FilterTent t;
    float x = bound(3), y = bound(3);
    sym_assert((bx.range_x > 0) & (bx.range_y > 0) & (t.range_x == 2) & (t.range_y == 2), "filters have an extent");
    sym_assert(bx.weight(x, y) == 1, "the box weighs everything the same");
    float ax = fabsf(x), ay = fabsf(y);
    float w = sym_ite_f(ax < 2, 1 - ax / 2, 0) * sym_ite_f(ay < 2, 1 - ay / 2, 0);
    sym_assert(sym_near(t.weight(x, y), w, 1e-4f), "the tent falls linearly to zero");
    sym_reach("end");
}
HARNESS(h_filter_gaussian)
{
    float alpha = sym_float("alpha", 0.125f, 4);
    FilterGaussian f(alpha);
    sym_assert((f.range_x == 2) & (f.range_y == 2), "the filter reaches two pixels");
    float x = bound(3), y = bound(3), e = expf(-alpha * 4);
    float gx = expf(-alpha * x * x) - e, gy = expf(-alpha * y * y) - e;
    float v = sym_ite_f(gx < 0, 0, gx) * sym_ite_f(gy < 0, 0, gy);
    sym_assert(sym_near(f.weight(x, y), v, 1e-4f), "weight is a Gaussian shifted to reach zero, never negative");
    sym_assert(f.weight(x, y) >= 0, "weight is never negative");
    sym_assert(sym_near(f.weight(x, 2), 0, 1e-5f) & sym_near(f.weight(-2, y), 0, 1e-5f), "the filter fades out at its end");
    sym_reach("end");
}
static float lobe(float x, float tau)
{
    x = fabsf(x) / 4 * ONE_PI;
    return sinf(x * tau) / (x * tau) * (sinf(x) / x);
}
HARNESS(h_filter_lanczos)
{
    float tau = sym_float("tau", 0.5f, 4);
    FilterLanczos f(tau);
    sym_assert((f.range_x == 4) & (f.range_y == 4), "the filter reaches four pixels");
    int kx = sym_choice("kx", 3), ky = sym_choice("ky", 3);
    float s = sym_choice("sx", 2) ? -1 : 1, t = sym_choice("sy", 2) ? -1 : 1;
    float x = kx == 0 ? 0 : kx == 1 ? s * sym_float("x", 0.015625f, 4) : s * sym_float("x", 4.0009765625f, 5);
    float y = ky == 0 ? 0 : ky == 1 ? t * sym_float("y", 0.015625f, 4) : t * sym_float("y", 4.0009765625f, 5);
    float wx = kx == 0 ? 1 : kx == 1 ? lobe(x, tau) : 0, wy = ky == 0 ? 1 : ky == 1 ? lobe(y, tau) : 0;
    sym_assert(sym_near(f.weight(x, y), wx * wy, 1e-3f), "weight is the windowed sinc of both offsets, one at the centre, zero outside");
    sym_reach("end");
}
