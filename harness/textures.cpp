#include "sym.h"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/mask_boolean.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>

static const int sides[3] = {1, 2, 4};
static uint32_t px[16];
static int only = -1;       // the channel that varies, when not all do
static void fill(int side)
{
    for(int i = 0; i < side * side; i++)
    {
        uint8_t b[4];
        for(int c = 0; c < 4; c++)
            b[c] = only < 0 || only == c ? sym_u8("t") : (uint8_t)(i * 37 + c * 11);
        memcpy(px + i, b, 4);
    }
}
static int chan(const TexelUnion& t, int c) { return c == 0 ? t.bgra_texel.a : c == 1 ? t.bgra_texel.r : c == 2 ? t.bgra_texel.g : t.bgra_texel.b; }
static int src(int i, int c) { uint8_t b[4]; memcpy(b, px + i, 4); return b[c]; }
// ---- nearest texel
HARNESS(h_nearest)
{
    int n = sides[sym_choice("side", 3)];
    fill(n);
    ImageMapUnfiltered m(px, n);
    int ix = sym_choice("x", n), iy = sym_choice("y", n);
    float fx = sym_float("fx", 0.015625f, 0.984375f), fy = sym_float("fy", 0.015625f, 0.984375f);
    int rim = sym_choice("rim", 5);         // also the very border of the texture
    float u = (ix + fx) / n, v = (iy + fy) / n;
    if(rim == 1) { u = 0; ix = 0; }
    if(rim == 2) { u = 1; ix = n - 1; }
    if(rim == 3) { v = 0; iy = 0; }
    if(rim == 4) { v = 1; iy = n - 1; }
    TexelUnion t = m.filter(u, v, 0.5f, 0.25f, 2, 1);
    for(int c = 0; c < 4; c++)
        sym_assert(chan(t, c) == src(iy * n + ix, c), "a lookup without filter returns the texel that contains the point");
    sym_reach("end");
}
// ---- levels
HARNESS(h_levels)
{
    int k = sym_choice("side", 3), n = sides[k];
    fill(n);
    ImageMapTrilinear m(px, n);
    sym_assert(m.maps_no == k + 1, "there is a level for every halving");
    for(int l = 0; l <= k; l++)
        sym_assert(m.side[l] == n >> l, "each level has half the side of the one before");
    for(int y = 0; y < n; y++)
        for(int x = 0; x < n; x++)
            for(int c = 0; c < 4; c++)
                sym_assert(chan(m.MIPmap[0]->get(x, y), c) == src(y * n + x, c), "the first level is the image");
    for(int l = 1; l <= k; l++)
        for(int y = 0; y < n >> l; y++)
            for(int x = 0; x < n >> l; x++)
                for(int c = 0; c < 4; c++)
                {
                    Array2D<TexelUnion>* a = m.MIPmap[l - 1];
                    int s = chan(a->get(2 * x, 2 * y), c) + chan(a->get(2 * x + 1, 2 * y), c) + chan(a->get(2 * x, 2 * y + 1), c) + chan(a->get(2 * x + 1, 2 * y + 1), c);
                    int d = s - 4 * chan(m.MIPmap[l]->get(x, y), c);
                    sym_assert((d >= 0) & (d <= 3), "a texel of a level is the mean of the four below it");
                }
    sym_reach("end");
}
// ---- interpolation
static float at(const ImageMap& m, int l, int x, int y, int c)
{
    int s = m.side[l];
    return (float)chan(m.MIPmap[l]->get((x + s) % s, (y + s) % s), c);
}
struct Near { int x, y; float a, b; };
// the exact bilinear value of the repeated texture
static float blend(const ImageMap& m, int l, const Near& p, int c)
{
    return (at(m, l, p.x, p.y, c) * (1 - p.a) + at(m, l, p.x + 1, p.y, c) * p.a) * (1 - p.b) + (at(m, l, p.x, p.y + 1, c) * (1 - p.a) + at(m, l, p.x + 1, p.y + 1, c) * p.a) * p.b;
}
HARNESS(h_bilinear)
{
    static const float grid[4] = {0, 0.25f, 0.625f, 0.9375f};
    int n = sides[sym_choice("side", 3)], how = sym_choice("how", 2);
    only = how ? sym_choice("channel", 4) : 4;      // either the texels or the place within them varies
    fill(n);
    ImageMapTrilinear m(px, n);
    Near p;
    p.x = sym_choice("x", n + 1) - 1;
    p.y = sym_choice("y", n + 1) - 1;
    if(how)
    {
        p.a = grid[sym_choice("ga", 4)];
        p.b = grid[sym_choice("gb", 4)];
        if((p.x < 0 && p.a < 0.5f) || (p.y < 0 && p.b < 0.5f) || (p.x == n - 1 && p.a > 0.5f) || (p.y == n - 1 && p.b > 0.5f))
            return;
    }
    else
    {
        p.a = sym_float("a", p.x < 0 ? 0.5f : 0, p.x == n - 1 ? 0.5f : 0.9921875f);
        p.b = sym_float("b", p.y < 0 ? 0.5f : 0, p.y == n - 1 ? 0.5f : 0.9921875f);
    }
    TexelUnion t = m.filter((p.x + p.a + 0.5f) / n, (p.y + p.b + 0.5f) / n, 0, 0, 0, 0);
    for(int c = 0; c < 4; c++)
    {
        float e = blend(m, 0, p, c), r = (float)chan(t, c);
        sym_assert((r <= e + sym_tol(0.02f)) & (e < r + 1 + sym_tol(0.02f)), "the value between texels is interpolated from the four around it");
    }
    sym_reach("end");
}
HARNESS(h_trilinear)
{
    static const float widths[] = {0.001f, 0.25f, 0.3f, 0.5f, 0.7f, 0.9f, 1, 1.5f};
    int k = sym_choice("side", 3), n = sides[k];
    only = sym_choice("channel", 4);
    fill(n);
    ImageMapTrilinear m(px, n);
    float w = widths[sym_choice("width", 8)], d[4] = {0, w / 2, 0, -w / 4};
    int which = sym_choice("which", 4);
    d[which] = which & 1 ? -w : w;
    float lvl = k + log2f(w);
    int lo = lvl <= 0 ? 0 : lvl >= k ? k : (int)lvl, hi = lvl <= 0 || lvl >= k ? lo : lo + 1;
    float f = lvl <= 0 || lvl >= k ? 0 : lvl - lo;
    static const float us[4] = {0, 0.3125f, 0.625f, 1}, vs[4] = {0.4375f, 0, 1, 0.875f};
    float u = us[sym_choice("u", 4)], v = vs[sym_choice("v", 4)];
    TexelUnion t = m.filter(u, v, d[0], d[1], d[2], d[3]);
    for(int c = 0; c < 4; c++)
    {
        float e = 0;
        for(int q = 0; q < 2; q++)
        {
            int l = q ? hi : lo;
            float x = u * m.side[l] - 0.5f, y = v * m.side[l] - 0.5f;
            Near p = {(int)floorf(x), (int)floorf(y), x - floorf(x), y - floorf(y)};
            e += blend(m, l, p, c) * (q ? f : 1 - f);
        }
        float r = (float)chan(t, c);
        sym_assert((r <= e + sym_tol(0.02f)) & (e < r + 3 + sym_tol(0.02f)), "a wider footprint is interpolated between the two levels that match it");
    }
    sym_reach("end");
}
// ---- elliptic filter
// gaussian average over the ellipse spanned by the two derivatives (each widened by one texel)
static float ellipse(const ImageMap& m, int l, float u, float v, const float* p, const float* q, int c)
{
    int n = m.side[l];
    float x0 = u * n - 0.5f, y0 = v * n - 0.5f, px = p[0] * n, py = p[1] * n, qx = q[0] * n, qy = q[1] * n;
    float A = py * py + qy * qy + 1, B = -2 * (px * py + qx * qy), C = px * px + qx * qx + 1, F = A * C - B * B / 4, sum = 0, all = 0;
    int R = (int)ceilf(sqrtf(C > A ? C : A)) + 1;
    for(int y = (int)floorf(y0) - R; y <= (int)floorf(y0) + R; y++)
        for(int x = (int)floorf(x0) - R; x <= (int)floorf(x0) + R; x++)
        {
            float dx = x - x0, dy = y - y0, r = (A * dx * dx + B * dx * dy + C * dy * dy) / F;
            if(r >= 1)
                continue;
            float w = expf(-2 * r) - expf(-2);
            all += w;
            sum += w * at(m, l, x + 64 * n, y + 64 * n, c);
        }
    return sum * (1 / all);
}
HARNESS(h_ewa)
{
    static const float axes[][4] = {{0.4f, 0, 0, 0.4f}, {0.9f, 0, 0, 0.05f}, {0.05f, 0, 0, 0.9f}, {0.3f, 0.3f, -0.2f, 0.2f}, {0.9f, 0.9f, 0.01f, -0.01f}, {2, 1, 0.25f, 0.125f}, {0.01f, 0, 0.9f, 0.9f}, {2, 0, 0, 2}, {0, 0, 1, 0.5f}};
    static const float us[3] = {0, 0.375f, 1}, vs[3] = {0.25f, 0, 0.9375f};
    int k = sym_choice("side", 3), n = sides[k];
    only = sym_choice("channel", 4);
    fill(n);
    ImageMapEWA m(px, n);
    const float* d = axes[sym_choice("axes", 9)];
    float u = us[sym_choice("u", 3)], v = vs[sym_choice("v", 3)], p[2] = {d[0], d[1]}, q[2] = {d[2], d[3]};
    TexelUnion t = m.filter(u, v, p[0], p[1], q[0], q[1]);
    float lp = sqrtf(p[0] * p[0] + p[1] * p[1]), lq = sqrtf(q[0] * q[0] + q[1] * q[1]), *mn = lp < lq ? p : q, lng = lp < lq ? lq : lp, sht = lp < lq ? lp : lq;
    float e;
    int slack = 3;
    if(sht == 0)
        sht = 1e-6f, slack = 300;       // a point: any value of the texels around it
    if(sht * 30 < lng)
    {
        mn[0] *= lng / (sht * 30);
        mn[1] *= lng / (sht * 30);
        sht = lng / 30;
    }
    float lvl = k + log2f(sht);
    lvl = lvl < 0 ? 0 : lvl;
    for(int c = 0; c < 4; c++)
    {
        if(lvl >= k)
            e = at(m, k, 0, 0, c);
        else
        {
            int l = (int)lvl;
            float f = lvl - l;
            e = (1 - f) * ellipse(m, l, u, v, p, q, c) + f * ellipse(m, l + 1, u, v, p, q, c);
        }
        float r = (float)chan(t, c);
        sym_assert((r <= e + slack) & (e <= r + 3 + slack), "an elliptic lookup averages the texels under the footprint");
    }
    sym_reach("end");
}
// ---- coordinates
static float s_a[6];
static int calls;
static TexelUnion reply;
struct Rec : public ImageMap
{
    Rec() : ImageMap(px, 1) {}
    TexelUnion filter(float u, float v, float dudx, float dvdx, float dudy, float dvdy) const
    {
        float a[6] = {u, v, dudx, dvdx, dudy, dvdy};
        memcpy(s_a, a, sizeof a);
        calls++;
        return reply;
    }
};
static float whole(float x) { return x - floorf(x); }
HARNESS(h_repeat)
{
    int way = sym_choice("way", 3);     // no filter, filter without derivatives, filter with them
    Rec map;
    for(int c = 0; c < 4; c++)
        ((uint8_t*)&reply)[c] = sym_u8("reply");
    Vec2 shift(sym_float("shift.x", -2, 2), sym_float("shift.y", -2, 2)), scale(sym_float("scale.x", -3, 3), sym_float("scale.y", -3, 3));
    TextureImage tex(&map, shift, scale, way == 0);
    HitPoint h;
    h.uv = Point2(sym_float("u", 0, 1), sym_float("v", 0, 1));
    h.differentials = way == 2;
    h.du = Vec2(sym_float("dudx", -1, 1), sym_float("dudy", -1, 1));
    h.dv = Vec2(sym_float("dvdx", -1, 1), sym_float("dvdy", -1, 1));
    TexelUnion t = tex.map_value(&h);
    sym_assert((calls == 1) & (t.bgra_value == reply.bgra_value), "the value is that of the map");
    float wu = h.uv.x * scale.x + shift.x, wv = h.uv.y * scale.y + shift.y;
    sym_assert((s_a[0] >= 0) & (s_a[0] <= 1) & (s_a[1] >= 0) & (s_a[1] <= 1), "the map is asked within its bounds");
    float ku = wu - s_a[0], kv = wv - s_a[1];
    float du = ku - floorf(ku + 0.5f), dv = kv - floorf(kv + 0.5f);
    sym_assert(sym_near(du, 0, 1e-4f) & sym_near(dv, 0, 1e-4f), "outside of the unit square the texture repeats");
    float d = way == 2 ? 1 : 0;
    sym_assert(sym_near(s_a[2], d * h.du.x * scale.x, 1e-5f) & sym_near(s_a[3], d * h.dv.x * scale.y, 1e-5f) & sym_near(s_a[4], d * h.du.y * scale.x, 1e-5f) & sym_near(s_a[5], d * h.dv.y * scale.y, 1e-5f), "derivatives follow the scale of their coordinate");
    sym_reach("end");
}
// ---- masks
HARNESS(h_mask)
{
    Rec map;
    for(int c = 0; c < 4; c++)
        ((uint8_t*)&reply)[c] = sym_u8("reply");
    Vec2 zero(0, 0), one(1, 1);
    TextureImage tex(&map, zero, one, true);
    HitPoint h;
    h.uv = Point2(0.25f, 0.5f);
    h.differentials = false;
    int c = sym_choice("channel", 4);
    ImageChannel ch = c == 0 ? ALPHA : c == 1 ? RED : c == 2 ? GREEN : BLUE;
    bool inv = sym_choice("inverted", 2) == 1;
    MaskBoolean m(&tex, ch, inv), none;
    bool v = m.is_visible(&h), k = m.is_masked(&h);
    sym_assert(v == ((chan(reply, c) >= 128) != inv), "a surface shows where the channel of the mask is bright, or dark when inverted");
    sym_assert(k == !v, "masked is the opposite of visible");
    sym_assert(none.is_visible(&h) & !none.is_masked(&h), "without mask everything shows");
    sym_reach("end");
}
