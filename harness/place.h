// placements of an object: turn about an axis, scale with mirror, translation, and the exact inverse
#ifndef PLACE_H
#define PLACE_H
#include "sym.h"
#include "geometry/matrix4.hpp"
struct M
{
    float v[16];       // object to world: rotation about an axis, scale, translation, mirror
};
static float inv[16];
// Matrix4::inverse has its own property
bool Matrix4::inverse(Matrix4* out) const
{
    *out = Matrix4(inv);
    return true;
}
// kind 0: discrete turns and any scale, 1: any turn and scale, 2: discrete turns and scales
static void placement(M* o, int any)
{
    // any: every angle; otherwise turns whose sine and cosine have exact binary values, up to a factor
    static const float turn[3][3] = {{1, 1, 2}, {0, -1, 1}, {-1, 1, 2}};
    float s[3], c, k, den;
    if(any == 1)
    {
        float t = sym_float("t", -2, 2);
        den = 1 + t * t;
        c = (1 - t * t) / den;
        k = 2 * t / den;
        den = 1;
    }
    else
    {
        int w = sym_choice("turn", 3);
        c = turn[w][0];
        k = turn[w][1];
        den = turn[w][2];
    }
    for(int i = 0; i < 3; i++)
    {
        static const float SC[3][3] = {{1, 1, 1}, {2, 0.5f, 1}, {1, 0.25f, 0.5f}};
        static int sc;
        if(any == 2 && i == 0)
            sc = sym_choice("scale", 3);
        s[i] = any == 2 ? SC[sc][i] : sym_float("s", 0.125f, 8);
        if(i == 0 && sym_choice("mirror", 2))
            s[i] = -s[i];
    }
    int ax = sym_choice("axis", 3), b = (ax + 1) % 3, d = (ax + 2) % 3;
    for(int i = 0; i < 16; i++)
        o->v[i] = 0;
    o->v[15] = 1;
    o->v[ax * 4 + ax] = s[ax];
    o->v[b * 4 + b] = c * s[b];
    o->v[b * 4 + d] = -k * s[d];
    o->v[d * 4 + b] = k * s[b];
    o->v[d * 4 + d] = c * s[d];
    for(int i = 0; i < 3; i++)
        o->v[i * 4 + 3] = sym_float("tr", -5, 5);
    for(int i = 0; i < 16; i++)
        inv[i] = 0;
    inv[15] = 1;
    inv[ax * 4 + ax] = 1 / s[ax];
    inv[b * 4 + b] = c / s[b] / den;
    inv[b * 4 + d] = k / s[b] / den;
    inv[d * 4 + b] = -k / s[d] / den;
    inv[d * 4 + d] = c / s[d] / den;
    for(int i = 0; i < 3; i++)
        inv[i * 4 + 3] = -(inv[i * 4] * o->v[3] + inv[i * 4 + 1] * o->v[7] + inv[i * 4 + 2] * o->v[11]);
}
static void fwd(const float* v, float w, float x, float y, float z, float* o)
{
    for(int i = 0; i < 3; i++)
        o[i] = v[i * 4] * x + v[i * 4 + 1] * y + v[i * 4 + 2] * z + w * v[i * 4 + 3];
}
#endif
