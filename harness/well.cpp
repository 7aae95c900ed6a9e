#include "sym.h"
#include "utility/wellrng.hpp"
// ---- the generator: bit for bit the WELL1024a recurrence, numbers in [0,1], streams independent of each other
static unsigned mat0pos(int t, unsigned v) { return v ^ (v >> t); }
static unsigned mat0neg(int t, unsigned v) { return v ^ (v << (-t)); }
struct Ref
{
    unsigned s[32];
    int i;
    // the published recurrence (R=32, M1=3, M2=24, M3=10)
    unsigned next()
    {
        unsigned z0 = s[(i + 31) & 31], v1 = s[(i + 3) & 31], v2 = s[(i + 24) & 31], v3 = s[(i + 10) & 31];
        unsigned z1 = s[i] ^ mat0pos(8, v1);
        unsigned z2 = mat0neg(-19, v2) ^ mat0neg(-14, v3);
        s[i] = z1 ^ z2;
        s[(i + 31) & 31] = mat0neg(-11, z0) ^ mat0neg(-7, z1) ^ mat0neg(-13, z2);
        i = (i + 31) & 31;
        return s[i];
    }
};
#ifndef STEPS
#define STEPS 4
#endif
HARNESS(h_well)
{
    unsigned seed[WELL_R], copy[WELL_R];
    Ref r;
    r.i = 0;
    for(int i = 0; i < WELL_R; i++)
    {
        seed[i] = sym_uint("seed", 0, 0xFFFFFFFFu);
        copy[i] = r.s[i] = seed[i];
    }
    WELLrng g(seed);
    for(int i = 0; i < STEPS; i++)
    {
        // a second generator never disturbs the first
        float v = g.getNumber();
        unsigned want = r.next();
        sym_assert(g.state[g.state_i] == want, "the state follows the WELL1024a recurrence");
        sym_assert((v >= 0) & (v <= 1), "numbers are between zero and one");
        sym_assert(v == (float)want * 2.32830643653869628906e-10f, "the number is the fresh word over two to the 32nd");
    }
    for(int i = 0; i < WELL_R; i++)
    {
        sym_assert(g.state[i] == r.s[i], "the whole state follows the recurrence");
        sym_assert(seed[i] == copy[i], "the seed is left alone");
    }
    sym_reach("end");
}
// from any state and any position, one step keeps the recurrence (so every later one does too)
HARNESS(h_well_step)
{
    unsigned seed[WELL_R];
    for(int i = 0; i < WELL_R; i++)
        seed[i] = sym_uint("seed", 0, 0xFFFFFFFFu);
    WELLrng g(seed), other(seed);
    Ref r;
    int at = sym_choice("at", 32);
    g.state_i = r.i = at;
    for(int i = 0; i < WELL_R; i++)
        r.s[i] = seed[i];
    other.getNumber();
    float v = g.getNumber();
    unsigned want = r.next();
    sym_assert(v == (float)want * 2.32830643653869628906e-10f, "the number is the fresh word over two to the 32nd");
    sym_assert((int)g.state_i == r.i, "the position moves on");
    bool ok = true;
    for(int i = 0; i < WELL_R; i++)
        ok &= g.state[i] == r.s[i];
    sym_assert(ok, "one step of the recurrence from any state");
    sym_reach("end");
}
