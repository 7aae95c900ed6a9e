// Harness API: symbolic in the executor, concrete replay in the native build.
#ifndef SYM_H
#define SYM_H
#include <cstddef>
#include <cstdint>
extern "C" {
float sym_float(const char* name, float lo, float hi);
double sym_double(const char* name, double lo, double hi);
float sym_any_float(const char* name);
int sym_int(const char* name, int lo, int hi);
long sym_long(const char* name, long lo, long hi);
unsigned sym_uint(const char* name, unsigned lo, unsigned hi);
uint8_t sym_u8(const char* name);
bool sym_bool(const char* name);
int sym_choice(const char* name, int n);
void sym_bytes(const char* name, void* p, size_t n);
void sym_assume(bool c);
void sym_assert(bool c, const char* id);
void sym_reach(const char* label);
void sym_out(const char* name, double v);
void sym_out_i(const char* name, long v);
float sym_tol(float t);      // tolerance: t for the solver, t/2 in the native replay
int sym_native();            // 0 in the executor, 1 natively
float sym_ite_f(bool c, float a, float b);  // never forks
void sym_cut(float v);          // solver hint: generalise this sub-term
void sym_alias(float v);        // solver hint: write equal sub-terms like this one
void sym_root(float v);         // solver hint: the square root of v*v (times a constant)
int sym_concretize(int v);   // case split over the values of v
}
#ifdef SYM_NATIVE
void sym_register(const char* name, void (*f)());
#define HARNESS(n) \
    extern "C" void n(); \
    static struct reg_##n { reg_##n() { sym_register(#n, n); } } reg_inst_##n; \
    extern "C" void n()
#else
#define HARNESS(n) extern "C" void n()
#endif
static inline float sym_absf(float a) { return sym_ite_f(a < 0, -a, a); }
// |a-b| <= t without a branch
static inline bool sym_near(float a, float b, float t)
{
    float d = a - b;
    t = sym_tol(t);
    return (d <= t) & (-d <= t);
}
static inline bool sym_imp(bool a, bool b) { return (!a) | b; }
#endif
