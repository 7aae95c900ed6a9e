// Native side of the sym_* API: reads an assignment "name value" per line.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, std::string>& vals()
{
    static std::map<std::string, std::string> m;
    return m;
}
static std::map<std::string, void (*)()>& regs()
{
    static std::map<std::string, void (*)()> m;
    return m;
}
static std::map<std::string, int> cnt;
void sym_register(const char* n, void (*f)()) { regs()[n] = f; }
static const std::string* get(const char* n)
{
    int k = cnt[n]++;
    char b[32];
    sprintf(b, "#%d", k);
    std::map<std::string, std::string>::iterator i = vals().find(std::string(n) + b);
    return i == vals().end() ? NULL : &i->second;
}
static void fin(int c)
{
    fflush(stdout);
    _exit(c);
}
extern "C" {
double sym_double(const char* n, double lo, double hi)
{
    const std::string* s = get(n);
    double v = s ? strtod(s->c_str(), NULL) : (lo <= 0 && 0 <= hi ? 0 : lo);
    if(!(v >= lo && v <= hi)) { printf("ASSUME range %s\n", n); fin(77); }
    return v;
}
float sym_float(const char* n, float lo, float hi)
{
    const std::string* s = get(n);
    float v = s ? strtof(s->c_str(), NULL) : (lo <= 0 && 0 <= hi ? 0 : lo);
    if(v > hi && v < hi + 1e-5f * (1 + fabsf(hi))) v = hi;
    if(v < lo && v > lo - 1e-5f * (1 + fabsf(lo))) v = lo;
    if(!(v >= lo && v <= hi)) { printf("ASSUME range %s\n", n); fin(77); }
    return v;
}
float sym_any_float(const char* n)
{
    const std::string* s = get(n);
    return s ? strtof(s->c_str(), NULL) : 0.f;
}
long sym_long(const char* n, long lo, long hi)
{
    const std::string* s = get(n);
    long v = s ? strtol(s->c_str(), NULL, 0) : (lo <= 0 && 0 <= hi ? 0 : lo);
    if(!(v >= lo && v <= hi)) { printf("ASSUME range %s\n", n); fin(77); }
    return v;
}
int sym_int(const char* n, int lo, int hi) { return (int)sym_long(n, lo, hi); }
unsigned sym_uint(const char* n, unsigned lo, unsigned hi) { return (unsigned)sym_long(n, lo, hi); }
uint8_t sym_u8(const char* n) { return (uint8_t)sym_long(n, 0, 255); }
bool sym_bool(const char* n) { return sym_long(n, 0, 1) != 0; }
int sym_choice(const char* n, int c) { return (int)sym_long(n, 0, c - 1); }
void sym_bytes(const char* n, void* p, size_t k)
{
    for(size_t i = 0; i < k; i++)
        ((uint8_t*)p)[i] = sym_u8(n);
}
void sym_assume(bool c)
{
    if(!c) { printf("ASSUME\n"); fin(77); }
}
void sym_assert(bool c, const char* id)
{
    if(!c) { printf("ASSERT-FAIL %s\n", id); fin(42); }
}
void sym_reach(const char* l) { printf("REACH %s\n", l); fflush(stdout); }
void sym_out(const char* n, double v) { printf("OUT %s %.9g\n", n, v); }
void sym_out_i(const char* n, long v) { printf("OUT %s %ld\n", n, v); }
float sym_tol(float t) { return t * 0.5f; }
int sym_native() { return 1; }
float sym_ite_f(bool c, float a, float b) { return c ? a : b; }
int sym_concretize(int v) { return v; }
}
int main(int argc, char** argv)
{
    if(argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    char a[512], b[512];
    while(f && fscanf(f, "%511s %511s", a, b) == 2)
        vals()[a] = b;
    if(f) fclose(f);
    if(!regs().count(argv[1])) { printf("no harness %s\n", argv[1]); return 2; }
    alarm(20);
    regs()[argv[1]]();
    printf("END\n");
    fin(0);
}

extern "C" void sym_cut(float) {}
extern "C" void sym_alias(float) {}
extern "C" void sym_root(float) {}
