// every float32 value through a one-operand float kernel of the built library, against the double routine of libm
// usage: trig LIB OP FIRST COUNT MAXULP STEP ; prints "max ULP at BITS VECTOR|SCALAR" and up to 5 "bad BITS got GOT want WANT ulp U path"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <vector>
typedef void (*K)(void*, void*, int64_t, int64_t, int64_t);
typedef K (*GET)(int, int, int*);
typedef double (*D)(double);
// the vector routines of libm where the compiler can use them (at most 4 units of a double)
extern "C" { __attribute__((simd("notinbranch"))) double sin(double) noexcept; __attribute__((simd("notinbranch"))) double cos(double) noexcept; __attribute__((simd("notinbranch"))) double exp(double) noexcept; __attribute__((simd("notinbranch"))) double log(double) noexcept; }
#define LOOP(F) static void ref_##F(const float* x, double* r, int n) { _Pragma("omp simd") for (int i = 0; i < n; i++) r[i] = F((double)x[i]); }
LOOP(sin) LOOP(cos) LOOP(exp) LOOP(log)
static D byname(const char* n) {
    struct { const char* n; D f; } t[] = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"arcsin", asin}, {"arccos", acos}, {"arctan", atan}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh},
        {"arcsinh", asinh}, {"arccosh", acosh}, {"arctanh", atanh}, {"exp", exp}, {"exp2", exp2}, {"expm1", expm1}, {"log", log}, {"log2", log2}, {"log10", log10}, {"log1p", log1p}, {"cbrt", cbrt}};
    for (auto& x : t) if (!strcmp(x.n, n)) return x.f;
    return 0;
}
int main(int c, char** v) {
    if (c < 8) return 2;
    void* h = dlopen(v[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    GET g = (GET)dlsym(h, "GetTrigOpFast");
    if (!g) return 2;
    int t = 12; K k = g(atoi(v[2]), 12, &t); D f = byname(v[3]);
    if (!k || !f || t != 12) { printf("none\n"); return 0; }
    uint64_t first = strtoull(v[4], 0, 10), cnt = strtoull(v[5], 0, 10), step = strtoull(v[7], 0, 10); double lim = atof(v[6]);
    const int B = 4096;
    std::vector<float> in(B), o(B), s(2*B), si(2*B); std::vector<double> R(B);
    void (*many)(const float*, double*, int) = f == (D)sin ? ref_sin : f == (D)cos ? ref_cos : f == (D)exp ? ref_exp : f == (D)log ? ref_log : 0;
    double mx = 0; uint32_t at = 0; int bad = 0; const char* where = "";
    uint64_t done = 0;
    for (uint64_t p = first; p < first + cnt; p += B*step) {
        int n = 0;
        for (uint64_t q = p; q < first + cnt && n < B; q += step) { uint32_t b = (uint32_t)q; memcpy(&in[n], &b, 4); si[2*n] = in[n]; n++; }
        // whole vectors (the last values once more at the front so that every value is in a full vector)
        int m = n; while (m % 8) { in[m] = in[0]; m++; }
        k(&in[0], &o[0], m, 4, 4);
        k(&si[0], &s[0], n, 8, 8);
        done += n;
        if (many) many(&in[0], &R[0], n); else for (int i = 0; i < n; i++) R[i] = f((double)in[i]);
        for (int i = 0; i < n; i++) {
            double r = R[i];
            for (int w = 0; w < 2; w++) {
                float y = w ? s[2*i] : o[i]; double e, a = std::fabs(r);
                if (a >= 0x1p-126 && a < 0x1p+127 && std::fabs(y) < 0x1p+127) {
                    uint64_t b; memcpy(&b, &r, 8); b = (2069 - (b >> 52 & 2047)) << 52; double inv; memcpy(&inv, &b, 8);
                    e = std::fabs((double)y - r)*inv;
                    if (e <= mx) continue;
                }
                else
                if (r != r) e = y != y ? 0 : INFINITY;
                else if (y != y) e = INFINITY;
                else if (std::isinf(r)) e = (double)y == r ? 0 : INFINITY;
                else if (r == 0) e = y == 0 && std::signbit(y) == std::signbit(r) ? 0 : INFINITY;
                else {
                    double yy = std::isinf(y) ? std::copysign(ldexp(1.0, 128), (double)y) : (double)y;
                    int x; frexp(r, &x); if (x > 128) { x = 128; r = std::copysign(ldexp(1.0, 128), r); }
                    e = std::fabs(yy - r) / ldexp(1.0, x - 24 < -149 ? -149 : x - 24);
                }
                if (e > mx) { mx = e; memcpy(&at, &in[i], 4); where = w ? "scalar" : "vector"; }
                if (!(e <= lim) && bad < 5) { uint32_t b; memcpy(&b, &in[i], 4); bad++; printf("bad %u %.9g got %.9g want %.9g ulp %.3g %s\n", b, in[i], y, r, e, w ? "scalar" : "vector"); }
            }
        }
    }
    uint32_t b = at; float a; memcpy(&a, &b, 4);
    printf("max %.4g at %.9g %s n %llu\n", mx, a, where, (unsigned long long)done);
    return 0;
}
