// The environment of the code under test: clock and message digest.
#include <openssl/md5.h>
#include <sys/time.h>
#include <time.h>
#include <cstdlib>
#include "sx.h"
extern "C" {
void* sx_hidden_malloc(size_t n);   // not subject to leak and race checks

// ---- clock: microseconds, owned by the harness
struct EnvState { int64_t now; int nint; struct Blob { int len; unsigned char* d; } pool[256]; };
static EnvState* env;
__attribute__((constructor(105))) static void env_init() { env = (EnvState*)sx_hidden_malloc(sizeof(EnvState)); memset(env, 0, sizeof *env); }
void sx_set_clock(int64_t us) { env->now = us; }
int64_t sx_clock() { return env->now; }
int gettimeofday(struct timeval* tv, void*) noexcept { int64_t t = env->now; int64_t s = t / 1000000; tv->tv_sec = s; tv->tv_usec = t - s * 1000000; return 0; }
int clock_gettime(clockid_t, struct timespec* ts) noexcept { int64_t t = env->now; ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
time_t time(time_t* p) noexcept { time_t v = env->now / 1000000; if (p) *p = v; return v; }
int64_t m_sysnow() asm("_ZNSt6chrono3_V212system_clock3nowEv");
int64_t m_sysnow() { return env->now * 1000; }
int64_t m_stnow() asm("_ZNSt6chrono3_V212steady_clock3nowEv");
int64_t m_stnow() { return env->now * 1000; }

// ---- digest: an injective function of the bytes fed in (equal bytes, equal
// digest; different bytes, different digest), which is what the callers rely on.
struct Ctx { unsigned char* buf; int len, cap, magic; };
static_assert(sizeof(Ctx) <= sizeof(MD5_CTX), "ctx");
int MD5_Init(MD5_CTX* p) { Ctx* c = (Ctx*)p; c->cap = 64; c->buf = (unsigned char*)sx_hidden_malloc(c->cap); c->len = 0; c->magic = 0x3d5; return 1; }
int MD5_Update(MD5_CTX* p, const void* d, size_t n) {
  Ctx* c = (Ctx*)p;
  if (c->magic != 0x3d5) sx_violation("digest", "MD5_Update on a digest that was never initialised or is already final");
  if (c->len + (long)n > c->cap) { int k = (c->len + (int)n) * 2; unsigned char* b = (unsigned char*)sx_hidden_malloc(k); memcpy(b, c->buf, c->len); c->buf = b; c->cap = k; }
  if (n) memcpy(c->buf + c->len, d, n);
  c->len += (int)n;
  return 1;
}
int MD5_Final(unsigned char* md, MD5_CTX* p) {
  Ctx* c = (Ctx*)p;
  if (c->magic != 0x3d5) sx_violation("digest", "MD5_Final on a digest that was never initialised or is already final");
  c->magic = 0;
  int id = -1;
  for (int k = 0; k < env->nint; k++) {
    EnvState::Blob& b = env->pool[k];
    if (b.len != c->len) continue;
    unsigned diff = 0;
    for (int i = 0; i < b.len; i++) diff |= (unsigned)(b.d[i] ^ c->buf[i]);
    if (diff == 0) { id = k; break; }
  }
  if (id < 0) {
    if (env->nint >= 256) sx_unsupported("more than 256 different digests on one path");
    id = env->nint++; env->pool[id].len = c->len; env->pool[id].d = c->buf;
  }
  for (int i = 0; i < 16; i++) md[i] = (unsigned char)(0x11 + i * 37 + id * (i == 15 ? 1 : i == 3 ? 101 : 13));
  return 1;
}
unsigned char* MD5(const unsigned char* d, size_t n, unsigned char* md) { MD5_CTX c; MD5_Init(&c); MD5_Update(&c, d, n); MD5_Final(md, &c); return md; }

// ---- libm: exact on concrete arguments; on symbolic ones a contract:
// log2/log/log10 are monotone and take the library's value at the points the
// harness has listed.
double sx_native_math(int which, double x, double y);
struct Points { int n; double p[96]; };
static Points pts;
void sx_math_point(double p) { if (pts.n >= 96) sx_unsupported("too many points"); pts.p[pts.n++] = p; }
int64_t sx_sym_(const char* name, int bits, int64_t lo, int64_t hi);
static bool symd(double x) { int64_t b; memcpy(&b, &x, 8); return sx_is_symbolic(b); }
static double contract(int which, double x) {
  if (!symd(x)) return sx_native_math(which, x, 0);
  if (x != x || x < 0) return __builtin_nan("");
  if (x == 0) return -__builtin_inf();
  if (x == __builtin_inf()) return x;
  double y = sx_double("@log");
  bool ok = y > -1100 && y < 1100;
  for (int i = 0; i < pts.n; i++) {
    double p = pts.p[i], l = sx_native_math(which, p, 0);
    ok = ok & (!(x >= p) | (y >= l)) & (!(x <= p) | (y <= l));
  }
  sx_assume(ok);
  return y;
}
double m_log2(double) asm("log2"); double m_log2(double x) { return contract(0, x); }
double m_log(double) asm("log"); double m_log(double x) { return contract(1, x); }
double m_log10(double) asm("log10"); double m_log10(double x) { return contract(2, x); }
static double conc(int w, double x, double y) { if (symd(x) | symd(y)) sx_unsupported("libm function of a symbolic value"); return sx_native_math(w, x, y); }
double m_pow(double, double) asm("pow"); double m_pow(double x, double y) { return conc(3, x, y); }
double m_exp(double) asm("exp"); double m_exp(double x) { return conc(4, x, 0); }
double m_exp2(double) asm("exp2"); double m_exp2(double x) { return conc(6, x, 0); }
double m_fmod(double, double) asm("fmod"); double m_fmod(double x, double y) { return conc(7, x, y); }
double m_log1p(double) asm("log1p"); double m_log1p(double x) { return conc(9, x, 0); }
double m_ldexp(double, int) asm("ldexp"); double m_ldexp(double x, int e) {
  if (sx_is_symbolic(e) | (e < -1022) | (e > 1023)) sx_unsupported("ldexp with this exponent");
  int64_t b = (int64_t)(e + 1023) << 52; double p; memcpy(&p, &b, 8); return x * p;   // one rounding, as in ldexp
}
long m_lround(double) asm("lround"); long m_lround(double x) { return (long)__builtin_round(x); }
long m_lrint(double) asm("lrint"); long m_lrint(double x) { return (long)__builtin_rint(x); }
long long m_llround(double) asm("llround"); long long m_llround(double x) { return (long long)__builtin_round(x); }
long long m_llrint(double) asm("llrint"); long long m_llrint(double x) { return (long long)__builtin_rint(x); }
static int the_errno;
int* m_errno() asm("__errno_location"); int* m_errno() { return &the_errno; }
double m_nextafter(double, double) asm("nextafter"); double m_nextafter(double x, double y) { return conc(10, x, y); }
}
