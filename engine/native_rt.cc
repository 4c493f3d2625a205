// Native runtime: runs a harness entry against the real build with the values
// (and the thread schedule) of one symbolic path.  Compiled without sanitizers.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "sx.h"
#define NOSAN __attribute__((no_sanitize("all")))
extern "C" {
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
}
struct Item { std::string name; int64_t v; };
static std::vector<Item> items;
static std::vector<int> schedv;
static size_t pos = 0;
static int case_no = 0;
static std::string obs = "";
static size_t heap_mark = 0;
static volatile int nthreads = 1;
static FILE* res = nullptr;
static __thread int my_tid = 0;
#ifdef SX_TSAN
static const bool kGateAtomics = true;
#else
static const bool kGateAtomics = false;   // stores to atomics are gated in the TSan build only
#endif

static std::string esc(const char* s) { std::string r; for (; *s; s++) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((unsigned char)*s < 32) r += ' '; else r += *s; } return r; }
static void finish(const char* status, const char* kind, const char* msg, int code) {
  static int once = 0;
  if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) for (;;) pause();
  fprintf(res, "{\"status\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"used\":%zu,\"items\":%zu,\"obs\":[%s]}\n", status, kind, esc(msg).c_str(), pos, items.size(), obs.c_str());
  fflush(res);
  _exit(code);
}
static int64_t next(const char* name) {
  while (pos < items.size() && items[pos].name[0] == '@') pos++;
  if (pos >= items.size()) finish("mismatch", "replay", (std::string("no recorded value left for ") + name).c_str(), 3);
  if (items[pos].name != name) finish("mismatch", "replay", ("recorded value is for " + items[pos].name + ", asked for " + name).c_str(), 3);
  return items[pos++].v;
}
extern "C" {
int64_t sx_sym_(const char* name, int bits, int64_t lo, int64_t hi) { return next(name); }
int sx_choose(const char* name, int n) { if (n <= 1) return 0; return (int)next(name); }
void sx_assume_(bool c) { if (!c) finish("assume", "assume", "an assumption is false natively", 4); }
void sx_assert_(bool c, const char* msg) { if (!c) finish("violation", "assert", msg, 5); }
void sx_cover(const char*) {}
void sx_obs_(int64_t v) { if (!obs.empty()) obs += ","; obs += std::to_string(v); }
int64_t sx_heap_live() { return 0; }
void sx_heap_mark() { if (__sanitizer_get_current_allocated_bytes) heap_mark = __sanitizer_get_current_allocated_bytes(); }
void sx_check_leaks() {
  if (!__sanitizer_get_current_allocated_bytes) return;
  size_t n = __sanitizer_get_current_allocated_bytes();
  if (nthreads > 1) heap_mark += 1024 * nthreads;   // thread descriptors kept by the C library
  if (n > heap_mark) { char b[80]; snprintf(b, sizeof b, "%zu bytes still allocated", n - heap_mark); finish("violation", "leak", b, 5); }
}
int64_t sx_concrete(int64_t v) { return v; }
bool sx_is_symbolic(int64_t) { return false; }
bool sx_symbolic_mode() { return false; }
int sx_case() { return case_no; }
int sx_tid() { return my_tid; }
void sx_fail(const char* m) { finish("violation", "fail", m, 5); abort(); }
void sx_unsupported(const char* m) { finish("mismatch", "unsupported", m, 3); abort(); }
void sx_violation(const char* k, const char* m) { finish("violation", k, m, 5); abort(); }
void sx_print(const char* name, int64_t v) { if (getenv("SX_PRINT")) fprintf(stderr, "  [print] %s = %ld\n", name, (long)v); }

// ---- environment: the clock belongs to the harness
static int64_t env_now_us = 0;
void sx_set_clock(int64_t us) { __atomic_store_n(&env_now_us, us, __ATOMIC_RELAXED); }
int64_t sx_clock() { return __atomic_load_n(&env_now_us, __ATOMIC_RELAXED); }
int sx_hash_mode = 0;
void sx_math_point(double) {}
static int64_t rd() { return sx_clock(); }
static bool in_run = false;
int gettimeofday(struct timeval* tv, void*) noexcept { int64_t t = rd(); int64_t s = t / 1000000; tv->tv_sec = s; tv->tv_usec = t - s * 1000000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec* ts) { int64_t t = rd(); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return rd() * 1000; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return rd() * 1000; }
time_t __wrap_time(time_t* t) { time_t v = rd() / 1000000; if (t) *t = v; return v; }

// ---- schedule gating
static volatile int gating = 0, token = 0;   // token: thread that runs, -1 none
static volatile size_t schedpos = 0;
static __thread int granted = 0;
static int peek() { return __atomic_load_n(&schedpos, __ATOMIC_RELAXED) < schedv.size() ? schedv[__atomic_load_n(&schedpos, __ATOMIC_RELAXED)] : -2; }
static void release_token() { int me = my_tid; __atomic_compare_exchange_n((int*)&token, &me, -1, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); }
static bool wait_turn() {
  for (;;) {
    int nx = peek();
    if (nx == -2) return false;    // schedule used up: run freely
    int free_ = -1;
    if (nx == my_tid && __atomic_compare_exchange_n((int*)&token, &free_, my_tid, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
    if (nx == my_tid && __atomic_load_n((int*)&token, __ATOMIC_RELAXED) == my_tid) return true;
    usleep(50);
  }
}
static void gate() {
  if (!gating) return;
  if (granted) { granted = 0; __atomic_fetch_add(&schedpos, 1, __ATOMIC_RELAXED); return; }
  release_token();
  if (wait_turn()) __atomic_fetch_add(&schedpos, 1, __ATOMIC_RELAXED);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { gate(); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { gate(); return __real_pthread_mutex_trylock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { gate(); return __real_pthread_rwlock_rdlock(m); }
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { gate(); return __real_pthread_rwlock_wrlock(m); }
struct Start { void* (*f)(void*); void* a; int id; };
static void* start(void* p) {
  Start s = *(Start*)p;
  my_tid = s.id;
  if (wait_turn()) __atomic_fetch_add(&schedpos, 1, __ATOMIC_RELAXED);
  void* r = s.f(s.a);
  gate();
  release_token();
  return r;
}
static Start starts[8];
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  int id = nthreads++;
  if (!gating) { gating = 1; token = my_tid; }
  starts[id] = {f, arg, id};
  return __real_pthread_create(t, a, start, &starts[id]);
}
int __real_pthread_join(pthread_t, void**);
int __wrap_pthread_join(pthread_t t, void** r) { release_token(); return __real_pthread_join(t, r); }
void sx_yield() { gate(); }
#ifdef SX_TSAN
void __real___tsan_atomic8_store(volatile uint8_t*, uint8_t, int);
void __real___tsan_atomic32_store(volatile uint32_t*, uint32_t, int);
void __real___tsan_atomic64_store(volatile uint64_t*, uint64_t, int);
void __wrap___tsan_atomic8_store(volatile uint8_t* a, uint8_t v, int mo) { if (mo == 5) gate(); __real___tsan_atomic8_store(a, v, mo); }
void __wrap___tsan_atomic32_store(volatile uint32_t* a, uint32_t v, int mo) { if (mo == 5) gate(); __real___tsan_atomic32_store(a, v, mo); }
void __wrap___tsan_atomic64_store(volatile uint64_t* a, uint64_t v, int mo) { if (mo == 5) gate(); __real___tsan_atomic64_store(a, v, mo); }
#endif
#define FW _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
bool CAT(__real_, FW)(void*, unsigned*, unsigned, bool, long, long);
bool CAT(__wrap_, FW)(void* t, unsigned* a, unsigned v, bool b, long x, long y) { if (gating) release_token(); return CAT(__real_, FW)(t, a, v, b, x, y); }
}

static void onalarm(int) { finish("violation", "deadlock", "the run did not end (deadlock or endless loop)", 6); }

static bool run_one(const std::string& entry, int tmo, bool direct) {
  typedef void (*Fn)();
  Fn f = (Fn)dlsym(RTLD_DEFAULT, entry.c_str());
  if (!f) { printf("{\"status\":\"mismatch\",\"kind\":\"no-entry\",\"msg\":\"%s\",\"obs\":[]}\n", entry.c_str()); return false; }
  int rp[2]; if (pipe(rp)) return false;
  FILE* err = tmpfile();
  fflush(stdout);
  pid_t pid = direct ? 0 : fork();
  if (pid == 0) {
    if (!direct) { dup2(fileno(err), 2); }
    res = direct ? stdout : fdopen(rp[1], "w");
    signal(SIGALRM, onalarm); alarm(tmo);
    in_run = true;
    obs.reserve(1 << 18);
    sx_heap_mark();
    f();
    finish("ok", "", "", 0);
  }
  close(rp[1]);
  std::string out; char buf[4096]; ssize_t n;
  while ((n = read(rp[0], buf, sizeof buf)) > 0) out.append(buf, n);
  close(rp[0]);
  int st; waitpid(pid, &st, 0);
  if (out.empty()) {
    fseek(err, 0, SEEK_SET); std::string e; while ((n = fread(buf, 1, sizeof buf, err)) > 0) e.append(buf, n);
    std::string pick;
    size_t p;
    for (const char* k : {"SUMMARY:", "runtime error", "Assertion", "terminate called", "CHECK failed", "ERROR:"}) if ((p = e.find(k)) != std::string::npos) { size_t b = e.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; pick += e.substr(b, e.find('\n', p) - b) + "; "; if (pick.size() > 400) break; }
    char b[100]; snprintf(b, sizeof b, WIFSIGNALED(st) ? "signal %d" : "exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    out = std::string("{\"status\":\"violation\",\"kind\":\"crash\",\"msg\":\"") + b + ": " + esc(pick.c_str()) + "\",\"obs\":[]}\n";
  }
  fclose(err);
  fputs(out.c_str(), stdout); fflush(stdout);
  return true;
}

// Input file: for every run "R entry case nitems nsched", then nitems lines
// "value name", then one line with the schedule.
int main(int argc, char** argv) {
  FILE* in = argc > 1 ? fopen(argv[1], "r") : stdin;
  if (!in) { perror("replay file"); return 2; }
  int tmo = getenv("SX_TIMEOUT") ? atoi(getenv("SX_TIMEOUT")) : 10;
  bool direct = getenv("SX_DIRECT") != nullptr;
  char entry[256]; int c, ni, ns;
  while (fscanf(in, " R %255s %d %d %d", entry, &c, &ni, &ns) == 4) {
    items.clear(); schedv.clear(); pos = 0; obs = ""; case_no = c;
    for (int i = 0; i < ni; i++) { long long v; char nm[256]; if (fscanf(in, "%lld %255s", &v, nm) != 2) return 2; items.push_back({nm, (int64_t)v}); }
    for (int i = 0; i < ns; i++) { int v; if (fscanf(in, "%d", &v) != 1) return 2; if (v < 16) schedv.push_back(v); else if (kGateAtomics) schedv.push_back(v - 16); }
    run_one(entry, tmo, direct);
  }
  return 0;
}
