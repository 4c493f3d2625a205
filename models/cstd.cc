// Models of C library functions that exist only as compiled code: strings,
// characters, number parsing; output goes nowhere.
#define SX_MODEL
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <new>
#include <ostream>
#include "sx.h"

extern "C" {
typedef unsigned char U;
int m_strncmp(const char*, const char*, size_t) asm("strncmp");
int m_strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (U)*a < (U)*b ? -1 : 1; if (!*a) break; } return 0; }
char* m_strcpy(char*, const char*) asm("strcpy");
char* m_strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* m_stpcpy(char*, const char*) asm("stpcpy");
char* m_stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* m_strncpy(char*, const char*, size_t) asm("strncpy");
char* m_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* m_strcat(char*, const char*) asm("strcat");
char* m_strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
const char* m_strchr(const char*, int) asm("strchr");
const char* m_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return 0; } }
const char* m_strrchr(const char*, int) asm("strrchr");
const char* m_strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return r; } }
const char* m_strstr(const char*, const char*) asm("strstr");
const char* m_strstr(const char* s, const char* t) { for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return s; if (!*s) return 0; } }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int m_tolower(int) asm("tolower"); int m_tolower(int c) { return low(c); }
int m_toupper(int) asm("toupper"); int m_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int m_isdigit(int) asm("isdigit"); int m_isdigit(int c) { return c >= '0' && c <= '9'; }
int m_isupper(int) asm("isupper"); int m_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int m_islower(int) asm("islower"); int m_islower(int c) { return c >= 'a' && c <= 'z'; }
int m_isalpha(int) asm("isalpha"); int m_isalpha(int c) { int d = low(c); return d >= 'a' && d <= 'z'; }
int m_isalnum(int) asm("isalnum"); int m_isalnum(int c) { int d = low(c); return (d >= 'a' && d <= 'z') || (c >= '0' && c <= '9'); }
int m_isspace(int) asm("isspace"); int m_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int m_isprint(int) asm("isprint"); int m_isprint(int c) { return c >= 32 && c < 127; }
int m_isxdigit(int) asm("isxdigit"); int m_isxdigit(int c) { int d = low(c); return (c >= '0' && c <= '9') || (d >= 'a' && d <= 'f'); }
int m_strcasecmp(const char*, const char*) asm("strcasecmp");
int m_strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = low((U)*a), y = low((U)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int m_strncasecmp(const char*, const char*, size_t) asm("strncasecmp");
int m_strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = low((U)*a), y = low((U)*b); if (x != y) return x < y ? -1 : 1; if (!x) break; } return 0; }

static unsigned long parse(const char* s, char** end, int base, bool* neg, bool* over) {
  const char* p = s; *neg = *over = false;
  while (m_isspace((U)*p)) p++;
  if (*p == '-' || *p == '+') *neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && m_isxdigit((U)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false;
  for (;; p++) {
    int c = low((U)*p), d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    unsigned __int128 w = (unsigned __int128)v * base + d;
    if (w >> 64) *over = true;
    v = (unsigned long)w;
  }
  if (end) *end = (char*)(any ? p : s);
  return v;
}
int* m_errno_() asm("__errno_location");
long m_strtol(const char*, char**, int) asm("strtol");
long m_strtol(const char* s, char** e, int b) {
  bool neg, over; unsigned long v = parse(s, e, b, &neg, &over);
  if (over || v > (unsigned long)INT64_MAX + neg) { *m_errno_() = 34; return neg ? INT64_MIN : INT64_MAX; }
  return neg ? (long)(0ul - v) : (long)v;
}
unsigned long m_strtoul(const char*, char**, int) asm("strtoul");
unsigned long m_strtoul(const char* s, char** e, int b) {
  bool neg, over; unsigned long v = parse(s, e, b, &neg, &over);
  if (over) { *m_errno_() = 34; return ~0ul; }
  return neg ? 0ul - v : v;
}
#define ALIAS(name, of, R) R m_##name(const char*, char**, int) asm(#name); R m_##name(const char* s, char** e, int b) { return of(s, e, b); }
ALIAS(strtoll, m_strtol, long) ALIAS(__isoc23_strtol, m_strtol, long) ALIAS(__isoc23_strtoll, m_strtol, long)
ALIAS(strtoull, m_strtoul, unsigned long) ALIAS(__isoc23_strtoul, m_strtoul, unsigned long) ALIAS(__isoc23_strtoull, m_strtoul, unsigned long)
int m_atoi(const char*) asm("atoi"); int m_atoi(const char* s) { return (int)m_strtol(s, 0, 10); }
long m_atol(const char*) asm("atol"); long m_atol(const char* s) { return m_strtol(s, 0, 10); }

char* m_getenv(const char*) asm("getenv"); char* m_getenv(const char*) { return 0; }
int m_fputc(int, FILE*) asm("fputc"); int m_fputc(int c, FILE*) { return (U)c; }
int m_putc(int, FILE*) asm("putc"); int m_putc(int c, FILE*) { return (U)c; }
int m_putchar(int) asm("putchar"); int m_putchar(int c) { return (U)c; }
int m_fputs(const char*, FILE*) asm("fputs"); int m_fputs(const char*, FILE*) { return 1; }
size_t m_fwrite(const void*, size_t, size_t, FILE*) asm("fwrite"); size_t m_fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int m_fflush(FILE*) asm("fflush"); int m_fflush(FILE*) { return 0; }
void m_perror(const char*) asm("perror"); void m_perror(const char*) {}

double m_frexp(double, int*) asm("frexp");
double m_frexp(double x, int* e) {
  int64_t b; memcpy(&b, &x, 8);
  int ex = (int)(b >> 52) & 2047;
  *e = 0;
  if (x == 0 || ex == 2047) return x;
  int sub = 0;
  if (ex == 0) { x *= 0x1p54; memcpy(&b, &x, 8); ex = (int)(b >> 52) & 2047; sub = 54; }
  *e = ex - 1022 - sub;
  b = (b & ~(2047ll << 52)) | (1022ll << 52); memcpy(&x, &b, 8);
  return x;
}
int m_ilogb(double) asm("ilogb");
int m_ilogb(double x) { int e; if (x == 0 || x != x) return INT32_MIN; m_frexp(x, &e); int64_t b; memcpy(&b, &x, 8); return ((b >> 52) & 2047) == 2047 ? INT32_MAX : e - 1; }
double m_logb(double) asm("logb");
double m_logb(double x) { if (x == 0) return -__builtin_inf(); if (x != x) return x; int i = m_ilogb(x); return i == INT32_MAX ? __builtin_inf() : i; }
double m_modf(double, double*) asm("modf");
double m_modf(double x, double* ip) { double t = __builtin_trunc(x); *ip = t; return __builtin_copysign(x - t == x - t ? x - t : 0.0, x); }
}

// Standard streams without a buffer: they swallow what they are given.
extern "C" {
alignas(16) char m_cout[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(16) char m_cerr[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(16) char m_clog[sizeof(std::ostream)] asm("_ZSt4clog");
}
__attribute__((constructor(104))) static void streams_init() {
  new (m_cout) std::ostream(nullptr); new (m_cerr) std::ostream(nullptr); new (m_clog) std::ostream(nullptr);
}
