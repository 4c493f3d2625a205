// Model of string streams and printf-style formatting.  Numbers that are
// symbolic are rendered as "?", except bytes as two hexadecimal digits; only
// diagnostics are built that way in /repo.
#define SX_MODEL
#include <cstdarg>
#include <cstdio>
#include <iomanip>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include "sx.h"

template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template std::ostream& std::endl(std::ostream&);
template std::ostream& std::ends(std::ostream&);
template std::ostream& std::flush(std::ostream&);
template std::ostream& std::operator<<(std::ostream&, std::_Setfill<char>);
template std::ostream& std::operator<<(std::ostream&, std::_Setw);
template std::ostream& std::operator<<(std::ostream&, std::_Setprecision);
template std::ostream& std::operator<<(std::ostream&, std::_Setbase);
template std::ostream& std::operator<<(std::ostream&, char);
template std::ostream& std::operator<<(std::ostream&, unsigned char);
template std::ostream& std::operator<<(std::ostream&, const char*);
template std::ostream& std::operator<<(std::ostream&, const std::string&);

// ---- ios_base, locale: compiled-only pieces, replaced by name
typedef std::ios_base IB;
typedef std::locale LC;
extern "C" {
void m_ios_ctor(IB*) asm("_ZNSt8ios_baseC2Ev");
void m_ios_ctor(IB* p) { p->_M_precision = 6; p->_M_width = 0; p->_M_flags = IB::skipws | IB::dec; p->_M_exception = IB::goodbit; p->_M_streambuf_state = IB::goodbit; }
void m_ios_dtor(IB*) asm("_ZNSt8ios_baseD2Ev");
void m_ios_dtor(IB*) {}
void m_loc_ctor(LC*) asm("_ZNSt6localeC1Ev");
void m_loc_ctor(LC*) {}
void m_loc_cctor(LC*, const LC*) asm("_ZNSt6localeC1ERKS_");
void m_loc_cctor(LC*, const LC*) {}
void m_loc_dtor(LC*) asm("_ZNSt6localeD1Ev");
void m_loc_dtor(LC*) {}
LC* m_loc_asg(LC* l, const LC*) asm("_ZNSt6localeaSERKS_");
LC* m_loc_asg(LC* l, const LC*) { return l; }
void m_init1(void*) asm("_ZNSt8ios_base4InitC1Ev");
void m_init1(void*) {}
void m_init2(void*) asm("_ZNSt8ios_base4InitD1Ev");
void m_init2(void*) {}
typedef std::basic_ios<char> BI;
typedef std::basic_streambuf<char> SB;
typedef std::basic_ostream<char> OS;
alignas(16) static char ctype_buf[sizeof(std::ctype<char>)];
void m_bios_init(BI*, SB*) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void m_bios_init(BI* b, SB* s) {
  std::ctype<char>* c = (std::ctype<char>*)ctype_buf;
  if (!c->_M_widen_ok) { c->_M_widen_ok = 1; for (int i = 0; i < 256; i++) c->_M_widen[i] = (char)i; }
  b->_M_ctype = c; b->_M_num_put = 0; b->_M_num_get = 0; b->_M_fill = 0; b->_M_fill_init = false; b->_M_tie = 0;
  b->_M_exception = IB::goodbit; b->_M_streambuf = s; b->_M_streambuf_state = s ? IB::goodbit : IB::badbit;
}
void m_bios_clear(BI*, std::_Ios_Iostate) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
void m_bios_clear(BI* b, std::_Ios_Iostate s) { b->_M_streambuf_state = s; }
}

// Streams without a constructor run by us (cout, cerr) swallow their output.
static void put(OS* o, const char* s, long n) {
  if (*(void**)o == nullptr) return;
  SB* b = o->rdbuf();
  long pad = o->width() > n ? o->width() - n : 0;
  bool left = (o->flags() & IB::adjustfield) == IB::left;
  o->width(0);
  if (!b) return;
  if (!left) for (long i = 0; i < pad; i++) b->sputc(o->fill());
  b->sputn(s, n);
  if (left) for (long i = 0; i < pad; i++) b->sputc(o->fill());
}
static int fmt_num(char* out, unsigned long v, bool neg, int base, bool upper) {
  char t[32]; int n = 0, k = 0;
  do { int d = v % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v);
  if (neg) out[k++] = '-';
  while (n) out[k++] = t[--n];
  return k;
}
// The value is rendered in the stream's base; a symbolic one only when it is a
// byte in hexadecimal with a field of two (the digest's form), else as "?".
static OS* put_num(OS* o, unsigned long v, bool neg, unsigned long wide) {
  char buf[40];
  bool plain = *(void**)o != nullptr;
  IB::fmtflags bf = plain ? o->flags() & IB::basefield : IB::dec;
  bool up = plain && (o->flags() & IB::uppercase);
  if (plain && (o->flags() & (IB::showbase | IB::showpos))) sx_unsupported("showbase or showpos");
  if (sx_is_symbolic((long)v)) {
    if (bf == IB::hex && o->width() == 2 && o->fill() == '0') {
      sx_assert_(wide < 256, "a value wider than a byte in a field of two hexadecimal digits");
      char al = up ? 'A' - 10 : 'a' - 10;
      int h = (wide >> 4) & 15, l = wide & 15;
      buf[0] = (char)(h + (h < 10 ? '0' : al)); buf[1] = (char)(l + (l < 10 ? '0' : al));
      put(o, buf, 2);
    } else {
      put(o, "?", 1);
    }
    return o;
  }
  if (bf == IB::hex || bf == IB::oct) put(o, buf, fmt_num(buf, wide, false, bf == IB::hex ? 16 : 8, up));
  else put(o, buf, fmt_num(buf, v, neg, 10, false));
  return o;
}
static OS* put_long(OS* o, long v) {
  if (sx_is_symbolic(v)) return put_num(o, (unsigned long)v, false, (unsigned long)v);
  return put_num(o, v < 0 ? 0ul - (unsigned long)v : v, v < 0, (unsigned long)v);
}
extern "C" {
OS* m_oins(OS*, const char*, long) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
OS* m_oins(OS* o, const char* s, long n) { put(o, s, n); return o; }
OS* m_il(OS*, long) asm("_ZNSo9_M_insertIlEERSoT_");
OS* m_il(OS* o, long v) { return put_long(o, v); }
OS* m_ix(OS*, long long) asm("_ZNSo9_M_insertIxEERSoT_");
OS* m_ix(OS* o, long long v) { return put_long(o, v); }
OS* m_im(OS*, unsigned long) asm("_ZNSo9_M_insertImEERSoT_");
OS* m_im(OS* o, unsigned long v) { return put_num(o, v, false, v); }
OS* m_iy(OS*, unsigned long long) asm("_ZNSo9_M_insertIyEERSoT_");
OS* m_iy(OS* o, unsigned long long v) { return put_num(o, v, false, v); }
OS* m_ib(OS*, bool) asm("_ZNSo9_M_insertIbEERSoT_");
OS* m_ib(OS* o, bool v) { return put_long(o, v); }
OS* m_id(OS*, double) asm("_ZNSo9_M_insertIdEERSoT_");
OS* m_id(OS* o, double v) { put(o, "?", 1); return o; }
OS* m_ip(OS*, const void*) asm("_ZNSo9_M_insertIPKvEERSoT_");
OS* m_ip(OS* o, const void* v) { put(o, "?", 1); return o; }
}

// ---- printf family
static int vfmt(char* out, size_t cap, const char* f, va_list ap) {
  size_t n = 0;
  auto emit = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
  for (; *f; f++) {
    if (*f != '%') { emit(*f); continue; }
    f++;
    bool zero = false, left = false; int width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else break; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { prec = 0; f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng++; f++; }
    if (*f == '%') { emit('%'); continue; }
    if (*f == 'c') { emit((char)va_arg(ap, int)); continue; }
    if (*f == 's') { const char* s = va_arg(ap, const char*); for (int i = 0; s[i] && (prec < 0 || i < prec); i++) emit(s[i]); continue; }
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
      bool sg = *f == 'd' || *f == 'i';
      long v = lng ? va_arg(ap, long) : sg ? (long)va_arg(ap, int) : (long)va_arg(ap, unsigned);
      if (sx_is_symbolic(v)) {
        if ((*f == 'x' || *f == 'X') && zero && width == 2) {   // a byte: two hex digits
          sx_assert_((unsigned long)v < 256, "%02x of a value wider than a byte");
          char al = *f == 'x' ? 'a' - 10 : 'A' - 10;
          int h = (v >> 4) & 15, l = v & 15;
          emit((char)(h + (h < 10 ? '0' : al))); emit((char)(l + (l < 10 ? '0' : al)));
          continue;
        }
        emit('?');
        continue;
      }
      char t[40];
      int k = fmt_num(t, sg && v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, sg && v < 0, *f == 'x' || *f == 'X' ? 16 : 10, *f == 'X');
      if (!left) for (int i = k; i < width; i++) emit(zero ? '0' : ' ');
      for (int i = 0; i < k; i++) emit(t[i]);
      if (left) for (int i = k; i < width; i++) emit(' ');
      continue;
    }
    if (*f == 'f' || *f == 'g' || *f == 'e') { va_arg(ap, double); emit('?'); continue; }
    sx_unsupported("printf conversion");
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
#undef sprintf
#undef snprintf
#undef vsnprintf
extern "C" {
int m_sprintf(char* o, const char* f, ...) asm("sprintf");
int m_sprintf(char* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfmt(o, 1 << 20, f, ap); va_end(ap); return r; }
int m_snprintf(char* o, size_t n, const char* f, ...) asm("snprintf");
int m_snprintf(char* o, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfmt(o, n, f, ap); va_end(ap); return r; }
int m_vsnprintf(char* o, size_t n, const char* f, va_list ap) asm("vsnprintf");
int m_vsnprintf(char* o, size_t n, const char* f, va_list ap) { return vfmt(o, n, f, ap); }
int m_printf(const char* f, ...) asm("printf");
int m_printf(const char* f, ...) { return 0; }
int m_fprintf(FILE*, const char* f, ...) asm("fprintf");
int m_fprintf(FILE*, const char* f, ...) { return 0; }
int m_puts(const char*) asm("puts");
int m_puts(const char*) { return 0; }
}
