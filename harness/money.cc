// C19, C20: money arithmetic over all 64-bit units and 32-bit nanos.
#include "common.h"
#include "src/money_utils.h"
using namespace google::service_control_client;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::type::Money;
static const int64_t kE9 = 1000000000;

static void make(Money* m, const char* cur, const char* nu, const char* nn) {
  m->set_currency_code(cur);
  m->set_units(sx_i64(nu));
  m->set_nanos(sx_i32(nn));
}
static bool valid(const Money& m) {
  return (m.nanos() > -kE9) & (m.nanos() < kE9) & !((m.units() > 0) & (m.nanos() < 0)) & !((m.units() < 0) & (m.nanos() > 0));
}
// The mathematical sum, in canonical form over 128 bits.
static void exact(const Money& a, const Money& b, __int128* u, int64_t* n) {
  __int128 tu = (__int128)a.units() + b.units();
  int64_t tn = (int64_t)a.nanos() + b.nanos();
  if (tn >= kE9) { tu += 1; tn -= kE9; } else if (tn <= -kE9) { tu -= 1; tn += kE9; }
  if (tu > 0 && tn < 0) { tu -= 1; tn += kE9; } else if (tu < 0 && tn > 0) { tu += 1; tn -= kE9; }
  *u = tu; *n = tn;
}

SX_ENTRY(h_money_add) {
  int same = sx_choose("cur", 3);
  Money a, b, sum;
  make(&a, "USD", "au", "an"); make(&b, same == 0 ? "USD" : same == 1 ? "EUR" : "US", "bu", "bn");
  sx_assume(valid(a)); sx_assume(valid(b));
  sum.set_units(77); sum.set_nanos(5); sum.set_currency_code("XYZ");
  Status st = TryAddMoney(a, b, &sum);
  sx_obs((int)st.code()); sx_obs(sum.units()); sx_obs(sum.nanos()); sx_obs(sum.currency_code().size());
  if (same != 0) {
    sx_assert(st.code() == StatusCode::kInvalidArgument, "different currencies are an invalid argument");
    sx_assert(sum.currency_code().empty() && sum.units() == 0 && sum.nanos() == 0, "result is cleared when currencies differ");
    sx_cover("mismatch");
    return;
  }
  sx_assert(sum.currency_code() == "USD", "the sum has the currency of the amounts");
  __int128 tu; int64_t tn;
  exact(a, b, &tu, &tn);
  if (tu > INT64_MAX) {
    sx_assert(st.code() == StatusCode::kOutOfRange, "positive overflow is reported");
    sx_assert(sum.units() == INT64_MAX && sum.nanos() == kE9 - 1, "positive overflow gives the largest amount");
    sx_cover("positive-overflow");
  } else if (tu < INT64_MIN) {
    sx_assert(st.code() == StatusCode::kOutOfRange, "negative overflow is reported");
    sx_assert(sum.units() == INT64_MIN && sum.nanos() == -kE9 + 1, "negative overflow gives the smallest amount");
    sx_cover("negative-overflow");
  } else {
    sx_assert(st.ok(), "a representable sum is accepted");
    sx_assert(sum.units() == (int64_t)tu && sum.nanos() == tn, "the sum is exact");
    sx_assert(valid(sum), "the sum is a valid amount");
    sx_assert(ValidateMoney(sum).ok(), "the sum validates");
    sx_cover("exact");
  }
}

SX_ENTRY(h_money_saturated) {
  Money a, b;
  make(&a, "JPY", "au", "an"); make(&b, "JPY", "bu", "bn");
  sx_assume(valid(a)); sx_assume(valid(b));
  Money s = sx_choose("swap", 2) ? SaturatedAddMoney(b, a) : SaturatedAddMoney(a, b);

  sx_obs(s.units()); sx_obs(s.nanos());
  __int128 tu; int64_t tn;
  exact(a, b, &tu, &tn);
  int64_t u = tu > INT64_MAX ? INT64_MAX : tu < INT64_MIN ? INT64_MIN : (int64_t)tu;
  int64_t n = tu > INT64_MAX ? kE9 - 1 : tu < INT64_MIN ? -kE9 + 1 : tn;
  sx_assert(s.units() == u && s.nanos() == n, "saturated sum is the exact or the extreme amount");
  sx_assert(s.currency_code() == "JPY", "saturated sum keeps the currency");
  sx_cover("saturated");
}

SX_ENTRY(h_money_validate) {
  Money m;
  int len = sx_choose("len", 6);
  m.set_currency_code(sx_bytes("cc", len));
  m.set_units(sx_i64("u")); m.set_nanos(sx_i32("n"));
  Status st = ValidateMoney(m);
  bool ok = len == 3 && valid(m);
  sx_obs((int)st.code());
  sx_assert(st.ok() == ok, "validation accepts exactly the valid amounts");
  sx_assert(st.ok() || st.code() == StatusCode::kInvalidArgument, "rejection is an invalid argument");
  if (st.ok()) sx_cover("accepted"); else sx_cover("rejected");
  if (valid(m)) {
    int sg = GetAmountSign(m);
    int want = (m.units() > 0 || (m.units() == 0 && m.nanos() > 0)) ? 1 : (m.units() == 0 && m.nanos() == 0) ? 0 : -1;
    sx_obs(sg);
    sx_assert(sg == want, "the sign is the sign of the value");
    if (want > 0) sx_cover("positive"); else if (want < 0) sx_cover("negative"); else sx_cover("zero");
  }
}
