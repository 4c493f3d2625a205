// Model of the parts of libprotobuf that exist only as compiled code.  The
// generated message classes themselves are compiled from their real sources;
// only the runtime below them is written here (after the 3.21 sources).
#include <google/protobuf/arena.h>
#include <google/protobuf/arenastring.h>
#include <google/protobuf/generated_message_util.h>
#include <google/protobuf/map_field.h>
#include <google/protobuf/map_field_inl.h>
#include <google/protobuf/message.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/stubs/logging.h>
#include <google/protobuf/stubs/status.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/wire_format.h>
#include <google/protobuf/util/time_util.h>
#include "sx.h"

namespace google {
namespace protobuf {
template class RepeatedField<int64_t>;
template class RepeatedField<int32_t>;
template class RepeatedField<double>;
template class RepeatedField<bool>;

namespace internal {
__attribute__((init_priority(101))) ExplicitlyConstructedArenaString fixed_address_empty_string;
static struct EmptyInit { EmptyInit() { fixed_address_empty_string.DefaultConstruct(); } } empty_init __attribute__((init_priority(102)));
void* const kGlobalEmptyTable[kGlobalEmptyTableSize] = {nullptr};

// ---- ArenaStringPtr
static void no_arena(Arena* a) { if (a) sx_unsupported("arena allocation"); }
void ArenaStringPtr::Set(ConstStringParam v, Arena* a) { no_arena(a); if (IsDefault()) NewString(a, v); else UnsafeMutablePointer()->assign(v.data(), v.length()); }
void ArenaStringPtr::Set(std::string&& v, Arena* a) { no_arena(a); if (IsDefault()) NewString(a, std::move(v)); else *UnsafeMutablePointer() = std::move(v); }
std::string* ArenaStringPtr::Mutable(Arena* a) { no_arena(a); if (tagged_ptr_.IsMutable()) return tagged_ptr_.Get(); return NewString(a); }
std::string* ArenaStringPtr::Mutable(const LazyString& d, Arena* a) { no_arena(a); if (tagged_ptr_.IsMutable()) return tagged_ptr_.Get(); return NewString(a, d.get()); }
std::string* ArenaStringPtr::MutableNoCopy(Arena* a) { no_arena(a); if (tagged_ptr_.IsMutable()) return tagged_ptr_.Get(); return NewString(a); }
std::string* ArenaStringPtr::Release() {
  if (IsDefault()) return nullptr;
  std::string* r = tagged_ptr_.Get();
  tagged_ptr_ = TaggedStringPtr(&fixed_address_empty_string);
  return r;
}
void ArenaStringPtr::SetAllocated(std::string* v, Arena* a) {
  no_arena(a); Destroy();
  if (v == nullptr) InitDefault(); else InitAllocated(v, nullptr);
}
void ArenaStringPtr::Destroy() { delete tagged_ptr_.GetIfAllocated(); }
void ArenaStringPtr::ClearToEmpty() { if (!IsDefault()) tagged_ptr_.Get()->clear(); }
void ArenaStringPtr::ClearToDefault(const LazyString& d, Arena* a) { if (!IsDefault()) UnsafeMutablePointer()->assign(d.get()); }

// ---- RepeatedPtrFieldBase
void** RepeatedPtrFieldBase::InternalExtend(int extend) {
  int new_size = current_size_ + extend;
  if (total_size_ >= new_size) return &rep_->elements[current_size_];
  Rep* old = rep_;
  no_arena(GetOwningArena());
  int cap = total_size_ * 2 + 1;
  if (cap < 4) cap = 4;
  if (cap < new_size) cap = new_size;
  size_t bytes = kRepHeaderSize + sizeof(void*) * cap;
  rep_ = reinterpret_cast<Rep*>(::operator new(bytes));
  total_size_ = cap;
  if (old) {
    for (int i = 0; i < old->allocated_size; i++) rep_->elements[i] = old->elements[i];
    rep_->allocated_size = old->allocated_size;
    ::operator delete(old);
  } else {
    rep_->allocated_size = 0;
  }
  return &rep_->elements[current_size_];
}
void RepeatedPtrFieldBase::Reserve(int n) { if (n > current_size_) InternalExtend(n - current_size_); }
void* RepeatedPtrFieldBase::AddOutOfLineHelper(void* obj) {
  if (!rep_ || rep_->allocated_size == total_size_) InternalExtend(1);
  ++rep_->allocated_size;
  rep_->elements[current_size_++] = obj;
  return obj;
}
void RepeatedPtrFieldBase::DestroyProtos() {
  int n = rep_->allocated_size;
  for (int i = 0; i < n; i++) delete static_cast<MessageLite*>(rep_->elements[i]);
  ::operator delete(rep_);
  rep_ = nullptr;
}
void RepeatedPtrFieldBase::CloseGap(int start, int num) {
  if (rep_ == nullptr) return;
  for (int i = start + num; i < rep_->allocated_size; ++i) rep_->elements[i - num] = rep_->elements[i];
  current_size_ -= num;
  rep_->allocated_size -= num;
}
MessageLite* RepeatedPtrFieldBase::AddWeak(const MessageLite* p) { sx_unsupported("RepeatedPtrFieldBase::AddWeak"); }

// ---- maps
void MapFieldBase::Destruct() { if (repeated_field_ != nullptr) sx_unsupported("map reflection"); }
void MapFieldBase::SetMapDirty() { state_.store(STATE_MODIFIED_MAP, std::memory_order_relaxed); }
void MapFieldBase::SyncMapWithRepeatedField() const { if (state_.load(std::memory_order_acquire) == STATE_MODIFIED_REPEATED) sx_unsupported("map reflection"); }
void MapFieldBase::Swap(MapFieldBase* o) { InternalSwap(o); SwapState(o); }
void MapFieldBase::SwapState(MapFieldBase* o) {
  State t = state_.load(std::memory_order_relaxed);
  state_.store(o->state_.load(std::memory_order_relaxed), std::memory_order_relaxed);
  o->state_.store(t, std::memory_order_relaxed);
}
void MapFieldBase::UnsafeShallowSwap(MapFieldBase* o) { InternalSwap(o); SwapState(o); }
void MapFieldBase::InternalSwap(MapFieldBase* o) { std::swap(arena_, o->arena_); std::swap(repeated_field_, o->repeated_field_); }
size_t MapFieldBase::SpaceUsedExcludingSelfNoLock() const { return 0; }
void MapFieldBase::SyncRepeatedFieldWithMap() const { sx_unsupported("map reflection"); }
void MapFieldBase::SyncRepeatedFieldWithMapNoLock() const { sx_unsupported("map reflection"); }
bool MapFieldBase::IsMapValid() const { return state_.load(std::memory_order_acquire) != STATE_MODIFIED_REPEATED; }
bool MapFieldBase::IsRepeatedFieldValid() const { return state_.load(std::memory_order_acquire) != STATE_MODIFIED_MAP; }

// ---- misc
void InternalMetadata::CheckedDestruct() { if (ptr_) sx_unsupported("unknown fields"); }
}  // namespace internal
}  // namespace protobuf
}  // namespace google

namespace google {
namespace protobuf {
namespace internal {
template <> UnknownFieldSet* InternalMetadata::mutable_unknown_fields_slow<UnknownFieldSet>() { sx_unsupported("unknown fields"); }
void GenericSwap(MessageLite*, MessageLite*) { sx_unsupported("generic swap"); }
void GenericSwap(Message*, Message*) { sx_unsupported("generic swap"); }
void DestroyMessage(const void* m) { static_cast<const MessageLite*>(m)->~MessageLite(); }
void DestroyString(const void* s) { static_cast<const std::string*>(s)->~basic_string(); }
MessageLite* GetOwnedMessageInternal(Arena* ma, MessageLite* sub, Arena* sa) { if (ma || sa) sx_unsupported("arena allocation"); return sub; }

LogMessage::LogMessage(LogLevel level, const char* file, int line) : level_(level), filename_(file), line_(line) {}
LogMessage::~LogMessage() {}
LogMessage& LogMessage::operator<<(const std::string&) { return *this; }
LogMessage& LogMessage::operator<<(const char*) { return *this; }
LogMessage& LogMessage::operator<<(char) { return *this; }
LogMessage& LogMessage::operator<<(int) { return *this; }
LogMessage& LogMessage::operator<<(uint) { return *this; }
LogMessage& LogMessage::operator<<(long) { return *this; }
LogMessage& LogMessage::operator<<(unsigned long) { return *this; }
LogMessage& LogMessage::operator<<(long long) { return *this; }
LogMessage& LogMessage::operator<<(unsigned long long) { return *this; }
LogMessage& LogMessage::operator<<(double) { return *this; }
LogMessage& LogMessage::operator<<(void*) { return *this; }
LogMessage& LogMessage::operator<<(const StringPiece&) { return *this; }
LogMessage& LogMessage::operator<<(const util::Status&) { return *this; }
void LogMessage::Finish() { if (level_ == LOGLEVEL_FATAL) sx_violation("fatal", "fatal protobuf log message"); }
void LogFinisher::operator=(LogMessage& m) { m.Finish(); }
bool VerifyUTF8(StringPiece, const char*) { return true; }
bool WireFormatLite::VerifyUtf8String(const char*, int, Operation, const char*) { return true; }
}  // namespace internal

void UnknownFieldSet::MergeFrom(const UnknownFieldSet&) { sx_unsupported("unknown fields"); }
void UnknownFieldSet::ClearFallback() { sx_unsupported("unknown fields"); }
namespace stringpiece_internal {
void StringPiece::LogFatalSizeTooBig(size_t, const char*) { sx_violation("fatal", "StringPiece size too big"); }
}  // namespace stringpiece_internal

// ---- Message
void Message::CopyFrom(const Message& from) {
  if (&from == this) return;
  auto* d = GetClassData();
  if (!d) sx_unsupported("Message::CopyFrom without class data");
  d->copy_to_from(*this, from);
}
void Message::MergeFrom(const Message& from) {
  auto* d = from.GetClassData();
  if (!d) sx_unsupported("Message::MergeFrom without class data");
  d->merge_to_from(*this, from);
}
void Message::CopyWithSourceCheck(Message& to, const Message& from) { to.Clear(); from.GetClassData()->merge_to_from(to, from); }
void Message::FailIfCopyFromDescendant(Message&, const Message&) {}
void Message::CheckTypeAndMergeFrom(const MessageLite& o) { MergeFrom(static_cast<const Message&>(o)); }
void Message::Clear() { sx_unsupported("Message::Clear"); }
bool Message::IsInitialized() const { return true; }
std::string Message::InitializationErrorString() const { return ""; }
std::string Message::GetTypeName() const { return ""; }
std::string Message::DebugString() const { return ""; }
std::string Message::ShortDebugString() const { return ""; }
std::string Message::Utf8DebugString() const { return ""; }
size_t Message::SpaceUsedLong() const { return 0; }
void Message::SetCachedSize(int) const { sx_unsupported("SetCachedSize"); }
size_t Message::MaybeComputeUnknownFieldsSize(size_t total, internal::CachedSize* c) const { c->Set((int)total); return total; }
size_t Message::ByteSizeLong() const { sx_unsupported("ByteSizeLong"); }
const char* Message::_InternalParse(const char*, internal::ParseContext*) { sx_unsupported("parse"); }
uint8_t* Message::_InternalSerialize(uint8_t*, io::EpsCopyOutputStream*) const { sx_unsupported("serialize"); }
std::string MessageLite::InitializationErrorString() const { return ""; }

namespace internal {
AddDescriptorsRunner::AddDescriptorsRunner(const DescriptorTable*) {}
}  // namespace internal

namespace util {
namespace status_internal {
Status::Status() : error_code_(StatusCode::kOk) {}
Status::Status(StatusCode c, StringPiece m) : error_code_(c) { if (c != StatusCode::kOk) error_message_ = m.ToString(); }
Status::Status(const Status& o) : error_code_(o.error_code_), error_message_(o.error_message_) {}
Status& Status::operator=(const Status& o) { error_code_ = o.error_code_; error_message_ = o.error_message_; return *this; }
bool Status::operator==(const Status& o) const { return error_code_ == o.error_code_ && error_message_ == o.error_message_; }
std::string Status::ToString() const { return error_code_ == StatusCode::kOk ? std::string("OK") : "ERROR:" + error_message_; }
Status OkStatus() { return Status(); }
#define SX_ST(N) \
  Status N##Error(StringPiece m) { return Status(StatusCode::k##N, m); } \
  bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SX_ST(Aborted) SX_ST(AlreadyExists) SX_ST(Cancelled) SX_ST(DataLoss) SX_ST(DeadlineExceeded) SX_ST(FailedPrecondition)
SX_ST(Internal) SX_ST(InvalidArgument) SX_ST(NotFound) SX_ST(OutOfRange) SX_ST(PermissionDenied) SX_ST(ResourceExhausted)
SX_ST(Unauthenticated) SX_ST(Unavailable) SX_ST(Unimplemented) SX_ST(Unknown)
}  // namespace status_internal
}  // namespace util

}  // namespace protobuf
}  // namespace google

// ---- time_util.h: conversions and arithmetic (the string forms are not modelled)
namespace google {
namespace protobuf {
namespace {
const int64_t kG = 1000000000;
template <class T> T normal(int64_t s, int64_t n, bool duration) {
  if (n <= -kG || n >= kG) { s += n / kG; n %= kG; }
  if (duration) {
    if (s < 0 && n > 0) { s += 1; n -= kG; } else if (s > 0 && n < 0) { s -= 1; n += kG; }
  } else if (n < 0) { s -= 1; n += kG; }
  T r; r.set_seconds(s); r.set_nanos((int32_t)n); return r;
}
}  // namespace
namespace util {
#define SX_TS(UNIT, PER) \
  Timestamp TimeUtil::UNIT##ToTimestamp(int64_t v) { return normal<Timestamp>(v / PER, (v % PER) * (kG / PER), false); } \
  int64_t TimeUtil::TimestampTo##UNIT(const Timestamp& t) { return t.seconds() * PER + t.nanos() / (kG / PER); } \
  Duration TimeUtil::UNIT##ToDuration(int64_t v) { return normal<Duration>(v / PER, (v % PER) * (kG / PER), true); } \
  int64_t TimeUtil::DurationTo##UNIT(const Duration& d) { return d.seconds() * PER + d.nanos() / (kG / PER); }
SX_TS(Nanoseconds, 1000000000) SX_TS(Microseconds, 1000000) SX_TS(Milliseconds, 1000) SX_TS(Seconds, 1)
Duration TimeUtil::MinutesToDuration(int64_t m) { return normal<Duration>(m * 60, 0, true); }
Duration TimeUtil::HoursToDuration(int64_t h) { return normal<Duration>(h * 3600, 0, true); }
int64_t TimeUtil::DurationToMinutes(const Duration& d) { return d.seconds() / 60; }
int64_t TimeUtil::DurationToHours(const Duration& d) { return d.seconds() / 3600; }
Timestamp TimeUtil::GetEpoch() { return Timestamp(); }
Timestamp TimeUtil::TimeTToTimestamp(time_t v) { return normal<Timestamp>(v, 0, false); }
time_t TimeUtil::TimestampToTimeT(const Timestamp& t) { return t.seconds(); }
}  // namespace util
Duration& operator+=(Duration& a, const Duration& b) { return a = normal<Duration>(a.seconds() + b.seconds(), a.nanos() + b.nanos(), true); }
Duration& operator-=(Duration& a, const Duration& b) { return a = normal<Duration>(a.seconds() - b.seconds(), a.nanos() - b.nanos(), true); }
Timestamp& operator+=(Timestamp& t, const Duration& d) { return t = normal<Timestamp>(t.seconds() + d.seconds(), t.nanos() + d.nanos(), false); }
Timestamp& operator-=(Timestamp& t, const Duration& d) { return t = normal<Timestamp>(t.seconds() - d.seconds(), t.nanos() - d.nanos(), false); }
Duration operator-(const Timestamp& a, const Timestamp& b) { return normal<Duration>(a.seconds() - b.seconds(), a.nanos() - b.nanos(), true); }
}  // namespace protobuf
}  // namespace google
