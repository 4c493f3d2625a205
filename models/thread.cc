// Model of the compiled parts of <mutex>, <future> and <thread>.
#include <chrono>
#include <future>
#include <mutex>
#include <thread>
#include <condition_variable>
#include "sx.h"
extern "C" { void sx_futex_wait(unsigned* addr, unsigned val); void sx_futex_wake(unsigned* addr); int pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); int pthread_join(pthread_t, void**); }
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { void (*f)() = __once_call; f(); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { if (timed) sx_unsupported("timed wait"); sx_futex_wait(a, v); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { if (timed) sx_unsupported("timed wait"); sx_futex_wait(a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sx_futex_wake(a); }
void __throw_future_error(int) { sx_violation("exception", "future_error (promise set twice, or future used twice)"); }
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  _State* p = st.release();
  struct L { static void* run(void* v) { _State_ptr t((_State*)v); t->_M_run(); return nullptr; } };
  pthread_create(&_M_id._M_thread, nullptr, L::run, p);
}
void thread::join() { pthread_join(_M_id._M_thread, nullptr); _M_id = id(); }
void thread::detach() { sx_unsupported("detach"); }
// Condition variables count their notifications; waking all waiters for one notification is a spurious wake-up at worst.
condition_variable::condition_variable() noexcept { __atomic_store_n((unsigned*)this, 0, __ATOMIC_SEQ_CST); }
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) {
  unsigned n = __atomic_load_n((unsigned*)this, __ATOMIC_SEQ_CST);
  l.unlock();
  sx_futex_wait((unsigned*)this, n);
  l.lock();
}
void condition_variable::notify_one() noexcept { __atomic_fetch_add((unsigned*)this, 1, __ATOMIC_SEQ_CST); sx_futex_wake((unsigned*)this); }
void condition_variable::notify_all() noexcept { notify_one(); }
}
extern "C" {
void m_initprim() asm("__cxa_init_primary_exception");
void m_initprim() { sx_violation("exception", "a promise was destroyed without a value (or an exception was stored in it)"); }
void m_iosinit() asm("_ZSt21ios_base_library_initv");
void m_iosinit() {}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
}
