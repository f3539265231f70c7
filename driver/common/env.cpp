#include "common/verif.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <map>
#include <mutex>
#include <openssl/crypto.h>
#include <openssl/rand.h>
#include <pthread.h>
#include <sched.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#endif
extern "C" {
#include "porting/video_output.h"
#include "porting/transport.h"
}

extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); }
namespace env {
uint64_t clock_base = 1700000000; uint64_t now = 100;
video_state video = {true, 0, 0, 0, 0, 0}; bool video_poll_ok = true; uint8_t caller_uuid[16] = {1};
bool caller_ok = true; void (*on_lock)() = nullptr; int (*lock_hook)(int, void*, int) = nullptr;
static std::atomic<uint64_t> fault_n{0}; static uint64_t fault_at = 0; static bool fault_on = false, fault_crypto = true, fired = false; static char where[96];
static pthread_t fault_thread;
static std::atomic<long> live{0};
bool track_allocs = false;
thread_local int held = 0; thread_local uint64_t nsleep = 0; thread_local uint64_t sleep_limit = 100000;
static std::map<void*, std::string>& table() { static auto* t = new std::map<void*, std::string>; return *t; }
// spins: nothing of the driver's own may be seen by the scheduler
struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) ; } void unlock() { f.clear(std::memory_order_release); } };
static Spin table_mx;
static std::string bt() { void* a[14]; int n = backtrace(a, 14); char** s = backtrace_symbols(a, n); std::string r; for (int i = 2; i < n; i++) { r += s[i]; r += "\n    "; } __real_free(s); return r; }
static thread_local bool in_table = false;
static void note(void* p) { live++; if (track_allocs && !in_table) { in_table = true; std::lock_guard<Spin> g(table_mx); table()[p] = bt(); in_table = false; } }
static void unnote(void* p) { live--; if (track_allocs && !in_table) { in_table = true; std::lock_guard<Spin> g(table_mx); table().erase(p); in_table = false; } }
void alloc_dump() { std::lock_guard<Spin> g(table_mx); for (auto& e : table()) fprintf(stderr, "LEAK %p\n    %s\n", e.first, e.second.c_str()); table().clear(); }
long live_allocs() { return live; }
bool fault_point(const char* name) {
    if (!fault_on || !pthread_equal(fault_thread, pthread_self())) return false;
    if (++fault_n == fault_at) { fired = true; snprintf(where, sizeof where, "%s", name); return true; }
    return false;
}
void fault_arm(uint64_t nth, bool crypto_too) { fault_n = 0; fault_at = nth; fault_crypto = crypto_too; fired = false; where[0] = 0; fault_thread = pthread_self(); fault_on = true; }
uint64_t fault_disarm() { fault_on = false; return fault_n; }
bool fault_fired() { return fired; }
const char* fault_where() { return where; }
int held_locks() { return held; }
uint64_t sleeps() { return nsleep; }
void begin_call() { nsleep = 0; }

static Prng* rng = new Prng(1); static Spin rng_mx;
std::vector<bytes> rng_log;
static int rb(unsigned char* b, int n) {
    std::lock_guard<Spin> g(rng_mx);
    if (n < 0) return 0;
    for (int i = 0; i < n; i++) b[i] = (uint8_t) rng->next();
    if (rng_log.size() < 100000 && n <= 1 << 20) rng_log.push_back(bytes(b, b + n));
    return 1;
}
static int rs(const void*, int) { return 1; }
static int ra(const void*, int, double) { return 1; }
static int rst() { return 1; }
static RAND_METHOD meth = {rs, rb, nullptr, ra, rb, rst};
void rng_seed(uint64_t seed) { std::lock_guard<Spin> g(rng_mx); *rng = Prng(seed); rng_log.clear(); }
void init() {
    static bool done = false; if (done) return; done = true;
    RAND_set_rand_method(&meth);
}
void slept() {
    if (++nsleep > sleep_limit) {
        printf("{\"t\":\"stuck\"}\n"); fflush(stdout);
        fprintf(stderr, "STUCK: a call waits for ever\n");
        void* a[30]; int n = backtrace(a, 30); backtrace_symbols_fd(a, n, 2);
        _exit(97);
    }
}
static void* omalloc(size_t n, const char*, int) { void* p = __real_malloc(n); if (p) note(p); return p; }
static void ofree(void* p, const char*, int) { if (p) unnote(p); __real_free(p); }
static void* orealloc(void* p, size_t n, const char*, int) { if (p && n) { void* q = __real_realloc(p, n); if (q && track_allocs) { unnote(p); note(q); } return q; } if (!p) return omalloc(n, 0, 0); ofree(p, 0, 0); return nullptr; }
}
using namespace env;

extern "C" {
extern uint64_t verif_fault_count; extern const char* verif_fault_names[];
int verif_fault_hook(int i) { return fault_crypto && fault_on && fault_point(verif_fault_names[i]); }

int __real_CRYPTO_set_mem_functions(void*, void*, void*);
// OpenSSL frees some memory the code hands to it, so its allocations are counted together with the code's own. Done before
// anything can allocate in OpenSSL, which afterwards refuses other functions (the code's own pass on to malloc / free).
__attribute__((constructor(101))) static void hook_openssl() { if (__real_CRYPTO_set_mem_functions((void*) omalloc, (void*) orealloc, (void*) ofree) != 1) { fprintf(stderr, "cannot hook OpenSSL's allocator\n"); _exit(98); } }
int __wrap_CRYPTO_set_mem_functions(void*, void*, void*) { return 0; }

void* __wrap_malloc(size_t n) { if (fault_on && fault_point("malloc")) return nullptr; void* p = __real_malloc(n); if (p) note(p); return p; }
void __wrap_free(void* p) { if (p) unnote(p); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (fault_on && fault_point("calloc")) return nullptr; void* p = __real_calloc(a, b); if (p) note(p); return p; }
void* __wrap_realloc(void* o, size_t n) { if (fault_on && fault_point("realloc")) return nullptr; void* p = __real_realloc(o, n); if (!o && p) note(p); return p; }
char* __real_strdup(const char*);
char* __wrap_strdup(const char* s) { if (fault_on && fault_point("strdup")) return nullptr; char* p = __real_strdup(s); if (p) note(p); return p; }
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fault_on && fault_point("aligned_alloc")) return nullptr; void* p = __real_aligned_alloc(a, n); if (p) note(p); return p; }
int __real_posix_memalign(void**, size_t, size_t);
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (fault_on && fault_point("posix_memalign")) return 12; int r = __real_posix_memalign(o, a, n); if (!r) note(*o); return r; }

time_t __wrap_time(time_t* t) { time_t v = (time_t) (clock_base + env::now); if (t) *t = v; return v; }
bool __wrap_video_output_poll(video_output_state_t* s) {
    if (!s) return false;
    memset(s, 0, sizeof *s);
    s->svp_enabled = video.svp; s->analog_unprotected_count = video.au; s->analog_cgmsa_count = video.ac; s->digital_unprotected_count = video.du; s->digital_hdcp14_count = video.d14; s->digital_hdcp22_count = video.d22;
    return video_poll_ok;
}
sa_status __wrap_transport_authenticate_caller(sa_uuid* u) { if (!u) return SA_STATUS_NULL_PARAMETER; if (!env::caller_ok) return SA_STATUS_INTERNAL_ERROR; memcpy(u, env::caller_uuid, 16); return SA_STATUS_OK; }

// Locks. sched.cpp takes them over for the threads whose interleaving it decides (hook returns >= 0); otherwise the real ones are used.
// ThreadSanitizer knows only the pthread functions, so its variant goes through those (glibc's mtx_t is a pthread_mutex_t).
using namespace lockop;
#define H(op, obj, arg) (lock_hook ? lock_hook(op, (void*) (obj), arg) : -1)
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_destroy(pthread_mutex_t*); int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_mtx_lock(mtx_t*); int __real_mtx_unlock(mtx_t*); int __real_mtx_trylock(mtx_t*); void __real_mtx_destroy(mtx_t*); int __real_mtx_init(mtx_t*, int); void __real_call_once(once_flag*, void (*)(void)); int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_cnd_wait(cnd_t*, mtx_t*); int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
#ifdef VARIANT_tsan
#define REAL_LOCK(m) (__real_pthread_mutex_lock((pthread_mutex_t*) (m)) ? thrd_error : thrd_success)
#define REAL_UNLOCK(m) (__real_pthread_mutex_unlock((pthread_mutex_t*) (m)) ? thrd_error : thrd_success)
#define REAL_TRY(m) (__real_pthread_mutex_trylock((pthread_mutex_t*) (m)) ? thrd_busy : thrd_success)
#define REAL_DESTROY(m) __real_pthread_mutex_destroy((pthread_mutex_t*) (m))
static int real_init(mtx_t* m, int t) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); if (t & mtx_recursive) pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); int r = __real_pthread_mutex_init((pthread_mutex_t*) m, &a); pthread_mutexattr_destroy(&a); return r ? thrd_error : thrd_success; }
#define REAL_ONCE(f, fn) __real_pthread_once((pthread_once_t*) (f), fn)
#else
#define REAL_LOCK(m) __real_mtx_lock(m)
#define REAL_UNLOCK(m) __real_mtx_unlock(m)
#define REAL_TRY(m) __real_mtx_trylock(m)
#define REAL_DESTROY(m) __real_mtx_destroy(m)
#define real_init __real_mtx_init
#define REAL_ONCE(f, fn) __real_call_once(f, fn)
#endif
int __wrap_mtx_lock(mtx_t* m) { if (env::on_lock) env::on_lock(); int h = H(LOCK, m, 0), r = h < 0 ? REAL_LOCK(m) : h ? thrd_error : thrd_success; if (r == thrd_success) held++; return r; }
int __wrap_mtx_unlock(mtx_t* m) { int h = H(UNLOCK, m, 0), r = h < 0 ? REAL_UNLOCK(m) : h ? thrd_error : thrd_success; if (r == thrd_success) held--; return r; }
int __wrap_mtx_trylock(mtx_t* m) { int h = H(TRY, m, 0), r = h < 0 ? REAL_TRY(m) : h ? thrd_busy : thrd_success; if (r == thrd_success) held++; return r; }
void __wrap_mtx_destroy(mtx_t* m) { H(DESTROY, m, 0); REAL_DESTROY(m); }
int __wrap_mtx_init(mtx_t* m, int t) { if (fault_on && fault_point("mtx_init")) return thrd_error; H(INIT, m, (t & mtx_recursive) != 0); return real_init(m, t); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int h = H(LOCK, m, 0), r = h < 0 ? __real_pthread_mutex_lock(m) : h; if (!r) held++; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int h = H(UNLOCK, m, 0), r = h < 0 ? __real_pthread_mutex_unlock(m) : h; if (!r) held--; return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int h = H(TRY, m, 0), r = h < 0 ? __real_pthread_mutex_trylock(m) : h; if (!r) held++; return r; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { H(DESTROY, m, 0); return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int t = PTHREAD_MUTEX_DEFAULT; if (a) pthread_mutexattr_gettype(a, &t); H(INIT, m, t == PTHREAD_MUTEX_RECURSIVE); return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { int h = H(RDLOCK, m, 0), r = h < 0 ? __real_pthread_rwlock_rdlock(m) : h; if (!r) held++; return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { int h = H(LOCK, m, 0), r = h < 0 ? __real_pthread_rwlock_wrlock(m) : h; if (!r) held++; return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int h = H(UNLOCK, m, 0), r = h < 0 ? __real_pthread_rwlock_unlock(m) : h; if (!r) held--; return r; }
void __wrap_call_once(once_flag* f, void (*fn)(void)) { int h = H(ONCE, f, 0); if (h == 0) { fn(); H(ONCE_DONE, f, 0); REAL_ONCE(f, [] {}); } else if (h < 0) REAL_ONCE(f, fn); }
int __wrap_pthread_once(pthread_once_t* f, void (*fn)(void)) { int h = H(ONCE, f, 0); if (h == 0) { fn(); H(ONCE_DONE, f, 0); __real_pthread_once(f, [] {}); } else if (h < 0) __real_pthread_once(f, fn); return 0; }
// waiting for a condition may always end early
int __wrap_cnd_wait(cnd_t* c, mtx_t* m) { if (H(MANAGED, 0, 0) < 0) return __real_cnd_wait(c, m); H(UNLOCK, m, 0); H(YIELD, 0, 0); H(LOCK, m, 0); return thrd_success; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (H(MANAGED, 0, 0) < 0) return __real_pthread_cond_wait(c, m); H(UNLOCK, m, 0); H(YIELD, 0, 0); H(LOCK, m, 0); return 0; }
static bool yielded() { slept(); return H(YIELD, 0, 0) >= 0; }
unsigned __wrap_sleep(unsigned n) { if (!yielded()) sched_yield(); return 0; }
int __wrap_usleep(unsigned n) { if (!yielded()) sched_yield(); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { yielded(); return 0; }
void __wrap_thrd_yield(void) { yielded(); }
int __real_sched_yield(void);
int __wrap_sched_yield(void) { return yielded() ? 0 : __real_sched_yield(); }
int __wrap_thrd_sleep(const struct timespec* a, struct timespec* b) { yielded(); return 0; }
}

Guarded::Guarded(size_t size, uint8_t fill) : n(size) {
    off = G; mem.assign(size + 2 * G, 0xC3); memset(mem.data() + off, fill, n); before.assign(mem.begin() + off, mem.begin() + off + n); poison(true);
}
Guarded::Guarded(const bytes& b) : n(b.size()) {
    off = G; mem.assign(n + 2 * G, 0xC3); if (n) memcpy(mem.data() + off, b.data(), n); before = b; poison(true);
}
void Guarded::poison(bool on) {
    // ASan poisons in units of 8 bytes; the end of the buffer may be unaligned, which ASan handles (partial granule)
    uint8_t* e = mem.data() + off + n; uint8_t* end = mem.data() + mem.size();
    if (on) { ASAN_POISON_MEMORY_REGION(e, end - e); ASAN_POISON_MEMORY_REGION(mem.data(), off & ~7ul); }
    else { ASAN_UNPOISON_MEMORY_REGION(mem.data(), mem.size()); }
}
Guarded::~Guarded() { poison(false); }
bool Guarded::guards_ok() {
    poison(false);
    bool ok = true;
    for (size_t i = 0; i < off; i++) if (mem[i] != 0xC3) ok = false;
    for (size_t i = off + n; i < mem.size(); i++) if (mem[i] != 0xC3) ok = false;
    poison(true);
    return ok;
}
std::string hex(const bytes& b, size_t max) {
    std::string r; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02x", b[i]); r += t; }
    if (b.size() > max) r += "..."; return r + "(" + std::to_string(b.size()) + ")";
}
