// Environment of the code under test, under control of the drivers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

using bytes = std::vector<uint8_t>;

struct video_state { bool svp; unsigned au, ac, du, d14, d22; };

namespace env {
extern uint64_t clock_base;      // wall clock given to the code under test = clock_base + now
extern uint64_t now;
extern video_state video;
extern bool video_poll_ok;
extern uint8_t caller_uuid[16];  // what transport_authenticate_caller reports (public path)
extern bool caller_ok;

// Fault injection: the n-th failure point reached since fault_arm() fails (0 = none).
void fault_arm(uint64_t nth, bool crypto_too = true);
uint64_t fault_disarm();         // number of failure points reached
bool fault_fired();
const char* fault_where();

// Accounting
long live_allocs();              // allocations made by the code under test and by OpenSSL, not yet freed
void alloc_dump();
extern bool track_allocs;
struct alloc_mark { long n; };
int held_locks();                // locks held by this thread
uint64_t sleeps();               // sleeps / yields made so far by this thread
extern thread_local uint64_t sleep_limit;   // a call that sleeps more often than this is declared stuck
void begin_call();               // resets the sleep counter

// Random numbers given to the code under test: a seeded stream, recorded.
void rng_seed(uint64_t seed);
extern std::vector<bytes> rng_log;
void init();
}

// What a lock function of the code under test asks of the scheduler; -1: not my thread, do the real thing.
namespace lockop { enum { LOCK, UNLOCK, TRY, RDLOCK, INIT, DESTROY, ONCE, ONCE_DONE, YIELD, MANAGED }; }
namespace env { extern int (*lock_hook)(int op, void* obj, int arg); }

struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { s = next() ^ seed; next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bytes get(size_t n) { bytes b(n); for (auto& x : b) x = (uint8_t) next(); return b; }
};

// A caller's buffer with guard areas around it; the guards are checked (and poisoned for instrumented accesses).
struct Guarded {
    std::vector<uint8_t> mem; size_t n; bytes before;
    static constexpr size_t G = 64;
    explicit Guarded(size_t size, uint8_t fill = 0xA5);
    explicit Guarded(const bytes& b);
    Guarded(const Guarded&) = delete;
    ~Guarded();
    uint8_t* p() { return mem.data() + off; }
    size_t off;
    bool guards_ok();
    bool unchanged() const { return memcmp_(mem.data() + off, before.data(), n); }
    bytes get(size_t from, size_t to) const { return bytes(mem.begin() + off + from, mem.begin() + off + to); }
    static bool memcmp_(const uint8_t* a, const uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
private:
    void poison(bool on);
};
std::string hex(const bytes& b, size_t max = 24);
