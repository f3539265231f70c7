#include "common/sched.h"
#include "common/verif.h"
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <unordered_map>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define TOUCH(p) do { if (__asan_address_is_poisoned(p)) { volatile char c = *(volatile char*) (p); (void) c; } } while (0)
#else
#define TOUCH(p) ((void) 0)
#endif
namespace sched {
struct Lock { int owner = -1, count = 0, readers = 0; bool recursive = true; };
struct T { sem_t sem; bool done = false; void* blocked = nullptr; const char* why = ""; long prio = 0; char *lo = nullptr, *hi = nullptr; };
static std::vector<T*> th; static thread_local int me = -1; static bool active = false; static int cur = -1;
static Options opt; static Outcome out; static std::unordered_map<void*, Lock> locks; static std::unordered_map<void*, int> once_state; static std::map<void*, bool> kinds;
static Prng* rng = nullptr; static std::vector<uint64_t> changes; static long lowest = 0; static uint64_t budget = 0, fair_from = 0, give_up = 0; static void (*stuck)(const std::string&) = nullptr;
static sem_t all_done;
bool managed() { return active && me >= 0; }

static std::string where() { std::string s; for (size_t i = 0; i < th.size(); i++) { T* t = th[i]; s += "thread " + std::to_string(i + 1) + (t->done ? " has finished" : t->blocked ? std::string(" waits for a lock") + (locks[t->blocked].owner >= 0 ? " that thread " + std::to_string(locks[t->blocked].owner + 1) + " holds" : "") : " runs") + "; "; } return s; }
static int pick(bool not_me) {
    std::vector<int> r; for (size_t i = 0; i < th.size(); i++) if (!th[i]->done && !th[i]->blocked && !(not_me && (int) i == me)) r.push_back(i);
    if (r.empty()) return -1;
    if (out.steps > fair_from) { for (size_t k = 1; k <= th.size(); k++) { int i = (me + (int) k) % (int) th.size(); for (int x : r) if (x == i) return i; } }
    if (opt.mode == PCT) { int b = r[0]; for (int x : r) if (th[x]->prio > th[b]->prio) b = x; return b; }
    return r[rng->below(r.size())];
}
static void to(int n) { if (n == me) return; out.switches++; int self = me; cur = n; sem_post(&th[n]->sem); if (!th[self]->done) while (sem_wait(&th[self]->sem)) ; }
static void new_budget() { budget = opt.mode == RANDOM ? 1 + rng->below(opt.length / (2 + rng->below(30)) + 8) : ~0ull; }
static void step() {
    out.steps++;
    if (out.steps > fair_from) { if (out.steps > give_up) stuck("the calls go on for ever: " + where()); if (out.steps % 64 == 0) { int n = pick(false); if (n >= 0) to(n); } return; }
    if (opt.mode == PCT) { for (size_t i = 0; i < changes.size(); i++) if (changes[i] == out.steps) { th[me]->prio = --lowest; to(pick(false)); return; } }
    else if (opt.mode == RANDOM && --budget == 0) { new_budget(); to(pick(false)); }
}
static void lock_point() { step(); if (opt.mode == LOCKS && out.steps <= fair_from && rng->below(3) == 0) to(pick(false)); }
static void block(void* l) { th[me]->blocked = l; int n = pick(false); if (n < 0) stuck("no thread can go on: " + where()); to(n); }
static void wake(void* l) { for (T* t : th) if (t->blocked == l) t->blocked = nullptr; }
static int hook(int op, void* l, int arg) {
    using namespace lockop;
    if (op == INIT) { kinds[l] = arg; locks.erase(l); return -1; }
    if (!managed()) { if (op == DESTROY) { locks.erase(l); kinds.erase(l); } return -1; }
    switch (op) {
        case LOCK: case RDLOCK: case TRY: {
            lock_point(); TOUCH(l);
            for (;;) {
                auto it = kinds.find(l); bool rec = it == kinds.end() || it->second; Lock& k = locks[l];
                if (op == RDLOCK) { if (k.owner < 0) { k.readers++; return 0; } }
                else if ((k.owner < 0 && !k.readers) || (k.owner == me && rec)) { k.owner = me; k.count++; return 0; }
                if (op == TRY) return 1;
                block(l); TOUCH(l);
            }
        }
        case UNLOCK: {
            TOUCH(l); Lock& k = locks[l];
            if (k.readers && k.owner < 0) { k.readers--; if (!k.readers) wake(l); lock_point(); return 0; }
            if (k.owner != me) { if (out.error.empty()) out.error = "a lock is given back by a thread that does not hold it"; return 1; }
            if (--k.count == 0) { k.owner = -1; wake(l); } lock_point(); return 0;
        }
        case DESTROY: { auto it = locks.find(l); if (it != locks.end()) { if ((it->second.owner >= 0 || it->second.readers) && out.error.empty()) out.error = "a lock is destroyed while it is held"; for (T* t : th) if (t->blocked == l && out.error.empty()) out.error = "a lock is destroyed while a thread waits for it"; locks.erase(it); } kinds.erase(l); return -1; }
        case ONCE: { lock_point(); for (;;) { int& s = once_state[l]; if (s == 2) return 1; if (s == 0) { if (*(int*) l != 0) { s = 2; return 1; } s = 1; return 0; } block(l); } }
        case ONCE_DONE: once_state[l] = 2; wake(l); lock_point(); return 0;
        case YIELD: { step(); if (opt.mode == PCT) th[me]->prio = --lowest; int n = pick(true); if (n >= 0) to(n); return 0; }
        case MANAGED: return 0;
    }
    return -1;
}
static void body(int i, std::function<void()>* f) {
    me = i; T* t = th[i]; pthread_attr_t a; void* s; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &s, &n); pthread_attr_destroy(&a); t->lo = (char*) s; t->hi = t->lo + n;
    while (sem_wait(&t->sem)) ;
    (*f)();
    t->done = true; bool last = true; for (T* x : th) if (!x->done) last = false;
    if (last) { active = false; sem_post(&all_done); me = -1; return; }
    int x = pick(true); if (x < 0) stuck("no thread can go on: " + where()); cur = x; out.switches++; me = -1; sem_post(&th[x]->sem);
}
Outcome run(std::vector<std::function<void()>> bodies, const Options& o, void (*on_stuck)(const std::string&)) {
    opt = o; out = Outcome(); delete rng; rng = new Prng(o.seed); stuck = on_stuck; th.clear(); locks.clear(); lowest = 0; fair_from = 30 * o.length + 200000; give_up = 300 * o.length + 6000000;
    changes.clear(); for (int i = 0; i < o.depth; i++) changes.push_back(1 + rng->below(o.length + o.length / 8 + 1));
    for (size_t i = 0; i < bodies.size(); i++) { T* t = new T; sem_init(&t->sem, 0, 0); t->prio = 1 + (long) rng->below(1 << 20); th.push_back(t); }
    sem_init(&all_done, 0, 0); env::lock_hook = hook; new_budget(); active = true; std::vector<std::thread> ts;
    for (size_t i = 0; i < bodies.size(); i++) ts.emplace_back(body, (int) i, &bodies[i]);
    cur = -1; me = -1; int first = 0; { std::vector<int> r; for (size_t i = 0; i < th.size(); i++) r.push_back(i); first = r[rng->below(r.size())]; if (o.mode == PCT) for (int x : r) if (th[x]->prio > th[first]->prio) first = x; }
    cur = first; sem_post(&th[first]->sem); while (sem_wait(&all_done)) ;
    for (auto& t : ts) t.join();
    for (auto& k : locks) if ((k.second.owner >= 0 || k.second.readers) && out.error.empty()) out.error = "a call returned with a lock still held";
    for (T* t : th) { sem_destroy(&t->sem); delete t; } th.clear(); sem_destroy(&all_done);
    return out;
}
static inline void access_(const void* p) { if (!active || me < 0) return; T* t = th[me]; if ((char*) p >= t->lo && (char*) p < t->hi) return; step(); }
}
extern "C" {
void __sanitizer_cov_trace_pc(void) { if (sched::active && sched::me >= 0) sched::step(); }
#define A(n, ty) void __sanitizer_cov_load##n(ty* p) { sched::access_(p); } void __sanitizer_cov_store##n(ty* p) { sched::access_(p); }
A(1, uint8_t) A(2, uint16_t) A(4, uint32_t) A(8, uint64_t) A(16, __int128)
}
