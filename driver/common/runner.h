// What the drivers that step the code through a file of behaviours have in common.
#pragma once
#include "verif.h"
#include "ref.h"
#include "api.h"
#include "boundary.h"
#include <nlohmann/json.hpp>
#include <openssl/err.h>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <execinfo.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using json = nlohmann::json; using std::string; using std::vector;

static bool PUB = false, VERBOSE = false, FAULTS = false; static int PUBU = 1; static uint64_t RUNSEED = 1;
static volatile int cur_beh = -1, cur_step = -1; static char cur_op[48]; static FILE* progress = nullptr;
struct Mismatch { vector<string> props; int step; string msg; };
struct Stop {};

// Base of a run of one behaviour.
struct Base {
    vector<Mismatch> mm; int step = 0; bool dead = false, quiet = false; Prng rnd; long nexec = 0; std::map<string, long> count;
    sa_uuid cu; ta_client cs = 0; sa_status st = SA_STATUS_OK; int locks0 = 0;
    explicit Base(uint64_t seed) : rnd(seed) { memset(&cu, 0, sizeof cu); }
    void bad(vector<string> props, const string& msg, bool stop = true) { mm.push_back({props, step, msg}); if (stop) throw Stop(); }
    void caller(uint64_t s, const sa_uuid& u) { cu = u; memcpy(env::caller_uuid, cu.id, 16); cs = s; }
    void pre() { locks0 = env::held_locks(); env::begin_call(); ERR_clear_error(); alarm(60); }
    void post(const char* fn) {
        alarm(0); ERR_clear_error(); nexec++;
        if (env::held_locks() != locks0) { mm.push_back({{"P05", "P13"}, step, string(fn) + " returned with " + std::to_string(env::held_locks() - locks0) + " lock(s) still held"}); dead = true; throw Stop(); }
        string e = boundary::take_error(); if (!e.empty()) { mm.push_back({{"P14"}, step, e}); throw Stop(); }
    }
    template <class F> sa_status call(const char* fn, F f) { pre(); st = f(); post(fn); return st; }
    // makes the call, first with every one of its internal steps failing in turn; same() says what a failed call changed, and
    // restores what it may have written
    long nfaults = 0, nfired = 0; string failed_at;
    template <class F, class S> sa_status faulted(const char* fn, vector<string> props, F f, S same) {
        failed_at.clear();
        if (FAULTS && PUB && env::caller_ok) for (int i = 0; i < 3; i++) {
            const char* w = "the transport refusing the caller"; long l0 = env::live_allocs(); pre(); env::caller_ok = false; st = f(); env::caller_ok = true; nfaults++; nfired++; post(fn); long d = env::live_allocs() - l0; failed_at = w;
            if (st == SA_STATUS_OK) bad({"P03", "P19", "P14"}, string(fn) + " succeeds with " + w); string e = same(); if (!e.empty()) bad(props, string(fn) + " with " + w + ": " + e); if (d <= 0) break; if (i == 2) bad(props, string(fn) + " with " + w + ": keeps " + std::to_string(d) + " allocation(s)");
        }
        failed_at.clear();
        if (FAULTS) for (uint64_t nth = 1; nth <= 400; nth++) {
            bool hit = false; long d = 0; string where, pre_ = string(fn) + " with its " + std::to_string(nth) + ". internal step (";
            for (int i = 0; i < 3; i++) { long l0 = env::live_allocs(); pre(); env::fault_arm(nth, true); st = f(); env::fault_disarm(); hit = env::fault_fired(); where = env::fault_where(); nfaults++; nfired += hit; post(fn); if (!hit || st == SA_STATUS_OK) return st; failed_at = where; d = env::live_allocs() - l0; string e = same(); if (!e.empty()) bad(props, pre_ + where + ") failing: " + e); if (d <= 0) break; }
            if (d > 0) bad(props, pre_ + where + ") failing: keeps " + std::to_string(d) + " allocation(s)");
        }
        pre(); st = f(); post(fn); return st;
    }
    void at(size_t i, const string& op) { step = i; cur_step = i; snprintf(cur_op, sizeof cur_op, "%s", op.c_str()); if (progress && !quiet) { rewind(progress); fprintf(progress, "%d %d %s                 \n", cur_beh, (int) i, cur_op); fflush(progress); } }
};
#define API(fn, ...) this->call(#fn, [&]() -> sa_status { return PUB ? sa_##fn(__VA_ARGS__) : ta_sa_##fn(__VA_ARGS__, cs, &cu); })
#define FAPI(fn, props, same, ...) this->faulted(#fn, props, [&]() -> sa_status { return PUB ? sa_##fn(__VA_ARGS__) : ta_sa_##fn(__VA_ARGS__, cs, &cu); }, same)
#define TA(fn, ...) this->call(#fn, [&]() -> sa_status { return ta_sa_##fn(__VA_ARGS__, cs, &cu); })
#define RAW(fn, expr) this->call(fn, [&]() -> sa_status { return expr; })

static void on_sig(int sig) {
    char b[128]; int n = snprintf(b, sizeof b, "%s in behaviour %d step %d (%s)\n", sig == SIGALRM ? "STUCK" : "CRASH", cur_beh, cur_step, cur_op); (void) !write(2, b, n);
    void* a[40]; int k = backtrace(a, 40); backtrace_symbols_fd(a, k, 2); _exit(sig == SIGALRM ? 97 : 96);
}

// Runner: constructed with (seed), run(json behaviour) must leave nothing behind.
template <class Runner> int runner_main(int argc, char** argv, vector<string> leak_props = {"P05"}) {
    string file; long only = -1; const char* prog = nullptr; bool leaks = true; long limit = -1, from = 0, index = 0, nbad = 0;
    for (int i = 1; i < argc; i++) { string s = argv[i]; if (s == "--pub") PUB = true; else if (s == "--u") PUBU = atoi(argv[++i]); else if (s == "--seed") RUNSEED = strtoull(argv[++i], 0, 10); else if (s == "--only") only = atol(argv[++i]); else if (s == "--from") from = atol(argv[++i]); else if (s == "--index") index = atol(argv[++i]); else if (s == "--progress") prog = argv[++i]; else if (s == "--noleak") leaks = false; else if (s == "--faults") FAULTS = true; else if (s == "--boundary") { if (!boundary::load(argv[++i])) { fprintf(stderr, "no table\n"); return 98; } } else if (s == "-v") VERBOSE = true; else if (s == "--limit") limit = atol(argv[++i]); else file = s; }
    env::init(); signal(SIGALRM, on_sig); if (prog) progress = fopen(prog, "w");
    std::ifstream in(file); string line; long nb = 0, ns = 0, nf = 0, nfired = 0; bool isbad = false; std::map<string, long> count;
    for (long i = 0; std::getline(in, line); i++) {
        if ((only >= 0 && i != only) || i < from) continue; if (limit >= 0 && nb >= limit) break;
        json b = json::parse(line); cur_beh = i; uint64_t seed = RUNSEED * 1000003 + i + index; long delta = 0; vector<Mismatch> mm; bool dead = false;
        auto once = [&](bool quiet) { env::rng_seed(seed); boundary::seed(seed); ERR_clear_error(); long l0 = env::live_allocs(); { Runner r(seed); r.quiet = quiet; r.run(b); mm = r.mm; dead = r.dead; if (!quiet) { ns += r.nexec; nf += r.nfaults; nfired += r.nfired; for (auto& c : r.count) count[c.first] += c.second; } } env::rng_log.clear(); delta = env::live_allocs() - l0; };
        once(false); nb++;
        if (mm.empty() && delta > 0 && leaks) {
            long d1 = delta; once(true); long d2 = delta; once(true); long d3 = delta;
            if (mm.empty() && d2 > 0 && d3 > 0) { env::track_allocs = true; once(true); if (VERBOSE) env::alloc_dump(); env::track_allocs = false; mm.push_back({leak_props, (int) (b.is_array() ? b.size() : 0), "memory is not given back: " + std::to_string(d3) + " allocation(s) remain (" + std::to_string(d1) + "," + std::to_string(d2) + ")"}); }
        }
        for (auto& m : mm) { isbad = true; json o = {{"t", "mismatch"}, {"beh", i}, {"step", m.step}, {"props", m.props}, {"also", json::array()}, {"msg", m.msg}}; if (b.is_array() && m.step < (int) b.size()) o["call"] = b[m.step]; printf("%s\n", o.dump().c_str()); }
        fflush(stdout); if (dead || (!mm.empty() && ++nbad >= 8)) break;
    }
    for (auto& c : boundary::count) if (c.first.find('.') == string::npos) count["boundary_" + c.first] += c.second; else count[c.first]++;
    json o = {{"t", "done"}, {"behaviours", nb}, {"steps", ns}, {"faults", nf}, {"fault_fired", nfired}, {"ops", count}}; printf("%s\n", o.dump().c_str());
    return isbad ? 1 : 0;
}
