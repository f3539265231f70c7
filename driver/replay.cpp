// Replays behaviours of the specification SecApi (printed by TLC from Gen.tla) into the code under test and compares
// every outcome, output, header, digest and memory image with what the specification and the reference algorithms say.
#include "common/verif.h"
#include "common/ref.h"
#include "common/api.h"
#include "common/boundary.h"
#include <nlohmann/json.hpp>
#include <openssl/err.h>
#include <openssl/core_names.h>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <execinfo.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <unistd.h>
using json = nlohmann::json; using std::string; using std::vector;

extern "C" bool load_pkcs12_secret_key(void* key, size_t* key_length, char* name, size_t* name_length);

static bool PUB = false; static uint64_t RUNSEED = 1; static int FAULTS = 0; static bool VERBOSE = false; static string TRACEFILE;

struct Mismatch { vector<string> props; int step; string msg; };
struct Stop {};      // ends a behaviour
struct Broken {};    // the context of the step is lost

struct Key { uint64_t h = 0; int s = 0, u = 0; bool live = false, created = false; string t, cv; size_t n = 0; bool known = false; bytes val; pkey pk; bool priv = false; sa_rights r; json spec; };
struct Ctx { uint64_t h = 0; int s = 0, u = 0; bool live = false, created = false, mac = false; string alg, m, dg, mg; bytes key, iv, aad, label; bool known = false; pkey pk; string cv; size_t kn = 0; bytes fed, plain; };
struct Svp { uint64_t h = 0; int s = 0; bool live = false, created = false; std::unique_ptr<Guarded> mem; bytes shadow; };
struct Ses { uint64_t h = 0; int u = 0; bool live = false, created = false; vector<uint64_t> fk, fc, fm, fs; vector<std::unique_ptr<Guarded>> fsmem; };
struct Blob { bytes b; string id; json spec; sa_rights r; bool known = false, created = false; bytes val; pkey pk; bool priv = false; string t, cv; size_t n = 0; };

static const char* FLAGS[] = {"X", "D", "W", "E", "C", "S", "au", "ac", "du", "d14", "d22", "dt", "so", "ca"};
static uint64_t flags_of(const json& f) { uint64_t v = 0; for (auto& x : f) for (int i = 0; i < 14; i++) if (x == FLAGS[i]) v |= 1ull << i; return v; }
static string flags_str(uint64_t v) { string r; for (int i = 0; i < 64; i++) if (v >> i & 1) r += (i < 14 ? FLAGS[i] : ("bit" + std::to_string(i)).c_str()) + string(" "); return r; }
static sa_rights rights_of(const json& r, uint64_t idseed) {
    sa_rights x; memset(&x, 0, sizeof x); Prng p(idseed); for (int i = 0; i < 63; i++) x.id[i] = 'A' + p.below(26);
    x.usage_flags = flags_of(r["f"]); x.child_usage_flags = flags_of(r["c"]);
    long nb = r["nb"], na = r["na"]; x.not_before = nb == 0 ? 0 : BASE_T + nb; x.not_on_or_after = na >= 5000 ? UINT64_MAX : BASE_T + na;
    string ta = r["ta"]; auto all = [&](int i) { memset(x.allowed_tas[i].id, 0xff, 16); }; auto set = [&](int i, int u) { x.allowed_tas[i] = uuid_of(u); };
    if (ta == "all") all(0); else if (ta == "u1") set(0, 1); else if (ta == "u2") set(0, 2); else if (ta == "u1last") set(31, 1); else if (ta == "mix12") { set(3, 2); set(7, 1); }
    else if (ta == "allmid") { set(0, 9); all(17); } else if (ta == "near1") { set(0, 1); x.allowed_tas[0].id[15] ^= 1; set(1, 1); x.allowed_tas[1].id[0] ^= 0x80; }
    return x;
}
static bool rights_eq(const sa_rights& a, const sa_rights& b) {
    if (a.usage_flags != b.usage_flags || a.child_usage_flags != b.child_usage_flags || a.not_before != b.not_before || a.not_on_or_after != b.not_on_or_after) return false;
    return memcmp(a.id, b.id, sizeof a.id) == 0 && memcmp(a.allowed_tas, b.allowed_tas, sizeof a.allowed_tas) == 0;
}
static bytes root_key() { static bytes r; if (r.empty()) { uint8_t k[64]; size_t n = 64; char nm[64] = ""; size_t nn = sizeof nm; if (load_pkcs12_secret_key(k, &n, nm, &nn) && n >= 16 && n <= 64) r.assign(k, k + 16); } return r; }
static bytes common_root() { static bytes r; if (r.empty()) { uint8_t k[64]; size_t n = 64; char nm[64] = "commonroot"; size_t nn = sizeof nm; if (load_pkcs12_secret_key(k, &n, nm, &nn) && n >= 16 && n <= 64) r.assign(k, k + 16); } return r; }

// What the specification says about a behaviour, with the ids of the objects each step creates.
struct Beh { json steps; vector<vector<int>> ids; vector<int> maker[5]; };
static string kind_of(const string& op) {
    static const std::set<string> k = {"kimport", "kgen", "derive", "xchg", "unwrap", "kimportx"};
    if (k.count(op)) return "k"; if (op == "cinit") return "c"; if (op == "minit") return "m"; if (op == "screate") return "b"; if (op == "open") return "s"; if (op == "kexport") return "x"; return "";
}
static Beh prepare(const json& steps) {
    Beh b; b.steps = steps; std::map<string, int> cnt;
    for (auto& a : steps) { vector<int> v; string k = a.contains("op") ? kind_of(a["op"]) : ""; if (!k.empty() && a.value("ok", "") == "y" && !(k == "x" && a["q"])) { int n = a["op"] == "xchg" && a["alg"] == "xnflx" ? 3 : 1; for (int i = 0; i < n; i++) v.push_back(++cnt[k]); } b.ids.push_back(v); }
    return b;
}

static volatile int cur_beh = -1, cur_step = -1; static char cur_op[32]; static FILE* progress = nullptr;

struct Run {
    const Beh& B; std::function<bool(int)> skip; bool quiet;
    vector<Mismatch> mm; std::map<int, Key> K; std::map<int, Ctx> C, M; std::map<int, Svp> S; std::map<int, Ses> E; std::map<int, Blob> X; vector<uint64_t> fillses;
    Prng rnd; int step = 0; bool held_bad = false; json expect; bool dead = false; int nskipped = 0, nexec = 0;
    sa_uuid cu; ta_client cs = 0; sa_status st = SA_STATUS_OK; bool created_leaky = false;
    Run(const Beh& b, uint64_t seed) : B(b), rnd(seed) { frnd = seed * 77 + 3; }

    void bad(vector<string> props, const string& msg, bool stop = true) { mm.push_back({props, step, msg}); if (stop) throw Stop(); }

    // --- calling --------------------------------------------------------------------------------------------------
    void caller(uint64_t s, int u) { cu = uuid_of(u); memcpy(env::caller_uuid, cu.id, 16); cs = s; }
    int locks0 = 0;
    void pre() { locks0 = env::held_locks(); env::begin_call(); ERR_clear_error(); alarm(120); }
    void post(const char* fn) {
        alarm(0); env::fault_disarm(); ERR_clear_error();
        if (env::held_locks() != locks0) { mm.push_back({{"P05", "P13"}, step, string(fn) + " returned with " + std::to_string(env::held_locks() - locks0) + " lock(s) still held"}); dead = true; throw Stop(); }
        string e = boundary::take_error(); if (!e.empty()) { mm.push_back({{"P14"}, step, e}); throw Stop(); }
    }
#define API(fn, ...) this->call(#fn, [&]() -> sa_status { return PUB ? sa_##fn(__VA_ARGS__) : ta_sa_##fn(__VA_ARGS__, cs, &cu); })
#define RAW(fn, expr) this->call(fn, [&]() -> sa_status { return expr; })
    // --- fault injection --------------------------------------------------------------------------------------------
    // The step's own call is first made with its 1st, 2nd, ... internal allocation or crypto-library call failing: each
    // such call must report an error and leave no trace, so that the following one finds everything as before.  A call
    // that succeeds in spite of the failure is taken as the call itself and its results are checked like any other's.
    string inject; bool crypto_faults = true, refused_step = false; int broken_ctx = 0; std::function<void()> restore; std::function<string()> untouched; long faults = 0, fired = 0;
    bool release_op(const string& fn) { return fn.find("release") != string::npos || fn == "close"; }
    template <class F> bool attempt(const char* fn, F& f, uint64_t nth, bool crypto) {     // true: this was the call
        auto once = [&]() { pre(); if (nth) env::fault_arm(nth, crypto); else env::caller_ok = false; st = f(); env::caller_ok = true; env::fault_disarm(); bool h = !nth || env::fault_fired(); post(fn); return h; };
        long l0 = env::live_allocs(); bool hit = once(); string where = nth ? env::fault_where() : "the transport's check of the caller"; faults++;
        if (!hit) return true; fired++; if (!nth && st == SA_STATUS_OK) bad({"P03", "P14"}, string(fn) + " succeeds although the transport refuses the caller"); if (st == SA_STATUS_OK) return true;
        long d = env::live_allocs() - l0; string why = string(fn) + " with its " + std::to_string(nth) + ". internal step (" + where + ") failing";
        if (untouched) { string e = untouched(); if (!e.empty()) bad({"P05"}, why + ": " + e); }
        if (restore) restore();
        svp_check(why.c_str());
        if (d > 0) {      // again, twice: does memory go away each time?
            for (int i = 0; i < 2 && d > 0; i++) { l0 = env::live_allocs(); hit = once(); if (restore) restore(); d = env::live_allocs() - l0; if (st == SA_STATUS_OK) return true; }
            if (d > 0) bad({"P05"}, why + ": keeps " + std::to_string(d) + " allocation(s)");
        }
        return false;
    }
    template <class F> sa_status call(const char* fn, F f) {
        if (!inject.empty() && inject == fn) {
            if (PUB && rnd.below(2)) attempt(fn, f, 0, false);
            if (broken_ctx == 1) {      // a crypto failure in the middle of a stream: the context may be lost, nothing else
                uint64_t nth = 1 + rnd.below(6); if (attempt(fn, f, nth, true)) return st; broken_ctx = 2; throw Broken();
            }
            if (refused_step) { if (attempt(fn, f, 1 + rnd.below(10), crypto_faults)) return st; }
            else { struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); for (uint64_t nth = 1; nth <= 150; nth++) { if (attempt(fn, f, nth, crypto_faults)) return st; clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > 2) break; } }
        }
        pre(); st = f(); post(fn); return st;
    }

    // --- handles ----------------------------------------------------------------------------------------------------
    template <class T> uint64_t handle(std::map<int, T>& tab, int id, int s, const vector<uint64_t>* fill) {
        auto it = tab.find(id);
        if (it != tab.end() && it->second.created) {
            if (it->second.live && it->second.s == s) return it->second.h;
            bool clash = false; for (auto& e : tab) if (e.second.live && e.second.s == s && e.second.h == it->second.h) clash = true;
            if (fill) for (auto h : *fill) if (h == it->second.h) clash = true;
            if (!clash) return it->second.h;
        }
        std::set<uint64_t> used; for (auto& e : tab) if (e.second.live && e.second.s == s) used.insert(e.second.h); if (fill) for (auto h : *fill) used.insert(h);
        uint64_t some = used.empty() ? 0 : *used.begin(); vector<uint64_t> cand = {256, 300, 65536, 0xffffffffull, (uint64_t) INVALID_HANDLE, (1ull << 32) + some, (1ull << 63) + some, 256 + some, 255, rnd.below(256), 7, 31, 0};
        for (int i = 0; i < 40; i++) { uint64_t h = cand[rnd.below(cand.size())]; if (!used.count(h)) return h; }
        return 99999;
    }
    Ses* ses(int s) { auto it = E.find(s); return it == E.end() ? nullptr : &it->second; }
    vector<uint64_t>* fl(int s, char k) { Ses* x = ses(s); return !x ? nullptr : k == 'k' ? &x->fk : k == 'c' ? &x->fc : k == 'm' ? &x->fm : &x->fs; }
    uint64_t kh(int id, int s) { return handle(K, id, s, fl(s, 'k')); }
    uint64_t ch(int id, int s) { return handle(C, id, s, fl(s, 'c')); }
    uint64_t mh(int id, int s) { return handle(M, id, s, fl(s, 'm')); }
    uint64_t sh(int id, int s) { return handle(S, id, s, fl(s, 'b')); }
    uint64_t session_handle(int s) {
        if (PUB) return 0;
        Ses* x = ses(s);
        if (x && x->created) { if (x->live) return x->h; bool clash = false; for (auto& e : E) if (e.second.live && e.second.h == x->h) clash = true; for (auto h : fillses) if (h == x->h) clash = true; if (!clash) return x->h; }
        std::set<uint64_t> used; for (auto& e : E) if (e.second.live) used.insert(e.second.h); for (auto h : fillses) used.insert(h);
        vector<uint64_t> cand = {256, 255, 77, 0xffffffffull, (uint64_t) INVALID_HANDLE, 1ull << 32, rnd.below(256)}; for (int i = 0; i < 40; i++) { uint64_t h = cand[rnd.below(cand.size())]; if (!used.count(h)) return h; }
        return 99999;
    }
    template <class T> void fresh(std::map<int, T>& tab, uint64_t h, int s, const vector<uint64_t>* fill, const char* what) {
        for (auto& e : tab) if (e.second.live && e.second.s == s && e.second.h == h) bad({"P04"}, string("a new ") + what + " got the handle of a live one: " + std::to_string(h));
        if (fill) for (auto x : *fill) if (x == h) bad({"P04"}, string("a new ") + what + " got the handle of a live one: " + std::to_string(h));
    }

    // --- classification ---------------------------------------------------------------------------------------------
    string family(const json& a) {
        string op = a["op"];
        if (op == "cproc" || op == "clast" || op == "civ" || op == "cinit" || op == "crel") { auto it = a.contains("c") ? C.find(a["c"]) : C.end(); string alg = op == "cinit" ? a["alg"].get<string>() : it != C.end() ? it->second.alg : ""; return (alg == "rsap" || alg == "rsao" || alg == "elg") ? "P18" : "P07"; }
        if (op[0] == 'm') return "P08"; if (op == "sign") return "P18"; if (op == "kexport" || op == "kimportx") return "P06";
        if (op == "kdig" || op == "kpub" || op == "khdr") return "P17"; if (op == "derive" || op == "xchg" || op == "unwrap" || op == "kgen") return "P12"; if (op == "kimport") return "P17";
        if (op == "screate" || op == "srel") return "P09"; if (op == "open" || op == "close") return "P03"; if (op == "krel") return "P04"; return "P05";
    }
    // the expected outcome did not come true
    void outcome(const json& a, bool want_ok) {
        string op = a["op"]; bool ok = st == SA_STATUS_OK;
        if (want_ok && !ok) {
            vector<string> p = {family(a)}; if (st == SA_STATUS_OPERATION_NOT_ALLOWED) p = {"P01", "P03"}; if (st == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT) p = {"P04"};
            bad(p, op + " must succeed but is refused with status " + std::to_string(st));
        }
        if (!want_ok && ok) {
            std::set<string> p; string why;
            for (auto& w : a["why"]) {
                string x = w; why += x + " ";
                if (x == "rights") { p.insert("P01"); if ((op == "cproc" || op == "clast") && a.contains("ob") && a["ob"] == 0) p.insert("P09"); }
                else if (x == "session") p.insert("P03");
                else if (x == "handle") { bool foreign = false; auto chk = [&](auto& tab, const char* f) { if (a.contains(f)) { auto it = tab.find(a[f].template get<int>()); if (it != tab.end() && it->second.created && it->second.live) foreign = true; } };
                    if (a.contains("k")) chk(K, "k"); if (a.contains("k2")) chk(K, "k2"); if (op[0] == 'c') chk(C, "c"); if (op[0] == 'm') chk(M, "c"); chk(S, "b"); if (a.contains("ib")) { chk(S, "ib"); chk(S, "ob"); } p.insert(foreign ? "P03" : "P04"); }
                else if (x == "cap") p.insert("P04");
                else if (x == "small") p.insert("P16");
                else if (x == "arg" && (op == "cproc" || op == "clast") && a["ob"] == 0 && a["ib"] != 0) { p.insert("P09"); p.insert(family(a)); }
                else if (x == "range" && a.contains("ib") && (a["ib"] != 0 || a["ob"] != 0)) p.insert("P09");
                else p.insert(family(a));
            }
            bad(vector<string>(p.begin(), p.end()), op + " must be refused (" + why + ") but succeeds");
        }
    }

    // --- keys ---------------------------------------------------------------------------------------------------------
    uint64_t idseed() { return 1000 + step; }
    void permissive(const Key& k, uint64_t& now0, video_state& v0, bool& p0) {
        now0 = env::now; v0 = env::video; p0 = env::video_poll_ok; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true;
        if (k.r.not_before > BASE_T + env::now) env::now = k.r.not_before - BASE_T; if (k.r.not_on_or_after <= BASE_T + env::now) env::now = k.r.not_on_or_after - BASE_T - 1;
    }
    bool ta_ok(const Key& k) { sa_uuid me = uuid_of(k.u); for (auto& t : k.r.allowed_tas) { bool ff = true; for (auto b : t.id) if (b != 0xff) ff = false; if (ff || !memcmp(t.id, me.id, 16)) return true; } return false; }
    string check_header(const Key& k, const sa_header& h, bool& rights_bad) {
        rights_bad = false; int ty = k.t == "sym" ? 0 : k.t == "ec" ? 1 : k.t == "rsa" ? 2 : 3;
        if (memcmp(h.magic, "sak0", 4)) return "header without the magic value"; if (h.type != ty) return "header states type " + std::to_string(h.type) + " instead of " + std::to_string(ty);
        if (h.size != k.n) return "header states size " + std::to_string(h.size) + " instead of " + std::to_string(k.n);
        if (k.t == "ec" && h.type_parameters.curve != sa_cv(k.cv)) return "header states another curve";
        if (k.t == "dh") { bytes p = ref::dh_p(k.n); if (h.type_parameters.dh_parameters.p_length != p.size() || memcmp(h.type_parameters.dh_parameters.p, p.data(), p.size()) || h.type_parameters.dh_parameters.g_length != 1 || h.type_parameters.dh_parameters.g[0] != 2) return "header states other DH parameters"; }
        if (!rights_eq(h.rights, k.r)) { rights_bad = true; return "header states rights [" + flags_str(h.rights.usage_flags) + "] children [" + flags_str(h.rights.child_usage_flags) + "] window " + std::to_string((long) (h.rights.not_before - BASE_T)) + ".." + std::to_string((long) (h.rights.not_on_or_after - BASE_T)) + " instead of [" + flags_str(k.r.usage_flags) + "] children [" + flags_str(k.r.child_usage_flags) + "] window " + std::to_string((long) (k.r.not_before - BASE_T)) + ".." + std::to_string((long) (k.r.not_on_or_after - BASE_T)) + (memcmp(h.rights.id, k.r.id, 64) ? " (id differs)" : "") + (memcmp(h.rights.allowed_tas, k.r.allowed_tas, sizeof k.r.allowed_tas) ? " (application list differs)" : ""); }
        return "";
    }
    // header, value and public part of a live key, as reported now
    string audit(Key& k, bool& rights_bad, bool& value_bad) {
        rights_bad = value_bad = false; Ses* x = ses(k.s); if (!PUB && (!x || !x->live)) return ""; caller(PUB ? 0 : x->h, k.u);
        sa_header h; memset(&h, 0x5a, sizeof h); API(key_header, &h, k.h); if (st != SA_STATUS_OK) return "the header of a live key is refused with status " + std::to_string(st);
        string e = check_header(k, h, rights_bad); if (!e.empty()) return e;
        if (!ta_ok(k) || k.r.not_before >= k.r.not_on_or_after) return "";
        uint64_t n0; video_state v0; bool p0; permissive(k, n0, v0, p0); string r;
        try {
        if (k.t == "sym") {
            static const char* D[] = {"sha1", "sha256", "sha384", "sha512"}; string dg = D[rnd.below(4)]; uint8_t o[64]; size_t n = 64; API(key_digest, o, &n, k.h, sa_dg(dg));
            if (st != SA_STATUS_OK) r = "the digest of a live key is refused with status " + std::to_string(st);
            else if (k.known) { bytes want = ref::digest(dg, k.val); if (want != bytes(o, o + std::min<size_t>(n, 64)) || n != want.size()) { value_bad = true; r = "the value of the key differs from what it must be (digest " + dg + ")"; } }
            else if (!k.val.empty()) {}
        } else {
            bytes o(2048); size_t n = o.size(); API(key_get_public, o.data(), &n, k.h);
            if (st != SA_STATUS_OK) r = "the public part of a live key is refused with status " + std::to_string(st);
            else { o.resize(std::min<size_t>(n, o.size())); pkey p = ref::from_spki(o); if (!p) { r = "the public part does not parse"; value_bad = true; } else if (k.pk) { if (EVP_PKEY_eq(p.get(), k.pk.get()) != 1) { value_bad = true; r = "the public part does not belong to the key"; } } else k.pk = p; }
        }
        } catch (...) { env::now = n0; env::video = v0; env::video_poll_ok = p0; throw; }
        env::now = n0; env::video = v0; env::video_poll_ok = p0; return r;
    }
    void add_key(const json& a, int idx, int id, uint64_t h, const sa_rights& asked) {
        const json& x = a["xk"][idx]; int s = a["s"]; fresh(K, h, s, fl(s, 'k'), "key");
        Key& k = K[id]; k.h = h; k.s = s; k.u = a["u"]; k.live = k.created = true; k.t = x["t"]; k.n = x["n"]; k.cv = x["cv"]; k.spec = x; k.r = asked; k.r.usage_flags = flags_of(x["r"]["f"]);
    }
    // a key that was right when it was made is not any more
    vector<string> audit_tags(const string& e) { if (e.find("refused with status " + std::to_string(SA_STATUS_OPERATION_NOT_ALLOWED)) != string::npos) return {"P01", "P03", "P05", "P17"}; return {"P04", "P05", "P17"}; }
    void verify_new(const json& a, int id) {
        string op = a["op"]; Key& k = K[id]; bool rb, vb; string e = audit(k, rb, vb); if (e.empty()) return;
        bool child = op == "derive" || op == "xchg" || op == "unwrap";
        if (rb) bad({child ? (((k.spec.dump().size()), true) ? "P02" : "") : op == "kimportx" ? "P06" : "P17"}, op + ": " + e);
        if (vb) bad({child ? "P12" : op == "kimportx" ? "P06" : "P17"}, op + ": " + e);
        vector<string> p = {"P17", op == "kimportx" ? "P06" : child || op == "kgen" ? "P12" : "P17"}; if (e.find("refused with status " + std::to_string(SA_STATUS_OPERATION_NOT_ALLOWED)) != string::npos) { p.push_back("P01"); p.push_back("P03"); } bad(p, op + ": " + e);
    }
    // a generated symmetric key: its value is one of the random strings drawn
    void learn(Key& k) {
        if (k.t != "sym" || !ta_ok(k) || k.r.not_before >= k.r.not_on_or_after) return;
        uint64_t n0; video_state v0; bool p0; permissive(k, n0, v0, p0); uint8_t o[64]; size_t n = 64; caller(PUB ? 0 : ses(k.s)->h, k.u); API(key_digest, o, &n, k.h, SA_DIGEST_ALGORITHM_SHA256); env::now = n0; env::video = v0; env::video_poll_ok = p0;
        if (st != SA_STATUS_OK || n != 32) return; bytes d(o, o + 32);
        for (auto& e : K) if (&e.second != &k && e.second.t == "sym" && e.second.known && e.second.n == k.n && ref::digest("sha256", e.second.val) == d) bad({"P12"}, "a generated key has the value of another key");
        for (int i = (int) env::rng_log.size() - 1; i >= 0 && i > (int) env::rng_log.size() - 50; i--) if (env::rng_log[i].size() == k.n && ref::digest("sha256", env::rng_log[i]) == d) { k.val = env::rng_log[i]; k.known = true; return; }
    }

    void exec(const json& a, const vector<int>& ids);
    void do_derive(const json& a, const vector<int>& ids); void do_xchg(const json& a, const vector<int>& ids); void do_unwrap(const json& a, const vector<int>& ids);
    void do_cinit(const json& a, const vector<int>& ids); void do_cproc(const json& a, bool last); void do_civ(const json& a); void do_sign(const json& a);
    void do_fill(const json& a); void run(); void finish(); void step_once(const json& a, const vector<int>& ids); std::set<int> lostC, lostM; uint64_t frnd = 1;
    bytes counter(int wrap, Prng& p) { bytes b = p.get(16); if (wrap == 1) { for (int i = 8; i < 16; i++) b[i] = 0xff; b[15] = 0xfe - p.below(3); } else if (wrap == 2) { b.assign(16, 0xff); b[15] = 0xfe - p.below(3); } else if (wrap == 3) { for (int i = 12; i < 16; i++) b[i] = 0xff; b[15] = 0xfd; } return b; }
    void svp_check(const char* what) { for (auto& e : S) if (e.second.live) { if (!e.second.mem->guards_ok()) bad({"P09", "P05"}, string(what) + ": memory outside a protected buffer was written"); if (e.second.mem->get(0, e.second.shadow.size()) != e.second.shadow) bad({"P09"}, string(what) + ": bytes of protected buffer " + std::to_string(e.first) + " changed that must not"); } }
    void guard(Guarded& g, const char* what) { if (!g.guards_ok()) bad({"P16", "P05"}, string(what) + ": memory outside the output buffer was written"); }
    // a call with variable-length clear output: query, exact, larger or too small buffer
    void sized(const json& a, const char* name, size_t need, const std::function<sa_status(void*, size_t*)>& call0, const std::function<void(const bytes&)>& good, bool exact_query = false) {
        auto call = [&](void* o, size_t* n) { size_t n0 = *n; restore = [n, n0] { *n = n0; }; sa_status r = call0(o, n); restore = nullptr; return r; };
        bool q = a["q"]; long cd = a["cd"]; string ok = a["ok"]; 
        if (q) {
            size_t n = PUB ? 0 : 0x5a5a; call(nullptr, &n); if (ok == "any") return; outcome(a, ok == "y"); if (ok != "y") return;
            if (need && n < need) bad({"P16"}, string(name) + ": reported length " + std::to_string(n) + " is less than the " + std::to_string(need) + " bytes produced");
            // a buffer of the reported length must do
            if (string(name) != "mac_compute" && string(name) != "key_export") { size_t n2 = n; Guarded g(n); call(g.p(), &n2); guard(g, name); bool could = true; if (string(name) == "sign") could = false; if (could) { if (st != SA_STATUS_OK) bad({"P16"}, string(name) + ": a buffer of the reported length " + std::to_string(n) + " is refused with status " + std::to_string(st)); if (n2 > n) bad({"P16"}, string(name) + ": produced more than the reported length"); good(g.get(0, n2)); } }
            return;
        }
        if (need == 0 && ok == "y") { size_t n = 0; call(nullptr, &n); if (st != SA_STATUS_OK) bad({"P16"}, string(name) + ": size query refused with status " + std::to_string(st)); need = n; }
        if (need == 0) need = 64;
        size_t cap = (long) need + cd < 0 ? 0 : need + cd; Guarded g(cap); size_t n = cap; call(g.p(), &n); guard(g, name);
        if (st != SA_STATUS_OK && cd < 0 && !g.unchanged()) bad({"P16"}, string(name) + ": refused for want of room but wrote to the buffer");
        outcome(a, ok == "y"); if (ok != "y") return;
        if (n > cap) bad({"P16"}, string(name) + ": reports more bytes than the buffer holds"); if (exact_query && n != need) bad({"P16", family(a)}, string(name) + ": produced " + std::to_string(n) + " bytes instead of " + std::to_string(need));
        for (size_t i = n; i < cap; i++) if (g.p()[i] != 0xA5) bad({"P16"}, string(name) + ": wrote beyond the length it reports");
        good(g.get(0, n));
    }
};

void Run::do_fill(const json& a) {
    int s = a["s"]; Ses* x = ses(s); if (!x || !x->live) return; string kind = a["kind"]; size_t n = a["n"]; vector<uint64_t>& v = *fl(s, kind[0]);
    uint64_t n0 = env::now; video_state v0 = env::video; bool p0 = env::video_poll_ok; env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true;
    caller(x->h, x->u); json rr = {{"f", json::array({"X", "D", "W", "E", "C", "S", "au", "ac", "du", "d14", "d22", "dt", "so", "ca"})}, {"c", json::array()}, {"nb", 0}, {"na", 5000}, {"ta", "all"}};
    sa_rights r = rights_of(rr, 1); sa_import_parameters_symmetric ip = {&r}; uint8_t raw[16] = {1, 2, 3};
    auto mk = [&]() -> uint64_t { sa_key h = 0; API(key_import, &h, SA_KEY_FORMAT_SYMMETRIC_BYTES, raw, 16, &ip); if (st != SA_STATUS_OK) bad({"P04"}, "filling up: a key is refused with status " + std::to_string(st) + " although there is room for more"); fresh(K, h, s, &x->fk, "key"); return h; };
    try {
    uint64_t tk = 0; bool own = false;
    while (v.size() < n) {
        if (kind == "k") v.push_back(mk());
        else if (kind == "b") { auto g = std::make_unique<Guarded>(16); sa_svp_buffer h; API(svp_buffer_create, &h, g->p(), 16); if (st != SA_STATUS_OK) bad({"P04"}, "filling up: a protected buffer is refused with status " + std::to_string(st)); fresh(S, h, s, &x->fs, "buffer"); v.push_back(h); x->fsmem.push_back(std::move(g)); }
        else {
            if (!tk && !own) { if (!x->fk.empty()) tk = x->fk[0]; else { tk = mk(); own = true; } if (!tk) tk = 0; }
            uint64_t h = 0; if (kind == "c") { API(crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, tk, nullptr); } else { API(crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, tk, nullptr); }
            if (st != SA_STATUS_OK) bad({"P04"}, "filling up: a context is refused with status " + std::to_string(st)); if (kind == "c") fresh(C, h, s, &v, "cipher"); else fresh(M, h, s, &v, "mac"); v.push_back(h);
            if (own && v.size() == n) { API(key_release, tk); }
            else if (!own) own = own;
        }
    }
    while (v.size() > n) {
        size_t i = rnd.below(v.size()); uint64_t h = v[i]; v.erase(v.begin() + i);
        if (kind == "k") { API(key_release, h); } else if (kind == "c") { API(crypto_cipher_release, h); } else if (kind == "m") { API(crypto_mac_release, h); } else { void* o; size_t l; API(svp_buffer_release, &o, &l, h); }
        if (st != SA_STATUS_OK) bad({"P04"}, "releasing a live object is refused with status " + std::to_string(st));
    }
    // a few of them are used: the one with the greatest handle, the newest, and any one
    vector<uint64_t> some; if (!v.empty()) { some = {*std::max_element(v.begin(), v.end()), v.back(), v[rnd.below(v.size())]}; }
    for (uint64_t h : some) {
        string e; bytes key(raw, raw + 16), x16 = rnd.get(16), o16(16);
        if (kind == "k") { sa_header hd; API(key_header, &hd, h); if (st != SA_STATUS_OK) e = "header refused"; uint8_t o[64]; size_t n = 64; API(key_digest, o, &n, h, SA_DIGEST_ALGORITHM_SHA256); if (st != SA_STATUS_OK) e = "digest refused"; else if (n != 32 || bytes(o, o + 32) != ref::digest("sha256", key)) e = "another value"; }
        else if (kind == "c") { sa_buffer bi, bo; bi.buffer_type = bo.buffer_type = SA_BUFFER_TYPE_CLEAR; bi.context.clear = {x16.data(), 16, 0}; bo.context.clear = {o16.data(), 16, 0}; size_t n = 16; API(crypto_cipher_process, &bo, h, &bi, &n); if (st != SA_STATUS_OK) e = "processing refused"; else if (o16 != ref::crypt("ecb", true, key, {}, {}, x16)) e = "wrong output"; }
        else if (kind == "m") { API(crypto_mac_process, h, x16.data(), 16); if (st != SA_STATUS_OK) e = "data refused"; }
        else { sa_svp_offset of = {0, 0, 16}; API(svp_buffer_write, h, x16.data(), 16, &of, 1); if (st != SA_STATUS_OK) e = "writing refused"; }
        if (!e.empty()) bad({"P04"}, "the live object with handle " + std::to_string(h) + " does not work: " + e + ", status " + std::to_string(st));
    }
    } catch (...) { env::now = n0; env::video = v0; env::video_poll_ok = p0; throw; }
    env::now = n0; env::video = v0; env::video_poll_ok = p0; st = SA_STATUS_OK;
}

void Run::do_derive(const json& a, const vector<int>& ids) {
    int s = a["s"]; string alg = a["alg"], badk = a["bad"]; Prng p((uint64_t) a["v"] * 1000003 + (uint64_t) a["il"] * 17 + (uint64_t) a["sl"]);
    bytes salt = p.get(a["sl"]), info = p.get(a["il"]); size_t n = a["n"]; sa_rights r = rights_of(a["r"], idseed()); sa_key h = 0xABCDEF; 
    Prng lp((uint64_t) a["v"] * 77 + 5); bytes c1 = lp.get(16), c2 = lp.get(16), c3 = lp.get(16), c4 = lp.get(16);
    sa_key k = alg == "ladder" || alg == "cladder" ? 0 : kh(a["k"], s); sa_digest_algorithm dg = badk == "dg" ? (sa_digest_algorithm) 99 : sa_dg(a["dg"]);
    sa_kdf_parameters_root_key_ladder pl = {c1.data(), 16, c2.data(), 16, c3.data(), 16, c4.data(), n}; sa_kdf_parameters_hkdf ph = {n, dg, k, salt.data(), salt.size(), info.data(), info.size()};
    sa_kdf_parameters_concat pc = {n, dg, k, info.data(), info.size()}; sa_kdf_parameters_cmac pm = {n, k, info.data(), info.size(), (uint8_t) (int) a["ctr"]}; sa_kdf_parameters_netflix pn = {k, alg == "nflx" ? kh(a["k2"], s) : 0};
    if (n != 16 && (alg == "ladder" || alg == "cladder")) { c4.resize(17); pl.c4 = c4.data(); int w = rnd.below(4); pl = {c1.data(), 16, c2.data(), 16, c3.data(), 16, c4.data(), 16}; if (w == 0) pl.c1_length = n; if (w == 1) pl.c2_length = n; if (w == 2) pl.c3_length = n; if (w == 3) pl.c4_length = n; c1.resize(17); c2.resize(17); c3.resize(17); pl.c1 = c1.data(); pl.c2 = c2.data(); pl.c3 = c3.data(); }
    sa_kdf_algorithm ka; void* par;
    if (alg == "ladder") ka = SA_KDF_ALGORITHM_ROOT_KEY_LADDER, par = &pl; else if (alg == "cladder") ka = SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER, par = &pl; else if (alg == "hkdf") ka = SA_KDF_ALGORITHM_HKDF, par = &ph;
    else if (alg == "concat") ka = SA_KDF_ALGORITHM_CONCAT, par = &pc; else if (alg == "x963") ka = SA_KDF_ALGORITHM_ANSI_X963, par = &pc; else if (alg == "kcmac") ka = SA_KDF_ALGORITHM_CMAC, par = &pm; else ka = SA_KDF_ALGORITHM_NETFLIX, par = &pn;
    sa_rights* rp = &r; if (badk == "id") ka = (sa_kdf_algorithm) (rnd.below(2) ? 99 : -1); if (badk == "null") { int w = rnd.below(3); if (w == 0) par = nullptr; else if (w == 1) rp = nullptr; else { if (alg == "hkdf") { ph.info = nullptr; ph.info_length = 5; } else if (alg == "kcmac") { pm.other_data = nullptr; pm.other_data_length = 3; } else if (alg == "concat" || alg == "x963") { pc.info = nullptr; pc.info_length = 5; } else if (alg == "nflx") rp = nullptr; else pl.c2 = nullptr; } }
    API(key_derive, &h, rp, ka, par); outcome(a, a["ok"] == "y"); if (a["ok"] != "y") return;
    add_key(a, 0, ids[0], h, r); Key& nk = K[ids[0]]; Key* pk = a["k"] != 0 && K.count(a["k"]) ? &K[a["k"]] : nullptr;
    if (alg == "ladder" || alg == "cladder") { bytes root = alg == "ladder" ? root_key() : common_root(); if (!root.empty()) { nk.val = ref::ladder(root, c1, c2, c3, c4); nk.known = true; } }
    else if (pk && pk->known) {
        nk.known = true; string d = a["dg"];
        if (alg == "hkdf") nk.val = ref::hkdf(d, pk->val, salt, info, n); else if (alg == "concat") nk.val = ref::concat_kdf(d, pk->val, info, n); else if (alg == "x963") nk.val = ref::x963(d, pk->val, info, n); else if (alg == "kcmac") nk.val = ref::cmac_kdf(pk->val, info, a["ctr"], n);
        else { Key& k2 = K[a["k2"]]; if (k2.known) nk.val = ref::netflix_wrap(pk->val, k2.val); else nk.known = false; }
    }
    verify_new(a, ids[0]);
}

void Run::do_xchg(const json& a, const vector<int>& ids) {
    int s = a["s"], v = a["v"]; string alg = a["alg"], badk = a["bad"]; sa_key h = 0xABCDEF, h2 = 0xABCDEF, h3 = 0xABCDEF; sa_rights r = rights_of(a["r"], idseed()), r2 = rights_of(a["r2"], idseed() + 500), r3 = rights_of(a["r3"], idseed() + 900);
    Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; bytes pub, priv; pkey peer; string cv = k && k->t == "ec" ? k->cv : "p256"; size_t dn = k && k->t == "dh" ? k->n : 64;
    bool dh = alg != "xecdh" || (k && k->t == "dh");
    if (badk == "curve") { if (dh) dn = dn == 64 ? 128 : 64; else cv = cv == "p256" ? "p384" : cv == "x25519" ? "x448" : cv == "x448" ? "x25519" : "p256"; }
    if (dh) { peer = ref::dh_peer(dn, v, priv); } else peer = ref::ec_key(cv, ref::ec_scalar(cv, v * 31 + 7));
    pub = ref::spki(peer.get()); if (badk == "junk") { int w = rnd.below(4); if (w == 0) pub = rnd.get(pub.size()); else if (w == 1) pub.resize(pub.size() / 2); else if (w == 2) pub.resize(3); else pub.assign(pub.size(), 0); }
    sa_key_exchange_algorithm ka = alg == "xdh" ? SA_KEY_EXCHANGE_ALGORITHM_DH : alg == "xecdh" ? SA_KEY_EXCHANGE_ALGORITHM_ECDH : SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH; if (badk == "id") ka = (sa_key_exchange_algorithm) 99;
    sa_key_exchange_parameters_netflix_authenticated_dh np = {alg == "xnflx" ? kh(a["k2"], s) : 0, &h, &r, &h2, &r2};
    if (alg == "xnflx") { API(key_exchange, &h3, &r3, ka, kh(a["k"], s), pub.data(), pub.size(), &np); } else { API(key_exchange, &h, &r, ka, kh(a["k"], s), pub.data(), pub.size(), nullptr); }
    outcome(a, a["ok"] == "y"); if (a["ok"] != "y") return;
    bytes sec; bool known = false; if (k && k->pk) { if (dh) sec = ref::dh_secret(k->pk.get(), dn, priv); else sec = ref::agree(peer.get(), k->pk.get()); known = !sec.empty(); }
    if (alg != "xnflx") { add_key(a, 0, ids[0], h, r); K[ids[0]].known = known; K[ids[0]].val = sec; verify_new(a, ids[0]); return; }
    std::set<uint64_t> hs = {h, h2, h3}; if (hs.size() != 3) bad({"P04"}, "the keys of one exchange share a handle");
    add_key(a, 0, ids[0], h, r); add_key(a, 1, ids[1], h2, r2); add_key(a, 2, ids[2], h3, r3); Key* kek = K.count(a["k2"]) ? &K[a["k2"]] : nullptr;
    if (known && kek && kek->known) { bytes b = ref::netflix_dh(kek->val, sec); bytes e(b.begin(), b.begin() + 16), m(b.begin() + 16, b.begin() + 48); K[ids[0]].val = e; K[ids[1]].val = m; K[ids[2]].val = ref::netflix_wrap(e, m); for (int i : ids) K[i].known = true; }
    for (int i : ids) verify_new(a, i);
}

void Run::do_unwrap(const json& a, const vector<int>& ids) {
    int s = a["s"]; string alg = a["alg"], badk = a["bad"], t = a["t"]; size_t n = a["n"]; Prng p((uint64_t) a["v"] * 31 + step); sa_rights r = rights_of(a["r"], idseed()); Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr;
    bytes content = t == "sym" ? p.get(n) : t == "ec" ? ref::ec_der(a["cv"], a["v"]) : t == "rsa" ? ref::rsa_der(n, a["v"]) : p.get(32);
    bytes value = content; bytes iv = p.get(16), aad = p.get(a["al"]), nonce = p.get(12), tag, in; bytes wk = k && k->known ? k->val : p.get(16); size_t L = content.size(); bool sympar = false;
    bool blk = alg == "ecb" || alg == "cbc", pad = alg == "ecbp" || alg == "cbcp"; bool aes = blk || pad || alg == "ctr" || alg == "gcm"; 
    if (aes && wk.size() != 16 && wk.size() != 32) wk = p.get(16); if ((alg == "cha" || alg == "poly") && wk.size() != 32) wk = p.get(32);
    if (blk && t != "sym") content.resize((L + 15) / 16 * 16, 0);
    if (pad) { int v = 16 - L % 16; content.insert(content.end(), v, (uint8_t) v); if (badk == "pad0") content.back() = 0; if (badk == "pad17") content.back() = 17 + p.below(230); if (badk == "padx") { if (v < 2) { content.back() = 2; if (content[content.size() - 2] == 2) content[content.size() - 2] = 3; } else content[content.size() - v] ^= 0x40; } }
    sa_unwrap_parameters_aes_cbc pcbc; sa_unwrap_parameters_aes_ctr pctr; sa_unwrap_parameters_aes_gcm pgcm; sa_unwrap_parameters_chacha20 pcha; sa_unwrap_parameters_chacha20_poly1305 ppoly; sa_unwrap_parameters_rsa_oaep poaep; sa_unwrap_parameters_ec_elgamal pelg; void* par = nullptr; bytes x;
    if (blk && content.size() % 16) { bytes c2 = content; c2.resize((c2.size() + 15) / 16 * 16, 7); in = ref::crypt(alg, true, wk, alg == "cbc" ? iv : bytes(), {}, c2); in.resize(content.size()); }
    else if (alg == "ecb" || alg == "ecbp") in = ref::crypt("ecb", true, wk, {}, {}, content);
    else if (alg == "cbc" || alg == "cbcp") in = ref::crypt("cbc", true, wk, iv, {}, content);
    else if (alg == "ctr") in = ref::crypt("ctr", true, wk, iv, {}, content);
    else if (alg == "gcm") in = ref::crypt("gcm", true, wk, nonce, aad, content, &tag);
    else if (alg == "cha") { in = ref::crypt("cha", true, wk, iv, {}, content); }
    else if (alg == "poly") in = ref::crypt("poly", true, wk, nonce, aad, content, &tag);
    else if (alg == "rsap" || alg == "rsao") {
        bytes label = alg == "rsao" ? aad : bytes(); if (k && k->t == "rsa" && k->pk) { in = ref::rsa_encrypt(k->pk.get(), alg, a["dg"], a["mg"], label, content); if (in.empty() || badk == "junk") { bytes b(k->n, 0x55); b[0] = 0; b[1] = 3; if (alg == "rsao") b[1] = 0x55; in = ref::rsa_raw(k->pk.get(), b); } } else in = p.get(128);
    } else if (alg == "elg") {
        if (k && k->t == "ec" && k->cv[0] == 'p' && k->pk) { in = ref::elgamal(k->pk.get(), k->cv, a["v"], x); if (in.empty()) { nskipped++; return; } size_t off = a["off"]; if (off + n <= x.size()) value.assign(x.begin() + off, x.begin() + off + n); } else in = p.get(128);
    }
    if (badk == "ct") { if (in.empty()) in = {1}; in[p.below(in.size())] ^= 1 << p.below(8); } if (badk == "tag") tag[p.below(16)] ^= 1 << p.below(8); if (badk == "aad") { if (aad.empty()) aad = {1}; else aad[p.below(aad.size())] ^= 1; }
    if (badk == "len") { if (in.empty() || rnd.below(2)) in.push_back(1); else in.pop_back(); if ((pad || blk) && rnd.below(4) == 0) in.clear(); }
    size_t tl = badk == "tlen" ? vector<size_t>{0, 17, 32}[rnd.below(3)] : 16; tag.resize(40); size_t il = badk == "iv" ? vector<size_t>{0, 1, 15, 17}[rnd.below(4)] : 16; iv.resize(20);
    sa_unwrap_type_parameters_ec tp = {sa_cv(a["cv"])}; void* tpar = t == "ec" ? &tp : nullptr; sa_key_type kt = t == "sym" ? SA_KEY_TYPE_SYMMETRIC : t == "ec" ? SA_KEY_TYPE_EC : t == "rsa" ? SA_KEY_TYPE_RSA : SA_KEY_TYPE_DH;
    if (alg == "cbc" || alg == "cbcp") { pcbc = {iv.data(), il}; par = &pcbc; } else if (alg == "ctr") { pctr = {iv.data(), il}; par = &pctr; } else if (alg == "gcm") { pgcm = {nonce.data(), 12, aad.data(), aad.size(), tag.data(), tl}; par = &pgcm; }
    else if (alg == "cha") { pcha = {iv.data(), 4, iv.data() + 4, 12}; if (badk == "iv") { if (rnd.below(2)) pcha.counter_length = il; else pcha.nonce_length = il; } par = &pcha; } else if (alg == "poly") { ppoly = {nonce.data(), 12, aad.data(), aad.size(), tag.data(), tl}; par = &ppoly; }
    else if (alg == "rsao") { poaep = {sa_dg(a["dg"]), sa_dg(a["mg"]), aad.data(), aad.size()}; par = &poaep; } else if (alg == "elg") { pelg = {(size_t) a["off"], n}; par = &pelg; }
    sa_cipher_algorithm ca = sa_ca(alg); sa_rights* rp = &r; void* inp = in.data(); size_t inl = in.size(); bytes z(1); if (!inp) inp = z.data();
    if (badk == "id") { int w = rnd.below(t == "ec" ? 3 : 2); if (w == 0) ca = (sa_cipher_algorithm) 99; else if (w == 1) kt = (sa_key_type) 77; else tp.curve = (sa_elliptic_curve) 99; }
    if (badk == "null") { int w = rnd.below(3); if (w == 0) rp = nullptr; else if (w == 1) inp = nullptr; else if (par) par = nullptr; else rp = nullptr; }
    sa_key h = 0xABCDEF; Guarded gin(inp ? bytes((uint8_t*) inp, (uint8_t*) inp + inl) : bytes());
    API(key_unwrap, &h, rp, kt, tpar, ca, par, kh(a["k"], s), inp ? gin.p() : nullptr, inl); guard(gin, "unwrap"); outcome(a, a["ok"] == "y"); if (a["ok"] != "y") return;
    add_key(a, 0, ids[0], h, r); Key& nk = K[ids[0]]; nk.val = value; nk.known = (k && (k->known || k->pk));
    if (nk.known && t != "sym") { nk.pk = ref::rsa_key(value); nk.priv = true; }
    verify_new(a, ids[0]);
}

void Run::do_cinit(const json& a, const vector<int>& ids) {
    int s = a["s"]; string alg = a["alg"], badk = a["bad"]; Prng p((uint64_t) a["v"] * 97 + 3); Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; bytes iv, aad = p.get(alg == "gcm" || alg == "poly" ? (size_t) a["al"] : 0), label = p.get(a["ll"]);
    size_t il = 16; if (alg == "ctr") iv = counter(a["wrap"], p); else if (alg == "gcm" || alg == "poly") iv = p.get(12), il = 12; else iv = p.get(16); bytes ivb = iv; ivb.resize(20);
    if (alg == "cha") { ivb[2] = ivb[3] = 0; iv[2] = iv[3] = 0; }     // far from the end of the 32-bit block counter
    size_t wl = vector<size_t>{0, 1, 11, 13, 15, 17}[rnd.below(6)]; if (badk == "iv") il = wl; bool nulliv = badk == "iv" && rnd.below(4) == 0;
    sa_cipher_parameters_aes_cbc pcbc = {nulliv ? nullptr : ivb.data(), il}; sa_cipher_parameters_aes_ctr pctr = {nulliv ? nullptr : ivb.data(), il}; sa_cipher_parameters_aes_gcm pg = {nulliv ? nullptr : ivb.data(), il, aad.data(), aad.size()}; sa_cipher_parameters_chacha20 pc = {ivb.data(), 4, ivb.data() + 4, 12}; sa_cipher_parameters_chacha20_poly1305 pp = {nulliv ? nullptr : ivb.data(), il, aad.data(), aad.size()};
    sa_cipher_parameters_rsa_oaep po = {sa_dg(a["dg"]), sa_dg(a["mg"]), label.data(), label.size()}; if (alg == "cha" && badk == "iv") { if (nulliv) pc.nonce = nullptr; else if (rnd.below(2)) pc.counter_length = wl; else pc.nonce_length = wl; }
    void* par = alg == "cbc" || alg == "cbcp" ? (void*) &pcbc : alg == "ctr" ? (void*) &pctr : alg == "gcm" ? (void*) &pg : alg == "cha" ? (void*) &pc : alg == "poly" ? (void*) &pp : alg == "rsao" ? (void*) &po : nullptr; if (badk == "null") par = nullptr;
    sa_crypto_cipher_context h = 0xABCDEF; API(crypto_cipher_init, &h, sa_ca(alg), a["m"] == "enc" ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, kh(a["k"], s), par); outcome(a, a["ok"] == "y"); if (a["ok"] != "y") return;
    fresh(C, h, s, fl(s, 'c'), "cipher"); Ctx& c = C[ids[0]]; c.h = h; c.s = s; c.u = a["u"]; c.live = c.created = true; c.alg = alg; c.m = a["m"]; c.dg = a["dg"]; c.mg = a["mg"]; c.label = label; c.aad = aad; c.iv = alg == "ecb" || alg == "ecbp" ? bytes() : iv; c.known = k && k->known; if (k) { c.key = k->val; c.pk = k->pk; c.cv = k->cv; c.kn = k->n; }
}

void Run::do_civ(const json& a) {
    int s = a["s"]; Prng p((uint64_t) a["v"] * 89 + 1); auto it = C.find(a["c"]); bool ctr = it != C.end() && it->second.alg == "ctr"; bytes iv = ctr ? counter(a["wrap"], p) : p.get(16), b = iv; b.resize(20);
    API(crypto_cipher_update_iv, ch(a["c"], s), b.data(), (size_t) a["il"]); outcome(a, a["ok"] == "y"); if (a["ok"] != "y") return; it->second.iv = iv; it->second.fed.clear(); it->second.plain.clear();
}

void Run::do_cproc(const json& a, bool last) {
    const char* fn = last ? "process_last" : "process"; int s = a["s"]; auto it = C.find(a["c"]); Ctx* c = it != C.end() && it->second.created ? &it->second : nullptr; string alg = c ? c->alg : "ecb"; bool dec = c && c->m == "dec"; size_t n = a["n"]; bool q = a["q"]; string ok = a["ok"]; Prng p((uint64_t) a["d"] * 1009 + step);
    bool asym = alg == "rsap" || alg == "rsao" || alg == "elg", pad = alg == "ecbp" || alg == "cbcp", block = pad || alg == "ecb" || alg == "cbc", aead = alg == "gcm" || alg == "poly"; bool want = ok == "y";
    bytes in, expect_plain; bytes plain0 = c ? c->plain : bytes();       // decryption: the plaintext stream so far
    if (asym) {
        bool can = c && c->pk && n == (alg == "elg" ? 4 * c->kn : c->kn);
        if (!can) in = p.get(n);
        else if (alg == "elg") { in = ref::elgamal(c->pk.get(), c->cv, a["d"], expect_plain); if (in.empty()) { nskipped++; return; } }
        else {
            size_t mx = alg == "rsap" ? c->kn - 11 : 0; if (alg == "rsao") { size_t h = ref::digest(c->dg, {}).size(); mx = c->kn >= 2 * h + 2 ? c->kn - 2 * h - 2 : 0; if (c->kn < 2 * h + 2) { nskipped++; return; } }
            bytes m = p.get(std::min<size_t>(mx, (size_t) a["pl"] * (p.below(6) == 0 ? 50 : 1)));
            if (a["v"] == "junk") { bytes b(c->kn, 0x55); b[0] = 0; b[1] = 3; if (alg == "rsao") b[1] = 0x55; int w = rnd.below(3); if (w == 0) in = ref::rsa_raw(c->pk.get(), b); else if (w == 1 && alg == "rsao") { bytes l2 = c->label; l2.push_back(9); in = ref::rsa_encrypt(c->pk.get(), alg, c->dg, c->mg, l2, m); } else if (w == 2) { in.assign(c->kn, 0xff); } else { b[1] = 2; for (size_t i = 2; i < b.size(); i++) b[i] = 0x77; in = ref::rsa_raw(c->pk.get(), b); if (alg == "rsao") in = ref::rsa_raw(c->pk.get(), b); } }
            else { in = ref::rsa_encrypt(c->pk.get(), alg, c->dg, c->mg, c->label, m); expect_plain = m; if (in.empty()) { nskipped++; return; } }
        }
    } else if (c && c->known && dec && (!block || (c->fed.size() % 16 == 0 && n % 16 == 0))) {
        bytes pl = p.get(n);
        if (pad && n >= 16) { string pv = a["pv"]; uint8_t* b = pl.data() + n - 16; if (pv == "ok") { int v = 1 + p.below(16); for (int i = 16 - v; i < 16; i++) b[i] = v; if (p.below(3) == 0 && v < 16) b[15 - v] = v; } else if (pv == "zero") b[15] = 0; else if (pv == "big") b[15] = 17 + p.below(239); else { int v = 2 + p.below(15); for (int i = 16 - v; i < 16; i++) b[i] = v; b[16 - v + p.below(v - 1)] ^= 1 << p.below(8); } }
        bytes all = ref::cat({c->plain, pl}); bytes ct = ref::crypt(alg, true, c->key, c->iv, c->aad, all, nullptr); in.assign(ct.begin() + c->plain.size(), ct.end());
        plain0 = all;
    } else in = p.get(n);
    // input and output areas
    int ib = a["ib"], ob = a["ob"]; long io = a["io"], oo = a["oo"], cd = a["cd"]; bool ip = a["ip"]; size_t need = a.contains("xl") ? (size_t) a["xl"] : n; if (asym && c) need = c->kn; string bt = a["bt"];
    sa_buffer bi, bo; memset(&bi, 0, sizeof bi); memset(&bo, 0, sizeof bo); std::unique_ptr<Guarded> gi, go; bool is = ib != 0, os = ob != 0; size_t outlen = std::max<size_t>(need, 0);
    bool short_in = a["short"]; auto norm = [](long o) { return o < 0 ? (size_t) o : (size_t) o; };
    Svp* sib = is && S.count(ib) ? &S[ib] : nullptr; Svp* sob = os && S.count(ob) ? &S[ob] : nullptr;
    if (is) {
        bi.buffer_type = SA_BUFFER_TYPE_SVP; bi.context.svp.buffer = sh(ib, s); bi.context.svp.offset = norm(io);
        if (sib && sib->live && io >= 0 && io + n <= sib->shadow.size() && n) { if (rnd.below(2) && sib->s == s && !PUB) { sa_svp_offset of = {(size_t) io, 0, n}; sa_uuid cu0 = cu; ta_client cs0 = cs; API(svp_buffer_write, sib->h, in.data(), n, &of, 1); cu = cu0; cs = cs0; if (st != SA_STATUS_OK && a["ok"] == "y") bad({"P09"}, "writing to a protected buffer is refused with status " + std::to_string(st)); } memcpy(sib->mem->p() + io, in.data(), n); memcpy(sib->shadow.data() + io, in.data(), n); }
    } else if (ip && !is && !os) {
        size_t cap = io + std::max(n, need + (cd < 0 ? 0 : cd)); bytes m(cap, 0xA5); if (n) memcpy(m.data() + io, in.data(), n); gi = std::make_unique<Guarded>(m); bi.buffer_type = SA_BUFFER_TYPE_CLEAR; bi.context.clear = {gi->p(), io + n - (short_in && n ? 1 : 0), (size_t) io}; if (short_in && !n) { bi.context.clear.length = io ? io - 1 : 0; if (!io) bi.context.clear.offset = 1; }
    } else {
        bytes m(io + n, 0x11); if (n) memcpy(m.data() + io, in.data(), n); gi = std::make_unique<Guarded>(m); bi.buffer_type = SA_BUFFER_TYPE_CLEAR; bi.context.clear = {gi->p(), io + n, (size_t) io};
        if (short_in) { if (n) bi.context.clear.length--; else { bi.context.clear.offset = io + 1; } }
    }
    if (os) { bo.buffer_type = SA_BUFFER_TYPE_SVP; bo.context.svp.buffer = sh(ob, s); bo.context.svp.offset = norm(oo); }
    else if (ip && !is) { bo.buffer_type = SA_BUFFER_TYPE_CLEAR; long len = io + (long) need + cd; if (len < 0) len = 0; if (cd < 0 && need == 0 && io == 0) { nskipped++; return; } if ((size_t) len > gi->n) len = gi->n; bo.context.clear = {gi->p(), (size_t) len, (size_t) io}; oo = io; }
    else { if (cd < 0 && need == 0 && oo == 0) oo = 1; long len = oo + (long) need + cd; if (len < 0) len = 0; go = std::make_unique<Guarded>(std::max<size_t>(len, 0)); bo.buffer_type = SA_BUFFER_TYPE_CLEAR; bo.context.clear = {go->p(), (size_t) len, (size_t) oo}; }
    if (bt == "in") bi.buffer_type = (sa_buffer_type) 7; if (bt == "out") bo.buffer_type = (sa_buffer_type) 7; sa_buffer bi0 = bi, bo0 = bo; size_t btp = n;
    size_t tl0 = 0; bytes tag; std::unique_ptr<Guarded> gt; sa_cipher_end_parameters_aes_gcm ep; void* par = nullptr; bytes reftag; 
    if (last && aead) {
        size_t tl = a["tl"]; bytes all;
        if (dec) { bytes ct = ref::cat({c->fed, in}); if (c->known) ref::crypt(alg, false, c->key, c->iv, c->aad, ct, &reftag); else reftag.assign(16, 0); tag = reftag; tag.resize(std::max<size_t>(tl, 16), 0); if (!a["tok"]) { size_t m = std::min<size_t>(std::max<size_t>(tl, 1), 16); tag[p.below(m)] ^= 1 << p.below(8); } tag.resize(tl); gt = std::make_unique<Guarded>(tag); }
        else { if (c->known) { ref::crypt(alg, true, c->key, c->iv, c->aad, ref::cat({c->fed, in}), &reftag); } gt = std::make_unique<Guarded>(tl, 0x3c); }
        ep.tag = gt->p(); ep.tag_length = tl; tl0 = tl; par = &ep; if (a["bad"] == "null") par = nullptr; if (a["bad"] == "nulltag") ep.tag = nullptr;
    }
    sa_crypto_cipher_context h = ch(a["c"], s); sa_buffer* po = q ? nullptr : &bo; caller(session_handle(s), a["u"]);
    {
        bytes im = gi ? gi->get(0, gi->n) : bytes(), tm = gt ? gt->get(0, gt->n) : bytes(); auto pos = [](const sa_buffer& x) { return x.buffer_type == SA_BUFFER_TYPE_SVP ? x.context.svp.offset : x.context.clear.offset; };
        restore = [&, im, tm] { bi = bi0; bo = bo0; btp = n; if (gi && !im.empty()) memcpy(gi->p(), im.data(), im.size()); if (gt && !tm.empty()) memcpy(gt->p(), tm.data(), tm.size()); if (par) { ep.tag_length = tl0; } };
        untouched = [&]() -> string { if (pos(bi) != pos(bi0) || pos(bo) != pos(bo0)) return "a buffer position moved"; if (btp != n) return "the byte count changed"; if (broken_ctx && os && sob && sob->live) { bytes m = sob->mem->get(0, sob->shadow.size()); for (size_t i = 0; i < m.size(); i++) if (((long) i < oo || i >= oo + outlen + 16) && m[i] != sob->shadow[i]) return "bytes of the protected buffer outside the output changed"; sob->shadow = m; } return ""; };
        struct R { Run& r; ~R() { r.restore = nullptr; r.untouched = nullptr; } } rr{*this};
        if (last) { API(crypto_cipher_process_last, po, h, &bi, &btp, par); } else { API(crypto_cipher_process, po, h, &bi, &btp); }
    }
    if (gi) guard(*gi, fn); if (go) guard(*go, fn); if (gt) guard(*gt, fn);
    bool okc = st == SA_STATUS_OK;
    if (!okc) {    // nothing the caller can see may have changed
        auto same = [&](const sa_buffer& x, const sa_buffer& y) { return x.buffer_type == y.buffer_type && (x.buffer_type != SA_BUFFER_TYPE_SVP ? x.context.clear.buffer == y.context.clear.buffer && x.context.clear.length == y.context.clear.length && x.context.clear.offset == y.context.clear.offset : x.context.svp.buffer == y.context.svp.buffer && x.context.svp.offset == y.context.svp.offset); };
        if (ok == "n" && (!same(bi, bi0) || !same(bo, bo0))) bad({"P05", family(a)}, string(fn) + ": a refused call moved a buffer position");
        if (ok == "n" && btp != n) bad({"P05", family(a)}, string(fn) + ": a refused call changed the byte count from " + std::to_string(n) + " to " + std::to_string(btp));
        bool verify = false, small = false; for (auto& w : a["why"]) { if (w == "verify" || w == "crypt") verify = true; if (w == "small") small = true; }
        if (small && go && !go->unchanged()) bad({"P16"}, string(fn) + ": refused for want of room but wrote to the buffer");
        if (ok == "n" && os && !verify) svp_check(fn); else if (ok == "n" && os && sob && sob->live) sob->shadow = sob->mem->get(0, sob->shadow.size());
    }
    if (ok == "any") { if (okc && q) {} return; }
    outcome(a, want); if (!want) return;
    if (q) { if (btp < need) bad({"P16"}, string(fn) + ": reported length " + std::to_string(btp) + " is less than the " + std::to_string(need) + " bytes required"); if (go && !go->unchanged()) bad({"P16"}, string(fn) + ": a size query wrote output"); return; }
    // expected output
    bytes expect; bool have = c->known || asym; size_t produced;
    if (asym) { expect = expect_plain; produced = expect.size(); have = c->pk != nullptr; }
    else {
        size_t f0 = c->fed.size(), o0 = a["xo"][0]; bytes fed = ref::cat({c->fed, in});
        if (pad && last && !dec) { int v = 16 - fed.size() % 16; bytes x = fed; x.insert(x.end(), v, (uint8_t) v); produced = x.size() - o0; if (have) { bytes y = ref::crypt(alg, true, c->key, c->iv, {}, x); expect.assign(y.begin() + o0, y.end()); } }
        else if (pad && last) { if (have) { bytes y = ref::crypt(alg, false, c->key, c->iv, {}, fed); int v = y.back(); y.resize(y.size() - v); expect.assign(y.begin() + std::min(o0, y.size()), y.end()); produced = expect.size(); } else produced = btp; }
        else { size_t o1 = last ? fed.size() : (size_t) a["xo"][1]; produced = o1 - o0; if (have) { bytes y = ref::crypt(alg, !dec, c->key, c->iv, c->aad, fed); expect.assign(y.begin() + o0, y.begin() + o1); } }
        c->fed = fed; c->plain = plain0; (void) f0;
    }
    string F = family(a);
    if (btp != produced && have) bad({F, "P16"}, string(fn) + ": reports " + std::to_string(btp) + " bytes instead of " + std::to_string(produced));
    size_t ino = bi.buffer_type == SA_BUFFER_TYPE_SVP ? bi.context.svp.offset : bi.context.clear.offset, outo = bo.buffer_type == SA_BUFFER_TYPE_SVP ? bo.context.svp.offset : bo.context.clear.offset;
    if (ino != (size_t) io + n) bad({F}, string(fn) + ": the input position moved to " + std::to_string(ino) + " instead of " + std::to_string(io + n));
    if (have && outo != (size_t) oo + produced) bad({F}, string(fn) + ": the output position moved to " + std::to_string(outo) + " instead of " + std::to_string(oo + produced));
    if (have) {
        bytes got; Guarded* g = os ? sob->mem.get() : ip && !is ? gi.get() : go.get(); got = g->get(oo, oo + produced);
        if (got != expect) bad({F}, string(fn) + " (" + alg + " " + (c ? c->m : "") + "): output " + hex(got) + " instead of " + hex(expect) + " at stream position " + std::to_string((int) (a["xo"].size() ? (int) a["xo"][0] : 0)));
        if (os) { memcpy(sob->shadow.data() + oo, expect.data(), expect.size()); if (!last || !pad) svp_check(fn); else { size_t lim = oo + need; for (size_t i = 0; i < sob->shadow.size(); i++) if ((long) i < oo || i >= lim) { if (sob->mem->p()[i] != sob->shadow[i]) bad({"P09"}, string(fn) + ": changed bytes of the protected buffer outside its output"); } sob->shadow = sob->mem->get(0, sob->shadow.size()); } }
        else if (go) { size_t lim = last && pad ? oo + need : asym ? oo + need : oo + produced; for (size_t i = 0; i < go->n; i++) if (((long) i < oo || i >= lim) && go->p()[i] != 0xA5) bad({"P16", F}, string(fn) + ": wrote outside the output it reports"); }
    } else if (os) sob->shadow = sob->mem->get(0, sob->shadow.size());
    if (last && aead && !dec && have) { size_t tl = a["tl"]; if (gt->get(0, tl) != bytes(reftag.begin(), reftag.begin() + tl)) bad({F}, "process_last: wrong tag"); }
}

void Run::do_sign(const json& a) {
    int s = a["s"]; string alg = a["alg"], badk = a["bad"]; Prng p((uint64_t) a["v"] * 53 + 11); bytes in = p.get(a["n"]); Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; bool precomp = a["pre"]; sa_digest_algorithm dg = badk == "dg" ? (sa_digest_algorithm) 99 : sa_dg(a["dg"]), mg = badk == "mg" ? (sa_digest_algorithm) 99 : sa_dg(a["mg"]); long sl = a["sl"];
    if (sl < 0 && a["ok"] == "y") sl = 0;
    sa_sign_parameters_rsa_pkcs1v15 p1 = {dg, precomp}; sa_sign_parameters_rsa_pss p2 = {dg, mg, precomp, (size_t) sl}; sa_sign_parameters_ecdsa p3 = {dg, precomp}; void* par = alg == "pkcs1" ? (void*) &p1 : alg == "pss" ? (void*) &p2 : alg == "ecdsa" ? (void*) &p3 : nullptr; if (badk == "null") par = nullptr;
    sa_signature_algorithm sa = alg == "pkcs1" ? SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 : alg == "pss" ? SA_SIGNATURE_ALGORITHM_RSA_PSS : alg == "ecdsa" ? SA_SIGNATURE_ALGORITHM_ECDSA : SA_SIGNATURE_ALGORITHM_EDDSA; uint8_t z = 0; Guarded gin(in); bytes first;
    auto call = [&](void* o, size_t* n) { API(crypto_sign, o, n, sa, kh(a["k"], s), gin.p(), in.size(), par); guard(gin, "sign"); return st; };
    sized(a, "sign", a["xl"], call, [&](const bytes& sig) {
        if (k && k->pk) { if (!ref::verify(k->pk.get(), alg, a["dg"], a["mg"], sl, precomp, in, sig)) bad({"P18"}, "sign (" + alg + " " + a["dg"].get<string>() + "): the signature is not valid"); }
        if ((alg == "pkcs1" || alg == "eddsa") && first.empty()) { first = sig; bytes o(sig.size()); size_t n = o.size(); call(o.data(), &n); if (st != SA_STATUS_OK || o != first) bad({"P18"}, "sign (" + alg + "): a second signature of the same message differs"); }
    }, true);
}

void Run::exec(const json& a, const vector<int>& ids) {
    string op = a["op"]; int s = a.value("s", 0), u = a.value("u", 0); bool want = a["ok"] == "y"; nexec++;
    if (op == "tick") { env::now = a["to"]; return; }
    if (op == "outs") { auto& o = a["o"]; env::video = {o["svp"], o["au"], o["ac"], o["du"], o["d14"], o["d22"]}; env::video_poll_ok = o["poll"]; return; }
    if (op == "open") {
        if (PUB) { if (want) { Ses& x = E[ids[0]]; x.h = 0; x.u = u; x.live = x.created = true; } return; }
        ta_client h = 0xABCDEF; cu = uuid_of(u); RAW("init", ta_sa_init(&h, &cu)); if (want && st != SA_STATUS_OK) bad({"P03"}, "opening a session is refused with status " + std::to_string(st)); if (!want && st == SA_STATUS_OK) bad({"P03", "P04"}, "a session is opened although all places are taken"); if (!want) return;
        for (auto& e : E) if (e.second.live && e.second.h == h) bad({"P03", "P04"}, "a new session got the handle of an open one"); for (auto f : fillses) if (f == h) bad({"P03", "P04"}, "a new session got the handle of an open one");
        Ses& x = E[ids[0]]; x.h = h; x.u = u; x.live = x.created = true;
        if (rnd.below(2)) { // a new session starts empty
            caller(h, u); sa_header hd; for (int i = 0; i < 3; i++) { API(key_header, &hd, (sa_key) i); if (st == SA_STATUS_OK) bad({"P03"}, "a new session already has a key"); API(crypto_mac_release, (uint64_t) i); if (st == SA_STATUS_OK) bad({"P03"}, "a new session already has a MAC context"); API(crypto_cipher_release, (uint64_t) i); if (st == SA_STATUS_OK) bad({"P03"}, "a new session already has a cipher context"); }
        }
        return;
    }
    if (op == "sfill") {
        if (PUB) return; size_t n = a["n"]; cu = uuid_of(1);
        while (fillses.size() < n) { ta_client h = 0; RAW("init", ta_sa_init(&h, &cu)); if (st != SA_STATUS_OK) bad({"P03", "P04"}, "opening a session is refused with status " + std::to_string(st) + " although there are places left"); for (auto f : fillses) if (f == h) bad({"P03", "P04"}, "a new session got the handle of an open one"); for (auto& e : E) if (e.second.live && e.second.h == h) bad({"P03", "P04"}, "a new session got the handle of an open one"); fillses.push_back(h); }
        while (fillses.size() > n) { size_t i = rnd.below(fillses.size()); ta_client h = fillses[i]; fillses.erase(fillses.begin() + i); RAW("close", ta_sa_close(h, &cu)); if (st != SA_STATUS_OK) bad({"P03"}, "closing a session is refused"); }
        if (!fillses.empty()) { uint64_t h = *std::max_element(fillses.begin(), fillses.end()), n0 = env::now; video_state v0 = env::video; bool p0 = env::video_poll_ok; env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true; caller(h, 1);
            sa_rights r = rights_of({{"f", json::array({"E"})}, {"c", json::array()}, {"nb", 0}, {"na", 5000}, {"ta", "all"}}, 1); sa_import_parameters_symmetric ip = {&r}; uint8_t raw[16] = {4}; sa_key k = 0; string e;
            API(key_import, &k, SA_KEY_FORMAT_SYMMETRIC_BYTES, raw, 16, &ip); if (st != SA_STATUS_OK) e = "importing a key"; else { API(key_release, k); if (st != SA_STATUS_OK) e = "releasing a key"; }
            env::now = n0; env::video = v0; env::video_poll_ok = p0; if (!e.empty()) bad({"P03", "P04"}, "the open session with handle " + std::to_string(h) + " does not work: " + e + " is refused with status " + std::to_string(st)); }
        return;
    }
    if (op == "fill") { if (a["ok"] == "y") do_fill(a); return; }
    uint64_t sess = session_handle(s); caller(sess, u);
    if (op == "close") {
        if (PUB) return; RAW("close", ta_sa_close(sess, &cu)); outcome(a, want); if (!want) return;
        E[s].live = false; E[s].fk.clear(); E[s].fc.clear(); E[s].fm.clear(); E[s].fs.clear(); E[s].fsmem.clear(); for (auto& e : K) if (e.second.s == s) e.second.live = false; for (auto& e : C) if (e.second.s == s) e.second.live = false; for (auto& e : M) if (e.second.s == s) e.second.live = false;
        for (auto& e : S) if (e.second.s == s) e.second.live = false;
        return;
    }
    if (op == "kimport") {
        string t = a["t"], b = a["bad"]; size_t n = a["n"]; sa_rights r = rights_of(a["r"], idseed()); bytes raw; sa_key_format f; void* par; sa_import_parameters_symmetric ps = {&r}; sa_import_parameters_rsa_private_key_info pr = {&r}; sa_import_parameters_ec_private_bytes pe = {&r, SA_ELLIPTIC_CURVE_NIST_P256}; string cv = a["cv"];
        if (t == "sym") { raw = Prng((uint64_t) a["v"] * 11 + 1).get(n); f = SA_KEY_FORMAT_SYMMETRIC_BYTES; par = &ps; } else if (t == "rsa") { raw = ref::rsa_der(n, a["v"]); f = SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO; par = &pr; }
        else { string c2 = cv; if (b == "othercv") { static const char* cvs[] = {"p192", "p224", "p256", "p384", "p521", "ed25519", "ed448", "x25519", "x448"}; do c2 = cvs[rnd.below(9)]; while (c2 == cv); } raw = ref::ec_der(c2, a["v"]); f = SA_KEY_FORMAT_EC_PRIVATE_BYTES; pe.curve = sa_cv(cv); par = &pe; }
        if (b == "id") { if (t == "ec" && rnd.below(2)) pe.curve = (sa_elliptic_curve) (rnd.below(2) ? 99 : -1); else f = (sa_key_format) 77; } if (b == "trunc") raw.resize(raw.size() - 1 - rnd.below(raw.size() - 1)); if (b == "flip") raw[rnd.below(2)] ^= 0x20;
        Guarded g(raw); sa_key h = 0xABCDEF; API(key_import, &h, f, g.p(), raw.size(), par); guard(g, "import"); outcome(a, want); if (!want) return;
        add_key(a, 0, ids[0], h, r); Key& k = K[ids[0]]; k.known = true; k.val = raw; if (t == "rsa") k.pk = ref::rsa_key(raw), k.priv = true; if (t == "ec") k.pk = ref::rsa_key(raw), k.priv = true; verify_new(a, ids[0]); return;
    }
    if (op == "kgen") {
        string t = a["t"], b = a["bad"]; size_t n = a["n"]; sa_rights r = rights_of(a["r"], idseed()); sa_generate_parameters_symmetric ps = {n}; sa_generate_parameters_rsa pr = {n}; sa_generate_parameters_ec pe = {sa_cv(a["cv"])}; bytes dp = t == "dh" ? ref::dh_p(n) : bytes(), dg = {2}; sa_generate_parameters_dh pd = {dp.data(), dp.size(), dg.data(), 1};
        void* par = t == "sym" ? (void*) &ps : t == "rsa" ? (void*) &pr : t == "ec" ? (void*) &pe : (void*) &pd; sa_key_type kt = t == "sym" ? SA_KEY_TYPE_SYMMETRIC : t == "rsa" ? SA_KEY_TYPE_RSA : t == "ec" ? SA_KEY_TYPE_EC : SA_KEY_TYPE_DH; sa_rights* rp = &r;
        if (b == "id") { if (t == "ec" && rnd.below(2)) pe.curve = (sa_elliptic_curve) 99; else kt = (sa_key_type) (rnd.below(2) ? 77 : -1); } if (b == "null") { if (rnd.below(2)) par = nullptr; else rp = nullptr; }
        sa_key h = 0xABCDEF; API(key_generate, &h, rp, kt, par); outcome(a, want); if (!want) return; add_key(a, 0, ids[0], h, r); verify_new(a, ids[0]); learn(K[ids[0]]);
        Key& k = K[ids[0]]; if (k.pk) for (auto& e : K) if (e.first != ids[0] && e.second.created && e.second.t == k.t && e.second.pk && EVP_PKEY_eq(e.second.pk.get(), k.pk.get()) == 1) bad({"P12"}, "a generated key has the value of another key"); return;
    }
    if (op == "derive") return do_derive(a, ids);
    if (op == "xchg") return do_xchg(a, ids);
    if (op == "unwrap") return do_unwrap(a, ids);
    if (op == "cinit") return do_cinit(a, ids);
    if (op == "civ") return do_civ(a);
    if (op == "cproc") return do_cproc(a, false);
    if (op == "clast") return do_cproc(a, true);
    if (op == "sign") return do_sign(a);
    if (op == "kexport") {
        Prng p((uint64_t) a["v"]); size_t ml = a["ml"]; bytes mix = p.get(32); Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; sa_key h = kh(a["k"], s); bytes blob;
        sized(a, "key_export", 0, [&](void* o, size_t* n) { API(key_export, o, n, ml ? mix.data() : nullptr, ml, h); return st; }, [&](const bytes& b) { blob = b; });
        if (!want || a["q"]) return; Blob& x = X[ids[0]]; x.b = blob; x.created = true; x.r = k->r; x.known = k->known; x.val = k->val; x.pk = k->pk; x.t = k->t; x.cv = k->cv; x.n = k->n;
        if (k->known && k->val.size() >= 12) { auto i = std::search(blob.begin(), blob.end(), k->val.begin(), k->val.begin() + 12); if (i != blob.end()) bad({"P06"}, "the exported blob shows the key value"); }
        return;
    }
    if (op == "kimportx") {
        string mut = a["mut"]; auto it = X.find(a["b"]); bytes b; Prng p((uint64_t) a["pos"]); if (it != X.end() && it->second.created) b = it->second.b; else if (want) { nskipped++; return; } else b = p.get(300);
        bytes o = b; auto i2 = X.find(a["b2"]); bytes c = i2 != X.end() && i2->second.created ? i2->second.b : p.get(b.size());
        if (mut == "flip" && !b.empty()) b[p.below(b.size())] ^= 1 << p.below(8); if (mut == "trunc") { size_t l = b.size(); b.resize(rnd.below(3) == 0 ? p.below(l) : l - 1 - p.below(std::min<size_t>(l - 1, 40))); } if (mut == "ext") { bytes e = p.get(1 + p.below(40)); b.insert(b.end(), e.begin(), e.end()); }
        if (mut == "mixhead") { size_t l = p.below(std::min(b.size(), c.size()) + 1); std::copy(c.begin(), c.begin() + l, b.begin()); } if (mut == "mixtail") { size_t l = p.below(std::min(b.size(), c.size()) + 1); std::copy(c.end() - l, c.end(), b.end() - l); } if (mut == "swap") { size_t f = p.below(b.size()), l = p.below(std::min<size_t>(b.size() - f, 80)); for (size_t i = f; i < f + l && i < c.size(); i++) b[i] = c[i]; }
        if (mut == "empty") b.clear(); if (mut == "zero" && !b.empty()) { size_t f = p.below(b.size()), l = 1 + p.below(32); for (size_t i = f; i < f + l && i < b.size(); i++) b[i] = 0; }
        if (mut != "") { bool same = false; for (auto& e : X) if (e.second.created && e.second.b == b) same = true; if (same) { if (b.empty()) b = {1}; b[p.below(b.size())] ^= 1 << p.below(8); for (auto& e : X) if (e.second.created && e.second.b == b) { nskipped++; return; } } }
        Guarded g(b); sa_key h = 0xABCDEF; API(key_import, &h, SA_KEY_FORMAT_EXPORTED, g.p(), b.size(), nullptr); guard(g, "import"); outcome(a, want); if (!want) return;
        Blob& x = it->second; add_key(a, 0, ids[0], h, x.r); Key& k = K[ids[0]]; k.r = x.r; k.known = x.known; k.val = x.val; k.pk = x.pk; verify_new(a, ids[0]); if (k.t == "sym" && !k.known) {} return;
    }
    if (op == "krel") { API(key_release, kh(a["k"], s)); outcome(a, want); if (want) K[a["k"]].live = false; return; }
    if (op == "crel") { API(crypto_cipher_release, ch(a["c"], s)); outcome(a, want); if (want) C[a["c"]].live = false; return; }
    if (op == "mrel") { API(crypto_mac_release, mh(a["c"], s)); outcome(a, want); if (want) M[a["c"]].live = false; return; }
    if (op == "khdr") { sa_header hd; memset(&hd, 0x5a, sizeof hd); API(key_header, &hd, kh(a["k"], s)); outcome(a, want); if (!want) return; bool rb; string e = check_header(K[a["k"]], hd, rb); if (!e.empty()) bad({"P17"}, "key_header: " + e); return; }
    if (op == "kdig") { Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; sa_key h = kh(a["k"], s); string dg = a["dg"]; sized(a, "key_digest", ref::digest(dg, {}).size(), [&](void* o, size_t* n) { API(key_digest, o, n, h, sa_dg(dg)); return st; }, [&](const bytes& b) { if (k && k->known && b != ref::digest(dg, k->val)) bad({"P17"}, "key_digest: not the digest of the value"); }, true); return; }
    if (op == "kpub") { Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; sa_key h = kh(a["k"], s); size_t need = k && k->pk ? ref::spki(k->pk.get()).size() : 0; if (k && k->t == "dh") need = 0;
        sized(a, "key_get_public", need, [&](void* o, size_t* n) { API(key_get_public, o, n, h); return st; }, [&](const bytes& b) { if (k && k->pk) { pkey p = ref::from_spki(b); if (!p || EVP_PKEY_eq(p.get(), k->pk.get()) != 1) bad({"P17"}, "key_get_public: not the public part of the key"); } }); return; }
    if (op == "minit") { string b = a["bad"]; Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; sa_mac_parameters_hmac ph = {b == "dg" ? (sa_digest_algorithm) 99 : sa_dg(a["dg"])}; void* par = a["alg"] == "hmac" && b != "null" ? &ph : nullptr; sa_crypto_mac_context h = 0xABCDEF; API(crypto_mac_init, &h, a["alg"] == "hmac" ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, kh(a["k"], s), par); outcome(a, want); if (!want) return;
        fresh(M, h, s, fl(s, 'm'), "mac"); Ctx& c = M[ids[0]]; c.h = h; c.s = s; c.u = u; c.live = c.created = true; c.alg = a["alg"]; c.dg = a["dg"]; c.known = k->known; c.key = k->val; return; }
    if (op == "mproc") { Prng p((uint64_t) a["d"]); bytes d = p.get(a["n"]); Guarded g(d); API(crypto_mac_process, mh(a["c"], s), g.p(), d.size()); guard(g, "mac_process"); outcome(a, want); if (want) { Ctx& c = M[a["c"]]; c.fed = ref::cat({c.fed, d}); } return; }
    if (op == "mkey") { Key* k = K.count(a["k"]) ? &K[a["k"]] : nullptr; API(crypto_mac_process_key, mh(a["c"], s), kh(a["k"], s)); outcome(a, want); if (want) { Ctx& c = M[a["c"]]; if (k->known) c.fed = ref::cat({c.fed, k->val}); else c.known = false; } return; }
    if (op == "mcomp") { auto it = M.find(a["c"]); uint64_t h = mh(a["c"], s); sized(a, "mac_compute", a["xl"], [&](void* o, size_t* n) { API(crypto_mac_compute, o, n, h); return st; }, [&](const bytes& b) { Ctx& c = it->second; if (!c.known) return; bytes w = c.alg == "cmac" ? ref::cmac(c.key, c.fed) : ref::hmac(c.dg, c.key, c.fed); if (b != w) bad({"P08"}, "mac_compute (" + c.alg + "): " + hex(b) + " instead of " + hex(w)); }, true); return; }
    if (op == "screate") { size_t n = a["n"]; auto g = std::make_unique<Guarded>(rnd.get(n)); sa_svp_buffer h = 0xABCDEF; API(svp_buffer_create, &h, g->p(), n); outcome(a, want); if (!want) return; fresh(S, h, s, fl(s, 'b'), "buffer"); Svp& b = S[ids[0]]; b.h = h; b.s = s; b.live = b.created = true; b.shadow = g->get(0, n); b.mem = std::move(g); return; }
    if (op == "srel") { void* o = nullptr; size_t l = 0; API(svp_buffer_release, &o, &l, sh(a["b"], s)); outcome(a, want); if (!want) return; Svp& b = S[a["b"]]; if (o != b.mem->p() || l != b.shadow.size()) bad({"P09", "P04"}, "releasing a protected buffer returns another memory or length"); svp_check("release"); b.live = false; return; }
    fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(98);
}

// the call that a step makes
static string main_call(const json& a) {
    static const std::map<string, string> m = {{"open", "init"}, {"close", "close"}, {"kimport", "key_import"}, {"kimportx", "key_import"}, {"kgen", "key_generate"}, {"derive", "key_derive"}, {"xchg", "key_exchange"}, {"unwrap", "key_unwrap"}, {"kexport", "key_export"},
        {"krel", "key_release"}, {"khdr", "key_header"}, {"kdig", "key_digest"}, {"kpub", "key_get_public"}, {"cinit", "crypto_cipher_init"}, {"cproc", "crypto_cipher_process"}, {"clast", "crypto_cipher_process_last"}, {"civ", "crypto_cipher_update_iv"}, {"crel", "crypto_cipher_release"},
        {"minit", "crypto_mac_init"}, {"mproc", "crypto_mac_process"}, {"mkey", "crypto_mac_process_key"}, {"mcomp", "crypto_mac_compute"}, {"mrel", "crypto_mac_release"}, {"sign", "crypto_sign"}, {"screate", "svp_buffer_create"}, {"srel", "svp_buffer_release"}};
    auto it = m.find(a["op"]); return it == m.end() ? "" : it->second;
}
void Run::step_once(const json& a, const vector<int>& ids) {
    string op = a["op"]; bool onc = op == "cproc" || op == "clast" || op == "civ" || op == "crel", onm = op == "mproc" || op == "mkey" || op == "mcomp" || op == "mrel";
    inject.clear(); broken_ctx = 0; crypto_faults = true; refused_step = false; restore = nullptr; untouched = nullptr;
    if (onc || onm) { std::set<int>& l = onc ? lostC : lostM; if (l.count(a["c"].get<int>()) && op != "crel" && op != "mrel") { nskipped++; return; } }
    if (FAULTS) {
        frnd = frnd * 6364136223846793005ull + 1442695040888963407ull; unsigned x = frnd >> 40; string ok = a.value("ok", ""); bool fail = ok == "n", stream = (onc || onm) && op != "crel" && op != "mrel", verify = false; if (fail) for (auto& w : a["why"]) if (w == "verify" || w == "crypt") verify = true;
        bool cap = false; if (fail) for (auto& w : a["why"]) if (w == "cap") cap = true; (void) cap;
        bool asym = onc && C.count(a["c"]) && C[a["c"]].pk;
        if ((ok == "y" && x % 4 != 0) || (fail && x % 4 == 1 && !verify)) {
            inject = main_call(a); refused_step = fail; crypto_faults = !stream || asym;
            if (stream && !asym && ok == "y" && !a.value("q", false) && x / 4 % 6 == 0) { broken_ctx = 1; }
        }
    }
    try { exec(a, ids); } catch (Broken&) {
        restore = nullptr; untouched = nullptr; if (onc) lostC.insert(a["c"].get<int>()); else lostM.insert(a["c"].get<int>());
        if (onc && a.value("ob", 0) != 0) { auto it = S.find(a["ob"]); if (it != S.end() && it->second.live) it->second.shadow = it->second.mem->get(0, it->second.shadow.size()); }
        svp_check("a failed step of a stream");
    }
    inject.clear(); broken_ctx = 0; restore = nullptr; untouched = nullptr;
}
void Run::run() {
    env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true;
    try {
        for (size_t i = 0; i < B.steps.size(); i++) {
            const json& a = B.steps[i]; if (a["op"] == "end") break; step = i; if (skip && skip(i)) continue;
            cur_step = i; snprintf(cur_op, sizeof cur_op, "%s", a["op"].get<string>().c_str()); if (progress && !quiet) { rewind(progress); fprintf(progress, "%d %d %s          \n", cur_beh, (int) i, cur_op); fflush(progress); }
            step_once(a, B.ids[i]);
            if (rnd.below(4) == 0) {   // audit a live key: its header and value must be what they were
                vector<int> live; for (auto& e : K) if (e.second.live) live.push_back(e.first);
                if (!live.empty()) { int id = live[rnd.below(live.size())]; bool rb, vb; string e = audit(K[id], rb, vb); if (!e.empty()) bad(audit_tags(e), "key " + std::to_string(id) + " after step " + a["op"].get<string>() + ": " + e); }
                svp_check("audit");
            }
        }
        step = B.steps.size();
        for (auto& e : K) if (e.second.live) { bool rb, vb; string x = audit(e.second, rb, vb); if (!x.empty()) bad(audit_tags(x), "key " + std::to_string(e.first) + " at the end: " + x); }
        svp_check("end");
    } catch (Stop&) {}
}
void Run::finish() {     // release everything
    if (dead) return;
    bool chk = mm.empty();
    try {
        step = B.steps.size();
        if (PUB || rnd.below(2)) {
            for (auto& e : M) if (e.second.live && (PUB || E[e.second.s].live)) { caller(PUB ? 0 : E[e.second.s].h, e.second.u); API(crypto_mac_release, e.second.h); if (st && chk) bad({"P04"}, "releasing a live MAC context is refused with status " + std::to_string(st)); }
            for (auto& e : C) if (e.second.live && (PUB || E[e.second.s].live)) { caller(PUB ? 0 : E[e.second.s].h, e.second.u); API(crypto_cipher_release, e.second.h); if (st && chk) bad({"P04"}, "releasing a live cipher context is refused with status " + std::to_string(st)); }
            for (auto& e : K) if (e.second.live && (PUB || E[e.second.s].live)) { caller(PUB ? 0 : E[e.second.s].h, e.second.u); API(key_release, e.second.h); if (st && chk) bad({"P04"}, "releasing a live key is refused with status " + std::to_string(st)); }
            for (auto& e : S) if (e.second.live && (PUB || E[e.second.s].live)) { int su = PUB ? 1 : E[e.second.s].u; caller(PUB ? 0 : E[e.second.s].h, su); void* o; size_t l; API(svp_buffer_release, &o, &l, e.second.h); if (st && chk) bad({"P04"}, "releasing a live protected buffer is refused with status " + std::to_string(st)); }
            if (PUB) for (auto& e : E) { for (auto h : e.second.fk) API(key_release, h); for (auto h : e.second.fc) API(crypto_cipher_release, h); for (auto h : e.second.fm) API(crypto_mac_release, h); void* o; size_t l; for (auto h : e.second.fs) API(svp_buffer_release, &o, &l, h); }
        }
        if (!PUB) { for (auto& e : E) if (e.second.live) { cu = uuid_of(e.second.u); RAW("close", ta_sa_close(e.second.h, &cu)); if (st && chk) bad({"P03"}, "closing an open session is refused with status " + std::to_string(st)); } cu = uuid_of(1); for (auto h : fillses) { RAW("close", ta_sa_close(h, &cu)); } }
    } catch (Stop&) {}
    ERR_clear_error();
}

static void on_sig(int sig) {
    char b[128]; int n = snprintf(b, sizeof b, "%s in behaviour %d step %d (%s)\n", sig == SIGALRM ? "HANG" : "CRASH", cur_beh, cur_step, cur_op); (void) !write(2, b, n);
    void* a[40]; int k = backtrace(a, 40); backtrace_symbols_fd(a, k, 2); _exit(sig == SIGALRM ? 97 : 96);
}

int main(int argc, char** argv) {
    string file; long only = -1; const char* prog = nullptr; bool leaks = true; long limit = -1, from = 0, index = 0, nbad = 0;
    for (int i = 1; i < argc; i++) { string s = argv[i]; if (s == "--pub") PUB = true; else if (s == "--seed") RUNSEED = strtoull(argv[++i], 0, 10); else if (s == "--only") only = atol(argv[++i]); else if (s == "--from") from = atol(argv[++i]); else if (s == "--index") index = atol(argv[++i]); else if (s == "--progress") prog = argv[++i]; else if (s == "--noleak") leaks = false; else if (s == "--faults") FAULTS = 1; else if (s == "--boundary") { if (!boundary::load(argv[++i])) { fprintf(stderr, "no table\n"); return 98; } } else if (s == "-v") VERBOSE = true; else if (s == "--limit") limit = atol(argv[++i]); else file = s; }
    env::init(); signal(SIGALRM, on_sig); if (prog) progress = fopen(prog, "w");
    root_key(); common_root();
    std::ifstream in(file); string line; long nb = 0, ns = 0, nskip = 0, nf = 0, nfired = 0; bool bad = false; std::map<string, long> ops; std::map<string, long> why;
    for (long i = 0; std::getline(in, line); i++) {
        if ((only >= 0 && i != only) || i < from) continue; if (limit >= 0 && nb >= limit) break;
        Beh b = prepare(json::parse(line)); cur_beh = i; uint64_t seed = RUNSEED * 1000003 + i + index; long delta = 0; vector<Mismatch> mm; bool dead = false;
        auto once = [&](std::function<bool(int)> skip, bool quiet) { env::rng_seed(seed); boundary::seed(seed); uuid_place = (int) (((PUB ? RUNSEED : seed) * 2654435761u) >> 7); ERR_clear_error(); long l0 = env::live_allocs(); { Run r(b, seed); r.skip = skip; r.quiet = quiet; r.run(); vector<Mismatch> m = r.mm; r.finish(); mm = r.mm; dead = r.dead; if (!quiet) { ns += r.nexec; nskip += r.nskipped; nf += r.faults; nfired += r.fired; } } env::rng_log.clear(); delta = env::live_allocs() - l0; };
        once(nullptr, false); nb++;
        for (auto& a : b.steps) if (a["op"] != "end") { ops[a["op"].get<string>() + ":" + a["ok"].get<string>()]++; if (a["ok"] == "n") for (auto& w : a["why"]) why[w.get<string>()]++; }
        if (mm.empty() && delta > 0 && leaks) {
            long d1 = delta; once(nullptr, true); long d2 = delta; once(nullptr, true); long d3 = delta;
            if (mm.empty() && d2 > 0 && d3 > 0) { env::track_allocs = true; once(nullptr, true); if (VERBOSE) env::alloc_dump(); env::track_allocs = false; mm.push_back({{"P05"}, (int) b.steps.size(), "memory is not given back: " + std::to_string(d3) + " allocation(s) remain after all objects are released and all sessions closed (" + std::to_string(d1) + "," + std::to_string(d2) + ")"}); }
        }
        if (!mm.empty()) {
            bad = true; vector<Mismatch> m0 = mm; std::set<string> extra; int at = m0[0].step;
            if (FAULTS && !dead) { mm.clear(); FAULTS = 0; once(nullptr, true); FAULTS = 1; bool there = false; for (auto& m : mm) if (m.step == at) there = true; if (!there) extra.insert("P05"); }
            else if (!dead && m0[0].step < (int) b.steps.size()) {
                // what does the failure depend on?  remove what must not matter and look whether it goes away
                auto again = [&](std::function<bool(int)> skip) { mm.clear(); once(skip, true); for (auto& m : mm) if (m.step == at) return true; return false; };
                bool stable = again(nullptr);
                if (stable && !dead) {
                    bool hasfail = false; for (int j = 0; j < at; j++) if (b.steps[j]["ok"] != "y") hasfail = true;
                    if (hasfail && !again([&](int j) { return j < at && b.steps[j]["ok"] != "y"; })) extra.insert("P05");
                    int s = b.steps[at].value("s", 0); bool others = false; for (int j = 0; j < at; j++) if (b.steps[j].value("s", s) != s && b.steps[j].value("s", 0) != 0) others = true;
                    if (!dead && others && !again([&](int j) { string op = b.steps[j]["op"]; int t = b.steps[j].value("s", 0); if (op == "open") return false; if (j == at || t == 0) return false; return t != s; })) extra.insert("P03");
                    bool rel = false; for (int j = 0; j < at; j++) { string op = b.steps[j]["op"]; if (op == "krel" || op == "crel" || op == "mrel" || op == "srel" || op == "fill") rel = true; }
                    if (!dead && rel && !again([&](int j) { string op = b.steps[j]["op"]; if (j >= at) return false; if (op == "krel" || op == "crel" || op == "mrel" || op == "srel" || op == "fill") return true; for (auto& w : b.steps[j]["why"]) if (w == "handle" || w == "cap") return true; return false; })) extra.insert("P04");
                }
            }
            for (auto& m : m0) { json o = {{"t", "mismatch"}, {"beh", i}, {"step", m.step}, {"props", m.props}, {"also", extra}, {"msg", m.msg}}; if (m.step < (int) b.steps.size()) o["call"] = b.steps[m.step]; printf("%s\n", o.dump().c_str()); }
            fflush(stdout); if (dead || ++nbad >= 8) break;
        }
    }
    json st = {{"t", "done"}, {"behaviours", nb}, {"steps", ns}, {"skipped", nskip}, {"faults", nf}, {"fault_fired", nfired}, {"ops", ops}, {"why", why}, {"boundary", boundary::count}}; printf("%s\n", st.dump().c_str());
    return bad ? 1 : 0;
}
