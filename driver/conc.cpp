// Runs programs of several threads (ConcGen.tla) against the implementation under many schedules and writes down the histories of
// calls, returns and results; ConcTrace.tla decides whether they are explained by the calls made one at a time.
#include "common/runner.h"
#include "common/sched.h"
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <unordered_set>

static const int W = 16;
static int SCHEDULES = 12, ONESCHED = -1; static bool FREE = false; static string OUT; static FILE* outf = nullptr; static FILE* realerr = nullptr;
static long nruns = 0, nhist = 0, ncalls = 0; static uint64_t nsteps = 0, nswitch = 0; static std::map<string, long> opcount;
static sa_uuid ident(int u) { if (PUB) { sa_uuid x; memset(&x, 0, sizeof x); x.id[15] = 1; return x; } return uuid_of(u); }
static void finish(bool isbad, long next = -1) {
    fflush(outf); json o = {{"t", "done"}, {"next", next}, {"behaviours", nruns}, {"histories", nhist}, {"steps", ncalls}, {"schedule_points", nsteps}, {"switches", nswitch}, {"ops", opcount}}; printf("%s\n", o.dump().c_str()); fflush(stdout);
    if (isbad) _exit(1);
}
static volatile int cur_sched = 0;
static void report(const string& msg, vector<string> props) { json o = {{"t", "mismatch"}, {"beh", (int) cur_beh}, {"step", (int) cur_sched}, {"sched", (int) cur_sched}, {"props", props}, {"also", json::array()}, {"msg", msg}}; printf("%s\n", o.dump().c_str()); fflush(stdout); }
static void on_stuck(const string& what) { report("schedule " + std::to_string(cur_sched) + ": " + what, {"P13"}); finish(true, cur_beh + 1); }

// values
static bytes value(int v) { bytes k = ref::digest("sha256", bytes({0x56, (uint8_t) (v % 10)})); k.resize(W); for (int i = 0; i < v / 10; i++) k = ref::hkdf("sha256", k, {}, {}, W); return k; }
static bytes ivof(int i) { bytes b(16, (uint8_t) (0x30 + i)); return b; }
static bytes pattern(int v) { return bytes(W, (uint8_t) (0x60 + v)); }
static const vector<int>& values() { static vector<int> v; if (v.empty()) for (int d = 0; d < 12; d++) for (int b = 1; b <= 3; b++) v.push_back(10 * d + b); return v; }
static int of_digest(const bytes& d) { static std::map<bytes, int> m; if (m.empty()) for (int v : values()) m[ref::digest("sha256", value(v))] = v; auto i = m.find(d); return i == m.end() ? -1 : i->second; }
struct Stream { int v, iv, n; };
static bool of_stream(const bytes& b, Stream& s) {
    static std::map<bytes, Stream> m; if (m.empty()) for (int v : values()) if (v < 60) for (int iv = 1; iv <= 2; iv++) { bytes ks = ref::crypt("ctr", true, value(v), ivof(iv), {}, bytes(W * 40)); for (int n = 0; n < 40; n++) m[bytes(ks.begin() + n * W, ks.begin() + (n + 1) * W)] = {v, iv, n}; }
    auto i = m.find(b); if (i == m.end()) return false; s = i->second; return true;
}
static bytes datum(int d) { return bytes(d == 1 ? 5 : 19, (uint8_t) (0x70 + d)); }
struct Fed { int v; vector<int> d; };
static bool of_tag(const bytes& t, Fed& f) {
    static std::map<bytes, Fed> m; if (m.empty()) for (int v : values()) if (v < 30) { bytes k = value(v); std::function<void(bytes, vector<int>)> go = [&](bytes d, vector<int> s) { m[ref::hmac("sha256", k, d)] = {v, s}; if (s.size() < 7) for (int x : {1, 2}) { bytes e = d, y = datum(x); e.insert(e.end(), y.begin(), y.end()); vector<int> q = s; q.push_back(x); go(e, q); } }; go({}, {}); }
    auto i = m.find(t); if (i == m.end()) return false; f = i->second; return true;
}
static void tables() { of_digest({}); Stream s; of_stream({}, s); Fed f; of_tag({}, f); }

struct Mem { int id; uint8_t* p; };
struct Local { std::map<string, vector<long>> made; vector<long> opened; bytes blob; vector<std::pair<uint64_t, std::pair<int, int>>> ev; vector<json> ops; };
#define CALL(fn, ...) (PUB ? sa_##fn(__VA_ARGS__) : ta_sa_##fn(__VA_ARGS__, cs, &cu))

struct World {
    const json& prog; vector<long> ses; std::map<string, vector<vector<long>>> init;     // kind -> session index -> handles
    std::atomic<uint64_t> clock{0}; std::atomic<int> ids{0}; vector<Local> L; vector<Mem> mems; std::mutex mm; std::set<string> errors;
    explicit World(const json& p) : prog(p) { L.resize(p["threads"].size() + 1); }
    ~World() { for (auto& m : mems) free(m.p); }
    static string kind(const string& op) { return op[0] == 'k' || op == "cini" || op == "mini" ? "k" : op[0] == 'c' && op != "capn" ? "c" : op[0] == 'm' ? "m" : "b"; }
    long ref(int t, const string& k, int s, long r) {
        auto& iv = init[k]; if (s < 0 || s >= (int) iv.size()) s = 0;
        if (r < 0) { auto& m = L[t].made[k]; if ((long) m.size() >= -r) return m[m.size() + r]; r = -r - 1; }
        return iv.empty() || iv[s].empty() ? 0 : iv[s][r % iv[s].size()];
    }
    json resolve(int t, const json& a) {
        json o = a; string op = a["op"]; int s = a["s"]; int si = s;
        o["s"] = s >= 0 ? ses[s % ses.size()] : L[t].opened.empty() ? ses[0] : L[t].opened.back();
        if (a.contains("h")) o["h"] = ref(t, kind(op), si, a["h"]);
        if (a.contains("h2")) o["h2"] = ref(t, "b", si, a["h2"]);
        if (a.contains("c")) o["c"] = ref(t, "c", si, a["c"]);
        return o;
    }
    json result(int t, sa_status st, const char* kind, uint64_t h) { if (st) return {{"ok", false}}; if (kind) L[t].made[kind].push_back((long) h); return {{"ok", true}, {"h", (long) h}}; }
    // one call; o is complete
    void call(int t, json o) {
        string op = o["op"]; int id = ++ids; o["id"] = id; o["t"] = t; if (op == "schk") o["ree"] = PUB; ta_client cs = (ta_client) o["s"].get<long>(); sa_uuid cu = ident(o["u"]);
        auto F = [](int f) { return (uint64_t) 1 << f; };
        sa_rights r; memset(&r, 0, sizeof r); memset(r.allowed_tas[0].id, 0xff, 16); r.not_on_or_after = UINT64_MAX;
        r.usage_flags = F(SA_USAGE_FLAG_DECRYPT) | F(SA_USAGE_FLAG_ENCRYPT) | F(SA_USAGE_FLAG_SIGN) | F(SA_USAGE_FLAG_DERIVE) | F(SA_USAGE_FLAG_SVP_OPTIONAL) | F(SA_USAGE_FLAG_CACHEABLE) | F(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED) | F(SA_USAGE_FLAG_KEY_EXCHANGE);
        uint64_t h = o.contains("h") ? (uint64_t) o["h"].get<long>() : 0, hn = INVALID_HANDLE; sa_status st = SA_STATUS_OK; json res;
        auto svp = [&](uint64_t b, size_t off) { sa_buffer x; memset(&x, 0, sizeof x); x.buffer_type = SA_BUFFER_TYPE_SVP; x.context.svp.buffer = b; x.context.svp.offset = off; return x; };
        auto clear = [&](uint8_t* p) { sa_buffer x; memset(&x, 0, sizeof x); x.buffer_type = SA_BUFFER_TYPE_CLEAR; x.context.clear.buffer = p; x.context.clear.length = W; return x; };
        auto done = [&]() { res = json{{"ok", st == SA_STATUS_OK}}; };
        // what has to be prepared before the call starts
        bytes in, out(64), iv; uint8_t* mem = nullptr; size_t n = 0;
        if (op == "kimp") in = value(o["v"]); if (op == "salloc") { mem = (uint8_t*) malloc(2 * W); memset(mem, 0, 2 * W); if (PUB || true) { std::lock_guard<std::mutex> g(mm); mems.push_back({id, mem}); } }
        if (op == "cini" || op == "civ" || op == "scenc") iv = ivof(o["iv"]); if (op == "mpro") in = datum(o["d"]); if (op == "swr") in = pattern(o["v"]); if (op == "schk") in = ref::digest("sha256", pattern(o["v"]));
        env::begin_call();
        L[t].ev.push_back({clock.fetch_add(1, std::memory_order_relaxed), {0, id}});
        if (op == "open") { ta_client c = 0; st = ta_sa_init(&c, &cu); res = st ? json{{"ok", false}} : json{{"ok", true}, {"h", (long) c}}; if (!st) L[t].opened.push_back((long) c); }
        else if (op == "close") { st = ta_sa_close(cs, &cu); done(); }
        else if (op == "fill") { string k = o["kind"]; long left = o["left"]; json hs = json::array(); vector<uint64_t> all; for (;;) { uint64_t x = make(k, cs, cu, r, id); if (x == INVALID_HANDLE) break; all.push_back(x); } for (long i = 0; i < left && !all.empty(); i++) { drop(k, all.back(), cs, cu); all.pop_back(); } for (auto x : all) hs.push_back((long) x); fills[k] = all; res = {{"ok", true}, {"hs", hs}}; }
        else if (op == "capn") { string k = o["kind"]; vector<uint64_t> all; for (;;) { uint64_t x = make(k, cs, cu, r, id); if (x == INVALID_HANDLE) break; all.push_back(x); } for (auto x : all) drop(k, x, cs, cu); res = {{"ok", true}, {"n", (long) all.size()}}; }
        else if (op == "kimp") { sa_import_parameters_symmetric p = {&r}; st = CALL(key_import, &hn, SA_KEY_FORMAT_SYMMETRIC_BYTES, in.data(), in.size(), &p); res = result(t, st, "k", hn); }
        else if (op == "kgen") { sa_generate_parameters_symmetric p = {W}; st = CALL(key_generate, &hn, &r, SA_KEY_TYPE_SYMMETRIC, &p); res = result(t, st, "k", hn); }
        else if (op == "kder") { sa_kdf_parameters_hkdf p; memset(&p, 0, sizeof p); p.key_length = W; p.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256; p.parent = h; st = CALL(key_derive, &hn, &r, SA_KDF_ALGORITHM_HKDF, &p); res = result(t, st, "k", hn); }
        else if (op == "kexp") { bytes b(4096); n = b.size(); st = CALL(key_export, b.data(), &n, nullptr, 0, h); if (!st) { b.resize(n); L[t].blob = b; } done(); }
        else if (op == "kimpx") { if (L[t].blob.empty()) { bytes b(64, 7); st = CALL(key_import, &hn, SA_KEY_FORMAT_EXPORTED, b.data(), b.size(), nullptr); } else st = CALL(key_import, &hn, SA_KEY_FORMAT_EXPORTED, L[t].blob.data(), L[t].blob.size(), nullptr); res = result(t, st, "k", hn); }
        else if (op == "kdig") { n = out.size(); st = CALL(key_digest, out.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256); out.resize(n); if (st) done(); else res = {{"ok", true}, {"v", of_digest(out)}}; }
        else if (op == "krel") { st = CALL(key_release, h); done(); }
        else if (op == "cini") { sa_cipher_parameters_aes_ctr p = {iv.data(), 16}; st = CALL(crypto_cipher_init, &hn, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, h, &p); res = result(t, st, "c", hn); }
        else if (op == "cpro") { bytes z(W), q(W); sa_buffer i = clear(z.data()), u = clear(q.data()); n = W; st = CALL(crypto_cipher_process, &u, h, &i, &n); if (st) done(); else { Stream s; if (of_stream(q, s)) res = {{"ok", true}, {"v", s.v}, {"iv", s.iv}, {"n", s.n}}; else res = {{"ok", true}, {"v", -1}}; } }
        else if (op == "civ") { st = CALL(crypto_cipher_update_iv, h, iv.data(), iv.size()); done(); }
        else if (op == "crel") { st = CALL(crypto_cipher_release, h); done(); }
        else if (op == "mini") { sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256}; st = CALL(crypto_mac_init, &hn, SA_MAC_ALGORITHM_HMAC, h, &p); res = result(t, st, "m", hn); }
        else if (op == "mpro") { st = CALL(crypto_mac_process, h, in.data(), in.size()); done(); }
        else if (op == "mcom") { n = 32; st = CALL(crypto_mac_compute, out.data(), &n, h); out.resize(n); if (st) done(); else { Fed f; if (of_tag(out, f)) res = {{"ok", true}, {"v", f.v}, {"d", f.d}}; else res = {{"ok", true}, {"v", -1}}; } }
        else if (op == "mrel") { st = CALL(crypto_mac_release, h); done(); }
        else if (op == "salloc") { st = CALL(svp_buffer_create, &hn, mem, 2 * W); res = result(t, st, "b", hn); }
        else if (op == "srel") { void* p = nullptr; size_t l = 0; st = CALL(svp_buffer_release, &p, &l, h); if (st) done(); else { int m = -1; { std::lock_guard<std::mutex> g(mm); for (auto& x : mems) if (x.p == p && l == 2 * W) m = x.id; } res = {{"ok", true}, {"mem", m}}; } }
        else if (op == "swr") { sa_svp_offset of = {(size_t) (o["x"].get<int>() - 1) * W, 0, W}; st = CALL(svp_buffer_write, h, in.data(), in.size(), &of, 1); done(); }
        else if (op == "scp") { bool sw = o["x"] == 2; sa_svp_offset of[2] = {{0, (size_t) (sw ? W : 0), W}, {W, (size_t) (sw ? 0 : W), W}}; st = CALL(svp_buffer_copy, h, (uint64_t) o["h2"].get<long>(), of, 2); done(); }
        else if (op == "schk") { st = CALL(svp_buffer_check, h, (o["x"].get<int>() - 1) * W, W, SA_DIGEST_ALGORITHM_SHA256, in.data(), in.size()); done(); }
        else if (op == "sci") { size_t off = (o["x"].get<int>() - 1) * W; sa_buffer i = svp(o["h2"].get<long>(), off), u = svp(h, off); n = W; st = CALL(crypto_cipher_process, &u, o["c"].get<long>(), &i, &n); done(); }
        else if (op == "scenc") { size_t off = (o["x"].get<int>() - 1) * W; sa_buffer i = svp(o["h2"].get<long>(), off), u = svp(h, off); sa_subsample_length sl = {0, W}; sa_sample sm = {iv.data(), 16, 0, 0, 1, &sl, (sa_crypto_cipher_context) o["c"].get<long>(), &u, &i}; st = CALL(process_common_encryption, 1, &sm); done(); }
        else { fprintf(realerr, "conc: unknown op %s\n", op.c_str()); _exit(98); }
        L[t].ev.push_back({clock.fetch_add(1, std::memory_order_relaxed), {1, id}});
        if (env::held_locks() != 0) { std::lock_guard<std::mutex> g(mm); errors.insert(op + " returned with a lock still held"); }
        o["r"] = res; L[t].ops.push_back(o);
    }
    std::map<string, vector<uint64_t>> fills;
    uint64_t make(const string& k, ta_client cs, sa_uuid cu, sa_rights& r, int id) {
        uint64_t h = INVALID_HANDLE; bytes v = value(1), iv = ivof(1); sa_status st; uint64_t key = init["k"][0][0];
        if (k == "k") { sa_import_parameters_symmetric p = {&r}; st = CALL(key_import, &h, SA_KEY_FORMAT_SYMMETRIC_BYTES, v.data(), v.size(), &p); }
        else if (k == "c") { sa_cipher_parameters_aes_ctr p = {iv.data(), 16}; st = CALL(crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, capkey ? capkey : key, &p); }
        else if (k == "m") { sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256}; st = CALL(crypto_mac_init, &h, SA_MAC_ALGORITHM_HMAC, capkey ? capkey : key, &p); }
        else { uint8_t* m = (uint8_t*) malloc(2 * W); st = CALL(svp_buffer_create, &h, m, 2 * W); if (st) free(m); else mems.push_back({-id, m}); }
        return st ? INVALID_HANDLE : h;
    }
    uint64_t capkey = 0;
    void drop(const string& k, uint64_t h, ta_client cs, sa_uuid cu) { if (k == "k") CALL(key_release, h); else if (k == "c") CALL(crypto_cipher_release, h); else if (k == "m") CALL(crypto_mac_release, h); else { void* p; size_t l; CALL(svp_buffer_release, &p, &l, h); } }
    long h_of(const json& o) { return o["r"]["ok"] ? o["r"]["h"].get<long>() : -1; }
    long last() { return h_of(L[0].ops.back()); }
    bool setup() {
        const json& s = prog["setup"]; int ns = s["ses"];
        for (int i = 0; i < ns; i++) { if (PUB) { ses.push_back(0); if (!i) L[0].ops.push_back(json()); } else { call(0, {{"op", "open"}, {"s", 0}, {"u", i}}); ses.push_back(last()); if (last() < 0) return false; } }
        if (PUB) { L[0].ops.clear(); int id = ++ids; L[0].ev.push_back({clock++, {0, id}}); L[0].ev.push_back({clock++, {1, id}}); L[0].ops.push_back({{"op", "open"}, {"s", 0}, {"u", 0}, {"id", id}, {"t", 0}, {"r", {{"ok", true}, {"h", 0}}}}); }
        for (string k : {"k", "c", "m", "b"}) init[k].resize(ns);
        for (int i = 0; i < ns; i++) {
            auto mk = [&](const char* k, json o) { o["s"] = ses[i]; o["u"] = i; call(0, o); init[k][i].push_back(last()); return last() >= 0; };
            for (int j = 0; j < s["keys"]; j++) if (!mk("k", {{"op", "kimp"}, {"v", i ? 3 : 1 + j % 2}})) return false;
            for (int j = 0; j < s["objs"]; j++) { if (!mk("c", {{"op", "cini"}, {"h", init["k"][i][j % init["k"][i].size()]}, {"iv", 1 + j % 2}})) return false; if (!mk("m", {{"op", "mini"}, {"h", init["k"][i][0]}})) return false; }
            for (int j = 0; j < s["bufs"]; j++) { if (!mk("b", {{"op", "salloc"}})) return false; for (int x : {1, 2}) call(0, {{"op", "swr"}, {"s", ses[i]}, {"u", i}, {"h", init["b"][i][j]}, {"x", x}, {"v", 1 + (j + x) % 2}}); }
            L[0].made.clear();
        }
        if (s["fill"] >= 0) for (string k : {"k", "c", "m", "b"}) call(0, {{"op", "fill"}, {"kind", k}, {"left", s["fill"]}, {"s", ses[0]}, {"u", 0}});
        return true;
    }
    // what can be seen of everything afterwards
    void probe() {
        std::map<string, std::set<std::pair<long, long>>> seen; std::set<std::pair<long, int>> owner; 
        for (auto& l : L) for (auto& o : l.ops) { if (o["op"] == "open" && o["r"]["ok"]) owner.insert({o["r"]["h"].get<long>(), o["u"].get<int>()}); }
        for (auto& l : L) for (auto& o : l.ops) { string op = o["op"]; if (!o["r"].contains("h") || op == "open") continue; string k = op == "cini" ? "c" : op == "mini" ? "m" : op == "salloc" ? "b" : "k"; seen[k].insert({o["s"].get<long>(), o["r"]["h"].get<long>()}); }
        auto each = [&](const char* k, std::function<void(json)> f) { for (auto& e : seen[k]) { int n = 0; for (auto& w : owner) if (w.first == e.first) { n++; f({{"s", e.first}, {"u", w.second}, {"h", e.second}}); } if (!n) f({{"s", e.first}, {"u", 0}, {"h", e.second}}); } };
        each("k", [&](json o) { o["op"] = "kdig"; call(0, o); }); each("c", [&](json o) { o["op"] = "cpro"; call(0, o); }); each("m", [&](json o) { o["op"] = "mcom"; call(0, o); });
        each("b", [&](json o) { o["op"] = "schk"; for (int x : {1, 2}) for (int v : {1, 2}) { o["x"] = x; o["v"] = v; call(0, o); } });
        if (prog["setup"]["fill"] >= 0) { sa_rights r; memset(&r, 0, sizeof r); memset(r.allowed_tas[0].id, 0xff, 16); r.not_on_or_after = UINT64_MAX; r.usage_flags = ~0ull >> 40;
            // a key to open ciphers and MACs with; the places of the keys are counted first
            ta_client cs = (ta_client) ses[0]; sa_uuid cu = ident(0); call(0, {{"op", "capn"}, {"kind", "k"}, {"s", ses[0]}, {"u", 0}}); if (!fills["k"].empty()) capkey = fills["k"][0]; (void) cs; (void) cu;
            for (string k : {"c", "m", "b"}) call(0, {{"op", "capn"}, {"kind", k}, {"s", ses[0]}, {"u", 0}}); }
        // give everything back: the last sight of protected buffers is the memory they return
        each("b", [&](json o) { o["op"] = "srel"; call(0, o); });
        if (PUB) { each("m", [&](json o) { o["op"] = "mrel"; call(0, o); }); each("c", [&](json o) { o["op"] = "crel"; call(0, o); }); each("k", [&](json o) { o["op"] = "krel"; call(0, o); }); for (auto& f : fills) for (auto h : f.second) drop(f.first, h, 0, ident(0)); }
        else for (auto& e : owner) call(0, {{"op", "close"}, {"s", e.first}, {"u", e.second}});
    }
    string history(int k) {
        vector<std::pair<uint64_t, std::pair<int, int>>> ev; json ops = json::array(); ops.get_ref<json::array_t&>().resize(ids);
        for (auto& l : L) { for (auto& e : l.ev) ev.push_back(e); for (auto& o : l.ops) ops[o["id"].get<int>() - 1] = o; } std::sort(ev.begin(), ev.end()); json e = json::array(); for (auto& x : ev) e.push_back({x.second.first, x.second.second});
        return json{{"beh", (int) cur_beh}, {"ev", e}, {"ops", ops}}.dump();
    }
};

static void one(const json& prog, int k, uint64_t seed, uint64_t& length, std::unordered_set<string>& known) {
    cur_sched = k; alarm(120); env::rng_seed(seed); long l0 = 0, delta = 0; string hist; sched::Outcome oc; std::set<string> errors;
    for (int rep = 0; rep < 3; rep++) {
        l0 = env::live_allocs(); env::rng_seed(seed);
        { World w(prog); ERR_clear_error(); if (!w.setup()) { fprintf(realerr, "conc: setup fails\n"); _exit(98); }
          int nt = prog["threads"].size(); vector<std::function<void()>> bodies;
          for (int t = 1; t <= nt; t++) bodies.push_back([&, t]() { for (auto& a : prog["threads"][t - 1]) w.call(t, w.resolve(t, a)); });
          if (FREE) { std::atomic<int> go{0}; vector<std::thread> ts; for (auto& b : bodies) ts.emplace_back([&]() { go++; while (go < nt) ; b(); }); for (auto& t : ts) t.join(); }
          else { sched::Options o; o.seed = seed * 31 + k; o.length = length; o.mode = k == 0 ? sched::SERIAL : k % 4 == 1 || k % 4 == 3 ? sched::PCT : k % 4 == 2 ? sched::LOCKS : sched::RANDOM; o.depth = 1 + (k / 4) % 4; oc = sched::run(bodies, o, on_stuck); if (k == 0) length = std::max<uint64_t>(oc.steps, 100); if (!oc.error.empty()) w.errors.insert(oc.error); }
          w.probe(); errors = w.errors; if (!rep) { hist = w.history(k); nruns++; nsteps += oc.steps; nswitch += oc.switches; for (auto& l : w.L) { ncalls += l.ops.size(); for (auto& o : l.ops) opcount[o["op"].get<string>() + (o["r"]["ok"] ? ":y" : ":n")]++; } } }
        env::rng_log.clear(); delta = env::live_allocs() - l0; if (delta <= 0) break;
    }
    alarm(0);
    if (delta > 0) { report("schedule " + std::to_string(k) + ": memory is not given back: " + std::to_string(delta) + " allocation(s) remain", {"P13", "P05"}); }
    for (auto& e : errors) report("schedule " + std::to_string(k) + ": " + e, {"P13", "P05"});
    if (known.insert(hist).second) { nhist++; fprintf(outf, "{\"k\":%d,%s\n", k, hist.c_str() + 1); }
}

int main(int argc, char** argv) {
    string file; long only = -1, from = 0, index = 0; const char* prog = nullptr;
    for (int i = 1; i < argc; i++) { string s = argv[i]; if (s == "--pub") PUB = true; else if (s == "--seed") RUNSEED = strtoull(argv[++i], 0, 10); else if (s == "--only") only = atol(argv[++i]); else if (s == "--from") from = atol(argv[++i]); else if (s == "--index") index = atol(argv[++i]); else if (s == "--schedules") SCHEDULES = atoi(argv[++i]); else if (s == "--sched") ONESCHED = atoi(argv[++i]); else if (s == "--free") FREE = true; else if (s == "--out") OUT = argv[++i]; else if (s == "--progress") prog = argv[++i]; else if (s == "-v") VERBOSE = true; else file = s; }
    env::init(); signal(SIGALRM, on_sig); env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true; env::caller_uuid[0] = 0; memset(env::caller_uuid, 0, 16); env::caller_uuid[15] = 1; env::sleep_limit = ~0ull;
    if (prog) progress = fopen(prog, "w"); realerr = stderr; if (!VERBOSE) stderr = fopen("/dev/null", "w"); outf = fopen(OUT.empty() ? "/dev/null" : OUT.c_str(), "w"); if (!outf) return 98;
    tables(); std::ifstream in(file); string line; std::unordered_set<string> known;
    for (long i = 0; std::getline(in, line); i++) {
        if ((only >= 0 && i != only) || i < from) continue; json b = json::parse(line); cur_beh = i; known.clear(); uint64_t seed = RUNSEED * 1000003 + i + index, length = 3000;
        for (int k = 0; k < SCHEDULES; k++) { if (progress) { rewind(progress); fprintf(progress, "%ld %d schedule          \n", i, k); fflush(progress); } cur_step = k; if (ONESCHED >= 0 && k && k != ONESCHED) continue; one(b, k, seed, length, known); }
    }
    finish(false); return 0;
}
