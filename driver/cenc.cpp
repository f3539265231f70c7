// Replays behaviours of Cenc.tla: every byte of every buffer is compared with what the specification's runs prescribe.
#include "common/runner.h"

static const std::set<string> CTXS = {"ctr-open", "ctr-prot", "ctr-late", "ctr-dig", "ctr-enc", "ctr-done", "cbc-open", "cbc-prot", "ecb", "gcm"};
static std::set<string> said;

struct Run : Base {
    uint64_t h = 0, h2 = 0; int u = 1; std::map<string, uint64_t> key, ctx; std::map<string, bytes> kv; uint64_t svp[3] = {0, 0, 0}; std::unique_ptr<Guarded> mem[3]; bytes want[3]; int dig = 0;
    explicit Run(uint64_t seed) : Base(seed) {}
    static uint64_t num(const json& j) { string b = j["b"]; uint64_t base = b == "0" ? 0 : b == "4g" ? 1ull << 32 : b == "60" ? 1ull << 60 : b == "half" ? 1ull << 63 : 0; return base + (uint64_t) (int64_t) j["d"].get<long>(); }
    vector<string> tags(vector<string> t) { t.push_back("P10"); if (PUB) t.push_back("P14"); return t; }
    void as(uint64_t ses, int who) { caller(PUB ? 0 : ses, uuid_of(PUB ? 1 : who)); }
    void outs() { env::video = {true, 0, 0, (unsigned) dig, 0, 0}; }
    void setup() {
        cu = uuid_of(1); if (!PUB) { ta_client c; RAW("init", ta_sa_init(&c, &cu)); if (st) bad({"P03"}, "opening a session fails"); h = c; cu = uuid_of(2); RAW("init", ta_sa_init(&c, &cu)); if (st) bad({"P03"}, "opening a session fails"); h2 = c; }
        as(h, 1);
        sa_rights r; auto F = [](int f) { return (uint64_t) 1 << f; }; uint64_t D = F(SA_USAGE_FLAG_DECRYPT), N = F(SA_USAGE_FLAG_ENCRYPT), SO = F(SA_USAGE_FLAG_SVP_OPTIONAL), OUT = F(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED);
        for (string k : {"open", "prot", "late", "dig"}) {
            memset(&r, 0, sizeof r); memset(r.allowed_tas[0].id, 0xff, 16); r.not_on_or_after = k == "late" ? BASE_T + 200 : UINT64_MAX; r.usage_flags = D | N | (k == "prot" ? 0 : SO) | (k == "dig" ? 0 : OUT); kv[k] = rnd.get(k == "open" && rnd.below(2) ? 32 : 16); sa_import_parameters_symmetric p = {&r}; sa_key x = INVALID_HANDLE;
            API(key_import, &x, SA_KEY_FORMAT_SYMMETRIC_BYTES, kv[k].data(), kv[k].size(), &p); if (st) bad({"P17"}, "importing a key fails"); key[k] = x;
        }
        auto open = [&](const string& name, const string& k, const string& alg, sa_cipher_mode m) {
            bytes iv = rnd.get(alg == "gcm" ? 12 : 16); sa_cipher_parameters_aes_ctr c = {iv.data(), 16}; sa_cipher_parameters_aes_cbc b = {iv.data(), 16}; sa_cipher_parameters_aes_gcm g = {iv.data(), 12, nullptr, 0}; sa_crypto_cipher_context x = INVALID_HANDLE;
            API(crypto_cipher_init, &x, sa_ca(alg), m, key[k], alg == "ctr" ? (void*) &c : alg == "cbc" ? (void*) &b : alg == "gcm" ? (void*) &g : nullptr); if (st) bad({"P07", "P01"}, "opening a cipher context fails with status " + std::to_string(st)); ctx[name] = x;
        };
        for (string k : {"open", "prot"}) { open("ctr-" + k, k, "ctr", SA_CIPHER_MODE_DECRYPT); open("cbc-" + k, k, "cbc", SA_CIPHER_MODE_DECRYPT); }
        open("ctr-late", "late", "ctr", SA_CIPHER_MODE_DECRYPT); open("ctr-dig", "dig", "ctr", SA_CIPHER_MODE_DECRYPT); open("ctr-enc", "open", "ctr", SA_CIPHER_MODE_ENCRYPT); open("ctr-done", "open", "ctr", SA_CIPHER_MODE_DECRYPT); open("ecb", "open", "ecb", SA_CIPHER_MODE_DECRYPT); open("gcm", "open", "gcm", SA_CIPHER_MODE_DECRYPT);
        bytes d = rnd.get(5), o(5); sa_buffer in, out; memset(&in, 0, sizeof in); in.buffer_type = SA_BUFFER_TYPE_CLEAR; out = in; in.context.clear.buffer = d.data(); out.context.clear.buffer = o.data(); in.context.clear.length = out.context.clear.length = 5; size_t n = 5;
        API(crypto_cipher_process_last, &out, ctx["ctr-done"], &in, &n, nullptr); if (st) bad({"P07"}, "finishing a context fails");
        for (int i = 1; i <= 2; i++) { want[i] = rnd.get(256); mem[i] = std::make_unique<Guarded>(want[i]); sa_svp_buffer b = INVALID_HANDLE; API(svp_buffer_create, &b, mem[i]->p(), 256); if (st) bad({"P09"}, "creating a protected buffer fails"); svp[i] = b; }
    }
    // the block cipher itself
    bytes blocks(const string& k, bool enc, const bytes& d) { return ref::crypt("ecb", enc, kv[k], {}, {}, d); }
    bytes decrypted(const json& x, const bytes& in, const bytes& iv) {      // a sample's output
        string c = x["c"], k = c == "ctr-late" ? "late" : c == "ctr-dig" ? "dig" : c.substr(4); bool ctr = c[1] == 't'; bytes out; size_t at = 0, pos = 0; bytes chain = iv, ks; uint64_t nblk = 0, c0 = 0; for (int i = 8; i < 16; i++) c0 = c0 << 8 | iv[i];
        for (auto& r : x["runs"]) {
            string kind = r[0]; size_t n = r[1]; if (kind == "r") { chain = iv; continue; }
            if (kind == "c") { out.insert(out.end(), in.begin() + at, in.begin() + at + n); at += n; continue; }
            if (ctr) for (size_t i = 0; i < n; i++, pos++) { if (pos % 16 == 0) { bytes b(iv.begin(), iv.begin() + 8); uint64_t v = c0 + nblk++; for (int j = 7; j >= 0; j--) b.push_back(v >> (8 * j)); ks = blocks(k, true, b); } out.push_back(in[at + i] ^ ks[pos % 16]); }
            else for (size_t i = 0; i < n; i += 16) { bytes b(in.begin() + at + i, in.begin() + at + i + 16), d = blocks(k, false, b); for (int j = 0; j < 16; j++) out.push_back(d[j] ^ chain[j]); chain = b; }
            at += n;
        }
        return out;
    }
    struct Side { sa_buffer* b = nullptr; Guarded* g = nullptr; bytes* now = nullptr; int id = 0; uint64_t off = 0, off0 = 0; uint64_t* pos() { return id ? &b->context.svp.offset : &b->context.clear.offset; } };
    void exec(const json& a) {
        string op = a["op"]; count[op + (op == "cenc" ? ":" + a["ok"].get<string>() : "")]++;
        if (op == "tick") { env::now = a["now"].get<long>(); return; } if (op == "outs") { dig = a["dig"].get<int>(); outs(); return; }
        const json& S = a["samples"]; size_t n = S.size(); bool any = a["ok"] == "any", ok = a["ok"] == "y";
        vector<sa_sample> sm(n ? n : 1); vector<sa_buffer> bufs(2 * n); vector<bytes> ivs(n); vector<vector<sa_subsample_length>> subs(n); std::list<std::pair<Guarded, bytes>> clear; vector<Side> I(n), O(n);
        auto fresh = [&](size_t len) { clear.emplace_back(std::piecewise_construct, std::forward_as_tuple(rnd.get(len)), std::forward_as_tuple()); clear.back().second = clear.back().first.get(0, len); return &clear.back(); };
        size_t firstbad = n;
        for (size_t i = 0; i < n; i++) {
            const json& x = S[i]; string nul = x["nul"]; if (!x["f"].empty() && firstbad == n) firstbad = i;
            ivs[i] = rnd.get(x["ivl"].get<size_t>()); if (rnd.below(3) == 0) std::fill(ivs[i].begin(), ivs[i].begin() + std::min<size_t>(8, ivs[i].size()), 0xff); uint64_t c0 = num(x["ctr"]); for (int j = 8; j < 16 && j < (int) ivs[i].size(); j++) ivs[i][j] = c0 >> (8 * (15 - j));
            for (auto& s : x["subs"]) subs[i].push_back({num(s["cl"]), num(s["pr"])}); if (subs[i].empty()) subs[i].reserve(1);
            bool cont = x["cont"];
            if (cont) { I[i] = I[i - 1]; O[i] = O[i - 1]; I[i].off = num(x["ioff"]); O[i].off = num(x["ooff"]); }
            else {
                std::pair<Guarded, bytes>* shared = nullptr;
                for (int side = 0; side < 2; side++) {
                    Side& t = side ? O[i] : I[i]; t.id = x[side ? "ob" : "ib"]; t.off = t.off0 = num(x[side ? "ooff" : "ioff"]); t.b = &bufs[2 * i + side]; size_t len = x[side ? "ol" : "il"]; memset(t.b, 0, sizeof *t.b);
                    if (t.id == 0) { auto* g = x["sm"].get<bool>() && shared ? shared : fresh(len); shared = g; t.g = &g->first; t.now = &g->second; t.b->buffer_type = SA_BUFFER_TYPE_CLEAR; t.b->context.clear.buffer = t.g->p(); t.b->context.clear.length = len; t.b->context.clear.offset = t.off; }
                    else { t.b->buffer_type = SA_BUFFER_TYPE_SVP; t.b->context.svp.buffer = t.id <= 2 ? svp[t.id] : 200 + t.id; t.b->context.svp.offset = t.off; if (t.id <= 2) { t.g = mem[t.id].get(); t.now = &want[t.id]; } }
                }
            }
            string c = x["c"]; static uint8_t empty[1]; (void) empty;
            sm[i] = {nul == "iv" ? nullptr : ivs[i].data(), ivs[i].size(), (size_t) num(x["cb"]), (size_t) num(x["sb"]), subs[i].size(), nul == "subs" ? nullptr : subs[i].data(), CTXS.count(c) ? ctx[c] : 199, nul == "out" ? nullptr : O[i].b, nul == "in" ? nullptr : I[i].b};
        }
        as(h, a["u"]); vector<sa_buffer> bufs0 = bufs;
        FAPI(process_common_encryption, vector<string>({"P05"}), [&]() -> string {
            // the output of what failed may have been written in part; nothing else may have changed
            if (!PUB && memcmp(bufs.data(), bufs0.data(), bufs.size() * sizeof(sa_buffer))) return "the position of a buffer moved"; bufs = bufs0;
            auto in_out = [&](Guarded* g, size_t k) { for (size_t i = 0; i < n; i++) if (O[i].g == g && k >= O[i].off && k - O[i].off < S[i]["tot"].get<size_t>()) return true; return false; };
            auto fix = [&](Guarded* g, const bytes& w) -> bool { if (!g->guards_ok()) return false; for (size_t k = 0; k < w.size(); k++) if (g->p()[k] != w[k]) { if (!in_out(g, k)) return false; g->p()[k] = w[k]; } return true; };
            for (auto& c : clear) if (!fix(&c.first, c.second)) return "memory other than the output was written"; for (int i = 1; i <= 2; i++) if (!fix(mem[i].get(), want[i])) return "a protected buffer other than the output was written"; return ""; }, n, sm.data());
        if (st && ok && !failed_at.empty() && failed_at.compare(0, 4, "EVP_") == 0) throw Stop();
        // which samples must have been processed
        string why; vector<string> t; for (auto& w : a["why"]) { string s = w; why += s + " "; if (s == "session" || s == "handle") t.push_back("P03"); if (s == "rights" || s == "leak") t.push_back("P01"); if (s == "leak") t.push_back("P09"); }
        if (ok && st) bad(tags(n && S[0]["ob"] != 0 ? vector<string>{} : vector<string>{}), "samples that are consistent, fit and are permitted are refused with status " + std::to_string(st));
        if (!ok && !any && st == SA_STATUS_OK) bad(tags(t), "samples that must be refused (" + why + ") are processed");
        if (any) { for (auto& c : clear) if (!c.first.guards_ok()) bad(tags({"P05"}), "memory outside a clear buffer was written"); for (int i = 1; i <= 2; i++) want[i] = mem[i]->get(0, 256); return; }
        auto settle = [&](size_t upto) {     // "" when the memory is as if the first samples had been processed
            vector<bytes> c; for (auto& x : clear) c.push_back(x.second); bytes w1 = want[1], w2 = want[2]; std::map<Side*, uint64_t> end; std::map<sa_buffer*, uint64_t> posn; string e;
            for (size_t i = 0; i < n; i++) { if (!posn.count(I[i].b)) posn[I[i].b] = I[i].off0; if (!posn.count(O[i].b)) posn[O[i].b] = O[i].off0; }
            for (size_t i = 0; i < upto; i++) { size_t tot = S[i]["tot"]; bytes in(I[i].now->begin() + I[i].off, I[i].now->begin() + I[i].off + tot), out = decrypted(S[i], in, ivs[i]); std::copy(out.begin(), out.end(), O[i].now->begin() + O[i].off); posn[I[i].b] += tot; posn[O[i].b] += tot; }
            for (auto& x : clear) if (e.empty() && x.first.get(0, x.second.size()) != x.second) e = diff(x.first.get(0, x.second.size()), x.second, "a clear buffer");
            for (int i = 1; i <= 2; i++) if (e.empty() && mem[i]->get(0, 256) != want[i]) e = diff(mem[i]->get(0, 256), want[i], "a protected buffer");
            for (size_t i = 0; i < n && e.empty(); i++) for (Side* t : {&I[i], &O[i]}) if (*t->pos() != posn[t->b]) e = "a buffer position is " + std::to_string(*t->pos()) + " and not " + std::to_string(posn[t->b]);
            if (!e.empty()) { size_t k = 0; for (auto& x : clear) x.second = c[k++]; want[1] = w1; want[2] = w2; }
            return e;
        };
        for (auto& c : clear) if (!c.first.guards_ok()) bad(tags({"P05"}), "memory outside a clear buffer was written");
        for (int i = 1; i <= 2; i++) if (!mem[i]->guards_ok()) bad(tags({"P05", "P09"}), "memory outside a protected buffer was written");
        if (ok) { string e = settle(n); if (!e.empty()) bad(tags({}), "after processing " + std::to_string(n) + " sample(s): " + e); return; }
        string e = settle(0); if (e.empty()) return;
        if (PUB && firstbad > 0 && firstbad < n && settle(firstbad).empty()) { string m = "refusing sample " + std::to_string(firstbad) + " of a call through the client library left the samples before it processed"; if (said.insert("partial").second) bad({"P10"}, m, false); return; }
        bad(tags({"P05"}), "a refused call had an effect: " + e);
    }
    static string diff(const bytes& got, const bytes& exp, const string& what) { size_t i = 0; while (got[i] == exp[i]) i++; return "byte " + std::to_string(i) + " of " + what + " is wrong"; }
    void run(const json& steps) {
        env::now = 100; dig = 0; outs(); env::video_poll_ok = true; uuid_place = PUB ? 0 : (int) rnd.below(16);
        try {
            at(0, "setup"); setup();
            for (size_t i = 0; i < steps.size(); i++) { const json& a = steps[i]; string op = a["op"]; if (op == "end") break; at(i, op); exec(a); }
            step = steps.size();
        } catch (Stop&) {}
        if (dead) return;
        try {
            as(h, 1); for (int i = 1; i <= 2; i++) if (svp[i]) { void* o; size_t l; API(svp_buffer_release, &o, &l, svp[i]); }
            if (PUB) { for (auto& c : ctx) API(crypto_cipher_release, c.second); for (auto& k : key) API(key_release, k.second); } else { cu = uuid_of(1); RAW("close", ta_sa_close(h, &cu)); cu = uuid_of(2); RAW("close", ta_sa_close(h2, &cu)); }
        } catch (Stop&) {}
    }
};
int main(int argc, char** argv) { return runner_main<Run>(argc, argv); }
