// Replays behaviours of Svp.tla: protected buffers compared byte for byte with the specification after every call.
#include "common/runner.h"

struct Buf { uint64_t h = 0; int s = 0; bool live = false; std::unique_ptr<Guarded> mem; bytes want; };
struct Sess { uint64_t h = 0; int u = 0; std::map<string, uint64_t> key, ctx; std::map<string, bytes> kv, iv, fed; };

static sa_uuid ident(int u) { if (u == 0) { sa_uuid x; memset(&x, 0, sizeof x); x.id[15] = 1; return x; } return uuid_of(u); }

struct Run : Base {
    std::map<int, Buf> B; std::map<int, Sess> E; std::map<int, uint8_t> tok; int nb = 0;
    explicit Run(uint64_t seed) : Base(seed) {}
    static uint64_t num(const json& j) { string b = j["b"]; uint64_t base = b == "0" ? 0 : b == "4g" ? 1ull << 32 : b == "half" ? 1ull << 63 : 0; return base + (uint64_t) (int64_t) j["d"].get<long>(); }
    vector<string> tags(vector<string> t) { t.push_back("P09"); if (PUB) t.push_back("P14"); return t; }
    void bind(int from, const bytes& v) { for (size_t i = 0; i < v.size(); i++) tok[from + (int) i + 1] = v[i]; }
    bytes value(const json& toks) { bytes r; for (auto& t : toks) r.push_back(tok.at(t)); return r; }
    void buffers(const string& what) {
        for (auto& e : B) if (e.second.live) {
            Buf& b = e.second; if (!b.mem->guards_ok()) bad(tags({"P05"}), what + ": memory outside protected buffer " + std::to_string(e.first) + " was written");
            bytes now = b.mem->get(0, b.want.size());
            if (now != b.want) { size_t i = 0; while (now[i] == b.want[i]) i++; bad(tags({}), what + ": byte " + std::to_string(i) + " of protected buffer " + std::to_string(e.first) + " (" + std::to_string(b.want.size()) + " bytes) is not what it must be"); }
        }
    }
    // what a failed call changed; the output of a decryption that failed may have been written in its place
    string changed(int ob = 0, uint64_t off = 0, uint64_t n = 0) {
        for (auto& e : B) if (e.second.live) {
            Buf& b = e.second; bytes now = b.mem->get(0, b.want.size()); if (!b.mem->guards_ok()) return "memory outside a protected buffer was written";
            for (size_t i = 0; i < now.size(); i++) if (now[i] != b.want[i]) { if (e.first == ob && i >= off && i - off < n) b.mem->p()[i] = b.want[i]; else return "a byte of a protected buffer changed"; }
        }
        return "";
    }
    void setup(Sess& x) {
        caller(x.h, ident(x.u)); sa_rights r; memset(&r, 0, sizeof r); memset(r.allowed_tas[0].id, 0xff, 16); r.not_on_or_after = UINT64_MAX;
        auto F = [](int f) { return (uint64_t) 1 << f; }; uint64_t D = F(SA_USAGE_FLAG_DECRYPT), N = F(SA_USAGE_FLAG_ENCRYPT), SO = F(SA_USAGE_FLAG_SVP_OPTIONAL), OUT = F(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED);
        for (string k : {"prot", "open", "enc", "mac"}) {
            r.usage_flags = (k == "prot" ? D | N : k == "open" ? D | SO : k == "enc" ? N | SO : D | SO) | OUT; bytes v = rnd.get(k == "mac" ? 64 : k == "open" ? 32 : 16); x.kv[k] = v; sa_import_parameters_symmetric p = {&r}; sa_key h = INVALID_HANDLE;
            API(key_import, &h, SA_KEY_FORMAT_SYMMETRIC_BYTES, v.data(), v.size(), &p); if (st) bad({"P17"}, "importing a key fails"); x.key[k] = h;
            if (k == "prot" || k == "open") for (string a : {"ctr", "ecb"}) { bytes iv = rnd.get(16); sa_cipher_parameters_aes_ctr cp = {iv.data(), 16}; sa_crypto_cipher_context c = INVALID_HANDLE;
                API(crypto_cipher_init, &c, sa_ca(a), SA_CIPHER_MODE_DECRYPT, h, a == "ctr" ? (void*) &cp : nullptr); if (st) bad({"P07", "P01"}, "opening a decryption context fails with status " + std::to_string(st)); x.ctx[k + a] = c; x.iv[k + a] = iv; }
        }
    }
    uint64_t bh(int id, int s) {
        auto it = B.find(id); if (it == B.end()) return 250 + id; Buf& b = it->second; if (b.live && b.s == s) return b.h;
        for (auto& e : B) if (e.second.live && e.second.s == s && e.second.h == b.h) return 200 + id;      // its handle means another one here
        return b.h;
    }
    void outcome(const json& a) {
        bool ok = a["ok"] == "y"; string op = a["op"]; string why; vector<string> t; for (auto& w : a["why"]) { string x = w; why += x + " "; if (x == "session") t.push_back("P03"); if (x == "handle") { t.push_back("P03"); t.push_back("P04"); } if (x == "rights") t.push_back("P01"); }
        if (ok && st) bad(tags({}), op + " must succeed but is refused with status " + std::to_string(st));
        if (!ok && st == SA_STATUS_OK) bad(tags(t), op + " must be refused (" + why + ") but succeeds");
    }
    // a buffer argument; clear ones live in g
    sa_buffer place(const json& a, const char* pb, const char* po, const char* pl, std::unique_ptr<Guarded>& g, const bytes* content) {
        sa_buffer b; memset(&b, 0, sizeof b); int id = a[pb]; uint64_t off = num(a[po]);
        if (id == 0) { size_t n = a[pl]; bytes c = content ? *content : bytes(n, 0xA5); c.resize(n, 0x11); g = std::make_unique<Guarded>(c); b.buffer_type = SA_BUFFER_TYPE_CLEAR; b.context.clear.buffer = g->p(); b.context.clear.length = n; b.context.clear.offset = off; }
        else { b.buffer_type = SA_BUFFER_TYPE_SVP; b.context.svp.buffer = bh(id, a["s"]); b.context.svp.offset = off; }
        return b;
    }
    bytes content(const json& a, const char* pb, const char* po, const char* pl, Guarded* g, size_t n) {
        uint64_t off = num(a[po]); int id = a[pb]; bytes all = id == 0 ? g->get(0, a[pl]) : B.count(id) ? B[id].want : bytes(); if (off > all.size() || n > all.size() - off) return {}; return bytes(all.begin() + off, all.begin() + off + n);
    }
    void exec(const json& a) {
        string op = a["op"]; int s = a["s"], u = a["u"]; bool any = a["ok"] == "any", want = a["ok"] == "y"; count[op + ":" + a["ok"].get<string>()]++;
        if (op == "open") {
            Sess& x = E[s]; x.u = u; if (PUB) { caller(0, ident(PUBU)); } else { ta_client h = 0; cu = ident(u); RAW("init", ta_sa_init(&h, &cu)); if (st) bad({"P03"}, "opening a session fails"); x.h = h; }
            setup(x); return;
        }
        Sess& x = E[s]; caller(x.h, PUB ? ident(PUBU) : ident(u)); int tk = a["tk"]; string nul = a.value("nul", "");
        if (op == "bcreate") {
            uint64_t n = num(a["n"]); bytes init = rnd.get(n > 4096 ? 64 : n); auto g = std::make_unique<Guarded>(init); sa_svp_buffer h = 0xABCDEF;
            FAPI(svp_buffer_create, vector<string>({"P05"}), [&]() { return changed(); }, nul == "out" ? nullptr : &h, nul == "mem" ? nullptr : g->p(), n);
            if (any) { if (st == SA_STATUS_OK) { void* o; size_t l; API(svp_buffer_release, &o, &l, h); } return; }
            outcome(a); if (!want) return; for (auto& e : B) if (e.second.live && e.second.s == s && e.second.h == h) bad(tags({"P04"}), "a new protected buffer got the handle of a live one");
            Buf& b = B[++nb]; b.h = h; b.s = s; b.live = true; b.want = init; b.mem = std::move(g); bind(tk, init); return;
        }
        if (op == "brel") {
            void* o = nullptr; size_t l = 0; FAPI(svp_buffer_release, vector<string>({"P05"}), [&]() { return changed(); }, &o, &l, bh(a["b"], s)); outcome(a); if (!want) return; Buf& b = B[a["b"]];
            if (o != b.mem->p() || l != b.want.size()) bad(tags({"P04"}), "releasing a protected buffer returns another memory or length"); buffers(op); b.live = false; return;
        }
        if (op == "bwrite" || op == "bcopy") {
            vector<sa_svp_offset> rs; for (auto& r : a["rs"]) rs.push_back({num(r["oo"]), num(r["io"]), num(r["l"])}); size_t nr = rs.size(); if (!nr) rs.resize(1);
            if (op == "bwrite") { size_t il = a["il"]; bytes d = rnd.get(il); Guarded g(d); FAPI(svp_buffer_write, vector<string>({"P05"}), [&]() { return changed(); }, bh(a["b"], s), nul == "in" ? nullptr : g.p(), il, nul == "offs" ? nullptr : rs.data(), nr); if (!g.guards_ok() || g.get(0, il) != d) bad(tags({}), "writing to a protected buffer changed the input"); if (want && !any) bind(tk, d); }
            else FAPI(svp_buffer_copy, vector<string>({"P05"}), [&]() { return changed(); }, bh(a["b"], s), bh(a["ib"], s), nul == "offs" ? nullptr : rs.data(), nr);
            if (any) return; outcome(a); if (want) B[a["ch"]].want = value(a["post"]); return;
        }
        if (op == "bcheck") {
            string dg = a["dg"], m = a["m"]; size_t hl = num(a["hl"]); uint64_t off = num(a["off"]), len = num(a["len"]); bytes d; if (B.count(a["b"])) d = B[a["b"]].want;
            bytes part = off <= d.size() && len <= d.size() - off ? bytes(d.begin() + off, d.begin() + off + len) : d; if (m == "other") part.push_back(7);
            bytes h = dg == "bad" ? bytes(64, 1) : ref::digest(dg, part); if (m == "zero") std::fill(h.begin(), h.end(), 0); if (m == "first") h[0] ^= 1; if (m == "last") h.back() ^= 0x80; if (m == "mid") h[h.size() / 2] ^= 0x10; h.resize(hl, 0x33);
            Guarded g(h); FAPI(svp_buffer_check, vector<string>({"P05"}), [&]() { return changed(); }, bh(a["b"], s), off, len, sa_dg(dg), nul == "hash" ? nullptr : g.p(), hl); outcome(a); return;
        }
        if (op == "kcheck") {
            string k = a["k"], m = a["m"]; uint64_t n = num(a["n"]), xl = num(a["xl"]); std::unique_ptr<Guarded> g; bytes in = rnd.get(a["il"]); sa_buffer b = place(a, "ib", "ioff", "il", g, &in), b0 = b;
            bytes data = n > 4096 ? bytes() : content(a, "ib", "ioff", "il", g.get(), n), exp; bytes kv = x.kv[k]; if (kv.size() == 64) kv.resize(16);
            if (!data.empty() && data.size() % 16 == 0) exp = ref::crypt("ecb", false, kv, {}, {}, data); exp.resize(xl > 4096 ? 16 : xl, 0x77);
            if (!exp.empty()) { if (m == "first") exp[0] ^= 1; if (m == "last") exp.back() ^= 0x80; if (m == "mid") exp[exp.size() / 2] ^= 4; if (m == "other") exp = rnd.get(exp.size()); }
            Guarded e(exp); FAPI(svp_key_check, vector<string>({"P05"}), [&]() { return changed(); }, x.key[k], &b, n, e.p(), xl); (void) b0;
            if (g && (!g->guards_ok() || g->get(0, in.size()) != in)) bad(tags({"P05"}), "svp_key_check changed its input"); if (any) return; outcome(a); return;
        }
        if (op == "cproc") {
            string k = a["k"].get<string>() + a["alg"].get<string>(), alg = a["alg"]; uint64_t n = num(a["n"]); std::unique_ptr<Guarded> gi, go; bytes in = rnd.get(a["il"]); sa_buffer i = place(a, "ib", "ioff", "il", gi, &in), o = place(a, "ob", "ooff", "ol", go, nullptr), i0 = i, o0 = o; size_t p = n;
            bytes data = n > 4096 ? bytes() : content(a, "ib", "ioff", "il", gi.get(), n);
            FAPI(crypto_cipher_process, vector<string>({"P05"}), [&]() -> string {
                string e = changed(a["ob"], num(a["ooff"]), n); if (!e.empty()) return e; if (memcmp(&i, &i0, sizeof i) || memcmp(&o, &o0, sizeof o)) return "the position of a buffer moved"; p = n; if (go) memcpy(go->p(), go->before.data(), go->n); return ""; }, &o, x.ctx[k], &i, &p);
            if (st && want && !failed_at.empty() && failed_at.compare(0, 4, "EVP_") == 0) throw Stop();     // the failed primitive may leave a stream good for release alone
            if (go && !go->guards_ok()) bad(tags({"P05", "P16"}), "memory outside the clear output buffer was written"); if (gi && (!gi->guards_ok() || gi->get(0, in.size()) != in)) bad(tags({"P05"}), "cipher_process changed its input");
            if (any) { if (go && !go->unchanged()) bad(tags({"P07"}), "processing no data wrote output"); return; } outcome(a);
            uint64_t pi = a["ib"] == 0 ? i.context.clear.offset - i0.context.clear.offset : i.context.svp.offset - i0.context.svp.offset, po = a["ob"] == 0 ? o.context.clear.offset - o0.context.clear.offset : o.context.svp.offset - o0.context.svp.offset;
            if (!want) { if (pi || po) bad(tags({"P05"}), "a refused call moved the position of a buffer"); if (go && !go->unchanged()) bad(tags({"P05"}), "a refused call wrote to the clear output buffer"); return; }
            if (pi != n || po != n || p != n) bad(tags({"P07"}), "positions advanced by other amounts than were processed");
            bytes out; if (alg == "ecb") out = ref::crypt("ecb", false, x.kv[a["k"]], {}, {}, data); else { bytes& f = x.fed[k]; size_t f0 = f.size(); f.insert(f.end(), data.begin(), data.end()); out = ref::crypt("ctr", false, x.kv[a["k"]], x.iv[k], {}, f); out.erase(out.begin(), out.begin() + f0); }
            bind(tk, out);
            if (a["ob"] == 0) { size_t oo = num(a["ooff"]); bytes all = go->before; std::copy(out.begin(), out.end(), all.begin() + oo); if (go->get(0, all.size()) != all) bad(tags({"P07"}), "the clear output is not the decryption of the input"); } else B[a["ch"]].want = value(a["post"]);
            return;
        }
        fprintf(stderr, "svp: unknown op %s\n", op.c_str()); _exit(98);
    }
    void run(const json& steps) {
        env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true; uuid_place = 3;
        try {
            for (size_t i = 0; i < steps.size(); i++) { const json& a = steps[i]; string op = a["op"]; if (op == "end") break; at(i, op); exec(a); buffers(op + " (" + a["ok"].get<string>() + ")"); }
            step = steps.size();
        } catch (Stop&) {}
        if (dead) return;
        try {
            for (auto& e : B) if (e.second.live) { Sess& x = E[e.second.s]; caller(x.h, PUB ? ident(PUBU) : ident(x.u)); void* o; size_t l; API(svp_buffer_release, &o, &l, e.second.h); if (st && mm.empty()) bad(tags({"P04"}), "releasing a live protected buffer is refused"); }
            for (auto& e : E) { Sess& x = e.second; if (PUB) { caller(0, ident(PUBU)); for (auto& c : x.ctx) API(crypto_cipher_release, c.second); for (auto& k : x.key) API(key_release, k.second); } else { cu = ident(x.u); RAW("close", ta_sa_close(x.h, &cu)); } }
        } catch (Stop&) {}
    }
};
int main(int argc, char** argv) { return runner_main<Run>(argc, argv); }
