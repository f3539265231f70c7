#include <openssl/err.h>
// Steps the code under test through behaviours of ProvGen.tla: OpenSSL objects of the library's provider, with keys of the
// secure application.  What has to come out is computed with one-shot calls of OpenSSL's own provider.
#include "common/runner.h"
#include <openssl/core_names.h>
#include <openssl/kdf.h>
#include <openssl/params.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
extern "C" {
#include "sa_provider.h"
#include "sa_public_key.h"
#include "sa_rights.h"
}
static OSSL_LIB_CTX* L;
static const char* NAME(const string& t) { return t == "rsa" ? "RSA" : t[0] == 'p' ? "EC" : t == "x25519" ? "X25519" : t == "x448" ? "X448" : t == "ed25519" ? "ED25519" : t == "ed448" ? "ED448" : "DH"; }
static size_t dglen(const string& d) { return d == "sha1" ? 20 : d == "sha256" ? 32 : d == "sha384" ? 48 : 64; }
// parameters that are given in one go, in any order
struct Params {
    vector<OSSL_PARAM> v; std::list<string> strs; std::list<bytes> octs; std::list<uint64_t> u64s; std::list<int> ints; std::list<unsigned> uints;
    void str(const char* k, const string& s) { strs.push_back(s); v.push_back(OSSL_PARAM_construct_utf8_string(k, (char*) strs.back().c_str(), 0)); }
    void oct(const char* k, const bytes& b) { octs.push_back(b); octs.back().reserve(1); v.push_back(OSSL_PARAM_construct_octet_string(k, octs.back().data(), b.size())); }
    void u64(const char* k, uint64_t x) { u64s.push_back(x); v.push_back(OSSL_PARAM_construct_uint64(k, &u64s.back())); }
    void num(const char* k, int x) { ints.push_back(x); v.push_back(OSSL_PARAM_construct_int(k, &ints.back())); }
    void unum(const char* k, unsigned x) { uints.push_back(x); v.push_back(OSSL_PARAM_construct_uint(k, &uints.back())); }
    const OSSL_PARAM* get(Prng& r) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); v.push_back(OSSL_PARAM_construct_end()); return v.data(); }
};
struct Ctx {
    string kind, alg, dg, pad, mgf, salt, type; EVP_CIPHER_CTX* cc = nullptr; EVP_CIPHER* ci = nullptr; EVP_MAC_CTX* mc = nullptr; EVP_MD_CTX* dc = nullptr; EVP_MD* md = nullptr; EVP_KDF_CTX* kc = nullptr; EVP_PKEY_CTX* pc = nullptr; bool ownpc = false;
    bool given = false, dec = false, pre = false; size_t size = 0, n = 0, k = 0; bytes key, iv, in, exp, aad, tag, got, data, saltb, info, label; size_t aadn = 0; int sep = -1, len = -1; pkey peer;
    bytes peerpriv;
};
struct Key { sa_key h = INVALID_HANDLE; bytes val; pkey soft; uint8_t id[64]; bool made = false, gone = false; bytes pub; };  // gone: seen to be released (later a copy with the same id may get the same handle)
struct Run : Base {
    std::map<int, Ctx> cx; std::map<int, Key> key; std::map<int, EVP_PKEY*> pk; std::map<int, int> pkk; uint64_t base; const json* beh = nullptr; bool symmetric = true;
    explicit Run(uint64_t seed) : Base(seed), base(seed) {}
    const vector<string> P{"P15"};
    uint64_t below(uint64_t n) { return rnd.below(n); }
    template <class F> bool ev(const char* fn, F f) { this->call(fn, [&]() -> sa_status { return f() ? SA_STATUS_OK : SA_STATUS_INTERNAL_ERROR; }); return st == SA_STATUS_OK; }
    void verdict(const json& a, bool ok, const string& what) {
        string v = a["ok"], why; if (a.contains("why")) for (auto& w : a["why"]) why += " " + w.get<string>();
        if (v == "y" && !ok) bad(P, what + " fails"); if (v == "n" && ok) bad(P, what + " that must fail (" + why + " ) succeeds");
    }
    // --- the application's keys -------------------------------------------------------------------------------------------
    string pktype(int k) { static const char* T[] = {"", "rsa", "p256", "p384", "p521", "x25519", "x448", "ed25519", "ed448", "dh", "rsa", "p256", "x25519", "dh", "p521"}; return T[k]; }
    void rights(sa_rights& r, Key& k, int n) { sa_rights_set_allow_all(&r); memset(r.id, 0, 64); snprintf(r.id, sizeof r.id, "app-%d-%llx", n, (unsigned long long) rnd.next()); memcpy(k.id, r.id, 64); }
    void make(int n) {
        Key& k = key[n]; if (k.made) return; sa_rights r; rights(r, k, n);
        if (symmetric) { static const size_t LEN[] = {0, 16, 32, 16, 32, 20, 64}; k.val = rnd.get(LEN[n]); sa_import_parameters_symmetric p = {&r}; RAW("sa_key_import", sa_key_import(&k.h, SA_KEY_FORMAT_SYMMETRIC_BYTES, k.val.data(), k.val.size(), &p)); }
        else {
            string t = pktype(n);
            if (t == "rsa") { k.val = ref::rsa_der(256, n == 1 ? 1 : 2); k.soft = ref::rsa_key(k.val); sa_import_parameters_rsa_private_key_info p = {&r}; RAW("sa_key_import", sa_key_import(&k.h, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, k.val.data(), k.val.size(), &p)); }
            else if (t == "dh") { bytes p = ref::dh_p(256), g = {2}; sa_generate_parameters_dh gp = {p.data(), p.size(), g.data(), g.size()}; RAW("sa_key_generate", sa_key_generate(&k.h, &r, SA_KEY_TYPE_DH, &gp)); if (!st) { size_t m = 0; RAW("sa_key_get_public", sa_key_get_public(nullptr, &m, k.h)); k.pub.resize(m); RAW("sa_key_get_public", sa_key_get_public(k.pub.data(), &m, k.h)); k.pub.resize(m); k.soft = ref::from_spki(k.pub); sa_header hd; RAW("sa_key_header", sa_key_header(&hd, k.h)); memcpy(k.id, hd.rights.id, 64); } }
            else { uint64_t s = rnd.next() >> 8; k.val = ref::ec_der(t, s); k.soft = ref::ec_key(t, ref::ec_scalar(t, s)); sa_import_parameters_ec_private_bytes p = {&r, t == "p256" ? SA_ELLIPTIC_CURVE_NIST_P256 : t == "p384" ? SA_ELLIPTIC_CURVE_NIST_P384 : t == "p521" ? SA_ELLIPTIC_CURVE_NIST_P521 : t == "x25519" ? SA_ELLIPTIC_CURVE_X25519 : t == "x448" ? SA_ELLIPTIC_CURVE_X448 : t == "ed25519" ? SA_ELLIPTIC_CURVE_ED25519 : SA_ELLIPTIC_CURVE_ED448}; RAW("sa_key_import", sa_key_import(&k.h, SA_KEY_FORMAT_EC_PRIVATE_BYTES, k.val.data(), k.val.size(), &p)); }
        }
        if (st) bad({"P17"}, "making a key fails with status " + std::to_string(st)); k.made = true;
    }
    bool alive(Key& k) { sa_header h; RAW("sa_key_header", sa_key_header(&h, k.h)); return st == SA_STATUS_OK && !memcmp(h.rights.id, k.id, 64); }
    void owners(const json& a) { std::set<int> gone; for (auto& g : a["gone"]) gone.insert(g.get<int>()); for (auto& e : key) if (e.second.made && !e.second.gone) { e.second.gone = gone.count(e.first); bool l = alive(e.second); if (l && gone.count(e.first)) bad(P, "a key that was handed over is still there after its last user is gone"); if (!l && !gone.count(e.first)) bad(P, "a key that belongs to the application or is still in use has been released"); } }
    sa_key handle(int k) { if (!k) return below(2) ? (sa_key) 0x7fffff00 : INVALID_HANDLE; make(k); return key[k].h; }
    void keyparams(const json& a, Params& p, size_t& rawn) { (void) rawn; string kf = a["kf"]; if (kf == "handle" || kf == "give") { p.u64(OSSL_PARAM_SA_KEY, handle(a["k"])); if (kf == "give") p.num(OSSL_PARAM_SA_KEY_DELETE, 1); else if (below(4) == 0) p.num(OSSL_PARAM_SA_KEY_DELETE, 0); } }
    void drop(int c) {
        auto i = cx.find(c); if (i == cx.end()) return; Ctx& x = i->second;
        ev("free", [&]() { EVP_CIPHER_CTX_free(x.cc); EVP_CIPHER_free(x.ci); EVP_MAC_CTX_free(x.mc); EVP_MD_CTX_free(x.dc); EVP_MD_free(x.md); EVP_KDF_CTX_free(x.kc); if (x.ownpc) EVP_PKEY_CTX_free(x.pc); return true; }); cx.erase(c);
    }
    // the key behind a handle has these bytes
    void same(sa_key h, const bytes& want, const string& what) {
        sa_header hd; RAW("sa_key_header", sa_key_header(&hd, h)); if (st) bad(P, what + " gives no key"); bytes d(32); size_t n = 32; RAW("sa_key_digest", sa_key_digest(d.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256)); bool e = !st && n == 32 && d == ref::digest("sha256", want) && hd.size == want.size();
        RAW("sa_key_release", sa_key_release(h)); if (!e) bad(P, what + " gives another key than OpenSSL");
    }
    // --- ciphers ----------------------------------------------------------------------------------------------------------
    static bool blocky(const string& a) { return a == "ecb" || a == "cbc"; }
    static bool aead(const string& a) { return a == "gcm" || a == "poly"; }
    void cnew(const json& a) {
        drop(a["c"]); Ctx x; x.kind = "cipher"; x.alg = a["alg"]; x.size = a["size"]; string nm = x.alg == "cha" ? "ChaCha20" : x.alg == "poly" ? "ChaCha20-Poly1305" : "AES-" + std::to_string(x.size * 8) + "-" + (x.alg == "ecb" ? "ECB" : x.alg == "cbc" ? "CBC" : x.alg == "ctr" ? "CTR" : "GCM");
        ev("EVP_CIPHER_fetch", [&]() { x.ci = EVP_CIPHER_fetch(L, nm.c_str(), nullptr); x.cc = EVP_CIPHER_CTX_new(); return x.ci && x.cc; }); cx[a["c"]] = x; verdict(a, !st, "fetching " + nm);
        EVP_CIPHER* o = EVP_CIPHER_fetch(nullptr, nm.c_str(), nullptr); if (!o) bad(P, "no " + nm);
        if (EVP_CIPHER_get_block_size(o) != EVP_CIPHER_get_block_size(x.ci) || EVP_CIPHER_get_key_length(o) != EVP_CIPHER_get_key_length(x.ci) || (x.alg != "ecb" && EVP_CIPHER_get_iv_length(o) != EVP_CIPHER_get_iv_length(x.ci)) || EVP_CIPHER_get_mode(o) != EVP_CIPHER_get_mode(x.ci)) { EVP_CIPHER_free(o); bad(P, "the facts about " + nm + " are not those of OpenSSL"); } EVP_CIPHER_free(o);
    }
    void cinit(const json& a, size_t at) {
        Ctx& x = cx[a["c"]]; Params p; size_t rawn = 0; string kf = a["kf"], pad = a["pad"]; bool ctrl = a["how"] == "ctrl"; bytes raw, iv; if (kf == "raw") raw = rnd.get(x.size); keyparams(a, p, rawn); if (a["iv"].get<bool>()) iv = rnd.get(x.alg == "gcm" || x.alg == "poly" ? 12 : 16); if (!ctrl && !pad.empty()) p.unum(OSSL_CIPHER_PARAM_PADDING, pad == "1");
        bool dec = a["dir"] == "dec", first = !x.given; bool onego = !ctrl || below(2); Guarded gk(raw), gi(iv);
        bool ok = ev("EVP_CipherInit_ex2", [&]() {
            const OSSL_PARAM* pp = p.get(rnd); if (EVP_CipherInit_ex2(x.cc, first ? x.ci : nullptr, raw.empty() ? nullptr : gk.p(), iv.empty() ? nullptr : gi.p(), !dec, onego && p.v.size() > 1 ? pp : nullptr) != 1) return false; x.given = true;
            if (!onego && p.v.size() > 1 && EVP_CIPHER_CTX_set_params(x.cc, pp) != 1) return false; if (ctrl && !pad.empty() && EVP_CIPHER_CTX_set_padding(x.cc, pad == "1") != 1) return false; return true; });
        if (EVP_CIPHER_CTX_get0_cipher(x.cc)) x.given = true;
        verdict(a, ok, "starting a cipher"); if (a["ok"] == "n") { x.iv.clear(); x.in.clear(); x.exp.clear(); x.got.clear(); return; }
        if (kf == "raw") x.key = raw; else if (!kf.empty()) x.key = key[a["k"]].val; if (!iv.empty()) x.iv = iv; x.dec = dec; x.got.clear(); x.n = 0; x.aadn = 0; if (x.key.empty()) return;
        // what the coming steps will feed it
        size_t n = 0, an = 0; const json* fin = nullptr; for (size_t i = at + 1; i < beh->size(); i++) { const json& b = (*beh)[i]; if (!b.contains("c") || b["c"] != a["c"]) continue; string op = b["op"]; if (op == "cupd" && b["ok"] == "y") n += b["n"].get<size_t>(); else if (op == "caad" && b["ok"] == "y") an += b["n"].get<size_t>(); else if (op == "cfin") { fin = &b; break; } else if (op == "cinit" || op == "cnew" || op == "free") break; }
        bytes ivv = x.alg == "ecb" ? bytes() : x.iv; x.aad = rnd.get(an); bool padded = blocky(x.alg) && fin && (*fin)["pad"].get<bool>();
        if (!dec) {
            x.in = rnd.get(n); bytes full = x.in; if (padded) full.insert(full.end(), 16 - n % 16, (uint8_t) (16 - n % 16)); else if (blocky(x.alg)) full.resize(n / 16 * 16); x.exp = ref::crypt(x.alg, true, x.key, ivv, x.aad, full, aead(x.alg) ? &x.tag : nullptr);
        } else if (blocky(x.alg)) {
            bytes m = rnd.get(n / 16 * 16); x.exp = m;
            if (padded && n && n % 16 == 0) {
                size_t pl = (*fin)["padlen"]; string bp = (*fin)["badpad"]; bool good = (*fin)["goodpad"];
                if (good) { for (size_t j = 0; j < pl; j++) m[n - 1 - j] = pl; x.exp.assign(m.begin(), m.end() - pl); }
                else { if (bp == "zero") m[n - 1] = 0; else if (bp == "big") m[n - 1] = 17 + below(239); else { if (pl < 2) pl = 2; for (size_t j = 0; j < pl; j++) m[n - 1 - j] = pl; m[n - 1 - (1 + below(pl - 1))] ^= 1 + below(255); } x.exp.assign(m.begin(), m.end() - 16); }
            } else if (padded && n >= 16) x.exp = m;
            x.in = ref::crypt(x.alg, true, x.key, ivv, {}, m); bytes rest = rnd.get(n % 16); x.in.insert(x.in.end(), rest.begin(), rest.end());
        } else { x.exp = rnd.get(n); x.in = ref::crypt(x.alg, true, x.key, ivv, x.aad, x.exp, aead(x.alg) ? &x.tag : nullptr); }
    }
    void cupd(const json& a) {
        Ctx& x = cx[a["c"]]; size_t n = a["n"]; Guarded in(bytes(x.in.begin() + x.n, x.in.begin() + x.n + n)), out(n + (blocky(x.alg) ? 16 : 0) + 1); int l = -7;
        bool ok = ev("EVP_CipherUpdate", [&]() { return EVP_CipherUpdate(x.cc, out.p(), &l, in.p(), n) == 1; }); verdict(a, ok, "an update of " + std::to_string(n) + " bytes"); if (!ok) return; x.n += n; take(x, out, l, false, "an update of " + std::to_string(n) + " bytes");
        if (!in.unchanged() || !in.guards_ok()) bad(P, "an update changes its input");
    }
    void take(Ctx& x, Guarded& out, int l, bool whole, const string& what) {
        if (!out.guards_ok()) bad(P, what + " writes past its output"); if (l < 0 || (size_t) l > out.n) bad(P, what + " tells " + std::to_string(l) + " bytes of output"); bytes o = out.get(0, l); x.got.insert(x.got.end(), o.begin(), o.end());
        if (x.got.size() > x.exp.size() || memcmp(x.got.data(), x.exp.data(), x.got.size()) || (whole && x.got.size() != x.exp.size())) bad(P, x.alg + (x.dec ? " decryption: " : " encryption: ") + what + " does not give what OpenSSL gives (" + std::to_string(x.got.size()) + " of " + std::to_string(x.exp.size()) + " bytes, input " + std::to_string(x.n) + ")");
    }
    void caad(const json& a) {
        Ctx& x = cx[a["c"]]; size_t n = a["n"]; bytes d = a["ok"] == "y" ? bytes(x.aad.begin() + x.aadn, x.aad.begin() + x.aadn + n) : rnd.get(n); Guarded in(d); int l = -7; bool ok = ev("EVP_CipherUpdate", [&]() { return EVP_CipherUpdate(x.cc, nullptr, &l, in.p(), n) == 1; }); verdict(a, ok, "additional data"); if (ok) x.aadn += n;
    }
    void ctag(const json& a) {
        Ctx& x = cx[a["c"]]; size_t n = a["n"]; bytes t(x.tag.begin(), x.tag.begin() + n); if (a["tag"] == "wrong") t[below(n)] ^= 1 << below(8); Guarded g(t);
        bool ok = ev("set tag", [&]() { if (below(2)) return EVP_CIPHER_CTX_ctrl(x.cc, EVP_CTRL_AEAD_SET_TAG, n, g.p()) == 1; OSSL_PARAM p[2] = {OSSL_PARAM_construct_octet_string(OSSL_CIPHER_PARAM_AEAD_TAG, g.p(), n), OSSL_PARAM_construct_end()}; return EVP_CIPHER_CTX_set_params(x.cc, p) == 1; }); verdict(a, ok, "giving the tag");
    }
    void cfin(const json& a) {
        Ctx& x = cx[a["c"]]; Guarded out(16); int l = -7; bool none = a["none"]; bool ok = ev("EVP_CipherFinal_ex", [&]() { return EVP_CipherFinal_ex(x.cc, none ? nullptr : out.p(), &l) == 1; });
        if (!out.guards_ok()) bad(P, "the end of a cipher writes past its output"); verdict(a, ok, "the end of " + x.alg + (x.dec ? " decryption" : " encryption")); if (!ok) return; if (none) { if (l) bad(P, "the end of a cipher tells output without room for it"); }
        take(x, out, l, true, "the end");
    }
    void cget(const json& a) {
        Ctx& x = cx[a["c"]]; size_t n = a["n"]; Guarded g(n); bool ok = ev("get tag", [&]() { if (below(2)) return EVP_CIPHER_CTX_ctrl(x.cc, EVP_CTRL_AEAD_GET_TAG, n, g.p()) == 1; OSSL_PARAM p[2] = {OSSL_PARAM_construct_octet_string(OSSL_CIPHER_PARAM_AEAD_TAG, g.p(), n), OSSL_PARAM_construct_end()}; return EVP_CIPHER_CTX_get_params(x.cc, p) == 1; }); verdict(a, ok, "reading the tag"); if (!g.guards_ok()) bad(P, "memory around the tag is written"); if (ok && g.get(0, n) != bytes(x.tag.begin(), x.tag.begin() + n)) bad(P, "the tag is not that of OpenSSL");
    }
    // --- message authentication, digests -------------------------------------------------------------------------------------
    void mnew(const json& a) { drop(a["c"]); Ctx x; x.kind = "mac"; x.alg = a["alg"]; ev("EVP_MAC_fetch", [&]() { EVP_MAC* m = EVP_MAC_fetch(L, x.alg == "hmac" ? "HMAC" : "CMAC", nullptr); x.mc = m ? EVP_MAC_CTX_new(m) : nullptr; EVP_MAC_free(m); return x.mc != nullptr; }); cx[a["c"]] = x; verdict(a, !st, "a MAC context"); }
    void minit(const json& a) {
        Ctx& x = cx[a["c"]]; Params p; size_t rn = 0; string kf = a["kf"], dg = a["dg"]; bytes raw; if (kf == "raw") raw = rnd.get(a["n"]); keyparams(a, p, rn); if (!dg.empty()) p.str(OSSL_MAC_PARAM_DIGEST, dg); Guarded g(raw); const OSSL_PARAM* pp = p.get(rnd); bool sep = below(4) == 0 && kf != "raw" && p.v.size() > 1;
        bool ok = ev("EVP_MAC_init", [&]() { if (sep) return EVP_MAC_CTX_set_params(x.mc, pp) == 1 && EVP_MAC_init(x.mc, nullptr, 0, nullptr) == 1; return EVP_MAC_init(x.mc, raw.empty() ? nullptr : g.p(), raw.size(), p.v.size() > 1 || below(2) ? pp : nullptr) == 1; }); verdict(a, ok, "starting a MAC");
        if (kf == "raw") x.key = raw; else if (!kf.empty() && a["k"] != 0) x.key = key[a["k"]].val; if (!dg.empty() && (kf == "" || kf == "raw" || a["k"] != 0)) x.dg = dg; x.data.clear();
    }
    void mupd(const json& a) { Ctx& x = cx[a["c"]]; bytes d = rnd.get(a["n"]); Guarded g(d); bool ok = ev("EVP_MAC_update", [&]() { return EVP_MAC_update(x.mc, g.p(), d.size()) == 1; }); verdict(a, ok, "data of a MAC"); if (ok) x.data.insert(x.data.end(), d.begin(), d.end()); }
    void mfin(const json& a) {
        Ctx& x = cx[a["c"]]; bytes want = x.alg == "hmac" ? ref::hmac(x.dg, x.key, x.data) : ref::cmac(x.key, x.data); size_t l = 999; bool q = ev("EVP_MAC_final", [&]() { return EVP_MAC_final(x.mc, nullptr, &l, 0) == 1; }); if (!q || l != want.size() || EVP_MAC_CTX_get_mac_size(x.mc) != want.size()) bad(P, "the size of a MAC is told as " + std::to_string(l));
        bool room = a["room"]; size_t n = room ? want.size() + a["more"].get<size_t>() : want.size() - 1 - below(want.size() - 1); Guarded g(n); l = 999; bool ok = ev("EVP_MAC_final", [&]() { return EVP_MAC_final(x.mc, g.p(), &l, n) == 1; }); if (!g.guards_ok()) bad(P, "memory around a MAC is written"); verdict(a, ok, "finishing a MAC"); if (ok && (l != want.size() || g.get(0, l) != want)) bad(P, "a MAC is not that of OpenSSL");
    }
    void dnew(const json& a) { drop(a["c"]); Ctx x; x.kind = "digest"; x.dg = a["dg"]; ev("EVP_MD_fetch", [&]() { x.md = EVP_MD_fetch(L, x.dg.c_str(), nullptr); x.dc = EVP_MD_CTX_new(); return x.md && x.dc; }); cx[a["c"]] = x; verdict(a, !st, "a digest context"); const EVP_MD* o = ref::md(x.dg); if (EVP_MD_get_size(o) != EVP_MD_get_size(x.md) || EVP_MD_get_block_size(o) != EVP_MD_get_block_size(x.md)) bad(P, "the facts about a digest are not those of OpenSSL"); }
    void dinit(const json& a) { Ctx& x = cx[a["c"]]; bool again = x.given && below(2); bool ok = ev("EVP_DigestInit_ex2", [&]() { return EVP_DigestInit_ex2(x.dc, again ? nullptr : x.md, nullptr) == 1; }); x.given = true; verdict(a, ok, "starting a digest"); x.data.clear(); }
    void dupd(const json& a) { Ctx& x = cx[a["c"]]; bytes d = rnd.get(a["n"]); Guarded g(d); bool ok = ev("EVP_DigestUpdate", [&]() { return EVP_DigestUpdate(x.dc, g.p(), d.size()) == 1; }); verdict(a, ok, "data of a digest"); x.data.insert(x.data.end(), d.begin(), d.end()); }
    void dfin(const json& a) { Ctx& x = cx[a["c"]]; bytes want = ref::digest(x.dg, x.data); Guarded g(want.size()); unsigned l = 999; bool ok = ev("EVP_DigestFinal_ex", [&]() { return EVP_DigestFinal_ex(x.dc, g.p(), &l) == 1; }); verdict(a, ok, "finishing a digest"); if (!g.guards_ok() || l != want.size() || g.get(0, l) != want) bad(P, "a digest is not that of OpenSSL"); }
    void ddup(const json& a) { drop(a["d"]); Ctx y = cx[a["c"]]; y.dc = EVP_MD_CTX_new(); EVP_MD_up_ref(y.md); bool ok = ev("EVP_MD_CTX_copy_ex", [&]() { return EVP_MD_CTX_copy_ex(y.dc, cx[a["c"]].dc) == 1; }); cx[a["d"]] = y; verdict(a, ok, "copying a digest"); }
    // --- key derivation ----------------------------------------------------------------------------------------------------
    // Whether the separator and the length are part of the data when nobody has said so is left open (learned from one new context),
    // but it must be the same for every new and every reset context.
    static bytes kother(const bytes& salt, const bytes& info, int sep, int len, size_t n) { bytes o = salt; if (sep) o.push_back(0); o.insert(o.end(), info.begin(), info.end()); if (len) for (int i = 3; i >= 0; i--) o.push_back(n >> (8 * i)); return o; }
    int defaults() {
        static int known = -1; if (known >= 0) return known;
        sa_rights r; sa_rights_set_allow_all(&r); bytes v(16, 7), salt(4, 1), info(4, 2), d(32), out(16); sa_key k, h = 0; size_t n = 32; sa_import_parameters_symmetric q = {&r}; RAW("sa_key_import", sa_key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, v.data(), v.size(), &q)); if (st) return 0;
        EVP_KDF* f = EVP_KDF_fetch(L, "KBKDF", nullptr); EVP_KDF_CTX* x = EVP_KDF_CTX_new(f); Params p; p.u64(OSSL_PARAM_SA_KEY, k); p.oct(OSSL_KDF_PARAM_SALT, salt); p.oct(OSSL_KDF_PARAM_INFO, info);
        if (ev("EVP_KDF_derive", [&]() { return EVP_KDF_derive(x, out.data(), 16, p.get(rnd)) == 1; })) { memcpy(&h, out.data(), sizeof h); RAW("sa_key_digest", sa_key_digest(d.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256)); RAW("sa_key_release", sa_key_release(h)); }
        EVP_KDF_CTX_free(x); EVP_KDF_free(f); RAW("sa_key_release", sa_key_release(k));
        known = 0; for (int i = 0; i < 4; i++) if (ref::digest("sha256", ref::cmac_kdf(v, kother(salt, info, i & 1, i >> 1, 16), 1, 16)) == d) known = i;
        return known;
    }
    void kdefaults(Ctx& x) { x.sep = x.len = -1; }
    void knew(const json& a) {
        drop(a["c"]); Ctx x; x.kind = "kdf"; x.alg = a["alg"]; ev("EVP_KDF_fetch", [&]() { EVP_KDF* k = EVP_KDF_fetch(L, x.alg == "hkdf" ? "HKDF" : x.alg == "sskdf" ? "SSKDF" : x.alg == "x963kdf" ? "X963KDF" : "KBKDF", nullptr); x.kc = k ? EVP_KDF_CTX_new(k) : nullptr; EVP_KDF_free(k); return x.kc != nullptr; }); cx[a["c"]] = x; verdict(a, !st, "a KDF context"); kdefaults(cx[a["c"]]);
    }
    void kparams(const json& a, Params& p, Ctx& y) {
        size_t rn = 0; keyparams(a, p, rn); string kf = a["kf"], dg = a["dg"]; if (kf == "octets") { sa_key h = handle(a["k"]); p.oct(OSSL_KDF_PARAM_KEY, bytes((uint8_t*) &h, (uint8_t*) &h + sizeof h)); } if (!kf.empty() && a["k"] != 0) y.key = key[a["k"]].val;
        if (!dg.empty()) { p.str(OSSL_KDF_PARAM_DIGEST, dg); y.dg = dg; } int s = a["salt"], i = a["info"], sp = a["sep"]; if (s >= 0) { y.saltb = rnd.get(s); p.oct(OSSL_KDF_PARAM_SALT, y.saltb); } if (i >= 0) { y.info = rnd.get(i); p.oct(OSSL_KDF_PARAM_INFO, y.info); } if (sp >= 0) { y.sep = sp; p.num(OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR, sp); } if (int ul = a["l"]; ul >= 0) { y.len = ul; p.num(OSSL_KDF_PARAM_KBKDF_USE_L, ul); }
    }
    static bool badkey(const json& a) { return a["ok"] == "n" && std::find(a["why"].begin(), a["why"].end(), "key") != a["why"].end(); }
    void kset(const json& a) {
        Ctx& x = cx[a["c"]]; Ctx y = x; Params p; kparams(a, p, y); const OSSL_PARAM* pp = p.get(rnd); bool ok = ev("EVP_KDF_CTX_set_params", [&]() { return EVP_KDF_CTX_set_params(x.kc, pp) == 1; }); verdict(a, ok, "setting parameters of a KDF"); if (a["ok"] == "y") x = y;
    }
    void kderive(const json& a) {
        Ctx& x = cx[a["c"]]; Ctx y = x; Params p; kparams(a, p, y); const OSSL_PARAM* pp = p.get(rnd); size_t n = a["n"]; Guarded g(n); bool nul = p.v.size() == 1 && below(2); bool ok = ev("EVP_KDF_derive", [&]() { return EVP_KDF_derive(x.kc, g.p(), n, nul ? nullptr : pp) == 1; }); if (!g.guards_ok()) bad(P, "memory around a derived key is written"); sa_key h; memcpy(&h, g.p(), sizeof h);
        verdict(a, ok, x.alg + ": deriving a key of " + std::to_string(n) + " bytes"); if (!badkey(a)) x = y; if (!ok) return; 
        if (y.alg == "kbkdf") {
            int s = y.sep < 0 ? defaults() & 1 : y.sep, l = y.len < 0 ? defaults() >> 1 : y.len; bytes want = ref::cmac_kdf(y.key, kother(y.saltb, y.info, s, l, n), 1, n);
            same(h, want, y.alg); return;
        }
        same(h, y.alg == "hkdf" ? ref::hkdf(y.dg, y.key, y.saltb, y.info, n) : y.alg == "sskdf" ? ref::concat_kdf(y.dg, y.key, y.info, n) : ref::x963(y.dg, y.key, y.info, n), y.alg);
    }
    void kreset(const json& a) { Ctx& x = cx[a["c"]]; ev("EVP_KDF_CTX_reset", [&]() { EVP_KDF_CTX_reset(x.kc); return true; }); x.key.clear(); x.dg.clear(); x.saltb.clear(); x.info.clear(); kdefaults(x); }
    void kdup(const json& a) { Ctx y = cx[a["c"]]; y.kc = nullptr; bool ok = ev("EVP_KDF_CTX_dup", [&]() { y.kc = EVP_KDF_CTX_dup(cx[a["c"]].kc); return y.kc != nullptr; }); if (ok) drop(a["d"]); cx[a["d"]] = y; verdict(a, ok, "copying a KDF"); }
    // --- asymmetric keys -----------------------------------------------------------------------------------------------------
    void pnew(const json& a) {
        int k = a["k"], pi = a["p"]; if (a["how"] == "gen") { pgen(a); return; } make(k); string how = a["how"], t = a["type"]; EVP_PKEY* p = nullptr; Key& K = key[k];
        bool ok = ev("EVP_PKEY_fromdata", [&]() {
            if (how == "der") { const uint8_t* q = K.val.data(); p = d2i_AutoPrivateKey_ex(nullptr, &q, K.val.size(), L, nullptr); return p != nullptr; }
            EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(L, NAME(t), nullptr); if (!c) return false; Params ps; ps.u64(OSSL_PARAM_SA_KEY, K.h); if (how == "give") ps.num(OSSL_PARAM_SA_KEY_DELETE, 1); else if (below(3) == 0) ps.num(OSSL_PARAM_SA_KEY_DELETE, 0);
            bool r = EVP_PKEY_fromdata_init(c) == 1 && EVP_PKEY_fromdata(c, &p, EVP_PKEY_KEYPAIR, (OSSL_PARAM*) ps.get(rnd)) == 1; EVP_PKEY_CTX_free(c); return r; });
        if (!p) { ERR_print_errors_fp(stderr); fprintf(stderr, "LEN %zu\n", K.val.size()); } if (p) pk[pi] = p; pkk[pi] = k; verdict(a, ok && p, "making a key object (" + t + ", " + how + ")");
        uint8_t* o = nullptr; int n = 0; ev("i2d_PUBKEY", [&]() { n = i2d_PUBKEY(p, &o); return n > 0; }); bytes got(o, o + (n > 0 ? n : 0)); OPENSSL_free(o); if (got != (t == "dh" ? K.pub : ref::spki(K.soft.get()))) bad(P, "the public key of a key object (" + t + ") is not that of the key");
        if (EVP_PKEY_get_bits(p) != EVP_PKEY_get_bits(K.soft.get()) || EVP_PKEY_get_size(p) != EVP_PKEY_get_size(K.soft.get()) || EVP_PKEY_get_security_bits(p) != EVP_PKEY_get_security_bits(K.soft.get())) bad(P, "the facts about a key object (" + t + ") are not those of the key: " + std::to_string(EVP_PKEY_get_bits(p)) + " bits, size " + std::to_string(EVP_PKEY_get_size(p)) + ", security " + std::to_string(EVP_PKEY_get_security_bits(p)));
    }
    // the handles there are: handles are small numbers
    std::set<sa_key> handles() { std::set<sa_key> r; sa_header hd; for (sa_key h = 0; h < 256; h++) { RAW("sa_key_header", sa_key_header(&hd, h)); if (!st) r.insert(h); } return r; }
    // a key the provider generates: it belongs to the key object
    void pgen(const json& a) {
        int k = a["k"], pi = a["p"]; string t = a["type"]; Key& K = key[k]; EVP_PKEY *p = nullptr, *like = nullptr; for (auto& e : pk) if (pktype(pkk[e.first]) == t && below(2)) like = e.second; bool ec = t[0] == 'p'; const char* group = t == "p256" ? "P-256" : t == "p384" ? "P-384" : "P-521"; unsigned how = below(3); std::set<sa_key> before = handles();
        bool ok = ev("EVP_PKEY_keygen", [&]() {
            if (!like && how == 0) { p = t == "rsa" ? EVP_PKEY_Q_keygen(L, nullptr, "RSA", (size_t) 2048) : ec ? EVP_PKEY_Q_keygen(L, nullptr, "EC", group) : EVP_PKEY_Q_keygen(L, nullptr, NAME(t)); return p != nullptr; }
            EVP_PKEY* par = nullptr; EVP_PKEY_CTX* c = nullptr;
            if (!like && how == 1 && ec) { c = EVP_PKEY_CTX_new_from_name(L, "EC", nullptr); bool r = EVP_PKEY_paramgen_init(c) == 1 && EVP_PKEY_CTX_set_group_name(c, group) == 1 && EVP_PKEY_paramgen(c, &par) == 1; EVP_PKEY_CTX_free(c); if (!r) return false; like = par; }
            c = like ? EVP_PKEY_CTX_new_from_pkey(L, like, nullptr) : EVP_PKEY_CTX_new_from_name(L, NAME(t), nullptr); bool r = c && EVP_PKEY_keygen_init(c) == 1 && (like || !ec || EVP_PKEY_CTX_set_group_name(c, group) == 1) && (like || t != "rsa" || EVP_PKEY_CTX_set_rsa_keygen_bits(c, 2048) == 1) && EVP_PKEY_keygen(c, &p) == 1; EVP_PKEY_CTX_free(c); EVP_PKEY_free(par); return r; });
        if (p) pk[pi] = p; pkk[pi] = k; verdict(a, ok && p, "generating a key (" + t + (like ? ", like another one)" : ")"));
        uint8_t* o = nullptr; int n = 0; ev("i2d_PUBKEY", [&]() { n = i2d_PUBKEY(p, &o); return n > 0; }); bytes got(o, o + (n > 0 ? n : 0)); OPENSSL_free(o); K.soft = ref::from_spki(got); K.pub = got; if (!K.soft) bad(P, "the public key of a generated key (" + t + ") cannot be read");
        std::set<sa_key> now = handles(); sa_key h = INVALID_HANDLE; size_t more = 0; for (sa_key e : now) if (!before.count(e)) { h = e; more++; } if (more != 1) bad(P, "generating a key makes " + std::to_string(more) + " keys");
        K.h = h; K.made = true; sa_header hd; RAW("sa_key_header", sa_key_header(&hd, K.h)); memcpy(K.id, hd.rights.id, 64); if (st) bad(P, "a generated key has no header");
        size_t m = 0; RAW("sa_key_get_public", sa_key_get_public(nullptr, &m, K.h)); bytes pub(m); RAW("sa_key_get_public", sa_key_get_public(pub.data(), &m, K.h)); pub.resize(m); if (st || pub != got) bad(P, "the public key of a generated key (" + t + ") is not that of its handle");
        if (EVP_PKEY_get_bits(p) != EVP_PKEY_get_bits(K.soft.get()) || EVP_PKEY_get_size(p) != EVP_PKEY_get_size(K.soft.get()) || EVP_PKEY_get_security_bits(p) != EVP_PKEY_get_security_bits(K.soft.get())) bad(P, "the facts about a generated key (" + t + ") are not those of the key");
        if ((t == "rsa" && EVP_PKEY_get_bits(p) != 2048) || (ec && (size_t) EVP_PKEY_get_bits(p) != (t == "p521" ? 521 : ref::curve_size(t) * 8))) bad(P, "a generated key (" + t + ") has another size than asked for");
        for (auto& e : key) if (e.first != k && e.second.made && e.second.soft && EVP_PKEY_eq(e.second.soft.get(), K.soft.get()) == 1) bad(P, "a generated key is one there was before");
    }
    void pfree(const json& a) { ev("EVP_PKEY_free", [&]() { EVP_PKEY_free(pk[a["p"]]); return true; }); pk.erase(a["p"].get<int>()); }
    void pmatch(const json& a) { int r = -9; ev("EVP_PKEY_eq", [&]() { r = EVP_PKEY_eq(pk[a["p"]], pk[a["q"]]); return true; }); if ((r == 1) != a["same"].get<bool>()) bad(P, "two key objects of " + string(a["same"] ? "the same key" : "different keys") + " compare as " + std::to_string(r)); }
    string mdof(const Ctx& x) { return x.dg.empty() ? "sha1" : x.dg; }
    void setpad(Ctx& x, bool& ok) {
        if (!x.pad.empty()) ok &= EVP_PKEY_CTX_set_rsa_padding(x.pc, x.pad == "pkcs1" ? RSA_PKCS1_PADDING : x.pad == "pss" ? RSA_PKCS1_PSS_PADDING : RSA_PKCS1_OAEP_PADDING) == 1;
        bool enc = x.kind == "enc" || x.kind == "dec"; if (enc && x.pad == "oaep" && !x.dg.empty()) ok &= EVP_PKEY_CTX_set_rsa_oaep_md_name(x.pc, x.dg.c_str(), nullptr) == 1; if (!x.mgf.empty()) ok &= EVP_PKEY_CTX_set_rsa_mgf1_md_name(x.pc, x.mgf.c_str(), nullptr) == 1;
        if (!x.label.empty()) { void* l = OPENSSL_memdup(x.label.data(), x.label.size()); bool s = EVP_PKEY_CTX_set0_rsa_oaep_label(x.pc, l, x.label.size()) == 1; if (!s) OPENSSL_free(l); ok &= s; }
        if (!x.salt.empty()) ok &= EVP_PKEY_CTX_set_rsa_pss_saltlen(x.pc, x.salt == "digest" ? RSA_PSS_SALTLEN_DIGEST : x.salt == "max" ? RSA_PSS_SALTLEN_MAX : x.salt == "auto" ? RSA_PSS_SALTLEN_AUTO : atoi(x.salt.c_str())) == 1;
    }
    void xnew(const json& a) {
        int c = a["c"]; drop(c); Ctx x; x.kind = a["kind"]; x.type = a["type"]; x.dg = a["md"]; x.pad = a["pad"]; x.mgf = a["mgf"]; x.salt = a["salt"]; x.pre = a["pre"]; if (a["label"].get<bool>()) x.label = rnd.get(1 + below(40)); x.k = pkk[a["p"]]; EVP_PKEY* p = pk[a["p"]]; bool sig = x.kind == "sign" || x.kind == "verify";
        bool ok = ev("new context", [&]() {
            bool r = true;
            if (sig && !x.pre) { x.dc = EVP_MD_CTX_new(); const char* md = x.dg.empty() ? nullptr : x.dg.c_str(); r = (x.kind == "sign" ? EVP_DigestSignInit_ex(x.dc, &x.pc, md, L, nullptr, p, nullptr) : EVP_DigestVerifyInit_ex(x.dc, &x.pc, md, L, nullptr, p, nullptr)) == 1; }
            else { x.pc = EVP_PKEY_CTX_new_from_pkey(L, p, nullptr); x.ownpc = true; r = x.pc && (x.kind == "exch" ? EVP_PKEY_derive_init(x.pc) : x.kind == "sign" ? EVP_PKEY_sign_init(x.pc) : x.kind == "verify" ? EVP_PKEY_verify_init(x.pc) : x.kind == "dec" ? EVP_PKEY_decrypt_init(x.pc) : EVP_PKEY_encrypt_init(x.pc)) == 1; if (r && sig) { EVP_MD* m = EVP_MD_fetch(L, x.dg.c_str(), nullptr); r = m && EVP_PKEY_CTX_set_signature_md(x.pc, m) == 1; EVP_MD_free(m); } }
            if (r) setpad(x, r); return r; });
        cx[c] = x; verdict(a, ok, "a context for " + x.kind + " with " + x.type + " " + x.pad); if (sig) params(cx[c]);
    }
    // what can be asked about a signature context
    void params(Ctx& x) {
        uint8_t id[64]; OSSL_PARAM p[2] = {OSSL_PARAM_construct_octet_string(OSSL_SIGNATURE_PARAM_ALGORITHM_ID, id, sizeof id), OSSL_PARAM_construct_end()}; if (x.pad == "pss") return;
        bool ok = ev("EVP_PKEY_CTX_get_params", [&]() { return EVP_PKEY_CTX_get_params(x.pc, p) == 1; }); int nid = NID_undef; string t = x.type; if (t == "ed25519") nid = NID_ED25519; else if (t == "ed448") nid = NID_ED448; else OBJ_find_sigid_by_algs(&nid, EVP_MD_get_type(ref::md(x.dg)), t == "rsa" ? NID_rsaEncryption : NID_X9_62_id_ecPublicKey);
        X509_ALGOR* al = X509_ALGOR_new(); X509_ALGOR_set0(al, OBJ_nid2obj(nid), t == "rsa" ? V_ASN1_NULL : V_ASN1_UNDEF, nullptr); uint8_t* o = nullptr; int n = i2d_X509_ALGOR(al, &o); bytes w(o, o + n); OPENSSL_free(o); X509_ALGOR_free(al); if (!ok || bytes(id, id + p[0].return_size) != w) bad(P, "the algorithm identifier of a signature context (" + t + " " + x.dg + ") is " + (ok ? "wrong" : "not told"));
    }
    void xdup(const json& a) {
        int c = a["c"], d = a["d"]; drop(d); Ctx y = cx[c]; bool ok = ev("dup", [&]() { if (y.dc) { y.dc = EVP_MD_CTX_new(); bool r = EVP_MD_CTX_copy_ex(y.dc, cx[c].dc) == 1; y.pc = EVP_MD_CTX_get_pkey_ctx(y.dc); return r; } y.pc = EVP_PKEY_CTX_dup(cx[c].pc); return y.pc != nullptr; }); cx[d] = y; verdict(a, ok, "copying a context for " + y.kind);
    }
    void xpeer(const json& a) {
        Ctx& x = cx[a["c"]]; string t = a["type"]; bytes priv; pkey peer; if (t == "dh") peer = ref::dh_peer(256, rnd.next() >> 8, priv); else peer = ref::ec_key(t, ref::ec_scalar(t, rnd.next() >> 8)); bytes sp = ref::spki(peer.get()); EVP_PKEY* q = nullptr; if (!ev("sa_import_public_key", [&]() { q = sa_import_public_key(sp.data(), sp.size()); return q != nullptr; })) bad(P, "importing a public key fails");
        bool ok = ev("EVP_PKEY_derive_set_peer", [&]() { return EVP_PKEY_derive_set_peer(x.pc, q) == 1; }); EVP_PKEY_free(q); if (ok && a["ok"] == "y") { x.peer = peer; x.peerpriv = priv; } verdict(a, ok, "giving the peer (" + t + ") of a key agreement");
    }
    void xupd(const json& a) { Ctx& x = cx[a["c"]]; bytes d = rnd.get(a["n"]); Guarded g(d); bool ok = ev("update", [&]() { return (x.kind == "sign" ? EVP_DigestSignUpdate(x.dc, g.p(), d.size()) : EVP_DigestVerifyUpdate(x.dc, g.p(), d.size())) == 1; }); verdict(a, ok, "data of a signature"); x.data.insert(x.data.end(), d.begin(), d.end()); }
    // a call with output: asks for the size when told to, then makes the call with the given room
    template <class F> bool outcall(const json& a, size_t full, size_t room, bytes& out, F f, const string& what) {
        size_t l = 0x7777; if (a["query"].get<bool>()) { if (!ev("size", [&]() { return f(nullptr, &l) == 1; })) bad(P, "asking for the size of " + what + " fails"); if (l < full || l > 4096) bad(P, "the size of " + what + " is told as " + std::to_string(l)); }
        Guarded g(room ? room : 1); l = room; bool ok = ev("output", [&]() { return f(g.p(), &l) == 1; }); if (!g.guards_ok()) bad(P, what + " is written past its room"); verdict(a, ok, what); if (ok) { if (l > room) bad(P, what + " is told to be longer than its room"); out = g.get(0, l); } return ok;
    }
    void xdo(const json& a) {
        Ctx& x = cx[a["c"]]; Key& K = key[x.k]; bool room = a["room"]; string how = a["how"], alg = x.type == "rsa" ? (x.pad == "pss" ? "pss" : "pkcs1") : x.type[0] == 'p' ? "ecdsa" : "eddsa"; bytes out; size_t rsz = 256; string mg = x.mgf.empty() ? mdof(x) : x.mgf;
        if (x.kind == "exch") {
            if (!outcall(a, sizeof(sa_key), room ? sizeof(sa_key) : below(sizeof(sa_key)), out, [&](uint8_t* o, size_t* l) { return EVP_PKEY_derive(x.pc, o, l); }, "a shared secret of " + x.type)) return; if (out.size() != sizeof(sa_key)) bad(P, "a shared secret is no handle"); sa_key h; memcpy(&h, out.data(), sizeof h);
            same(h, x.type == "dh" ? ref::dh_secret(K.soft.get(), 256, x.peerpriv) : ref::agree(x.peer.get(), K.soft.get()), "key agreement with " + x.type);
        } else if (x.kind == "enc") {
            bytes m = rnd.get(a["n"]); Guarded g(m); if (!outcall(a, rsz, room ? rsz : rsz - 1 - below(rsz - 1), out, [&](uint8_t* o, size_t* l) { return EVP_PKEY_encrypt(x.pc, o, l, g.p(), m.size()); }, "an encryption")) return;
            EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(K.soft.get(), nullptr); EVP_PKEY_decrypt_init(c); Ctx y = x; y.pc = c; bool ok = true; setpad(y, ok); bytes o(256); size_t n = 256; ok = ok && EVP_PKEY_decrypt(c, o.data(), &n, out.data(), out.size()) == 1; EVP_PKEY_CTX_free(c); o.resize(ok ? n : 0); if (o != m) bad(P, "an encryption does not decrypt with OpenSSL");
        } else if (x.kind == "dec") {
            bytes m = rnd.get(a["n"]), ct = ref::rsa_encrypt(K.soft.get(), x.pad == "oaep" ? "rsao" : "rsap", mdof(x), mg, x.label, m); json b = a; if (how == "flip") ct[below(ct.size())] ^= 1 << below(8); else if (how == "short") ct.pop_back(); else if (how == "other") { pkey other = ref::rsa_key(ref::rsa_der(256, x.k == 1 ? 2 : 1)); ct = ref::rsa_encrypt(other.get(), x.pad == "oaep" ? "rsao" : "rsap", mdof(x), mg, x.label, m); }
            if (how != "right" && x.pad != "oaep") b["ok"] = "any"; Guarded g(ct); if (!outcall(b, m.size(), room ? rsz : m.size() - 1, out, [&](uint8_t* o, size_t* l) { return EVP_PKEY_decrypt(x.pc, o, l, g.p(), ct.size()); }, "a decryption (" + x.pad + ")")) return; if (how == "right" && out != m) bad(P, "a decryption does not give the message");
        } else {
            bytes m = x.data; if (alg == "eddsa") m = rnd.get(a["n"]); if (x.pre) m = rnd.get(dglen(x.dg)); long maxs = 256 - (long) dglen(mdof(x)) - 2;
            if (x.kind == "sign") {
                size_t full = alg == "ecdsa" ? 9 : alg == "eddsa" ? (x.type == "ed25519" ? 64 : 114) : rsz, big = EVP_PKEY_get_size(K.soft.get()); Guarded g(m);
                if (!outcall(a, full, room ? big : alg == "ecdsa" ? below(9) : 1 + below(full - 1), out, [&](uint8_t* o, size_t* l) { return x.pre ? EVP_PKEY_sign(x.pc, o, l, g.p(), m.size()) : alg == "eddsa" ? EVP_DigestSign(x.dc, o, l, g.p(), m.size()) : EVP_DigestSignFinal(x.dc, o, l); }, "a signature (" + x.type + " " + x.pad + " " + x.dg + ")")) return;
                bytes sg = out; if (alg == "ecdsa") { const uint8_t* q = out.data(); ECDSA_SIG* e = d2i_ECDSA_SIG(nullptr, &q, out.size()); if (!e || q != out.data() + out.size()) { ECDSA_SIG_free(e); bad(P, "a signature is not encoded as OpenSSL does"); } size_t n = ref::curve_size(x.type); sg.assign(2 * n, 0); bool w = BN_bn2binpad(ECDSA_SIG_get0_r(e), sg.data(), n) > 0 && BN_bn2binpad(ECDSA_SIG_get0_s(e), sg.data() + n, n) > 0; ECDSA_SIG_free(e); if (!w) bad(P, "a signature is too large"); }
                long salt = x.salt == "" || x.salt == "max" || x.salt == "auto" ? maxs : x.salt == "digest" ? (long) dglen(x.dg) : atol(x.salt.c_str()); if (!ref::verify(K.soft.get(), alg, x.dg, mg, salt, x.pre, m, sg)) bad(P, "a signature (" + x.type + " " + x.pad + " " + x.dg + " mgf " + mg + " salt " + x.salt + ") is not accepted by OpenSSL");
            } else {
                long salt = x.salt == "max" ? maxs : x.salt == "digest" ? (long) dglen(x.dg) : x.salt == "" || x.salt == "auto" ? (long) below(maxs + 1) : atol(x.salt.c_str()); bytes sm = m; if (how == "other") { if (sm.empty()) sm.push_back(1); else sm[below(x.pre && alg == "ecdsa" ? std::min(sm.size(), ref::curve_size(x.type) - 1) : sm.size())] ^= 1; } bytes sg = soft_sign(K.soft.get(), alg, x.dg, mg, salt, x.pre, sm); if (how == "flip") sg[below(sg.size())] ^= 1 << below(8); else if (how == "short") sg.pop_back(); Guarded g(m), gs(sg);
                bool ok = ev("verify", [&]() { return (x.pre ? EVP_PKEY_verify(x.pc, gs.p(), sg.size(), g.p(), m.size()) : alg == "eddsa" ? EVP_DigestVerify(x.dc, gs.p(), sg.size(), g.p(), m.size()) : EVP_DigestVerifyFinal(x.dc, gs.p(), sg.size())) == 1; }); verdict(a, ok, "a verification (" + x.type + " " + x.pad + " " + x.dg + " salt " + x.salt + "/" + std::to_string(salt) + ")");
            }
        }
    }
    bytes soft_sign(EVP_PKEY* k, const string& alg, const string& dg, const string& mg, long salt, bool pre, const bytes& m) {
        bytes o(1024); size_t n = o.size(); if (alg == "eddsa") { EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_DigestSignInit(c, nullptr, nullptr, nullptr, k); if (EVP_DigestSign(c, o.data(), &n, m.data(), m.size()) != 1) n = 0; EVP_MD_CTX_free(c); o.resize(n); return o; }
        bytes h = pre ? m : ref::digest(dg, m); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, nullptr); EVP_PKEY_sign_init(c); if (alg == "pkcs1") EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING); if (alg == "pss") { EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING); EVP_PKEY_CTX_set_rsa_mgf1_md(c, ref::md(mg)); EVP_PKEY_CTX_set_rsa_pss_saltlen(c, salt); } EVP_PKEY_CTX_set_signature_md(c, ref::md(dg)); if (EVP_PKEY_sign(c, o.data(), &n, h.data(), h.size()) != 1) n = 0; EVP_PKEY_CTX_free(c); o.resize(n); return o;
    }
    void run(const json& steps) {
        env::now = 100; env::caller_ok = true; if (!L) L = sa_get_provider(); if (!L) { bad(P, "there is no provider", false); return; } beh = &steps; for (auto& a : steps) { string op = a["op"]; if (op == "pnew" || op == "xnew" || op == "nop") symmetric = false; }
        try {
            if (symmetric) for (int k = 1; k <= 6; k++) make(k);
            for (size_t i = 0; i < steps.size(); i++) {
                const json& a = steps[i]; string op = a["op"]; if (op == "end") break; at(i, op); count[op + ":" + a["ok"].get<string>()]++;
                if (op == "cnew") cnew(a); else if (op == "cinit") cinit(a, i); else if (op == "cupd") cupd(a); else if (op == "caad") caad(a); else if (op == "ctag") ctag(a); else if (op == "cfin") cfin(a); else if (op == "cget") cget(a); else if (op == "free") drop(a["c"]);
                else if (op == "cdup") { EVP_CIPHER_CTX* d = EVP_CIPHER_CTX_new(); bool ok = ev("EVP_CIPHER_CTX_copy", [&]() { return EVP_CIPHER_CTX_copy(d, cx[a["c"]].cc) == 1; }); EVP_CIPHER_CTX_free(d); verdict(a, ok, "copying a cipher"); }
                else if (op == "mnew") mnew(a); else if (op == "minit") minit(a); else if (op == "mupd") mupd(a); else if (op == "mfin") mfin(a); else if (op == "dnew") dnew(a); else if (op == "dinit") dinit(a); else if (op == "dupd") dupd(a); else if (op == "dfin") dfin(a); else if (op == "ddup") ddup(a);
                else if (op == "knew") knew(a); else if (op == "kset") kset(a); else if (op == "kderive") kderive(a); else if (op == "kreset") kreset(a); else if (op == "kdup") kdup(a);
                else if (op == "pnew") pnew(a); else if (op == "pfree") pfree(a); else if (op == "pmatch") pmatch(a); else if (op == "xnew") xnew(a); else if (op == "xdup") xdup(a); else if (op == "xpeer") xpeer(a); else if (op == "xupd") xupd(a); else if (op == "xdo") xdo(a);
                owners(a);
            }
            step = steps.size();
        } catch (Stop&) {}
        if (dead) return; try { while (!cx.empty()) drop(cx.begin()->first); for (auto& p : pk) ev("EVP_PKEY_free", [&]() { EVP_PKEY_free(p.second); return true; }); pk.clear(); for (auto& k : key) if (k.second.made && !k.second.gone && alive(k.second)) RAW("sa_key_release", sa_key_release(k.second.h)); } catch (Stop&) {}
    }
};
int main(int argc, char** argv) { PUB = true; return runner_main<Run>(argc, argv, {"P15"}); }
