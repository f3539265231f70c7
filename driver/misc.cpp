// Steps the code under test through behaviours of MiscGen.tla: device facts, random data, sizes that do not fit an int.
#include "common/runner.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
extern "C" {
#include "sa_ta_types.h"
bool load_pkcs12_secret_key(void* key, size_t* key_length, char* name, size_t* name_length); void* client_session(); sa_status ta_invoke_command(void*, SA_COMMAND_ID, const uint32_t*, ta_param*); }

// n bytes of address space that are one megabyte over and over again
struct Ring {
    static constexpr size_t M = 1 << 20; uint8_t* p; size_t n;
    explicit Ring(size_t n_) : n((n_ + M - 1) / M * M) {
        int fd = memfd_create("ring", 0); if (fd < 0 || ftruncate(fd, M)) { fprintf(stderr, "no memory for large buffers\n"); _exit(98); }
        p = (uint8_t*) mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "no address space\n"); _exit(98); }
        for (size_t i = 0; i < n; i += M) if (mmap(p + i, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "no large buffer\n"); _exit(98); }
        close(fd);
    }
    ~Ring() { munmap(p, n); }
};
struct Run : Base {
    uint64_t h[3] = {0, 0, 0};
    explicit Run(uint64_t seed) : Base(seed) {}
    uint64_t below(uint64_t n) { return rnd.below(n); }
    void as(int u) { caller(PUB ? 0 : h[u], uuid_of(PUB ? 1 : u)); }
    void verdict(const json& a, const vector<string>& P, const string& what) {
        string ok = a["ok"], why; for (auto& w : a["why"]) why += w.get<string>() + " ";
        if (ok == "y" && st) bad(P, what + " is refused with status " + std::to_string(st)); if (ok == "n" && st == SA_STATUS_OK) bad(P, what + " that must be refused (" + why + ") succeeds");
    }
    const vector<string> P{"P19"};
    void fact(const json& a) {
        string op = a["op"]; bool null = a["null"]; int u = a["u"];
        if (op == "version") {
            sa_version v; memset(&v, 0xA5, sizeof v); const sa_version v0 = v; FAPI(get_version, (vector<string>{"P05", "P19"}), []() { return string(); }, null ? nullptr : &v); verdict(a, P, "reading the version"); if (st || null) return;
            static sa_version first = v; if (memcmp(&first, &v, sizeof v)) bad(P, "the version is not always the same"); if (v.specification_major != SA_SPECIFICATION_MAJOR || v.specification_minor != SA_SPECIFICATION_MINOR || v.specification_revision != SA_SPECIFICATION_REVISION) bad(P, "the version is not that of the interface"); (void) v0;
        } else if (op == "devid") {
            uint64_t id = 0xA5A5A5A5A5A5A5A5ull; FAPI(get_device_id, (vector<string>{"P05", "P19"}), []() { return string(); }, null ? nullptr : &id); verdict(a, P, "reading the device identifier"); if (st || null) return;
            static uint64_t want = []() { uint8_t k[64]; size_t n = 64; char nm[64] = ""; size_t nn = sizeof nm; load_pkcs12_secret_key(k, &n, nm, &nn); return strtoull(nm, nullptr, 16); }(); if (id != want || id == 0) bad(P, "the device identifier is " + std::to_string(id) + " and not " + std::to_string(want));
        } else {
            sa_uuid x; memset(&x, 0xA5, sizeof x); FAPI(get_ta_uuid, (vector<string>{"P05", "P19"}), []() { return string(); }, null ? nullptr : &x); verdict(a, P, "reading the caller's identity"); if (st || null) return;
            sa_uuid w = uuid_of(PUB ? 1 : u); if (memcmp(&w, &x, sizeof x)) bad({"P19", "P03"}, "an application is told the identity of another one");
        }
    }
    void name(const json& a) {
        static string nm; if (nm.empty()) { size_t n = 0; bool c = env::caller_ok; env::caller_ok = true; API(get_name, nullptr, &n); if (st || n < 2 || n > 1000) bad({"P19", "P16"}, "the size of the name is not told"); vector<char> b(n + 1); size_t m = n; API(get_name, b.data(), &m); if (st || m != n || b[n - 1]) bad({"P19", "P16"}, "the name does not fit the size told for it"); nm = string(b.data()) + string(1, 0); env::caller_ok = c; }
        string k = a["buf"]; size_t N = nm.size(), by = a["by"], n = k == "null" ? below(2 * N) : k == "none" ? 0 : k == "short" ? N - 1 - std::min(by - 1, N - 2) : k == "exact" ? N : N + by, n0 = n; bool nolen = a["nolen"]; Guarded g(k == "null" || k == "none" ? 1 : n);
        FAPI(get_name, (vector<string>{"P05", "P19"}), [&]() { return g.unchanged() ? string() : string("the output is written"); }, k == "null" ? nullptr : (char*) g.p(), nolen ? nullptr : &n); verdict(a, {"P19", "P16"}, "reading the name with " + k + " room");
        if (!g.guards_ok()) bad({"P19", "P16", "P05"}, "memory around the name is written"); if (st || k == "null") { if (!g.unchanged()) bad({"P19", "P16"}, "a refused request for the name writes to its output"); }
        if (st) { (void) n0; return; } if (n != N) bad({"P19", "P16"}, "the length of the name is told as " + std::to_string(n)); if (k != "null" && memcmp(g.p(), nm.data(), N)) bad(P, "the name is not always the same"); if (k == "long" && !Guarded::memcmp_(g.p() + N, g.before.data() + N, g.n - N)) bad({"P19", "P16"}, "bytes after the name are written");
    }
    void random(const json& a) {
        size_t n = a["n"]; bool null = a["null"]; Guarded g(n ? n : 1); env::rng_log.clear();
        FAPI(crypto_random, (vector<string>{"P05", "P19"}), []() { return string(); }, null ? nullptr : (void*) g.p(), n); verdict(a, P, "asking for " + std::to_string(n) + " random bytes"); if (!g.guards_ok()) bad({"P19", "P05"}, "memory around the random bytes is written");
        if (st || null) return; if (!n) { if (!g.unchanged()) bad(P, "a request for no random bytes writes some"); return; }
        bytes all; for (auto& v : env::rng_log) all.insert(all.end(), v.begin(), v.end()); bytes got = g.get(0, n); if (all.size() < n || std::search(all.begin(), all.end(), got.begin(), got.end()) == all.end()) bad(P, "the " + std::to_string(n) + " random bytes are not those of the random source");
        static std::set<bytes> seen; if (n >= 16 && !quiet && !seen.insert(bytes(got.begin(), got.begin() + 16)).second && seen.size() < 100000) bad(P, "random bytes are given out a second time"); if (FAULTS) seen.clear();
    }
    // --- sizes beyond an int ------------------------------------------------------------------------------------------
    sa_key import(const bytes& k) { sa_rights r; memset(&r, 0, sizeof r); r.usage_flags = ~0ull >> 46; r.child_usage_flags = 0; r.not_on_or_after = UINT64_MAX; memset(r.allowed_tas[0].id, 0xff, 16); sa_import_parameters_symmetric p = {&r}; sa_key x; TA(key_import, &x, SA_KEY_FORMAT_SYMMETRIC_BYTES, (void*) k.data(), k.size(), &p); if (st) bad({"P17"}, "importing a key fails"); return x; }
    sa_rights rights() { sa_rights r; memset(&r, 0, sizeof r); r.usage_flags = ~0ull >> 46; r.not_on_or_after = UINT64_MAX; memset(r.allowed_tas[0].id, 0xff, 16); return r; }
    static const EVP_CIPHER* evp(const string& g, size_t n) { bool s = n == 16; return g == "ctr" ? (s ? EVP_aes_128_ctr() : EVP_aes_256_ctr()) : g == "gcm" ? (s ? EVP_aes_128_gcm() : EVP_aes_256_gcm()) : g == "cha" ? EVP_chacha20() : g == "poly" ? EVP_chacha20_poly1305() : g == "cbc" ? (s ? EVP_aes_128_cbc() : EVP_aes_256_cbc()) : (s ? EVP_aes_128_ecb() : EVP_aes_256_ecb()); }
    // the standard algorithm over len bytes of zero, in pieces; out: the last bytes; aad: of that many zero bytes
    static void reference(const string& g, bool enc, const bytes& key, const bytes& iv, size_t aad, size_t len, bytes& tail, bytes& tag) {
        EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); EVP_CipherInit_ex(c, evp(g, key.size()), nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc); EVP_CIPHER_CTX_set_padding(c, 0); static vector<uint8_t> z(1 << 20), o((1 << 20) + 32); int n = 0; bool aead = g == "gcm" || g == "poly";
        while (aad) { int k = std::min<size_t>(aad, z.size()); EVP_CipherUpdate(c, nullptr, &n, z.data(), k); aad -= k; }
        while (len) { int k = std::min<size_t>(len, z.size()); EVP_CipherUpdate(c, o.data(), &n, z.data(), k); len -= k; bytes t(tail); t.insert(t.end(), o.begin() + (n > 32 ? n - 32 : 0), o.begin() + n); if (t.size() > 32) t.erase(t.begin(), t.end() - 32); tail = t; }
        if (aead && enc) { EVP_CipherFinal_ex(c, o.data(), &n); tag.resize(16); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, tag.data()); } EVP_CIPHER_CTX_free(c);
    }
    // the tag of len bytes of zero that were encrypted with ChaCha20-Poly1305 without additional data
    static bytes polytag(const bytes& key, const bytes& nonce, size_t len) {
        bytes iv(4, 0); iv.insert(iv.end(), nonce.begin(), nonce.end()); bytes pk = ref::crypt("cha", true, key, iv, {}, bytes(32, 0)); EVP_MAC* m = EVP_MAC_fetch(nullptr, "POLY1305", nullptr); EVP_MAC_CTX* c = EVP_MAC_CTX_new(m); EVP_MAC_init(c, pk.data(), 32, nullptr);
        static vector<uint8_t> z(1 << 20); size_t l = (len + 15) / 16 * 16; while (l) { size_t k = std::min(l, z.size()); EVP_MAC_update(c, z.data(), k); l -= k; } uint64_t w[2] = {0, len}; EVP_MAC_update(c, (uint8_t*) w, 16); bytes t(16); size_t n; EVP_MAC_final(c, t.data(), &n, 16); EVP_MAC_CTX_free(c); EVP_MAC_free(m); return t;
    }
    void huge(const json& a) {
        string what = a["what"], g = a["alg"]; size_t N = a["giga"].get<size_t>() * 0x80000000ull + a["more"].get<size_t>(); bool enc = a["enc"]; count["huge:" + what + ":" + g]++; as(1); string name = what + (g.empty() ? "" : " " + g) + (enc ? " (encrypting)" : "") + " with " + std::to_string(N) + " bytes"; alarm(0);
        if (what == "random") { Ring r(N); TA(crypto_random, r.p, N); if (st) return; size_t z = 0; for (size_t i = 0; i < Ring::M; i++) z += r.p[i] == 0; if (z > Ring::M / 100) bad({"P19"}, "a request for " + std::to_string(N) + " random bytes succeeds, but most of them are not written"); return; }
        bytes kb = rnd.get(g == "cha" || g == "poly" ? 32 : 16 * (1 + below(2))), iv = rnd.get(g == "gcm" || g == "poly" || g == "cha" ? 12 : 16), refiv = iv; if (g == "cha") { refiv = bytes{1, 0, 0, 0}; refiv.insert(refiv.end(), iv.begin(), iv.end()); } if (g.substr(0, 3) == "ecb") refiv.clear();
        static Ring* in = new Ring(0x100000000ull + 8192); memset(in->p, 0, Ring::M);
        if (what == "process" || what == "last" || what == "aad") {
            sa_key k = import(kb); sa_crypto_cipher_context c; sa_cipher_algorithm al = sa_ca(g); sa_cipher_parameters_aes_ctr pc = {iv.data(), 16}; sa_cipher_parameters_aes_cbc pb = {iv.data(), 16}; size_t aad = what == "aad" ? N : 0; sa_cipher_parameters_aes_gcm pg = {iv.data(), 12, in->p, aad}; uint8_t ctr[4] = {1, 0, 0, 0}; sa_cipher_parameters_chacha20 ph = {ctr, 4, iv.data(), 12}; sa_cipher_parameters_chacha20_poly1305 pp = {iv.data(), 12, in->p, aad};
            void* p = g == "ctr" ? (void*) &pc : g == "cbc" ? (void*) &pb : g == "gcm" ? (void*) &pg : g == "cha" ? (void*) &ph : g == "poly" ? (void*) &pp : nullptr;
            TA(crypto_cipher_init, &c, al, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k, p); if (st) { if (what != "aad") bad({"P07"}, "opening a cipher is refused"); TA(key_release, k); return; }
            size_t len = what == "aad" ? 32 : N; bytes tail, tag; reference(g, enc, kb, refiv, aad, len, tail, tag); Ring out(len); memset(out.p, 0xA5, Ring::M);
            sa_buffer ob = {SA_BUFFER_TYPE_CLEAR, {.clear = {out.p, out.n, 0}}}, ib = {SA_BUFFER_TYPE_CLEAR, {.clear = {in->p, what == "aad" ? 8192 : in->n, 0}}}; size_t b = len;
            sa_cipher_end_parameters_aes_gcm eg; bytes tg(16, 0); eg.tag = tg.data(); eg.tag_length = 16;
            if (what == "last") { bool right = !enc && below(2); if (right) { tag = polytag(kb, iv, N); memcpy(tg.data(), tag.data(), 16); } TA(crypto_cipher_process_last, &ob, c, &ib, &b, &eg); if (!enc && !right) { if (st == SA_STATUS_OK) bad({"P07"}, name + ": a wrong tag is accepted"); TA(crypto_cipher_release, c); TA(key_release, k); return; } }
            else TA(crypto_cipher_process, &ob, c, &ib, &b);
            if (st == SA_STATUS_OK) {
                size_t want = !enc && g == "ecbp" ? len - 16 : len; if (b != want || ib.context.clear.offset != len || ob.context.clear.offset != want) bad({"P07"}, name + " reports " + std::to_string(b) + " bytes, positions " + std::to_string(ib.context.clear.offset) + " and " + std::to_string(ob.context.clear.offset));
                bytes got(out.p + want - 32, out.p + want); if (g != "ecbp" && got != tail) bad({"P07"}, name + ": wrong output"); // an encryption authenticates what it wrote, and there the pages repeat: its tag is not judged
                if (what == "aad" && enc) { ob.context.clear.offset = 0; ib.context.clear.offset = 0; b = 0; TA(crypto_cipher_process_last, &ob, c, &ib, &b, &eg); if (st == SA_STATUS_OK && tg != tag) bad({"P07"}, name + ": wrong tag"); }
            } else if (ib.context.clear.offset || ob.context.clear.offset) bad({"P07", "P05"}, "a refused call moves the positions");
            TA(crypto_cipher_release, c); TA(key_release, k); return;
        }
        // N bytes of which all but the ones an int can count are ignored would give a key
        size_t low = (size_t) (uint32_t) N; sa_rights r = rights(); sa_key nk = INVALID_HANDLE;
        if (what == "label") { bytes d = ref::rsa_der(256, 1); sa_import_parameters_rsa_private_key_info pr = {&r}; sa_key k; TA(key_import, &k, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, d.data(), d.size(), &pr); if (st) bad({"P17"}, "importing a key fails");
            bytes label(low < 4096 ? low : 4096, 0), m = rnd.get(16), ct = ref::rsa_encrypt(ref::rsa_key(d).get(), "rsao", "sha256", "sha256", label, m); sa_unwrap_parameters_rsa_oaep po = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, in->p, N}; if (low >= 0x80000000ull) { TA(key_release, k); return; }
            TA(key_unwrap, &nk, &r, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_RSA_OAEP, &po, k, ct.data(), ct.size()); if (st == SA_STATUS_OK) bad({"P12", "P18"}, name + " is taken for a shorter label"); TA(key_release, k); return; }
        sa_key k = import(kb); bytes p16 = rnd.get(16), tag, ct = what == "unwrap" ? bytes() : ref::crypt(g, true, kb, refiv, bytes(low < 8192 ? low : 0, 0), p16, &tag); size_t len = what == "unwrap" ? N : 16, aad = what == "unwrap" ? 0 : N; if (what == "unwrap") tag = bytes(16, 0);
        uint8_t ctr[4] = {1, 0, 0, 0}; sa_unwrap_parameters_aes_ctr uc = {iv.data(), 16}; sa_unwrap_parameters_aes_gcm ug = {iv.data(), 12, in->p, aad, tag.data(), 16}; sa_unwrap_parameters_chacha20 uh = {ctr, 4, iv.data(), 12}; sa_unwrap_parameters_chacha20_poly1305 up = {iv.data(), 12, in->p, aad, tag.data(), 16};
        void* p = g == "ctr" ? (void*) &uc : g == "gcm" ? (void*) &ug : g == "cha" ? (void*) &uh : g == "poly" ? (void*) &up : nullptr;
        TA(key_unwrap, &nk, &r, SA_KEY_TYPE_SYMMETRIC, nullptr, sa_ca(g), p, k, what == "unwrap" ? (void*) in->p : (void*) ct.data(), len); if (st == SA_STATUS_OK) bad({"P12"}, name + " gives a key"); TA(key_release, k);
    }
    // a provisioning message names memory of the client; the secure application must not follow a message that is not one
    void provmsg() {
        for (string how : {"short", "address"}) {
            fflush(stdout); fflush(stderr); void* s = client_session(); pid_t pid = fork(); if (pid < 0) return;
            if (pid == 0) {
                int fd = open("/dev/null", 1); dup2(fd, 2); alarm(30); sa_key_provision_ta_s m; memset(&m, 0, sizeof m); m.api_version = API_VERSION; m.key = INVALID_HANDLE; m.key_format = SA_KEY_FORMAT_PROVISION_TA; WidevineOemProvisioning w; memset(&w, 0, sizeof w); w.oemDevicePrivateKeyLength = 100; w.oemDevicePrivateKey = (void*) 0x1000;
                Guarded g(bytes((uint8_t*) &w, (uint8_t*) &w + (how == "short" ? 8 : sizeof w))); sa_key_type_ta t = WIDEVINE_OEM_PROVISIONING; Guarded gt(bytes((uint8_t*) &t, (uint8_t*) &t + sizeof t)); uint32_t ty[4] = {TEEC_MEMREF_TEMP_INOUT, TEEC_MEMREF_TEMP_INPUT, TEEC_NONE, TEEC_MEMREF_TEMP_INPUT}; ta_param pr[4] = {{&m, sizeof m}, {g.p(), g.n}, {nullptr, 0}, {gt.p(), gt.n}};
                sa_status x = ta_invoke_command(s, SA_KEY_PROVISION_TA, ty, pr); _exit(x == SA_STATUS_OK ? 3 : 0);
            }
            int ws = 0; waitpid(pid, &ws, 0); count["provmsg"]++; if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) continue;
            bad({"P14"}, how == "short" ? "a provisioning command whose message is shorter than its structure is read past its end" : "a provisioning command makes the secure application follow addresses in its message", false);
        }
    }
    void run(const json& steps) {
        env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true; env::caller_ok = true; uuid_place = PUB ? 0 : (int) rnd.below(16);
        try {
            for (int u = 1; u <= (PUB ? 1 : 2); u++) { if (!PUB) { ta_client c; cu = uuid_of(u); RAW("init", ta_sa_init(&c, &cu)); if (st) bad({"P03"}, "opening a session fails"); h[u] = c; } as(u); }
            for (size_t i = 0; i < steps.size(); i++) {
                const json& a = steps[i]; string op = a["op"]; if (op == "end") break; at(i, op); if (op == "auth") { env::caller_ok = a["on"]; continue; } if (op == "huge") { huge(a); continue; } if (op == "provmsg") { provmsg(); continue; }
                as(a["u"]); count[op + ":" + a["ok"].get<string>()]++; long l0 = env::live_allocs();
                if (op == "name") name(a); else if (op == "random") random(a); else if (op == "svps") { this->faulted("svp_supported", (vector<string>{"P05", "P19"}), [&]() -> sa_status { return PUB ? sa_svp_supported() : ta_sa_svp_supported(cs, &cu); }, []() { return string(); }); verdict(a, P, "asking whether protected buffers are supported"); } else fact(a);
                (void) l0;
            }
            step = steps.size();
        } catch (Stop&) {}
        env::caller_ok = true; if (dead) return; try { if (!PUB) for (int u = 1; u <= 2; u++) if (h[u]) { cu = uuid_of(u); RAW("close", ta_sa_close(h[u], &cu)); } } catch (Stop&) {}
    }
};
int main(int argc, char** argv) { return runner_main<Run>(argc, argv, {"P05", "P19"}); }
