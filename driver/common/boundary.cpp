#include "common/boundary.h"
#include "common/verif.h"
#include <algorithm>
#include <climits>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <memory>
#include <nlohmann/json.hpp>
#include <openssl/err.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "sa.h"
#include "sa_ta_types.h"
sa_status __real_ta_invoke_command(void*, SA_COMMAND_ID, const uint32_t*, ta_param*);
}
using json = nlohmann::json; using std::string; using std::vector;
namespace env { extern bool caller_ok; extern void (*on_lock)(); }

namespace boundary {
int per_command = 3; std::map<string, long> count; static bool on = false, inside = false; static Prng rnd(1); static string error;
struct PDev { bool field; int place; string act, k, r, s, b; };
struct Case { vector<PDev> d; char v; long used = 0; };
struct Shape { long seen = 0; vector<bool> opt; vector<string> f; vector<Case> no, any; };
static std::map<string, Shape> table;
static const std::map<string, uint32_t> KIND = {{"none", 0}, {"vin", 1}, {"vout", 2}, {"vinout", 3}, {"tin", 5}, {"tout", 6}, {"tinout", 7}, {"whole", 12}, {"pin", 13}, {"pout", 14}, {"pinout", 15}, {"j4", 4}, {"j256", 256 + 5}, {"jmax", 0xffffffff}};

bool load(const char* path) {
    std::ifstream in(path); string l; if (!in) return false;
    while (std::getline(in, l)) {
        json j = json::parse(l); Shape& s = table[j["shape"]]; for (auto& o : j["opt"]) s.opt.push_back(o); for (auto& f : j["f"]) s.f.push_back(f);
        for (auto& c : j["cases"]) {
            Case x; string v = c["v"]; x.v = v[0]; for (size_t i = 0; i < c["at"].size(); i++) { int at = c["at"][i]; auto& d = c["dev"][i]; PDev p; p.field = at > 4 || at == 0; p.place = at > 4 ? at - 5 : at - 1; if (p.field) p.act = d; else { p.k = d["k"]; p.r = d["r"]; p.s = d["s"]; p.b = d["b"]; } x.d.push_back(p); }
            if (x.v == 'n') s.no.push_back(x); else if (x.v == 'a') s.any.push_back(x);
        }
    }
    on = !table.empty(); return on;
}
void seed(uint64_t s) { rnd = Prng(s); for (auto& t : table) t.second.seen = 0; for (auto& t : table) for (auto& c : t.second.no) c.used = 0; }
string take_error() { string e = error; error.clear(); return e; }

struct Mem { ta_param p; uint32_t t; std::unique_ptr<Guarded> g; };
static bool is_in(uint32_t t) { return t == TEEC_MEMREF_TEMP_INPUT || t == TEEC_MEMREF_PARTIAL_INPUT; }
static bool is_out(uint32_t t) { return t == TEEC_MEMREF_TEMP_OUTPUT || t == TEEC_MEMREF_PARTIAL_OUTPUT; }
static bool is_io(uint32_t t) { return t == TEEC_MEMREF_TEMP_INOUT || t == TEEC_MEMREF_PARTIAL_INOUT; }

static string shape_of(SA_COMMAND_ID c, const uint32_t* t, const ta_param* p) {
    const void* m = p[0].mem_ref; auto alg = [](uint32_t a, bool init) -> string {
        switch (a) { case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR: return "iv"; case SA_CIPHER_ALGORITHM_AES_GCM: return "gcm"; case SA_CIPHER_ALGORITHM_CHACHA20: return "chacha"; case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: return "chapoly"; case SA_CIPHER_ALGORITHM_RSA_OAEP: return "oaep"; case SA_CIPHER_ALGORITHM_EC_ELGAMAL: return init ? "plain" : "elgamal"; case SA_CIPHER_ALGORITHM_AES_ECB: case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: case SA_CIPHER_ALGORITHM_RSA_PKCS1V15: return "plain"; default: return "?"; } };
    auto bt = [](uint32_t b) { return b == SA_BUFFER_TYPE_CLEAR ? "c" : "s"; };
    switch (c) {
        case SA_GET_VERSION: return "version"; case SA_GET_NAME: return "name"; case SA_GET_DEVICE_ID: return "device"; case SA_GET_TA_UUID: return "uuid";
        case SA_KEY_GENERATE: { static const char* n[] = {"sym", "ec", "rsa", "dh"}; uint32_t k = ((sa_key_generate_s*) m)->key_type; return k < 4 ? string("generate/") + n[k] : "?"; }
        case SA_KEY_EXPORT: return "export";
        case SA_KEY_IMPORT: switch (((sa_key_import_s*) m)->key_format) { case SA_KEY_FORMAT_SYMMETRIC_BYTES: return "import/sym"; case SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO: return "import/rsa"; case SA_KEY_FORMAT_EC_PRIVATE_BYTES: return "import/ec"; case SA_KEY_FORMAT_EXPORTED: return "import/exported"; case SA_KEY_FORMAT_TYPEJ: return "import/typej"; case SA_KEY_FORMAT_SOC: return "import/soc"; default: return "?"; }
        case SA_KEY_PROVISION_TA: return "provision"; case SA_KEY_UNWRAP: return "unwrap/" + alg(((sa_key_unwrap_s*) m)->cipher_algorithm, false); case SA_KEY_GET_PUBLIC: return "public";
        case SA_KEY_DERIVE: switch (((sa_key_derive_s*) m)->kdf_algorithm) { case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER: return "derive/ladder"; case SA_KDF_ALGORITHM_HKDF: return "derive/hkdf"; case SA_KDF_ALGORITHM_CONCAT: return "derive/concat"; case SA_KDF_ALGORITHM_ANSI_X963: return "derive/x963"; case SA_KDF_ALGORITHM_CMAC: return "derive/cmac"; case SA_KDF_ALGORITHM_NETFLIX: return "derive/netflix"; default: return "?"; }
        case SA_KEY_EXCHANGE: return ((sa_key_exchange_s*) m)->key_exchange_algorithm == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH ? "exchange/netflix" : "exchange";
        case SA_KEY_RELEASE: return "krelease"; case SA_KEY_HEADER: return "header"; case SA_KEY_DIGEST: return "digest"; case SA_CRYPTO_RANDOM: return "random"; case SA_CRYPTO_CIPHER_INIT: return "cinit/" + alg(((sa_crypto_cipher_init_s*) m)->cipher_algorithm, true);
        case SA_CRYPTO_CIPHER_UPDATE_IV: return "updateiv"; case SA_CRYPTO_CIPHER_RELEASE: return "crelease";
        case SA_CRYPTO_CIPHER_PROCESS: case SA_CRYPTO_CIPHER_PROCESS_LAST: { auto q = (sa_crypto_cipher_process_s*) m; if (p[1].mem_ref == nullptr) return q->in_buffer_type == SA_BUFFER_TYPE_CLEAR && q->out_buffer_type == SA_BUFFER_TYPE_CLEAR ? "query" : "?"; return string("process/") + bt(q->out_buffer_type) + bt(q->in_buffer_type); }
        case SA_CRYPTO_MAC_INIT: return ((sa_crypto_mac_init_s*) m)->mac_algorithm == SA_MAC_ALGORITHM_HMAC ? "minit/hmac" : "minit/cmac"; case SA_CRYPTO_MAC_PROCESS: return "mprocess"; case SA_CRYPTO_MAC_PROCESS_KEY: return "mprocesskey"; case SA_CRYPTO_MAC_COMPUTE: return "mcompute"; case SA_CRYPTO_MAC_RELEASE: return "mrelease";
        case SA_CRYPTO_SIGN: return "sign"; case SA_SVP_SUPPORTED: return "supported"; case SA_SVP_BUFFER_CREATE: return "bcreate"; case SA_SVP_BUFFER_RELEASE: return "brelease"; case SA_SVP_BUFFER_WRITE: return "bwrite"; case SA_SVP_BUFFER_COPY: return "bcopy";
        case SA_SVP_KEY_CHECK: return ((sa_svp_key_check_s*) m)->in_buffer_type == SA_BUFFER_TYPE_CLEAR ? "keycheck/clear" : "keycheck/svp"; case SA_SVP_BUFFER_CHECK: return "bufcheck";
        case SA_PROCESS_COMMON_ENCRYPTION: { auto q = (sa_process_common_encryption_s*) m; return string("cenc/") + bt(q->out_buffer_type) + bt(q->in_buffer_type); }
        default: return "?";
    }
}
// where a field of a shape is: parameter, offset, width
struct Loc { int p = -1; size_t off = 0, w = 0; };
#define F0(T, m) if (f == #m) return Loc{0, offsetof(T, m), sizeof(((T*) 0)->m)}
#define F(i, T, m) if (f == #m) return Loc{i, offsetof(T, m), sizeof(((T*) 0)->m)}
static Loc where(SA_COMMAND_ID c, const string& sh, const string& f) {
    if (f == "api_version") return {0, 0, 1};
    switch (c) {
        case SA_GET_NAME: F0(sa_get_name_s, name_length); break;
        case SA_KEY_GENERATE: F0(sa_key_generate_s, key_type); F0(sa_key_generate_s, key_length); break;
        case SA_KEY_EXPORT: F0(sa_key_export_s, out_length); F0(sa_key_export_s, key); break;
        case SA_KEY_IMPORT: F0(sa_key_import_s, key_format); F0(sa_key_import_s, curve); break;
        case SA_KEY_UNWRAP: F0(sa_key_unwrap_s, key_type); F0(sa_key_unwrap_s, cipher_algorithm); F0(sa_key_unwrap_s, wrapping_key);
            if (sh == "unwrap/gcm") { F(2, sa_unwrap_parameters_aes_gcm_s, iv_length); F(2, sa_unwrap_parameters_aes_gcm_s, tag_length); } if (sh == "unwrap/chacha") { F(2, sa_unwrap_parameters_chacha20_s, counter_length); F(2, sa_unwrap_parameters_chacha20_s, nonce_length); }
            if (sh == "unwrap/chapoly") { F(2, sa_unwrap_parameters_chacha20_poly1305_s, nonce_length); F(2, sa_unwrap_parameters_chacha20_poly1305_s, tag_length); } if (sh == "unwrap/elgamal") { F(2, sa_unwrap_parameters_ec_elgamal_s, offset); F(2, sa_unwrap_parameters_ec_elgamal_s, key_length); }
            if (sh == "unwrap/oaep") { F(2, sa_unwrap_parameters_rsa_oaep_s, digest_algorithm); F(2, sa_unwrap_parameters_rsa_oaep_s, mgf1_digest_algorithm); } break;
        case SA_KEY_GET_PUBLIC: F0(sa_key_get_public_s, out_length); F0(sa_key_get_public_s, key); break;
        case SA_KEY_DERIVE: F0(sa_key_derive_s, kdf_algorithm);
            if (sh == "derive/cmac") { if (f == "length") return {1, offsetof(sa_kdf_parameters_cmac_s, key_length), 8}; F(1, sa_kdf_parameters_cmac_s, parent); F(1, sa_kdf_parameters_cmac_s, counter); } else if (sh == "derive/netflix") { F(1, sa_kdf_parameters_netflix_s, kenc); F(1, sa_kdf_parameters_netflix_s, khmac); }
            else { if (f == "length") return {1, offsetof(sa_kdf_parameters_hkdf_s, key_length), 8}; F(1, sa_kdf_parameters_hkdf_s, digest_algorithm); F(1, sa_kdf_parameters_hkdf_s, parent); } break;
        case SA_KEY_EXCHANGE: F0(sa_key_exchange_s, key_exchange_algorithm); F0(sa_key_exchange_s, private_key); F(2, sa_key_exchange_parameters_netflix_authenticated_dh_s, in_kw); break;
        case SA_KEY_RELEASE: F0(sa_key_release_s, key); break;
        case SA_KEY_HEADER: F0(sa_key_header_s, key); break;
        case SA_KEY_DIGEST: F0(sa_key_digest_s, out_length); F0(sa_key_digest_s, key); F0(sa_key_digest_s, digest_algorithm); break;
        case SA_CRYPTO_CIPHER_INIT: F0(sa_crypto_cipher_init_s, cipher_algorithm); F0(sa_crypto_cipher_init_s, cipher_mode); F0(sa_crypto_cipher_init_s, key); F(1, sa_cipher_parameters_rsa_oaep_s, digest_algorithm); F(1, sa_cipher_parameters_rsa_oaep_s, mgf1_digest_algorithm); break;
        case SA_CRYPTO_CIPHER_UPDATE_IV: F0(sa_crypto_cipher_update_iv_s, context); break;
        case SA_CRYPTO_CIPHER_PROCESS: case SA_CRYPTO_CIPHER_PROCESS_LAST: F0(sa_crypto_cipher_process_s, context); F0(sa_crypto_cipher_process_s, out_buffer_type); F0(sa_crypto_cipher_process_s, in_buffer_type); F0(sa_crypto_cipher_process_s, bytes_to_process); break;
        case SA_CRYPTO_CIPHER_RELEASE: F0(sa_crypto_cipher_release_s, cipher_context); break;
        case SA_CRYPTO_MAC_INIT: F0(sa_crypto_mac_init_s, mac_algorithm); F0(sa_crypto_mac_init_s, key); F0(sa_crypto_mac_init_s, digest_algorithm); break;
        case SA_CRYPTO_MAC_PROCESS: F0(sa_crypto_mac_process_s, mac_context); break;
        case SA_CRYPTO_MAC_PROCESS_KEY: F0(sa_crypto_mac_process_key_s, mac_context); F0(sa_crypto_mac_process_key_s, key); break;
        case SA_CRYPTO_MAC_COMPUTE: F0(sa_crypto_mac_compute_s, out_length); F0(sa_crypto_mac_compute_s, context); break;
        case SA_CRYPTO_MAC_RELEASE: F0(sa_crypto_mac_release_s, context); break;
        case SA_CRYPTO_SIGN: F0(sa_crypto_sign_s, out_length); F0(sa_crypto_sign_s, signature_algorithm); F0(sa_crypto_sign_s, key); break;
        case SA_SVP_BUFFER_RELEASE: F0(sa_svp_buffer_release_s, svp_buffer); break;
        case SA_SVP_BUFFER_WRITE: F0(sa_svp_buffer_write_s, out); break;
        case SA_SVP_BUFFER_COPY: F0(sa_svp_buffer_copy_s, out); F0(sa_svp_buffer_copy_s, in); break;
        case SA_SVP_KEY_CHECK: F0(sa_svp_key_check_s, key); F0(sa_svp_key_check_s, in_buffer_type); F0(sa_svp_key_check_s, in_offset); F0(sa_svp_key_check_s, bytes_to_process); break;
        case SA_SVP_BUFFER_CHECK: F0(sa_svp_buffer_check_s, svp_buffer); F0(sa_svp_buffer_check_s, offset); F0(sa_svp_buffer_check_s, length); F0(sa_svp_buffer_check_s, digest_algorithm); break;
        case SA_PROCESS_COMMON_ENCRYPTION: F0(sa_process_common_encryption_s, context); F0(sa_process_common_encryption_s, subsample_count); F0(sa_process_common_encryption_s, out_buffer_type); F0(sa_process_common_encryption_s, in_buffer_type); F0(sa_process_common_encryption_s, out_offset); F0(sa_process_common_encryption_s, in_offset); break;
        default: break;
    }
    fprintf(stderr, "boundary: no field %s of %s\n", f.c_str(), sh.c_str()); _exit(98);
}
static bool put(Guarded& g, const Loc& l, const string& act) {
    if (l.off + l.w > g.n) return false; uint64_t v = 0; memcpy(&v, g.p() + l.off, l.w); uint64_t o = v;
    if (act == "zero") v = 0; else if (act == "next") v = v + 1; else if (act == "max") v = UINT64_MAX; else if (act == "invalid") v = UINT64_MAX; else if (act == "far") v = v + 1000; else if (act == "trunc") v = v + (1ull << 32);
    else if (act == "beyond") v = 100; else if (act == "plus256") v += 256; else if (act == "plus64k") v += 65536; else if (act == "plus4g") v += 1ull << 32; else if (act == "big") v = 1 << 20; else if (act == "less") v -= 1; else if (act == "more") v += 1; else if (act == "wrap") v += 1ull << 60; else if (act == "half") v = 1ull << 63; else if (act == "five") v = 5;
    else { fprintf(stderr, "boundary: unknown act %s\n", act.c_str()); _exit(98); }
    if (act == "wrap" && l.w == 8 && o < 4096) { }
    memcpy(g.p() + l.off, &v, l.w); uint64_t n = 0; memcpy(&n, g.p() + l.off, l.w); return n != o;
}
static Mem copy(uint32_t t, const ta_param& p, bool shuffle) {
    Mem m; m.t = t; m.p = p; if (p.mem_ref == nullptr || !(is_in(t) || is_out(t) || is_io(t))) return m;
    if (shuffle && rnd.below(2)) m.t = is_in(t) ? (t ^ TEEC_MEMREF_TEMP_INPUT ^ TEEC_MEMREF_PARTIAL_INPUT) : is_out(t) ? (t ^ TEEC_MEMREF_TEMP_OUTPUT ^ TEEC_MEMREF_PARTIAL_OUTPUT) : (t ^ TEEC_MEMREF_TEMP_INOUT ^ TEEC_MEMREF_PARTIAL_INOUT);
    m.g.reset(new Guarded(bytes((uint8_t*) p.mem_ref, (uint8_t*) p.mem_ref + p.mem_ref_size))); m.p.mem_ref = m.g->p(); return m;
}
static string text(const string& sh, const Case& c) {
    string s = sh + " with"; for (auto& d : c.d) { s += " ["; if (d.field) s += (d.place < 0 ? string("command") : table[sh].f[d.place]) + ": " + d.act; else s += "parameter " + std::to_string(d.place) + " (" + d.b + "): kind " + d.k + ", reference " + d.r + ", size " + d.s; s += "]"; } return s;
}
// builds the variant; false if it does not apply to this command
static bool make(SA_COMMAND_ID& c, const string& sh, const Shape& S, const Case& k, const uint32_t* t, const ta_param* p, Mem* m, string& call) {
    for (int i = 0; i < 4; i++) m[i] = copy(t[i], p[i], false);
    auto absent = [&](int i) { return t[i] == TEEC_NONE && p[i].mem_ref == nullptr && p[i].mem_ref_size == 0; };
    for (auto& d : k.d) if (!d.field) {
        int i = d.place; if (absent(i) != (d.b == "absent")) return false; size_t n = p[i].mem_ref_size, w;
        if (d.b == "absent") w = d.s == "more" ? 16 : 0; else { if (p[i].mem_ref == nullptr) return false; if (n <= 1 && d.s != "same" && d.s != "more") return false; if (n == 0) return false; w = d.s == "same" ? n : d.s == "zero" ? 0 : d.s == "less" ? n - 1 : n + 1; }
        m[i].t = KIND.at(d.k); if (d.r == "null") { m[i].g.reset(); m[i].p = {nullptr, w}; } else if (d.r == "wild") { m[i].g.reset(); m[i].p = {(void*) 0x1000, w}; }
        else { bytes b((uint8_t*) p[i].mem_ref, (uint8_t*) p[i].mem_ref + (p[i].mem_ref ? std::min(n, w) : 0)); while (b.size() < w) b.push_back((uint8_t) rnd.next()); m[i].g.reset(new Guarded(b)); m[i].p = {m[i].g->p(), w}; }
    }
    for (auto& d : k.d) if (d.field) {
        if (d.place < 0) { call = d.act; if (call == "unknown") { static const int bad[] = {0, 38, 28, 30, 256 + 1, 65536 + 7, INT_MAX, -1}; c = (SA_COMMAND_ID) bad[rnd.below(8)]; } continue; }
        Loc l = where(c, sh, S.f[d.place]); if (!m[l.p].g) return false; if (S.f[d.place] == "name_length" || S.f[d.place] == "out_length") if (absent(1)) return false; if (!put(*m[l.p].g, l, d.act)) return false;
        m[l.p].g->before = m[l.p].g->get(0, m[l.p].g->n);
    }
    return true;
}
static sa_status send(void* session, SA_COMMAND_ID c, Mem* m, const string& call) {
    uint32_t t[4]; ta_param p[4]; for (int i = 0; i < 4; i++) { t[i] = m[i].t; p[i] = m[i].p; }
    bool ok0 = env::caller_ok; if (call == "caller") env::caller_ok = false;
    sa_status st = __real_ta_invoke_command(call == "nosession" ? nullptr : session, c, call == "notypes" ? nullptr : t, call == "noparams" ? nullptr : p);
    env::caller_ok = ok0; return st;
}
static void fail(const string& m) { if (error.empty()) error = m; }
static void malformed(void* session, SA_COMMAND_ID c0, const string& sh, Shape& S, const uint32_t* t, const ta_param* p) {
    for (int done = 0, tries = 0; done < per_command && tries < 40; tries++) {
        // the least used of some cases drawn at random
        Case* k = nullptr; for (int i = 0; i < 12; i++) { Case* q = &S.no[rnd.below(S.no.size())]; if (!k || q->used < k->used) k = q; } k->used++;
        SA_COMMAND_ID c = c0; Mem m[4]; string call; if (!make(c, sh, S, *k, t, p, m, call)) continue;
        string what = text(sh, *k); auto run = [&]() { ERR_clear_error(); long l0 = env::live_allocs(); sa_status st = send(session, c, m, call); if (st == SA_STATUS_OK) fail("a malformed command is carried out: " + what); ERR_clear_error(); return env::live_allocs() - l0; };
        bytes p0 = m[0].g ? m[0].g->before : bytes(); long d = run();
        for (int i = 0; i < 2 && d > 0 && error.empty(); i++) { if (m[0].g && !p0.empty()) memcpy(m[0].g->p(), p0.data(), p0.size()); d = run(); }
        if (d > 0) fail("refusing a malformed command keeps " + std::to_string(d) + " allocation(s): " + what);
        for (int i = 0; i < 4; i++) if (m[i].g) { if (!m[i].g->guards_ok()) fail("memory outside of parameter " + std::to_string(i) + " is written by a malformed command: " + what); if (!is_out(m[i].t) && !is_io(m[i].t) && !m[i].g->unchanged()) fail("memory that is not for output is written by a malformed command: " + what); }
        done++; count["malformed"]++; count["malformed." + sh]++; if (!error.empty()) return;
    }
}
// other well-formed commands: only memory safety is judged, in a process of its own
static void others(void* session, SA_COMMAND_ID c0, const string& sh, Shape& S, const uint32_t* t, const ta_param* p) {
    if (S.any.empty()) return; count["forks"]++; int fd[2]; if (pipe(fd)) return; fflush(stdout); fflush(stderr); uint64_t s = rnd.next();
    pid_t pid = fork(); if (pid < 0) { close(fd[0]); close(fd[1]); return; }
    if (pid == 0) {
        close(fd[0]); rnd = Prng(s); alarm(100); bool slow = sh == "generate/rsa" || sh == "generate/dh";
        for (int i = 0; i < (slow ? 2 : 10); i++) {
            Case& k = S.any[rnd.below(S.any.size())]; SA_COMMAND_ID c = c0; Mem m[4]; string call; if (!make(c, sh, S, k, t, p, m, call)) continue; string w = text(sh, k); w.resize(300); (void) !write(fd[1], w.data(), 300);
            send(session, c, m, call); for (int j = 0; j < 4; j++) if (m[j].g) { if (!m[j].g->guards_ok()) _exit(71); if (!is_out(m[j].t) && !is_io(m[j].t) && !m[j].g->unchanged()) _exit(72); }
        }
        _exit(0);
    }
    close(fd[1]); unsigned left = alarm(0); char b[300]; string last; while (read(fd[0], b, 300) == 300) last.assign(b, 300); close(fd[0]); int ws = 0; waitpid(pid, &ws, 0); alarm(left); last = last.c_str();
    if (!WIFEXITED(ws) || WEXITSTATUS(ws)) fail(string(WIFEXITED(ws) && WEXITSTATUS(ws) == 71 ? "memory outside of a parameter is written" : WIFEXITED(ws) && WEXITSTATUS(ws) == 72 ? "memory that is not for output is written" : WIFEXITED(ws) && WEXITSTATUS(ws) == 97 ? "the secure application does not return" : "the secure application crashes") + " on the command " + last);
}
static Mem* scribble_m; static bool scribble_p[4]; static thread_local int scribbled;
static void scribble() { if (!scribble_m || scribbled) return; scribbled = 1; for (int i = 0; i < 4; i++) if (scribble_p[i] && scribble_m[i].g) { Guarded& g = *scribble_m[i].g; for (size_t j = 0; j < g.n; j++) g.p()[j] ^= 0xff; g.before = g.get(0, g.n); } }
// parameters that the secure application must read only once, because what it read has been checked
static void once(const string& sh, bool* o) {
    o[0] = true; o[1] = o[2] = o[3] = false; auto starts = [&](const char* s) { return sh.compare(0, strlen(s), s) == 0; };
    if (starts("import/") || starts("unwrap/")) o[2] = true; if (starts("derive/") || sh == "cinit/oaep" || sh == "bcopy") o[1] = true; if (sh == "bwrite") o[2] = true; if (starts("cenc/")) { o[1] = true; o[2] = sh[5] == 's'; o[3] = sh[6] == 's'; }
    if (starts("process/")) { o[1] = sh[8] == 's'; o[2] = sh[9] == 's'; } if (sh == "keycheck/svp") o[1] = true;
}
static sa_status invoke(void* session, SA_COMMAND_ID c, const uint32_t* t, ta_param* p) {
    if (!on || inside) return __real_ta_invoke_command(session, c, t, p);
    inside = true; string sh = p && t && p[0].mem_ref ? shape_of(c, t, p) : "?"; auto it = table.find(sh); if (it == table.end()) { sh = "?"; count["unknown"]++; }
    if (sh != "?" && (++it->second.seen <= 12 || rnd.below(6) == 0)) { malformed(session, c, sh, it->second, t, p); if (rnd.below(12) == 0 && error.empty()) others(session, c, sh, it->second, t, p); }
    // the true command, with memory of exactly the sizes it states
    Mem m[4]; uint32_t tt[4]; ta_param pp[4]; for (int i = 0; i < 4; i++) { m[i] = copy(t[i], p[i], true); tt[i] = m[i].t; pp[i] = m[i].p; }
    bool scr = sh != "?" && rnd.below(2) && c != SA_KEY_PROVISION_TA; if (scr) { once(sh, scribble_p); scribbled = 0; scribble_m = m; env::on_lock = scribble; count["scribbled"]++; }
    sa_status st = __real_ta_invoke_command(session, c, tt, pp); env::on_lock = nullptr; scribble_m = nullptr; count["commands"]++;
    for (int i = 0; i < 4; i++) if (m[i].g) {
        if (!m[i].g->guards_ok()) fail("memory outside of parameter " + std::to_string(i) + " is written by the command " + sh);
        if (is_in(m[i].t) && !m[i].g->unchanged()) fail("input parameter " + std::to_string(i) + " is written by the command " + sh);
        if (!is_in(m[i].t) && m[i].g->n) memcpy(p[i].mem_ref, m[i].g->p(), m[i].g->n);
    }
    inside = false; return st;
}
}
extern "C" sa_status __wrap_ta_invoke_command(void* session, SA_COMMAND_ID c, const uint32_t* t, ta_param* p) { return boundary::invoke(session, c, t, p); }
