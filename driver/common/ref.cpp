#define OPENSSL_SUPPRESS_DEPRECATED
#include "common/ref.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <map>
#include <openssl/bn.h>
#include <openssl/cmac.h>
#include <openssl/dh.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/err.h>
#include <openssl/hmac.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/core_names.h>
#include <openssl/param_build.h>
#define REQ(c) do { if (!(c)) { fprintf(stderr, "driver: reference computation failed: %s (%s:%d)\n", #c, __FILE__, __LINE__); ERR_print_errors_fp(stderr); fflush(stderr); _Exit(99); } } while (0)
pkey own(EVP_PKEY* p) { return pkey(p, [](EVP_PKEY* q) { EVP_PKEY_free(q); }); }
namespace ref {
const EVP_MD* md(const std::string& dg) { return dg == "sha1" ? EVP_sha1() : dg == "sha256" ? EVP_sha256() : dg == "sha384" ? EVP_sha384() : dg == "sha512" ? EVP_sha512() : nullptr; }
bytes digest(const std::string& dg, const bytes& d) { bytes o(64); unsigned n = 0; REQ(EVP_Digest(d.data(), d.size(), o.data(), &n, md(dg), nullptr)); o.resize(n); return o; }
bytes hmac(const std::string& dg, const bytes& key, const bytes& d) {
    // computed from the definition (RFC 2104)
    size_t B = EVP_MD_get_block_size(md(dg)); bytes k = key; if (k.size() > B) k = digest(dg, k); k.resize(B, 0);
    bytes a = k, b = k; for (auto& x : a) x ^= 0x36; for (auto& x : b) x ^= 0x5c;
    return digest(dg, cat({b, digest(dg, cat({a, d}))}));
}
bytes cat(std::initializer_list<bytes> l) { bytes r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
static bytes aes_block(const bytes& key, const bytes& b) { return crypt("ecb", true, key, {}, {}, b); }
bytes cmac(const bytes& key, const bytes& d) {
    // RFC 4493
    auto dbl = [](bytes b) { bool c = b[0] & 0x80; for (int i = 0; i < 16; i++) b[i] = (b[i] << 1) | (i < 15 ? b[i + 1] >> 7 : 0); if (c) b[15] ^= 0x87; return b; };
    bytes L = aes_block(key, bytes(16, 0)), k1 = dbl(L), k2 = dbl(k1);
    size_t n = d.size(), nb = (n + 15) / 16; bool full = n && n % 16 == 0; if (!nb) nb = 1;
    bytes x(16, 0);
    for (size_t i = 0; i < nb; i++) {
        bytes m(16, 0); size_t k = std::min<size_t>(16, n - i * 16); if (k) memcpy(m.data(), d.data() + i * 16, k);
        if (i == nb - 1) { if (!full) m[k] = 0x80; const bytes& s = full ? k1 : k2; for (int j = 0; j < 16; j++) m[j] ^= s[j]; }
        for (int j = 0; j < 16; j++) x[j] ^= m[j];
        x = aes_block(key, x);
    }
    return x;
}
bytes crypt(const std::string& alg, bool enc, const bytes& key, const bytes& iv, const bytes& aad, const bytes& in, bytes* tag) {
    bool k128 = key.size() == 16; const EVP_CIPHER* c = nullptr;
    if (alg == "ecb" || alg == "ecbp") c = k128 ? EVP_aes_128_ecb() : EVP_aes_256_ecb();
    else if (alg == "cbc" || alg == "cbcp") c = k128 ? EVP_aes_128_cbc() : EVP_aes_256_cbc();
    else if (alg == "ctr") c = k128 ? EVP_aes_128_ctr() : EVP_aes_256_ctr();
    else if (alg == "gcm") c = k128 ? EVP_aes_128_gcm() : EVP_aes_256_gcm();
    else if (alg == "cha") c = EVP_chacha20();
    else if (alg == "poly") c = EVP_chacha20_poly1305();
    REQ(c); REQ(key.size() == (size_t) EVP_CIPHER_get_key_length(c));
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); REQ(x);
    REQ(EVP_CipherInit_ex(x, c, nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc)); EVP_CIPHER_CTX_set_padding(x, 0);
    int l = 0; bytes o(in.size() + 32);
    if (!aad.empty()) REQ(EVP_CipherUpdate(x, nullptr, &l, aad.data(), aad.size()));
    l = 0; if (!in.empty()) REQ(EVP_CipherUpdate(x, o.data(), &l, in.data(), in.size()));
    o.resize(l);
    if (tag) {
        if (!enc) { EVP_CIPHER_CTX_free(x); crypt(alg, true, key, iv, aad, o, tag); return o; }
        int f = 0; bytes z(32); REQ(EVP_CipherFinal_ex(x, z.data(), &f)); tag->resize(16); REQ(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, tag->data()));
    }
    EVP_CIPHER_CTX_free(x); return o;
}
bytes hkdf(const std::string& dg, const bytes& key, const bytes& salt, const bytes& info, size_t n) {
    bytes prk = hmac(dg, salt, key), t, o; for (int i = 1; o.size() < n; i++) { t = hmac(dg, prk, cat({t, info, {(uint8_t) i}})); o = cat({o, t}); } o.resize(n); return o;
}
static bytes be32(uint32_t i) { return {(uint8_t) (i >> 24), (uint8_t) (i >> 16), (uint8_t) (i >> 8), (uint8_t) i}; }
bytes concat_kdf(const std::string& dg, const bytes& key, const bytes& info, size_t n) { bytes o; for (uint32_t i = 1; o.size() < n; i++) o = cat({o, digest(dg, cat({be32(i), key, info}))}); o.resize(n); return o; }
bytes x963(const std::string& dg, const bytes& key, const bytes& info, size_t n) { bytes o; for (uint32_t i = 1; o.size() < n; i++) o = cat({o, digest(dg, cat({key, be32(i), info}))}); o.resize(n); return o; }
bytes cmac_kdf(const bytes& key, const bytes& other, int counter, size_t n) { bytes o; for (uint8_t i = counter; o.size() < n; i++) o = cat({o, cmac(key, cat({{i}, other}))}); o.resize(n); return o; }
bytes netflix_wrap(const bytes& enc, const bytes& mac) {
    static const bytes salt = {0x02, 0x76, 0x17, 0x98, 0x4f, 0x62, 0x27, 0x53, 0x9a, 0x63, 0x0b, 0x89, 0x7c, 0x01, 0x7d, 0x69}, info = {0x80, 0x9f, 0x82, 0xa7, 0xad, 0xdf, 0x54, 0x8d, 0x3e, 0xa9, 0xdd, 0x06, 0x7f, 0xf9, 0xbb, 0x91};
    bytes r = hmac("sha256", hmac("sha256", salt, cat({enc, mac})), info); r.resize(16); return r;
}
bytes netflix_dh(const bytes& kek, const bytes& secret) {
    size_t i = 0; while (i < secret.size() && secret[i] == 0) i++;      // two's complement, minimal, exactly one leading zero byte
    bytes s = cat({{0}, bytes(secret.begin() + i, secret.end())});
    return hmac("sha384", digest("sha384", kek), s);
}
bytes ladder(const bytes& root, const bytes& c1, const bytes& c2, const bytes& c3, const bytes& c4) {
    auto d = [](const bytes& k, const bytes& c) { return crypt("ecb", false, k, {}, {}, c); };
    return d(d(d(d(root, c1), c2), c3), c4);
}
int curve_nid(const std::string& cv) { return cv == "p192" ? NID_X9_62_prime192v1 : cv == "p224" ? NID_secp224r1 : cv == "p256" ? NID_X9_62_prime256v1 : cv == "p384" ? NID_secp384r1 : cv == "p521" ? NID_secp521r1 : cv == "ed25519" ? EVP_PKEY_ED25519 : cv == "x25519" ? EVP_PKEY_X25519 : cv == "ed448" ? EVP_PKEY_ED448 : cv == "x448" ? EVP_PKEY_X448 : 0; }
size_t curve_size(const std::string& cv) { return cv == "p192" ? 24 : cv == "p224" ? 28 : cv == "p256" ? 32 : cv == "p384" ? 48 : cv == "p521" ? 66 : cv == "ed25519" || cv == "x25519" ? 32 : cv == "ed448" ? 57 : 56; }
static bool isp(const std::string& cv) { return cv[0] == 'p'; }
bytes ec_order(const std::string& cv) { EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(cv)); REQ(g); bytes o(curve_size(cv)); REQ(BN_bn2binpad(EC_GROUP_get0_order(g), o.data(), o.size()) > 0); EC_GROUP_free(g); return o; }
bytes ec_scalar(const std::string& cv, uint64_t seed) {
    Prng r(seed * 7919 + 13); size_t n = curve_size(cv); bytes b = r.get(n); if (!isp(cv)) return b;
    if (seed % 17 == 0) { b = bytes(n, 0); b[n - 1] = 1 + seed % 3; return b; }                 // tiny private value
    BIGNUM *x = BN_bin2bn(b.data(), n, nullptr), *o = nullptr, *one = BN_new(); bytes ob = ec_order(cv); o = BN_bin2bn(ob.data(), n, nullptr); BN_one(one); BN_sub(o, o, one);
    BN_CTX* c = BN_CTX_new(); BN_mod(x, x, o, c); BN_add(x, x, one); if (seed % 19 == 0) BN_copy(x, o);   // largest private value
    REQ(BN_bn2binpad(x, b.data(), n) > 0); BN_free(x); BN_free(o); BN_free(one); BN_CTX_free(c); return b;
}
pkey ec_key(const std::string& cv, const bytes& priv) {
    if (!isp(cv)) { EVP_PKEY* p = EVP_PKEY_new_raw_private_key(curve_nid(cv), nullptr, priv.data(), priv.size()); REQ(p); return own(p); }
    EC_KEY* k = EC_KEY_new_by_curve_name(curve_nid(cv)); REQ(k); BIGNUM* d = BN_bin2bn(priv.data(), priv.size(), nullptr);
    EC_POINT* q = EC_POINT_new(EC_KEY_get0_group(k)); REQ(EC_POINT_mul(EC_KEY_get0_group(k), q, d, nullptr, nullptr, nullptr));
    REQ(EC_KEY_set_private_key(k, d)); REQ(EC_KEY_set_public_key(k, q)); EC_POINT_free(q); BN_free(d);
    EVP_PKEY* p = EVP_PKEY_new(); REQ(EVP_PKEY_assign_EC_KEY(p, k)); return own(p);
}
bytes ec_der(const std::string& cv, uint64_t seed) {
    pkey k = ec_key(cv, ec_scalar(cv, seed)); PKCS8_PRIV_KEY_INFO* p8 = EVP_PKEY2PKCS8(k.get()); REQ(p8); uint8_t* o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o); REQ(n > 0); bytes b(o, o + n); OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(p8); return b;
}
bytes file(const std::string& name) {
    static std::map<std::string, bytes> cache; auto it = cache.find(name); if (it != cache.end()) return it->second;
    const char* d = getenv("VERIF_DATA"); std::string p = std::string(d ? d : "/verif/data") + "/" + name; FILE* f = fopen(p.c_str(), "rb"); REQ(f); bytes b(65536); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f); return cache[name] = b;
}
bytes rsa_der(size_t n, int v) { return file("rsa_" + std::to_string(n) + "_" + std::to_string(v) + ".der"); }
pkey rsa_key(const bytes& der) { const uint8_t* p = der.data(); EVP_PKEY* k = d2i_AutoPrivateKey(nullptr, &p, der.size()); REQ(k); return own(k); }
bytes spki(EVP_PKEY* k) { uint8_t* o = nullptr; int n = i2d_PUBKEY(k, &o); REQ(n > 0); bytes b(o, o + n); OPENSSL_free(o); return b; }
pkey from_spki(const bytes& d) { const uint8_t* p = d.data(); EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, d.size()); ERR_clear_error(); if (k && p != d.data() + d.size()) { EVP_PKEY_free(k); k = nullptr; } return k ? own(k) : nullptr; }
bool verify(EVP_PKEY* pub, const std::string& alg, const std::string& dg, const std::string& mg, long salt, bool pre, const bytes& msg, const bytes& sig) {
    bytes s = sig, m = msg; bool ok = false;
    if (alg == "ecdsa") {
        size_t n = sig.size() / 2; ECDSA_SIG* e = ECDSA_SIG_new(); ECDSA_SIG_set0(e, BN_bin2bn(sig.data(), n, nullptr), BN_bin2bn(sig.data() + n, n, nullptr));
        uint8_t* o = nullptr; int l = i2d_ECDSA_SIG(e, &o); REQ(l > 0); s.assign(o, o + l); OPENSSL_free(o); ECDSA_SIG_free(e);
    }
    if (alg == "eddsa") { EVP_MD_CTX* c = EVP_MD_CTX_new(); REQ(EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, pub)); ok = EVP_DigestVerify(c, s.data(), s.size(), m.data(), m.size()) == 1; EVP_MD_CTX_free(c); ERR_clear_error(); return ok; }
    bytes h = pre ? m : digest(dg, m);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pub, nullptr); REQ(EVP_PKEY_verify_init(c) == 1);
    if (alg == "pkcs1") REQ(EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1);
    if (alg == "pss") { REQ(EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING) == 1); REQ(EVP_PKEY_CTX_set_rsa_mgf1_md(c, md(mg)) == 1); REQ(EVP_PKEY_CTX_set_rsa_pss_saltlen(c, salt) == 1); }
    REQ(EVP_PKEY_CTX_set_signature_md(c, md(dg)) == 1);
    ok = EVP_PKEY_verify(c, s.data(), s.size(), h.data(), h.size()) == 1; EVP_PKEY_CTX_free(c); ERR_clear_error(); return ok;
}
bytes rsa_encrypt(EVP_PKEY* pub, const std::string& alg, const std::string& dg, const std::string& mg, const bytes& label, const bytes& m) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pub, nullptr); REQ(EVP_PKEY_encrypt_init(c) == 1);
    if (alg == "rsap") REQ(EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1);
    else { REQ(EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_OAEP_PADDING) == 1); REQ(EVP_PKEY_CTX_set_rsa_oaep_md(c, md(dg)) == 1); REQ(EVP_PKEY_CTX_set_rsa_mgf1_md(c, md(mg)) == 1);
        if (!label.empty()) { void* l = OPENSSL_memdup(label.data(), label.size()); REQ(EVP_PKEY_CTX_set0_rsa_oaep_label(c, l, label.size()) == 1); } }
    bytes o(1024); size_t n = o.size(); static const uint8_t z = 0;
    if (EVP_PKEY_encrypt(c, o.data(), &n, m.empty() ? &z : m.data(), m.size()) != 1) n = 0;
    EVP_PKEY_CTX_free(c); ERR_clear_error(); o.resize(n); return o;
}
bytes rsa_raw(EVP_PKEY* pub, const bytes& block) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pub, nullptr); REQ(EVP_PKEY_encrypt_init(c) == 1); REQ(EVP_PKEY_CTX_set_rsa_padding(c, RSA_NO_PADDING) == 1);
    bytes o(1024); size_t n = o.size(); REQ(EVP_PKEY_encrypt(c, o.data(), &n, block.data(), block.size()) == 1); EVP_PKEY_CTX_free(c); o.resize(n); return o;
}
bytes elgamal(EVP_PKEY* pub, const std::string& cv, uint64_t seed, bytes& x) {
    const EC_KEY* k = EVP_PKEY_get0_EC_KEY(pub); REQ(k); const EC_GROUP* g = EC_KEY_get0_group(k); size_t n = curve_size(cv);
    bytes mb = ec_scalar(cv, seed * 2 + 1), kb = ec_scalar(cv, seed * 3 + 2); BIGNUM *m = BN_bin2bn(mb.data(), n, nullptr), *r = BN_bin2bn(kb.data(), n, nullptr);
    EC_POINT *M = EC_POINT_new(g), *C1 = EC_POINT_new(g), *S = EC_POINT_new(g);
    REQ(EC_POINT_mul(g, M, m, nullptr, nullptr, nullptr)); REQ(EC_POINT_mul(g, C1, r, nullptr, nullptr, nullptr)); REQ(EC_POINT_mul(g, S, nullptr, EC_KEY_get0_public_key(k), r, nullptr)); REQ(EC_POINT_add(g, S, M, S, nullptr));
    auto put = [&](EC_POINT* p) { bytes b(2 * n + 1); size_t l = EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, b.data(), b.size(), nullptr); if (l != b.size()) return bytes(); return bytes(b.begin() + 1, b.end()); };
    bytes c1 = put(C1), c2 = put(S), mm = put(M); x.assign(mm.begin(), mm.begin() + n);
    EC_POINT_free(M); EC_POINT_free(C1); EC_POINT_free(S); BN_free(m); BN_free(r); ERR_clear_error();
    if (c2.empty()) return {}; return cat({c1, c2});
}
bytes dh_p(size_t n) { return file("dh_" + std::to_string(n) + ".bin"); }
static pkey dh_pub(size_t n, const BIGNUM* pub) {
    bytes p = dh_p(n); BIGNUM *bp = BN_bin2bn(p.data(), p.size(), nullptr), *g = BN_new(); BN_set_word(g, 2);
    DH* d = DH_new(); REQ(DH_set0_pqg(d, bp, nullptr, g)); REQ(DH_set0_key(d, BN_dup(pub), nullptr)); EVP_PKEY* k = EVP_PKEY_new(); REQ(EVP_PKEY_assign_DH(k, d)); return own(k);
}
static bytes modexp(const bytes& p, const BIGNUM* b, const bytes& e) { BIGNUM *bp = BN_bin2bn(p.data(), p.size(), nullptr), *be = BN_bin2bn(e.data(), e.size(), nullptr), *r = BN_new(); BN_CTX* c = BN_CTX_new(); REQ(BN_mod_exp(r, b, be, bp, c)); bytes o(p.size()); REQ(BN_bn2binpad(r, o.data(), o.size()) > 0); BN_free(bp); BN_free(be); BN_free(r); BN_CTX_free(c); return o; }
pkey dh_peer(size_t n, uint64_t seed, bytes& priv) {
    Prng r(seed * 131 + n); priv = r.get(n - 1); priv[0] |= 1; BIGNUM* g = BN_new(); BN_set_word(g, 2); bytes y = modexp(dh_p(n), g, priv); BN_free(g); BIGNUM* b = BN_bin2bn(y.data(), n, nullptr); pkey k = dh_pub(n, b); BN_free(b); return k;
}
bytes dh_secret(EVP_PKEY* pub, size_t n, const bytes& priv) {
    BIGNUM* y = nullptr; REQ(EVP_PKEY_get_bn_param(pub, OSSL_PKEY_PARAM_PUB_KEY, &y)); bytes s = modexp(dh_p(n), y, priv); BN_free(y); return s;
}
bytes agree(EVP_PKEY* mine, EVP_PKEY* peer) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(mine, nullptr); REQ(EVP_PKEY_derive_init(c) == 1); if (EVP_PKEY_derive_set_peer(c, peer) != 1) { EVP_PKEY_CTX_free(c); ERR_clear_error(); return {}; }
    bytes o(256); size_t n = o.size(); if (EVP_PKEY_derive(c, o.data(), &n) != 1) n = 0; EVP_PKEY_CTX_free(c); ERR_clear_error(); o.resize(n); return o;
}
}
