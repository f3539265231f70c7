// Independent reference for the algorithms, on top of one-shot OpenSSL calls made by the driver itself.
#pragma once
#include "common/verif.h"
#include <openssl/evp.h>
#include <memory>
#include <optional>
using pkey = std::shared_ptr<EVP_PKEY>;
pkey own(EVP_PKEY* p);
namespace ref {
const EVP_MD* md(const std::string& dg);
bytes digest(const std::string& dg, const bytes& d);
bytes hmac(const std::string& dg, const bytes& key, const bytes& d);
bytes cmac(const bytes& key, const bytes& d);
// the stream transformation, without padding; for AEAD the tag is returned through tag (16 bytes)
bytes crypt(const std::string& alg, bool enc, const bytes& key, const bytes& iv, const bytes& aad, const bytes& in, bytes* tag = nullptr);
bytes cat(std::initializer_list<bytes> l);
bytes hkdf(const std::string& dg, const bytes& key, const bytes& salt, const bytes& info, size_t n);
bytes concat_kdf(const std::string& dg, const bytes& key, const bytes& info, size_t n);
bytes x963(const std::string& dg, const bytes& key, const bytes& info, size_t n);
bytes cmac_kdf(const bytes& key, const bytes& other, int counter, size_t n);
bytes netflix_wrap(const bytes& enc, const bytes& mac);
bytes netflix_dh(const bytes& kek, const bytes& secret);     // 48 bytes: enc || mac
bytes ladder(const bytes& root, const bytes& c1, const bytes& c2, const bytes& c3, const bytes& c4);
// asymmetric keys
size_t curve_size(const std::string& cv); int curve_nid(const std::string& cv);
bytes ec_scalar(const std::string& cv, uint64_t seed);       // a valid private value
bytes ec_der(const std::string& cv, uint64_t seed);            // PKCS #8
bytes ec_order(const std::string& cv);
pkey ec_key(const std::string& cv, const bytes& priv);
pkey rsa_key(const bytes& der); bytes rsa_der(size_t n, int v);
bytes file(const std::string& name);
bytes spki(EVP_PKEY* k); pkey from_spki(const bytes& d);
bool verify(EVP_PKEY* pub, const std::string& alg, const std::string& dg, const std::string& mg, long salt, bool pre, const bytes& msg, const bytes& sig);
bytes rsa_encrypt(EVP_PKEY* pub, const std::string& alg, const std::string& dg, const std::string& mg, const bytes& label, const bytes& m);   // empty on failure
bytes rsa_raw(EVP_PKEY* pub, const bytes& block);
// ElGamal: a random message point; returns ciphertext, x receives the x coordinate of the message point
bytes elgamal(EVP_PKEY* pub, const std::string& cv, uint64_t seed, bytes& x);
// agreement with the peer's private key
bytes dh_p(size_t n); pkey dh_peer(size_t n, uint64_t seed, bytes& priv); bytes dh_secret(EVP_PKEY* pub, size_t n, const bytes& priv);
pkey dh_special(size_t n);
bytes agree(EVP_PKEY* mine, EVP_PKEY* peer);
}
