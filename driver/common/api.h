// Calls into the code under test, either directly (ta_sa_*, any session and caller) or through the client library (sa_*).
#pragma once
extern "C" {
#include "sa.h"
#include "ta_sa.h"
}
#include <set>
#include <string>
#define BASE_T env::clock_base
static inline sa_digest_algorithm sa_dg(const std::string& d) { return d == "sha1" ? SA_DIGEST_ALGORITHM_SHA1 : d == "sha256" ? SA_DIGEST_ALGORITHM_SHA256 : d == "sha384" ? SA_DIGEST_ALGORITHM_SHA384 : d == "sha512" ? SA_DIGEST_ALGORITHM_SHA512 : (sa_digest_algorithm) 99; }
static inline sa_elliptic_curve sa_cv(const std::string& c) {
    return c == "p192" ? SA_ELLIPTIC_CURVE_NIST_P192 : c == "p224" ? SA_ELLIPTIC_CURVE_NIST_P224 : c == "p256" ? SA_ELLIPTIC_CURVE_NIST_P256 : c == "p384" ? SA_ELLIPTIC_CURVE_NIST_P384 : c == "p521" ? SA_ELLIPTIC_CURVE_NIST_P521 :
           c == "ed25519" ? SA_ELLIPTIC_CURVE_ED25519 : c == "x25519" ? SA_ELLIPTIC_CURVE_X25519 : c == "ed448" ? SA_ELLIPTIC_CURVE_ED448 : c == "x448" ? SA_ELLIPTIC_CURVE_X448 : (sa_elliptic_curve) 99; }
static inline sa_cipher_algorithm sa_ca(const std::string& a) {
    return a == "ecb" ? SA_CIPHER_ALGORITHM_AES_ECB : a == "ecbp" ? SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 : a == "cbc" ? SA_CIPHER_ALGORITHM_AES_CBC : a == "cbcp" ? SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 : a == "ctr" ? SA_CIPHER_ALGORITHM_AES_CTR :
           a == "gcm" ? SA_CIPHER_ALGORITHM_AES_GCM : a == "cha" ? SA_CIPHER_ALGORITHM_CHACHA20 : a == "poly" ? SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 : a == "rsap" ? SA_CIPHER_ALGORITHM_RSA_PKCS1V15 : a == "rsao" ? SA_CIPHER_ALGORITHM_RSA_OAEP :
           a == "elg" ? SA_CIPHER_ALGORITHM_EC_ELGAMAL : (sa_cipher_algorithm) 99; }
// application identities: alike except in one byte, whose place changes from behaviour to behaviour
inline int uuid_place = 0;
static inline sa_uuid uuid_of(int u) { sa_uuid x; for (int i = 0; i < 16; i++) x.id[i] = (uint8_t) (0x21 + i); x.id[uuid_place & 15] = (uint8_t) (0x80 + u); return x; }
