/* libcrypto as an independent oracle: SHA-2, HMAC and friends (link with -lcrypto) */
#pragma once
#include "checks/ref.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
namespace ossl
{
	inline Bytes md(const EVP_MD* t, const Bytes& m) { Bytes o(64); unsigned n = 0; static const uint8_t z = 0; EVP_Digest(m.empty() ? &z : m.data(), m.size(), o.data(), &n, t, nullptr); o.resize(n); return o; }
	inline Bytes sha256(const Bytes& m) { return md(EVP_sha256(), m); }
	inline Bytes sha512(const Bytes& m) { return md(EVP_sha512(), m); }
	inline Bytes hmac(const EVP_MD* t, const Bytes& k, const Bytes& m) { Bytes o(64); unsigned n = 0; static const uint8_t z = 0; HMAC(t, k.empty() ? &z : k.data(), (int)k.size(), m.empty() ? &z : m.data(), m.size(), o.data(), &n); o.resize(n); return o; }
}
