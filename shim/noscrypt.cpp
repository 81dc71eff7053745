#include "noscrypt.h"
#include "../sim/sim.h"
#include "../sim/runner.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/crypto.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <secp256k1_ecdh.h>
#include <string.h>
struct NCContext { secp256k1_context* c; };
static NCContext shared = {nullptr};
enum { E_ARG = -1, E_CTX = -2, E_OP = -3 };
static secp256k1_context* cx(const NCContext* n) {
    if (!n) violate("crash:noscrypt-null-context", "a noscrypt call was made with a NULL context");
    if (!n->c) violate("crash:noscrypt-uninitialised-context", "a noscrypt call was made on a context that is not initialised");
    return n->c;
}
extern "C" {
NCContext* NCGetSharedContext(void) { sim_point(); return sim_crypto_fault() ? nullptr : &shared; }
NCResult NCInitContext(NCContext* n, const uint8_t e[32]) {
    sim_point();
    if (!n || !e) return E_ARG;
    if (sim_crypto_fault()) return E_CTX;
    if (n->c) violate("double-init", "the crypto context was initialised twice without being destroyed");
    n->c = secp256k1_context_create(SECP256K1_CONTEXT_NONE);
    return secp256k1_context_randomize(n->c, e) ? NC_SUCCESS : E_CTX;
}
NCResult NCDestroyContext(NCContext* n) { sim_point(); if (!n) return E_ARG; if (n->c) { secp256k1_context_destroy(n->c); n->c = nullptr; } return NC_SUCCESS; }
NCResult NCGetPublicKey(const NCContext* n, const NCSecretKey* s, NCPublicKey* p) {
    sim_point(); auto* c = cx(n); if (!s || !p) return E_ARG; if (sim_crypto_fault()) return E_OP;
    secp256k1_keypair kp; secp256k1_xonly_pubkey x;
    if (!secp256k1_keypair_create(c, &kp, s->key)) return E_OP;
    secp256k1_keypair_xonly_pub(c, &x, nullptr, &kp); secp256k1_xonly_pubkey_serialize(c, p->key, &x); memset(&kp, 0, sizeof kp); return NC_SUCCESS;
}
NCResult NCValidateSecretKey(const NCContext* n, const NCSecretKey* s) { sim_point(); return secp256k1_ec_seckey_verify(cx(n), s->key) ? NC_SUCCESS : E_OP; }
NCResult NCSignDigest(const NCContext* n, const NCSecretKey* s, const uint8_t r[32], const uint8_t d[32], uint8_t sig[64]) {
    sim_point(); auto* c = cx(n); if (sim_crypto_fault()) return E_OP;
    secp256k1_keypair kp; if (!secp256k1_keypair_create(c, &kp, s->key)) return E_OP;
    int ok = secp256k1_schnorrsig_sign32(c, sig, d, &kp, r); memset(&kp, 0, sizeof kp); return ok ? NC_SUCCESS : E_OP;
}
NCResult NCVerifyDigest(const NCContext* n, const NCPublicKey* p, const uint8_t d[32], const uint8_t sig[64]) {
    sim_point(); auto* c = cx(n); secp256k1_xonly_pubkey x;
    if (!secp256k1_xonly_pubkey_parse(c, &x, p->key)) return E_OP;
    return secp256k1_schnorrsig_verify(c, sig, d, 32, &x) ? NC_SUCCESS : E_OP;
}
static int copy_x(unsigned char* o, const unsigned char* x, const unsigned char*, void*) { memcpy(o, x, 32); return 1; }
NCResult NCGetSharedSecret(const NCContext* n, const NCSecretKey* s, const NCPublicKey* p, uint8_t* o) {
    sim_point(); auto* c = cx(n); if (sim_crypto_fault()) return E_OP;
    uint8_t b[33]; b[0] = 2; memcpy(b + 1, p->key, 32); secp256k1_pubkey q;
    if (!secp256k1_ec_pubkey_parse(c, &q, b, 33)) return E_OP;
    return secp256k1_ecdh(c, o, &q, s->key, copy_x, nullptr) ? NC_SUCCESS : E_OP;
}
uint32_t NCEncryptionGetIvSize(uint32_t v) { return v == NC_ENC_VERSION_NIP44 ? 32 : v == NC_ENC_VERSION_NIP04 ? 16 : 0; }
NCResult NCEncryptionSetProperty(NCEncryptionArgs* a, uint32_t p, uint32_t v) { if (p != NC_ENC_SET_VERSION || (v != 44 && v != 4)) return E_ARG; a->version = v; return NC_SUCCESS; }
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs* a, uint32_t p, uint8_t* v, uint32_t l) {
    if (!v) return E_ARG;
    if (p == NC_ENC_SET_IV) { if (l < NCEncryptionGetIvSize(a->version)) return E_ARG; a->nonceData = v; return NC_SUCCESS; }
    if (p == NC_ENC_SET_NIP44_MAC_KEY) { if (l != 32) return E_ARG; a->keyData = v; return NC_SUCCESS; }
    return E_ARG;
}
NCResult NCEncryptionSetData(NCEncryptionArgs* a, const uint8_t* i, uint8_t* o, uint32_t l) { if (!i || !o || !l) return E_ARG; a->inputData = i; a->outputData = o; a->dataSize = l; return NC_SUCCESS; }
static bool keys(const NCContext* n, const NCSecretKey* s, const NCPublicKey* p, const uint8_t* nonce, uint8_t out[76]) {
    secp256k1_context* c = cx(n); uint8_t b[33], x[32], prk[32]; b[0] = 2; memcpy(b + 1, p->key, 32); secp256k1_pubkey q;
    if (!secp256k1_ec_pubkey_parse(c, &q, b, 33) || !secp256k1_ecdh(c, x, &q, s->key, copy_x, nullptr)) return false;
    unsigned l = 32; HMAC(EVP_sha256(), "nip44-v2", 8, x, 32, prk, &l);
    uint8_t t[32 + 32 + 1]; size_t tl = 0, o = 0; for (uint8_t i = 1; o < 76; i++) { uint8_t in[65]; memcpy(in, t, tl); memcpy(in + tl, nonce, 32); in[tl + 32] = i; HMAC(EVP_sha256(), prk, 32, in, tl + 33, t, &l); tl = 32; size_t k = 76 - o < 32 ? 76 - o : 32; memcpy(out + o, t, k); o += k; }
    return true;
}
static bool chacha(const uint8_t k[76], const uint8_t* in, uint8_t* out, int n) {
    EVP_CIPHER_CTX* e = EVP_CIPHER_CTX_new(); uint8_t iv[16] = {0}; memcpy(iv + 4, k + 32, 12); int l = 0;
    bool ok = e && EVP_EncryptInit_ex(e, EVP_chacha20(), nullptr, k, iv) && EVP_EncryptUpdate(e, out, &l, in, n); EVP_CIPHER_CTX_free(e); return ok;
}
static NCResult crypt(const NCContext* n, const NCSecretKey* s, const NCPublicKey* p, NCEncryptionArgs* a, bool enc) {
    sim_point(); cx(n);
    if (a->version != 44 || !a->nonceData || !a->inputData || (enc && !a->keyData)) return E_ARG;
    if (sim_crypto_fault()) return E_OP;
    uint8_t k[76]; if (!keys(n, s, p, a->nonceData, k)) return E_OP;
    if (enc) memcpy(a->keyData, k + 44, 32);
    bool ok = chacha(k, a->inputData, a->outputData, (int)a->dataSize); memset(k, 0, 76); return ok ? NC_SUCCESS : E_OP;
}
NCResult NCEncrypt(const NCContext* n, const NCSecretKey* s, const NCPublicKey* p, NCEncryptionArgs* a) { return crypt(n, s, p, a, true); }
NCResult NCDecrypt(const NCContext* n, const NCSecretKey* s, const NCPublicKey* p, NCEncryptionArgs* a) { return crypt(n, s, p, a, false); }
NCResult NCComputeMac(const NCContext* n, const uint8_t k[32], const uint8_t* d, uint32_t l, uint8_t o[32]) { sim_point(); cx(n); if (sim_crypto_fault()) return E_OP; unsigned x = 32; HMAC(EVP_sha256(), k, 32, d, l, o, &x); return NC_SUCCESS; }
NCResult NCVerifyMac(const NCContext* n, const NCSecretKey* s, const NCPublicKey* p, NCMacVerifyArgs* a) {
    sim_point(); uint8_t k[76], m[32]; unsigned x = 32; if (sim_crypto_fault()) return E_OP; if (!keys(n, s, p, a->nonce32, k)) return E_OP;
    HMAC(EVP_sha256(), k + 44, 32, a->payload, a->payloadSize, m, &x); return CRYPTO_memcmp(m, a->mac32, 32) == 0 ? NC_SUCCESS : E_OP;
}
}
