// Crypto-provider seams: real OpenSSL underneath, with injectable failures;
// a non-reentrant model of the mbedTLS generator for the mbedTLS build.
#include "sim.h"
#include "runner.h"
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <utf8proc.h>
#include <unistd.h>
// a quick stand-in for scrypt that depends on everything scrypt depends on
bool g_fast_scrypt = false;
std::string fast_scrypt(const std::string& pw, const std::string& salt, uint64_t N, uint64_t r, uint64_t p, size_t len) {
    std::string in = std::to_string(pw.size()) + ":" + pw + std::to_string(salt.size()) + ":" + salt + std::to_string(N) + "," + std::to_string(r) + "," + std::to_string(p) + "," + std::to_string(len), o;
    for (int i = 0; o.size() < len; i++) { unsigned char h[32]; std::string x = in + "#" + std::to_string(i); SHA256((const unsigned char*)x.data(), x.size(), h); o.append((char*)h, 32); }
    o.resize(len); return o;
}
extern "C" {
void* sim_malloc(size_t); void sim_free(void*);
EVP_CIPHER_CTX* sim_EVP_CIPHER_CTX_new(void) { sim_point(); return sim_crypto_fault() ? nullptr : EVP_CIPHER_CTX_new(); }
EVP_MD_CTX* sim_EVP_MD_CTX_new(void) { sim_point(); return sim_crypto_fault() ? nullptr : EVP_MD_CTX_new(); }
BIO* sim_BIO_new(const BIO_METHOD* m) { sim_point(); return sim_crypto_fault() ? nullptr : BIO_new(m); }
BIO* sim_BIO_new_mem_buf(const void* b, int n) { sim_point(); return sim_crypto_fault() ? nullptr : BIO_new_mem_buf(b, n); }
int sim_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i) { sim_point(); return sim_crypto_fault() ? 0 : EVP_EncryptInit_ex(c, t, e, k, i); }
int sim_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* i, int n) { sim_point(); return sim_crypto_fault() ? 0 : EVP_EncryptUpdate(c, o, l, i, n); }
int sim_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* o, int* l) { sim_point(); return sim_crypto_fault() ? 0 : EVP_EncryptFinal_ex(c, o, l); }
int sim_EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i) { sim_point(); return sim_crypto_fault() ? 0 : EVP_DecryptInit_ex(c, t, e, k, i); }
int sim_EVP_DecryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* i, int n) { sim_point(); return sim_crypto_fault() ? 0 : EVP_DecryptUpdate(c, o, l, i, n); }
int sim_EVP_DecryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* o, int* l) { sim_point(); return sim_crypto_fault() ? 0 : EVP_DecryptFinal_ex(c, o, l); }
int sim_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int t, int a, void* p) { sim_point(); return sim_crypto_fault() ? 0 : EVP_CIPHER_CTX_ctrl(c, t, a, p); }
int sim_EVP_PBE_scrypt(const char* p, size_t pl, const unsigned char* s, size_t sl, uint64_t N, uint64_t r, uint64_t pp, uint64_t mm, unsigned char* k, size_t kl) {
    sim_point(); if (sim_crypto_fault()) return 0; if (!g_fast_scrypt) return EVP_PBE_scrypt(p, pl, s, sl, N, r, pp, mm, k, kl);
    std::string o = fast_scrypt(std::string(p, pl), std::string((const char*)s, sl), N, r, pp, kl); if (N < 2 || (N & (N - 1)) || (mm ? mm : 32u << 20) < 128 * r * (N + pp + 2)) return 0; memcpy(k, o.data(), kl); sim_point(); return 1;
}
int sim_PKCS5_PBKDF2_HMAC(const char* p, int pl, const unsigned char* s, int sl, int it, const EVP_MD* d, int kl, unsigned char* o) { sim_point(); return sim_crypto_fault() ? 0 : PKCS5_PBKDF2_HMAC(p, pl, s, sl, it, d, kl, o); }
unsigned char* sim_HMAC(const EVP_MD* m, const void* k, int kl, const unsigned char* d, size_t n, unsigned char* o, unsigned* ol) { sim_point(); return sim_crypto_fault() ? nullptr : HMAC(m, k, kl, d, n, o, ol); }
unsigned char* sim_SHA256(const unsigned char* d, size_t n, unsigned char* o) { sim_point(); return SHA256(d, n, o); }
int sim_EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* t, ENGINE* e) { return EVP_DigestInit_ex(c, t, e); }
int sim_EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { return EVP_DigestUpdate(c, d, n); }
int sim_EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* o, unsigned* l) { return EVP_DigestFinal_ex(c, o, l); }
int sim_EVP_Digest(const void* d, size_t n, unsigned char* o, unsigned* l, const EVP_MD* t, ENGINE* e) { return EVP_Digest(d, n, o, l, t, e); }
utf8proc_uint8_t* sim_utf8proc_NFKD(const utf8proc_uint8_t* s) {
    sim_point();
    utf8proc_uint8_t* r = utf8proc_NFKD(s);
    if (!r) return nullptr;
    size_t n = strlen((char*)r) + 1;
    void* p = sim_malloc(n);                  // the provider's allocation is accounted and can fail like any other
    if (p) memcpy(p, r, n);
    ::free(r);
    return (utf8proc_uint8_t*)p;
}
}
// libsecp256k1 is real but not instrumented: check what it would touch
#include <secp256k1.h>
#include <secp256k1_ecdh.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <sanitizer/asan_interface.h>
static std::map<const void*, bool> ctxs;
int live_contexts() { int n = 0; for (auto& c : ctxs) n += c.second; return n; }
static void cx(const secp256k1_context* c, const char* f) { sim_point(); if (!c) violate("context-null", "%s was called without a context", f); auto it = ctxs.find(c); if (it == ctxs.end() || !it->second) violate("context-dead", "%s was called with a context that was destroyed", f); }
static void mem(const void* p, size_t n, const char* f) { if (p && __asan_region_is_poisoned((void*)p, n)) violate("crash:crypto-buffer", "%s got a buffer that is not %zu valid bytes", f, n); }
extern "C" {
secp256k1_context* sim_secp256k1_context_create(unsigned fl) { sim_point(); if (sim_crypto_fault()) return nullptr; secp256k1_context* c = secp256k1_context_create(fl); ctxs[c] = true; sim_point(); return c; }
void sim_secp256k1_context_destroy(secp256k1_context* c) { sim_point(); if (!c) return; cx(c, "secp256k1_context_destroy"); ctxs[c] = false; }     // kept, so that an address is never reused
int sim_secp256k1_context_randomize(secp256k1_context* c, const unsigned char* s) { cx(c, "secp256k1_context_randomize"); mem(s, 32, "context_randomize"); return secp256k1_context_randomize(c, s); }
int sim_secp256k1_ec_pubkey_create(const secp256k1_context* c, secp256k1_pubkey* p, const unsigned char* k) { cx(c, "secp256k1_ec_pubkey_create"); mem(p, 64, "ec_pubkey_create"); mem(k, 32, "ec_pubkey_create"); return sim_crypto_fault() ? 0 : secp256k1_ec_pubkey_create(c, p, k); }
int sim_secp256k1_ec_pubkey_parse(const secp256k1_context* c, secp256k1_pubkey* p, const unsigned char* i, size_t n) { cx(c, "secp256k1_ec_pubkey_parse"); mem(p, 64, "ec_pubkey_parse"); mem(i, n, "ec_pubkey_parse"); return secp256k1_ec_pubkey_parse(c, p, i, n); }
int sim_secp256k1_ec_pubkey_serialize(const secp256k1_context* c, unsigned char* o, size_t* n, const secp256k1_pubkey* p, unsigned f) { cx(c, "secp256k1_ec_pubkey_serialize"); mem(o, *n, "ec_pubkey_serialize"); return secp256k1_ec_pubkey_serialize(c, o, n, p, f); }
int sim_secp256k1_ec_seckey_tweak_add(const secp256k1_context* c, unsigned char* k, const unsigned char* t) { cx(c, "secp256k1_ec_seckey_tweak_add"); mem(k, 32, "tweak_add"); mem(t, 32, "tweak_add"); return sim_crypto_fault() ? 0 : secp256k1_ec_seckey_tweak_add(c, k, t); }
int sim_secp256k1_ec_seckey_verify(const secp256k1_context* c, const unsigned char* k) { cx(c, "secp256k1_ec_seckey_verify"); mem(k, 32, "seckey_verify"); return secp256k1_ec_seckey_verify(c, k); }
int sim_secp256k1_ecdh(const secp256k1_context* c, unsigned char* o, const secp256k1_pubkey* p, const unsigned char* k, secp256k1_ecdh_hash_function h, void* d) { cx(c, "secp256k1_ecdh"); mem(o, 32, "ecdh"); mem(k, 32, "ecdh"); return sim_crypto_fault() ? 0 : secp256k1_ecdh(c, o, p, k, h, d); }
int sim_secp256k1_keypair_create(const secp256k1_context* c, secp256k1_keypair* p, const unsigned char* k) { cx(c, "secp256k1_keypair_create"); mem(p, 96, "keypair_create"); mem(k, 32, "keypair_create"); return sim_crypto_fault() ? 0 : secp256k1_keypair_create(c, p, k); }
int sim_secp256k1_keypair_xonly_pub(const secp256k1_context* c, secp256k1_xonly_pubkey* x, int* y, const secp256k1_keypair* p) { cx(c, "secp256k1_keypair_xonly_pub"); return sim_crypto_fault() ? 0 : secp256k1_keypair_xonly_pub(c, x, y, p); }
int sim_secp256k1_schnorrsig_sign32(const secp256k1_context* c, unsigned char* s, const unsigned char* m, const secp256k1_keypair* k, const unsigned char* a) { cx(c, "secp256k1_schnorrsig_sign32"); mem(s, 64, "schnorrsig_sign"); mem(m, 32, "schnorrsig_sign"); mem(a, 32, "schnorrsig_sign"); return sim_crypto_fault() ? 0 : secp256k1_schnorrsig_sign32(c, s, m, k, a); }
int sim_secp256k1_schnorrsig_verify(const secp256k1_context* c, const unsigned char* s, const unsigned char* m, size_t n, const secp256k1_xonly_pubkey* p) { cx(c, "secp256k1_schnorrsig_verify"); mem(s, 64, "schnorrsig_verify"); mem(m, n, "schnorrsig_verify"); return secp256k1_schnorrsig_verify(c, s, m, n, p); }
int sim_secp256k1_xonly_pubkey_from_pubkey(const secp256k1_context* c, secp256k1_xonly_pubkey* x, int* y, const secp256k1_pubkey* p) { cx(c, "secp256k1_xonly_pubkey_from_pubkey"); return sim_crypto_fault() ? 0 : secp256k1_xonly_pubkey_from_pubkey(c, x, y, p); }
int sim_secp256k1_xonly_pubkey_parse(const secp256k1_context* c, secp256k1_xonly_pubkey* x, const unsigned char* i) { cx(c, "secp256k1_xonly_pubkey_parse"); mem(i, 32, "xonly_pubkey_parse"); return secp256k1_xonly_pubkey_parse(c, x, i); }
int sim_secp256k1_xonly_pubkey_serialize(const secp256k1_context* c, unsigned char* o, const secp256k1_xonly_pubkey* x) { cx(c, "secp256k1_xonly_pubkey_serialize"); mem(o, 32, "xonly_pubkey_serialize"); return sim_crypto_fault() ? 0 : secp256k1_xonly_pubkey_serialize(c, o, x); }
}
#if defined(VARIANT_MBED) || defined(VARIANT_NOSM)
#include <mbedtls/ctr_drbg.h>
#include <mbedtls/entropy.h>
struct Drbg { bool init = false, seeded = false; uint64_t counter = 0; uint64_t seed = 0; int inflight = 0; };
bool sim_rng_scripted(unsigned char* b, size_t n);
static std::map<const void*, Drbg> drbgs;
static std::map<const void*, bool> ents;
extern "C" {
void sim_mbedtls_ctr_drbg_init(mbedtls_ctr_drbg_context* c) { sim_point(); Drbg& d = drbgs[c]; if (d.init && d.seeded) violate("rng-reinit", "the random generator state was re-initialised while in use"); d = Drbg(); d.init = true; }
void sim_mbedtls_ctr_drbg_free(mbedtls_ctr_drbg_context* c) { sim_point(); Drbg& d = drbgs[c]; if (d.inflight) violate("rng-freed-in-use", "the random generator was freed during a draw"); d = Drbg(); }
void sim_mbedtls_entropy_init(mbedtls_entropy_context* c) { sim_point(); if (ents[c]) violate("rng-entropy-reinit", "the entropy source was initialised twice without being released"); ents[c] = true; }
void sim_mbedtls_entropy_free(mbedtls_entropy_context* c) { sim_point(); ents[c] = false; }
int sim_mbedtls_entropy_func(void*, unsigned char* o, size_t n) { sim_rng_raw(o, n); return 0; }
int sim_mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context* c, int (*f)(void*, unsigned char*, size_t), void* p, const unsigned char*, size_t) {
    sim_point(); Drbg& d = drbgs[c];
    if (!d.init) violate("rng-uninitialised", "the random generator was seeded before initialisation");
    unsigned char b[48]; Faults& ft = faults(); ft.rngs++;
    if (ft.rng_at == 0) { if (--ft.rng_run <= 0) ft.rng_at = -1; ft.fired++; ft.fired_rng++; count("fault.rng_seed"); slog("fault: entropy source fails"); return MBEDTLS_ERR_CTR_DRBG_ENTROPY_SOURCE_FAILED; }
    if (ft.rng_at > 0) ft.rng_at--;
    sim_rng_raw(b, 16); (void)f; (void)p; memcpy(&d.seed, b, 8); d.seeded = true; d.counter = 0; return 0;
}
int sim_mbedtls_ctr_drbg_random(void* p, unsigned char* o, size_t n) {
    sim_point(); Drbg& d = drbgs[p];
    if (!d.seeded) violate("rng-unseeded", "random bytes were drawn from a generator that was never seeded");
    if (n > MBEDTLS_CTR_DRBG_MAX_REQUEST) return MBEDTLS_ERR_CTR_DRBG_REQUEST_TOO_BIG;
    Faults& ft = faults(); ft.rngs++;
    if (ft.rng_at == 0) { if (--ft.rng_run <= 0) ft.rng_at = -1; ft.fired++; ft.fired_rng++; count("fault.rng"); slog("fault: random source fails"); if (ft.rng_dirty && n > 1) memset(o, 0x5a, n / 2); return MBEDTLS_ERR_CTR_DRBG_ENTROPY_SOURCE_FAILED; }
    if (ft.rng_at > 0) ft.rng_at--;
    uint64_t ctr = d.counter; d.inflight++;
    sim_point(); sim_yield();                          // not reentrant: state is read, used and written back
    unsigned char h[32]; size_t off = 0;
    while (off < n) { uint64_t in[2] = {d.seed, ctr++}; SHA256((unsigned char*)in, 16, h); size_t k = n - off < 32 ? n - off : 32; memcpy(o + off, h, k); off += k; sim_point(); }
    d.counter = ctr; d.inflight--;
    sim_rng_scripted(o, n);
    if (n >= 16) rng_note(std::string((char*)o, n));
    ft.rng_bytes += n;
    return 0;
}
}
#endif
