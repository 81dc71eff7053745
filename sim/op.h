// One library call at a time under injected failures, with its leaks accounted.
#pragma once
#include "util.h"
#if defined(VARIANT_MIN) || defined(VARIANT_NOSJ)
static constexpr bool HAS_JSON = false;      // a build without cJSON reads and writes no JSON events
#else
static constexpr bool HAS_JSON = true;
#endif
enum { FAULT_ALLOC = 1, FAULT_RNG = 2, FAULT_CRYPTO = 4 };
// plan at most one burst of failures for the next calls of this thread
static inline void arm(const Src& s, int pct, int kinds, int span = 24) {
    faults() = Faults();
    if (!s.chance(pct, 100)) return;
    int k = 1 << s(3); if (!(k & kinds)) k = kinds & -kinds;
    int at = (int)s(s(3) ? (span < 6 ? span : 6) : span), run = s(4) ? 1 : s(2) ? 3 : 1 << 20; Faults& f = faults();
    if (k == FAULT_ALLOC) { f.alloc_at = at; f.alloc_run = run; } else if (k == FAULT_RNG) { f.rng_at = at % 3; f.rng_run = run; f.rng_dirty = s(2); } else { f.crypto_at = at % 8; f.crypto_run = run; }
}
static inline Faults disarm() { return faults_take(); }
struct Leak {
    uint64_t m = alloc_mark();
    void check(const char* what) { if (live_mine(m)) violate("memory-leak", "%s left %zu allocations: %s", what, live_mine(m), describe_live(m, true).c_str()); }
};
// a heap copy of exactly the right size, so that any overrun is seen
struct Buf { std::unique_ptr<char[]> p; size_t n; explicit Buf(size_t k, char fill = (char)0xAA) : p(new char[k ? k : 1]), n(k) { memset(p.get(), fill, k); } char* c() { return p.get(); } uint8_t* u() { return (uint8_t*)p.get(); } };
struct CStr { std::unique_ptr<char[]> p; explicit CStr(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.data(), s.size()); p[s.size()] = 0; } operator const char*() const { return p.get(); } };
static inline bool all_zero(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (c[i]) return false; return true; }
static inline bool sk_valid(const std::string& sk) { return sk.size() == 32 && secp256k1_ec_seckey_verify(refctx(), (const unsigned char*)sk.data()); }
static inline std::string ref_pub(const std::string& sk) { secp256k1_keypair kp; secp256k1_xonly_pubkey x; unsigned char p[32]; if (!secp256k1_keypair_create(refctx(), &kp, (const unsigned char*)sk.data())) return ""; secp256k1_keypair_xonly_pub(refctx(), &x, nullptr, &kp); secp256k1_xonly_pubkey_serialize(refctx(), p, &x); return std::string((char*)p, 32); }
static inline std::string curve_order() { return unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"); }
static inline std::string bad_sk(const Src& s) { std::string n = curve_order(); switch (s(4)) { case 0: return std::string(32, 0); case 1: return n; case 2: n[31]++; return n; default: return std::string(32, (char)0xff); } }
