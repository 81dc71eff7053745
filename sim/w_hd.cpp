// C11: recovery phrases and hierarchical keys are exactly BIP-39's, BIP-32's and NIP-06's, or nothing
#include "op.h"
#include <openssl/hmac.h>
#include <utf8proc.h>
#include "data/bip39_english.h"
#ifdef HAVE_UTF8PROC
static const bool have_utf8 = true;
#else
static const bool have_utf8 = false;
#endif
struct RefHd { std::string sk, pk, cc; bool ok = false; };
static std::string hmac512(const std::string& k, const std::string& d) { unsigned char o[64]; unsigned n = 64; HMAC(EVP_sha512(), k.data(), (int)k.size(), (const unsigned char*)d.data(), d.size(), o, &n); return std::string((char*)o, 64); }
static RefHd ref_master(const std::string& seed) { RefHd r; if (seed.size() < 16 || seed.size() > 64) return r; std::string h = hmac512("Bitcoin seed", seed); r.sk = h.substr(0, 32); r.cc = h.substr(32); r.pk = ref_pub(r.sk); r.ok = !r.pk.empty(); return r; }
static RefHd ref_child(const RefHd& p, uint32_t i) {
    std::string d; if (i >> 31) d = std::string(1, 0) + p.sk; else { secp256k1_pubkey k; unsigned char c[33]; size_t n = 33; if (!secp256k1_ec_pubkey_create(refctx(), &k, (const unsigned char*)p.sk.data())) return {}; secp256k1_ec_pubkey_serialize(refctx(), c, &n, &k, SECP256K1_EC_COMPRESSED); d.assign((char*)c, 33); }
    for (int b = 24; b >= 0; b -= 8) d += (char)(i >> b); std::string h = hmac512(p.cc, d); RefHd r; unsigned char k[32]; memcpy(k, p.sk.data(), 32); if (!secp256k1_ec_seckey_tweak_add(refctx(), k, (const unsigned char*)h.data())) return r;
    r.sk.assign((char*)k, 32); r.cc = h.substr(32); r.pk = ref_pub(r.sk); r.ok = true; return r;
}
static bool ref_path(const RefHd& m, const std::string& p, RefHd& out) {      // false: not a path
    if (p.empty() || p[0] != 'm') return false; RefHd c = m; size_t i = 1;
    while (i < p.size()) { if (p[i++] != '/') return false; size_t a = i; uint64_t v = 0; while (i < p.size() && isdigit((unsigned char)p[i])) { v = v * 10 + (p[i++] - '0'); if (v >> 40) v = 1ull << 40; } if (i == a || v >> 31) return false; if (i < p.size() && (p[i] == '\'' || p[i] == 'h')) { v |= 0x80000000; i++; } if (i < p.size() && p[i] != '/') return false; if (c.ok) c = ref_child(c, (uint32_t)v); }
    out = c; return true;
}
static const std::vector<std::string>& words() { static std::vector<std::string> w; if (w.empty()) for (int i = 0; i < 2048; i++) w.push_back(bip39_wordlist[i]); return w; }
static std::string phrase(const std::string& ent) { std::string e = ent + sha256(ent).substr(0, 1), r; int n = ent.size() == 16 ? 12 : 24; for (int i = 0; i < n; i++) { int v = 0; for (int b = 0; b < 11; b++) { int p = i * 11 + b; v = v * 2 + (((unsigned char)e[p / 8] >> (7 - p % 8)) & 1); } r += (i ? " " : "") + words()[v]; } return r; }
static bool ref_phrase_ok(const std::string& t, std::string* ent = nullptr) {
    std::vector<int> ix; size_t a = 0; while (a <= t.size()) { size_t b = t.find(' ', a); std::string w = t.substr(a, b == std::string::npos ? b : b - a); auto it = std::find(words().begin(), words().end(), w); if (it == words().end()) return false; ix.push_back((int)(it - words().begin())); if (b == std::string::npos) break; a = b + 1; }
    if (ix.size() != 12 && ix.size() != 24) return false; size_t eb = ix.size() == 12 ? 16 : 32; std::string bits; for (int v : ix) for (int b = 10; b >= 0; b--) bits += (char)('0' + (v >> b & 1)); std::string e; for (size_t i = 0; i < eb; i++) e += (char)strtol(bits.substr(i * 8, 8).c_str(), 0, 2); if (ent) *ent = e; return phrase(e) == t;
}
static std::string nfkd(const std::string& s) { utf8proc_uint8_t* r = utf8proc_NFKD((const utf8proc_uint8_t*)s.c_str()); std::string o = r ? (char*)r : ""; ::free(r); return o; }
static std::string ref_seed(const std::string& m, const std::string& pass) { std::string salt = "mnemonic" + nfkd(pass), mm = nfkd(m); unsigned char o[64]; PKCS5_PBKDF2_HMAC(mm.data(), (int)mm.size(), (const unsigned char*)salt.data(), (int)salt.size(), 2048, EVP_sha512(), 64, o); return std::string((char*)o, 64); }
static bool ascii(const std::string& s) { for (unsigned char c : s) if (c > 127) return false; return true; }
struct C11 { int kinds = 0, pct = 0; std::set<std::string> phrases; };
static C11* w11;
static std::string S(const void* p, size_t n = 32) { return std::string((const char*)p, n); }
static void check_hd(nostr_error_t rc, const nostr_hd_key& k, const RefHd& want, bool fired, const std::string& what) {
    if (rc == NOSTR_OK) { if (!want.ok) violate("hd-accepts", "%s succeeds although there is no such key", what.c_str()); if (S(k.privkey.data) != want.sk || S(k.chain_code) != want.cc || S(k.pubkey.data) != want.pk) violate("hd-wrong", "%s gives private key %s (%s), public key %s, chain code %s", what.c_str(), hex(k.privkey.data, 32).c_str(), S(k.privkey.data) == want.sk ? "right" : "wrong", S(k.pubkey.data) == want.pk ? "right" : "wrong", S(k.chain_code) == want.cc ? "right" : "wrong"); count("hd_ok"); }
    else { if (want.ok && !fired) violate("hd-failed", "%s fails: %s", what.c_str(), nostr_error_string(rc)); if (!all_zero(k.privkey.data, 32)) { bool pattern = true; for (int i = 0; i < 32; i++) if (k.privkey.data[i] != 0xA5) pattern = false; if (!pattern) violate("partial-key", "%s failed but left the private key %s", what.c_str(), hex(k.privkey.data, 32).c_str()); } count("hd_failed"); }
}
static std::string gen_path(const Src& s) {
    static const std::vector<std::string> comp = {"0", "1", "44'", "1237'", "0'", "2147483647", "2147483647'", "5h", "00", "007'", "123456789"}, odd = {"2147483648", "4294967296", "4294967295", "-1", "+1", " 1", "1 ", "'", "h", "1''", "1'h", "a", "0x1", "18446744073709551616", "-4294967295", "1.0", "99999999999999999999", "4294967297'", "1H", "m"};
    std::string p = "m"; int n = (int)s(6); for (int i = 0; i < n; i++) p += "/" + s.of(comp); if (s(3) == 2) { if (!n || s(2)) p += "/" + s.of(odd); else switch (s(5)) { case 0: p[0] = 'M'; break; case 1: p = p.substr(1); break; case 2: p = " " + p; break; case 3: p = "x" + p; break; default: p = ""; } } return p;
}
static std::string gen_ent(const Src& s) { int n = s(2) ? 16 : 32; switch (s(5)) { case 0: return std::string(n, 0); case 1: return std::string(n, (char)0xff); case 2: return std::string(n, 0x7f); default: return unhex(gen_hex(s, n)); } }
static std::string gen_pass(const Src& s) { static const std::vector<std::string> p = {"", "TREZOR", "pass word", "é", "e\xcc\x81", "\xe2\x85\xa7", "漢字", "\xef\xac\x81", "  ", "\xf0\x9f\x8e\x89"}; std::string r = s.of(p) + (s(3) == 2 ? gen_name(s, 90) : ""); if (s(6) == 5) { static const std::vector<int> n = {63, 64, 118, 119, 120, 127, 128, 129, 200, 247, 248, 255, 256, 257, 263, 264, 300, 511, 512, 513, 520, 700, 1000, 1100}; r.resize((size_t)std::max<int>(s.of(n), (int)r.size()), 'p'); r += gen_name(s, 4); } return r; }   // the long ones differ at their end
static void c11_thread(int id) {
    C11& w = *w11; Src s = src("actor", id); int ops = 2 + (int)s(8);
    for (int i = 0; i < ops; i++) {
        Leak lk; size_t r0 = rng_log().size(); nostr_hd_key k; memset(&k, 0xA5, sizeof k);
        switch (s(8)) {
        case 0: { size_t n = s(4) ? 16 + s(49) : s(80); if (s(6) == 5) { static const std::vector<int> e = {0, 15, 16, 17, 63, 64, 65, 128}; n = s.of(e); } std::string seed = unhex(gen_hex(s, (int)n)); Buf b(n); memcpy(b.c(), seed.data(), n); arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_hd_key_from_seed(b.u(), n, &k); Faults f = disarm(); check_hd(rc, k, ref_master(seed), f.fired, "nostr_hd_key_from_seed(" + std::to_string(n) + " bytes)"); break; }
        case 1: { RefHd m = ref_master(sha256("m" + std::to_string(s(50)))); nostr_hd_key p; memcpy(p.privkey.data, m.sk.data(), 32); memcpy(p.pubkey.data, m.pk.data(), 32); memcpy(p.chain_code, m.cc.data(), 32); nostr_hd_key p0 = p; static const std::vector<uint32_t> ix = {0, 1, 0x80000000u, 0x80000001u, 0x7fffffffu, 0xffffffffu, 255, 256, 65536}; uint32_t idx = s(2) ? s.of(ix) : (uint32_t)s.u64(); bool inplace = s(4) == 3;
            arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_hd_key_derive(&p, idx, inplace ? &p : &k); Faults f = disarm();
            if (inplace) { if (rc == NOSTR_OK) check_hd(rc, p, ref_child(m, idx), f.fired, "nostr_hd_key_derive in place, index " + std::to_string(idx)); else if (!f.fired) violate("hd-failed", "nostr_hd_key_derive in place fails: %s", nostr_error_string(rc)); break; }
            check_hd(rc, k, ref_child(m, idx), f.fired, "nostr_hd_key_derive(" + std::to_string(idx) + ")"); if (memcmp(&p, &p0, sizeof p)) violate("key-changed", "deriving a child changed the parent"); break; }
        case 2: case 3: { RefHd m = ref_master(sha256("m" + std::to_string(s(50)))), want; nostr_hd_key p; memcpy(p.privkey.data, m.sk.data(), 32); memcpy(p.pubkey.data, m.pk.data(), 32); memcpy(p.chain_code, m.cc.data(), 32); std::string path = gen_path(s); if (!ref_path(m, path, want)) want = {};
            CStr cp(path); arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_hd_key_derive_path(&p, cp, &k); Faults f = disarm(); check_hd(rc, k, want, f.fired, "nostr_hd_key_derive_path(\"" + path + "\")");
            if (rc == NOSTR_OK) { nostr_keypair kp; if (nostr_hd_key_to_keypair(&k, &kp) != NOSTR_OK || !kp.initialized || S(kp.privkey.data) != want.sk || S(kp.pubkey.data) != want.pk) violate("hd-wrong", "nostr_hd_key_to_keypair gives other keys"); } break; }
        case 4: { int n = s(6) ? (s(2) ? 12 : 24) : (int)s(30); size_t size = s(3) ? 256 : s(260); Buf b(size, 0); size_t ask = size; arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_mnemonic_generate(n, b.c(), ask); Faults f = disarm(); bool okn = n == 12 || n == 24; std::string got = size && memchr(b.c(), 0, size) ? b.c() : S(b.c(), size), ent;
            if (rc == NOSTR_OK) { if (!okn) violate("phrase-count", "a phrase of %d words is generated", n); if (!memchr(b.c(), 0, size)) violate("phrase-unterminated", "the phrase is not terminated"); if (!ref_phrase_ok(got, &ent) || (int)ent.size() != (n == 12 ? 16 : 32)) violate("phrase-invalid", "the generated phrase '%s' is not a BIP-39 phrase of %d words", got.c_str(), n);
                bool drawn = false; for (auto& d : rng_mine(r0)) if (d == ent) drawn = true; if (!drawn) violate("not-random", "the phrase '%s' does not come from fresh randomness", got.c_str()); if (!w.phrases.insert(got).second) violate("phrase-reuse", "the phrase '%s' is generated twice", got.c_str()); count("phrase_generated"); }
            else { if (okn && size >= 24 * 9 && !f.fired) violate("phrase-failed", "no phrase is generated: %s", nostr_error_string(rc)); if (!all_zero(b.c(), size)) { bool words_left = got.find(' ') != std::string::npos || got.size() >= 3; if (words_left) violate("partial-phrase", "a failed nostr_mnemonic_generate left '%s'", got.c_str()); } count("phrase_failed"); }
            break; }
        case 5: { std::string t = phrase(gen_ent(s)); if (s(3)) { std::vector<std::string> v; size_t a = 0; for (;;) { size_t b = t.find(' ', a); v.push_back(t.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
                switch (s(9)) { case 0: std::swap(v[s((uint32_t)v.size())], v[s((uint32_t)v.size())]); break; case 1: v[s((uint32_t)v.size())] = words()[s(2048)]; break; case 2: v.pop_back(); break; case 3: v.push_back(words()[s(2048)]); break; case 4: { auto& x = v[s((uint32_t)v.size())]; x[s((uint32_t)x.size())] = (char)('a' + s(26)); break; } case 5: v[s((uint32_t)v.size())] = "zzzz"; break; case 6: { auto& x = v[s((uint32_t)v.size())]; x[0] = (char)toupper(x[0]); break; } case 7: v[s((uint32_t)v.size())] += "s"; break; default: { int k = 15 + 3 * (int)s(3); v.resize(k, "abandon"); } }
                t.clear(); for (auto& x : v) t += (t.empty() ? "" : " ") + x; } CStr ct(t); arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_mnemonic_validate(ct); Faults f = disarm(); bool ok = ref_phrase_ok(t);
            if (rc == NOSTR_OK && !ok) violate("phrase-accepted", "the wrong phrase '%s' is accepted", t.c_str()); if (rc != NOSTR_OK && ok && !f.fired) violate("phrase-refused", "the phrase '%s' is refused", t.c_str()); count(ok ? "phrase_good" : "phrase_bad"); break; }
        default: {                                             // phrase to seed or keys
            std::string t = phrase(gen_ent(s)), pass = gen_pass(s); bool bad = s(6) == 5, nopass = s(3) == 2; if (bad) { t[s((uint32_t)t.size())] = '#'; } if (nopass) pass = ""; CStr ct(t), cp(pass); const char* pp = nopass ? nullptr : (const char*)cp; bool can = !bad && (have_utf8 || ascii(pass));
            if (s(2)) { Buf seed(64, 0x5A); arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_mnemonic_to_seed(ct, pp, seed.u()); Faults f = disarm(); if (rc == NOSTR_OK && !can) violate("seed-accepted", "a seed is derived from '%s'", t.c_str()); if (rc == NOSTR_OK && S(seed.c(), 64) != ref_seed(t, pass)) violate("seed-wrong", "the seed of '%s' with passphrase '%s' is wrong", t.c_str(), pass.c_str()); if (rc != NOSTR_OK && can && !f.fired) violate("seed-failed", "no seed: %s", nostr_error_string(rc)); count("seed"); break; }
            static const std::vector<uint32_t> acc = {0, 1, 2, 100, 0x7fffffffu, 0x80000000u, 0xffffffffu}; uint32_t a = s(4) ? s.of(acc) : (uint32_t)s.u64(); RefHd want; bool okp = can && ref_path(ref_master(ref_seed(t, pass)), "m/44'/1237'/" + std::to_string(a) + "'/0/0", want); if (!okp) want = {};
            nostr_keypair kp; memset(&kp, 0, sizeof kp); bool had = s(2); if (had) { RefKey r = key_no(3); memcpy(kp.privkey.data, r.sk.data(), 32); memcpy(kp.pubkey.data, r.pk.data(), 32); kp.initialized = 1; } nostr_keypair old = kp;
            arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_mnemonic_to_keypair(ct, pp, a, &kp); Faults f = disarm();
            if (rc == NOSTR_OK) { if (!want.ok) violate("hd-accepts", "account %u of '%s' gives a key", a, t.c_str()); if (!kp.initialized || S(kp.privkey.data) != want.sk || S(kp.pubkey.data) != want.pk) violate("nip06-wrong", "the key of account %u of '%s' is wrong", a, t.c_str()); }
            else { if (want.ok && !f.fired) violate("nip06-failed", "no key for account %u of '%s': %s", a, t.c_str(), nostr_error_string(rc)); if (kp.initialized && memcmp(&kp, &old, sizeof kp)) violate("partial-key", "a failed nostr_mnemonic_to_keypair left another key pair"); }
            count("nip06"); break; }
        }
        lk.check("an HD operation");
    }
}
static void c11_hd() {
    C11 w; w11 = &w; Src g("cfg"); std::string all; for (auto& x : words()) all += x + "\n"; if (hex(sha256(all).data(), 32) != "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda") violate("word-list", "the word list is not BIP-39's English one");
    sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 1 + (int)g(3); w.kinds = (int)g(8); w.pct = w.kinds ? 35 : 0; if (g(2) && nostr_init() != NOSTR_OK) violate("init", "nostr_init fails");
    int rounds = 1 + (int)g(2); for (int r = 0; r < rounds; r++) { for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, r] { c11_thread(r * 10 + i); }); sim_join_spawned(); if (g(2)) nostr_cleanup(); }
    nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C11, hd, c11_hd)
