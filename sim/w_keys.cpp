// C08: keys: fresh, valid, matching, exact in hex, agreed secrets; nothing usable comes out of a failure
#include "op.h"
#include <secp256k1_ecdh.h>
struct C08 { std::set<std::string> seen; int kinds = 0, pct = 0; };
static C08* w8;
// the secret two parties share: the x coordinate of sk * lift_x(pk)
static int copy_x(unsigned char* o, const unsigned char* x, const unsigned char*, void*) { memcpy(o, x, 32); return 1; }
std::string ref_ecdh(const std::string& sk, const std::string& pk) { unsigned char c[33], o[32]; c[0] = 2; memcpy(c + 1, pk.data(), 32); secp256k1_pubkey p; if (!secp256k1_ec_pubkey_parse(refctx(), &p, c, 33) || !secp256k1_ecdh(refctx(), o, &p, (const unsigned char*)sk.data(), copy_x, nullptr)) return ""; return std::string((char*)o, 32); }
static std::string S(const void* p, size_t n = 32) { return std::string((const char*)p, n); }
static void check_fresh(const std::string& sk, const std::string& pk, size_t r0, const char* what) {
    if (!sk_valid(sk)) violate("invalid-key", "%s produced the invalid private key %s", what, hex(sk.data(), 32).c_str());
    if (ref_pub(sk) != pk) violate("keys-mismatch", "%s produced a public key that is not the private key's", what);
    bool drawn = false; for (auto& b : rng_mine(r0)) if (b == sk) drawn = true;
    if (!drawn) violate("not-random", "%s produced a private key that is not a fresh random draw", what);
    if (!w8->seen.insert(sk).second) violate("key-reuse", "%s produced a private key a second time", what);
}
// a key pair that claims to be usable must be
static void check_pair(const nostr_keypair* k, const char* what) {
    const nostr_key* p = nostr_keypair_public_key(k); const nostr_privkey* q = nostr_keypair_private_key(k);
    char h1[65], h2[65]; nostr_error_t a = nostr_keypair_export_private_hex(k, h1, 65), b = nostr_keypair_export_public_hex(k, h2, 65);
    if (!k->initialized) { if (p || q || a == NOSTR_OK || b == NOSTR_OK || nostr_keypair_validate(k) == NOSTR_OK) violate("uninitialised-used", "an uninitialised key pair gives out keys after %s", what); return; }
    if (!p || !q || a != NOSTR_OK || b != NOSTR_OK) violate("pair-unusable", "an initialised key pair gives out no keys after %s", what);
    std::string sk = S(q->data), pk = S(p->data);
    if (!sk_valid(sk) || ref_pub(sk) != pk) violate("keys-mismatch", "after %s a key pair marked as initialised holds %s", what, sk_valid(sk) ? "a public key that is not the private key's" : "an invalid private key");
    if (S(k->privkey.data) != sk || S(k->pubkey.data) != pk || hex(sk.data(), 32) != h1 || hex(pk.data(), 32) != h2) violate("export", "a key pair exports other keys than it holds after %s", what);
}
static std::string gen_keyhex(const Src& s, std::string& want) {
    std::string raw; switch (s(5)) { case 0: raw = key_no((int)s(6)).sk; break; case 1: raw = bad_sk(s); break; case 2: raw = std::string(31, 0) + "\1"; break; case 3: raw = curve_order(); raw[31]--; break; default: raw = unhex(gen_hex(s, 32)); }
    std::string h = hex(raw.data(), 32); want = raw; bool up = s(3) == 2; if (up) for (auto& c : h) if (s(2)) c = (char)toupper(c);
    if (s(3)) return h;
    want.clear();                                             // ... or something that is not a key in hex
    switch (s(9)) { case 0: h.pop_back(); break; case 1: h += '0'; break; case 2: h = ""; break; case 3: h[s(64)] = "gG xX-+/:@`~\n\t"[s(14)]; break; case 4: h[2 * s(32)] = " +-\t\n\v"[s(6)]; break; case 5: h.replace(2 * s(32), 2, "0x"); break; case 6: h = h.substr(0, 32); break; case 7: h[s(64)] = (char)(0x80 + s(128)); break; default: h += h; }
    return h;
}
static void c08_thread(int id) {
    C08& w = *w8; Src s = src("actor", id); int ops = 3 + (int)s(10);
    for (int i = 0; i < ops; i++) {
        Leak lk; size_t r0 = rng_log().size();
        switch (s(9)) {
        case 0: {                                              // generate
            nostr_privkey sk; nostr_key pk; memset(&sk, 0xA5, 32); memset(&pk, 0xA5, 32); std::string was = S(sk.data);
            arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_key_generate(&sk, &pk); Faults f = disarm();
            if (rc == NOSTR_OK) { check_fresh(S(sk.data), S(pk.data), r0, "nostr_key_generate"); count("generated"); break; }
            if (!f.fired) violate("generate-failed", "nostr_key_generate fails with %s although nothing else does", nostr_error_string(rc));
            if (S(sk.data) != was && !all_zero(sk.data, 32)) violate("partial-key", "a failed nostr_key_generate left %s as private key", hex(sk.data, 32).c_str());
            if ((rc = nostr_key_generate(&sk, &pk)) != NOSTR_OK) violate("no-recovery", "nostr_key_generate fails after an earlier failure: %s", nostr_error_string(rc));
            check_fresh(S(sk.data), S(pk.data), r0, "nostr_key_generate"); break; }
        case 1: case 2: case 3: {                              // the life of a key pair
            nostr_keypair k; nostr_keypair_init(&k); if (k.initialized || !all_zero(&k.privkey, 32)) violate("init", "nostr_keypair_init leaves a key"); int steps = 1 + (int)s(4);
            for (int j = 0; j < steps; j++) {
                r0 = rng_log().size(); std::string before = S(k.privkey.data), want; int was = k.initialized; arm(s, w.pct, w.kinds); nostr_error_t rc; Faults f; const char* what;
                switch (s(4)) {
                case 0: what = "nostr_keypair_generate"; rc = nostr_keypair_generate(&k); f = disarm(); if (rc == NOSTR_OK) check_fresh(S(k.privkey.data), S(k.pubkey.data), r0, what); else if (!f.fired) violate("generate-failed", "%s fails: %s", what, nostr_error_string(rc)); break;
                case 1: { what = "nostr_keypair_from_private_hex"; CStr h(gen_keyhex(s, want)); rc = nostr_keypair_from_private_hex(&k, h); f = disarm(); bool ok = sk_valid(want); if (rc == NOSTR_OK && (!ok || S(k.privkey.data) != want)) violate("bad-import", "%s accepts '%s' as %s", what, (const char*)h, hex(k.privkey.data, 32).c_str()); if (rc != NOSTR_OK && ok && !f.fired) violate("import-refused", "%s refuses '%s': %s", what, (const char*)h, nostr_error_string(rc)); break; }
                case 2: { what = "nostr_keypair_from_private_key"; std::unique_ptr<nostr_privkey> p(new nostr_privkey); want = s(3) ? key_no((int)s(6)).sk : bad_sk(s); memcpy(p->data, want.data(), 32); rc = nostr_keypair_from_private_key(&k, p.get()); f = disarm(); bool ok = sk_valid(want); if (rc == NOSTR_OK && (!ok || S(k.privkey.data) != want)) violate("bad-import", "%s imports %s as %s", what, hex(want.data(), 32).c_str(), hex(k.privkey.data, 32).c_str()); if (rc != NOSTR_OK && ok && !f.fired) violate("import-refused", "%s refuses %s: %s", what, hex(want.data(), 32).c_str(), nostr_error_string(rc)); if (S(p->data) != want) violate("key-changed", "%s changed its argument", what); break; }
                default: { what = "nostr_keypair_destroy"; nostr_keypair_destroy(&k); f = disarm(); rc = NOSTR_OK; if (k.initialized || !all_zero(&k.privkey, 32) || !all_zero(&k.pubkey, 32)) violate("not-wiped", "a destroyed key pair still holds a key"); was = 0; before = ""; continue; }
                }
                if (rc == NOSTR_OK && !k.initialized) violate("pair-unusable", "%s succeeds but the pair is not initialised", what);
                if (rc != NOSTR_OK && !(was && S(k.privkey.data) == before) && !all_zero(&k.privkey, 32) && S(k.privkey.data) != before) violate("partial-key", "a failed %s left another private key behind", what);
                check_pair(&k, what); count(rc == NOSTR_OK ? "pair_ok" : "pair_failed");
            }
            nostr_keypair_destroy(&k); break; }
        case 4: {                                              // validate
            nostr_keypair k; memset(&k, 0, sizeof k); RefKey r = key_no((int)s(6)); memcpy(k.privkey.data, r.sk.data(), 32); memcpy(k.pubkey.data, r.pk.data(), 32); k.initialized = 1;
            switch (s(6)) { case 0: k.privkey.data[s(32)] ^= 1 << s(8); break; case 1: k.pubkey.data[s(32)] ^= 1 << s(8); break; case 2: memcpy(k.pubkey.data, key_no(7).pk.data(), 32); break; case 3: memcpy(k.privkey.data, bad_sk(s).data(), 32); break; default:; }
            bool good = sk_valid(S(k.privkey.data)) && ref_pub(S(k.privkey.data)) == S(k.pubkey.data); nostr_keypair c = k; arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_keypair_validate(&k); Faults f = disarm();
            if (rc == NOSTR_OK && !good) violate("validate-accepts", "nostr_keypair_validate accepts keys that do not belong together");
            if (rc != NOSTR_OK && good && !f.fired) violate("validate-refuses", "nostr_keypair_validate refuses a good pair: %s", nostr_error_string(rc));
            if (memcmp(&c, &k, sizeof k)) violate("key-changed", "nostr_keypair_validate changed the pair"); count("validated"); break; }
        case 5: {                                              // hex in
            std::string want; CStr h(gen_keyhex(s, want)); std::unique_ptr<nostr_privkey> p(new nostr_privkey); std::unique_ptr<nostr_key> q(new nostr_key);
            bool priv = s(2); arm(s, w.pct, w.kinds); nostr_error_t rc = priv ? nostr_privkey_from_hex(h, p.get()) : nostr_key_from_hex(h, q.get()); disarm(); std::string got = S(priv ? p->data : q->data);
            if ((rc == NOSTR_OK) != !want.empty()) violate("hex", "a %s key in hex '%s' is %s", priv ? "private" : "public", (const char*)h, rc == NOSTR_OK ? "accepted" : "refused");
            if (rc == NOSTR_OK && got != want) violate("hex", "hex '%s' is read as %s", (const char*)h, hex(got.data(), 32).c_str()); count("hex_in"); break; }
        case 6: {                                              // hex out, exact buffers
            std::string raw = unhex(gen_hex(s, 32)); nostr_privkey p; nostr_key q; memcpy(p.data, raw.data(), 32); memcpy(q.data, raw.data(), 32); size_t n = s(3) ? 65 : s(2) ? 64 : s(130); Buf b(n); bool priv = s(2);
            nostr_error_t rc = priv ? nostr_privkey_to_hex(&p, b.c(), n) : nostr_key_to_hex(&q, b.c(), n);
            if ((rc == NOSTR_OK) != (n >= 65)) violate("hex", "writing a key to a buffer of %zu bytes: %s", n, nostr_error_string(rc));
            if (rc == NOSTR_OK && hex(raw.data(), 32) != b.c()) violate("hex", "key %s is written as %s", hex(raw.data(), 32).c_str(), b.c());
            if (s(2)) { size_t len = s(70); std::string h = gen_hex(s, (int)len), t = h; bool bad = s(3) == 2 && len; if (bad) t[s((uint32_t)t.size())] = "gG xX-+/:@`"[s(11)]; if (s(6) == 5) { t += 'a'; bad = true; } size_t cap = s(3) ? len : s(80); Buf o(cap, (char)0x5A); CStr ct(t); int r = nostr_hex_decode(ct, o.u(), cap); bool ok = !bad && len <= cap;
                if (r != (ok ? (int)len : -1)) violate("hex-decode", "nostr_hex_decode('%s', %zu bytes) = %d", t.c_str(), cap, r); if (ok && S(o.c(), len) != unhex(h)) violate("hex-decode", "nostr_hex_decode('%s') is wrong", t.c_str());
                if (ok) { Buf e(2 * len + 1); nostr_hex_encode(o.u(), len, e.c()); if (h != e.c()) violate("hex-encode", "nostr_hex_encode gives %s for %s", e.c(), h.c_str()); } }
            { size_t len = s(70); Buf x(len, (char)0x33), y(len, (char)0x33); bool diff = len && s(2); if (diff) y.u()[s((uint32_t)len)] ^= 1 << s(8); if ((nostr_constant_time_memcmp(x.u(), y.u(), len) == 0) != !diff) violate("compare", "nostr_constant_time_memcmp is wrong on %zu bytes", len); size_t k = s((uint32_t)len + 1); secure_wipe(x.u(), k); for (size_t z = 0; z < len; z++) if (x.u()[z] != (z < k ? 0 : 0x33)) violate("wipe", "secure_wipe(%zu) of %zu bytes: byte %zu is %02x", k, len, z, x.u()[z]); }
            count("hex_out"); break; }
        case 7: {                                              // shared secrets
            RefKey a = key_no((int)s(8)), b = key_no((int)s(8)); nostr_privkey p; nostr_key q; memcpy(p.data, a.sk.data(), 32); memcpy(q.data, b.pk.data(), 32); int spoil = (int)s(8);
            if (spoil == 1) memcpy(p.data, bad_sk(s).data(), 32); if (spoil == 2) memcpy(q.data, (s(2) ? curve_order() : unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")).data(), 32); if (spoil == 3) memset(q.data, 0, 32); if (spoil == 4) q.data[s(32)] ^= 1 << s(8);
            std::string want = ref_ecdh(S(p.data), S(q.data)); Buf o(32); arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_key_ecdh(&p, &q, o.u()); Faults f = disarm();
            if (rc == NOSTR_OK && want.empty()) violate("ecdh-invalid", "a shared secret is computed from an invalid key");
            if (rc == NOSTR_OK && S(o.c()) != want) violate("ecdh", "the shared secret is %s, not the x coordinate %s of the shared point", hex(o.c(), 32).c_str(), hex(want.data(), 32).c_str());
            if (rc != NOSTR_OK && !want.empty() && !f.fired) violate("ecdh-failed", "no shared secret for valid keys: %s", nostr_error_string(rc)); count("ecdh"); break; }
        default: {                                             // raw randomness
            size_t n = s(3) ? s(100) : 1000 + s(3000); Buf b(n, 0); arm(s, w.pct, w.kinds & FAULT_RNG); int ok = nostr_random_bytes(b.u(), n); Faults f = disarm(); if (!ok && !f.fired) violate("random", "nostr_random_bytes fails without a cause");
            if (ok) { std::string drawn; for (auto& d : rng_mine(r0)) drawn += d; if (n >= 16 && drawn.substr(0, n) != S(b.c(), n) && drawn != S(b.c(), n)) { for (size_t k = 0; k + 8 <= n; k += 8) if (all_zero(b.c() + k, 8)) violate("random", "nostr_random_bytes succeeds but leaves bytes %zu.. of %zu unwritten", k, n); } } count("random"); break; }
        }
        lk.check("a key operation");
    }
}
static void c08_keys() {
    C08 w; w8 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 1 + (int)g(3); w.kinds = (int)g(8); w.pct = w.kinds ? 35 : 0;
    // sometimes the generator returns values that are no private keys
    static int bad; bad = 0; if (g(3) == 2) { static Src rs("rng"); rng_script([](unsigned char* b, size_t n) { if (n != 32 || rs(4) || bad > 40) return false; bad++; memcpy(b, bad_sk(rs).data(), 32); count("fault.unusable_random"); return true; }); }
    if (g(2) && nostr_init() != NOSTR_OK) violate("init", "nostr_init fails");
    int rounds = 1 + (int)g(2);
    for (int r = 0; r < rounds; r++) { for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, r] { c08_thread(r * 10 + i); }); sim_join_spawned(); if (g(2)) nostr_cleanup(); }
    if (g(16) == 15) {                                         // a generator that never gives a usable key
        rng_script([](unsigned char* b, size_t n) { if (n != 32) return false; memset(b, 0xff, 32); return true; }); if (g(2)) { nostr_privkey sk; nostr_key pk; memset(&sk, 0x5a, 32); memset(&pk, 0x5a, 32); if (nostr_key_generate(&sk, &pk) == NOSTR_OK) violate("invalid-key", "a key is generated from a random source that gives no valid key"); if (!all_zero(&sk, 32) && *(unsigned char*)&sk != 0x5a) violate("partial-key", "a failed nostr_key_generate gives out a key"); }
        nostr_keypair k; nostr_keypair_init(&k); nostr_error_t rc = nostr_keypair_generate(&k);
        if (rc == NOSTR_OK || k.initialized || !all_zero(&k.privkey, 32)) violate("invalid-key", "a key pair is generated from a random source that gives no valid key"); count("fault.unusable_random"); }
    rng_script(nullptr); nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts());
    if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C08, keys, c08_keys)
