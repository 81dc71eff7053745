// C22: encrypted payloads (NIP-44 v2, legacy NIP-04) — exactly the published format, for the two parties only, unaltered or not at all
#include "nip44_ref.h"
#if defined(VARIANT_NOS) || defined(VARIANT_NOSM) || defined(VARIANT_NOSJ)
struct C22 { int kinds = 0, pct = 0; std::map<std::string, std::string> nonces; };
static C22* w22;
static std::string gen_bytes(const Src& s, size_t n) { std::string r; r.reserve(n); uint64_t x = s.u64() | 1; bool text = s(2); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; r += text ? (char)('a' + (x >> 40) % 26) : (char)(x >> 40); } if (s(3) == 2 && n < 3000) r = gen_text(s, (int)n); if (s(3) == 2 && r.size() > 2) r[r.size() / 2] = 0; return r.substr(0, n); }
static size_t gen_len(const Src& s) {
    static const std::vector<size_t> edge = {1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 255, 256, 257, 319, 320, 321, 383, 384, 385, 511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4097};
    static const std::vector<size_t> big = {0, 65535, 65534, 65536, 65537, 57345, 57344, 40961, 32768, 32769, 49153, 70000};
    switch (s(10)) { case 0: case 1: case 2: return 1 + s(40); case 3: case 4: case 5: return s.of(edge); case 6: return 1 + s(600); case 7: return 1 + s(6000); case 8: return s(2) ? s.of(big) : 1 + s(300); default: return 1 + s(100); }
}
static std::string aes_cbc(const std::string& key, const std::string& iv, const std::string& in, bool enc, bool& ok) { EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); std::string o(in.size() + 32, 0); int l = 0, m = 0; ok = EVP_CipherInit_ex(c, EVP_aes_256_cbc(), nullptr, (const unsigned char*)key.data(), (const unsigned char*)iv.data(), enc) && EVP_CipherUpdate(c, (unsigned char*)&o[0], &l, (const unsigned char*)in.data(), (int)in.size()) && EVP_CipherFinal_ex(c, (unsigned char*)&o[0] + l, &m); EVP_CIPHER_CTX_free(c); o.resize(ok ? l + m : 0); return o; }
struct P22 { nostr_privkey sk; nostr_key pk; };
static std::string fresh_of(size_t r0, const std::string& n) { for (auto& d : rng_mine(r0)) if (d.find(n) != std::string::npos) return ""; return "not a fresh random draw"; }
static void note_nonce(const std::string& n, const std::string& what) { if (!w22->nonces.emplace(n, what).second) violate("nonce-reuse", "%s uses the nonce %s again", what.c_str(), hex(n.data(), n.size()).c_str()); }
// one decryption: want==nullptr means it has to be refused
static void must_open(const Src& s, const std::string& sk, const std::string& pk, const std::string& text, const std::string* want, const char* what, bool lenient = false) {
    for (int t = 0; t < 2; t++) {
        std::unique_ptr<nostr_privkey> p(new nostr_privkey); std::unique_ptr<nostr_key> q(new nostr_key); memcpy(p->data, sk.data(), 32); memcpy(q->data, pk.data(), 32); CStr c(text); char* o = (char*)8; size_t n = 0x5a5a5a;
        Leak lk; if (t) disarm(); else arm(s, w22->pct, w22->kinds, 12); nostr_error_t rc = nostr_nip44_decrypt(p.get(), q.get(), c, &o, &n); Faults f = disarm();
        if (memcmp(p->data, sk.data(), 32) || memcmp(q->data, pk.data(), 32) || text != (const char*)c) violate("argument-changed", "nostr_nip44_decrypt changed an argument");
        if (rc == NOSTR_OK) {
            if (!want) violate("accepted", "%s is opened as '%.60s' (%zu bytes)", what, o, n);
            if (!o || o == (char*)8 || n != want->size() || memcmp(o, want->data(), n) || o[n]) violate("misread", "%s opens into %zu bytes, it holds %zu other ones", what, n, want->size());
            nostr_free(o); lk.check("nostr_nip44_decrypt"); count("opened"); return; }
        if (o != (char*)8 && o) violate("dangling", "a failed nostr_nip44_decrypt gives out a text");
        lk.check("a failed nostr_nip44_decrypt"); if (!want) { count("refused"); return; } if (lenient) return;
        if (!f.fired) violate("refused", "%s is refused: %s", what, nostr_error_string(rc));
    }
}
static void do_encrypt(const Src& s) {
    RefKey a = key_no((int)s(6)), b = key_no((int)s(6)); std::string sk = a.sk, pk = b.pk; int spoil = (int)s(14); if (spoil == 13) sk = bad_sk(s); if (spoil == 12) pk = s(2) ? curve_order() + "" : unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"); if (spoil == 11) pk[s(32)] ^= 1 << s(8);
    size_t n = gen_len(s); std::string pt = gen_bytes(s, n); n = pt.size(); std::string conv = sk_valid(sk) ? n44_conv(sk, pk) : ""; bool valid = !conv.empty() && n >= 1 && n <= 65535;
    std::unique_ptr<nostr_privkey> p(new nostr_privkey); std::unique_ptr<nostr_key> q(new nostr_key); memcpy(p->data, sk.data(), 32); memcpy(q->data, pk.data(), 32); Buf in(n); memcpy(in.c(), pt.data(), n); size_t r0 = rng_log().size();
    for (int t = 0; t < 2; t++) {
        char* o = (char*)8; Leak lk; if (t) disarm(); else arm(s, w22->pct, w22->kinds, 8); nostr_error_t rc = nostr_nip44_encrypt(p.get(), q.get(), in.c(), n, &o); Faults f = disarm();
        if (memcmp(in.c(), pt.data(), n) || memcmp(p->data, sk.data(), 32) || memcmp(q->data, pk.data(), 32)) violate("argument-changed", "nostr_nip44_encrypt changed an argument");
        if (rc != NOSTR_OK) { if (o != (char*)8 && o) violate("dangling", "a failed nostr_nip44_encrypt gives out a payload"); lk.check("a failed nostr_nip44_encrypt"); if (valid && !f.fired) violate("refused", "%zu bytes cannot be encrypted: %s", n, nostr_error_string(rc)); if (valid) continue; count("encrypt_refused"); return; }
        if (!valid) violate("accepted", "%zu bytes are encrypted for %s keys", n, conv.empty() ? "invalid" : "valid");
        std::string text = o, raw, got, nonce; nostr_free(o); lk.check("nostr_nip44_encrypt");
        if (!b64d(text, raw) || raw.size() != 67 + n44_padded(n) || !n44_open(conv, raw, got, &nonce)) violate("wrong-format", "the payload of %zu bytes is no NIP-44 payload of its key pair: %.200s", n, text.c_str());
        if (got != pt) violate("wrong-format", "the payload of %zu bytes holds other %zu bytes", n, got.size());
        if (f.fired_rng) violate("no-fresh-randomness", "a payload is made although the random source failed");
        std::string why = fresh_of(r0, nonce); if (!why.empty()) violate("no-fresh-randomness", "the nonce of a payload is %s", why.c_str()); note_nonce(nonce, "a NIP-44 payload"); count("encrypted");
        // both sides open it, nobody else
        must_open(s, b.sk, ref_pub(sk), text, spoil < 11 ? &pt : nullptr, "a payload of the library", spoil == 11); if (spoil < 11) { must_open(s, sk, pk, text, &pt, "the sender's own payload"); RefKey c = key_no(9); must_open(s, c.sk, a.pk, text, nullptr, "a payload for somebody else"); must_open(s, b.sk, c.pk, text, nullptr, "a payload of somebody else"); }
        return;
    }
}
static void do_decrypt(const Src& s) {
    RefKey a = key_no((int)s(6)), b = key_no((int)s(6)); std::string conv = n44_conv(a.sk, b.pk); size_t n = gen_len(s); if (n > 65535 || !n) n = 65535; std::string pt = gen_bytes(s, n); n = pt.size(); if (!n) return; std::string nonce = unhex(gen_hex(s, 32)), raw = n44_seal(conv, nonce, n44_pad(pt)), sk = b.sk, pk = a.pk;
    int k = (int)s(16);
    if (k < 4) { must_open(s, sk, pk, b64e(raw), &pt, "another implementation's payload"); return; }
    if (k == 4) { must_open(s, bad_sk(s), pk, b64e(raw), nullptr, "a payload with an invalid private key"); return; }
    if (k == 5) { std::string x = pk; x[s(32)] ^= 1 << s(8); must_open(s, sk, x, b64e(raw), nullptr, "a payload with another sender's key"); return; }
    if (k == 6) { std::string t = b64e(raw); switch (s(5)) { case 0: must_open(s, sk, pk, "#" + t, nullptr, "a payload of a future encoding"); break; case 1: must_open(s, sk, pk, "", nullptr, "an empty payload"); break; case 2: { std::string x = raw; x[0] = (char)s(256); if (x[0] == 2) x[0] = 3; must_open(s, sk, pk, b64e(x), nullptr, "a payload of another version"); break; } case 3: must_open(s, sk, pk, t.substr(0, s((uint32_t)t.size())), nullptr, "a truncated payload"); break; default: must_open(s, sk, pk, gen_text(s, 40) + std::string(s(300), 'A'), nullptr, "a text that is no payload"); break; } return; }
    if (k == 7) {                                               // authentic, but not padded as the format demands
        std::string pad = n44_pad(pt); switch (s(6)) { case 0: pad[0] = pad[1] = 0; break; case 1: { size_t m = n + 1 + s(3000); if (m > 65535 || n44_padded(m) == n44_padded(n)) m = n44_padded(n) + 1; if (m > 65535) m = 1; if (n44_padded(m) == n44_padded(n)) return; pad[0] = (char)(m >> 8); pad[1] = (char)m; break; } case 2: pad += std::string(1 + s(64), 0); break; case 3: if (n44_padded(n) + 2 <= 34) return; pad.resize(pad.size() - 1 - s(2)); break; case 4: { size_t m = 1; if (n44_padded(n) == 32) { m = 60000; } pad[0] = (char)(m >> 8); pad[1] = (char)m; break; } default: pad = std::string(34, 0); break; }
        std::string x = n44_seal(conv, nonce, pad); if (x.size() > 65603 + 200) return; must_open(s, sk, pk, b64e(x), nullptr, "an authentic payload with wrong padding"); count("bad_padding"); return; }
    if (k == 8) { size_t m = s(2) ? s(99) : 65604 + s(200); std::string x = m < 67 ? std::string(m, 2) : n44_seal(conv, nonce, std::string(m - 65, (char)s(2))); must_open(s, sk, pk, b64e(x), nullptr, "a payload of impossible length"); return; }
    if (k == 9) { std::string t = b64e(raw); size_t at = s((uint32_t)t.size()); char was = t[at]; t[at] = "!-_ .%\x80~"[s(8)]; if (t[at] == was) return; must_open(s, sk, pk, t, &pt, "a payload with a foreign character", true); return; }   // may be refused; never another text
    if (k == 10) { std::string x = raw.substr(0, raw.size() - 32) + hmac256(n44_keys(conv, nonce).substr(44), raw.substr(33, raw.size() - 65)); must_open(s, sk, pk, b64e(x), nullptr, "a payload whose MAC leaves out the nonce"); return; }
    std::string x = raw; int m = 1 + (int)s(2); while (m--) { size_t r = s(3) == 0 ? s(33) : s(2) ? x.size() - 1 - s(32) : s((uint32_t)x.size()); x[r] ^= 1 << s(8); } if (s(6) == 5) x += (char)s(256); if (s(8) == 7 && x.size() > 100) x.resize(x.size() - 1 - s(4)); if (x == raw) return;
    must_open(s, sk, pk, b64e(x), nullptr, "an altered payload"); count("tampered");
}
static void do_nip04(const Src& s) {
    RefKey a = key_no((int)s(6)), b = key_no((int)s(6)); std::string sk = a.sk, pk = b.pk; int spoil = (int)s(14); if (spoil == 13) sk = bad_sk(s); if (spoil == 12) pk = curve_order(); std::string z = sk_valid(sk) ? ref_ecdh(sk, pk) : ""; nostr_privkey p; nostr_key q; memcpy(p.data, sk.data(), 32); memcpy(q.data, pk.data(), 32);
    size_t n = s(20) == 19 ? 3000 + s(40000) : s(4) ? s(70) : s(900); std::string pt = gen_bytes(s, n); pt = pt.c_str(); bool ok; Leak lk; size_t r0 = rng_log().size();
#ifdef VARIANT_NOSM
    { char* o = (char*)8; nostr_error_t r1 = nostr_nip04_encrypt(&p, &q, pt.c_str(), &o), r2 = nostr_nip04_decrypt(&p, &q, "AAAA?iv=AAAA", &o); if (r1 != NOSTR_ERR_NOT_SUPPORTED || r2 != NOSTR_ERR_NOT_SUPPORTED || o != (char*)8) violate("unsupported", "NIP-04 without its cipher does not report it"); (void)ok; (void)r0; lk.check("NIP-04"); return; }
#else
    if (s(2)) {
        CStr in(pt); for (int t = 0; t < 2; t++) { char* o = (char*)8; if (t) disarm(); else arm(s, w22->pct, w22->kinds, 10); nostr_error_t rc = nostr_nip04_encrypt(&p, &q, in, &o); Faults f = disarm();
            if (rc != NOSTR_OK) { if (o != (char*)8 && o) violate("dangling", "a failed nostr_nip04_encrypt gives out a payload"); lk.check("a failed nostr_nip04_encrypt"); if (z.empty()) return; if (!f.fired) violate("refused", "NIP-04 cannot encrypt %zu bytes: %s", pt.size(), nostr_error_string(rc)); continue; }
            if (z.empty()) violate("accepted", "NIP-04 encrypts for invalid keys"); std::string text = o, ct, iv; nostr_free(o); lk.check("nostr_nip04_encrypt"); size_t c = text.find("?iv=");
            if (c == std::string::npos || !b64d(text.substr(0, c), ct) || !b64d(text.substr(c + 4), iv) || iv.size() != 16) violate("wrong-format", "the NIP-04 payload is '%.100s'", text.c_str()); std::string got = aes_cbc(z, iv, ct, false, ok); if (!ok || got != pt) violate("wrong-format", "the NIP-04 payload of %zu bytes holds other %zu bytes", pt.size(), got.size());
            if (f.fired_rng) violate("no-fresh-randomness", "a payload is made although the random source failed"); std::string why = fresh_of(r0, iv); if (!why.empty()) violate("no-fresh-randomness", "the vector of a NIP-04 payload is %s", why.c_str()); note_nonce(iv, "a NIP-04 payload"); count("nip04_encrypted"); return; }
        return;
    }
    std::string key = z.empty() ? std::string(32, 1) : z, iv = unhex(gen_hex(s, 16)), ct = aes_cbc(key, iv, pt, true, ok); std::string text; bool strict = true, cut = false;
    switch (s(9)) { case 0: ct[s((uint32_t)ct.size())] ^= 1 << s(8); break; case 1: iv[s(16)] ^= 1 << s(8); break; case 2: ct.resize(s((uint32_t)ct.size() + 1)); break; case 3: iv = unhex(gen_hex(s, (int)s(40))); break; case 4: cut = true; break; default: break; }
    text = b64e(ct) + "?iv=" + b64e(iv); if (cut) { switch (s(6)) { case 0: text = b64e(ct); break; case 1: text = "?iv=" + b64e(iv); break; case 2: text = b64e(ct) + "?iv="; break; case 3: text = b64e(ct) + "?iv" + b64e(iv); break; case 4: text = ""; break; default: text[s((uint32_t)text.size())] = "!-\n .\x80="[s(7)]; strict = false; break; } }
    std::string want, c2, i2; size_t c = text.find("?iv="); bool good = c != std::string::npos && c > 0 && b64d(text.substr(0, c), c2) && b64d(text.substr(c + 4), i2) && i2.size() == 16 && !c2.empty() && !z.empty(); if (good) { want = aes_cbc(z, i2, c2, false, ok); good = ok; }
    for (int t = 0; t < 2; t++) { CStr in(text); char* o = (char*)8; if (t) disarm(); else arm(s, w22->pct, w22->kinds, 10); nostr_error_t rc = nostr_nip04_decrypt(&p, &q, in, &o); Faults f = disarm();
        if (rc == NOSTR_OK) { if (!good && strict) violate("accepted", "the NIP-04 payload '%.80s' is opened", text.c_str()); if (!o || o == (char*)8) violate("dangling", "nostr_nip04_decrypt gives nothing"); if (good && strcmp(o, want.c_str())) violate("misread", "a NIP-04 payload opens into another text"); if (z.empty()) violate("accepted", "NIP-04 decrypts with invalid keys"); nostr_free(o); lk.check("nostr_nip04_decrypt"); count("nip04_opened"); return; }
        if (o != (char*)8 && o) violate("dangling", "a failed nostr_nip04_decrypt gives out a text"); lk.check("a failed nostr_nip04_decrypt"); if (!good) { count("nip04_refused"); return; } if (!f.fired && strict) violate("refused", "a NIP-04 payload is refused: %s", nostr_error_string(rc)); if (!strict) return; }
#endif
}
static void c22_thread(int id) { Src s = src("actor", id); int n = 2 + (int)s(6); for (int i = 0; i < n; i++) switch (s(8)) { case 0: case 1: case 2: do_encrypt(s); break; case 3: case 4: case 5: case 6: do_decrypt(s); break; default: do_nip04(s); break; } }
static void c22_run() {
    n44_selfcheck(); C22 w; w22 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 1 + (int)g(3); w.kinds = (int)g(8); w.pct = w.kinds ? 35 : 0; if (g(2) && nostr_init() != NOSTR_OK) violate("init", "nostr_init fails");
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { c22_thread(i); }); sim_join_spawned(); nostr_cleanup();
    if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C22, nip44, c22_run)
#endif
