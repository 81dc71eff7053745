// C18: NIP-49 — an encrypted key opens with its password only, and into that very key
#include "ident_ref.h"
struct C18 { int pct = 0, kinds = 0; std::set<std::string> salts, nonces; };
static C18* w18;
static uint32_t rl(uint32_t v, int n) { return v << n | v >> (32 - n); }
static uint32_t le(const std::string& s, size_t i) { return (uint32_t)(uint8_t)s[i] | (uint32_t)(uint8_t)s[i + 1] << 8 | (uint32_t)(uint8_t)s[i + 2] << 16 | (uint32_t)(uint8_t)s[i + 3] << 24; }
static std::string hchacha(const std::string& key, const std::string& n16) {
    std::string in = std::string("expand 32-byte k") + key + n16; std::vector<uint32_t> x(16); for (int i = 0; i < 16; i++) x[i] = le(in, 4 * i);
    static const int q[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
    for (int r = 0; r < 10; r++) for (auto& p : q) { uint32_t &a = x[p[0]], &b = x[p[1]], &c = x[p[2]], &d = x[p[3]]; a += b; d = rl(d ^ a, 16); c += d; b = rl(b ^ c, 12); a += b; d = rl(d ^ a, 8); c += d; b = rl(b ^ c, 7); }
    std::string o; for (int i : {0, 1, 2, 3, 12, 13, 14, 15}) for (int k = 0; k < 4; k++) o += (char)(x[i] >> 8 * k); return o;
}
static std::string seal_x(const std::string& key, const std::string& n24, const std::string& aad, const std::string& pt) {
    std::string sub = hchacha(key, n24.substr(0, 16)), n12 = std::string(4, 0) + n24.substr(16), ct(pt.size(), 0), tag(16, 0); int l; EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); auto U = [](std::string& s) { return (unsigned char*)&s[0]; };
    EVP_EncryptInit_ex(c, EVP_chacha20_poly1305(), nullptr, U(sub), U(n12)); EVP_EncryptUpdate(c, nullptr, &l, (const unsigned char*)aad.data(), (int)aad.size()); EVP_EncryptUpdate(c, U(ct), &l, (const unsigned char*)pt.data(), (int)pt.size()); EVP_EncryptFinal_ex(c, U(ct) + l, &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, U(tag)); EVP_CIPHER_CTX_free(c); return ct + tag;
}
static std::string kdf(const std::string& pw, const std::string& salt, int log_n) { if (g_fast_scrypt) return fast_scrypt(pw, salt, 1ull << log_n, 8, 1, 32); std::string o(32, 0); EVP_PBE_scrypt(pw.data(), pw.size(), (const unsigned char*)salt.data(), salt.size(), 1ull << log_n, 8, 1, 1ull << 32, (unsigned char*)&o[0], 32); return o; }
struct Box { int version = 2, log_n = 16, sec = 2; std::string salt, nonce, body; std::string payload() const { return std::string(1, (char)version) + (char)log_n + salt + nonce + (char)sec + body; } };
static std::string lock_ref(const Box& b) { return b32_encode("ncryptsec", b.payload()); }
static bool unpack(const std::string& t, Box& b) { std::string h, d; if (t.size() > 200 || !b32_decode(t, h, d) || h != "ncryptsec" || d.size() != 91) return false; b.version = (unsigned char)d[0]; b.log_n = (unsigned char)d[1]; b.salt = d.substr(2, 16); b.nonce = d.substr(18, 24); b.sec = (unsigned char)d[42]; b.body = d.substr(43); return true; }
// the key a text holds under a password, or nothing
static std::string open_ref(const std::string& t, const std::string& pw) {
    Box b; if (pw.empty() || !unpack(t, b) || b.version != 2 || b.log_n < 16 || b.log_n > 22 || b.sec > 2) return ""; std::string k = kdf(pw, b.salt, b.log_n), sub = hchacha(k, b.nonce.substr(0, 16)), n12 = std::string(4, 0) + b.nonce.substr(16), pt(32, 0), tag = b.body.substr(32); unsigned char ad = (unsigned char)b.sec; int l; EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    EVP_DecryptInit_ex(c, EVP_chacha20_poly1305(), nullptr, (const unsigned char*)sub.data(), (const unsigned char*)n12.data()); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, 16, &tag[0]); EVP_DecryptUpdate(c, nullptr, &l, &ad, 1); EVP_DecryptUpdate(c, (unsigned char*)&pt[0], &l, (const unsigned char*)b.body.data(), 32); bool ok = EVP_DecryptFinal_ex(c, (unsigned char*)&pt[0] + l, &l) == 1; EVP_CIPHER_CTX_free(c); return ok ? pt : "";
}
static std::string gen_pw(const Src& s) { static const std::vector<std::string> ps = {"nostr", "a", " ", "correct horse battery staple", "password", "Password", "password ", "p%s%n"}; if (s(2)) return s.of(ps); std::string r; int n = 1 + (int)s(s(6) ? 20 : 300); for (int i = 0; i < n; i++) r += (char)(33 + s(94)); return r; }
static void open_all(const std::string& text, const std::string& pw, const Src& s, const char* how) {
    C18& w = *w18; CStr t(text), p(pw); Box b; bool shape = unpack(text, b), valid = shape && b.version == 2 && b.log_n >= 16 && b.log_n <= 22 && b.sec <= 2; std::string want = open_ref(text, pw);
    nostr_error_t v = nostr_ncryptsec_validate(t); if ((v == NOSTR_OK) != valid) violate("validate", "%s is %s by validation: %s", how, v == NOSTR_OK ? "accepted" : "refused", text.c_str()); if (!shape && v != NOSTR_ERR_ENCODING) violate("error-code", "a malformed text (%s) gives %s", how, nostr_error_string(v)); if (shape && b.version != 2 && v != NOSTR_ERR_NOT_SUPPORTED) violate("error-code", "version %d gives %s", b.version, nostr_error_string(v));
    for (int tries = 0; tries < 2; tries++) {
        std::unique_ptr<nostr_privkey> k(new nostr_privkey); memset(k->data, 0x5C, 32); Leak lk; if (tries) disarm(); else arm(s, w.pct, w.kinds, 10); nostr_error_t rc = nostr_ncryptsec_decrypt(t, p, k.get()); Faults f = disarm(); lk.check("nostr_ncryptsec_decrypt"); std::string got((char*)k->data, 32);
        if (rc == NOSTR_OK) { if (want.empty()) violate("opened", "%s opens with the password '%.60s': %s", how, pw.c_str(), text.c_str()); if (got != want) violate("wrong-key", "%s opens into another key", how); count("opened"); return; }
        if (got != std::string(32, 0x5C) && !all_zero(k->data, 32)) violate("partial-key", "a failed decryption (%s, %s) leaves %s in the key", how, nostr_error_string(rc), hex(k->data, 32).c_str());
        if (!want.empty() && !f.fired) violate("refused", "%s does not open with its password: %s", how, nostr_error_string(rc)); count("not_opened"); if (want.empty() && !f.fired) return;
    }
}
static std::string lock_one(const Src& s, std::string& pw, std::string& sk) {
    C18& w = *w18; sk = s(3) ? key_no((int)s(20)).sk : unhex(gen_hex(s, 32)); pw = gen_pw(s); int log_n = s(3) ? 16 + (int)s(7) : (int)s(2) ? 16 : (int)s(256); bool okn = log_n >= 16 && log_n <= 22; size_t size = s(3) ? 163 : s(2) ? 140 + s(26) : 200 + s(100); if (s(20) == 19) pw = ""; bool valid = okn && size >= 163 && !pw.empty();
    std::unique_ptr<nostr_privkey> k(new nostr_privkey); CStr p(pw);
    for (int tries = 0; tries < 2; tries++) {
        memcpy(k->data, sk.data(), 32); Buf out(size); size_t r0 = rng_log().size(); Leak lk; if (tries) disarm(); else arm(s, w.pct, w.kinds, 10); nostr_error_t rc = nostr_ncryptsec_encrypt(k.get(), p, (uint8_t)log_n, out.c(), size); Faults f = disarm(); lk.check("nostr_ncryptsec_encrypt"); if (memcmp(k->data, sk.data(), 32)) violate("key-changed", "encrypting changed the key");
        if (rc == NOSTR_OK) {
            if (!valid) violate("accepted", "encryption accepts log_n %d, a buffer of %zu bytes and a password of %zu", log_n, size, pw.size()); if (!memchr(out.c(), 0, size)) violate("unterminated", "the text is not terminated"); std::string t = out.c(); Box b; if (!unpack(t, b)) violate("malformed", "encryption gives %s", t.c_str());
            for (size_t i = t.size() + 1; i < size; i++) if (out.u()[i] != 0xAA) violate("overrun", "encryption wrote behind its text");
            if (b.version != 2 || b.log_n != log_n || b.sec != 2) violate("malformed", "encryption writes version %d, log_n %d, key security %d (log_n %d asked)", b.version, b.log_n, b.sec, log_n); if (lock_ref(b) != t) violate("malformed", "encryption gives %s, the text for that content is %s", t.c_str(), lock_ref(b).c_str());
            if (open_ref(t, pw) != sk) violate("not-decryptable", "what was encrypted does not open into the key: %s", t.c_str());
            bool fs = false, fn = false; for (auto& d : rng_mine(r0)) { if (d.size() >= 16 && d.find(b.salt) != std::string::npos) fs = true; if (d.find(b.nonce) != std::string::npos) fn = true; } if (!fs || !fn) violate("no-fresh-randomness", "%s is not fresh", fs ? "the nonce" : "the salt"); if (!w.salts.insert(b.salt).second || !w.nonces.insert(b.nonce).second) violate("no-fresh-randomness", "a salt or nonce was used before");
            count("locked"); return t;
        }
        for (size_t i = 0; i < size; i++) if (out.u()[i] != 0xAA && out.u()[0]) violate("partial-text", "a failed encryption leaves text: %.40s", out.c()); if (valid && !f.fired) violate("refused", "encryption fails%s: %s", tries ? " after an earlier failure" : "", nostr_error_string(rc)); count("not_locked"); if (!valid) return "";
    }
    return "";
}
static void c18_op(const Src& s) {
    std::string pw, sk, t; const char* how = "what was encrypted";
    if (s(2)) { t = lock_one(s, pw, sk); if (t.empty()) return; }
    else { Box b; b.salt = unhex(gen_hex(s, 16)); b.nonce = unhex(gen_hex(s, 24)); b.log_n = s(4) ? 16 + (int)s(7) : (int)s(26); if (s(8) == 7) b.version = (int)s(5); b.sec = s(6) ? (int)s(3) : (int)s(256); sk = key_no((int)s(9)).sk; pw = gen_pw(s); if (b.log_n >= 1 && b.log_n <= 40) b.body = seal_x(kdf(pw, b.salt, b.log_n), b.nonce, std::string(1, (char)b.sec), sk); else b.body = std::string(48, 'x'); t = lock_ref(b); how = "a text from elsewhere"; }
    open_all(t, pw, s, how);
    for (int i = 0; i < 2; i++) { std::string u = t, q = pw; Box b; switch (s(12)) {
        case 0: q += "x"; break; case 1: q[s((uint32_t)q.size())] ^= 1; break; case 2: q = q.substr(0, q.size() - 1); if (q.empty()) q = "zz"; break; case 3: q = gen_pw(s); break;
        case 4: case 5: { size_t at = 10 + s((uint32_t)u.size() - 10); u[at] = CH[(strchr(CH, u[at]) - CH + 1 + s(31)) % 32]; if (s(2)) { at = 10 + s((uint32_t)u.size() - 10); u[at] = "qpzbio1"[s(7)]; } break; } case 6: u = u.substr(0, s((uint32_t)u.size() + 1)); break; case 7: u.insert(s((uint32_t)u.size() + 1), 1, CH[s(32)]); break; case 8: u = b32_encode(s(2) ? "ncryptseb" : "nsec", Box(b).payload() + std::string(s(60), 'k')); break; case 9: u = b32_encode("ncryptsec", std::string(s(110), (char)s(256))); break;
        default: if (!unpack(u, b)) break; { int k = (int)s(5); std::string* f = k == 0 ? &b.salt : k == 1 ? &b.nonce : &b.body; if (k < 4) (*f)[s((uint32_t)f->size())] ^= (char)(1 << s(8)); else b.sec = (b.sec + 1) % 3; u = lock_ref(b); } }
        open_all(u, q, s, "an altered text or password"); }
}
static void c18_vector() {
    static const char* t = "ncryptsec1qgg9947rlpvqu76pj5ecreduf9jxhselq2nae2kghhvd5g7dgjtcxfqtd67p9m0w57lspw8gsq6yphnm8623nsl8xn9j4jdzz84zm3frztj3z7s35vpzmqf6ksu8r89qk5z2zxfmu5gv8th8wclt0h4p"; std::string sk = unhex("3501454135014541350145413501453fefb02227e449e57cf4d3a3ce05378683");
    g_fast_scrypt = false; Src s("vector"); if (open_ref(t, "nostr") != sk) violate("harness", "the reference does not open the published text"); open_all(t, "nostr", s, "the published text"); open_all(t, "Nostr", s, "the published text with a wrong password"); if (s(2)) { nostr_privkey k; memcpy(k.data, sk.data(), 32); char out[163]; if (nostr_ncryptsec_encrypt(&k, "nostr", 17, out, sizeof out) != NOSTR_OK || open_ref(out, "nostr") != sk) violate("not-decryptable", "a key encrypted with the real scrypt does not open"); } count("published_vector");
}
static void c18_lock() {
    C18 w; w18 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); g_fast_scrypt = true; uint64_t mark = alloc_mark(); switch (g(3)) { case 0: break; case 1: w.kinds = FAULT_CRYPTO; break; default: w.kinds = FAULT_ALLOC | FAULT_RNG | FAULT_CRYPTO; } w.pct = w.kinds ? 40 : 0;
    if (g(400) == 399) { w.pct = 0; c18_vector(); return; }
    int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int ops = 2 + (int)s(6); for (int k = 0; k < ops; k++) c18_op(s); });
    sim_join_spawned(); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C18, lock, c18_lock)
