// Independent reference pieces used by the oracles: a strict JSON reader and
// writer, NIP-01 ids and signatures computed directly on SHA-256/libsecp256k1,
// random content, and small helpers.
#pragma once
#include "sim.h"
#include <algorithm>
#include <memory>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
extern "C" {
#include "nostr.h"
#include "nostr_relay_protocol.h"
}
int register_world(const char* prop, const char* name, world_fn fn);
#define WORLD(prop, name, fn) static int reg_##prop##_##fn = register_world(#prop, #name, fn);

// ------------------------------------------------------------------ JSON
struct J {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    bool b = false; double n = 0; std::string raw, s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    const J* get(const char* key) const { for (auto& p : o) if (p.first == key) return &p.second; return nullptr; }
    size_t has(const char* key) const { size_t c = 0; for (auto& p : o) if (p.first == key) c++; return c; }
    bool is(K kk) const { return k == kk; }
};
static inline bool utf8_ok(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i]; int n = c < 0x80 ? 0 : (c >= 0xC2 && c < 0xE0) ? 1 : (c >= 0xE0 && c < 0xF0) ? 2 : (c >= 0xF0 && c < 0xF5) ? 3 : -1;
        if (n < 0 || i + n >= s.size() + (n ? 0 : 1)) return false;
        for (int k = 1; k <= n; k++) if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
        i += n + 1;
    }
    return true;
}
struct JP {
    const std::string& t; size_t p = 0; bool ok = true; int depth = 0;
    explicit JP(const std::string& s) : t(s) {}
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) p++; }
    void fail() { ok = false; p = t.size(); }
    static void put(std::string& o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    std::string str() {
        std::string o; if (p >= t.size() || t[p] != '"') { fail(); return o; } p++;
        for (;;) {
            if (p >= t.size()) { fail(); return o; }
            unsigned char c = t[p++];
            if (c == '"') return o;
            if (c < 0x20) { fail(); return o; }
            if (c != '\\') { o += (char)c; continue; }
            if (p >= t.size()) { fail(); return o; }
            char e = t[p++];
            switch (e) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
                auto h4 = [&](uint32_t& v) { if (p + 4 > t.size()) return false; v = 0; for (int i = 0; i < 4; i++) { char h = t[p++]; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; } return true; };
                uint32_t v; if (!h4(v)) { fail(); return o; }
                if (v >= 0xD800 && v < 0xDC00) { uint32_t w; if (p + 2 > t.size() || t[p] != '\\' || t[p + 1] != 'u') { fail(); return o; } p += 2; if (!h4(w) || w < 0xDC00 || w > 0xDFFF) { fail(); return o; } v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
                if (v >= 0xDC00 && v < 0xE000) { fail(); return o; }     // half a surrogate pair is no character
                put(o, v); break; }
            default: fail(); return o;
            }
        }
    }
    J val() {
        J v; ws(); if (p >= t.size() || ++depth > 200) { fail(); return v; }
        char c = t[p]; size_t st = p;
        if (c == '"') { v.k = J::STR; v.s = str(); }
        else if (c == '[') { v.k = J::ARR; p++; ws(); if (p < t.size() && t[p] == ']') p++; else for (;;) { v.a.push_back(val()); ws(); if (!ok || p >= t.size()) { fail(); break; } if (t[p] == ',') { p++; continue; } if (t[p] == ']') { p++; break; } fail(); break; } }
        else if (c == '{') { v.k = J::OBJ; p++; ws(); if (p < t.size() && t[p] == '}') p++; else for (;;) { ws(); std::string k = str(); ws(); if (!ok || p >= t.size() || t[p] != ':') { fail(); break; } p++; J x = val(); v.o.push_back({k, x}); ws(); if (!ok || p >= t.size()) { fail(); break; } if (t[p] == ',') { p++; continue; } if (t[p] == '}') { p++; break; } fail(); break; } }
        else if (!t.compare(p, 4, "true")) { v.k = J::BOOL; v.b = true; p += 4; }
        else if (!t.compare(p, 5, "false")) { v.k = J::BOOL; p += 5; }
        else if (!t.compare(p, 4, "null")) p += 4;
        else {
            if (p < t.size() && t[p] == '-') p++;
            if (p >= t.size() || !isdigit((unsigned char)t[p])) { fail(); depth--; return v; }
            if (t[p] == '0') p++; else while (p < t.size() && isdigit((unsigned char)t[p])) p++;
            if (p < t.size() && t[p] == '.') { p++; if (p >= t.size() || !isdigit((unsigned char)t[p])) { fail(); depth--; return v; } while (p < t.size() && isdigit((unsigned char)t[p])) p++; }
            if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (p >= t.size() || !isdigit((unsigned char)t[p])) { fail(); depth--; return v; } while (p < t.size() && isdigit((unsigned char)t[p])) p++; }
            v.k = J::NUM; v.raw = t.substr(st, p - st); v.n = strtod(v.raw.c_str(), nullptr);
        }
        depth--;
        return v;
    }
};
static inline bool jparse(const std::string& t, J& out) { JP p(t); out = p.val(); p.ws(); return p.ok && p.p == t.size(); }
static inline std::string jstr(const std::string& s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; default: if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o + "\"";
}
static inline bool plain_int(const std::string& r) { return r.size() && r.find_first_not_of("0123456789-") == std::string::npos; }
static inline bool jeq(const J& a, const J& b, bool exact = false) {   // exact: whole numbers digit for digit
    if (a.k != b.k) return false;
    switch (a.k) { case J::NUL: return true; case J::BOOL: return a.b == b.b; case J::NUM: return exact && plain_int(a.raw) && plain_int(b.raw) ? a.raw == b.raw : a.n == b.n; case J::STR: return a.s == b.s;
    case J::ARR: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!jeq(a.a[i], b.a[i], exact)) return false; return true;
    case J::OBJ: if (a.o.size() != b.o.size()) return false; for (auto& p : a.o) { const J* q = b.get(p.first.c_str()); if (!q || !jeq(p.second, *q, exact)) return false; } return true; }
    return false;
}

// ------------------------------------------------------------------ reference events
static inline std::string sha256(const std::string& s) { unsigned char o[32]; SHA256((const unsigned char*)s.data(), s.size(), o); return std::string((char*)o, 32); }
static inline secp256k1_context* refctx() { static secp256k1_context* c = secp256k1_context_create(SECP256K1_CONTEXT_NONE); return c; }
struct RefKey { std::string sk, pk; };      // raw 32 bytes each
static inline RefKey ref_key(const std::string& seed) {
    RefKey k; std::string s = seed;
    for (;;) { s = sha256(s); secp256k1_keypair kp; if (!secp256k1_keypair_create(refctx(), &kp, (const unsigned char*)s.data())) continue; k.sk = s; secp256k1_xonly_pubkey x; secp256k1_keypair_xonly_pub(refctx(), &x, nullptr, &kp); unsigned char p[32]; secp256k1_xonly_pubkey_serialize(refctx(), p, &x); k.pk.assign((char*)p, 32); return k; }
}
static inline RefKey key_no(int i) { static std::map<int, RefKey> c; auto it = c.find(i); if (it == c.end()) it = c.emplace(i, ref_key("key" + std::to_string(i))).first; return it->second; }
static inline std::string ref_sign(const RefKey& k, const std::string& digest) { secp256k1_keypair kp; secp256k1_keypair_create(refctx(), &kp, (const unsigned char*)k.sk.data()); unsigned char s[64], aux[32]; memset(aux, 7, 32); secp256k1_schnorrsig_sign32(refctx(), s, (const unsigned char*)digest.data(), &kp, aux); return std::string((char*)s, 64); }
static inline bool ref_verify(const std::string& pk, const std::string& digest, const std::string& sig) { secp256k1_xonly_pubkey x; if (pk.size() != 32 || sig.size() != 64 || !secp256k1_xonly_pubkey_parse(refctx(), &x, (const unsigned char*)pk.data())) return false; return secp256k1_schnorrsig_verify(refctx(), (const unsigned char*)sig.data(), (const unsigned char*)digest.data(), 32, &x); }
struct RefEvent {
    std::string pk = std::string(32, 0), id = std::string(32, 0), sig = std::string(64, 0); int64_t created_at = 0; int kind = 1; std::vector<std::vector<std::string>> tags; std::string content;
    std::string canonical() const { std::string o = "[0,\"" + hex(pk.data(), 32) + "\"," + std::to_string(created_at) + "," + std::to_string(kind) + ",["; for (size_t i = 0; i < tags.size(); i++) { o += i ? ",[" : "["; for (size_t j = 0; j < tags[i].size(); j++) o += (j ? "," : "") + jstr(tags[i][j]); o += "]"; } return o + "]," + jstr(content) + "]"; }
    void seal(const RefKey& k) { pk = k.pk; id = sha256(canonical()); sig = ref_sign(k, id); }
    void seal_fake(const RefKey& k) { pk = k.pk; id = sha256(canonical()); sig = sha256(id) + sha256(id + "x"); }
    bool authentic() const { return id == sha256(canonical()) && ref_verify(pk, id, sig); }
    std::string tags_json() const { std::string o = "["; for (size_t i = 0; i < tags.size(); i++) { o += i ? ",[" : "["; for (size_t j = 0; j < tags[i].size(); j++) o += (j ? "," : "") + jstr(tags[i][j]); o += "]"; } return o + "]"; }
    std::string json() const { return "{\"id\":\"" + hex(id.data(), id.size()) + "\",\"pubkey\":\"" + hex(pk.data(), pk.size()) + "\",\"created_at\":" + std::to_string(created_at) + ",\"kind\":" + std::to_string(kind) + ",\"tags\":" + tags_json() + ",\"content\":" + jstr(content) + ",\"sig\":\"" + hex(sig.data(), sig.size()) + "\"}"; }
};
static inline RefEvent from_lib(const nostr_event* e) {
    RefEvent r; r.id.assign((char*)e->id, 32); r.pk.assign((char*)e->pubkey.data, 32); r.sig.assign((char*)e->sig, 64); r.created_at = e->created_at; r.kind = e->kind; r.content = e->content ? e->content : "";
    for (size_t i = 0; i < e->tags_count; i++) { std::vector<std::string> t; for (size_t j = 0; j < e->tags[i].count; j++) t.push_back(e->tags[i].values[j] ? e->tags[i].values[j] : "\1NULL"); r.tags.push_back(t); }
    return r;
}
static inline bool same_event(const RefEvent& a, const RefEvent& b) { return a.id == b.id && a.pk == b.pk && a.sig == b.sig && a.created_at == b.created_at && a.kind == b.kind && a.content == b.content && a.tags == b.tags; }
static inline std::string ev_diff(const RefEvent& a, const RefEvent& b) { std::string r; if (a.id != b.id) r += "id "; if (a.pk != b.pk) r += "pubkey "; if (a.sig != b.sig) r += "sig "; if (a.created_at != b.created_at) r += "created_at(" + std::to_string(a.created_at) + " vs " + std::to_string(b.created_at) + ") "; if (a.kind != b.kind) r += "kind "; if (a.content != b.content) r += "content "; if (a.tags != b.tags) r += "tags(" + a.tags_json() + " vs " + b.tags_json() + ") "; return r; }
// parse an event object produced by the library
static inline bool ref_from_json(const J& j, RefEvent& r) {
    auto S = [&](const char* k) { const J* v = j.get(k); return v && v->is(J::STR) ? v->s : std::string("\1"); };
    if (!j.is(J::OBJ)) return false;
    for (const char* k : {"id", "pubkey", "created_at", "kind", "tags", "content", "sig"}) if (j.has(k) != 1) return false;
    if (S("id").size() != 64 || S("pubkey").size() != 64 || S("sig").size() != 128 || !j.get("created_at")->is(J::NUM) || !j.get("kind")->is(J::NUM) || !j.get("content")->is(J::STR) || !j.get("tags")->is(J::ARR)) return false;
    r.id = unhex(S("id")); r.pk = unhex(S("pubkey")); r.sig = unhex(S("sig")); r.created_at = strtoll(j.get("created_at")->raw.c_str(), 0, 10); r.kind = (int)j.get("kind")->n; r.content = S("content"); r.tags.clear();
    if (j.get("created_at")->raw != std::to_string(r.created_at) || j.get("kind")->raw != std::to_string(r.kind)) return false;
    for (auto& t : j.get("tags")->a) { if (!t.is(J::ARR)) return false; std::vector<std::string> v; for (auto& x : t.a) { if (!x.is(J::STR)) return false; v.push_back(x.s); } r.tags.push_back(v); }
    return true;
}

// ------------------------------------------------------------------ random content
static inline std::string gen_text(const Src& s, int maxlen = 24) {
    static const std::vector<std::string> bits = {"a", "hello", " ", "\"", "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "é", "漢", "🎉", "[", "]", "{", "}", ",", ":", "/", "\\u0041", "'", "\r", "\b", "\f", "nostr:", "0", "null", "%s%n", "\xe2\x80\xa8"};
    static const std::vector<std::string> edge = {"\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x90\x8f\xbf", "\xf4\x8f\xb0\x80", "\xf4\x8f\xbf\xbf"};    // first and last characters of each encoded length and of each half of a pair
    std::string r; int n = (int)s(maxlen + 1); for (int i = 0; i < n; i++) r += s(12) == 11 ? s.of(edge) : s.of(bits); return r;
}
static inline std::string gen_name(const Src& s, int maxlen = 10) { std::string r; int n = 1 + (int)s(maxlen); for (int i = 0; i < n; i++) r += "abcdefghijklmnopqrstuvwxyz0123456789_-"[s(38)]; return r; }
static inline std::string gen_hex(const Src& s, int bytes) { std::string r; for (int i = 0; i < bytes; i++) { unsigned char c = (unsigned char)s(256); r += hex(&c, 1); } return r; }
static inline std::vector<std::vector<std::string>> gen_tags(const Src& s, int maxtags = 4) {
    std::vector<std::vector<std::string>> t; int n = (int)s(maxtags + 1);
    for (int i = 0; i < n; i++) { std::vector<std::string> v; switch (s(5)) { case 0: v = {"t", gen_name(s)}; break; case 1: v = {"e", hex(sha256(std::to_string(s(20))).data(), 32)}; break; case 2: v = {"p", hex(key_no((int)s(4)).pk.data(), 32), "wss://r" + std::to_string(s(3)) + ".example"}; break; case 3: { int k = 1 + (int)s(5); for (int j = 0; j < k; j++) v.push_back(gen_text(s, 4)); break; } default: v = {"d", gen_name(s)}; } t.push_back(v); }
    return t;
}
static inline nostr_event* make_event(const RefEvent& r) {      // a library event with the same fields, fault free
    nostr_event* e = nullptr; if (nostr_event_create(&e) != NOSTR_OK) return nullptr;
    e->kind = (uint16_t)r.kind; e->created_at = r.created_at; memcpy(e->pubkey.data, r.pk.data(), 32); memcpy(e->id, r.id.data(), 32); memcpy(e->sig, r.sig.data(), 64);
    nostr_event_set_content(e, r.content.c_str());
    for (auto& t : r.tags) { std::vector<const char*> v; for (auto& x : t) v.push_back(x.c_str()); nostr_event_add_tag(e, v.data(), v.size()); }
    return e;
}
static inline nostr_privkey lib_sk(const RefKey& k) { nostr_privkey s; memcpy(s.data, k.sk.data(), 32); return s; }
static inline nostr_key lib_pk(const RefKey& k) { nostr_key s; memcpy(s.data, k.pk.data(), 32); return s; }
// suspends this thread's fault plan (for oracle-side library calls)
struct NoFaults { Faults save; NoFaults() : save(faults()) { faults() = Faults(); } ~NoFaults() { faults() = save; } };
