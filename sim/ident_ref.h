// Independent bech32 and NIP-19 reference.
#pragma once
#include "op.h"
static const char* CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static inline uint32_t polymod(const std::vector<int>& v) { static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; uint32_t c = 1; for (int x : v) { uint32_t t = c >> 25; c = (c & 0x1ffffff) << 5 ^ (uint32_t)x; for (int i = 0; i < 5; i++) if (t >> i & 1) c ^= G[i]; } return c; }
static inline std::vector<int> hrpx(const std::string& h) { std::vector<int> v; for (unsigned char c : h) v.push_back(c >> 5); v.push_back(0); for (unsigned char c : h) v.push_back(c & 31); return v; }
static inline std::string b32_encode(const std::string& hrp, const std::string& d, int forge = -1, char bad = 'b', int as = 255, int pad = 0) {   // forge: one character outside the alphabet, the checksum made as if it stood for a value
    std::vector<int> v; int acc = 0, bits = 0; for (unsigned char c : d) { acc = (acc << 8 | c) & 0xfff; bits += 8; while (bits >= 5) { bits -= 5; v.push_back(acc >> bits & 31); } } if (bits) v.push_back((acc << (5 - bits) & 31) | (pad & ((1 << (5 - bits)) - 1))); if (pad >= 32) v.push_back(pad & 31);     // pad: bits that should be nothing, or a whole character too many
    size_t at = forge < 0 || v.empty() ? (size_t)-1 : (size_t)forge % v.size(); if (at != (size_t)-1) v[at] = as;
    std::vector<int> x = hrpx(hrp); x.insert(x.end(), v.begin(), v.end()); x.resize(x.size() + 6); uint32_t p = polymod(x) ^ 1; for (int i = 0; i < 6; i++) v.push_back(p >> (5 * (5 - i)) & 31);
    std::string s = hrp + "1"; for (size_t i = 0; i < v.size(); i++) s += i == at ? bad : CH[v[i]]; return s;
}
static inline bool b32_decode(const std::string& s, std::string& hrp, std::string& out) {
    size_t sep = s.rfind('1'); if (sep == std::string::npos || sep == 0 || s.size() - sep - 1 < 6) return false; hrp = s.substr(0, sep); std::vector<int> v; for (size_t i = sep + 1; i < s.size(); i++) { const char* p = s[i] ? strchr(CH, s[i]) : nullptr; if (!p) return false; v.push_back((int)(p - CH)); }
    std::vector<int> x = hrpx(hrp); x.insert(x.end(), v.begin(), v.end()); if (polymod(x) != 1) return false; v.resize(v.size() - 6); out.clear(); int acc = 0, bits = 0; for (int k : v) { acc = (acc << 5 | k) & 0xfff; bits += 5; if (bits >= 8) { bits -= 8; out += (char)(acc >> bits); } } return bits < 5 && !(acc & ((1 << bits) - 1));
}
// what an identifier names
struct Ent { int type = -1; std::string main; std::vector<std::string> relays; bool has_author = false, has_kind = false; std::string author; uint32_t kind = 0; };
static const char* HRP[] = {"npub", "nsec", "note", "nprofile", "nevent", "naddr", "nrelay"};
static inline bool url_ok(const std::string& u) { if (u.size() < 6 || u.size() > 255 || (u.compare(0, 6, "wss://") && u.compare(0, 5, "ws://"))) return false; for (unsigned char c : u) if (c < 0x21 || c > 0x7e) return false; return true; }
static inline std::string tlv(int t, const std::string& v) { return std::string(1, (char)t) + std::string(1, (char)v.size()) + v; }
static inline std::string ref_tlv(const Ent& e) { std::string r = tlv(0, e.main); for (auto& u : e.relays) r += tlv(1, u); std::string k; for (int b = 24; b >= 0; b -= 8) k += (char)(e.kind >> b); if (e.has_author) r += tlv(2, e.author); if (e.has_kind) r += tlv(3, k); return r; }
static inline std::string ref_encode(const Ent& e) { return b32_encode(HRP[e.type], e.type < 3 ? e.main : ref_tlv(e)); }
enum { NO, YES, UNCLEAR, MAYBE };      // MAYBE: may be refused, but if accepted then as what it names
static inline int ref_decode(const std::string& s, Ent& e) {
    std::string h, d; if (!b32_decode(s, h, d)) return NO; e = Ent(); for (int i = 0; i < 7; i++) if (h == HRP[i]) e.type = i; if (e.type < 0) return NO;
    if (e.type < 3) { e.main = d; return d.size() == 32 ? YES : NO; }
    bool big = d.size() > (e.type == 6 ? 512u : 4096u);      // longer than any identifier anyone writes
    int ns = 0, na = 0, nk = 0; bool odd = false; size_t p = 0; while (p + 2 <= d.size()) { int t = (unsigned char)d[p], n = (unsigned char)d[p + 1]; p += 2; if (p + n > d.size()) return NO; std::string v = d.substr(p, n); p += n;
        if (t == 0) { ns++; e.main = v; } else if (t == 1 && e.type != 6) { if (url_ok(v) && e.relays.size() < 16) e.relays.push_back(v); } else if (t == 2 && (e.type == 4 || e.type == 5)) { if (n != 32) odd = true; else { na++; e.has_author = true; e.author = v; } } else if (t == 3 && (e.type == 4 || e.type == 5)) { if (n != 4) odd = true; else { nk++; e.has_kind = true; e.kind = (uint32_t)(unsigned char)v[0] << 24 | (unsigned char)v[1] << 16 | (unsigned char)v[2] << 8 | (unsigned char)v[3]; } } }
    if ((e.type == 3 || e.type == 4) && (ns == 0 || (ns == 1 && e.main.size() != 32))) return NO; if (e.type == 6 && (ns == 0 || (ns == 1 && e.main.empty()))) return NO; if (e.type == 5 && (!e.has_author || !e.has_kind)) return NO;
    if (ns != 1 || na > 1 || nk > 1) return UNCLEAR; if (e.type > 4 && e.main.find('\0') != std::string::npos) return NO;      // no C string holds it
    return odd || big || p != d.size() ? MAYBE : YES;
}
static inline bool eq(const Ent& a, const Ent& b) { return a.type == b.type && a.main == b.main && a.relays == b.relays && a.has_author == b.has_author && a.has_kind == b.has_kind && (!a.has_author || a.author == b.author) && (!a.has_kind || a.kind == b.kind); }
static inline std::string show(const Ent& e) { std::string r = e.type < 0 ? "nothing" : HRP[e.type]; r += " " + (e.type == 5 || e.type == 6 ? "'" + e.main.substr(0, 60) + "'" : hex(e.main.data(), e.main.size())) + " relays " + std::to_string(e.relays.size()); if (e.has_author) r += " author " + hex(e.author.data(), e.author.size()); if (e.has_kind) r += " kind " + std::to_string(e.kind); return r; }
static inline Ent gen_ent(const Src& s, int type) {
    Ent e; e.type = type; if (type < 5) e.main = s(6) ? unhex(gen_hex(s, 32)) : std::string(32, (char)(s(2) ? 0 : 0xff)); else if (type == 5) e.main = s(4) ? gen_name(s, 20) : s(3) == 0 ? "" : s(2) ? gen_text(s, 20) : std::string(s(256), 'i'); else { e.main = "wss://" + gen_name(s, 30) + (s(4) ? "" : std::string(s(200), 'x')); if (s(10) == 9) e.main.resize(250 + s(6), 'x'); }
    if (e.main.size() > 255) e.main.resize(255);
    if (type >= 3 && type <= 5) { int n = s(3) ? (int)s(4) : (int)s(17); for (int i = 0; i < n; i++) { std::string u = (s(3) ? "wss://" : "ws://") + gen_name(s, 12) + (s(6) ? "" : "/" + std::string(s(230), 'p')); if (s(12) == 11) u.resize(250 + s(6), 'p'); e.relays.push_back(u); } }
    if (type == 4) { e.has_author = s(2); e.has_kind = s(2); } if (type == 5) e.has_author = e.has_kind = true; if (e.has_author) e.author = unhex(gen_hex(s, 32)); static const std::vector<uint32_t> ks = {30023, 0, 1, 65535, 0xffffffffu, 0x01020304u}; if (e.has_kind) e.kind = s.of(ks); return e;
}
