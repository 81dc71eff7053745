// C12: NIP-19/NIP-21 identifiers name exactly what they were made from, or nothing
#include "ident_ref.h"
extern "C" { int bech32_charset_decode(char); }
struct LibEnt { nostr_uri u; std::vector<std::unique_ptr<CStr>> keep; bool fits = true; };
static void to_lib(const Ent& e, LibEnt& l) {
    memset(&l.u, 0, sizeof l.u); l.u.type = (nostr_uri_type)e.type; auto put = [&](char** r, size_t& n) { n = 0; for (auto& x : e.relays) if (n < 16) { l.keep.emplace_back(new CStr(x)); r[n++] = (char*)(const char*)*l.keep.back(); } };
    switch (e.type) { case 0: memcpy(l.u.data.npub.data, e.main.data(), 32); break; case 1: memcpy(l.u.data.nsec.data, e.main.data(), 32); break; case 2: memcpy(l.u.data.note, e.main.data(), 32); break;
    case 3: memcpy(l.u.data.nprofile.pubkey.data, e.main.data(), 32); put(l.u.data.nprofile.relays, l.u.data.nprofile.relay_count); break;
    case 4: { auto& n = l.u.data.nevent; memcpy(n.id, e.main.data(), 32); put(n.relays, n.relay_count); n.has_author = e.has_author; n.has_kind = e.has_kind; if (e.has_author) memcpy(n.author.data, e.author.data(), 32); n.kind = e.kind; break; }
    case 5: { auto& n = l.u.data.naddr; memcpy(n.identifier, e.main.data(), e.main.size()); put(n.relays, n.relay_count); memcpy(n.pubkey.data, e.author.data(), 32); n.kind = e.kind; break; }
    default: memcpy(l.u.data.nrelay.url, e.main.data(), e.main.size()); }
}
static Ent of_lib(const nostr_uri& u) {
    Ent e; e.type = (int)u.type; auto get = [&](char* const* r, size_t n) { if (n > 16) violate("relay-count", "%zu relays", n); for (size_t i = 0; i < n; i++) { if (!r[i]) violate("relay-null", "relay %zu of %zu is NULL", i, n); e.relays.push_back(r[i]); } };
    switch (e.type) { case 0: e.main.assign((char*)u.data.npub.data, 32); break; case 1: e.main.assign((char*)u.data.nsec.data, 32); break; case 2: e.main.assign((char*)u.data.note, 32); break; case 3: e.main.assign((char*)u.data.nprofile.pubkey.data, 32); get(u.data.nprofile.relays, u.data.nprofile.relay_count); break;
    case 4: { auto& n = u.data.nevent; e.main.assign((char*)n.id, 32); get(n.relays, n.relay_count); e.has_author = n.has_author; e.has_kind = n.has_kind; e.author.assign((char*)n.author.data, 32); e.kind = n.kind; break; }
    case 5: { auto& n = u.data.naddr; e.main.assign(n.identifier, strnlen(n.identifier, 256)); get(n.relays, n.relay_count); e.has_author = e.has_kind = true; e.author.assign((char*)n.pubkey.data, 32); e.kind = n.kind; break; } default: e.main.assign(u.data.nrelay.url, strnlen(u.data.nrelay.url, 256)); }
    return e;
}
struct C12 { int kinds = 0, pct = 0; std::vector<Ent> ents; std::vector<std::unique_ptr<LibEnt>> libs; };
static C12* w12;
static nostr_error_t enc(LibEnt& l, bool uri, char* b, size_t n) { if (uri) return nostr_uri_encode(&l.u, b, n); switch (l.u.type) { case 0: return nostr_key_to_bech32(&l.u.data.npub, "npub", b, n); case 1: return nostr_privkey_to_bech32(&l.u.data.nsec, b, n); case 2: return nostr_event_id_to_bech32(l.u.data.note, b, n); case 3: return nostr_nprofile_encode(&l.u.data.nprofile, b, n); case 4: return nostr_nevent_encode(&l.u.data.nevent, b, n); case 5: return nostr_naddr_encode(&l.u.data.naddr, b, n); default: return nostr_nrelay_encode(&l.u.data.nrelay, b, n); } }
static std::string mangle(std::string t, const Src& s) {
    int n = 1 + (int)s(4); for (int i = 0; i < n && !t.empty(); i++) { size_t p = s((uint32_t)t.size()); switch (s(8)) { case 0: case 1: case 2: t[p] = CH[s(32)]; break; case 3: t.erase(p, 1); break; case 4: t.insert(p, 1, CH[s(32)]); break; case 5: if (p) std::swap(t[p - 1], t[p]); break; case 6: t[p] = "1bioAZ \x80-"[s(9)]; break; default: t.resize(p); } } return t;
}
static std::string forge(const Src& s, const std::string& hrp, const std::string& d) { static const std::vector<int> as = {255, 31, 0, 32, 254}; return b32_encode(hrp, d, (int)s(400), "bio1B!~\x80"[s(8)], s(2) ? 255 : s.of(as)); }
static std::string hostile(const Src& s) {       // identifiers with a right checksum but odd content
    Ent e = gen_ent(s, 3 + (int)s(4)); std::string d = ref_tlv(e); switch (s(15)) {
    case 14: return b32_encode(HRP[e.type], d, -1, 'b', 255, 1 + (int)s(s(2) ? 16 : 48));     // bits left over that say something
    case 10: { int t = 2 + (int)s(2); if (s(2)) { (t == 2 ? e.has_author : e.has_kind) = false; d = ref_tlv(e); } int want = t == 2 ? 32 : 4; int n = s(2) ? want + (s(2) ? 1 : -1) : (int)s(256); if (n == want) n++; std::string v = tlv(t, std::string(n, (char)(1 + s(255)))); d = s(2) ? v + d : d + v; break; }     // an author or kind of another length
    case 11: return forge(s, HRP[e.type], d);
    case 12: { if (e.main.size() > 254) e.main.resize(254); e.main.insert(s(2) ? e.main.size() : s((uint32_t)e.main.size() + 1), 1, '\0'); d = ref_tlv(e); break; }     // a NUL in or after the name
    case 13: { std::string t = b32_encode(HRP[e.type], d); for (int i = 0; i < 6; i++) { char& c = t[t.size() - 6 + i]; c = CH[(strchr(CH, c) - CH) ^ ((1 ^ 0x2bc830a3) >> 5 * (5 - i) & 31)]; } return t; }     // the other checksum, bech32m
    case 0: d = tlv(7 + s(200), gen_name(s, 20)) + d; break;                                     // unknown types
    case 1: d += tlv(9, ""); break;
    case 2: d.resize(s((uint32_t)d.size() + 1)); break;                                          // cut
    case 3: d[s((uint32_t)d.size())] ^= (char)(1 << s(8)); break;
    case 4: d += std::string(1, (char)s(4)) + std::string(1, (char)(1 + s(255))); break;           // announces more than there is
    case 5: { e.relays.clear(); int n = 14 + (int)s(12); for (int i = 0; i < n; i++) e.relays.push_back("wss://r" + std::to_string(i)); d = ref_tlv(e); break; }
    case 6: { static const std::vector<std::string> bad = {"http://x.example", "wss:/", "ws://", "wss://a b", "wss://\x7f", "wss://é", "", "WSS://a.b"}; e.relays = {"wss://good1.example", s.of(bad), "ws://good2"}; d = ref_tlv(e); break; }
    case 7: { std::string main = e.main; main.resize(s(40)); e.main = main; d = ref_tlv(e); break; }
    case 8: { size_t n = s(3) == 2 ? 4090 + s(20) : s(600); while (d.size() + 257 < n) d += tlv(40, std::string(255, 'z')); break; }
    default: { e.has_author = s(2); e.has_kind = s(2); e.author = unhex(gen_hex(s, 32)); d = ref_tlv(e); } }
    return b32_encode(HRP[e.type], d);
}
static std::string simple_odd(const Src& s) {     // key-like identifiers around the 90 character limit
    std::string hrp = s(2) ? HRP[s(3)] : std::string(1 + s(3) * s(15), "npubx"[s(5)]); int n; switch (s(5)) { case 0: n = 31 + (int)s(3); break; case 1: n = (int)s(60); break; case 2: n = 46 + (int)s(10); break; default: n = 32; } std::string d = unhex(gen_hex(s, n)); return s(6) ? b32_encode(hrp, d, -1, 'b', 255, s(3) ? 0 : 1 + (int)s(48)) : forge(s, hrp, d);
}
static void check_decode(const std::string& t, const Src& s, const char* what) {
    static const char* near[] = {"nostR:", "nostr;", "nostrX", "nostr", "nostr::", "nostr:nostr:", "nost:", "ostr:", "nostrr:", " nostr:", "nostr: ", "nostr:/", "nostr:@", "web+nostr:", "nostr\x7f", "nostr/"};
    C12& w = *w12; Ent want; int ok = ref_decode(t, want); if (t.find('\0') != std::string::npos) return; bool uri = s(2); if (t.size() > 90 && want.type >= 0 && want.type < 3) ok = NO; std::string in = uri ? (s(8) == 7 ? (ok = NO, near[s(sizeof near / sizeof *near)] + t) : "nostr:" + t) : t; CStr c(in); Leak lk; nostr_uri u; memset(&u, 0xA5, sizeof u); nostr_error_t rc; int type = -1;
    if (!uri) { for (int i = 0; i < 7; i++) if (!t.compare(0, strlen(HRP[i]) + 1, std::string(HRP[i]) + "1")) type = i; if (type < 0) type = (int)s(7); u.type = (nostr_uri_type)type; if (s(8) == 7) { type = (int)s(7); u.type = (nostr_uri_type)type; } if (ok != NO && want.type != type) ok = type == 0 && want.type < 3 ? UNCLEAR : NO; if (ok == NO && type == 0) { std::string h, d; if (b32_decode(t, h, d) && d.size() == 32 && t.size() <= 90) ok = UNCLEAR; } }
    arm(s, w.pct, w.kinds, 12);
    if (uri) rc = nostr_uri_parse(c, &u); else switch (type) { case 0: rc = nostr_key_from_bech32(c, &u.data.npub); break; case 1: rc = nostr_privkey_from_bech32(c, &u.data.nsec); break; case 2: rc = nostr_event_id_from_bech32(c, u.data.note); break; case 3: rc = nostr_nprofile_decode(c, &u.data.nprofile); break; case 4: rc = nostr_nevent_decode(c, &u.data.nevent); break; case 5: rc = nostr_naddr_decode(c, &u.data.naddr); break; default: rc = nostr_nrelay_decode(c, &u.data.nrelay); }
    Faults f = disarm();
    if (rc == NOSTR_OK) { Ent got = of_lib(u); if (ok == NO) violate("identifier-accepted", "%s '%.300s' is no identifier but is read as %s", what, in.c_str(), show(got).c_str()); if ((ok == YES || ok == MAYBE) && !eq(got, want)) violate("identifier-misread", "%s '%.300s' names %s but is read as %s", what, in.c_str(), show(want).c_str(), show(got).c_str()); count("decoded"); }
    else { if (ok == YES && !f.fired) violate("identifier-refused", "%s '%.300s' names %s but is refused: %s", what, in.c_str(), show(want).c_str(), nostr_error_string(rc)); count("refused"); }
    if (rc == NOSTR_OK || uri || type >= 3) { if (rc != NOSTR_OK && !uri) u.type = (nostr_uri_type)type; if (u.type >= 3 && u.type <= 5 && s(4) == 3) for (int twice = 0; twice < 2; twice++) { if (u.type == 3) nostr_nprofile_free(&u.data.nprofile); else if (u.type == 4) nostr_nevent_free(&u.data.nevent); else nostr_naddr_free(&u.data.naddr); size_t left = u.type == 3 ? u.data.nprofile.relay_count : u.type == 4 ? u.data.nevent.relay_count : u.data.naddr.relay_count; if (left) violate("relay-count", "a freed identifier still counts %zu relays", left); lk.check("the relays of a freed identifier"); count("freed_alone"); }
        nostr_uri_free(&u); if (rc == NOSTR_OK && !all_zero(&u.data, sizeof u.data)) violate("not-wiped", "a freed identifier still holds data"); }
    lk.check("an identifier");
}
static void c12_thread(int id) {
    C12& w = *w12; Src s = src("actor", id); int ops = 4 + (int)s(14);
    for (int i = 0; i < ops; i++) {
        size_t k = s((uint32_t)w.ents.size()); const Ent& e = w.ents[k]; LibEnt& l = *w.libs[k];
        switch (s(7)) {
        case 0: case 1: case 2: {                              // encode, exact buffer; then the receiver's side
            bool uri = s(2); std::string want = (uri ? "nostr:" : "") + ref_encode(e); bool fits_tlv = e.type < 3 || ref_tlv(e).size() <= 4096; size_t need = want.size() + 1, n = s(3) ? need : s(2) ? need - 1 : s((uint32_t)need + 40); Buf b(n); Leak lk; arm(s, w.pct, w.kinds, 6); nostr_error_t rc = enc(l, uri, b.c(), n); Faults f = disarm(); lk.check("encoding an identifier");
            if (rc == NOSTR_OK) { if (!memchr(b.c(), 0, n)) violate("unterminated", "an identifier is not terminated"); std::string got = b.c(); if (got != want && fits_tlv) { Ent g; std::string t = uri ? got.substr(6) : got; int r = ref_decode(t, g); violate("identifier-wrong", "%s is written as '%.300s' (which names %s)%s", show(e).c_str(), got.c_str(), r == YES ? show(g).c_str() : "nothing", f.fired ? " after a failure" : ""); } count("encoded"); }
            else { if (n >= need && fits_tlv && !f.fired) violate("encode-failed", "%s cannot be written to %zu bytes (needs %zu): %s", show(e).c_str(), n, need, nostr_error_string(rc)); count("encode_failed"); }
            std::string t = ref_encode(e); if (fits_tlv) check_decode(t, s, "the identifier"); break; }
        case 3: { std::string t = mangle(ref_encode(e), s); count("fault.corrupted_in_transit"); check_decode(t, s, "the corrupted text"); break; }
        case 4: case 5: check_decode(hostile(s), s, "the text"); break;
        default: if (s(2)) { std::string t = simple_odd(s); if (s(3) == 2) t = mangle(t, s); check_decode(t, s, "the text"); } else { std::string p; int n = 1 + (int)s(31); for (int q = 0; q < n; q++) p += "abcdefnpubz0123456789"[s(21)]; nostr_key key, back; memcpy(key.data, unhex(gen_hex(s, 32)).data(), 32); CStr cp(p); std::string want = b32_encode(p, std::string((char*)key.data, 32)); size_t sz = s(2) ? want.size() + 1 : s((uint32_t)want.size() + 20); Buf b(sz); Leak lk; nostr_error_t rc = nostr_key_to_bech32(&key, cp, b.c(), sz); lk.check("nostr_key_to_bech32"); if ((rc == NOSTR_OK) != (sz >= want.size() + 1)) violate("encode-failed", "a key with prefix '%s' and %zu bytes: %s", p.c_str(), sz, nostr_error_string(rc)); if (rc == NOSTR_OK) { if (want != b.c()) violate("identifier-wrong", "a key with prefix '%s' is written as %s, expected %s", p.c_str(), b.c(), want.c_str()); if (nostr_key_from_bech32(b.c(), &back) != NOSTR_OK || memcmp(&back, &key, 32)) violate("identifier-misread", "'%s' does not give its key back", b.c()); } count("prefixes"); }
        }
    }
}
static void c12_ident() {
    C12 w; w12 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.kinds = (int)g(2); w.pct = w.kinds ? 35 : 0; int n = 1 + (int)g(5); for (int i = 0; i < n; i++) { w.ents.push_back(gen_ent(g, (int)g(7))); w.libs.emplace_back(new LibEnt); to_lib(w.ents.back(), *w.libs.back()); }
    int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { c12_thread(i); }); sim_join_spawned();
    for (int i = 0; i < n; i++) if (!eq(of_lib(w.libs[i]->u), w.ents[i])) violate("argument-changed", "encoding changed its argument"); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C12, ident, c12_ident)
