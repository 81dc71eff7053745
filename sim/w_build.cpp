// C14: an event under construction changes exactly as asked, or not at all
// C15: replies, reposts, reactions and quotes are written and read as NIP-10, NIP-18 and NIP-25 define
#include "ident_ref.h"
std::string with_nul(const std::string& m, const Src& s);
struct CB { int pct = 0, kinds = 0; RefEvent shared; nostr_event* shared_e = nullptr; };
static CB* wb;
static const std::vector<std::string>& text_pool() { static const std::vector<std::string> v = {"e", "p", "d", "t", "k", "", "expiration", "nonce", "E", "ee", "a"}; return v; }
static std::vector<std::string> gen_tag(const Src& s) {
    std::vector<std::string> t; int n = s(12) == 11 ? 1 + (int)s(90) : 1 + (int)s(4);
    for (int i = 0; i < n; i++) t.push_back(i == 0 && s(3) ? s.of(text_pool()) : s(20) == 19 ? std::string(s(3) ? 1000 + s(100) : 3000, 'v') : s(6) == 5 ? gen_hex(s, 32) : gen_text(s, 5));
    if (t.size() > 1 && t[0] == "expiration" && s(2)) t[1] = std::to_string(s(2) ? s(2000000000) : s(10)); return t;
}
// whatever one reads from an event is what is in it
static void accessors(const nostr_event* e, const RefEvent& m, const Src& s) {
    auto bad = [&](const char* w) { violate("misread", "%s does not give what the event %s holds", w, m.tags_json().substr(0, 300).c_str()); };
    if (nostr_event_get_tag_count(e) != m.tags.size()) bad("nostr_event_get_tag_count"); char h[65];
    if (memcmp(nostr_event_get_id(e), m.id.data(), 32)) bad("nostr_event_get_id"); if (memcmp(nostr_event_get_pubkey(e), m.pk.data(), 32)) bad("nostr_event_get_pubkey");
    nostr_event_get_id_hex(e, h); if (hex(m.id.data(), 32) != h) bad("nostr_event_get_id_hex"); nostr_event_get_pubkey_hex(e, h); if (hex(m.pk.data(), 32) != h) bad("nostr_event_get_pubkey_hex");
    if (nostr_event_is_deletion(e) != (m.kind == 5)) bad("nostr_event_is_deletion");
    nostr_tag_iterator_t it, it2; nostr_tag_iterator_init(&it, e); nostr_tag_iterator_init(&it2, e);
    for (size_t i = 0; i <= m.tags.size(); i++) {
        size_t n = 77, n2 = 77; const char** v = nostr_event_get_tag_at(e, i, &n); const char** v2 = nostr_tag_iterator_next(&it, &n2); const nostr_tag* t = nostr_event_get_tag(e, i); nostr_tag_info_t info; bool more = nostr_tag_iterator_next_info(&it2, &info);
        if (i == m.tags.size()) { if (v || n || v2 || n2 || t || more) bad("reading past the last tag"); break; }
        auto& w = m.tags[i]; if (!v || n != w.size() || v2 != v || n2 != n || !t || nostr_tag_get_value_count(t) != n || !more || info.values_count != n - 1) bad("tag access");
        for (size_t j = 0; j < n; j++) if (w[j] != v[j] || w[j] != nostr_tag_get_value(t, j) || (j && w[j] != info.values[j - 1])) bad("tag value access"); if (nostr_tag_get_value(t, n) || w[0] != nostr_tag_get_name(t) || w[0] != info.name) bad("tag name access");
        bool idx = w[0].size() == 1 && isalpha((unsigned char)w[0][0]); if (nostr_tag_is_indexable(w[0].c_str()) != idx) bad("nostr_tag_is_indexable");
    }
    for (auto& name : text_pool()) {
        std::vector<std::string> all; const std::vector<std::string>* first = nullptr; for (auto& t : m.tags) if (t[0] == name) { if (!first) first = &t; if (t.size() > 1) all.push_back(t[1]); }
        const nostr_tag* t = nostr_event_find_tag(e, name.c_str()); if (!!t != !!first || (t && t->count != first->size()) || nostr_event_has_tag(e, name.c_str()) != !!first) bad("nostr_event_find_tag");
        const char* v = nostr_event_get_tag_value(e, name.c_str()); if (all.empty() ? v != nullptr : !v || all[0] != v) bad("nostr_event_get_tag_value");
        const char* got[4]; size_t mx = 1 + s(4), n = nostr_event_get_tag_values(e, name.c_str(), got, mx); if (n != std::min(mx, all.size())) bad("nostr_event_get_tag_values"); for (size_t i = 0; i < n; i++) if (all[i] != got[i]) bad("nostr_event_get_tag_values");
        if (name == "d") { v = nostr_event_get_d_tag(e); if (all.empty() ? v != nullptr : !v || all[0] != v) bad("nostr_event_get_d_tag"); }
        if (name == "expiration") { int64_t want = 0, x = nostr_event_get_expiration(e); bool num = !all.empty() && !all[0].empty() && all[0].size() < 18; if (num) for (char c : all[0]) if (!isdigit((unsigned char)c)) num = false; if (num) want = strtoll(all[0].c_str(), 0, 10); bool maybe = !all.empty() && !num && (isspace((unsigned char)all[0][0]) || all[0][0] == '+' || all[0][0] == '-'); if (!maybe && x != want) bad("nostr_event_get_expiration"); int64_t now = (int64_t)s(2000000000); if (!maybe && nostr_event_is_expired(e, now) != (want && now > want)) bad("nostr_event_is_expired"); }
        if (name == "e" || name == "p") {
            std::string bin; for (auto& x : all) if (x.size() == 64 && x.find_first_not_of("0123456789abcdef") == std::string::npos) bin += unhex(x);
            Leak lk; arm(s, wb->pct, wb->kinds, 4); size_t n2 = 99; uint8_t (*b)[32] = name == "e" ? nostr_event_get_e_tags_binary(e, &n2) : nostr_event_get_p_tags_binary(e, &n2); Faults f = disarm();
            if (f.fired ? (n2 != 0 || b) && !(b && n2 * 32 == bin.size()) : n2 * 32 != bin.size() || !!b != !bin.empty()) bad("binary ids"); if (b && memcmp(b, bin.data(), bin.size())) bad("binary ids"); nostr_free(b); lk.check("binary ids"); }
    }
}
static void transport(nostr_event* e, const RefEvent& m, const Src& s) {
    CB& w = *wb; Leak lk; arm(s, w.pct, w.kinds, 40);
    if (!HAS_JSON) {        // such a build says so, and gives out nothing
        char* js = nullptr; nostr_event* q = nullptr; char b[8] = ""; size_t len = 0; CStr c(m.json()); if (nostr_event_to_json(e, &js) == NOSTR_OK || js) violate("json-wrong", "a build without JSON writes an event as JSON"); if (nostr_event_from_json(c, &q) == NOSTR_OK || q) violate("accepted", "a build without JSON reads an event"); if (nostr_event_parse(c, 5, &q) == NOSTR_RELAY_OK || q) violate("accepted", "a build without JSON reads an event"); if (nostr_event_serialize(e, b, sizeof b, &len) == NOSTR_RELAY_OK || nostr_event_serialize_canonical(e, b, sizeof b, &len) == NOSTR_RELAY_OK) violate("json-wrong", "a build without JSON serialises an event");
        disarm(); lk.check("writing or reading an event"); return;
    }
    if (s(2)) {
        char* js = nullptr; nostr_error_t rc = nostr_event_to_json(e, &js); Faults f = disarm(); if (rc != NOSTR_OK) { if (!f.fired) violate("json-failed", "an event cannot be written as JSON"); if (js) violate("half-done", "a failed nostr_event_to_json returned a text"); return lk.check("nostr_event_to_json"); }
        J j; RefEvent r; if (!jparse(js, j) || !ref_from_json(j, r) || !same_event(r, m)) violate("json-wrong", "the event is written as %.300s, not as it is: %s", js, ev_diff(r, m).c_str());
        std::string text = js; nostr_free(js); nostr_event* q = nullptr; CStr c(text); arm(s, w.pct, w.kinds, 40); bool whole = s(2); std::unique_ptr<char[]> raw(new char[text.size() + 1]); memcpy(raw.get(), text.data(), text.size()); raw[text.size()] = 0; if (!whole) { raw.reset(new char[text.size()]); memcpy(raw.get(), text.data(), text.size()); }
        bool ok = whole ? nostr_event_from_json(c, &q) == NOSTR_OK : nostr_event_parse(raw.get(), text.size(), &q) == NOSTR_RELAY_OK; f = disarm(); if (ok ? !q : q != nullptr) violate("dangling", "parsing reported %s but returned %s", ok ? "success" : "failure", q ? "an event" : "none");
        if (!ok && !f.fired) violate("parse-failed", "the library cannot read the event that it wrote: %.300s", text.c_str()); if (ok && !same_event(from_lib(q), m)) violate("round-trip", "an event written and read again differs: %s", ev_diff(from_lib(q), m).c_str()); nostr_event_destroy(q); count(ok ? "round_trip" : "parse_failed");
        if (s(6) == 5) { std::string u = with_nul(text, s); if (u != text) { CStr cu(u); q = nullptr; if (s(2) ? nostr_event_from_json(cu, &q) == NOSTR_OK : nostr_event_parse(cu, u.size(), &q) == NOSTR_RELAY_OK) violate("cut-accepted", "a text with a NUL character is read as an event: %.600s", u.c_str()); if (q) violate("dangling", "a refused text gives out an event"); } }
    } else {
        bool canon = s(2); std::string want = m.canonical(); size_t n; if (!canon) { NoFaults nf; char* js = nullptr; nostr_event_to_json(e, &js); want = js; nostr_free(js); } switch (s(4)) { case 0: n = want.size() + 1; break; case 1: n = want.size(); break; case 2: n = 1 + s((uint32_t)want.size()); break; default: n = want.size() + 1 + s(100); }
        Buf b(n); bool nl = s(6) == 5; size_t len = nl ? want.size() : 12345, *lp = nl ? nullptr : &len; nostr_relay_error_t rc = canon ? nostr_event_serialize_canonical(e, b.c(), n, lp) : nostr_event_serialize(e, b.c(), n, lp); Faults f = disarm();
        if (rc == NOSTR_RELAY_OK) { if (len != want.size() || n <= len || want != b.c()) violate("json-wrong", "the event's %s form is %.300s, expected %.300s", canon ? "canonical" : "JSON", b.c(), want.c_str()); } else if (n > want.size() && !f.fired) violate("json-failed", "the event does not fit in %zu bytes, it has %zu", n, want.size()); else if (rc == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL && len != want.size()) violate("json-wrong", "a text of %zu bytes is announced as %zu", want.size(), len);
    }
    lk.check("writing or reading an event");
}
static void must_equal(nostr_event* e, const RefEvent& m, const char* what, nostr_error_t rc) { RefEvent g = from_lib(e); if (!same_event(g, m)) violate(rc == NOSTR_OK ? "wrong-change" : "half-done", "%s reports %s and the event differs from what it should be: %s", what, nostr_error_string(rc), ev_diff(g, m).substr(0, 700).c_str()); }
struct Slot { nostr_event* e = nullptr; RefEvent m; };
static void fresh(nostr_event* e, RefEvent& m, int64_t t0) { int64_t t = e->created_at; if (t < std::min(t0, sim_wall()) || t > std::max(t0, sim_wall())) violate("wrong-time", "a new event is dated %lld, now it is %lld", (long long)t, (long long)sim_wall()); m.created_at = t; }
// ---- what the helpers of NIP-10, 18 and 25 should write
static std::vector<std::vector<std::string>> quotes(const std::string& c) {
    std::vector<std::vector<std::string>> out; size_t p = 0;
    while ((p = c.find("nostr:", p)) != std::string::npos) {
        size_t st = p + 6; bool cand = !c.compare(st, 5, "note1") || !c.compare(st, 7, "nevent1") || !c.compare(st, 6, "naddr1"); if (!cand) { p = st; continue; } size_t en = st; while (en < c.size() && ((c[en] >= 'a' && c[en] <= 'z') || isdigit((unsigned char)c[en]))) en++;
        Ent e; std::string id = c.substr(st, en - st); int ok = ref_decode(id, e); if (ok == YES && e.type == 2 && id.size() > 90) ok = NO; if (ok != YES) { p = st; continue; } std::string r = e.relays.empty() ? "" : e.relays[0];
        if (e.type == 2) out.push_back({"q", hex(e.main.data(), 32), "", ""}); else if (e.type == 4) out.push_back({"q", hex(e.main.data(), 32), r, e.has_author ? hex(e.author.data(), 32) : ""}); else if (e.type == 5) out.push_back({"q", std::to_string(e.kind) + ":" + hex(e.author.data(), 32) + ":" + e.main, r, ""}); p = en;
    }
    return out;
}
static std::string quote_text(const Src& s) {
    std::string c; int n = 1 + (int)s(4); static const std::vector<std::string> sep = {" ", "\n", ", ", ".", "", "é", "(", "#", "nostr:", "nostr: ", "/", "A"}; c = s(2) ? gen_text(s, 4) : "";
    for (int i = 0; i < n; i++) { Ent e; do e = gen_ent(s, 2 + (int)s(4)); while (e.main.find('\0') != std::string::npos && e.type == 5); if (ref_tlv(e).size() > 4000 && e.type > 2) e.relays.clear(); std::string id = ref_encode(e); switch (s(8)) { case 6: id[s((uint32_t)id.size())] ^= 1; break; case 7: id += "qpz"[s(3)]; break; default: break; } c += (s(10) ? "nostr:" : "") + id + s.of(sep); if (s(3) == 2) c += gen_text(s, 3); }
    return c;
}
static std::string hexish(const Src& s, bool& ok) { std::string h = gen_hex(s, 32); ok = true; switch (s(10)) { case 7: for (auto& c : h) c = (char)toupper(c); break; case 8: h[s(64)] = "gG x-"[s(5)]; ok = false; break; case 9: ok = false; h = s(2) ? h + "0" : h.substr(0, s(64)); break; default: break; } return h; }
static bool nips_op(Slot& sl, const Src& s) {        // returns false if it had nothing to do
    CB& w = *wb; const char* what; nostr_error_t rc; Faults f; RefEvent m = sl.m; bool valid = true; auto relay = [&](bool& null) { null = s(3) == 2; return s(2) ? std::string("wss://r.example/") + gen_name(s, 5) : s(2) ? std::string() : gen_text(s, 6); };
    switch (s(5)) {
    case 0: {
        bool a, b, nr, np, n2, nq; std::string root = hexish(s, a), rep = hexish(s, b), r1 = relay(nr), r2 = relay(n2), p1 = gen_hex(s, 32), p2 = gen_hex(s, 32); np = s(2); nq = s(2); bool hr = s(4) != 3, hp = s(3) != 2; if (!sl.e) return false; what = "nostr_event_add_reply_tags"; valid = hr || hp;
        arm(s, w.pct, w.kinds, 6); rc = nostr_event_add_reply_tags(sl.e, hr ? root.c_str() : nullptr, nr ? nullptr : r1.c_str(), np ? p1.c_str() : nullptr, hp ? rep.c_str() : nullptr, n2 ? nullptr : r2.c_str(), nq ? p2.c_str() : nullptr); f = disarm();
        if (hr) { m.tags.push_back({"e", root, nr ? "" : r1, "root"}); if (np) m.tags.back().push_back(p1); } if (hp) { m.tags.push_back({"e", rep, n2 ? "" : r2, "reply"}); if (nq) m.tags.back().push_back(p2); } break; }
    case 1: { bool a, nr; std::string p = hexish(s, a), r = relay(nr); if (!sl.e) return false; what = "nostr_event_add_mention_tag"; arm(s, w.pct, w.kinds, 4); rc = nostr_event_add_mention_tag(sl.e, p.c_str(), nr ? nullptr : r.c_str()); f = disarm(); m.tags.push_back({"p", p}); if (!nr) m.tags.back().push_back(r); break; }
    case 2: { if (!sl.e) return false; std::string c = quote_text(s); { NoFaults nf; nostr_event_set_content(sl.e, c.c_str()); } sl.m.content = m.content = c; what = "nostr_quote_tags_from_content"; arm(s, w.pct, w.kinds, 20); rc = nostr_quote_tags_from_content(sl.e); f = disarm(); for (auto& t : quotes(c)) m.tags.push_back(t); count("quotes", m.tags.size() - sl.m.tags.size()); break; }
    case 3: case 4: default: {
        bool rp = s(2), a, b, nr; std::string id = hexish(s, a), pk = hexish(s, b), r = relay(nr), d = gen_text(s, 5), c = s(2) ? gen_text(s, 10) : "+"; bool hd = s(3) == 2, hc = s(2); static const std::vector<int> ks = {1, 30023, 0, 6, 7, 65535, 16}; int kind = s(5) == 4 ? (int)s(65536) : s.of(ks); if (s(8) == 7) d += std::string(300, 'd'); nostr_event* old = sl.e; if (old) nostr_event_destroy(old); sl.e = nullptr; m = RefEvent(); int64_t t0 = sim_wall(); Leak lk;
        what = rp ? "nostr_repost_create" : "nostr_reaction_create"; arm(s, w.pct, w.kinds, 14);
        if (rp) { rc = nostr_repost_create(&sl.e, id.c_str(), pk.c_str(), nr ? nullptr : r.c_str(), (uint16_t)kind, hd ? d.c_str() : nullptr, hc ? c.c_str() : nullptr); valid = a && b && !nr; m.kind = kind == 1 ? 6 : 16; m.content = hc ? c : ""; m.tags = {{"e", id, r}, {"p", pk}}; if (kind != 1) m.tags.push_back({"k", std::to_string(kind)}); if (hd) m.tags.push_back({"a", std::to_string(kind) + ":" + pk + ":" + d}); }
        else { rc = nostr_reaction_create(&sl.e, hc ? c.c_str() : nullptr, id.c_str(), pk.c_str(), nr ? nullptr : r.c_str(), (uint16_t)kind); valid = a && b; m.kind = 7; m.content = hc ? c : "+"; m.tags = {{"e", id, nr ? "" : r, pk}, {"p", pk}}; if (!nr) m.tags[1].push_back(r); if (kind) m.tags.push_back({"k", std::to_string(kind)}); }
        f = disarm(); if (rc == NOSTR_OK ? !sl.e : sl.e != nullptr) violate("dangling", "%s reports %s but the event is %s", what, nostr_error_string(rc), sl.e ? "not NULL" : "NULL");
        if (rc == NOSTR_OK) { fresh(sl.e, m, t0); sl.m = m; } else lk.check(what); break; }
    }
    if (rc == NOSTR_OK) { if (!valid) violate("accepted", "%s accepts what it cannot express", what); sl.m = m; count("nip_written"); } else { if (valid && !f.fired) violate("refused", "%s fails: %s", what, nostr_error_string(rc)); count("nip_refused"); }
    if (sl.e) must_equal(sl.e, sl.m, what, rc); return true;
}
struct Out { std::string v; bool cut = false; };
static std::string outstr(Buf& b, const char* what) { if (!b.n) return ""; if (!memchr(b.c(), 0, b.n)) violate("unterminated", "%s left its output unterminated", what); return b.c(); }
static void expect(const char* what, Buf& b, const std::string& want, const RefEvent& m) { if (!b.n) return; std::string g = outstr(b, what), x = want.substr(0, b.n - 1); if (g != x) violate("misread", "%s reads '%.200s' from %s, it says '%.200s'", what, g.c_str(), m.tags_json().substr(0, 400).c_str(), x.c_str()); }
static bool is_id(const std::string& v) { return v.size() == 64 && v.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; }
static void nips_read(const Src& s) {
    RefEvent m; static const std::vector<int> ks = {1, 6, 16, 7, 7, 6, 1}; m.kind = s(20) == 19 ? (int)s(65536) : s.of(ks); static const std::vector<std::string> cs = {"+", "-", "", "🤙", ":soapbox:", "+ ", "--"}; m.content = s(3) ? s.of(cs) : gen_text(s); int n = (int)s(6); static const std::vector<std::string> mk = {"root", "reply", "", "mention", "roots", "repl", "Root"};
    bool marked_style = s(2); auto ident = [&] { if (s(12) != 11) return gen_hex(s, 32); std::string h = gen_hex(s, 32); switch (s(6)) { case 0: h.pop_back(); break; case 1: h += h.substr(0, 1 + s(8)); break; case 2: h[s(64)] = "gxG/:@ "[s(7)]; break; case 3: for (auto& c : h) c = (char)toupper(c); break; case 4: h = s(2) ? "" : gen_text(s, 5); break; default: h = (s(2) ? "0x" : " ") + h; h.resize(64 + s(2)); } return h; };
    for (int i = 0; i < n; i++) { std::vector<std::string> t; switch (s(6)) { case 0: case 1: case 2: t = {"e", ident()}; if (s(20) == 19) t.pop_back(); else if (marked_style ? s(8) : s(3)) { t.push_back(s(2) ? "wss://" + gen_name(s) + (s(10) ? "" : std::string(200, 'w')) : ""); if (marked_style ? s(6) : s(10) == 9) { t.push_back(s(4) ? mk[s(4)] : s.of(mk)); if (s(3) == 2) t.push_back(gen_hex(s, 32)); } } break;
        case 3: t = {"p", ident()}; if (s(2)) t.push_back("wss://p"); if (s(20) == 19) t.resize(1); break; case 4: { static const std::vector<std::string> kv = {"1", "30023", "0", "65535", "65536", "65537", "65543", "131073", "4294967297", "18446744073709551617", "", "x", "7 ", "1x", " 1", "+7", "-1", "-18446744073709551609", "\t7"}; t = {"k", s(3) == 2 ? std::to_string(s(65536)) : s.of(kv)}; break; } default: t = gen_tag(s); if (t[0] == "e" || t[0] == "p" || t[0] == "k" || t[0].empty()) t[0] = "t"; } m.tags.push_back(t); }
    nostr_event* e; { NoFaults nf; e = make_event(m); } CB& w = *wb; Leak lk; auto size = [&](size_t full) { return s(6) ? full : (size_t)s((uint32_t)full); };
    struct E { std::string id, relay, marker; }; std::vector<E> es; for (auto& t : m.tags) if (t[0] == "e" && t.size() >= 2 && is_id(t[1])) es.push_back({t[1], t.size() > 2 ? t[2] : "", t.size() > 3 ? t[3] : ""});
    auto find = [&](const char* marker, bool last, bool& clear) -> const E* { clear = true; for (auto& x : es) if (x.marker == marker) return &x; std::vector<const E*> c; bool marked = false; for (auto& x : es) { if (x.marker != "mention") c.push_back(&x); if (x.marker == "root" || x.marker == "reply") marked = true; } if (c.empty()) return nullptr; if (marked && c.size() > 1) clear = false; return last ? c.back() : c.front(); };
    for (int rep = 0; rep < 2; rep++) {
        bool clear; const E* x = find(rep ? "reply" : "root", rep, clear); Buf id(size(65)), rh(s(5) ? size(256) : 0); const char* what = rep ? "nostr_event_get_reply_id" : "nostr_event_get_root_id"; arm(s, w.pct, w.kinds, 2); nostr_error_t rc = rep ? nostr_event_get_reply_id(e, id.c(), id.n, rh.n ? rh.c() : nullptr, rh.n) : nostr_event_get_root_id(e, id.c(), id.n, rh.n ? rh.c() : nullptr, rh.n); Faults f = disarm();
        if (id.n < 65) { if (rc == NOSTR_OK) violate("accepted", "%s accepts a buffer of %zu bytes", what, id.n); continue; }
        if (rc == NOSTR_OK) { if (!x) violate("misread", "%s finds one in %s", what, m.tags_json().c_str()); if (clear) { expect(what, id, x->id, m); if (rh.n) expect(what, rh, x->relay.substr(0, 255), m); } else { bool any = false; for (auto& y : es) if (y.marker != "mention" && y.id == id.c()) any = true; if (!any) violate("misread", "%s gives %s, not one of %s", what, id.c(), m.tags_json().c_str()); } }
        else { if (x && !f.fired) violate("misread", "%s finds nothing in %s: %s", what, m.tags_json().c_str(), nostr_error_string(rc)); if (!x && !f.fired && rc != NOSTR_ERR_NOT_FOUND) violate("misread", "%s fails with %s on %s", what, nostr_error_string(rc), m.tags_json().c_str()); }
        if (rep) { int is = 9; arm(s, w.pct, w.kinds, 2); rc = nostr_event_is_reply(e, &is); f = disarm(); if (!f.fired && (rc != NOSTR_OK || is != (x ? 1 : 0))) violate("misread", "nostr_event_is_reply says %d for %s", is, m.tags_json().c_str()); }
    }
    std::vector<std::string> ev, pv, kv, rv; for (auto& t : m.tags) if (t.size() >= 2) { if ((t[0] == "e" || t[0] == "p") && !is_id(t[1])) { count("malformed_id"); continue; } if (t[0] == "e") { ev.push_back(t[1]); rv.push_back(t.size() > 2 ? t[2] : ""); } else if (t[0] == "p") pv.push_back(t[1]); else if (t[0] == "k") kv.push_back(t[1]); }
    int kind = m.kind == 6 ? 1 : 0; bool kclear = kv.size() <= 1, over = false; if (kv.size() == 1) { bool num = !kv[0].empty(); for (char c : kv[0]) if (!isdigit((unsigned char)c)) num = false; if (num && (kv[0].size() > 5 || atoi(kv[0].c_str()) > 65535)) over = true; else if (num) kind = atoi(kv[0].c_str()); }
    { Buf id(size(65)), pk(size(65)), rh(size(256)); uint16_t k = 4242; nostr_error_t rc = nostr_repost_parse(e, id.n ? id.c() : nullptr, id.n, pk.n ? pk.c() : nullptr, pk.n, rh.n ? rh.c() : nullptr, rh.n, s(6) == 5 ? (k = kind, nullptr) : &k); if (m.kind != 6 && m.kind != 16) { if (rc == NOSTR_OK) violate("accepted", "an event of kind %d is read as a repost", m.kind); } else { if ((rc == NOSTR_OK) != !ev.empty()) violate("misread", "nostr_repost_parse reports %s for %s", nostr_error_string(rc), m.tags_json().c_str()); if (ev.size() == 1) { expect("nostr_repost_parse", id, ev[0], m); expect("nostr_repost_parse", rh, rv[0], m); } if (pv.size() <= 1) expect("nostr_repost_parse", pk, pv.empty() ? "" : pv[0], m); if (kclear && k != kind && !(over && k == 65535)) violate("misread", "nostr_repost_parse gives kind %d for %s in an event of kind %d", k, m.tags_json().c_str(), m.kind); count("repost_read"); } }
    { Buf c(size(512)), id(size(65)), pk(size(65)); uint16_t k = 4242; nostr_error_t rc = nostr_reaction_parse(e, c.n ? c.c() : nullptr, c.n, id.n ? id.c() : nullptr, id.n, pk.n ? pk.c() : nullptr, pk.n, s(6) == 5 ? (k = kind, nullptr) : &k); int like = 9, dis = 9; nostr_error_t r2 = nostr_reaction_is_like(e, &like), r3 = nostr_reaction_is_dislike(e, &dis);
      if (m.kind != 7) { if (rc == NOSTR_OK || r2 == NOSTR_OK || r3 == NOSTR_OK) violate("accepted", "an event of kind %d is read as a reaction", m.kind); } else { if ((rc == NOSTR_OK) != !ev.empty()) violate("misread", "nostr_reaction_parse reports %s for %s", nostr_error_string(rc), m.tags_json().c_str()); expect("nostr_reaction_parse", c, m.content, m); expect("nostr_reaction_parse", id, ev.empty() ? "" : ev.back(), m); expect("nostr_reaction_parse", pk, pv.empty() ? "" : pv.back(), m); if (kclear && k != kind && !(over && k == 65535)) violate("misread", "nostr_reaction_parse gives kind %d for %s", k, m.tags_json().c_str()); if (r2 != NOSTR_OK || like != (m.content == "+" || m.content.empty()) || r3 != NOSTR_OK || dis != (m.content == "-")) violate("misread", "a reaction '%s' is like %d, dislike %d", m.content.c_str(), like, dis); count("reaction_read"); } }
    lk.check("reading an event"); if (!same_event(from_lib(e), m)) violate("event-changed", "reading changed the event"); nostr_event_destroy(e);
}
static void build_op(Slot& sl, const Src& s, bool nips) {
    CB& w = *wb; int64_t t0 = sim_wall(); Leak lk; nostr_error_t rc; Faults f;
    if (!sl.e) { arm(s, w.pct, w.kinds, 4); rc = nostr_event_create(&sl.e); f = disarm(); if (rc != NOSTR_OK) { if (sl.e) violate("dangling", "a failed nostr_event_create left a pointer"); if (!f.fired) violate("refused", "nostr_event_create fails"); lk.check("nostr_event_create"); return; } RefEvent m; m.kind = sl.e->kind; fresh(sl.e, m, t0); sl.m = m; return must_equal(sl.e, sl.m, "nostr_event_create", rc); }
    switch (s(nips ? 6 : 9)) {
    case 0: case 1: case 2: case 3: {
        if (!nips && s(60) == 59) {      // very many small tags
            NoFaults nf; int n = 200 + (int)s(700), k = 1 + (int)s(3); std::vector<const char*> v(k, s(2) ? "" : "x"); std::vector<std::string> t(v.begin(), v.end()); for (int i = 0; i < n; i++) { rc = nostr_event_add_tag(sl.e, v.data(), k); if (rc != NOSTR_OK) violate("refused", "a small tag cannot be added to %zu", sl.m.tags.size()); sl.m.tags.push_back(t); }
            count("many_tags"); must_equal(sl.e, sl.m, "nostr_event_add_tag", rc); return;
        }
        auto t = gen_tag(s); std::vector<const char*> v; for (auto& x : t) v.push_back(x.c_str()); size_t n = v.size(); bool valid = true; int odd = (int)s(16); if (odd == 14) { v[s((uint32_t)n)] = nullptr; valid = false; } else if (odd == 15) { n = 0; valid = false; } else if (odd == 13) { n = 101; t.resize(n, "x"); v.clear(); for (auto& x : t) v.push_back(x.c_str()); valid = false; }
        arm(s, w.pct, w.kinds, 3); rc = nostr_event_add_tag(sl.e, v.data(), n); f = disarm(); if (rc == NOSTR_OK) { if (!valid) { if (odd == 13) sl.m.tags.push_back(t); else violate("accepted", "a tag with %s is accepted", n ? "a missing value" : "no values"); } else sl.m.tags.push_back(t); } else if (valid && !f.fired) violate("refused", "a tag of %zu values cannot be added to %zu: %s", n, sl.m.tags.size(), nostr_error_string(rc)); must_equal(sl.e, sl.m, "nostr_event_add_tag", rc); break; }
    case 4: { std::string c = s(12) == 11 ? std::string(5000, 'c') : gen_text(s, 20); bool null = s(16) == 15; arm(s, w.pct, w.kinds, 2); rc = nostr_event_set_content(sl.e, null ? nullptr : c.c_str()); f = disarm(); if (rc == NOSTR_OK) { if (null) violate("accepted", "no content is accepted"); sl.m.content = c; } else if (!null && !f.fired) violate("refused", "content cannot be set: %s", nostr_error_string(rc)); must_equal(sl.e, sl.m, "nostr_event_set_content", rc); break; }
    case 5: accessors(sl.e, sl.m, s); break;
    case 6: { arm(s, w.pct, w.kinds, 20); rc = nostr_event_compute_id(sl.e); f = disarm(); if (rc == NOSTR_OK) sl.m.id = sha256(sl.m.canonical()); else if (!f.fired) violate("refused", "no id can be computed: %s", nostr_error_string(rc)); must_equal(sl.e, sl.m, "nostr_event_compute_id", rc); break; }
    case 7: sl.e->kind = (uint16_t)(sl.m.kind = s(3) ? (int)s(8) : (int)s(65536)); sl.e->created_at = sl.m.created_at = s(4) ? 1600000000 + s(100000) : s(2) ? 0 : (int64_t)(s.u64() >> 12); { std::string k = sha256(std::to_string(s(1000))); memcpy(sl.e->pubkey.data, k.data(), 32); sl.m.pk = k; k = sha256(k); memcpy(sl.e->sig, k.data(), 32); sl.m.sig.replace(0, 32, k); } break;
    default: transport(sl.e, sl.m, s); must_equal(sl.e, sl.m, "writing an event", NOSTR_OK);
    }
}
static void world_build(bool nips) {
    CB w; wb = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.kinds = (int)g(2) ? FAULT_ALLOC : 0; w.pct = w.kinds ? 40 : 0; int nt = 1 + (int)g(3);
    w.shared.kind = (int)g(10); w.shared.created_at = 1700000000; w.shared.tags.clear(); { int n = (int)g(6); for (int i = 0; i < n; i++) w.shared.tags.push_back(gen_tag(g)); } w.shared.content = gen_text(g); w.shared.seal_fake(key_no(1)); w.shared_e = make_event(w.shared);
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, nips] {
        Src s = src("actor", i); int ops = 4 + (int)s(s(6) ? 12 : 80); std::vector<Slot> sl(1 + s(3));
        for (int k = 0; k < ops; k++) { Slot& x = sl[s((uint32_t)sl.size())];
            if (nips) switch (s(4)) { case 0: nips_read(s); break; case 1: build_op(x, s, true); break; default: nips_op(x, s); }
            else if (s(12) == 11 && x.e) { nostr_event_destroy(x.e); x = Slot(); } else if (s(12) == 11) { accessors(wb->shared_e, wb->shared, s); if (s(2)) transport(wb->shared_e, wb->shared, s); } else build_op(x, s, false); }
        for (auto& x : sl) { if (x.e) must_equal(x.e, x.m, "the last call", NOSTR_OK); nostr_event_destroy(x.e); } });
    sim_join_spawned(); if (!same_event(from_lib(w.shared_e), w.shared)) violate("event-changed", "reading an event in several threads changed it"); nostr_event_destroy(w.shared_e); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
static void c14_build() { world_build(false); }
static void c15_nips() { world_build(true); }
WORLD(C14, build, c14_build)
WORLD(C15, nips, c15_nips)
