// C19: lists (NIP-51) and relay lists (NIP-65) — kept exactly, published exactly, private items for their owner only
#include "nip44_ref.h"
std::string with_nul(const std::string& m, const Src& s);
struct Item { std::string type, value, hint, pet; bool priv = false; bool operator==(const Item& o) const { return type == o.type && value == o.value && hint == o.hint && pet == o.pet && priv == o.priv; } };
struct MList { int kind = 0; bool has[4] = {}; std::string meta[4]; std::vector<Item> items; };
static const char* META[4] = {"d", "title", "description", "image"};
struct C19 { int pct = 0, kinds = 0; nostr_event* shared_e = nullptr; MList shared; RefEvent shared_r; int seq = 0; };
static C19* w19;
static std::string show(const MList& m) { std::string r = "kind " + std::to_string(m.kind); for (int i = 0; i < 4; i++) if (m.has[i]) r += std::string(" ") + META[i] + "=" + m.meta[i].substr(0, 40); for (auto& x : m.items) r += " [" + x.type + "," + x.value.substr(0, 40) + "," + x.hint.substr(0, 20) + "," + x.pet.substr(0, 20) + (x.priv ? ",private]" : "]"); return r.substr(0, 800); }
static MList read_list(const nostr_list* l) {
    MList m; m.kind = l->kind; const char* f[4] = {l->d_tag, l->title, l->description, l->image}; for (int i = 0; i < 4; i++) { m.has[i] = f[i]; m.meta[i] = f[i] ? f[i] : ""; } size_t n = nostr_list_count(l); if (n != l->item_count) violate("count", "nostr_list_count is wrong");
    for (size_t i = 0; i < n; i++) { const nostr_list_item* x = nostr_list_get(l, i); if (!x || !x->tag_type || !x->value) violate("broken-item", "item %zu of %zu is not whole", i, n); m.items.push_back({x->tag_type, x->value, x->relay_hint ? x->relay_hint : "", x->petname ? x->petname : "", x->is_private}); } if (nostr_list_get(l, n)) violate("count", "there is an item behind the last one"); return m;
}
static bool same_list(const MList& a, const MList& b) { for (int i = 0; i < 4; i++) if (a.has[i] != b.has[i] || a.meta[i] != b.meta[i]) return false; return a.kind == b.kind && a.items == b.items; }
static void must_list(const nostr_list* l, const MList& m, const char* what, nostr_error_t rc) { MList g = read_list(l); if (!same_list(g, m)) violate(rc == NOSTR_OK ? "list-wrong" : "list-changed", "after %s (%s) the list is %s, expected %s", what, nostr_error_string(rc), show(g).c_str(), show(m).c_str()); }
static std::string token(const Src& s, int big = 0) { std::string r = "v" + std::to_string(w19->seq++) + "x" + gen_name(s, 6); switch (s(8)) { case 5: if (s(3) == 2) { static const char cc[] = "\x01\x1f\b\"\\\n"; char c = cc[s(6)]; r += std::string(1 + s(60), c); } break; case 6: r += gen_text(s, 8); break; case 7: if (big) r += std::string(s(4) ? s(300) : 900 + s(400), 'w'); break; default: break; } return r; }
static std::string opt(const Src& s, bool& null) { null = s(2); return null ? "" : s(6) == 5 ? "" : s(30) == 29 ? token(s) + std::string(500 + s(30), 'h') : s(2) ? "wss://r.example/" + gen_name(s) : token(s); }
static std::string hexid(const Src& s, bool& ok) { std::string h = gen_hex(s, 32); ok = true; int k = (int)s(14); if (k == 10) for (auto& c : h) c = (char)toupper(c); else if (k == 11) { h[s(64)] = "g -"[s(3)]; ok = false; } else if (k == 12) { h.resize(s(64)); ok = false; } else if (k == 13) { h += "0"; ok = false; } return h; }
static nostr_error_t add_some(nostr_list* l, const Src& s, Item& it, bool& valid, bool priv) {
    bool nh, np; std::string h = opt(s, nh), p = opt(s, np), v = token(s, 1); if (s(25) == 24) v = ""; valid = true; it = {"", v, nh ? "" : h, "", priv}; const char* hh = nh ? nullptr : h.c_str();
    switch (s(8)) {
    case 0: it.type = "p"; it.value = v = hexid(s, valid); it.pet = np ? "" : p; return nostr_list_add_pubkey(l, v.c_str(), hh, np ? nullptr : p.c_str(), priv);
    case 1: it.type = "e"; it.value = v = hexid(s, valid); return nostr_list_add_event(l, v.c_str(), hh, priv);
    case 2: it.type = "t"; it.hint = ""; valid = !v.empty(); return nostr_list_add_hashtag(l, v.c_str(), priv);
    case 3: it.type = "word"; it.hint = ""; valid = !v.empty(); return nostr_list_add_word(l, v.c_str(), priv);
    case 4: it.type = "relay"; it.hint = ""; valid = !v.empty(); return nostr_list_add_relay(l, v.c_str(), priv);
    case 5: it.type = "a"; valid = !v.empty(); return nostr_list_add_reference(l, v.c_str(), hh, priv);
    case 6: it.type = "group"; it.pet = np ? "" : p; valid = !v.empty() && !nh && !h.empty(); return nostr_list_add_group(l, v.c_str(), hh, np ? nullptr : p.c_str(), priv);
    default: it.type = "emoji"; valid = !v.empty() && !nh && !h.empty(); return nostr_list_add_emoji(l, v.c_str(), hh, priv);
    }
}
static std::vector<std::vector<std::string>> tags_of(const MList& m) {
    std::vector<std::vector<std::string>> t; if (m.kind >= 30000 && m.kind < 40000) { t.push_back({"d", m.meta[0]}); for (int i = 1; i < 4; i++) if (m.has[i]) t.push_back({META[i], m.meta[i]}); }
    for (auto& x : m.items) if (!x.priv) { t.push_back({x.type, x.value}); if (!x.hint.empty() || !x.pet.empty()) t.back().push_back(x.hint); if (!x.pet.empty()) t.back().push_back(x.pet); } return t;
}
static std::vector<std::vector<std::string>> trimmed(std::vector<std::vector<std::string>> t) { for (auto& x : t) while (x.size() > 2 && x.back().empty()) x.pop_back(); return t; }
static MList list_of(const RefEvent& r) {       // what the public part of an event says
    MList m; m.kind = r.kind; for (auto& t : r.tags) { if (t.size() < 2) continue; int k = -1; for (int i = 0; i < 4; i++) if (t[0] == META[i]) k = i; if (k >= 0) { m.has[k] = true; m.meta[k] = t[1]; } else m.items.push_back({t[0], t[1], t.size() > 2 ? t[2] : "", t.size() > 3 ? t[3] : "", false}); } return m;
}
static std::string jesc(const std::string& v, const Src& s, bool odd) { std::string q = jstr(v); if (!odd) return q; std::string o; for (size_t i = 0; i < q.size(); i++) { if (q[i] == '\\') { size_t n = q[i + 1] == 'u' ? 6 : 2; o += q.substr(i, n); i += n - 1; continue; } if (q[i] == '/' && s(2)) o += "\\/"; else if (isalnum((unsigned char)q[i]) && s(12) == 11) { char b[8]; snprintf(b, sizeof b, "\\u%04x", q[i]); o += b; } else o += q[i]; } if (s(3) == 0) return o; std::string r; for (size_t i = 0; i < o.size();) { unsigned char c = o[i]; int n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc0 ? 2 : 1; if (n == 1 || s(4) == 3) { r += o.substr(i, n); i += n; continue; } unsigned cp = c & (0xff >> (n + 1)); for (int k = 1; k < n; k++) cp = cp << 6 | (o[i + k] & 0x3f); i += n; char b[16]; const char* f = s(2) ? "\\u%04x" : "\\u%04X"; if (cp > 0xffff) { snprintf(b, sizeof b, f, 0xd800 + ((cp - 0x10000) >> 10)); r += b; cp = 0xdc00 + (cp & 0x3ff); } snprintf(b, sizeof b, f, cp); r += b; } return r; }
static bool private_wire(const std::string& text, const RefKey& k, std::string& js, std::string* nonce) { return n44_decrypt(n44_conv(k.sk, k.pk), text, js, nonce); }
static void check_read(const nostr_event* e, const MList& want, const nostr_keypair* kp, const Src& s, const char* what) {
    for (int tries = 0; tries < 2; tries++) { nostr_list* l = (nostr_list*)8; Leak lk; if (tries) disarm(); else arm(s, w19->pct, w19->kinds, 30); nostr_error_t rc = nostr_list_from_event(e, kp, &l); Faults f = disarm();
        if (rc == NOSTR_OK) { MList g = read_list(l); if (!same_list(g, want)) violate("misread", "%s is read as %s, it says %s", what, show(g).c_str(), show(want).c_str()); if (s(3) == 2) must_list(l, want, "reading", rc); nostr_list_free(l); lk.check("nostr_list_from_event and free"); count("list_read"); return; }
        if (l) violate("dangling", "a failed nostr_list_from_event gives a list"); lk.check("nostr_list_from_event"); if (!f.fired) violate("refused", "%s cannot be read: %s; it says %s", what, nostr_error_string(rc), show(want).c_str()); }
}
static void publish(const nostr_list* l, const MList& m, const Src& s, const RefKey& owner, const nostr_keypair* kp) {
    bool priv = false; for (auto& x : m.items) priv |= x.priv; bool nokey = s(4) == 3; nostr_event* e = (nostr_event*)8; int64_t t0 = sim_wall(); size_t r0 = rng_log().size(); (void)r0; Leak lk; arm(s, w19->pct, w19->kinds, 40); nostr_error_t rc = nostr_list_to_event(l, nokey ? nullptr : kp, &e); Faults f = disarm(); int64_t t1 = sim_wall(); must_list(l, m, "nostr_list_to_event", rc); bool valid = !(priv && nokey);
#if !defined(VARIANT_NOS) && !defined(VARIANT_NOSJ)
    if (priv) valid = false;                   // private items need the encryption this build leaves out
#endif
    if (rc != NOSTR_OK) { if (e && e != (nostr_event*)8) violate("dangling", "a failed nostr_list_to_event gives an event"); lk.check("nostr_list_to_event"); if (valid && !f.fired) violate("refused", "the list %s cannot be published: %s", show(m).c_str(), nostr_error_string(rc)); count("publish_refused"); return; }
    if (!valid) violate(priv ? "private-published" : "accepted", "a list with private items is published %s", nokey ? "without a key" : "in a build without encryption"); RefEvent g = from_lib(e); if (g.kind != m.kind) violate("list-wrong", "the list of kind %d is published as kind %d", m.kind, g.kind); if (g.created_at < std::min(t0, t1) || g.created_at > std::max(t0, t1)) violate("wrong-time", "a list published at %lld is dated %lld", (long long)t0, (long long)g.created_at);
    if (trimmed(g.tags) != trimmed(tags_of(m))) violate("list-wrong", "the list %s is published with the tags %s", show(m).c_str(), g.tags_json().substr(0, 800).c_str());
    if (!priv && !g.content.empty()) violate("list-wrong", "a public list has the content %s", g.content.c_str()); MList want = m; want.items.clear(); for (auto& x : m.items) if (!x.priv) want.items.push_back(x); if (!(m.kind >= 30000 && m.kind < 40000)) for (int i = 0; i < 4; i++) { want.has[i] = false; want.meta[i] = ""; } else want.has[0] = true; MList pub = want;
    if (priv) { std::string js, nonce; J j; std::string wire = g.json(); for (auto& x : m.items) if (x.priv && x.type != "p" && x.type != "e" && x.value.size() >= 12 && wire.find(x.value.substr(0, 30)) != std::string::npos) { bool also = false; for (auto& y : m.items) if (!y.priv && (y.value + y.hint + y.pet).find(x.value.substr(0, 30)) != std::string::npos) also = true; if (!also) violate("private-published", "the private item %s is in clear in %s", x.value.c_str(), wire.substr(0, 600).c_str()); }
        if (!private_wire(g.content, owner, js, &nonce) || !jparse(js, j) || !j.is(J::ARR)) violate("private-lost", "the private part does not open into a JSON array: %s", js.substr(0, 300).c_str()); bool fresh = false; for (auto& d : rng_mine(r0)) if (d.find(nonce) != std::string::npos) fresh = true; if (!fresh) violate("no-fresh-randomness", "the private part was encrypted without a fresh nonce");
        std::vector<Item> got; for (auto& x : j.a) { if (!x.is(J::ARR) || x.a.size() < 2) violate("private-lost", "the private part is %s", js.substr(0, 400).c_str()); got.push_back({x.a[0].s, x.a[1].s, x.a.size() > 2 ? x.a[2].s : "", x.a.size() > 3 ? x.a[3].s : "", true}); } std::vector<Item> pw; for (auto& x : m.items) if (x.priv) pw.push_back(x); if (got != pw) violate("private-lost", "the private part is %s, not %s", js.substr(0, 500).c_str(), show(m).c_str()); for (auto& x : pw) want.items.push_back(x); count("private_published"); }
    nostr_event* e2 = nullptr; { NoFaults nf; if (s(2)) { g.seal(owner); memcpy(e->pubkey.data, g.pk.data(), 32); memcpy(e->id, g.id.data(), 32); memcpy(e->sig, g.sig.data(), 64); char* js = nullptr; if (nostr_event_to_json(e, &js) == NOSTR_OK) { if (nostr_event_from_json(js, &e2) != NOSTR_OK) violate("harness", "no transport"); nostr_free(js); } if (!HAS_JSON) e2 = make_event(g); if (nostr_event_verify(e2) != NOSTR_OK) violate("list-wrong", "a published list does not verify"); } }
    const nostr_event* q = e2 ? e2 : e; RefEvent before = from_lib(q); check_read(q, want, kp, s, "a published list"); check_read(q, pub, nullptr, s, "a published list read without a key");
    if (priv) { nostr_keypair other; memset(&other, 0, sizeof other); NoFaults nf; nostr_privkey sk = lib_sk(key_no(15)); if (nostr_keypair_from_private_key(&other, &sk) == NOSTR_OK) { nostr_list* x = nullptr; if (nostr_list_from_event(q, &other, &x) == NOSTR_OK) violate("private-published", "private items open with another key"); if (x) violate("dangling", "a failed nostr_list_from_event gives a list"); } }
    if (!same_event(before, from_lib(q))) violate("event-changed", "reading a list changed its event"); if (e2) nostr_event_destroy(e2); nostr_event_destroy(e); count("published");
}
static void foreign(const Src& s, const RefKey& owner, const nostr_keypair* kp) {
    RefEvent r; static const std::vector<int> ks = {10000, 30000, 10003, 30030, 3, 39092}; r.kind = s(4) ? s.of(ks) : (int)s(65536); int n = (int)s(8); bool used[4] = {}; for (int i = 0; i < n; i++) { int k = (int)s(7); if (k < 4) { if (used[k]) continue; used[k] = true; r.tags.push_back({META[k], gen_text(s, 5)}); if (s(10) == 9) r.tags.back().push_back("more"); } else if (k == 4) r.tags.push_back({gen_name(s)}); else { std::vector<std::string> t = {"x" + gen_name(s, 3)}; int m = 1 + (int)s(5); while (m--) t.push_back(s(6) ? gen_text(s, 5) : ""); r.tags.push_back(t); } }
    MList want = list_of(r), pub = want; bool nul = false;
#if defined(VARIANT_NOS) || defined(VARIANT_NOSJ)
    if (s(2)) { std::string js = s(2) ? "[" : " [ "; int m = (int)s(5); bool odd = s(2); for (int i = 0; i < m; i++) { Item it; it.type = s(2) ? "p" : "word" + std::string(s(8) ? 0 : s(80), 't'); it.value = token(s, 1) + (odd ? "\b\f/" : ""); if (s(12) == 11) it.value += std::string(1100, 'l'); bool h = s(2), p = h && s(2), x = p && s(2); if (h) it.hint = s(4) ? "wss://h/" + gen_text(s, 3) + (s(9) ? "" : std::string(600, 'h')) : ""; if (p) it.pet = gen_text(s, 3) + (s(9) ? "" : std::string(300, 'p')); it.priv = true; js += (i ? (odd ? " , " : ",") : "") + std::string("[") + jesc(it.type, s, odd) + (odd ? " , " : ",") + jesc(it.value, s, odd); if (h) js += "," + jesc(it.hint, s, odd); if (p) js += (odd ? ",\n\t" : ",") + jesc(it.pet, s, odd); if (x) js += "," + jesc(s(2) ? "fifth" : "q\"x]y\\", s, odd); js += odd ? " ]" : "]"; want.items.push_back(it); } js += "]"; if (s(16) == 15) { std::string u = with_nul(js, s); nul = u != js; js = u; } std::string nonce = sha256("n" + std::to_string(w19->seq++)); r.content = n44_encrypt(n44_conv(owner.sk, owner.pk), nonce, js); count("foreign_private"); }
#else
    (void)owner; (void)jesc;
#endif
    nostr_event* e; { NoFaults nf; e = make_event(r); } if (nul) { nostr_list* l = nullptr; if (nostr_list_from_event(e, kp, &l) == NOSTR_OK) { must_list(l, want, "reading private items with a NUL character", NOSTR_OK); nostr_list_free(l); } else if (l) violate("dangling", "a refused list is given out"); } else if (s(2)) check_read(e, want, kp, s, "a list from elsewhere"); check_read(e, pub, nullptr, s, "a list from elsewhere"); if (!same_event(from_lib(e), r)) violate("event-changed", "reading a list changed its event"); nostr_event_destroy(e);
}
static void list_life(const Src& s) {
    RefKey owner = key_no((int)s(4)); nostr_keypair kp; memset(&kp, 0, sizeof kp); { NoFaults nf; nostr_privkey sk = lib_sk(owner); if (nostr_keypair_from_private_key(&kp, &sk) != NOSTR_OK) violate("harness", "no key pair"); }
    static const std::vector<int> ks = {10000, 30000, 10003, 30030, 3, 39092, 40000, 29999, 39999, 65535, 0}; MList m; m.kind = s(4) ? s.of(ks) : (int)s(65536); nostr_list* l = nullptr; { Leak lk; arm(s, w19->pct, w19->kinds, 3); nostr_error_t rc = nostr_list_create(&l, (uint16_t)m.kind); Faults f = disarm(); if (rc != NOSTR_OK) { if (l) violate("dangling", "a failed nostr_list_create gives a list"); if (!f.fired) violate("refused", "no list can be made"); lk.check("nostr_list_create"); return; } } must_list(l, m, "nostr_list_create", NOSTR_OK);
    int ops = 2 + (int)s(s(5) ? 14 : 45); bool bulk = s(150) == 149; if (bulk) ops = 4150; bool privs = s(2);
    for (int i = 0; i < ops; i++) { nostr_error_t rc; Faults f; const char* what; Leak* lk = nullptr; (void)lk; switch (bulk ? 0 : s(10)) {
        case 0: case 1: case 2: case 3: case 4: { Item it; bool valid; what = "adding an item"; if (!bulk) arm(s, w19->pct, w19->kinds, 6); rc = add_some(l, s, it, valid, privs && s(3) == 2); it.priv = it.priv; f = disarm(); bool full = m.items.size() >= 4096; if (rc == NOSTR_OK) { if (!valid || full) violate("accepted", "the item [%s,%s,%s] is accepted as item %zu", it.type.c_str(), it.value.c_str(), it.hint.c_str(), m.items.size()); m.items.push_back(it); count("item_added"); } else if (valid && !full && !f.fired) violate("refused", "the item [%s,%s,%s] cannot be added to %zu: %s", it.type.c_str(), it.value.c_str(), it.hint.c_str(), m.items.size(), nostr_error_string(rc)); break; }
        case 5: { size_t at = s((uint32_t)m.items.size() + (s(6) ? 0 : 3) + 1); what = "nostr_list_remove"; rc = nostr_list_remove(l, at); if ((rc == NOSTR_OK) != (at < m.items.size())) violate("refused", "removing item %zu of %zu gives %s", at, m.items.size(), nostr_error_string(rc)); if (rc == NOSTR_OK) m.items.erase(m.items.begin() + (long)at); break; }
        case 6: case 7: { int k = (int)s(4); bool null = s(5) == 4; std::string v = gen_text(s, 8); what = "setting a field"; arm(s, w19->pct, w19->kinds, 2); nostr_error_t (*fn[4])(nostr_list*, const char*) = {nostr_list_set_d_tag, nostr_list_set_title, nostr_list_set_description, nostr_list_set_image}; rc = fn[k](l, null ? nullptr : v.c_str()); f = disarm(); if (rc == NOSTR_OK) { m.has[k] = !null; m.meta[k] = null ? "" : v; } else if (!f.fired) violate("refused", "the %s cannot be set", META[k]); break; }
        case 8: what = "reading"; rc = NOSTR_OK; foreign(s, owner, &kp); break;
        default: what = "publishing"; rc = NOSTR_OK; publish(l, m, s, owner, &kp); }
        if (!bulk) must_list(l, m, what, rc); if (s(20) == 19 && !bulk) check_read(w19->shared_e, w19->shared, nullptr, s, "a shared event"); }
    if (bulk) { must_list(l, m, "many additions", NOSTR_OK); count("full_list"); } else publish(l, m, s, owner, &kp); nostr_list_free(l); nostr_keypair_destroy(&kp);
}
// ---------------------------------------------------------------- NIP-65
struct MRelay { std::string url; bool r, w; };
static void must_relays(const nostr_relay_list* l, const std::vector<MRelay>& m, const char* what, nostr_error_t rc) {
    bool ok = nostr_relay_list_count(l) == m.size(); for (size_t i = 0; ok && i < m.size(); i++) { const nostr_relay_list_entry* x = nostr_relay_list_get(l, i); ok = x && x->url && m[i].url == x->url && x->read == m[i].r && x->write == m[i].w; } if (ok && nostr_relay_list_get(l, m.size())) ok = false; if (!ok) violate(rc == NOSTR_OK ? "relays-wrong" : "relays-changed", "after %s (%s) a relay list of %zu entries is wrong", what, nostr_error_string(rc), m.size());
}
static std::string rurl(const Src& s, bool& ok) { ok = true; std::string u = (s(3) ? "wss://" : "ws://") + gen_name(s, 4) + ".example" + (s(2) ? "/" + gen_name(s, 3) : ""); switch (s(12)) { case 8: ok = false; { static const std::vector<std::string> bad = {"", "wss://", "ws://", "http://a.b", "wss:/a.b", "wss:///x", "ws://:80", "wss://?x", "wss://#", "wss://@x", "wss:// a", "relay.example", "WSS", "ws:/", " wss://a.b"}; return s.of(bad); } case 9: u += "/" + std::string(2048 - u.size() - 1, 'p'); if (s(2)) { u += "p"; ok = false; } return u; case 10: { std::string g = gen_text(s, 4); u += "/" + g; return u; } default: return u; } }
static void check_urls(const nostr_relay_list* l, const std::vector<MRelay>& m, const Src& s) {
    for (int wr = 0; wr < 2; wr++) { char** u = (char**)8; size_t n = 777; Leak lk; arm(s, w19->pct, w19->kinds, 6); nostr_error_t rc = wr ? nostr_relay_list_get_write_relays(l, &u, &n) : nostr_relay_list_get_read_relays(l, &u, &n); Faults f = disarm(); std::vector<std::string> want; for (auto& x : m) if (wr ? x.w : x.r) want.push_back(x.url);
        if (rc != NOSTR_OK) { if (!f.fired) violate("refused", "the relays cannot be listed"); lk.check("listing relays"); if (u && u != (char**)8) violate("dangling", "a failed listing gives relays"); continue; } bool ok = n == want.size() && (n ? u != nullptr : u == nullptr); for (size_t i = 0; ok && i < n; i++) ok = u[i] && want[i] == u[i]; if (!ok) violate("relays-wrong", "%zu %s relays are listed, expected %zu", n, wr ? "write" : "read", want.size()); nostr_relay_list_free_urls(u, n); lk.check("listing relays and freeing them"); }
}
static void read_relays(const nostr_event* e, const std::vector<MRelay>& want, const Src& s, bool kind_ok) {
    for (int tries = 0; tries < 2; tries++) { nostr_relay_list* l = nullptr; Leak lk; if (tries) disarm(); else arm(s, w19->pct, w19->kinds, 16); nostr_error_t rc = nostr_relay_list_from_event(e, &l); Faults f = disarm(); if (rc == NOSTR_OK) { if (!kind_ok) violate("accepted", "an event of kind %d is read as a relay list", e->kind); must_relays(l, want, "nostr_relay_list_from_event", rc); check_urls(l, want, s); nostr_relay_list_free(l); lk.check("reading a relay list and freeing it"); count("relays_read"); return; } if (l) violate("dangling", "a failed nostr_relay_list_from_event gives a list"); lk.check("nostr_relay_list_from_event"); if (!kind_ok) return; if (!f.fired) violate("refused", "a relay list cannot be read: %s", nostr_error_string(rc)); }
}
static void relays_life(const Src& s) {
    nostr_relay_list* l = nullptr; { Leak lk; arm(s, w19->pct, w19->kinds, 3); nostr_error_t rc = nostr_relay_list_create(&l); Faults f = disarm(); if (rc != NOSTR_OK) { if (l) violate("dangling", "a failed nostr_relay_list_create gives a list"); if (!f.fired) violate("refused", "no relay list can be made"); lk.check("nostr_relay_list_create"); return; } } std::vector<MRelay> m; int ops = 2 + (int)s(s(8) ? 20 : 300); bool many = ops > 100;
    for (int i = 0; i < ops; i++) switch (many && s(40) ? 0 : s(6)) {
        case 0: case 1: case 2: case 3: { bool ok; std::string u = many && s(20) ? "wss://m" + std::to_string(i) : s(8) == 7 && !m.empty() ? m[s((uint32_t)m.size())].url : rurl(s, ok); { bool k = u.size() <= 2048 && (!u.compare(0, 6, "wss://") || !u.compare(0, 5, "ws://")); size_t p = u.compare(0, 3, "wss") ? 5 : 6; ok = k && u.size() > p && !strchr("/:?#@ ", u[p]); } bool r = s(3) != 0, w = s(3) != 0, dup = false; for (auto& x : m) dup |= x.url == u; bool valid = ok && !dup && (r || w) && m.size() < 256; arm(s, w19->pct, w19->kinds, 3); nostr_error_t rc = nostr_relay_list_add(l, u.c_str(), r, w); Faults f = disarm(); if (rc == NOSTR_OK) { if (!valid) violate("accepted", "the relay '%.80s' (read %d, write %d) is accepted as entry %zu", u.c_str(), r, w, m.size()); m.push_back({u, r, w}); count("relay_added"); } else if (valid && !f.fired) violate("refused", "the relay '%.80s' cannot be added to %zu: %s", u.c_str(), m.size(), nostr_error_string(rc)); must_relays(l, m, "nostr_relay_list_add", rc); break; }
        case 4: check_urls(l, m, s); break;
        default: { nostr_event* e = (nostr_event*)8; int64_t t0 = sim_wall(); Leak lk; arm(s, w19->pct, w19->kinds, 20); nostr_error_t rc = nostr_relay_list_to_event(l, &e); Faults f = disarm(); int64_t t1 = sim_wall(); if (rc != NOSTR_OK) { if (e && e != (nostr_event*)8) violate("dangling", "a failed nostr_relay_list_to_event gives an event"); if (!f.fired) violate("refused", "a relay list of %zu cannot be published: %s", m.size(), nostr_error_string(rc)); lk.check("nostr_relay_list_to_event"); break; } RefEvent g = from_lib(e); std::vector<std::vector<std::string>> t; for (auto& x : m) { t.push_back({"r", x.url}); if (!x.r || !x.w) t.back().push_back(x.r ? "read" : "write"); } if (g.kind != 10002 || g.tags != t || !g.content.empty()) violate("relays-wrong", "a relay list is published as kind %d with %s", g.kind, g.tags_json().substr(0, 500).c_str()); if (g.created_at < std::min(t0, t1) || g.created_at > std::max(t0, t1)) violate("wrong-time", "a relay list published at %lld is dated %lld", (long long)t0, (long long)g.created_at); read_relays(e, m, s, true); nostr_event_destroy(e); count("relays_published"); } }
    must_relays(l, m, "the last call", NOSTR_OK); nostr_relay_list_free(l);
    RefEvent r; r.kind = s(8) ? 10002 : 10000 + (int)s(4); std::vector<MRelay> want; int n = s(12) == 11 ? 10 + (int)s(40) : s(30) == 29 ? 240 + (int)s(17) : (int)s(10); for (int i = 0; i < n; i++) { bool ok; std::string u = n > 9 && s(20) ? "wss://m" + std::to_string(i) : rurl(s, ok); bool dup = false; for (auto& x : r.tags) if (x.size() > 1 && x[1] == u) dup = true; if (dup) continue; { bool k = u.size() <= 2048 && (!u.compare(0, 6, "wss://") || !u.compare(0, 5, "ws://")); size_t p = u.compare(0, 3, "wss") ? 5 : 6; ok = k && u.size() > p && !strchr("/:?#@ ", u[p]); } int mk = (int)s(4); std::vector<std::string> t = {s(8) ? "r" : "R", u}; if (s(12) == 11) t.resize(1); if (t.size() > 1 && mk) t.push_back(mk == 1 ? "read" : mk == 2 ? "write" : ""); r.tags.push_back(t); if (t.size() > 1 && t[0] == "r" && ok) want.push_back({u, mk != 2, mk != 1}); }
    nostr_event* e; { NoFaults nf; e = make_event(r); } read_relays(e, want, s, r.kind == 10002); if (!same_event(from_lib(e), r)) violate("event-changed", "reading a relay list changed its event"); nostr_event_destroy(e);
}
static void c19_lists() {
    C19 w; w19 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); n44_selfcheck(); uint64_t mark = alloc_mark(); switch (g(3)) { case 0: break; case 1: w.kinds = FAULT_ALLOC; break; default: w.kinds = FAULT_ALLOC | FAULT_RNG | FAULT_CRYPTO; } w.pct = w.kinds ? 35 : 0;
    w.shared_r.kind = 30000; w.shared_r.tags = {{"d", "x"}, {"title", "t"}, {"p", gen_hex(g, 32), "wss://a", "pet"}, {"word", "w"}}; w.shared = list_of(w.shared_r); w.shared_e = make_event(w.shared_r);
    if (g(2)) nostr_init(); int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int ops = 1 + (int)s(3); for (int k = 0; k < ops; k++) if (s(3) == 2) relays_life(s); else list_life(s); });
    sim_join_spawned(); if (!same_event(from_lib(w.shared_e), w.shared_r)) violate("event-changed", "a shared event changed"); nostr_event_destroy(w.shared_e); nostr_cleanup(); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C19, lists, c19_lists)
