// Reference model of the relay side of the protocol: filters, kinds,
// deletions, expiration, client messages; and generators for them.
#pragma once
#include "util.h"
struct RefFilter {
    std::vector<std::string> ids, authors, e, p; std::vector<long long> kinds; std::vector<std::pair<char, std::vector<std::string>>> tags; int64_t since = 0, until = 0; int limit = 0; std::string search; bool has_search = false;
};
static inline bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static inline bool ref_has_tag(const RefEvent& e, const std::string& n, const std::string& v) { for (auto& t : e.tags) if (t.size() >= 2 && t[0] == n && t[1] == v) return true; return false; }
static inline bool ref_match(const RefFilter& f, const RefEvent& e, bool search = true) {
    auto any = [](const std::vector<std::string>& l, std::function<bool(const std::string&)> p) { if (l.empty()) return true; for (auto& x : l) if (p(x)) return true; return false; };
    std::string id = hex(e.id.data(), 32), pk = hex(e.pk.data(), 32);
    if (!any(f.ids, [&](const std::string& x) { return starts(id, x); }) || !any(f.authors, [&](const std::string& x) { return starts(pk, x); })) return false;
    if (!f.kinds.empty()) { bool m = false; for (long long k : f.kinds) m |= k == e.kind; if (!m) return false; }
    if (!any(f.e, [&](const std::string& x) { return ref_has_tag(e, "e", x); }) || !any(f.p, [&](const std::string& x) { return ref_has_tag(e, "p", x); })) return false;
    for (auto& t : f.tags) { bool m = false; for (auto& v : t.second) m |= ref_has_tag(e, std::string(1, t.first), v); if (!m) return false; }
    if (f.since > 0 && e.created_at < f.since) return false;
    if (f.until > 0 && e.created_at > f.until) return false;
    if (search && f.has_search && !f.search.empty() && e.content.find(f.search) == std::string::npos) return false;
    return true;
}
static inline bool ref_newer(const RefEvent& a, const RefEvent& b) { return a.created_at != b.created_at ? a.created_at > b.created_at : a.id < b.id; }
enum RefClass { REGULAR, REPLACEABLE, EPHEMERAL, ADDRESSABLE };
static inline RefClass ref_class(int k) { return k >= 20000 && k < 30000 ? EPHEMERAL : k >= 30000 && k < 40000 ? ADDRESSABLE : k == 0 || k == 3 || (k >= 10000 && k < 20000) ? REPLACEABLE : REGULAR; }
static inline std::string ref_d(const RefEvent& e) { for (auto& t : e.tags) if (t.size() >= 2 && t[0] == "d") return t[1]; return ""; }
static inline bool digits(const std::string& s) { for (char c : s) if (c < '0' || c > '9') return false; return !s.empty(); }
static inline int64_t ref_expiration(const RefEvent& e) { for (auto& t : e.tags) if (t.size() >= 2 && t[0] == "expiration") { if (!digits(t[1])) return 0; if (t[1].size() > 18) return INT64_MAX; return strtoll(t[1].c_str(), 0, 10); } return 0; }
static inline bool ref_expired(const RefEvent& e, int64_t now) { int64_t x = ref_expiration(e); return x && now > x; }
static inline bool lhex(const std::string& s, size_t n) { if (n && s.size() != n) return false; for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false; return true; }
static inline bool ref_address_ok(const std::string& a) { size_t c1 = a.find(':'); if (c1 == std::string::npos || !digits(a.substr(0, c1))) return false; size_t c2 = a.find(':', c1 + 1); return c2 != std::string::npos && c2 - c1 == 65 && lhex(a.substr(c1 + 1, 64), 64); }
static inline bool ref_deletes(const RefEvent& del, const RefEvent& t) {
    if (del.kind != 5 || del.pk != t.pk || t.kind == 5) return false;
    for (auto& g : del.tags) {
        if (g.size() >= 2 && g[0] == "e" && g[1] == hex(t.id.data(), 32)) return true;
        if (g.size() >= 2 && g[0] == "a" && ref_class(t.kind) == ADDRESSABLE && t.created_at <= del.created_at && g[1] == std::to_string(t.kind) + ":" + hex(t.pk.data(), 32) + ":" + ref_d(t)) return true;
    }
    return false;
}
// the events a relay shows at a moment, given everything it has accepted
static inline std::map<std::string, const RefEvent*> ref_view(const std::vector<const RefEvent*>& log, int64_t now) {
    std::map<std::string, const RefEvent*> slot, out;
    for (auto* e : log) {
        RefClass c = ref_class(e->kind); if (c == EPHEMERAL || ref_expired(*e, now)) continue;
        bool dead = false; for (auto* d : log) if (ref_deletes(*d, *e)) dead = true;
        if (dead) continue;
        std::string key = c == REGULAR ? "id" + e->id : (c == REPLACEABLE ? "r" : "a") + e->pk + std::to_string(e->kind) + (c == ADDRESSABLE ? ":" + ref_d(*e) : "");
        auto it = slot.find(key); if (it == slot.end()) slot[key] = e; else if (ref_newer(*e, *it->second)) it->second = e;
    }
    for (auto& p : slot) out[p.second->id] = p.second;
    return out;
}
static inline std::string filter_json(const RefFilter& f, const Src& s, const std::vector<std::string>& extra = {}) {
    std::vector<std::string> m; auto L = [](const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + jstr(v[i]); return o + "]"; };
    if (!f.ids.empty()) m.push_back("\"ids\":" + L(f.ids));
    if (!f.authors.empty()) m.push_back("\"authors\":" + L(f.authors));
    if (!f.kinds.empty()) { std::string k; for (auto x : f.kinds) k += (k.empty() ? "" : ",") + std::to_string(x); m.push_back("\"kinds\":[" + k + "]"); }
    if (!f.e.empty()) m.push_back("\"#e\":" + L(f.e));
    if (!f.p.empty()) m.push_back("\"#p\":" + L(f.p));
    for (auto& t : f.tags) m.push_back("\"#" + std::string(1, t.first) + "\":" + L(t.second));
    if (f.since) m.push_back("\"since\":" + std::to_string(f.since));
    if (f.until) m.push_back("\"until\":" + std::to_string(f.until));
    if (f.limit) m.push_back("\"limit\":" + std::to_string(f.limit));
    if (f.has_search) m.push_back("\"search\":" + jstr(f.search));
    for (auto& x : extra) m.push_back(x);
    for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[i - 1 - s((uint32_t)i)]);
    std::string o = "{"; for (size_t i = 0; i < m.size(); i++) o += (i ? "," : "") + m[i]; return o + "}";
}
typedef std::vector<RefEvent> Pool;
static inline RefFilter gen_filter(const Src& s, const Pool& pool, int64_t now) {
    RefFilter f; int n = (int)s(4);
    auto ev = [&]() -> const RefEvent* { return pool.empty() ? nullptr : &pool[s((uint32_t)pool.size())]; };
    auto prefix = [&](std::string h) { static const std::vector<int> len = {64, 64, 1, 2, 8, 33, 63}; return h.substr(0, s.of(len)); };
    for (int i = 0; i < n; i++) {
        const RefEvent* e = ev(); int k = 1 + (int)s(3); if (s(60) == 59) k = 200 + (int)s(57);
        switch (s(10)) {
        case 0: if (f.ids.empty()) while (k--) { e = ev(); f.ids.push_back(prefix(e && s(3) ? hex(e->id.data(), 32) : gen_hex(s, 32))); } break;
        case 1: if (f.authors.empty()) while (k--) { e = ev(); f.authors.push_back(prefix(e && s(4) ? hex(e->pk.data(), 32) : gen_hex(s, 32))); } break;
        case 2: if (f.kinds.empty()) while (k--) { e = ev(); static const std::vector<long long> odd = {0, 1, -1, 65535, 65536, 65537, 100000, 2147483647, 131073}; f.kinds.push_back(e && s(4) ? e->kind : s.of(odd)); } break;
        case 3: if (f.e.empty()) while (k--) { e = ev(); std::string v = gen_hex(s, 32); if (e) for (auto& t : e->tags) if (t.size() >= 2 && t[0] == "e" && lhex(t[1], 64)) v = t[1]; f.e.push_back(v); } break;
        case 4: if (f.p.empty()) while (k--) { e = ev(); std::string v = gen_hex(s, 32); if (e) for (auto& t : e->tags) if (t.size() >= 2 && t[0] == "p" && lhex(t[1], 64)) v = t[1]; f.p.push_back(v); } break;
        case 5: case 6: { static const std::vector<char> ls = {'t', 'd', 'a', 'E', 'P', 'r', 'T', 'z'}; char c = s.of(ls); bool dup = false; for (auto& t : f.tags) dup |= t.first == c; if (dup) break; std::vector<std::string> v; while (k--) { e = ev(); std::string x = gen_text(s, 2); if (e) for (auto& t : e->tags) if (t.size() >= 2 && t[0].size() == 1 && t[0] != "e" && t[0] != "p" && (t[0][0] == c || s(3) == 2)) { x = t[1]; if (t[0][0] != c && isalpha((unsigned char)t[0][0]) && !s(2)) { c = t[0][0]; } } v.push_back(x); } dup = false; for (auto& t : f.tags) dup |= t.first == c; if (!dup) f.tags.push_back({c, v}); break; }
        case 7: if (!f.since) { f.since = std::max<int64_t>(1, (e ? e->created_at : now) + (int64_t)s(3) - 1); if (s(20) == 19) f.since += 5000000000ll; } break;
        case 8: if (!f.until) { f.until = std::max<int64_t>(1, (e ? e->created_at : now) + (int64_t)s(3) - 1); if (s(20) == 19) f.until += 5000000000ll; } break;
        default: if (s(2)) { f.limit = 1 + (int)s(5); } else { f.has_search = true; f.search = s(3) ? (e ? e->content.substr(0, s(4)) : "a") : gen_text(s, 2); if (!utf8_ok(f.search)) f.search = "a"; } break;
        }
    }
    return f;
}
// an event as authors of many kinds would write it; not yet sealed
static inline RefEvent gen_event(const Src& s, const Pool& pool, int64_t now, int maxfut, int* author) {
    RefEvent e; int a = (int)s(3); *author = a; e.pk = key_no(a).pk;
    static const std::vector<int> kinds = {1, 1, 5, 5, 0, 3, 30000, 30000, 30023, 39999, 10000, 10002, 19999, 20000, 29999, 2, 4, 7, 9999, 40000, 65535, 6};
    e.kind = s.of(kinds);
    switch (s(12)) { case 0: case 1: case 2: case 3: case 4: e.created_at = now - 100 + (int64_t)s(3); break; case 5: case 6: e.created_at = now + (int64_t)s(7) - 3; break; case 7: e.created_at = now + maxfut + (int64_t)s(3) - 1; break; case 8: e.created_at = now + maxfut + s(3000); break; case 9: e.created_at = (int64_t)s(3); break;
    case 10: e.created_at = pool.empty() ? now : pool[s((uint32_t)pool.size())].created_at; break; default: { static const std::vector<int64_t> far = {4102444800ll, 999999999999999ll, 1, 253402300799ll, 2147483647, 2147483648ll, 4294967296ll}; e.created_at = s.of(far); } }
    static const std::vector<std::string> ds = {"", "a", "b", "a:b", "profile", std::string(300, 'q'), "é\"x"};
    int n = (int)s(4);
    for (int i = 0; i < n; i++) switch (s(10)) {
        case 0: e.tags.push_back({"t", s(2) ? gen_name(s, 2) : gen_text(s, 3)}); break;
        case 1: e.tags.push_back({"e", pool.empty() || !s(3) ? gen_hex(s, 32) : hex(pool[s((uint32_t)pool.size())].id.data(), 32)}); break;
        case 2: e.tags.push_back({"p", hex(key_no((int)s(4)).pk.data(), 32), "wss://r.example"}); break;
        case 3: { static const std::vector<std::string> x = {"", "12x", "-5", "abc", "99999999999999999999999"}; e.tags.push_back({"expiration", s(3) ? std::to_string(now + (int64_t)s(9) - 2) : s(3) ? std::to_string(now + 1000 + s(20000)) : s.of(x)}); break; }
        case 4: e.tags.push_back({std::string(1, "EPrTzA"[s(6)]), gen_text(s, 3)}); break;
        case 5: { std::vector<std::string> v; int k = 1 + (int)s(4); for (int j = 0; j < k; j++) v.push_back(gen_text(s, 3)); e.tags.push_back(v); break; }
        case 6: e.tags.push_back({s(2) ? "d" : "e"}); break;
        case 7: e.tags.push_back({"e", s(2) ? std::string(64, 'A') : gen_text(s, 2)}); break;
        case 8: if (s(40) == 39) { int k = 240 + (int)s(60); while (k--) e.tags.push_back({"t", "v" + std::to_string(k)}); } else e.tags.push_back({"d", s.of(ds)}); break;
        default: e.tags.push_back({"subject", gen_text(s, 3), "", gen_text(s, 2)}); break;
        }
    if (ref_class(e.kind) == ADDRESSABLE && s(6)) e.tags.insert(e.tags.begin() + s((uint32_t)e.tags.size() + 1), std::vector<std::string>{"d", s.of(ds)});
    if (e.kind == 5) {
        for (size_t i = e.tags.size(); i-- > 0;) if (e.tags[i][0] == "expiration") e.tags.erase(e.tags.begin() + i);
        int k = 1 + (int)s(3);
        while (k--) {
            const RefEvent* t = pool.empty() ? nullptr : &pool[s((uint32_t)pool.size())];
            if (s(4) == 3) for (auto& x : pool) if (ref_class(x.kind) == ADDRESSABLE && !s(3)) t = &x;
            if (!t) continue;
            std::string id = hex(t->id.data(), 32), pk = hex(t->pk.data(), 32);
            if (s(2)) e.tags.push_back({"e", s(8) ? id : s(2) ? id.substr(0, 62) : id + "00"});
            else { std::string adr = std::to_string(t->kind) + ":" + pk + ":" + ref_d(*t); switch (s(10)) { case 9: adr = pk + ":" + adr; break; case 8: adr += "x"; break; case 7: adr = std::to_string(t->kind) + ":" + hex(key_no(3).pk.data(), 32) + ":" + ref_d(*t); break; case 6: adr = std::to_string(t->kind) + ":" + pk; break; case 5: adr = std::to_string(t->kind ^ 1) + ":" + pk + ":" + ref_d(*t); break; } e.tags.push_back({"a", adr}); }
        }
        if (s(3) == 2) e.created_at = now;
    }
    e.content = gen_text(s, 6);
    return e;
}
// library event against the reference through every accessor
static inline void check_event_accessors(const nostr_event* e, const RefEvent& r, const Src& s) {
    char h[65]; memset(h, 'x', sizeof h); nostr_event_get_id_hex(e, h); if (hex(r.id.data(), 32) != std::string(h, 64) || h[64]) violate("accessor", "nostr_event_get_id_hex gives %.64s", h);
    memset(h, 'x', sizeof h); nostr_event_get_pubkey_hex(e, h); if (hex(r.pk.data(), 32) != std::string(h, 64) || h[64]) violate("accessor", "nostr_event_get_pubkey_hex gives %.64s", h);
    if (memcmp(nostr_event_get_id(e), r.id.data(), 32) || memcmp(nostr_event_get_pubkey(e), r.pk.data(), 32)) violate("accessor", "binary id or pubkey differs");
    if (nostr_event_get_tag_count(e) != r.tags.size()) violate("accessor", "tag count %zu, expected %zu", nostr_event_get_tag_count(e), r.tags.size());
    if (nostr_event_is_deletion(e) != (r.kind == 5)) violate("accessor", "is_deletion wrong for kind %d", r.kind);
    int c = (int)ref_class(r.kind); nostr_kind_type_t kt = nostr_kind_get_type(e->kind); static const nostr_kind_type_t map[] = {NOSTR_KIND_REGULAR, NOSTR_KIND_REPLACEABLE, NOSTR_KIND_EPHEMERAL, NOSTR_KIND_ADDRESSABLE};
    if (kt != map[c] || nostr_kind_is_regular(e->kind) != (c == REGULAR) || nostr_kind_is_replaceable(e->kind) != (c == REPLACEABLE) || nostr_kind_is_ephemeral(e->kind) != (c == EPHEMERAL) || nostr_kind_is_addressable(e->kind) != (c == ADDRESSABLE)) violate("kind-class", "kind %d is classified as %d", r.kind, (int)kt);
    nostr_tag_iterator_t it; nostr_tag_iterator_init(&it, e); nostr_tag_iterator_t it2; nostr_tag_iterator_init(&it2, e);
    for (size_t i = 0; i < r.tags.size(); i++) {
        size_t n = 0, n2 = 0; const char** v = nostr_tag_iterator_next(&it, &n); const char** v2 = nostr_event_get_tag_at(e, i, &n2); const nostr_tag* t = nostr_event_get_tag(e, i); nostr_tag_info_t inf; bool more = nostr_tag_iterator_next_info(&it2, &inf);
        if (!v || v != v2 || n != r.tags[i].size() || n2 != n || !t || nostr_tag_get_value_count(t) != n || !more || inf.values_count != n - 1 || r.tags[i][0] != inf.name || r.tags[i][0] != nostr_tag_get_name(t)) violate("accessor", "tag %zu is not iterated as parsed", i);
        for (size_t j = 0; j < n; j++) if (r.tags[i][j] != v[j] || r.tags[i][j] != nostr_tag_get_value(t, j) || (j && r.tags[i][j] != inf.values[j - 1])) violate("accessor", "tag %zu value %zu differs", i, j);
        if (nostr_tag_get_value(t, n)) violate("accessor", "a value beyond the end of tag %zu", i);
    }
    size_t z = 7; if (nostr_tag_iterator_next(&it, &z) || z || nostr_event_get_tag_at(e, r.tags.size(), &z) || nostr_event_get_tag(e, r.tags.size())) violate("accessor", "a tag beyond the last one");
    std::vector<std::string> names = {"e", "p", "t", "d", "a", "expiration", "x"}; if (!r.tags.empty()) names.push_back(r.tags[s((uint32_t)r.tags.size())][0]);
    for (int k = 0; k < 3; k++) {
        std::string n = names[s((uint32_t)names.size())]; std::vector<std::string> vals; bool has = false; int first = -1; for (size_t i = 0; i < r.tags.size(); i++) if (r.tags[i][0] == n) { if (!has) first = (int)i; has = true; if (r.tags[i].size() >= 2) vals.push_back(r.tags[i][1]); }
        const char* g = nostr_event_get_tag_value(e, n.c_str()); if (!g != vals.empty() || (g && vals[0] != g)) violate("accessor", "the first value of tag %s is %s", n.c_str(), g ? g : "NULL");
        if (nostr_event_has_tag(e, n.c_str()) != has) violate("accessor", "has_tag %s is wrong", n.c_str());
        const nostr_tag* ft = nostr_event_find_tag(e, n.c_str()); if (!ft != !has || (ft && ft != nostr_event_get_tag(e, first))) violate("accessor", "find_tag %s is wrong", n.c_str());
        size_t cap = 1 + s(4); std::vector<const char*> out(cap + 1, (const char*)1); size_t got = nostr_event_get_tag_values(e, n.c_str(), out.data(), cap);
        if (got != std::min(cap, vals.size()) || out[got] != (const char*)1) violate("accessor", "get_tag_values %s returned %zu of %zu (room for %zu)", n.c_str(), got, vals.size(), cap);
        for (size_t i = 0; i < got; i++) if (vals[i] != out[i]) violate("accessor", "get_tag_values %s item %zu differs", n.c_str(), i);
        if (nostr_tag_is_indexable(n.c_str()) != (n.size() == 1 && isalpha((unsigned char)n[0]))) violate("accessor", "is_indexable(%s)", n.c_str());
    }
    for (int w = 0; w < 2; w++) {
        std::string want; for (auto& t : r.tags) if (t.size() >= 2 && t[0] == (w ? "p" : "e") && lhex(t[1], 64)) want += unhex(t[1]);
        size_t n = 99; Faults b = faults(); uint8_t(*bin)[32] = w ? nostr_event_get_p_tags_binary(e, &n) : nostr_event_get_e_tags_binary(e, &n);
        if (faults().fired == b.fired && (n * 32 != want.size() || (n && memcmp(bin, want.data(), want.size())) || (!n && bin))) violate("accessor", "%s_tags_binary gives %zu ids, expected %zu", w ? "p" : "e", n, want.size() / 32);
        if (faults().fired != b.fired && (bin || n)) violate("accessor", "%s_tags_binary reports %zu ids without memory", w ? "p" : "e", n);
        nostr_free(bin);
    }
    int64_t ex = ref_expiration(r); if (nostr_event_get_expiration(e) != ex) violate("expiration", "the expiration is read as %lld, expected %lld", (long long)nostr_event_get_expiration(e), (long long)ex);
    for (int64_t d : {-1, 0, 1}) if (ex && ex < INT64_MAX - 1 && nostr_event_is_expired(e, ex + d) != (d > 0)) violate("expiration", "an event expiring at %lld is %sexpired at %lld", (long long)ex, d > 0 ? "not " : "", (long long)(ex + d));
    if (!ex && nostr_event_is_expired(e, INT64_MAX)) violate("expiration", "an event that never expires is expired");
    if ((nostr_event_get_d_tag(e) ? nostr_event_get_d_tag(e) : "") != ref_d(r)) violate("accessor", "the d tag is read as %s", nostr_event_get_d_tag(e));
}
static inline void check_filter_fields(const nostr_filter_t* f, const RefFilter& r) {
    auto L = [](const char* what, const char** v, size_t n, const std::vector<std::string>& w) { if (n != w.size()) violate("filter-changed", "%s has %zu values, expected %zu", what, n, w.size()); for (size_t i = 0; i < n; i++) if (!v[i] || w[i] != v[i]) violate("filter-changed", "%s value %zu is %s, expected %s", what, i, v[i] ? v[i] : "NULL", w[i].c_str()); };
    size_t n = 9; const char** v = nostr_filter_get_ids(f, &n); L("ids", v, n, r.ids); v = nostr_filter_get_authors(f, &n); L("authors", v, n, r.authors); v = nostr_filter_get_e_tags(f, &n); L("#e", v, n, r.e); v = nostr_filter_get_p_tags(f, &n); L("#p", v, n, r.p);
    v = nostr_filter_get_tag_values(f, 'e', &n); L("#e", v, n, r.e); v = nostr_filter_get_tag_values(f, 'p', &n); L("#p", v, n, r.p);
    for (auto& t : r.tags) { v = nostr_filter_get_tag_values(f, t.first, &n); L("generic tag", v, n, t.second); }
    if (f->generic_tags_count != r.tags.size()) violate("filter-changed", "%zu generic tags, expected %zu", f->generic_tags_count, r.tags.size());
    const int32_t* k = nostr_filter_get_kinds(f, &n); if (n != r.kinds.size()) violate("filter-changed", "%zu kinds, expected %zu", n, r.kinds.size()); for (size_t i = 0; i < n; i++) if (k[i] != r.kinds[i]) violate("filter-changed", "kind %zu is %d, expected %lld", i, k[i], r.kinds[i]);
    if (nostr_filter_get_since(f) != r.since || nostr_filter_get_until(f) != r.until || nostr_filter_get_limit(f) != r.limit) violate("filter-changed", "since/until/limit are %lld/%lld/%d, expected %lld/%lld/%d", (long long)nostr_filter_get_since(f), (long long)nostr_filter_get_until(f), nostr_filter_get_limit(f), (long long)r.since, (long long)r.until, r.limit);
    const char* q = nostr_filter_get_search(f); if (!q != !r.has_search || (q && r.search != q)) violate("filter-changed", "search is %s", q ? q : "NULL");
    if (nostr_filter_has_search(f) != (r.has_search && !r.search.empty()) || nostr_filter_has_tag_filters(f) != (!r.e.empty() || !r.p.empty() || !r.tags.empty())) violate("filter-changed", "has_search or has_tag_filters is wrong");
}
static inline bool search_cb(const char* q, const nostr_event* e, void* u) { if (u != (void*)&search_cb) violate("search-user-data", "the search callback got another user pointer"); return strstr(e->content ? e->content : "", q) != nullptr; }
// the longest prefix that fits and ends at a character boundary
static inline std::string ref_cut(const std::string& t, size_t max) { if (t.size() <= max) return t; size_t n = max; while (n && ((unsigned char)t[n] & 0xC0) == 0x80) n--; return t.substr(0, n); }
// serialise into an exactly sized buffer; checks size reporting on the way.  "" if it failed under an injected fault.
static inline std::string relay_text(const nostr_relay_msg_t* m, const Src& s) {
    std::vector<char> bigv(1 << 18); char* big = bigv.data(); size_t len = 0; int f0 = faults().fired; nostr_relay_error_t rc = nostr_relay_msg_serialize(m, big, bigv.size(), &len);
    if (rc != NOSTR_RELAY_OK) { if (faults().fired == f0) violate("serialize-failed", "a relay message could not be serialised: %s", nostr_relay_error_string(rc)); return ""; }
    std::string t(big); if (t.size() != len) violate("serialize-length", "reported length %zu, actual %zu", len, t.size());
    int mode = (int)s(4);
    if (mode) { size_t n = mode == 1 ? len + 1 : mode == 2 ? len : 1 + s((uint32_t)len); std::unique_ptr<char[]> b(new char[n]); memset(b.get(), 'x', n); size_t l2 = 0; f0 = faults().fired; bool nl = s(5) == 4; if (nl) l2 = len; rc = nostr_relay_msg_serialize(m, b.get(), n, nl ? nullptr : &l2);
        if (faults().fired == f0) { if (n > len ? (rc != NOSTR_RELAY_OK || t != b.get()) : rc != NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) violate("serialize-buffer", "a %zu byte message and a %zu byte buffer give %s", len, n, nostr_relay_error_string(rc)); if (l2 != len) violate("serialize-length", "reported length %zu with a %zu byte buffer, needed %zu", l2, n, len); } else if (rc == NOSTR_RELAY_OK && t != b.get()) violate("serialize-partial", "a message serialised without memory differs: %.300s", b.get()); }
    return t;
}
static inline std::string event_text(const nostr_event* e) {
    size_t len = 0; char probe[2]; int f0 = faults().fired; nostr_relay_error_t rc = nostr_event_serialize(e, probe, sizeof probe, &len);
    if (faults().fired != f0) return "";
    if (rc != NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) violate("serialize-buffer", "a 2 byte buffer is reported as %s", nostr_relay_error_string(rc));
    std::unique_ptr<char[]> b(new char[len + 1]); size_t l2 = 0; rc = nostr_event_serialize(e, b.get(), len + 1, &l2); if (faults().fired != f0) return "";
    if (rc != NOSTR_RELAY_OK || l2 != len || strlen(b.get()) != len) violate("serialize-buffer", "a buffer of the size asked for (%zu) gives %s", len + 1, nostr_relay_error_string(rc));
    return b.get();
}
