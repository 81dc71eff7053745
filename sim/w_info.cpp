// C21: NIP-11 relay information and the checks and conversions a relay is built from
#include "op.h"
extern "C" void* sim_malloc(size_t);
static void* lib_alloc(size_t n) { NoFaults nf; return sim_malloc(n); }      // what the library has to free, accounted
struct C21 { int pct = 0, kinds = 0; nostr_relay_info_t shared; std::string shared_doc; };
static C21* w21;
static std::string jdiff(const J& a, const J& b, const std::string& at = "") { if (jeq(a, b, true)) return ""; if (a.is(J::OBJ) && b.is(J::OBJ)) { for (auto& p : a.o) { const J* q = b.get(p.first.c_str()); if (!q) return at + "." + p.first + " is there"; std::string d = jdiff(p.second, *q, at + "." + p.first); if (!d.empty()) return d; } for (auto& p : b.o) if (!a.get(p.first.c_str())) return at + "." + p.first + " is missing"; return at + " has a member twice"; } if (a.is(J::ARR) && b.is(J::ARR) && a.a.size() == b.a.size()) for (size_t i = 0; i < a.a.size(); i++) { std::string d = jdiff(a.a[i], b.a[i], at + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; } return at + " is " + (a.is(J::STR) ? a.s : a.raw) + ", not " + (b.is(J::STR) ? b.s : b.raw); }
static std::string num(int64_t v) { return std::to_string(v); }
static int32_t gen_i32(const Src& s) { static const std::vector<int32_t> v = {0, 1, 2147483647, -1, -2147483647 - 1, 65536, 64, 1000000}; return s(2) ? s.of(v) : (int32_t)s(5000); }
static int64_t gen_i64(const Src& s) { static const std::vector<int64_t> v = {0, 1, -1, 4294967296ll, 999999999999999ll, 100000000000000ll, 31536000, 2147483648ll, -5, 9007199254740993ll, 9223372036854775807ll, 1234567890123456789ll, 9999999999999999ll}; return s(2) ? s.of(v) : (int64_t)s(100000); }
// a relay's description, its C form and the document it stands for
struct Info {
    nostr_relay_info_t c; std::vector<std::unique_ptr<CStr>> keep; std::string lim; std::vector<int> nips; std::string head, tail;
    const char* str(const std::string& t) { keep.emplace_back(new CStr(t)); return *keep.back(); }
    std::string doc() const { std::string n; for (int v : nips) n += (n.empty() ? "" : ",") + num(v); return "{" + head + "\"supported_nips\":[" + n + "],\"limitation\":" + lim + tail + "}"; }
};
template <class T> static T* heap(size_t n) { T* p = (T*)lib_alloc(n * sizeof(T)); memset((void*)p, 0, n * sizeof(T)); return p; }
static std::string gen_lim(const Src& s, nostr_relay_limitation_t& l, bool keep_default) {
    if (!keep_default) { for (int32_t* p : {&l.max_message_length, &l.max_subscriptions, &l.max_filters, &l.max_limit, &l.max_subid_length, &l.max_event_tags, &l.max_content_length, &l.min_pow_difficulty, &l.default_limit}) if (s(3)) *p = gen_i32(s); l.auth_required = s(2); l.payment_required = s(2); l.restricted_writes = s(2); l.created_at_lower_limit = gen_i64(s); l.created_at_upper_limit = gen_i64(s); }
    std::string o; auto N = [&](const char* k, int64_t v) { if (v > 0) o += std::string("\"") + k + "\":" + num(v) + ","; }; N("max_message_length", l.max_message_length); N("max_subscriptions", l.max_subscriptions); N("max_filters", l.max_filters); N("max_limit", l.max_limit); N("max_subid_length", l.max_subid_length); N("max_event_tags", l.max_event_tags); N("max_content_length", l.max_content_length); N("min_pow_difficulty", l.min_pow_difficulty); N("created_at_lower_limit", l.created_at_lower_limit); N("created_at_upper_limit", l.created_at_upper_limit); N("default_limit", l.default_limit);
    auto B = [](bool b) { return b ? "true" : "false"; }; return "{" + o + "\"auth_required\":" + B(l.auth_required) + ",\"payment_required\":" + B(l.payment_required) + ",\"restricted_writes\":" + B(l.restricted_writes) + "}";
}
static std::string kinds_json(const int32_t* k, size_t n) { std::string o; for (size_t i = 0; i < n; i++) o += (i ? "," : "") + num(k[i]); return "[" + o + "]"; }
static void gen_fees(const Src& s, Info& f, nostr_relay_fee_t*& out, size_t& count, const char* name, int type, std::string& json) {
    size_t n = s(2) ? s(4) : 0; if (!n) return; out = heap<nostr_relay_fee_t>(n); count = n; std::string a;
    for (size_t i = 0; i < n; i++) { nostr_relay_fee_t& e = out[i]; e.amount = s(12) == 11 ? 18446744073709551615ull - s(3) : (uint64_t)std::max<int64_t>(0, gen_i64(s)); std::string o = "{\"amount\":" + std::to_string(e.amount); if (s(4)) { std::string u = s(3) ? "msats" : gen_text(s, 4); char* p = (char*)lib_alloc(u.size() + 1); memcpy(p, u.c_str(), u.size() + 1); e.unit = p; o += ",\"unit\":" + jstr(u); } if (type == 1 && s(2)) { static const std::vector<uint32_t> ps = {2592000, 1, 2, 4294967295u, 3600, 31536000}; e.period = s.of(ps); o += ",\"period\":" + num(e.period); } if (type == 2 && s(2)) { e.kinds_count = 1 + s(3); e.kinds = heap<int32_t>(e.kinds_count); for (size_t k = 0; k < e.kinds_count; k++) e.kinds[k] = (int32_t)s(40000); o += ",\"kinds\":" + kinds_json(e.kinds, e.kinds_count); } a += (i ? "," : "") + o + "}"; }
    json += (json.empty() ? "\"" : ",\"") + std::string(name) + "\":[" + a + "]";
}
static void gen_info(const Src& s, Info& f) {
    nostr_relay_info_t& c = f.c; memset(&c, 0xA5, sizeof c); nostr_relay_info_init(&c); { nostr_relay_limitation_t d; memset(&d, 0xA5, sizeof d); nostr_relay_limitation_init(&d); nostr_relay_limitation_t want; memset(&want, 0, sizeof want); want.max_message_length = 131072; want.max_subscriptions = 20; want.max_filters = 10; want.max_limit = 5000; want.max_subid_length = 64; want.max_event_tags = 2000; want.max_content_length = 65536; want.default_limit = 500; for (const nostr_relay_limitation_t* l : {&d, &c.limitation}) if (l->max_message_length != want.max_message_length || l->max_subscriptions != want.max_subscriptions || l->max_filters != want.max_filters || l->max_limit != want.max_limit || l->max_subid_length != want.max_subid_length || l->max_event_tags != want.max_event_tags || l->max_content_length != want.max_content_length || l->default_limit != want.default_limit || l->min_pow_difficulty || l->auth_required || l->payment_required || l->restricted_writes || l->created_at_lower_limit || l->created_at_upper_limit) violate("defaults", "a new limitation does not have the documented defaults"); if (c.name || c.supported_nips || c.supported_nips_count || c.retention || c.fees.admission || c.tags) violate("defaults", "a new relay information is not empty"); }
    auto T = [&](const char* k, const char*& p, std::string& out, bool lead) { if (s(3) == 2) { std::string t = s(20) ? gen_text(s, 8) : gen_text(s, 400); p = f.str(t); out += (lead ? ",\"" : "\"") + std::string(k) + "\":" + jstr(t) + (lead ? "" : ","); } };
    T("name", c.name, f.head, false); T("description", c.description, f.head, false); T("banner", c.banner, f.head, false); T("icon", c.icon, f.head, false); T("pubkey", c.pubkey, f.head, false); T("self", c.self_pubkey, f.head, false); T("contact", c.contact, f.head, false); T("software", c.software, f.head, false); T("version", c.version, f.head, false); T("privacy_policy", c.privacy_policy, f.head, false); T("terms_of_service", c.terms_of_service, f.head, false); f.lim = gen_lim(s, c.limitation, s(4) == 3);
    if (s(2)) { size_t n = 1 + s(3); c.retention = heap<nostr_relay_retention_t>(n); c.retention_count = n; std::string a; for (size_t i = 0; i < n; i++) { auto& e = c.retention[i]; std::string o; if (s(2)) { e.kinds_count = 1 + s(4); e.kinds = heap<int32_t>(e.kinds_count); for (size_t k = 0; k < e.kinds_count; k++) e.kinds[k] = (int32_t)s(65536); o += ",\"kinds\":" + kinds_json(e.kinds, e.kinds_count); } e.time = gen_i64(s); if (e.time) o += ",\"time\":" + num(e.time); e.count = gen_i32(s); if (e.count > 0) o += ",\"count\":" + num(e.count); a += (i ? ",{" : "{") + (o.empty() ? o : o.substr(1)) + "}"; } f.tail += ",\"retention\":[" + a + "]"; }
    auto L = [&](const char* k, const char**& p, size_t& cnt) { if (s(3)) return; size_t n = 1 + s(4); p = (const char**)lib_alloc(n * sizeof(char*)); cnt = n; std::string a; for (size_t i = 0; i < n; i++) { std::string t = gen_text(s, 4); p[i] = f.str(t); a += (i ? "," : "") + jstr(t); } f.tail += ",\"" + std::string(k) + "\":[" + a + "]"; };
    L("relay_countries", c.relay_countries, c.relay_countries_count); L("language_tags", c.language_tags, c.language_tags_count); L("tags", c.tags, c.tags_count); T("posting_policy", c.posting_policy, f.tail, true); T("payments_url", c.payments_url, f.tail, true);
    std::string fees; gen_fees(s, f, c.fees.admission, c.fees.admission_count, "admission", 0, fees); gen_fees(s, f, c.fees.subscription, c.fees.subscription_count, "subscription", 1, fees); gen_fees(s, f, c.fees.publication, c.fees.publication_count, "publication", 2, fees); if (!fees.empty()) f.tail += ",\"fees\":{" + fees + "}";
}
static void must_nips(const Info& f, const char* what) { bool ok = f.c.supported_nips_count == f.nips.size(); for (size_t i = 0; ok && i < f.nips.size(); i++) ok = f.c.supported_nips[i] == f.nips[i]; if (!ok) violate("nips", "after %s the relay supports %zu NIPs, it should be %zu", what, f.c.supported_nips_count, f.nips.size()); }
template <class F> static void write_doc(const Src& s, const std::string& want, F call, const char* what, size_t& full) {
    C21& w = *w21; size_t n = full ? (s(2) ? full + 1 + s(3) - 1 : s(2) ? full - s((uint32_t)std::min<size_t>(full, 4)) : 1 + s((uint32_t)full)) : 60000; Buf b(n); size_t len = 0xA5A5; bool wl = s(4); Leak lk; arm(s, w.pct, w.kinds, s(2) ? 12 : 200); nostr_relay_error_t rc = call(b.c(), n, wl ? &len : nullptr); Faults f = disarm(); lk.check(what);
    if (rc == NOSTR_RELAY_OK) { size_t k = strnlen(b.c(), n); if (k == n) violate("not-terminated", "%s writes no terminated text", what); std::string got(b.c(), k); if (wl && len != k) violate("length", "%s reports %zu of %zu bytes", what, len, k); J a, d; if (!jparse(got, a) || !jparse(want, d)) violate("document", "%s writes %.900s", what, got.c_str()); if (!jeq(a, d, true)) violate("document", "%s: %.300s; it writes %.600s, the relay is %.600s", what, jdiff(a, d).c_str(), got.c_str(), want.c_str()); if (full && n <= full) violate("length", "a document of %zu bytes fits into %zu", full, n); full = k; count("document"); return; }
    if (rc == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) { if (!full ? n >= 60000 : n > full) violate("length", "%zu bytes are too little for a document of %zu", n, full); if (wl && full && len != full) violate("length", "%s reports %zu bytes as needed for %zu", what, len, full); count("too_small"); return; }
    if (!f.fired) violate("refused", "%s fails with %s", what, nostr_relay_error_string(rc)); count("document_failed");
}
static void info_op(const Src& s) {
    C21& w = *w21; Leak all; Info f; gen_info(s, f); int n = (int)s(8); size_t full = 0, lfull = 0;
    for (int i = 0; i < n; i++) switch (s(5)) {
    case 0: case 1: { int v = (int)s(100); arm(s, w.pct, w.kinds, 2); nostr_relay_error_t rc = nostr_relay_info_add_nip(&f.c, v); Faults q = disarm(); if (rc == NOSTR_RELAY_OK) { f.nips.push_back(v); full = 0; } else if (!q.fired) violate("refused", "a NIP cannot be added"); must_nips(f, "adding one"); break; }
    case 2: { size_t k = s(2) ? s(4) : s(40); std::vector<int32_t> v(k ? k : 1); for (auto& x : v) x = (int32_t)s(200); bool null = s(8) == 7; arm(s, w.pct, w.kinds, 2); nostr_relay_error_t rc = nostr_relay_info_set_nips(&f.c, null ? nullptr : v.data(), k); Faults q = disarm(); if (rc == NOSTR_RELAY_OK) { f.nips.assign(v.begin(), v.begin() + (null ? 0 : k)); full = 0; } else if (!q.fired) violate("refused", "NIPs cannot be set"); must_nips(f, "setting them"); break; }
    case 3: write_doc(s, f.lim, [&](char* b, size_t z, size_t* l) { return nostr_relay_limitation_serialize(&f.c.limitation, b, z, l); }, "nostr_relay_limitation_serialize", lfull); break;
    default: write_doc(s, f.doc(), [&](char* b, size_t z, size_t* l) { return nostr_relay_info_serialize(&f.c, b, z, l); }, "nostr_relay_info_serialize", full); }
    write_doc(s, f.doc(), [&](char* b, size_t z, size_t* l) { return nostr_relay_info_serialize(&f.c, b, z, l); }, "nostr_relay_info_serialize", full);
    { size_t sf = w.shared_doc.size() ? 0 : 0; write_doc(s, w.shared_doc, [&](char* b, size_t z, size_t* l) { return nostr_relay_info_serialize(&w.shared, b, z, l); }, "nostr_relay_info_serialize (shared)", sf); }
    nostr_relay_info_free(&f.c); if (!all_zero(&f.c, sizeof f.c)) violate("not-cleared", "a freed relay information still holds data"); nostr_relay_info_free(&f.c); all.check("a relay information");
}
static bool lhex(const std::string& t) { for (char c : t) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false; return true; }
static std::string bent(const Src& s, std::string t) { switch (s(8)) { case 0: if (!t.empty()) t[s((uint32_t)t.size())] = "gG:/`@A \x7f"[s(9)]; break; case 1: t.resize(s((uint32_t)t.size() + 1)); break; case 2: t += "0a"[s(2)]; break; case 3: t = gen_text(s, 6); break; case 4: if (!t.empty()) t[s((uint32_t)t.size())] = (char)(1 + s(255)); break; default: break; } return t; }
static void check_op(const Src& s) {
    C21& w = *w21; std::string h = bent(s, gen_hex(s, s(3) ? 32 : (int)s(34))); CStr ch(h);
    if (nostr_validate_hex64(ch) != (h.size() == 64 && lhex(h))) violate("check", "nostr_validate_hex64 misjudges '%s'", h.c_str()); if (nostr_validate_hex_prefix(ch) != (!h.empty() && h.size() <= 64 && lhex(h))) violate("check", "nostr_validate_hex_prefix misjudges '%s'", h.c_str());
    std::string id = bent(s, s(2) ? std::string(60 + s(7), 'i') : gen_name(s, 30)); bool ok = !id.empty() && id.size() <= 64; for (unsigned char c : id) ok &= c >= 32 && c <= 126; CStr ci(id); if (nostr_validate_subscription_id(ci) != ok) violate("check", "nostr_validate_subscription_id misjudges '%s'", id.c_str());
    std::string a = bent(s, std::to_string(30000 + s(10000))) + (s(10) ? ":" : "") + bent(s, gen_hex(s, 32)) + (s(10) ? ":" : "") + (s(2) ? gen_text(s, 3) : ""); size_t c1 = a.find(':'), c2 = c1 == std::string::npos ? c1 : a.find(':', c1 + 1); ok = c2 != std::string::npos && c1 > 0; if (ok) { for (size_t i = 0; i < c1; i++) ok &= a[i] >= '0' && a[i] <= '9'; std::string k = a.substr(c1 + 1, c2 - c1 - 1); ok &= k.size() == 64 && lhex(k); } CStr ca(a); if (nostr_validate_address(ca) != ok) violate("check", "nostr_validate_address misjudges '%s'", a.c_str());
    int64_t t0 = sim_wall(), now = nostr_timestamp_now(), t1 = sim_wall(); if (now < std::min(t0, t1) || now > std::max(t0, t1)) violate("clock", "the time is %lld, it is given as %lld", (long long)t0, (long long)now);
    static const std::vector<int64_t> ds = {0, 1, 900, -1, -900, INT64_MAX, INT64_MIN, 3600}; int64_t d = s.of(ds), off = s(3) ? (int64_t)s(5) - 2 : (int64_t)s(4000) - 2000; __int128 edge = (__int128)t0 + d; int64_t ts; if (s(4) == 0) ts = s.of(std::vector<int64_t>{INT64_MAX, INT64_MIN, 0, -1}); else { __int128 v = edge + off; if (v > INT64_MAX) v = INT64_MAX; if (v < INT64_MIN) v = INT64_MIN; ts = (int64_t)v; } bool got = nostr_validate_timestamp(ts, d); t1 = sim_wall(); bool lo = ts <= (__int128)std::min(t0, t1) + d, hi = ts <= (__int128)std::max(t0, t1) + d; if ((lo && hi && !got) || (!lo && !hi && got)) violate("check", "nostr_validate_timestamp says %d for %lld at %lld with %lld allowed", got, (long long)ts, (long long)t0, (long long)d);
    // hex both ways, in buffers of exactly the given size
    { std::string raw; int n = (int)s(40); for (int i = 0; i < n; i++) raw += (char)s(256); Buf in(n), out(2 * n + 1); memcpy(in.c(), raw.data(), n); nostr_bytes_to_hex(in.u(), n, out.c()); std::string hx = hex(raw.data(), n); if (hx != out.c()) violate("hex", "%d bytes %s are written as %s", n, hx.c_str(), out.c()); std::string x = bent(s, hx); if (s(3) == 0) for (auto& c : x) if (s(2)) c = (char)toupper(c); bool v = x.size() % 2 == 0; for (char c : x) v &= !!isxdigit((unsigned char)c); size_t room = s(2) ? x.size() / 2 : s((uint32_t)x.size() + 2); Buf xi(x.size()), xo(room); memcpy(xi.c(), x.data(), x.size()); nostr_relay_error_t rc = nostr_hex_to_bytes(xi.c(), x.size(), xo.u(), room); bool want = v && room >= x.size() / 2; if ((rc == NOSTR_RELAY_OK) != want) violate("hex", "reading '%s' into %zu bytes gives %s", x.c_str(), room, nostr_relay_error_string(rc)); if (want && std::string(xo.c(), x.size() / 2) != unhex(x)) violate("hex", "'%s' is read wrongly", x.c_str()); if (want) for (size_t i = x.size() / 2; i < room; i++) if (xo.c()[i] != (char)0xAA) violate("hex", "reading '%s' writes beyond its bytes", x.c_str()); }
    // tag values by name, as one array
    { RefEvent r; int n = (int)s(5); for (int i = 0; i < n; i++) { std::vector<std::string> t = {s(3) ? "t" : gen_text(s, 2)}; int k = (int)s(3); for (int j = 0; j < k; j++) t.push_back(gen_text(s, 4)); r.tags.push_back(t); } static const std::vector<std::string> ids = {"e", "p"}; for (int i = 0; i < (int)s(4); i++) r.tags.push_back({s.of(ids), bent(s, gen_hex(s, 32))}); nostr_event* e; { NoFaults nf; e = make_event(r); }
      for (int which = 0; which < 2; which++) { std::string want; for (auto& t : r.tags) if (t.size() >= 2 && t[0] == ids[which] && t[1].size() == 64 && lhex(t[1])) want += unhex(t[1]); size_t k = 99; Leak lk; arm(s, w.pct, w.kinds, 2); auto p = which ? nostr_event_get_p_tags_binary(e, &k) : nostr_event_get_e_tags_binary(e, &k); Faults f = disarm(); if (!p) { if (!want.empty() && !f.fired) violate("tags", "the %s tags of %s are not given", ids[which].c_str(), r.tags_json().c_str()); if (k) violate("tags", "no %s tags, but %zu of them", ids[which].c_str(), k); } else { if (k * 32 != want.size() || (k && memcmp(p, want.data(), want.size()))) violate("tags", "the %s tags of %.600s are given as %zu", ids[which].c_str(), r.tags_json().c_str(), k); nostr_free(p); } lk.check("reading tags"); }
      nostr_event_destroy(e); }
    count("checks");
}
static void c21_info() {
    C21 w; w21 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); if (g(3)) { w.kinds = FAULT_ALLOC; w.pct = 40; }
    Info sh; { NoFaults nf; gen_info(src("shared", 0), sh); w.shared = sh.c; w.shared_doc = sh.doc(); }
    int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int ops = 3 + (int)s(9); for (int k = 0; k < ops; k++) if (s(2)) info_op(s); else check_op(s); });
    sim_join_spawned(); nostr_relay_info_free(&w.shared); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C21, info, c21_info)
