// C28: what a build says about itself
#include "op.h"
extern "C" {
#include "nostr_features.h"
}
struct C28 { std::vector<std::pair<const char*, std::string>> held; };
static const std::map<int, const char*>& nips() {
    static const std::map<int, const char*> m = {
#ifdef NOSTR_FEATURE_NIP04
        {4, "nip04"},
#endif
#ifdef NOSTR_FEATURE_NIP05
        {5, "nip05"},
#endif
#ifdef NOSTR_FEATURE_NIP10
        {10, "nip10"},
#endif
#ifdef NOSTR_FEATURE_NIP13
        {13, "nip13"},
#endif
#ifdef NOSTR_FEATURE_NIP17
        {17, "nip17"},
#endif
#ifdef NOSTR_FEATURE_NIP18
        {18, "nip18"},
#endif
#ifdef NOSTR_FEATURE_NIP25
        {25, "nip25"},
#endif
#ifdef NOSTR_FEATURE_NIP26
        {26, "nip26"},
#endif
#ifdef NOSTR_FEATURE_NIP44
        {44, "nip44"},
#endif
#ifdef NOSTR_FEATURE_NIP46
        {46, "nip46"},
#endif
#ifdef NOSTR_FEATURE_NIP47
        {47, "nip47"},
#endif
#ifdef NOSTR_FEATURE_NIP49
        {49, "nip49"},
#endif
#ifdef NOSTR_FEATURE_NIP51
        {51, "nip51"},
#endif
#ifdef NOSTR_FEATURE_NIP57
        {57, "nip57"},
#endif
#ifdef NOSTR_FEATURE_NIP59
        {59, "nip59"},
#endif
#ifdef NOSTR_FEATURE_NIP65
        {65, "nip65"},
#endif
    };
    return m;
}
#ifdef NOSTR_FEATURE_RELAY
static const int has_relay = 1;
#else
static const int has_relay = 0;
#endif
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
static const int has_rp = 1;
#else
static const int has_rp = 0;
#endif
#ifdef NOSTR_FEATURE_HD_KEYS
static const int has_hd = 1;
#else
static const int has_hd = 0;
#endif
#ifdef NOSTR_FEATURE_JSON_ENHANCED
static const int has_js = 1;
#else
static const int has_js = 0;
#endif
static std::set<std::string> want_list() {
    std::set<std::string> w = {"std", "events", "keys", "encoding"}; for (auto& p : nips()) w.insert(p.second); if (has_relay) w.insert("relay"); if (has_rp) w.insert("relay-protocol"); if (has_hd) w.insert("hd-keys"); if (has_js) w.insert("json-enhanced");
#ifdef NOSTR_FEATURE_THREADING
    w.insert("threading");
#endif
    return w;
}
static std::string backend() {
#if defined(NOSTR_FEATURE_CRYPTO_NOSCRYPT)
    return "noscrypt";
#elif defined(NOSTR_FEATURE_CRYPTO_SECP256K1)
    return "secp256k1";
#else
    return "none";
#endif
}
static void check_list(const char* p) {
    if (!p) violate("features", "there is no feature list"); std::string t = p; std::set<std::string> got; size_t n = 0, a = 0; for (;;) { size_t b = t.find(',', a); got.insert(t.substr(a, b == std::string::npos ? b : b - a)); n++; if (b == std::string::npos) break; a = b + 1; }
    if (got != want_list() || n != got.size()) { std::string miss, more; for (auto& x : want_list()) if (!got.count(x)) miss += " " + x; for (auto& x : got) if (!want_list().count(x)) more += " " + x; violate("features", "the feature list is '%s'; missing:%s, not built in:%s", p, miss.c_str(), more.c_str()); }
}
static void self_op(C28& w, const Src& s) {
    if (s(3)) arm(s, 60, FAULT_ALLOC, 3); else disarm();
    switch (s(6)) {
    case 0: { const char* p = nostr_feature_list_enabled(); check_list(p); for (int i = (int)s(4); i > 0; i--) sim_yield(); check_list(p); w.held.push_back({p, p}); count("list"); break; }
    case 1: { static const std::vector<int> odd = {-1, 0, 1, 6, 9, 11, 19, 21, 42, 99, 256 + 4, 256 + 44, 65536 + 10, -4, -13, 2147483647, -2147483647 - 1}; int n = s(2) ? (int)s(120) : s(2) ? s.of(odd) : (int)(uint32_t)s.u64(); int r = nostr_feature_nip_supported(n); if (r != (nips().count(n) ? 1 : 0)) violate("nip", "NIP %d is reported as %d", n, r); count("nip"); break; }
    case 2: { for (int n = -3; n < 130; n++) if (nostr_feature_nip_supported(n) != (nips().count(n) ? 1 : 0)) violate("nip", "NIP %d is reported as %d", n, nostr_feature_nip_supported(n)); int a = nostr_feature_relay_available(), b = nostr_feature_relay_protocol_available(), c = nostr_feature_hd_keys_available(), d = nostr_feature_json_enhanced_available(); if (a != has_relay || b != has_rp || c != has_hd || d != has_js) violate("features", "availability: relay %d, relay protocol %d, HD keys %d, JSON %d; built: %d %d %d %d", a, b, c, d, has_relay, has_rp, has_hd, has_js); count("availability"); break; }
    case 3: { const char* p = nostr_feature_crypto_backend_info(); if (!p || std::string(p).compare(0, backend().size(), backend())) violate("backend", "the crypto backend is reported as '%s'", p ? p : "(null)"); p = nostr_version(); if (!p || !*p) violate("version", "there is no version"); w.held.push_back({p, p}); count("backend"); break; }
    case 4: { std::map<std::string, int> seen; for (int e = NOSTR_OK; e <= NOSTR_ERR_NOT_SUPPORTED; e++) { const char* p = nostr_error_string((nostr_error_t)e); if (!p || !*p) violate("error-text", "error %d has no text", e); if (!seen.emplace(p, e).second) violate("error-text", "errors %d and %d are both '%s'", seen[p], e, p); } const char* u = nostr_error_string((nostr_error_t)(NOSTR_ERR_NOT_SUPPORTED + 1 + (int)s(100))); if (!u || seen.count(u)) violate("error-text", "an unknown error is called '%s'", u ? u : "(null)"); count("errors"); break; }
    default: { static const nostr_relay_error_t all[] = {NOSTR_RELAY_OK, NOSTR_RELAY_ERR_INVALID_JSON, NOSTR_RELAY_ERR_MISSING_FIELD, NOSTR_RELAY_ERR_INVALID_ID, NOSTR_RELAY_ERR_INVALID_PUBKEY, NOSTR_RELAY_ERR_INVALID_SIG, NOSTR_RELAY_ERR_INVALID_CREATED_AT, NOSTR_RELAY_ERR_INVALID_KIND, NOSTR_RELAY_ERR_INVALID_TAGS, NOSTR_RELAY_ERR_INVALID_CONTENT, NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH, NOSTR_RELAY_ERR_FUTURE_EVENT, NOSTR_RELAY_ERR_EXPIRED_EVENT, NOSTR_RELAY_ERR_INVALID_SUBSCRIPTION_ID, NOSTR_RELAY_ERR_TOO_MANY_FILTERS, NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, NOSTR_RELAY_ERR_MEMORY, NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE, NOSTR_RELAY_ERR_STORAGE};
        std::map<std::string, int> seen; int hi = 0; for (auto e : all) { hi = std::max(hi, (int)e); const char* p = nostr_relay_error_string(e); if (!p || !*p) violate("error-text", "relay error %d has no text", e); if (!seen.emplace(p, e).second) violate("error-text", "relay errors %d and %d are both '%s'", seen[p], e, p); } const char* u = nostr_relay_error_string((nostr_relay_error_t)(hi + 1 + (int)s(100))); if (!u || seen.count(u)) violate("error-text", "an unknown relay error is called '%s'", u ? u : "(null)"); count("relay_errors"); break; }
    }
    disarm(); for (auto& h : w.held) if (h.second != h.first) violate("text-changed", "a text given earlier ('%s') has become '%s'", h.second.c_str(), h.first);
}
static void c28_self() {
    C28 w[5]; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 2 + (int)g(3); C28* p = w; bool init = g(2);
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, p] { Src s = src("actor", i); int ops = 1 + (int)s(8); for (int k = 0; k < ops; k++) self_op(p[i], s); });
    if (init) sim_spawn("life", [] { nostr_init(); nostr_cleanup(); }); sim_join_spawned(); C28& m = w[4]; Src s("main"); for (int k = 0; k < 3; k++) self_op(m, s);
    for (int i = 0; i < nt; i++) for (auto& h : w[i].held) if (h.second != h.first) violate("text-changed", "a text given earlier ('%s') has become '%s'", h.second.c_str(), h.first); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C28, self, c28_self)
