// C09: the active configuration is one atomic, always valid value
// C10: initialisation and clean-up from any threads
#include "op.h"
static std::vector<int64_t> V(const nostr_config& c) { return {c.nip44_min_plaintext_size, c.nip44_max_plaintext_size, c.max_sessions, c.session_timeout_secs, c.max_permissions, c.max_content_size, c.max_tags, c.max_tag_values, c.relay_connect_timeout_ms, c.relay_response_timeout_ms, c.encryption_default_nip, c.secure_memory_lock, c.debug_mode}; }
static const int64_t LO[] = {1, 1, 1, 60, 1, 1024, 1, 1, 1000, 1000, 4, 0, 0}, HI[] = {65535, 65535, 10000, 86400, 1000, 1048576, 1000, 1000, 300000, 60000, 44, 1, 1};
static const char* ENV[] = {"NOSTR_NIP44_MIN_SIZE", "NOSTR_NIP44_MAX_SIZE", "NOSTR_MAX_SESSIONS", "NOSTR_SESSION_TIMEOUT", "NOSTR_MAX_PERMISSIONS", "NOSTR_MAX_CONTENT_SIZE", "NOSTR_MAX_TAGS", "NOSTR_MAX_TAG_VALUES", "NOSTR_RELAY_CONNECT_TIMEOUT", "NOSTR_RELAY_RESPONSE_TIMEOUT", "NOSTR_ENCRYPTION_DEFAULT", "NOSTR_SECURE_MEMORY_LOCK", "NOSTR_DEBUG"};
static nostr_config C(const std::vector<int64_t>& v) { nostr_config c; c.nip44_min_plaintext_size = (uint32_t)v[0]; c.nip44_max_plaintext_size = (uint32_t)v[1]; c.max_sessions = (uint32_t)v[2]; c.session_timeout_secs = (uint32_t)v[3]; c.max_permissions = (uint32_t)v[4]; c.max_content_size = (uint32_t)v[5]; c.max_tags = (uint32_t)v[6]; c.max_tag_values = (uint32_t)v[7]; c.relay_connect_timeout_ms = (uint32_t)v[8]; c.relay_response_timeout_ms = (uint32_t)v[9]; c.encryption_default_nip = (int)v[10]; c.secure_memory_lock = (int)v[11]; c.debug_mode = (int)v[12]; return c; }
static const std::vector<int64_t> DEF = {1, 65535, 100, 3600, 32, 65536, 100, 50, 30000, 10000, 44, 0, 0};
static bool valid(const std::vector<int64_t>& v) { for (int i = 0; i < 13; i++) if (v[i] < LO[i] || v[i] > HI[i]) return false; return v[1] >= v[0] && (v[10] == 4 || v[10] == 44); }
static std::string show(const std::vector<int64_t>& v) { std::string r; for (auto x : v) r += (r.empty() ? "" : ",") + std::to_string(x); return r; }
static std::vector<int64_t> gen_valid(const Src& s) {
    std::vector<int64_t> v(13); for (int i = 0; i < 13; i++) switch (s(4)) { case 0: v[i] = DEF[i]; break; case 1: v[i] = LO[i]; break; case 2: v[i] = HI[i]; break; default: v[i] = LO[i] + (int64_t)(s.u64() % (uint64_t)(HI[i] - LO[i] + 1)); }
    if (v[10] != 44) v[10] = 4; if (v[0] > v[1]) std::swap(v[0], v[1]); return v;
}
static std::vector<int64_t> gen_any(const Src& s) {
    std::vector<int64_t> v = gen_valid(s); if (s(2)) return v; int k = 1 + (int)s(2);
    while (k--) { int i = (int)s(13); switch (s(5)) { case 0: v[i] = LO[i] - 1; break; case 1: v[i] = HI[i] + 1; break; case 2: v[i] = 0; break; case 3: v[i] = i >= 10 ? -1 : 0xffffffffll; break; default: if (i == 10) v[i] = 5 + s(39); else if (i < 2) { v[0] = 1 + s(65535); v[1] = v[0] - 1; } else v[i] = s(3); } if (v[i] < 0 && i < 10) v[i] = 0; }
    return v;
}
struct HOp { char k; std::vector<int64_t> v; uint64_t a, b; };          // w(rite) r(ead) i(nit); v empty: not initialised
struct CbRec { std::vector<int64_t> o, n; int cb; int tid; bool nested; };
struct CbReg { int cb; uint64_t a, b; };                                 // set_callback(cb) took effect in [a,b]
struct C09 { std::vector<HOp> h; std::vector<CbReg> regs; std::vector<CbRec> fired; std::map<int, int> depth; std::set<std::vector<int64_t>> used, tried; int kinds = 0, pct = 0, nread = 0; };
static C09* w9;
static std::vector<int64_t> fresh(const Src& s) { for (;;) { auto v = gen_valid(s); if (w9->used.insert(v).second) return v; v[3] = 60 + (int64_t)w9->used.size() % 80000; if (w9->used.insert(v).second) return v; } }
static void do_read() { C09& w = *w9; uint64_t a = sim_seq(); const nostr_config* c = nostr_config_get_current(); std::vector<int64_t> v; uint64_t b = sim_seq(); bool hold = ++w.nread % 2; if (c) { if (hold) sim_yield(); v = V(*c); if (hold) { sim_yield(); auto v2 = V(*c); if (v2 != v) violate("changed-under-reader", "the configuration a thread read becomes %s while it looks at it (was %s)", show(v2).c_str(), show(v).c_str()); count("held_reads"); } }  if (c) { if (!valid(v)) violate("invalid-config", "the active configuration is invalid: %s", show(v).c_str()); if (!w.used.count(v)) violate("mixed-config", "the active configuration was never set: %s", show(v).c_str()); } w.h.push_back({'r', v, a, b}); count("reads"); }
static void cb0(const nostr_config* o, const nostr_config* n, void* u);
static void do_update(const Src& s, bool nested) {
    C09& w = *w9; bool good = s(4) != 3; std::vector<int64_t> v; if (good) v = fresh(s); else do v = gen_any(s); while (valid(v));
    std::unique_ptr<nostr_config> c(new nostr_config(C(v))); size_t n0 = w.fired.size(); int me = sim_self(); uint64_t a = sim_seq(); nostr_error_t rc = nostr_config_update(c.get()); uint64_t b = sim_seq();
    std::vector<CbRec> mine; for (size_t i = n0; i < w.fired.size(); i++) if (w.fired[i].tid == me && w.fired[i].n == v) mine.push_back(w.fired[i]);
    if (V(*c) != v) violate("argument-changed", "nostr_config_update changed its argument");
    if (rc == NOSTR_OK) { if (!good) violate("invalid-config", "an invalid configuration was accepted: %s", show(v).c_str()); w.h.push_back({'w', v, a, b}); count("updates"); }
    else { if (good && rc != NOSTR_ERR_NOT_FOUND) violate("update-refused", "a valid configuration was refused (%s): %s", nostr_error_string(rc), show(v).c_str()); if (good) { w.used.erase(v); w.h.push_back({'r', {}, a, b}); } count("updates_refused"); if (!mine.empty()) violate("callback", "the callback ran for an update that failed"); return; }
    // which callbacks were registered at some moment during the call, and was one registered throughout
    std::vector<CbReg> prev; for (auto& r : w.regs) { bool shadow = false; for (auto& q : w.regs) if (q.a > r.b && q.b < a) shadow = true; if (r.a <= b && !shadow) prev.push_back(r); }
    bool may_none = prev.empty(); std::set<int> may; bool initial = true; for (auto& r : w.regs) if (r.b < a) initial = false; if (initial) may_none = true; for (auto& r : prev) if (r.cb) may.insert(r.cb); else may_none = true;
    if (mine.size() > 1) violate("callback", "one update ran the callback %zu times", mine.size());
    if (mine.size() == 1 && !may.count(mine[0].cb)) violate("callback", "an update ran a callback that was not registered");
    if (mine.empty() && !may_none) violate("callback", "an update did not run the registered callback");
}
static void cb_common(const nostr_config* o, const nostr_config* n, void* u) {
    C09& w = *w9; int id = (int)(intptr_t)u, me = sim_self(); CbRec r{V(*o), V(*n), id, me, w.depth[me] > 0}; w.fired.push_back(r); if (!valid(r.o) || !valid(r.n)) violate("invalid-config", "the callback got an invalid configuration"); count("callbacks");
    Src s = src("cb", me); if (w.depth[me] < 2) { w.depth[me]++; switch (s(6)) { case 1: case 2: do_read(); break; case 3: do_update(s, true); break; case 4: sim_yield(); break; case 5: { size_t at = w.regs.size(); w.regs.push_back({id, sim_seq(), ~0ull}); nostr_config_set_callback(cb0, (void*)(intptr_t)id); w.regs[at].b = sim_seq(); break; } default:; } w.depth[me]--; }
    if (V(*o) != r.o || V(*n) != r.n) violate("callback", "a configuration given to the callback changed while it ran");
}
static void cb0(const nostr_config* o, const nostr_config* n, void* u) { cb_common(o, n, u); }
static std::string gen_env(const Src& s, int i, int64_t& want, bool& good) {       // good: a decimal number that fits the type
    good = false; want = DEF[i]; if (s(5) == 4) { static const std::vector<const char*> big = {"2147483648", "-2147483649", "4294967300", "-4294967292", "-18446744073709551612", "9223372036854775812", "18446744073709551660", "-1844674407370955157200"}, neg = {"-1", "-44", "-100", "-18446744073709551516", " -18446744073709551516", "\t-18446744073709551585", "+-18446744073709551516"}; if (s(2)) { if (i < 10) { if (s(2)) return s.of(neg); std::string t = s.of(big); if (t != "2147483648") return t; good = true; want = 2147483648ll; return t; } return s.of(big); } good = true; want = i < 10 ? 4294967295ll : s(2) ? 2147483647ll : -2147483648ll; return std::to_string(want); }
    switch (s(9)) { case 0: return ""; case 1: return "abc"; case 2: return std::to_string(s(1000)) + "x"; case 3: return "99999999999999999999"; case 4: return "4294967296"; case 5: return "1e3"; default: good = true; want = s(4) ? LO[i] + (int64_t)(s.u64() % (uint64_t)(HI[i] - LO[i] + 1)) : s(2) ? HI[i] + 1 : 0; return (s(5) == 4 ? "0" : "") + std::to_string(want); }
}
static std::vector<int64_t> env_expect; static bool env_set_up;
static void set_env(const Src& s) { env_expect = DEF; for (int i = 0; i < 13; i++) { int64_t v; bool good; env_unset(ENV[i]); if (s(6) != 5) continue; std::string t = gen_env(s, i, v, good); env_set(ENV[i], t); if (good) env_expect[i] = v; count("env_values"); } }
static void event_limits(const Src& s) {      // what is parsed or built obeys the configuration active meanwhile
    C09& w = *w9; size_t h0 = w.h.size(); (void)h0; do_read(); std::vector<int64_t> v = w.h.back().v; if (v.empty()) return;
    RefEvent r; r.created_at = 1700000000; int which = (int)s(3); int64_t d = (int64_t)s(3) - 1; size_t lim = (size_t)std::max<int64_t>(0, v[which == 0 ? 5 : which == 1 ? 6 : 7] + d);
    if (which == 0) { if (lim > 70000 && s(8)) return; r.content = std::string(lim, 'a'); } else if (which == 1) { if (lim > 300 && s(4)) return; for (size_t i = 0; i < lim; i++) r.tags.push_back({"t"}); } else { if (lim < 1) return; if (lim > 300 && s(4)) return; r.tags.push_back(std::vector<std::string>(lim, "v")); }
    if (!HAS_JSON && which == 0) return; bool parse = HAS_JSON && (which == 0 || s(2)); nostr_error_t rc; nostr_event* e = nullptr; uint64_t a = sim_seq();
    if (parse) { CStr t(r.json()); rc = nostr_event_from_json(t, &e); } else { nostr_event_create(&e); rc = NOSTR_OK; for (auto& t : r.tags) { std::vector<const char*> p; for (auto& x : t) p.push_back(x.c_str()); rc = nostr_event_add_tag(e, p.data(), p.size()); if (rc != NOSTR_OK) break; } }
    uint64_t b = sim_seq(); if (rc == NOSTR_OK && !same_event(from_lib(e), [&] { RefEvent q = r; q.id = std::string((char*)e->id, 32); q.created_at = e->created_at; q.kind = e->kind; return q; }())) violate("event-changed", "an event built under limits differs"); if (e && (rc == NOSTR_OK || !parse)) nostr_event_destroy(e);
    // every configuration that may have been active during the call
    auto fits = [&](const std::vector<int64_t>& c) { if ((int64_t)r.content.size() > c[5] || (int64_t)r.tags.size() > c[6]) return false; for (auto& t : r.tags) if ((int64_t)t.size() > c[7]) return false; return true; };
    (void)a; (void)b; bool stable = true; { size_t n = w.h.size(); do_read(); if (w.h.back().v != v) stable = false; for (size_t i = 0; i < n; i++) if (w.h[i].k != 'r' && w.h[i].b >= a) stable = false; }
    if (!stable) { count("limits_racing"); return; }
    if ((rc == NOSTR_OK) != fits(v)) violate("limit", "%s with %zu bytes of content, %zu tags and %zu values is %s under the limits %lld, %lld and %lld", parse ? "an event" : "a tag list", r.content.size(), r.tags.size(), r.tags.empty() ? (size_t)0 : r.tags[0].size(), rc == NOSTR_OK ? "accepted" : "refused", (long long)v[5], (long long)v[6], (long long)v[7]); count("limits");
}
static void do_init(const Src& s) {
    C09& w = *w9; std::vector<int64_t> v; bool env = s(3) == 2, good = true; if (env) { v = env_expect; good = valid(v); if (good) w.used.insert(v); } else if (s(5) == 4) { do v = gen_any(s); while (valid(v)); good = false; } else v = fresh(s);
    nostr_config c = C(v); if (good) w.tried.insert(v); arm(s, w.pct, w.kinds); uint64_t a = sim_seq(); nostr_error_t rc = nostr_init_with_config(env ? nullptr : &c); Faults f = disarm(); uint64_t b = sim_seq();
    bool was = false; for (auto& o : w.h) if ((o.k == 'i' || o.k == 'w' || !o.v.empty()) && o.b < a) was = true;
    if (rc == NOSTR_OK && !good) { bool other = false; for (auto& o : w.h) if (o.a < b && o.k != 'r') other = true; if (!w.tried.empty()) other = true; if (!was && !other) violate("invalid-config", "an invalid configuration was installed: %s", show(v).c_str()); }
    if (rc != NOSTR_OK && good && !f.fired) violate("init-failed", "nostr_init_with_config fails: %s", nostr_error_string(rc));
    if (rc != NOSTR_OK && !f.fired && rc != NOSTR_ERR_INVALID_PARAM) violate("init-failed", "an invalid configuration gives %s", nostr_error_string(rc));
    if (good) w.h.push_back({'i', v, a, b}); if (rc == NOSTR_OK && live_contexts() != 1) violate("not-initialised", "nostr_init_with_config succeeds with %d crypto contexts", live_contexts()); count("inits");
}
static void c09_thread(int id) {
    C09& w = *w9; Src s = src("actor", id); int ops = 4 + (int)s(12);
    for (int i = 0; i < ops; i++) {
        Leak lk;
        switch (s(10)) {
        case 0: case 1: do_read(); break;
        case 2: case 3: do_update(s, false); break;
        case 4: { int cb = s(4) ? 1 + (int)s(1000) : 0; size_t at = w.regs.size(); w.regs.push_back({cb, sim_seq(), ~0ull}); if (nostr_config_set_callback(cb ? cb0 : nullptr, (void*)(intptr_t)cb) != NOSTR_OK) violate("callback", "nostr_config_set_callback fails"); w.regs[at].b = sim_seq(); break; }
        case 5: { std::vector<int64_t> v = gen_any(s); std::unique_ptr<nostr_config> c(new nostr_config(C(v))); bool ok = nostr_config_validate(c.get()) == NOSTR_OK; if (ok != valid(v)) violate("validate", "nostr_config_validate %s %s", ok ? "accepts" : "refuses", show(v).c_str()); if (V(*c) != v) violate("argument-changed", "nostr_config_validate changed its argument"); count("validated"); break; }
        case 6: { std::unique_ptr<nostr_config> c(new nostr_config); memset(c.get(), 0xA5, sizeof *c); if (nostr_config_get_defaults(c.get()) != NOSTR_OK || V(*c) != DEF) violate("defaults", "the defaults are %s", show(V(*c)).c_str()); if (nostr_config_load_env(c.get()) != NOSTR_OK || V(*c) != env_expect) violate("environment", "the environment gives %s, expected %s", show(V(*c)).c_str(), show(env_expect).c_str()); std::vector<int64_t> own = gen_valid(s), want = own; for (int k = 0; k < 13; k++) if (env_expect[k] != DEF[k]) want[k] = env_expect[k]; *c = C(own); nostr_config_load_env(c.get()); for (int k = 0; k < 13; k++) if (env_expect[k] != DEF[k] && V(*c)[k] != want[k]) violate("environment", "%s is not applied over a configuration", ENV[k]); count("env_loads"); break; }
        case 7: do_init(s); break;
        default: event_limits(s);
        }
        lk.check("a configuration call");
    }
}
static std::vector<std::pair<std::vector<int64_t>, std::vector<int64_t>>> zfired; static void* zuser;
static void cbz(const nostr_config* o, const nostr_config* n, void* u) { zfired.push_back({V(*o), V(*n)}); zuser = u; }
// one thread sets values again that are or were set before
static void c09_again(const Src& s) {
    const nostr_config* c = nostr_config_get_current(); if (!c) return; std::vector<std::vector<int64_t>> pool = {V(*c), gen_valid(s), gen_valid(s)}; auto cur = pool[0]; zfired.clear(); zuser = nullptr; int tag; nostr_config_set_callback(cbz, &tag); size_t want = 0;
    for (int i = 0, n = 1 + (int)s(5); i < n; i++) { auto v = pool[s(3)]; std::unique_ptr<nostr_config> nc(new nostr_config(C(v))); nostr_error_t rc = nostr_config_update(nc.get()); if (rc == NOSTR_ERR_NOT_FOUND) break; if (rc != NOSTR_OK) violate("update-refused", "a valid configuration was refused (%s): %s", nostr_error_string(rc), show(v).c_str()); want++;
        if (zfired.size() != want || zuser != &tag) violate("callback", "setting %s while %s is set ran the callback %zu times", show(v).c_str(), show(cur).c_str(), zfired.size() + 1 - want); if (zfired.back().first != cur || zfired.back().second != v) violate("callback", "replacing %s by %s is reported as %s by %s", show(cur).c_str(), show(v).c_str(), show(zfired.back().first).c_str(), show(zfired.back().second).c_str());
        cur = v; const nostr_config* q = nostr_config_get_current(); if (!q || V(*q) != cur) violate("not-atomic", "after setting %s another configuration is active", show(cur).c_str()); count("set_again"); }
    nostr_config_set_callback(nullptr, nullptr);
}
static void c09_config() {
    C09 w; w9 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.kinds = (int)g(3) == 2 ? FAULT_CRYPTO : 0; w.pct = w.kinds ? 30 : 0; set_env(g); { bool ok = valid(env_expect); if (ok) w.used.insert(env_expect); }
    do_read(); if (g(2)) do_init(g); int nt = 1 + (int)g(4); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { c09_thread(i); }); sim_join_spawned(); do_read();
    // linearizability of a register whose writes are all different
    std::map<std::vector<int64_t>, std::pair<uint64_t, uint64_t>> z; std::set<std::vector<int64_t>> seen; for (auto& o : w.h) if (o.k == 'r') seen.insert(o.v); for (auto& c : w.fired) { seen.insert(c.o); seen.insert(c.n); }
    int winners = 0; std::set<std::vector<int64_t>> inits; for (auto& o : w.h) if (o.k == 'i' && seen.count(o.v)) inits.insert(o.v); winners = (int)inits.size(); if (winners > 1) violate("init-twice", "%d configurations given to nostr_init_with_config took effect", winners);
    std::map<std::vector<int64_t>, std::pair<uint64_t, uint64_t>> initw; for (auto& o : w.h) if (o.k == 'i' && inits.count(o.v)) { auto& q = initw.emplace(o.v, std::make_pair(o.a, o.b)).first->second; q.first = std::min(q.first, o.a); q.second = std::max(q.second, o.b); }
    auto put = [&](const std::vector<int64_t>& v, uint64_t a, uint64_t b) { auto it = z.find(v); if (it == z.end()) z[v] = {b, a}; else { it->second.first = std::min(it->second.first, b); it->second.second = std::max(it->second.second, a); } };
    std::map<std::vector<int64_t>, uint64_t> wstart; for (auto& o : w.h) if (o.k == 'w') { put(o.v, o.a, o.b); wstart[o.v] = o.a; } for (auto& q : initw) { put(q.first, q.second.first, q.second.second); wstart[q.first] = q.second.first; } put({}, 0, 0); wstart[{}] = 0;
    for (auto& o : w.h) if (o.k == 'r') { if (!wstart.count(o.v)) violate("mixed-config", "a configuration was read that no successful call set: %s", show(o.v).c_str()); if (o.b < wstart[o.v]) violate("not-atomic", "a configuration was read before it was set: %s", show(o.v).c_str()); put(o.v, o.a, o.b); }
    for (auto& x : z) for (auto& y : z) { if (x.first == y.first) continue; auto X = x.second, Y = y.second; bool fx = X.first < X.second, fy = Y.first < Y.second;
        if (fx && fy && X.first < Y.second && Y.first < X.second) violate("not-atomic", "the history of the configuration has no order: %s and %s alternate", show(x.first).c_str(), show(y.first).c_str());
        if (fx && !fy && X.first < Y.second && Y.first < X.second) violate("not-atomic", "the history of the configuration has no order: %s was set while %s stayed", show(y.first).c_str(), show(x.first).c_str()); }
    // the callbacks tell the order: every value is replaced at most once, by its successor
    std::map<std::vector<int64_t>, std::vector<int64_t>> next; std::set<std::vector<int64_t>> after; for (auto& c : w.fired) { if (next.count(c.o)) violate("callback", "two updates both report replacing %s", show(c.o).c_str()); next[c.o] = c.n; if (!after.insert(c.n).second) violate("callback", "two updates both report setting %s", show(c.n).c_str()); if (!wstart.count(c.o)) violate("mixed-config", "a callback got an old configuration that no call set: %s", show(c.o).c_str()); }
    auto last = w.h.back().v; if (next.count(last)) violate("not-atomic", "the last configuration read was replaced earlier");
    for (auto& n : next) { auto c = n.second; size_t k = 0; while (next.count(c) && k++ <= next.size()) c = next[c]; if (k > next.size()) violate("not-atomic", "the callbacks report a cycle of configurations"); auto zo = z.find(n.first), zn = z.find(n.second); if (zo != z.end() && zn != z.end() && zn->second.first < zo->second.second && zn->second.first < wstart[n.first]) violate("not-atomic", "a callback reports an order that did not happen"); }
    { disarm(); c09_again(Src("again")); }
    nostr_config_set_callback(nullptr, nullptr); nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C09, config, c09_config)

struct C10 { int kinds = 0, pct = 0; int cleanups_begun = 0, cleanups_done = 0; int inits_ok = 0; };
static C10* w10;
static void use_once(const Src& s, int pct, int kinds) {     // any first use of the library
    Leak lk; arm(s, pct, kinds); nostr_error_t rc = NOSTR_OK; bool ok = true; const char* what = "";
    switch (s(6)) {
    case 0: { what = "nostr_key_generate"; nostr_privkey k; nostr_key p; rc = nostr_key_generate(&k, &p); ok = rc != NOSTR_OK || ref_pub(std::string((char*)k.data, 32)) == std::string((char*)p.data, 32); break; }
    case 1: { what = "nostr_keypair_from_private_key"; nostr_keypair k; nostr_privkey p; RefKey r = key_no((int)s(5)); memcpy(p.data, r.sk.data(), 32); rc = nostr_keypair_from_private_key(&k, &p); ok = rc != NOSTR_OK || r.pk == std::string((char*)k.pubkey.data, 32); break; }
    case 2: { what = "nostr_event_sign"; RefEvent r; r.content = gen_name(s); nostr_event* e; { NoFaults nf; e = make_event(r); } nostr_privkey p; memcpy(p.data, key_no(1).sk.data(), 32); rc = nostr_event_sign(e, &p); ok = rc != NOSTR_OK || from_lib(e).authentic(); nostr_event_destroy(e); break; }
    case 3: { what = "nostr_event_verify"; RefEvent r; r.content = gen_name(s); r.seal(key_no(2)); nostr_event* e; { NoFaults nf; e = make_event(r); } rc = nostr_event_verify(e); nostr_event_destroy(e); break; }
    case 4: { what = "nostr_key_ecdh"; nostr_privkey p; nostr_key q; memcpy(p.data, key_no(1).sk.data(), 32); memcpy(q.data, key_no(2).pk.data(), 32); uint8_t o[32]; rc = nostr_key_ecdh(&p, &q, o); break; }
    default: { what = "nostr_hd_key_from_seed"; uint8_t seed[32] = {1, 2, 3}; nostr_hd_key m; rc = nostr_hd_key_from_seed(seed, 32, &m); ok = rc != NOSTR_OK || ref_pub(std::string((char*)m.privkey.data, 32)) == std::string((char*)m.pubkey.data, 32); }
    }
    Faults f = disarm(); if (rc != NOSTR_OK && !f.fired) violate("use-failed", "%s fails although nothing else does: %s", what, nostr_error_string(rc)); if (!ok) violate("use-wrong", "%s gives a wrong result", what); lk.check(what); count("uses");
}
static void c10_life() {
    C10 w; w10 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.kinds = (int)g(2) ? FAULT_CRYPTO | FAULT_RNG : 0; w.pct = w.kinds ? 40 : 0; int phases = 1 + (int)g(4);
    for (int ph = 0; ph < phases; ph++) {
        bool use = g(2); int nt = 1 + (int)g(4);
        for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [use, i, ph] {
            C10& w = *w10; Src s = src("actor", ph * 10 + i); int ops = 1 + (int)s(5);
            for (int k = 0; k < ops; k++) {
                int op = (int)s(6); if (use && op == 2) op = 5; if (!use && op >= 3) op = (int)s(3);
                if (op == 2) { w.cleanups_begun++; nostr_cleanup(); w.cleanups_done++; count("cleanups"); }
                else if (op == 5 || op == 4 || op == 3) use_once(s, w.pct, w.kinds);
                else { int begun = w.cleanups_begun, idle = w.cleanups_begun == w.cleanups_done; nostr_config c = C(DEF); arm(s, w.pct, w.kinds, 8); nostr_error_t rc = op == 0 ? nostr_init() : nostr_init_with_config(s(2) ? &c : nullptr); Faults f = disarm();
                    if (rc == NOSTR_OK && idle && begun == w.cleanups_begun && live_contexts() != 1) violate("not-initialised", "initialisation reports success with %d crypto contexts", live_contexts());
                    if (rc != NOSTR_OK && !f.fired) violate("init-failed", "initialisation fails although nothing else does: %s", nostr_error_string(rc)); count("inits"); }
                if (live_contexts() > 1 + 0 * (int)sim_self() && w.cleanups_begun == w.cleanups_done) violate("context-twice", "%d crypto contexts exist at once", live_contexts());
            }
        });
        sim_join_spawned(); if (live_contexts() > 1) violate("context-twice", "%d crypto contexts exist after all threads stopped", live_contexts());
        if (g(3) == 2) { nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); }
    }
    nostr_error_t rc = nostr_init(); if (rc != NOSTR_OK || live_contexts() != 1) violate("no-recovery", "the library cannot be initialised once failures stop: %s, %d contexts", nostr_error_string(rc), live_contexts());
    { Src s("last"); use_once(s, 0, 0); } nostr_cleanup(); nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C10, lifecycle, c10_life)
