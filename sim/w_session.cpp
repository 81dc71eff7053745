// C27: NIP-47 wallet sessions — budgets, expiry, capacity and the registry under concurrency
#include "nip44_ref.h"
#if defined(VARIANT_NOS) || defined(VARIANT_NOSJ)
struct SAtt { int64_t lo, hi; uint64_t a, b; bool ok; };                 // creations with a valid URI
struct SRec { int64_t exp_lo, exp_hi; uint64_t born, die_a, die_b; };    // sessions known to exist
struct SOp { uint64_t a, b; uint64_t amount; int ok; };                  // ok: 1, 0, -1 running
struct Shared { std::string id; RefKey service, client; uint64_t limit; bool star; std::vector<SOp> pays, adds, kills; std::map<std::string, uint64_t> names; size_t base, rec; };
struct C27 { int kinds = 0, pct = 0, jumps = 0; bool mayjump = false, expiry = false, lazy = false; int64_t maxwall = 0; size_t maxs = 100, maxp = 32; uint32_t timeout = 3600; std::vector<SAtt> att; std::vector<SRec> rec; std::set<std::string> ids; std::vector<Shared> sh; int nt = 1; };
static C27* wS;
static int64_t seen() { int64_t t = sim_wall(); if (t > wS->maxwall) wS->maxwall = t; return t; }
struct Span { int64_t lo, hi; int jumps; Span() { lo = hi = seen(); jumps = wS->jumps; } void end() { int64_t t = seen(); lo = std::min(lo, t); hi = std::max(hi, t); } bool steady() const { return jumps == wS->jumps; } };
struct PState { uint64_t used; int64_t reset; bool operator<(const PState& o) const { return std::tie(used, reset) < std::tie(o.used, o.reset); } };
struct SPerm { std::string name; uint64_t limit; uint32_t interval; bool known = true; std::set<PState> st; };
struct Own { std::string id; RefKey service, client; size_t rec; std::vector<SPerm> perms; bool gone = false; };

static std::string session_uri(const Src& s, RefKey& service, RefKey& client, bool& good) {
    service = key_no((int)s(5)); client = key_no(5 + (int)s(5)); std::string u = "nostr+walletconnect://" + hex(service.pk.data(), 32) + "?relay=wss%3A%2F%2Frelay.example&secret=" + hex(client.sk.data(), 32); good = true;
    if (s(14) == 13) { good = false; u = s(2) ? u.substr(0, s((uint32_t)u.size() - 1)) : "nostr+walletconnect://" + hex(service.pk.data(), 32) + "?relay=wss%3A%2F%2Frelay.example"; }
    return u;
}
static bool create(const Src& s, Own& o, bool faulty) {
    C27& w = *wS; bool good; std::string uri = session_uri(s, o.service, o.client, good); CStr u(uri);
    size_t at = w.att.size(); uint64_t a = sim_seq(); if (good) w.att.push_back({seen(), INT64_MAX, a, UINT64_MAX, false});
    Span sp; char* id = (char*)8; size_t r0 = rng_log().size(); Leak lk; bool lazy = w.lazy; if (faulty) arm(s, w.pct, w.kinds & (FAULT_ALLOC | FAULT_RNG), 14); else disarm();
    nostr_error_t rc = nostr_nip47_session_create(u, &id); Faults f = disarm(); sp.end(); uint64_t b = sim_seq();
    if (good) { SAtt& t = w.att[at]; t.lo = sp.lo; t.hi = sp.hi; t.b = b; t.ok = rc == NOSTR_OK; }
    if (rc == NOSTR_OK) { o.rec = w.rec.size(); w.rec.push_back({sp.lo + (int64_t)w.timeout, sp.hi + (int64_t)w.timeout, b, UINT64_MAX, UINT64_MAX}); if (!sp.steady()) w.rec.back().exp_lo = INT64_MIN, w.rec.back().exp_hi = INT64_MAX; }
    if (rc == NOSTR_OK) {
        if (!good) violate("accepted", "a session is made of the connection '%s'", uri.c_str());
        if (!id || id == (char*)8) violate("dangling", "a session is made without an id");
        o.id = id; nostr_free(id); bool fresh = false; for (auto& d : rng_mine(r0)) if (hex(d.data(), d.size()) == o.id) fresh = true;
        if (!fresh || f.fired_rng || o.id.size() != 64) violate("no-fresh-randomness", "the session id '%.80s' is not freshly drawn", o.id.c_str());
        if (!w.ids.insert(o.id).second) violate("no-fresh-randomness", "the session id %s is given twice", o.id.c_str());
        size_t sure = 0; for (auto& r : w.rec) if (r.die_a == UINT64_MAX && r.exp_lo >= w.maxwall) sure++; if (sure > w.maxs) violate("over-capacity", "%zu sessions are open of at most %zu", sure, w.maxs);
        if (!w.mayjump) { size_t n = 0; for (auto& t : w.att) if (t.ok && t.lo == t.hi && t.lo == sp.lo && t.lo == sp.hi) n++; if (n > 10) violate("rate-limit", "%zu sessions are made in one second", n); }
        count("created"); return true;
    }
    if (id && id != (char*)8) violate("dangling", "a failed session creation gives out an id"); if (!lazy) lk.check("a failed session creation");
    if (!good || f.fired || !sp.steady()) { count("create_refused"); return false; }
    size_t maybe = 0, att = 0; for (auto& r : w.rec) if (r.die_b > a && r.exp_hi >= sp.lo) maybe++; for (auto& t : w.att) if (t.b > a && !t.ok && t.a < b && t.a != a) maybe++; for (auto& t : w.att) if (t.a != a && t.lo <= sp.hi && t.hi >= sp.lo) att++;
    if (maybe < w.maxs && att < 10) violate("refused", "a session is refused with %zu of %zu open and %zu attempts in this second: %s", maybe, w.maxs, att, nostr_error_string(rc));
    count(maybe >= w.maxs ? "create_full" : "create_rate"); return false;
}
// may, must or must not the session answer a call made in this span
static int life(const Own& o, const Span& sp) { C27& w = *wS; const SRec& r = w.rec[o.rec]; if (o.gone) return 0; if (!sp.steady()) return 1; if (r.exp_hi < sp.lo) return 0; return w.maxwall <= r.exp_lo ? 2 : 1; }
static void verdict(const Own& o, const Span& sp, bool ok, const char* what, bool excused) { int l = life(o, sp); if (ok && l == 0) violate("dead-session", "%s works on a session that %s", what, o.gone ? "was destroyed" : "has expired"); if (!ok && l == 2 && !excused) violate("live-session-refused", "%s fails on a live session", what); }
static void own_add(const Src& s, Own& o) {
    C27& w = *wS; SPerm p; p.name = s(5) == 4 ? "*" : s(4) == 3 ? gen_text(s, 6) : s.of(std::vector<std::string>{"pay_invoice", "get_balance", "pay_keysend"}); switch (s(5)) { case 0: p.limit = 0; break; case 1: p.limit = UINT64_MAX - s(3); break; default: p.limit = 1 + s(1000); } p.interval = s(3) ? 1 + s(200) : 4294967295u; CStr n(p.name), i(o.id);
    Span sp; Leak lk; bool first = o.perms.empty(); (void)first; arm(s, w.pct, w.kinds & FAULT_ALLOC, 3); nostr_error_t rc = nostr_nip47_session_add_permission(i, n, p.limit, p.interval); Faults f = disarm(); sp.end();
    if (rc == NOSTR_OK) { if (life(o, sp) == 0 && o.gone) violate("dead-session", "a permission is added to a destroyed session"); if (o.perms.size() >= w.maxp) violate("over-capacity", "%zu permissions are kept of at most %zu", o.perms.size() + 1, w.maxp); for (int64_t t = sp.lo; t <= sp.hi && t < sp.lo + 8; t++) p.st.insert({0, t + (int64_t)p.interval}); if (!sp.steady() || sp.hi - sp.lo > 6) p.known = false; o.perms.push_back(p); count("permission"); return; }
    if (!f.fired && o.perms.size() < w.maxp && life(o, sp) == 2) violate("live-session-refused", "a permission cannot be added to a live session with %zu of %zu: %s", o.perms.size(), w.maxp, nostr_error_string(rc));
}
static void own_check(const Src& s, Own& o) {
    std::string m = s(6) == 5 ? gen_text(s, 6) : o.perms.size() && s(3) ? o.perms[s((uint32_t)o.perms.size())].name : s.of(std::vector<std::string>{"pay_invoice", "get_balance", "pay_keysend"}); SPerm* p = nullptr; for (auto& q : o.perms) if (q.name == m || q.name == "*") { p = &q; break; }
    uint64_t amt = 0; uint64_t left = 0; if (p && p->limit && p->st.size()) left = p->limit - p->st.begin()->used; switch (s(8)) { case 0: amt = 0; break; case 1: amt = left; break; case 2: amt = left + 1; break; case 3: amt = UINT64_MAX - s(1200); break; case 4: amt = p && p->limit ? p->limit : 5; break; case 5: amt = 0 - (p && p->st.size() ? p->st.begin()->used : 0); break; default: amt = p && p->limit && p->limit < 5000 ? s((uint32_t)p->limit + 2) : s(1000); }
    CStr i(o.id), n(m); Span sp; disarm(); bool ok = nostr_nip47_session_check_permission(i, n, amt) == NOSTR_OK; sp.end(); if (!p) { if (ok) violate("permission-exceeded", "'%s' is allowed by a session without that permission", m.c_str()); if (life(o, sp) == 2) count("check_refused"); return; }
    int l = life(o, sp); if (ok && l == 0) verdict(o, sp, ok, "a permission check", false); if (!sp.steady() || sp.hi - sp.lo > 6) p->known = false; if (!p->known) return; if (!ok && l < 2) { if (l == 1) p->known = p->known; return; }
    std::set<PState> next; for (int64_t t = sp.lo; t <= sp.hi; t++) for (PState q : p->st) { if (q.reset < t) { q.used = 0; q.reset = t + (int64_t)p->interval; } bool fits = !p->limit || (amt <= p->limit && q.used <= p->limit - amt); if (fits != ok) continue; if (ok && p->limit) q.used += amt; next.insert(q); }
    if (next.empty()) { PState q = *p->st.begin(); if (ok) violate("permission-exceeded", "'%s' over %llu is allowed with %llu used of %llu", m.c_str(), (unsigned long long)amt, (unsigned long long)q.used, (unsigned long long)p->limit); violate("permission-denied", "'%s' over %llu is refused with %llu used of %llu (renewed at %lld, now %lld)", m.c_str(), (unsigned long long)amt, (unsigned long long)q.used, (unsigned long long)p->limit, (long long)q.reset, (long long)sp.hi); }
    if (next.size() > 40) p->known = false; p->st = next; count(ok ? "check_granted" : "check_over_budget");
}
static void own_connection(const Src& s, Own& o) {
    CStr i(o.id); Span sp; struct nwc_connection* c = (struct nwc_connection*)8; disarm(); bool ok = nostr_nip47_session_get_connection(i, &c) == NOSTR_OK; sp.end(); verdict(o, sp, ok, "getting the connection", false); if (!ok) { if (c != (struct nwc_connection*)8 && c) violate("dangling", "a refused session gives out its connection"); return; }
    if (!c || c == (struct nwc_connection*)8) violate("dangling", "a session gives out no connection"); count("connection"); if (s(3)) return; nostr_event* e = nullptr; if (nostr_nip47_create_request_event(&e, c, "get_info", "{}", 1) != NOSTR_OK) violate("connection-wrong", "the connection of a session is of no use"); RefEvent g = from_lib(e); nostr_event_destroy(e); std::string want = hex(o.service.pk.data(), 32); if (g.pk != o.client.pk || g.tags.empty() || g.tags[0].size() < 2 || g.tags[0][1] != want) violate("connection-wrong", "the connection of a session is another's"); count("connection_used");
}
static void own_extend(const Src& s, Own& o) { C27& w = *wS; uint32_t more = s(6) == 5 ? 4294967295u - s(3) : s(200); CStr i(o.id); Span sp; disarm(); if (w.rec[o.rec].exp_hi != INT64_MAX) w.rec[o.rec].exp_hi += more; bool ok = nostr_nip47_session_extend(i, more) == NOSTR_OK; sp.end(); { SRec& r = w.rec[o.rec]; if (!ok && r.exp_hi != INT64_MAX) r.exp_hi -= more; } verdict(o, sp, ok, "an extension", false); if (ok) { SRec& r = w.rec[o.rec]; if (r.exp_lo != INT64_MIN) r.exp_lo += more; count("extended"); } }
static void own_destroy(Own& o) { C27& w = *wS; CStr i(o.id); Span sp; disarm(); bool was = o.gone; w.rec[o.rec].die_a = std::min(w.rec[o.rec].die_a, sim_seq()); bool ok = nostr_nip47_session_destroy(i) == NOSTR_OK; uint64_t b = sim_seq(); sp.end(); if (was && ok) violate("dead-session", "a session is destroyed twice"); if (!was && !ok && life(o, sp) == 2) violate("live-session-refused", "a live session cannot be destroyed"); if (!was) { w.rec[o.rec].die_b = b; o.gone = true; count(ok ? "destroyed" : "already_expired"); } }
static void bad_id(const Src& s, const std::string& live) {
    std::string id; switch (s(7)) { case 0: id = live.substr(0, s(64)); break; case 1: id = live + gen_name(s, 4); break; case 2: id = gen_hex(s, 32); break; case 3: id = std::string(64, 0).c_str(); break; case 4: id = live; id[s((uint32_t)id.size())] ^= 1; break; case 5: id = live; for (auto& c : id) c = (char)toupper(c); if (id == live) return; break; default: id = gen_text(s, 90); } if (wS->ids.count(id)) return;
    CStr i(id); disarm(); bool ok; struct nwc_connection* c = nullptr; switch (s(5)) { case 0: ok = nostr_nip47_session_check_permission(i, "pay_invoice", 0) == NOSTR_OK; break; case 1: ok = nostr_nip47_session_get_connection(i, &c) == NOSTR_OK; break; case 2: ok = nostr_nip47_session_extend(i, 5) == NOSTR_OK; break; case 3: ok = nostr_nip47_session_add_permission(i, "*", 0, 60) == NOSTR_OK; break; default: ok = nostr_nip47_session_destroy(i) == NOSTR_OK; } if (ok) violate("wrong-session", "the id '%s' reaches a session", id.c_str()); count("unknown_id");
}
// ---- sessions several threads use
static bool killed_before(const Shared& h, uint64_t a) { for (auto& k : h.kills) if (k.ok == 1 && k.b < a) return true; return false; }
static bool kill_begun(const Shared& h, uint64_t b) { for (auto& k : h.kills) if (k.a < b) return true; return false; }
static void shared_op(const Src& s, Shared& h, bool kill) {
    CStr i(h.id); disarm(); uint64_t a; bool ok; auto live = [&](uint64_t b, const char* what) { if (ok && killed_before(h, a)) violate("dead-session", "%s works after the session was destroyed", what); if (!ok && !kill_begun(h, b)) violate("live-session-refused", "%s fails on a live session", what); };
    switch (kill ? 9 : s(8)) {
    case 0: case 1: case 2: case 3: { uint64_t amt = s(4) ? 1 + s((uint32_t)std::min<uint64_t>(h.limit, 100000) / 2 + 1) : s(2) ? h.limit : UINT64_MAX - s(50); size_t at = h.pays.size(); h.pays.push_back({sim_seq(), UINT64_MAX, amt, -1}); a = h.pays[at].a; ok = nostr_nip47_session_check_permission(i, "pay_invoice", amt) == NOSTR_OK; SOp& p = h.pays[at]; p.b = sim_seq(); p.ok = ok; unsigned __int128 sum = 0, up = 0; for (size_t k = 0; k < h.pays.size(); k++) { auto& q = h.pays[k]; if (q.ok == 1) sum += q.amount; if (k != at && q.a < p.b && q.ok) up += q.amount; }
        if (sum > h.limit) violate("permission-exceeded", "%llu is granted in all of %llu", (unsigned long long)sum, (unsigned long long)h.limit); if (ok && killed_before(h, a)) violate("dead-session", "a payment is allowed after the session was destroyed"); if (!ok && !kill_begun(h, p.b) && up + amt <= h.limit) violate("permission-denied", "%llu is refused although at most %llu of %llu is used", (unsigned long long)amt, (unsigned long long)up, (unsigned long long)h.limit); count(ok ? "shared_granted" : "shared_refused"); break; }
    case 4: { a = sim_seq(); struct nwc_connection* c = nullptr; ok = nostr_nip47_session_get_connection(i, &c) == NOSTR_OK; uint64_t b = sim_seq(); live(b, "getting the connection"); if (ok && !c) violate("dangling", "a session gives out no connection"); break; }
    case 5: { a = sim_seq(); ok = nostr_nip47_session_extend(i, s(100)) == NOSTR_OK; live(sim_seq(), "an extension"); break; }
    case 6: { std::string n = "m" + std::to_string(sim_seq()); CStr cn(n); size_t at = h.adds.size(); h.adds.push_back({sim_seq(), UINT64_MAX, 0, -1}); a = h.adds[at].a; ok = nostr_nip47_session_add_permission(i, cn, 0, 60) == NOSTR_OK; h.adds[at].b = sim_seq(); h.adds[at].ok = ok; size_t sure = h.base, maybe = h.base; for (size_t k = 0; k < h.adds.size(); k++) { if (h.adds[k].ok == 1) sure++; if (k != at && h.adds[k].ok) maybe++; } if (ok && sure > wS->maxp) violate("over-capacity", "%zu permissions are kept of at most %zu", sure, wS->maxp); if (ok) { if (killed_before(h, a)) violate("dead-session", "a permission is added after the session was destroyed"); if (!h.star) h.names[n] = h.adds[at].b; /* under the wildcard, which comes first, a later permission shares its budget */ } else if (!kill_begun(h, h.adds[at].b) && maybe < wS->maxp) violate("live-session-refused", "a permission cannot be added to a live session"); break; }
    case 7: { if (h.names.empty()) return; auto it = h.names.begin(); std::advance(it, s((uint32_t)h.names.size())); CStr cn(it->first); a = sim_seq(); ok = nostr_nip47_session_check_permission(i, cn, s(1000)) == NOSTR_OK; live(sim_seq(), "an added permission"); break; }
    default: { size_t at = h.kills.size(); h.kills.push_back({sim_seq(), UINT64_MAX, 0, -1}); a = h.kills[at].a; wS->rec[h.rec].die_a = std::min(wS->rec[h.rec].die_a, a); ok = nostr_nip47_session_destroy(i) == NOSTR_OK; h.kills[at].b = sim_seq(); if (ok) wS->rec[h.rec].die_b = h.kills[at].b; h.kills[at].ok = ok; int n = 0; bool other = false; for (auto& k : h.kills) { n += k.ok == 1; if (&k != &h.kills[at] && k.ok && k.a < h.kills[at].b) other = true; } if (n > 1) violate("dead-session", "a session is destroyed twice"); if (!ok && !other) violate("live-session-refused", "a live session cannot be destroyed"); count("shared_destroy"); }
    }
}
static void c27_thread(int id) {
    C27& w = *wS; Src s = src("actor", id); std::vector<Own> mine; int n = 4 + (int)s(w.expiry ? 30 : 20); int killer = s(3) == 2 ? (int)s(n) : -1;
    for (int k = 0; k < n; k++) {
        if (w.sh.size() && s(3)) { shared_op(s, w.sh[s((uint32_t)w.sh.size())], k == killer || (killer >= 0 && k > killer && s(6) == 5)); continue; }
        if (s(6) == 5) { if (w.expiry && s(2)) sim_sleep_us((uint64_t)(1 + s(s(2) ? 90 : 2 * w.timeout)) * 1000000); else sim_sleep_us(s(1500000)); if (w.mayjump && s(3) == 2) { int64_t j = (int64_t)s(200) - 100; w.jumps++; w.maxwall = std::max(w.maxwall, sim_wall() + std::max<int64_t>(j, 0) + 2); sim_clock_jump(j); w.jumps++; count(j < 0 ? "fault.clock_back" : "fault.clock_fwd"); } seen(); }
        if (w.nt == 1 && s(20) == 19 && nostr_config_get_current()) { nostr_config c = *nostr_config_get_current(); c.max_permissions = 1 + s(6); if (nostr_config_update(&c) == NOSTR_OK) { w.maxp = c.max_permissions; count("config_changed"); } }
        if (mine.empty() || s(5) == 4) { Own o; bool ok = create(s, o, true); if (!ok && s(2)) ok = create(s, o, false); if (ok) mine.push_back(o); if (s(6) == 5) for (int q = 0; q < 13; q++) { Own x; if (create(s, x, false)) mine.push_back(x); } continue; }
        Own& o = mine[s(4) ? mine.size() - 1 : s((uint32_t)mine.size())];
        switch (s(12)) { case 0: case 1: case 2: own_add(s, o); break; case 3: case 4: case 5: case 6: own_check(s, o); break; case 7: own_connection(s, o); break; case 8: own_extend(s, o); break; case 9: own_destroy(o); break; case 10: bad_id(s, o.id); break; default: if (o.gone) own_destroy(o); else own_check(s, o); }
    }
    for (auto& o : mine) if (!o.gone) own_destroy(o);
}
// a stale id, used while its session is destroyed and another is made in its place, never touches that other session
static void reuse_rounds(const Src& g) {
    C27& w = *wS; int rounds = 1 + (int)g(4), nt = 1 + (int)g(2);
    for (int r = 0; r < rounds; r++) {
        std::vector<Own> fill; Own a, b; while (true) { Own o; if (!create(g, o, w.lazy)) break; w.lazy = false; fill.push_back(o); if (fill.size() >= std::min<size_t>(w.maxs, 4)) break; } if (fill.empty()) { sim_sleep_us(1100000); continue; } a = fill[g((uint32_t)fill.size())]; uint64_t limit = 1000 + g(9000); { CStr i(a.id); if (nostr_nip47_session_add_permission(i, "pay_invoice", limit, 4294967295u) != NOSTR_OK) violate("live-session-refused", "a permission cannot be added"); }
        bool dead = false, whole = false; uint64_t paid = 0; std::string aid = a.id;
        for (int k = 0; k < nt; k++) sim_spawn("stale" + std::to_string(k), [&, k, r] { Src s = src("stale", k * 100 + r); int n = 1 + (int)s(6); for (int q = 0; q < n; q++) { CStr i(aid); bool was = dead, ok = false; switch (s(8)) { case 0: ok = nostr_nip47_session_add_permission(i, s(2) ? "x" : "*", 0, 60) == NOSTR_OK; break; case 1: ok = nostr_nip47_session_extend(i, 5) == NOSTR_OK; break; case 2: { struct nwc_connection* c = nullptr; ok = nostr_nip47_session_get_connection(i, &c) == NOSTR_OK; break; } case 3: if (was) { ok = nostr_nip47_session_destroy(i) == NOSTR_OK; break; } /* fall through */ default: { uint64_t amt = 1 + s(60); ok = nostr_nip47_session_check_permission(i, "pay_invoice", amt) == NOSTR_OK; if (ok) { paid += amt; if (paid > limit) violate("permission-exceeded", "%llu is granted in all of %llu", (unsigned long long)paid, (unsigned long long)limit); } } } if (was && ok) violate("dead-session", "a destroyed session answers under its old id"); count(was ? "stale_after" : "stale_during"); } });
        sim_spawn("swap", [&, r] { Src s = src("swap", r); own_destroy(a); dead = true; if (!create(s, b, false)) return; b.perms.clear(); uint64_t lim = 100 + s(100); CStr i(b.id); if (nostr_nip47_session_add_permission(i, "pay_invoice", lim, 4294967295u) != NOSTR_OK) violate("live-session-refused", "a permission cannot be added"); uint64_t left = lim; while (left) { uint64_t amt = 1 + s((uint32_t)left); if (nostr_nip47_session_check_permission(i, "pay_invoice", amt) != NOSTR_OK) violate("permission-denied", "%llu is refused by a new session with %llu left of %llu", (unsigned long long)amt, (unsigned long long)left, (unsigned long long)lim); left -= amt; } whole = true; });
        sim_join_spawned();
        if (whole) { CStr i(b.id); if (nostr_nip47_session_check_permission(i, "pay_invoice", 1) == NOSTR_OK) violate("permission-exceeded", "a new session allows more than its limit"); if (nostr_nip47_session_check_permission(i, "x", 0) == NOSTR_OK) violate("permission-exceeded", "a new session has a permission added to the destroyed one"); { Span sp; struct nwc_connection* c = nullptr; bool ok = nostr_nip47_session_get_connection(i, &c) == NOSTR_OK; sp.end(); verdict(b, sp, ok, "getting the connection", false); } own_destroy(b); count("slot_reused"); }
        for (auto& o : fill) if (o.id != a.id) own_destroy(o); sim_sleep_us(1100000 + g(1000000)); seen();
    }
}
static void c27_run() {
    n44_selfcheck(); C27 w; wS = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); w.nt = 1 + (int)g(3); w.kinds = (int)g(8); w.pct = w.kinds ? 30 : 0; w.expiry = g(2); w.mayjump = w.expiry && g(2); int mode = (int)g(4); uint64_t mark = alloc_mark();
    { nostr_config c; nostr_config_get_defaults(&c); if (mode) { c.max_sessions = w.maxs = 1 + g(mode == 1 ? 4 : 30); c.max_permissions = w.maxp = 1 + g(mode == 2 ? 3 : 10); c.session_timeout_secs = w.timeout = 60 + g(w.expiry ? 60 : 5000); } if ((mode ? nostr_init_with_config(&c) : nostr_init()) != NOSTR_OK) violate("init", "the initialisation fails"); w.maxs = c.max_sessions; w.maxp = c.max_permissions; w.timeout = c.session_timeout_secs; } seen();
    size_t before = live_since(mark); uint64_t m2 = alloc_mark(); (void)before; bool faulted = false;
    if (g(3)) { Leak lk; arm(g, w.pct * 2, w.kinds & FAULT_ALLOC, 2); nostr_error_t rc = nostr_nip47_session_init(); Faults f = disarm(); if (rc != NOSTR_OK) { if (!f.fired) violate("refused", "nostr_nip47_session_init fails"); lk.check("a failed nostr_nip47_session_init"); faulted = true; } else if (nostr_nip47_session_init() != NOSTR_OK) violate("refused", "a second nostr_nip47_session_init fails"); else m2 = alloc_mark(); w.lazy = rc != NOSTR_OK; } else w.lazy = true; (void)faulted;
    if (mode == 1 && !w.expiry && g(2)) reuse_rounds(g);
    else if (!w.expiry && g(3)) { int n = 1 + (int)g(2); for (int i = 0; i < n; i++) { Own o; if (!create(g, o, w.lazy)) continue; w.lazy = false; Shared h; h.id = o.id; h.service = o.service; h.client = o.client; h.limit = 1 + g(g(2) ? 1000 : 100000); h.star = g(2); CStr id(h.id); if (nostr_nip47_session_add_permission(id, h.star ? "*" : "pay_invoice", h.limit, 4294967295u) != NOSTR_OK) violate("live-session-refused", "a permission cannot be added"); h.base = 1; h.rec = o.rec; w.sh.push_back(h); } }
    for (int i = 0; i < w.nt; i++) sim_spawn("actor" + std::to_string(i), [i] { c27_thread(i); });
    sim_join_spawned();
    for (auto& h : w.sh) { CStr i(h.id); bool dead = false; for (auto& k : h.kills) dead |= k.ok == 1; struct nwc_connection* c = nullptr; if (dead != (nostr_nip47_session_get_connection(i, &c) != NOSTR_OK)) violate(dead ? "dead-session" : "live-session-refused", "a %s session %s", dead ? "destroyed" : "live", dead ? "answers" : "is gone"); if (!dead && nostr_nip47_session_destroy(i) != NOSTR_OK) violate("live-session-refused", "a live session cannot be destroyed"); }
    nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); size_t left = live_since(m2); bool table = left == 1 && m2 != 0; if (left > 1 || (left == 1 && !table)) violate("memory-leak", "%zu allocations left when every session is gone: %s", left, describe_live(m2).c_str());
}
WORLD(C27, sessions, c27_run)
#endif
