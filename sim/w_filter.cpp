// C06: filters on their own: read, checked, copied and matched by several threads
#include "proto.h"
#include "op.h"
std::string respace(const std::string& m, const Src& s, int density);
std::string respell(const std::string& m, const Src& s);
std::string with_nul(const std::string& m, const Src& s);
struct FEnt { RefFilter r; nostr_filter_t f; };
struct CF { Pool pool; std::vector<nostr_event*> ev; FEnt shared; int pct = 0; };
static CF* wf;
static bool zeroed(const nostr_filter_t& f) { return all_zero(&f, sizeof f); }
// what nostr_filter_validate has to say; the first complaint in this order
static nostr_relay_error_t verdict(const RefFilter& r, const char*& field) {
    auto bad = [](const std::vector<std::string>& v, bool exact) { for (auto& x : v) if (exact ? !lhex(x, 64) : x.empty() || x.size() > 64 || !lhex(x, 0)) return true; return false; };
    field = ""; if (bad(r.ids, false)) { field = "ids"; return NOSTR_RELAY_ERR_INVALID_ID; } if (bad(r.authors, false)) { field = "authors"; return NOSTR_RELAY_ERR_INVALID_PUBKEY; } if (bad(r.e, true)) { field = "#e"; return NOSTR_RELAY_ERR_INVALID_ID; } if (bad(r.p, true)) { field = "#p"; return NOSTR_RELAY_ERR_INVALID_PUBKEY; } return NOSTR_RELAY_OK;
}
static void check_verdict(const nostr_filter_t& f, const RefFilter& r, const Src& s) {
    const char* field; nostr_relay_error_t want = verdict(r, field), got; std::unique_ptr<nostr_validation_result_t> v(new nostr_validation_result_t); memset(v.get(), 'x', sizeof *v); v->error_field[63] = v->error_message[255] = 'x'; got = nostr_filter_validate(&f, v.get());
    if (got != want || v->error_code != want || v->valid != (want == NOSTR_RELAY_OK)) violate("filter-verdict", "a filter is judged %s (%s, valid %d), it should be %s: %.600s", nostr_relay_error_string(got), nostr_relay_error_string(v->error_code), v->valid, nostr_relay_error_string(want), filter_json(r, s).c_str());
    if (!memchr(v->error_message, 0, sizeof v->error_message) || !memchr(v->error_field, 0, sizeof v->error_field)) violate("filter-verdict", "a text of the verdict is not terminated"); if (std::string(v->error_field) != field || (want == NOSTR_RELAY_OK) != !v->error_message[0]) violate("filter-verdict", "the field at fault is '%s', it should be '%s'", v->error_field, field);
    if (want != NOSTR_RELAY_OK) { std::string t = std::string("invalid: ") + v->error_message + " for field '" + v->error_field + "'"; size_t n = s(2) ? t.size() + 1 + s(40) : s((uint32_t)t.size() + 2); Buf b(n); size_t k = nostr_validation_error_format(v.get(), b.c(), n); if (k != (n > t.size() ? t.size() : 0) || (k && t != b.c())) violate("filter-verdict", "the verdict '%s' is written as %zu bytes into %zu", t.c_str(), k, n); }
}
static void check_match(const nostr_filter_t& f, const RefFilter& r, const Src& s) {
    CF& w = *wf; for (size_t i = 0; i < w.ev.size(); i++) { bool a = nostr_filter_matches(&f, w.ev[i]), b = nostr_filter_matches_with_search(&f, w.ev[i], search_cb, (void*)&search_cb), c = nostr_filter_matches_with_search(&f, w.ev[i], nullptr, nullptr), wa = ref_match(r, w.pool[i], false), wb = ref_match(r, w.pool[i]), wc = wa && !(r.has_search && !r.search.empty()); if (a != wa || b != wb || c != wc) violate("filter-match", "an event is matched %d/%d/%d, it should be %d/%d/%d: %.600s against %.600s", a, b, c, wa, wb, wc, w.pool[i].json().c_str(), filter_json(r, s).c_str()); count(wa ? "match" : "no_match"); }
}
static RefFilter rich(const Src& s) {     // several kinds of condition at once
    CF& w = *wf; RefFilter f = gen_filter(s, w.pool, 1600000000); int n = 1 + (int)s(3); for (int i = 0; i < n; i++) { RefFilter g = gen_filter(s, w.pool, 1600000000); if (f.ids.empty()) f.ids = g.ids; if (f.authors.empty()) f.authors = g.authors; if (f.kinds.empty()) f.kinds = g.kinds; if (f.e.empty()) f.e = g.e; if (f.p.empty()) f.p = g.p; if (!f.since) f.since = g.since; if (!f.until) f.until = g.until; if (!f.limit) f.limit = g.limit; if (!f.has_search) { f.has_search = g.has_search; f.search = g.search; } for (auto& t : g.tags) { bool dup = false; for (auto& u : f.tags) dup |= u.first == t.first; if (!dup) f.tags.push_back(t); } } return f;
}
static void spoil(RefFilter& f, const Src& s) { std::vector<std::vector<std::string>*> v = {&f.ids, &f.authors, &f.e, &f.p}; auto& l = *s.of(v); if (l.size() >= 256) return;   /* one more is rightly refused */ static const std::vector<std::string> b = {"", "G", std::string(63, 'a'), std::string(65, 'a'), std::string(64, 'A'), "a b", "é", "0x1", std::string(63, 'a') + "g", std::string(64, 'a') + " "}; l.insert(l.begin() + s((uint32_t)l.size() + 1), s.of(b)); }
static void filter_op(const Src& s) {
    CF& w = *wf; RefFilter r = s(2) ? rich(s) : gen_filter(s, w.pool, 1600000000); if (s(4) == 3) spoil(r, s);
    static const std::vector<std::string> unknown = {"\"#\":[\"x\"]", "\"#ee\":1", "\"#1\":[1]", "\"IDS\":[1]", "\"Kinds\":[\"1\"]", "\"x\":{\"ids\":[\"a\"]}", "\"#é\":[\"q\"]", "\"tags\":[[\"t\",\"x\"]]", "\"\":null", "\"#_\":[\"x\"]"}; std::vector<std::string> extra; if (s(4) == 3) extra.push_back(s.of(unknown));
    bool bad = s(6) == 5; if (bad) { static const std::vector<std::string> vals = {"1", "\"a\"", "{}", "[1,\"a\"]", "[null]", "[[\"a\"]]", "true", "[\"a\",{}]"}; std::vector<std::string> ks; if (r.ids.empty()) ks.push_back("ids"); if (r.authors.empty()) ks.push_back("authors"); if (r.e.empty()) ks.push_back("#e"); if (r.p.empty()) ks.push_back("#p"); ks.push_back("#y"); if (r.kinds.empty()) ks.push_back("kinds"); if (!r.since) ks.push_back("since"); if (!r.until) ks.push_back("until"); std::string k = s.of(ks), v = s.of(vals); if (k == "since" || k == "until") { static const std::vector<std::string> q = {"\"1\"", "null", "[1]", "{}", "true", "1e300"}; v = s.of(q); } extra.push_back("\"" + k + "\":" + v); }
    std::string t = filter_json(r, s, extra); if (s(3) == 0) t = respell(t, s); if (s(3) == 0) t = respace(t, s, 1 + (int)s(4)); if (s(14) == 13) { std::string u = with_nul(t, s); bad |= u != t; t = u; } bool cut = s(12) == 11; if (cut) t.resize(s((uint32_t)t.size())); Leak lk; FEnt e; memset((void*)&e.f, 0xA5, sizeof e.f); e.r = r;
    bool sized = s(2) && !t.empty(); Buf raw(t.size()); memcpy(raw.c(), t.data(), t.size()); CStr z(t); arm(s, w.pct, FAULT_ALLOC, 60); nostr_relay_error_t rc = nostr_filter_parse(sized ? raw.c() : (const char*)z, sized ? t.size() : 0, &e.f); Faults q = disarm();
    if (rc != NOSTR_RELAY_OK) { if (!bad && !cut && !q.fired) violate("filter-refused", "a filter is refused (%s): %.900s", nostr_relay_error_string(rc), t.c_str()); if (!zeroed(e.f)) violate("filter-partial", "a filter that could not be read leaves parts behind"); lk.check("reading a filter"); count("not_read"); return; }
    if (bad || cut) violate("filter-accepted", "this is accepted as a filter: %.900s", t.c_str()); check_filter_fields(&e.f, r); count("read");
    int n = 1 + (int)s(5); nostr_filter_t c; for (int i = 0; i < n; i++) switch (s(5)) {
    case 0: check_verdict(e.f, r, s); break;
    case 1: check_match(e.f, r, s); break;
    case 2: check_match(w.shared.f, w.shared.r, s); check_verdict(w.shared.f, w.shared.r, s); break;
    default: { bool sh = s(4) == 3; const nostr_filter_t* from = sh ? &w.shared.f : &e.f; const RefFilter& want = sh ? w.shared.r : r; memset((void*)&c, 0xA5, sizeof c); arm(s, w.pct, FAULT_ALLOC, 60); rc = nostr_filter_clone(&c, from); q = disarm();
        if (rc != NOSTR_RELAY_OK) { if (!q.fired) violate("clone-failed", "a filter cannot be copied: %s", nostr_relay_error_string(rc)); if (!zeroed(c)) violate("clone-partial", "a failed copy leaves parts behind"); count("not_copied"); break; }
        check_filter_fields(from, want); if (!sh && s(2)) { nostr_filter_free(&e.f); if (!zeroed(e.f)) violate("filter-partial", "a freed filter still holds data"); e.f = c; check_filter_fields(&e.f, r); } else { check_filter_fields(&c, want); if (s(2)) check_match(c, want, s); nostr_filter_free(&c); nostr_filter_free(&c); } count("copied"); break; } }
    if (s(2)) check_match(e.f, r, s); check_filter_fields(&e.f, r); nostr_filter_free(&e.f); if (!zeroed(e.f)) violate("filter-partial", "a freed filter still holds data"); lk.check("a filter's life");
}
static void c06_filters() {
    CF w; wf = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.pct = g(3) ? 45 : 0; int n = 1 + (int)g(6);
    { NoFaults nf; for (int i = 0; i < n; i++) { int a; RefEvent e = gen_event(g, w.pool, 1600000000, 60, &a); std::vector<std::vector<std::string>> tg; for (auto& t : e.tags) { bool bad = false; for (auto& v : t) bad |= v.find('\0') != std::string::npos; if (!bad) tg.push_back(t); } e.tags = tg; e.seal_fake(key_no(a)); w.pool.push_back(e); w.ev.push_back(make_event(e)); }
      w.shared.r = rich(g); CStr t(filter_json(w.shared.r, g)); if (nostr_filter_parse(t, 0, &w.shared.f) != NOSTR_RELAY_OK) violate("filter-refused", "a filter is refused: %s", (const char*)t); }
    int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int ops = 2 + (int)s(8); for (int k = 0; k < ops; k++) filter_op(s); });
    sim_join_spawned(); check_filter_fields(&w.shared.f, w.shared.r); nostr_filter_free(&w.shared.f); for (auto* e : w.ev) nostr_event_destroy(e); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C06, filters, c06_filters)
