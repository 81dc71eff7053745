// C06: a network of relays built on the library's relay side
#include "proto.h"
#include <deque>
std::string respace(const std::string& m, const Src& s, int density);
std::string respell(const std::string& m, const Src& s);
std::string with_nul(const std::string& m, const Src& s);
struct Expect { int type = -1; bool ok = true; RefEvent ev; std::string sub; std::vector<RefFilter> filters; int client = 0; };   // what a client message means
typedef std::shared_ptr<Expect> ExpectP;
struct NetMsg { int from; std::string text; ExpectP x; int sync = -1; };
struct LogEnt { nostr_event* e; RefEvent r; nostr_deletion_request_t del; bool isdel = false; };
struct LiveSub { nostr_filter_t* f; size_t n; std::vector<RefFilter> r; int client; };
struct NetNode {
    int no; std::deque<NetMsg> in; bool stop = false; int64_t skew = 0; std::string disk; std::vector<LogEnt> log; std::map<std::string, LiveSub> subs; int crash_in = -1, torn = -1; bool crash = false; int fault_p = 0;
    int busy = 0;
};
struct C06 {
    std::vector<std::unique_ptr<NetNode>> node; Pool pool; int maxfut = 60; bool healed = false, corrupted = false; int loss = 0, dup = 0, slow = 0; std::set<std::pair<int, int>> cut; std::set<std::string> acked; int sync_left = 0; std::map<int, std::deque<std::string>> client_in; uint64_t msgs = 0; bool done = false;
};
static C06* w6;
static void net_send(int from, int to, const std::string& text, ExpectP x, const Src& s) {       // to a node
    C06& w = *w6; auto deliver = [text, x, from, to] { w6->node[to]->in.push_back({from, text, x, -1}); };
    if (!w.healed) {
        if (w.cut.count({from, to})) { count("fault.net_partitioned"); return; }
        if (s.chance(w.loss, 100)) { count("fault.net_loss"); return; }
        if (s.chance(w.dup, 100)) { count("fault.net_duplicate"); sim_after(1000 + 1000ull * s(3000), deliver); }
    }
    uint64_t d = 1000 + 1000ull * s(20); if (!w.healed && s.chance(w.slow, 100)) { count("fault.net_delay"); d += 1000ull * s(8000); }
    sim_after(d, deliver);
}
static std::vector<const RefEvent*> node_ref(NetNode& n) { std::vector<const RefEvent*> v; for (auto& l : n.log) v.push_back(&l.r); return v; }
// the relay's visible events, decided by the library
static std::vector<const LogEnt*> node_view(NetNode& n) {
    std::map<std::string, const LogEnt*> slot; std::vector<const LogEnt*> out;
    for (auto& l : n.log) {
        if (nostr_kind_is_ephemeral(l.e->kind) || nostr_event_is_expired_now(l.e)) continue;
        bool dead = false;
        if (!nostr_event_is_deletion(l.e)) for (auto& d : n.log) if (d.isdel && (nostr_deletion_authorized(&d.del, l.e) || (nostr_deletion_authorized_address(&d.del, l.e) && l.e->created_at <= d.e->created_at))) { dead = true; break; }
        if (dead) continue;
        std::string key;
        if (nostr_kind_is_replaceable(l.e->kind)) key = "r" + std::to_string(l.e->kind) + std::string((char*)l.e->pubkey.data, 32);
        else if (nostr_kind_is_addressable(l.e->kind)) { const char* d = nostr_event_get_d_tag(l.e); key = "a" + std::to_string(l.e->kind) + std::string((char*)l.e->pubkey.data, 32) + (d ? d : ""); }
        else { out.push_back(&l); continue; }
        auto it = slot.find(key); if (it == slot.end()) slot[key] = &l;
        else if ((key[0] == 'r' ? nostr_event_compare_replaceable : nostr_event_compare_addressable)(l.e, it->second->e) > 0) it->second = &l;
    }
    for (auto& p : slot) out.push_back(p.second);
    return out;
}
static bool view_check(NetNode& n, std::vector<const LogEnt*>& v) {   // against the reference; false if the clock ticked meanwhile
    int64_t t0 = sim_wall(); v = node_view(n); if (sim_wall() != t0) return false;
    auto ref = ref_view(node_ref(n), t0); std::set<std::string> got; for (auto* l : v) got.insert(l->r.id);
    for (auto* l : v) if (!ref.count(l->r.id)) violate("store-extra", "relay %d shows an event (kind %d, created %lld, author %s) that should be deleted, expired or replaced", n.no, l->r.kind, (long long)l->r.created_at, hex(l->r.pk.data(), 4).c_str());
    for (auto& p : ref) if (!got.count(p.first)) violate("store-missing", "relay %d hides an event (kind %d, created %lld, tags %s) that should be visible", n.no, p.second->kind, (long long)p.second->created_at, p.second->tags_json().c_str());
    return true;
}
static void node_to_client(NetNode& n, int client, const nostr_relay_msg_t* m, const std::string& want, const Src& s) {
    std::string t = relay_text(m, s); if (t.empty()) return;
    J a, b; if (!jparse(t, a)) violate("message-not-json", "a relay message is not JSON: %.300s", t.c_str());
    if (!jparse(want, b)) violate("harness", "bad expectation %.200s", want.c_str());
    if (!jeq(a, b)) violate("message-changed", "a relay message reads %.400s, expected %.400s", t.c_str(), want.c_str());
    C06& w = *w6; w.msgs++;
    if (client < 0) return;
    if (!w.healed && s.chance(w.loss, 100)) { count("fault.net_loss"); return; }
    sim_after(1000 + 1000ull * s(30), [client, t] { w6->client_in[client].push_back(t); });
}
static bool node_append(NetNode& n, LogEnt l) {       // false: crashed while writing
    std::string line = event_text(l.e); if (line.empty()) { nostr_event_destroy(l.e); if (l.isdel) nostr_deletion_free(&l.del); return true; }   // no memory: nothing stored
    J j; RefEvent r; if (!jparse(line, j) || !ref_from_json(j, r) || !same_event(r, l.r)) violate("stored-text", "the text stored for an event does not describe it: %.400s", line.c_str());
    line += "\x1e";
    if (n.torn >= 0) { count("fault.disk_torn_write"); n.disk += line.substr(0, std::min<size_t>(n.torn, line.size() - 1)); n.torn = -1; n.crash = true; nostr_event_destroy(l.e); if (l.isdel) nostr_deletion_free(&l.del); return false; }
    n.disk += line; n.log.push_back(l);
    return true;
}
static void drop_subs(NetNode& n, std::map<std::string, LiveSub>::iterator it) { for (size_t i = 0; i < it->second.n; i++) nostr_filter_free(&it->second.f[i]); free(it->second.f); n.subs.erase(it); }
static void node_crash(NetNode& n, const Src& s) {
    count("fault.node_crash"); slog("relay %d crashes with %zu events", n.no, n.log.size()); NoFaults nf;
    while (!n.subs.empty()) drop_subs(n, n.subs.begin());
    std::vector<RefEvent> had; for (auto& l : n.log) { had.push_back(l.r); nostr_event_destroy(l.e); if (l.isdel) nostr_deletion_free(&l.del); }
    n.log.clear(); n.in.clear();
    bool flipped = false; size_t at = 0;
    if (w6->corrupted && !n.disk.empty() && s(2)) { at = s((uint32_t)n.disk.size()); if (n.disk[at] != 0x1e) { n.disk[at] ^= 1 << s(7); if (n.disk[at] == 0x1e || !n.disk[at]) n.disk[at] = '?'; flipped = true; count("fault.disk_corruption"); } }
    sim_sleep_us(1000ull * s(3000));
    n.in.clear();
    // restart: only the disk is left
    size_t p = 0, k = 0; std::string disk2; bool last = false;
    while (p < n.disk.size()) {
        size_t e = n.disk.find(0x1e, p); last = e == std::string::npos; std::string line = n.disk.substr(p, last ? std::string::npos : e - p); bool hit = flipped && at >= p && at < p + line.size();
        std::unique_ptr<char[]> b(new char[line.size()]); memcpy(b.get(), line.data(), line.size());
        nostr_event* ev = nullptr; nostr_relay_error_t rc = line.empty() ? NOSTR_RELAY_ERR_INVALID_JSON : nostr_event_parse(b.get(), line.size(), &ev);
        if (!hit && !last) { if (rc != NOSTR_RELAY_OK || !ev) violate("recovery", "a stored event cannot be read back: %s %.300s", nostr_relay_error_string(rc), line.c_str()); if (k >= had.size() || !same_event(had[k], from_lib(ev))) violate("recovery", "a stored event reads back different (%s)", k < had.size() ? ev_diff(had[k], from_lib(ev)).c_str() : "beyond the end"); }
        if (last && !hit && rc == NOSTR_RELAY_OK) { J j; if (!jparse(line, j)) violate("torn-accepted", "a torn record was read as an event: %.300s", line.c_str()); }
        if (rc != NOSTR_RELAY_OK && ev) violate("dangling", "a failed parse left an event");
        if (rc == NOSTR_RELAY_OK && (hit || last)) {          // must still be authentic to be kept
            RefEvent r = from_lib(ev); nostr_validation_result_t vr; bool v = nostr_event_validate_full(ev, 1ll << 40, &vr) == NOSTR_RELAY_OK;
            int64_t now = sim_wall(); bool au = r.authentic() && !ref_expired(r, now); if (v && !au) violate("corrupt-accepted", "a corrupted record passes validation: %.400s", line.c_str());
            if (!v && au && !ref_expired(r, now + 2)) violate("intact-rejected", "an intact record fails validation: %.400s", line.c_str());
            if (!v) { nostr_event_destroy(ev); ev = nullptr; rc = NOSTR_RELAY_ERR_INVALID_ID; }
        }
        if (!last) k++;
        if (rc == NOSTR_RELAY_OK) { LogEnt l{ev, from_lib(ev), {}, false}; if (l.r.kind == 5) { l.isdel = true; if (nostr_deletion_parse(ev, &l.del) != NOSTR_RELAY_OK) violate("deletion-parse", "a stored deletion cannot be parsed"); } n.log.push_back(l); disk2 += line + "\x1e"; }
        if (last) break;
        p = e + 1;
    }
    n.disk = disk2;
    slog("relay %d restarts with %zu events", n.no, n.log.size());
}
static void check_parse(NetNode& n, const Expect& x, nostr_relay_error_t rc, const nostr_client_msg_t& m, bool fault, const std::string& text, const Src& s) {
    (void)n;
    if (rc != NOSTR_RELAY_OK) { if (x.ok && !fault) violate("message-refused", "a valid client message was refused (%s): %.500s", nostr_relay_error_string(rc), text.c_str()); return; }
    if (!x.ok) violate("message-accepted", "an invalid client message was accepted: %.500s", text.c_str());
    if (nostr_client_msg_get_type(&m) != x.type || m.type != x.type) violate("message-type", "a client message was read as type %d, expected %d", (int)m.type, x.type);
    const nostr_event* e = nostr_client_msg_get_event(&m); size_t fc = 99; const nostr_filter_t* f = nostr_client_msg_get_filters(&m, &fc); const char* sub = nostr_client_msg_get_subscription_id(&m);
    if (x.type == NOSTR_CLIENT_MSG_EVENT || x.type == NOSTR_CLIENT_MSG_AUTH) { if (!e || f || fc || sub) violate("message-accessor", "an event message has no event, or filters"); if (!same_event(x.ev, from_lib(e))) violate("event-changed", "a published event was read differently: %s", ev_diff(x.ev, from_lib(e)).c_str()); check_event_accessors(e, x.ev, s); }
    else {
        if (e || !sub || x.sub != sub) violate("message-accessor", "the subscription id was read as %s, expected %s", sub ? sub : "NULL", x.sub.c_str());
        if (fc != x.filters.size() || (fc && !f)) violate("message-accessor", "%zu filters, expected %zu", fc, x.filters.size());
        for (size_t i = 0; i < fc; i++) check_filter_fields(&f[i], x.filters[i]);
    }
}
static void push_live(NetNode& n, const LogEnt& l, const Src& s) {
    for (auto& p : n.subs) {
        bool want = false; for (auto& f : p.second.r) want |= ref_match(f, l.r);
        bool got = nostr_filters_match_with_search(p.second.f, p.second.n, l.e, search_cb, (void*)&search_cb);
        if (got != want) violate("filter-match", "an event %s a live subscription but was %s: %s against %s", want ? "matches" : "does not match", got ? "matched" : "not matched", l.r.json().substr(0, 500).c_str(), p.second.r.empty() ? "no filter" : filter_json(p.second.r[0], Src("x")).c_str());
        std::string sid = p.first.substr(p.first.find('/') + 1);
        if (got) { nostr_relay_msg_t m; nostr_relay_msg_event(&m, sid.c_str(), l.e); node_to_client(n, p.second.client, &m, "[\"EVENT\"," + jstr(sid) + "," + l.r.json() + "]", s); count("live_push"); }
    }
}
static void node_handle(NetNode& n, NetMsg msg, const Src& s) {
    C06& w = *w6; Expect& x = *msg.x; int client = x.client;
    std::unique_ptr<char[]> buf(new char[msg.text.size()]); memcpy(buf.get(), msg.text.data(), msg.text.size());
    if (n.fault_p && s.chance(n.fault_p, 100)) { faults() = Faults(); faults().alloc_at = (int)s(s(3) ? 60 : 300); faults().alloc_run = s(4) ? 1 : 1 + (int)s(50); } else faults() = Faults();
    auto faulted = [] { return faults().fired > 0; };
    nostr_client_msg_t m; nostr_relay_error_t rc = nostr_client_msg_parse(buf.get(), msg.text.size(), &m);
    check_parse(n, x, rc, m, faulted(), msg.text, s);
    if (rc != NOSTR_RELAY_OK) {
        nostr_client_msg_free(&m); std::string why = std::string("invalid: ") + nostr_relay_error_string(rc); nostr_relay_msg_t o;
        if (x.type == NOSTR_CLIENT_MSG_REQ && s(2)) { nostr_relay_msg_closed(&o, x.sub.c_str(), why.c_str()); std::string sid = x.sub.substr(0, 64); bool printable = true; for (unsigned char c : sid) if (c < 32 || c > 126) printable = false; if (printable) node_to_client(n, client, &o, "[\"CLOSED\"," + jstr(sid) + "," + jstr(why) + "]", s); }
        else { std::string t = s(2) ? why : gen_text(s, 200); nostr_relay_msg_notice(&o, t.c_str()); node_to_client(n, client, &o, "[\"NOTICE\"," + jstr(ref_cut(t, 255)) + "]", s); }
        return;
    }
    nostr_relay_msg_t o;
    if (x.type == NOSTR_CLIENT_MSG_EVENT || x.type == NOSTR_CLIENT_MSG_AUTH) {
        nostr_event* e = x.type == NOSTR_CLIENT_MSG_EVENT ? m.data.event.event : m.data.auth.event; std::string id = hex(x.ev.id.data(), 32);
        int f0 = faults().fired; int64_t t0 = sim_wall(); nostr_validation_result_t vr; memset(&vr, 0xAA, sizeof vr); nostr_relay_error_t v = nostr_event_validate_full(e, w.maxfut, &vr); int64_t t1 = sim_wall();
        bool au = x.ev.authentic(), ok0 = au && x.ev.created_at <= t0 + w.maxfut && !ref_expired(x.ev, t0), ok1 = au && x.ev.created_at <= t1 + w.maxfut && !ref_expired(x.ev, t1);
        if (vr.valid != (v == NOSTR_RELAY_OK) || vr.error_code != v) violate("verdict-inconsistent", "validation returns %d but reports valid=%d code=%d", (int)v, vr.valid, (int)vr.error_code);
        if (v == NOSTR_RELAY_OK && !ok0 && !ok1) violate("invalid-accepted", "an event that is %s passes validation at %lld (bound %d s): %.500s", !au ? "not authentic" : ref_expired(x.ev, t0) ? "expired" : "too far in the future", (long long)t0, w.maxfut, x.ev.json().c_str());
        if (v != NOSTR_RELAY_OK && ok0 && ok1 && faults().fired == f0) violate("valid-refused", "a valid event was refused (%s) at %lld: %.500s", nostr_relay_error_string(v), (long long)t0, x.ev.json().c_str());
        if (v != NOSTR_RELAY_OK && faults().fired == f0 && t0 == t1) {
            bool fut = x.ev.created_at > t0 + w.maxfut, exp = ref_expired(x.ev, t0), idm = x.ev.id != sha256(x.ev.canonical());
            bool right = v == NOSTR_RELAY_ERR_FUTURE_EVENT ? fut : v == NOSTR_RELAY_ERR_EXPIRED_EVENT ? exp : v == NOSTR_RELAY_ERR_ID_MISMATCH ? idm : v == NOSTR_RELAY_ERR_SIG_MISMATCH ? !au && !idm : false;
            if (!right) violate("verdict-reason", "an event was refused for the wrong reason: %s", nostr_relay_error_string(v));
            if (memchr(vr.error_message, 0, sizeof vr.error_message) == nullptr || memchr(vr.error_field, 0, sizeof vr.error_field) == nullptr || !vr.error_message[0]) violate("verdict-text", "the reason for refusing is not a text");
        }
        bool stored = false, have = false; for (auto& l : n.log) have |= l.r.id == x.ev.id; std::string why;
        if (v != NOSTR_RELAY_OK) { std::vector<char> b(1 + s(200)); size_t k = nostr_validation_error_format(&vr, b.data(), b.size()); if (k >= b.size() || (k && strlen(b.data()) != k)) violate("verdict-text", "the formatted reason has length %zu of %zu", k, b.size()); why = k ? std::string(b.data()) : "invalid: event"; if (why.compare(0, 9, "invalid: ")) violate("verdict-text", "the formatted reason is %.100s", why.c_str()); }
        else if (x.type == NOSTR_CLIENT_MSG_AUTH) stored = false;
        else if (have) { why = NOSTR_OK_PREFIX_DUPLICATE " already have this event"; }
        else if (nostr_kind_is_ephemeral(e->kind)) { LogEnt l{e, x.ev, {}, false}; push_live(n, l, s); count("ephemeral"); }
        else {
            LogEnt l{e, x.ev, {}, false}; bool mem = false;
            if (nostr_event_is_deletion(e)) {
                f0 = faults().fired; nostr_relay_error_t d = nostr_deletion_parse(e, &l.del); if (d != NOSTR_RELAY_OK) { if (faults().fired == f0) violate("deletion-parse", "a valid deletion cannot be parsed: %s", nostr_relay_error_string(d)); mem = true; }
                else { l.isdel = true; std::vector<std::string> ids, as; for (auto& t : x.ev.tags) if (t.size() >= 2) { if (t[0] == "e" && lhex(t[1], 64)) ids.push_back(t[1]); if (t[0] == "a" && ref_address_ok(t[1])) as.push_back(t[1]); }
                    bool same = ids.size() == l.del.event_ids_count && as.size() == l.del.addresses_count && hex(x.ev.pk.data(), 32) == l.del.pubkey && x.ev.content == (l.del.reason ? l.del.reason : ""); for (size_t i = 0; same && i < ids.size(); i++) same = ids[i] == l.del.event_ids[i]; for (size_t i = 0; same && i < as.size(); i++) same = as[i] == l.del.addresses[i];
                    if (!same) violate("deletion-changed", "a deletion request lists %zu ids and %zu addresses, expected %zu and %zu", l.del.event_ids_count, l.del.addresses_count, ids.size(), as.size()); }
            }
            if (!mem) {
                m.data.event.event = nullptr; size_t before = n.log.size();
                if (!node_append(n, l)) { nostr_client_msg_free(&m); return; }
                stored = n.log.size() > before; if (!stored) mem = true;
                if (stored) { count("stored"); push_live(n, n.log.back(), s);
                    for (auto& q : w.node) if (q->no != n.no && client >= 0 && s(3)) { NoFaults nf; std::string t = event_text(n.log.back().e); auto x2 = std::make_shared<Expect>(); x2->type = NOSTR_CLIENT_MSG_EVENT; x2->ev = x.ev; x2->client = -1; net_send(n.no, q->no, "[\"EVENT\"," + t + "]", x2, s); count("gossip"); } }
            }
            if (mem) why = "error: out of memory";
        }
        if (x.type != NOSTR_CLIENT_MSG_AUTH || s(2)) {
            bool ok = v == NOSTR_RELAY_OK && why.compare(0, 5, "error"); if (ok && x.type == NOSTR_CLIENT_MSG_EVENT && ref_class(x.ev.kind) != EPHEMERAL) w.acked.insert(x.ev.id);
            nostr_relay_msg_ok(&o, id.c_str(), ok, why.c_str()); node_to_client(n, client, &o, "[\"OK\",\"" + id + "\"," + (ok ? "true" : "false") + "," + jstr(why) + "]", s);
        } else { std::string ch = gen_text(s, 120); nostr_relay_msg_auth(&o, ch.c_str()); node_to_client(n, client, &o, "[\"AUTH\"," + jstr(ref_cut(ch, 127)) + "]", s); }
        nostr_client_msg_free(&m);
        return;
    }
    std::string key = std::to_string(client) + "/" + x.sub;
    if (x.type == NOSTR_CLIENT_MSG_CLOSE) { auto it = n.subs.find(key); if (it != n.subs.end()) drop_subs(n, it); nostr_client_msg_free(&m); return; }
    size_t fc = 0; const nostr_filter_t* fs = nostr_client_msg_get_filters(&m, &fc);
    std::vector<const LogEnt*> view; { NoFaults nf; int tries = 0; while (!view_check(n, view)) if (++tries > 50) { nostr_client_msg_free(&m); return; } }
    // each filter by itself, then all of them together
    std::set<std::string> want, got; uint64_t total = 0;
    for (size_t i = 0; i < fc; i++) {
        std::vector<const LogEnt*> g; std::vector<const RefEvent*> r;
        for (auto* l : view) {
            bool a = nostr_filter_matches_with_search(&fs[i], l->e, search_cb, (void*)&search_cb), b = ref_match(x.filters[i], l->r);
            if (a != b || nostr_filter_matches(&fs[i], l->e) != ref_match(x.filters[i], l->r, false)) violate("filter-match", "an event %s a filter but was %s: %s against %s", b ? "matches" : "does not match", a ? "matched" : "not matched", l->r.json().substr(0, 600).c_str(), filter_json(x.filters[i], Src("x")).c_str());
            if (a) g.push_back(l); if (b) r.push_back(&l->r);
            if (nostr_filter_matches_with_search(&fs[i], l->e, nullptr, nullptr) && nostr_filter_has_search(&fs[i])) violate("search-ignored", "an event matches a search although there is no search callback");
        }
        std::sort(g.begin(), g.end(), [](const LogEnt* a, const LogEnt* b) { return nostr_event_compare_replaceable(a->e, b->e) > 0; }); std::sort(r.begin(), r.end(), [](const RefEvent* a, const RefEvent* b) { return ref_newer(*a, *b); });
        for (size_t k = 0; k < g.size(); k++) if (g[k]->r.id != r[k]->id) violate("order", "events are not ordered newest first, lowest id first: position %zu of %zu", k, g.size());
        if (fs[i].limit > 0) { if (g.size() > (size_t)fs[i].limit) g.resize(fs[i].limit); if (r.size() > (size_t)x.filters[i].limit) r.resize(x.filters[i].limit); }
        for (auto* l : g) got.insert(l->r.id); for (auto* l : r) want.insert(l->id);
    }
    for (auto* l : view) { bool a = nostr_filters_match_with_search(fs, fc, l->e, search_cb, (void*)&search_cb), b = false, c = false; for (auto& f : x.filters) b |= ref_match(f, l->r), c |= ref_match(f, l->r, false); if (a != b || nostr_filters_match(fs, fc, l->e) != c) violate("filter-match", "an event %s a list of %zu filters", b ? "should match" : "should not match", fc); total += a; }
    if (got != want) violate("query-answer", "a query returned %zu events, expected %zu", got.size(), want.size());
    if (x.type == NOSTR_CLIENT_MSG_COUNT) { bool ap = s(2); if (s(4) == 3) { static const std::vector<uint64_t> big = {4294967296ull, 9007199254740993ull, 9223372036854775807ull, 1000000000000000003ull}; total = s.of(big); } nostr_relay_msg_count(&o, x.sub.c_str(), (int64_t)total, ap); node_to_client(n, client, &o, "[\"COUNT\"," + jstr(x.sub) + ",{\"count\":" + std::to_string(total) + (ap ? ",\"approximate\":true" : "") + "}]", s); nostr_client_msg_free(&m); return; }
    count("query"); if (got.size()) count("query_with_results");
    int k = 0; for (auto* l : view) if (got.count(l->r.id)) { if (++k > 6 && s(4)) continue; nostr_relay_msg_event(&o, x.sub.c_str(), l->e); node_to_client(n, client, &o, "[\"EVENT\"," + jstr(x.sub) + "," + l->r.json() + "]", s); }
    nostr_relay_msg_eose(&o, x.sub.c_str()); node_to_client(n, client, &o, "[\"EOSE\"," + jstr(x.sub) + "]", s);
    if (client >= 0 && fc) {        // from here on a live subscription with its own copy of the filters
        auto it = n.subs.find(key); if (it != n.subs.end()) drop_subs(n, it);
        LiveSub ls; ls.f = (nostr_filter_t*)calloc(fc, sizeof(nostr_filter_t)); ls.n = 0; ls.r = x.filters; ls.client = client; bool mem = false;
        for (size_t i = 0; i < fc && !mem; i++) { int f0 = faults().fired; nostr_relay_error_t c = nostr_filter_clone(&ls.f[i], &fs[i]); if (c != NOSTR_RELAY_OK) { if (faults().fired == f0) violate("clone-failed", "a filter cannot be cloned: %s", nostr_relay_error_string(c)); nostr_filter_t z; memset(&z, 0, sizeof z); if (memcmp(&z, &ls.f[i], sizeof z)) violate("clone-partial", "a failed clone leaves parts behind"); mem = true; } else ls.n++; }
        nostr_client_msg_free(&m);
        if (mem) { for (size_t i = 0; i < ls.n; i++) nostr_filter_free(&ls.f[i]); free(ls.f); return; }
        for (size_t i = 0; i < ls.n; i++) check_filter_fields(&ls.f[i], x.filters[i]);
        n.subs[key] = ls; return;
    }
    nostr_client_msg_free(&m);
}
static void node_sync(NetNode& n, int to, const Src& s) {       // anti-entropy: show a peer everything visible here
    NoFaults nf; std::vector<const LogEnt*> v; int tries = 0; while (!view_check(n, v)) if (++tries > 50) return;
    for (auto* l : v) { std::string t = event_text(l->e); auto x = std::make_shared<Expect>(); x->type = NOSTR_CLIENT_MSG_EVENT; x->ev = l->r; x->client = -1; net_send(n.no, to, "[\"EVENT\"," + t + "]", x, s); }
}
static void node_main(int no) {
    C06& w = *w6; NetNode& n = *w.node[no]; Src s = src("node", no);
    for (;;) {
        sim_wait([&] { return n.stop || n.crash || !n.in.empty(); }, UINT64_MAX);
        if (n.crash) { n.crash = false; faults() = Faults(); n.busy = 1; node_crash(n, s); n.busy = 0; continue; }
        if (n.in.empty()) { if (n.stop) break; continue; }
        NetMsg m = n.in.front(); n.in.pop_front(); sim_thread_skew(w.healed ? 0 : n.skew); n.busy = 1;
        if (m.sync >= 0) node_sync(n, m.sync, s); else node_handle(n, m, s);
        faults() = Faults(); n.busy = 0;
        if (n.crash_in > 0 && --n.crash_in == 0) n.crash = true;
    }
    for (auto& l : n.log) { nostr_event_destroy(l.e); if (l.isdel) nostr_deletion_free(&l.del); }
    while (!n.subs.empty()) drop_subs(n, n.subs.begin());
}
// ------------------------------------------------------------------ clients
static std::pair<std::string, ExpectP> gen_client_msg(const Src& s, Pool& pool, int client, int maxfut, int bad_pct) {
    auto x = std::make_shared<Expect>(); x->client = client; std::string t; int64_t now = sim_wall();
    auto sid = [&] { static const std::vector<std::string> o = {"q", "feed", "a \"b\\c", std::string(64, 's'), "~!{}[],:"}; return s(3) ? std::string("s") + std::to_string(s(3)) : s.of(o); };
    if (s.chance(bad_pct, 100)) {
        static const std::vector<std::string> bad = {"[]", "{}", "[1]", "[\"EVENT\"]", "[\"REQ\"]", "[\"REQ\",\"\",{}]", "[\"REQ\",7,{}]", "[\"REQ\",\"x\",[]]", "[\"REQ\",\"x\",{\"ids\":\"abc\"}]", "[\"REQ\",\"x\",{\"ids\":[1]}]", "[\"REQ\",\"x\",{\"ids\":[\"ABC\"]}]", "[\"REQ\",\"x\",{\"authors\":[\"\"]}]", "[\"REQ\",\"x\",{\"#e\":[\"abcd\"]}]", "[\"REQ\",\"x\",{\"#p\":[\"zz\"]}]", "[\"REQ\",\"x\",{\"kinds\":[\"1\"]}]", "[\"REQ\",\"x\",{\"kinds\":1}]", "[\"REQ\",\"x\",{\"#t\":\"x\"}]", "[\"REQ\",\"x\",{\"#t\":[1]}]", "[\"REQ\",\"x\",{\"since\":\"0\"}]", "[\"REQ\",\"x\",{\"until\":1e40}]", "[\"COUNT\",\"\",{}]", "[\"COUNT\",\"x\",7]", "[\"CLOSE\"]", "[\"CLOSE\",\"\"]", "[\"CLOSE\",\"\\u0001\"]", "[\"CLOSE\",\"\\u00e9\"]", "[\"NOPE\",\"x\"]", "[\"event\",{}]", "[\"EVENT\",7]", "[\"EVENT\",{\"id\":\"zz\"}]", "[\"EVENT\",{\"kind\":-1}]", "[\"EVENT\",{\"kind\":65536}]", "[\"REQ\",\"x\",{}", "[\"REQ\",\"x\" {}]", "nonsense", "\"REQ\"", "[\"REQ\",\"x\",{},{},{},{},{},{},{},{},{},{},{}]", "[\"REQ\",\"x\",{\"ids\":[null]}]", "[\"REQ\",\"x\",{\"authors\":{}}]"};
        x->ok = false; x->sub = "x"; x->type = NOSTR_CLIENT_MSG_REQ; int k = (int)s(5);
        if (k == 0) { t = "[\"" + std::string(s(2) ? "REQ" : "COUNT") + "\",\"" + std::string(65 + s(100), 'i') + "\",{}]"; x->sub = std::string(65, 'i'); }
        else if (k == 1) { std::string v; int n = 257 + (int)s(3); for (int i = 0; i < n; i++) v += (i ? ",\"" : "\"") + gen_name(s, 1) + "\""; t = "[\"REQ\",\"x\",{\"#" + std::string(1, "tde"[s(2)]) + "\":[" + v + "]}]"; }
        else t = s.of(bad);
        return {t, x};
    }
    int k = (int)s(10);
    if (k < 6) {
        x->type = k == 5 && !s(3) ? NOSTR_CLIENT_MSG_AUTH : NOSTR_CLIENT_MSG_EVENT; RefEvent e;
        if (!pool.empty() && s(5) == 4) e = pool[s((uint32_t)pool.size())];
        else {
            int a; e = gen_event(s, pool, now, maxfut, &a); e.seal(key_no(a));
            switch (s(26)) { case 15: e.sig[s(64)] ^= 1 << s(8); break; case 14: e.content += "!"; break; case 13: e.id[s(32)] ^= 1 << s(8); if (s(2)) { e.sig = ref_sign(key_no(a), e.id); count("fault.signed_another_id"); } break; case 12: e.created_at += 1; break; case 11: { e.pk = key_no(a + 1).pk; e.id = sha256(e.canonical()); break; } case 10: { e.kind ^= 1; break; } case 9: if (!e.tags.empty()) { e.tags[0].push_back("x"); } else e.tags.push_back({"t", "x"}); break; case 8: { e.sig = ref_sign(key_no(a + 1), e.id); break; } default: pool.push_back(e); }
        }
        x->ev = e; t = "[\"" + std::string(x->type == NOSTR_CLIENT_MSG_AUTH ? "AUTH" : "EVENT") + "\"," + e.json() + "]";
    } else if (k == 9) { x->type = NOSTR_CLIENT_MSG_CLOSE; x->sub = sid(); t = "[\"CLOSE\"," + jstr(x->sub) + "]"; }
    else {
        x->type = s(4) ? NOSTR_CLIENT_MSG_REQ : NOSTR_CLIENT_MSG_COUNT; x->sub = sid(); int nf = s(4) ? 1 + (int)s(3) : (int)s(11); std::string fj;
        for (int i = 0; i < nf; i++) { RefFilter f = gen_filter(s, pool, now); static const std::vector<std::string> ex = {"\"#longer\":[\"x\"]", "\"#1\":[\"x\"]", "\"IDS\":[\"zz\"]", "\"extra\":{\"a\":[1]}", "\"Kinds\":[5]", "\"#\":[]"}; std::vector<std::string> extra; if (s(8) == 7) extra.push_back(s.of(ex)); x->filters.push_back(f); fj += "," + filter_json(f, s, extra); }
        t = "[\"" + std::string(x->type == NOSTR_CLIENT_MSG_REQ ? "REQ" : "COUNT") + "\"," + jstr(x->sub) + fj + "]";
    }
    int f = (int)s(4); if (f == 1 || f == 3) t = respell(t, s); if (f >= 2) t = respace(t, s, 1 + (int)s(4)); if (s(40) == 39) { std::string u = with_nul(t, s); if (u != t) { t = u; x->ok = false; } }
    return {t, x};
}
static void c06_net_world() {
    C06 w; w6 = &w; Src g("cfg"); Src fl("fault"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark();
    static const std::vector<int> mf = {60, 900, 0, 3600}; w.maxfut = g.of(mf); int nn = 1 + (int)g(3), nc = 1 + (int)g(2); w.loss = (int)g(3) * 10; w.dup = (int)g(3) * 10; w.slow = (int)g(3) * 20; w.corrupted = g(3) == 2; bool mem = g(3) == 2;
    if (nostr_init() != NOSTR_OK) violate("init", "init");
    { NoFaults nf; }
    uint64_t mark2 = alloc_mark(); (void)mark;
    for (int i = 0; i < nn; i++) { w.node.emplace_back(new NetNode); w.node[i]->no = i; static const std::vector<int64_t> sk = {0, 0, 1, -1, 5, -5, 60, -60, 3500, -3500}; w.node[i]->skew = fl.of(sk); if (mem) w.node[i]->fault_p = 20; }
    for (int i = 0; i < nn; i++) sim_spawn("relay" + std::to_string(i), [i] { node_main(i); });
    int left = nc;
    for (int c = 0; c < nc; c++) sim_spawn("client" + std::to_string(c), [&w, c, nn, &left] {
        Src s = src("client", c); int ops = 4 + (int)s(40);
        for (int i = 0; i < ops; i++) { static const std::vector<uint64_t> gap = {10, 1000, 100000, 1000000, 3000000}; sim_sleep_us(s.of(gap) + s(1000)); auto m = gen_client_msg(s, w.pool, c, w.maxfut, 10); net_send(-1 - c, (int)s(nn), m.first, m.second, src("net.c", c)); }
        left--;
    });
    // the fault schedule
    int nf = (int)fl(8);
    for (int i = 0; i < nf && left; i++) {
        sim_sleep_us(100000 + 1000ull * fl(5000)); NetNode& n = *w.node[fl(nn)];
        switch (fl(6)) {
        case 0: n.crash = true; break;
        case 1: n.torn = (int)fl(fl(2) ? 400 : 40); break;
        case 2: n.skew += fl.of(std::vector<int64_t>{1, -1, 30, -30, 600, -600}); break;
        case 3: if (nn > 1) { int a = (int)fl(nn), b = (int)fl(nn); w.cut.insert({a, b}); if (fl(2)) w.cut.insert({b, a}); count("fault.partition"); } break;
        case 4: w.cut.clear(); break;
        default: n.in.push_back({0, "", nullptr, (int)fl(nn)}); break;
        }
    }
    sim_wait([&] { return left == 0; }, UINT64_MAX); sim_sleep_us(15000000);
    // faults stop; three hours later every event is in the past
    w.healed = true; w.cut.clear(); for (auto& n : w.node) { n->fault_p = 0; n->torn = -1; n->crash_in = -1; }
    auto idle = [&] { for (auto& n : w.node) if (!n->in.empty() || n->crash || n->busy) return false; return true; };
    sim_wait(idle, UINT64_MAX); sim_sleep_us(3ull * 3600 * 1000000);
    for (auto& n : w.node) n->in.push_back({0, "", nullptr, n->no});     // wakes each node with its clock right again
    sim_wait(idle, UINT64_MAX); sim_sleep_us(1000000); sim_wait(idle, UINT64_MAX);
    std::map<std::string, RefEvent> all; for (auto& n : w.node) for (auto& l : n->log) all.emplace(l.r.id, l.r);
    if (!w.corrupted) for (auto& id : w.acked) if (!all.count(id)) violate("durability", "an event acknowledged with OK is in no store");
    for (auto& p : all) if (!p.second.authentic()) violate("invalid-stored", "an event that is not authentic is in a store");
    for (int round = 0; round < nn + 1; round++) for (int a = 0; a < nn; a++) for (int b = 0; b < nn; b++) if (a != b) { w.node[a]->in.push_back({0, "", nullptr, b}); sim_wait(idle, UINT64_MAX); sim_sleep_us(1000000); sim_wait(idle, UINT64_MAX); }
    std::vector<const RefEvent*> el; for (auto& p : all) el.push_back(&p.second);
    int64_t now = sim_wall(); auto ref = ref_view(el, now), refl = ref_view(el, now + 30);
    for (auto& n : w.node) {
        std::vector<const LogEnt*> v = node_view(*n); std::set<std::string> got; for (auto* l : v) got.insert(l->r.id);
        for (auto& p : ref) if (refl.count(p.first) && !got.count(p.first)) violate("no-convergence", "after all faults stopped relay %d lacks an event (kind %d, created %lld) that the relays together accepted", n->no, p.second->kind, (long long)p.second->created_at);
        for (auto& id : got) if (!ref.count(id) && !refl.count(id)) violate("no-convergence", "after all faults stopped relay %d still shows an event that was deleted or replaced", n->no);
    }
    count("events_converged", ref.size()); count("relay_messages", w.msgs);
    for (auto& n : w.node) n->stop = true;
    sim_join_spawned();
    if (live_since(mark2)) violate("memory-leak", "%zu allocations left: %s", live_since(mark2), describe_live(mark2).c_str());
}
WORLD(C06, net, c06_net_world)
