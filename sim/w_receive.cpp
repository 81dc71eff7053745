// Relay client worlds: C03 receive path, C04 subscriptions, C05 wire
#include "relay_server.h"

// white space anywhere JSON allows it (outside strings); never a leading tab
std::string respace(const std::string& m, const Src& s, int density) {
    static const std::vector<std::string> w = {" ", "\n", "\r\n", "  ", "\t", "\n\t "};
    std::string o; bool in = false;
    for (size_t i = 0; i < m.size(); i++) {
        char c = m[i]; bool tok = !in && strchr("[]{}:,", c);
        if (tok && i && s.chance(density, 10)) o += s.of(w);
        o += c;
        if (in) { if (c == '\\') { o += m[++i]; } else if (c == '"') in = false; } else if (c == '"') in = true;
        if (tok && i + 1 < m.size() && s.chance(density, 10)) o += s.of(w);
    }
    return o;
}
// the same JSON with other spellings of the characters inside strings
std::string respell(const std::string& m, const Src& s) {
    std::string o; bool in = false; char b[16];
    for (size_t i = 0; i < m.size(); i++) {
        unsigned char c = m[i];
        if (!in) { if (c == '"') in = true; o += c; continue; }
        if (c == '\\') { int k = m[i + 1] == 'u' ? 5 : 1; o += c; while (k--) o += m[++i]; continue; }
        if (c == '"') { in = false; o += c; continue; }
        if (c < 0x80 && s.chance(1, 8)) { snprintf(b, sizeof b, s(2) ? "\\u%04x" : "\\u%04X", c); o += b; continue; }
        if (c == '/' && s.chance(1, 2)) { o += "\\/"; continue; }
        if (c >= 0xE0 && c < 0xF0 && s.chance(1, 2)) { unsigned v = (c & 15) << 12 | (m[i + 1] & 63) << 6 | (m[i + 2] & 63); snprintf(b, sizeof b, "\\u%04x", v); o += b; i += 2; continue; }
        if (c >= 0xF0 && s.chance(1, 2)) { unsigned v = ((c & 7) << 18 | (m[i + 1] & 63) << 12 | (m[i + 2] & 63) << 6 | (m[i + 3] & 63)) - 0x10000; snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + (v >> 10), 0xDC00 + (v & 0x3ff)); o += b; i += 3; continue; }
        o += c;
    }
    return o;
}
// as another program might write it; without cJSON the library compares member names as they stand
std::string other_spelling(const std::string& m, const Src& s) {
    std::string t = m;
#if !defined(VARIANT_MIN) && !defined(VARIANT_NOSJ)
    const bool hasj = true;
#else
    const bool hasj = false;
#endif
    if (s(3) == 2) { if (hasj) t = respell(t, s); else { std::string o; for (size_t i = 0; i < t.size();) { if (t[i] != '"') { o += t[i++]; continue; } size_t j = i + 1; while (j < t.size() && t[j] != '"') j += t[j] == '\\' ? 2 : 1; if (j >= t.size()) { o += t.substr(i); break; } std::string q = t.substr(i, j + 1 - i); size_t k = j + 1; while (k < t.size() && strchr(" \t\r\n", t[k])) k++; o += k < t.size() && t[k] == ':' ? q : respell(q, s); i = j + 1; } t = o; } count("other_spelling"); }
    if (s(3) == 2) t = respace(t, s, 1 + (int)s(4));
    return t;
}
// the same JSON with a NUL character in one of its strings, which no C string can hold
std::string with_nul(const std::string& m, const Src& s) {
    std::vector<size_t> at; bool in = false;
    for (size_t i = 0; i < m.size(); i++) { char c = m[i]; bool pair = i >= 6 && m[i - 6] == '\\' && m[i - 5] == 'u' && strchr("dD", m[i - 4]) && strchr("89abAB", m[i - 3]);    /* not between the halves of a pair */
        if (in && !pair) at.push_back(i); if (in && c == '\\') { i += m[i + 1] == 'u' ? 5 : 1; } else if (c == '"') in = !in; }
    if (at.empty()) return m;
    std::string o = m; o.insert(at[s((uint32_t)at.size())], "\\u0000"); count("nul_in_text"); return o;
}
struct Want { int sub = -1; std::string type; J msg; RefEvent ev; int no; };
struct C03 { int only = 0;
    nostr_relay* r = nullptr; Server sv; std::vector<Want> want; size_t got = 0; bool lossy = false; int missed = 0; int delivered_after = 0; bool after = false; int a_tag = 1, b_tag = 2; std::string st;
};
static C03* w3;
struct Sub3 { int no; };
static void c03_take(int sub, const char* type, const char* data, const nostr_event* e) {
    C03& w = *w3; J j; RefEvent ev;
    if (sub < 0) { if (!data || !jparse(data, j)) violate("message-corrupt", "the message callback was given text that is not JSON: %.200s", data ? data : "NULL"); }
    else { if (!e || !e->content) violate("event-corrupt", "the event callback was given an event without content"); ev = from_lib(e); }
    size_t k = w.got;
    for (; k < w.want.size(); k++) {
        Want& x = w.want[k];
        bool m = x.sub == sub && (sub < 0 ? x.type == type && jeq(x.msg, j) : same_event(x.ev, ev));
        if (m) break;
        if (!w.lossy) {
            if (x.sub == sub && sub >= 0) violate("event-corrupt", "message %d (EVENT for subscription %d) was delivered changed: %s", x.no, sub, ev_diff(x.ev, ev).c_str());
            violate("message-order", "expected message %d (%s), but a callback of %s ran with %.200s", x.no, x.type.c_str(), sub < 0 ? type : "EVENT", sub < 0 ? data : ev.content.c_str());
        }
    }
    if (k == w.want.size()) violate(w.lossy ? "message-unexpected" : "message-duplicate", "a callback ran for a message the relay did not send, or for one already delivered: %s %.300s", sub < 0 ? type : "EVENT", sub < 0 ? data : ev.json().c_str());
    w.missed += (int)(k - w.got); w.got = k + 1; count("delivered");
}
static void c03_ev(const nostr_event* e, void* u) { c03_take(((Sub3*)u)->no, "EVENT", nullptr, e); sim_point(); }
static void c03_msg(const char* t, const char* d, void* u) { if (w3->only == 2) violate("old-callback", "a replaced message callback gets a message after a reconnect"); if (u != &w3->a_tag) violate("callback-pair-torn", "the message callback was called with another callback's user data"); c03_take(-1, t, d, nullptr); }
static void c03_msg2(const char* t, const char* d, void* u) { if (w3->only == 1) violate("old-callback", "a replaced message callback gets a message after a reconnect"); if (u != &w3->b_tag) violate("callback-pair-torn", "the message callback was called with another callback's user data"); c03_take(-1, t, d, nullptr); }
static void c03_state(nostr_relay*, nostr_relay_state s, void*) { w3->st += "DcCE"[s]; }
static std::string c03_valid(C03& w, const Src& s, int no, bool expect, int subs) {
    Want x; x.no = no; std::string m; std::string id = gen_hex(s, 32), txt = gen_text(s, 8) + "/" + std::to_string(no);
    std::string sid = "s" + std::to_string(s(subs));
    switch (s(10)) {
    case 0: case 1: case 2: case 3: { x.ev = small_event(s, no); x.sub = sid[1] - '0'; x.type = "EVENT"; std::string j = x.ev.json(); if (s(6) == 5) { x.ev.content += std::string(1 + s(300000), "xy\"\\\n["[s(6)]); x.ev.seal_fake(key_no(1)); j = x.ev.json(); count("big_message"); } m = "[\"EVENT\",\"" + sid + "\"," + j + "]"; break; }
    case 4: x.type = "OK"; m = "[\"OK\",\"" + id + "\"," + (s(2) ? "true" : "false") + "," + jstr(txt) + "]"; break;
    case 5: x.type = "EOSE"; m = "[\"EOSE\",\"" + sid + "\"]"; break;
    case 6: x.type = "NOTICE"; m = "[\"NOTICE\"," + jstr(txt) + "]"; break;
    case 7: x.type = "CLOSED"; m = "[\"CLOSED\",\"zz" + std::to_string(no) + "\"," + jstr(txt) + "]"; break;
    case 8: x.type = "AUTH"; m = "[\"AUTH\"," + jstr(txt) + "]"; break;
    default: x.type = "COUNT"; m = "[\"COUNT\",\"" + sid + "\",{\"count\":" + std::to_string(s(100000)) + "}]"; break;
    }
    if (x.sub < 0) jparse(m, x.msg);
    if (expect) w.want.push_back(x);
    int f = (int)s(4); if (f == 1 || f == 3) m = respell(m, s); if (f >= 2) { m = respace(m, s, 1 + (int)s(5)); static const std::vector<std::string> lead = {"", " ", "\n", "\r\n ", "\t"}; m = s.of(lead) + m + s.of(lead); }
    return m;
}
static std::string c03_junk(const Src& s) {
    static const std::vector<std::string> js = {"not json", "{\"a\":1}", "[", "[\"EVENT\"", "[1,2", "]", "\"x\"", "[\"NOTICE\"]", "[]", "[1,2]", "[\"EOSE\",\"s", "[\"EVENT\",\"nosuch\",{}]", "[\"EVENT\",\"s0\",{\"id\":\"zz\"}]", "[\"EVENT\",\"s0\",{\"id\":\"00\"}]", "[\"EVENT\",7,{}]", "[\"OK\",", "[[\"NOTICE\",\"in\"]", "[{]}", "[\"NOTICE\",\"bad\\q\"]", "\xff\xfe", "[null,null]", "[\"NOTICE\",}", "[\"a\\", "\t", "   ", "tru", "[\"EVENT\",\"nosuch\",{\"kind\":1,\"content\":\"x\",\"tags\":[]}]"};
    if (s(30) == 29) return std::string(1 + s(3000), '[');
    return s.of(js);
}
static void c03_run(int mode) {     // 0 clean, 1 allocation failures, 2 connection loss
    C03 w; w3 = &w; Src g("cfg"); Src s("srv"); sim_preempt_mode((int)g(4));
    w.sv.cfg.max_delay_ms = 20; w.sv.install();
    uint64_t mark = alloc_mark();
    Faults f; if (mode == 1) { f.alloc_at = (int)g(g(2) ? 400 : 40); f.alloc_run = (int)g.of(std::vector<int>{1, 2, 5, 40, 400}); faults_all_new_threads(f); }
    nostr_relay* r = nullptr; if (nostr_relay_create(&r, "wss://relay.example") != NOSTR_OK) violate("create", "create"); w.r = r;
    bool swaps = g(3) == 2; nostr_relay_set_message_callback(r, c03_msg, &w.a_tag);
    if (nostr_relay_connect(r, c03_state, nullptr) != NOSTR_OK) violate("connect", "connect failed");
    if (!sim_wait([&] { return r->state == NOSTR_RELAY_CONNECTED; }, 30000000)) violate("connect", "never connected");
    faults_all_new_threads(Faults());
    int conn = net_conn_count() - 1; int subs = 1 + (int)g(3); static Sub3 S[3] = {{0}, {1}, {2}};
    for (int i = 0; i < subs; i++) { std::string id = "s" + std::to_string(i); if (nostr_subscribe(r, id.c_str(), "{\"kinds\":[1]}", c03_ev, &S[i]) != NOSTR_OK) violate("subscribe", "subscribe failed"); }
    w.lossy = mode == 1;
    bool done = false;
    if (swaps) sim_spawn("swapper", [&] { Src q("swap"); int k = 0; for (int i = 0; i < 400 && !done; i++) { sim_sleep_us(1 + q.of(std::vector<uint32_t>{10, 500, 20000})); k ^= 1; nostr_relay_set_message_callback(r, k ? c03_msg2 : c03_msg, k ? &w.b_tag : &w.a_tag); count("callback_swap"); } });
    int n = 1 + (int)s(14), style = (int)g(3), junkp = (int)g(4) * 15; uint64_t t = 0;
    bool over = mode == 0 && g(120) == 119, big = mode == 0 && g(100) == 99;
    for (int i = 0; i < n; i++) {
        t += s.of(std::vector<uint32_t>{0, 0, 10, 1000, 50000});
        if (s.chance(junkp, 100)) { std::string j = s(5) ? c03_junk(s) : with_nul(c03_valid(w, s, 700 + i, false, subs), s); count("fault.junk_message"); if (s(5) == 4) { sim_after(t, [conn, j] { net_fragment(conn, j, true, false, 0); net_fragment(conn, "", false, true, 0); }); count("net.empty_fragments"); } else sim_after(t, [&w, conn, j, s, style] { w.sv.send(conn, j, s, style); }); }
        if (over && i == n / 2) { std::string j = "[\"NOTICE\",\"" + std::string(10 * 1024 * 1024 + s(100000), 'q') + "\"]"; count("fault.oversize_message"); sim_after(t, [&w, conn, j] { size_t p = 0; while (p < j.size()) { size_t c = std::min<size_t>(1 << 20, j.size() - p); net_fragment(conn, j.substr(p, c), p == 0, p + c == j.size(), 0); p += c; } }); }
        std::string m = c03_valid(w, s, i, true, subs);
        if (s(8) == 7) { m += c03_valid(w, s, 100 + i, true, subs); count("two_in_one"); }     // the client also accepts several arrays in one message
        if (big && i == n / 2) { m.insert(1, s.of(std::vector<uint32_t>{1100000, 3000000, 9000000}), s(2) ? ' ' : '\n'); count("huge_message"); sim_after(t, [conn, m] { size_t p = 0; while (p < m.size()) { size_t c = std::min<size_t>(1 << 20, m.size() - p); net_fragment(conn, m.substr(p, c), p == 0, p + c == m.size(), 0); p += c; } }); continue; }
        if (s(10) == 9) { sim_after(t, [conn] { net_fragment(conn, "", true, false, 0); }); sim_after(t, [conn, m] { net_fragment(conn, m, false, false, 0); net_fragment(conn, "", false, true, 0); }); count("net.empty_fragments"); }
        else sim_after(t, [&w, conn, m, s, style] { w.sv.send(conn, m, s, style); });
    }
    if (mode == 2) {                // the connection breaks in the middle of a message, then a new one is used
        t += 7000000; sim_sleep_us(t); std::string m = c03_valid(w, s, 900, false, subs); 
        size_t cut = 1 + s((uint32_t)m.size() - 1); bool end_ws = true; for (size_t i = cut; i < m.size(); i++) if (!strchr(" \t\r\n", m[i])) end_ws = false; if (end_ws) cut = m.size() / 2;
        if (s(3) == 2) {            // what is lost is already being dropped for want of memory
            Faults q; q.alloc_at = 0; q.alloc_run = 3; for (int i = 1; i < 64; i++) sim_set_thread_fault(i, q); net_fragment(conn, "[\"NOTICE\",\"" + std::string(20000 + s(100000), 'q'), true, false, 0); sim_sleep_us(100); if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle"); for (int i = 1; i < 64; i++) sim_set_thread_fault(i, Faults()); count("fault.loss_mid_discard"); net_peer_close(conn);
        } else { net_fragment(conn, m.substr(0, cut), true, false, 0); count("fault.loss_mid_message"); net_peer_close(conn); }
        if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle");
        int c0 = conn; if (!sim_wait([&] { return net_conn_count() > c0 + 1 && r->state == NOSTR_RELAY_CONNECTED && net_service_idle(); }, 60000000)) {
            if (nostr_relay_connect(r, c03_state, nullptr) != NOSTR_OK) violate("connect", "cannot connect again"); if (!sim_wait([&] { return r->state == NOSTR_RELAY_CONNECTED; }, 60000000)) violate("connect", "cannot connect again"); }
        conn = net_conn_count() - 1;
        for (int i = 0; i < subs; i++) { std::string id = "s" + std::to_string(i); if (nostr_subscribe(r, id.c_str(), "{\"kinds\":[1]}", c03_ev, &S[i]) != NOSTR_OK) violate("subscribe", "subscribe failed"); }
        uint64_t t2 = 0; for (int i = 0; i < 3; i++) { std::string m2 = c03_valid(w, s, 950 + i, true, subs); t2 += s(2000); int cn = conn; sim_after(t2, [&w, cn, m2, s, style] { w.sv.send(cn, m2, s, style); }); }
        t = t2;
    }
    sim_sleep_us(t + 100000);
    if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle");
    if (mode == 1) {                // memory is available again: everything sent from here on arrives
        for (int i = 0; i < 64; i++) sim_set_thread_fault(i, Faults());
        size_t before = w.want.size(); if (w.got < before) w.missed += (int)(before - w.got); w.got = before;      // lost to the failing allocations
        w.lossy = false; for (int i = 0; i < 3; i++) { std::string m = c03_valid(w, s, 500 + i, true, subs); w.sv.send(conn, m, s, style); }
        sim_sleep_us(100000); if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle");
        count("messages_lost_to_oom", w.missed);
    }
    done = true; sim_join_spawned();
    if (r->state != NOSTR_RELAY_CONNECTED) violate("state", "the relay is not CONNECTED any more (state %d)", (int)r->state);
    if (w.got != w.want.size()) violate("message-lost", "message %d of %zu (%s) never reached its callback", (int)w.got, w.want.size(), w.want[w.got].type.c_str());
    if (mode != 1 && g(4) == 3) {   // the callback installed last, before or after a disconnect, gets what the next connection brings
        for (int k = 0, nk = 1 + (int)g(2); k < nk; k++) { int when = (int)g(3), c = 1 + (int)g(2); auto put = [&] { nostr_relay_set_message_callback(r, c == 2 ? c03_msg2 : c03_msg, c == 2 ? &w.b_tag : &w.a_tag); }; w.only = 0;
            if (when == 0) put(); if (nostr_relay_disconnect(r) != NOSTR_OK) violate("disconnect", "cannot disconnect"); if (when == 1) put(); if (nostr_relay_connect(r, c03_state, nullptr) != NOSTR_OK) violate("connect", "cannot connect again"); if (!sim_wait([&] { return r->state == NOSTR_RELAY_CONNECTED; }, 60000000)) violate("connect", "cannot connect again"); if (when == 2) put(); w.only = c; conn = net_conn_count() - 1;
            for (int i = 0; i < subs; i++) { std::string id = "s" + std::to_string(i); if (nostr_subscribe(r, id.c_str(), "{\"kinds\":[1]}", c03_ev, &S[i]) != NOSTR_OK) violate("subscribe", "subscribe failed"); }
            for (int i = 0; i < 3; i++) { std::string m = c03_valid(w, s, 970 + 5 * k + i, true, subs); w.sv.send(conn, m, s, style); } sim_sleep_us(100000); if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle");
            if (w.got != w.want.size()) violate("message-lost", "message %d of %zu (%s) never reached its callback after a reconnect", (int)w.got, w.want.size(), w.want[w.got].type.c_str()); count("callback_kept"); }
    }
    nostr_relay_destroy(r);
    if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
static void c03_clean() { c03_run(0); }
static void c03_oom() { c03_run(1); }
static void c03_loss() { c03_run(2); }
WORLD(C03, clean, c03_clean)
WORLD(C03, memory, c03_oom)
WORLD(C03, loss, c03_loss)

// ================================================================ C04 subscriptions
// History checked for linearizability against: one optional registration per id.
struct Op4 { int kind; uint64_t call, ret; int reg; };        // 0 subscribe(reg) 1 unsubscribe 2 CLOSED 3 event lookup -> reg (-1: none) 4 unsubscribe that failed (may or may not act)
struct Reg4 { int no; std::string sid; };
struct C04 {
    nostr_relay* r = nullptr; Server sv; std::map<std::string, std::vector<Op4>> h; std::vector<std::unique_ptr<Reg4>> regs; std::vector<std::pair<std::string, int>> wire;   // (sid, reg or -1)
    struct Msg { bool event; std::string sid; RefEvent ev; uint64_t begin = 0, end = 0, cb = 0; int to = -1; int n = 0; }; std::vector<Msg> msgs; int cur = -1; int reent = 0; std::set<std::string> closed; bool wfault = false;
};
static C04* w4;
static void c04_ev(const nostr_event* e, void* u);
static nostr_error_t c04_sub(const std::string& sid, const Faults& f) {
    C04& w = *w4; int no = (int)w.regs.size(); w.regs.emplace_back(new Reg4{no, sid}); Reg4* g = w.regs.back().get();
    Op4 o{0, sim_seq(), 0, no}; faults() = f; nostr_error_t rc = nostr_subscribe(w.r, sid.c_str(), ("{\"limit\":" + std::to_string(no) + "}").c_str(), c04_ev, g); Faults t = faults_take(); o.ret = sim_seq();
    slog("subscribe %s reg %d -> %d", sid.c_str(), no, (int)rc);
    if (rc == NOSTR_OK) w.h[sid].push_back(o); else if (!t.fired) violate("subscribe-failed", "subscribe on an open connection failed with %d although nothing failed underneath", (int)rc);
    if (rc == NOSTR_OK && t.fired_lws) violate("write-failure-hidden", "subscribe reported success although the write failed");
    return rc;
}
static void c04_unsub(const std::string& sid, const Faults& f) {
    C04& w = *w4; Op4 o{1, sim_seq(), 0, -1}; faults() = f; nostr_error_t rc = nostr_relay_unsubscribe(w.r, sid.c_str()); Faults t = faults_take(); o.ret = sim_seq(); slog("unsubscribe %s -> %d", sid.c_str(), (int)rc);
    if (rc != NOSTR_OK) { if (!t.fired) violate("unsubscribe-failed", "unsubscribe on an open connection failed with %d although nothing failed underneath", (int)rc); o.kind = 4; }
    w.h[sid].push_back(o);
}
static void c04_ev(const nostr_event* e, void* u) {
    C04& w = *w4; Reg4* g = (Reg4*)u;
    if (w.cur < 0 || !w.msgs[w.cur].event) violate("callback-stray", "an event callback ran while no EVENT message was being handled");
    C04::Msg& m = w.msgs[w.cur];
    if (m.sid != g->sid) violate("event-misrouted", "an event for subscription %s was delivered to %s", m.sid.c_str(), g->sid.c_str());
    if (!e || !same_event(m.ev, from_lib(e))) violate("event-corrupt", "a delivered event differs from the one sent");
    if (m.n++) violate("event-delivered-twice", "one EVENT message reached %d callbacks", m.n);
    m.to = g->no; m.cb = sim_seq(); count("delivered");
    if (w.reent) { Src s("reent"); int c = (int)s(6); if (c == 1) { std::string sid = g->sid; c04_unsub(sid, Faults()); count("unsubscribe_in_callback"); } else if (c == 2) { c04_sub(g->sid, Faults()); count("subscribe_in_callback"); } }
    sim_point();
}
struct Lin4 {
    const std::vector<Op4>& o; std::set<std::pair<std::vector<bool>, int>> seen; int best = -1; long steps = 0;
    bool go(std::vector<bool>& d, int cur, size_t done) {
        if (done == o.size()) return true;
        if (++steps > 400000) return true;
        if (!seen.insert({d, cur}).second) return false;
        uint64_t minret = ~0ull; for (size_t i = 0; i < o.size(); i++) if (!d[i]) minret = std::min(minret, o[i].ret);
        for (size_t i = 0; i < o.size(); i++) if (!d[i] && o[i].call <= minret) {
            int nx[2], n = 0;
            switch (o[i].kind) { case 0: nx[n++] = o[i].reg; break; case 1: case 2: nx[n++] = -1; break; case 4: nx[n++] = -1; nx[n++] = cur; break; case 3: if (o[i].reg == cur) nx[n++] = cur; break; }
            for (int k = 0; k < n; k++) { d[i] = true; if (go(d, nx[k], done + 1)) return true; d[i] = false; }
        }
        return false;
    }
};
static void c04_world() {
    C04 w; w4 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); w.sv.cfg.max_delay_ms = 5; w.sv.install(); w.reent = (int)g(2); w.wfault = g(2); int oom = (int)g(2);
    w.sv.data = [&](int, const std::string& d) { J j; if (!jparse(d, j) || !j.is(J::ARR) || j.a.size() < 2) violate("wire-malformed", "sent %.200s", d.c_str()); if (j.a[0].s == "REQ") { const J* l = j.a.size() == 3 ? j.a[2].get("limit") : nullptr; if (!l) violate("wire-malformed", "REQ without its filter: %.200s", d.c_str()); w.wire.push_back({j.a[1].s, (int)l->n}); } else if (j.a[0].s == "CLOSE") w.wire.push_back({j.a[1].s, -1}); else violate("wire-malformed", "unexpected %.200s", d.c_str()); };
    int started = 0; g_net.on_recv = [&](int, bool b) { if (b) { w.cur = started++; if (w.cur >= (int)w.msgs.size()) violate("harness", "unknown message"); w.msgs[w.cur].begin = sim_seq(); } else { w.msgs[w.cur].end = sim_seq(); w.cur = -1; } };
    uint64_t mark = alloc_mark(); nostr_relay* r = nullptr; if (nostr_relay_create(&r, "wss://relay.example") != NOSTR_OK) violate("create", "create"); w.r = r;
    if (nostr_relay_connect(r, [](nostr_relay*, nostr_relay_state, void*) {}, nullptr) != NOSTR_OK) violate("connect", "connect failed");
    if (!sim_wait([&] { return r->state == NOSTR_RELAY_CONNECTED; }, 30000000)) violate("connect", "never connected");
    int ids = 1 + (int)g(3), nthreads = 1 + (int)g(3); Src s("srv"); int nev = 2 + (int)s(16); uint64_t t = 0; std::vector<std::string> names = {"s0", "s", "s0x"}; if (s(3) == 2) { std::string b(s.of(std::vector<uint32_t>{31, 62, 63, 64, 65, 127, 200, 254, 255}), s(2) ? 'p' : '7'); names = {b + "0", b, b + "1"}; count("long_ids"); }
    bool closes = s(3) == 2; uint64_t span = s.of(std::vector<uint32_t>{100, 2000, 50000});
    for (int i = 0; i < nev; i++) { t = span / 8 * s(8); C04::Msg m; m.event = !(closes && s(5) == 4); m.sid = names[s(ids)]; m.ev = small_event(s, i); sim_after(t, [&w, m] { w.msgs.push_back(m); if (!m.event) w.closed.insert(m.sid); net_fragment(0, m.event ? "[\"EVENT\"," + jstr(m.sid) + "," + m.ev.json() + "]" : "[\"CLOSED\"," + jstr(m.sid) + ",\"x\"]", true, true, 0); }); }
    for (int k = 0; k < nthreads; k++) sim_spawn("app", [&, k] {
        Src a = src("app", k); int n = 1 + (int)a(7);
        for (int i = 0; i < n; i++) { uint32_t z = a(4); if (z) sim_sleep_us(span / 8 * z); std::string sid = names[a(ids)]; Faults f; if (w.wfault && a(6) == 5) f.lws_at = 0; if (oom && a(5) == 4) f.alloc_at = (int)a(10); if (a(3) != 2) c04_sub(sid, f); else c04_unsub(sid, f); }
    });
    sim_join_spawned(); sim_sleep_us(span + 1000); if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle");
    // probes: with everything quiet the registrations match the last request on the wire
    w.reent = 0;
    for (int i = 0; i < ids; i++) { C04::Msg m; m.event = true; m.sid = names[i]; m.ev = small_event(s, 1000 + i); w.msgs.push_back(m); net_fragment(0, "[\"EVENT\"," + jstr(m.sid) + "," + m.ev.json() + "]", true, true, 0); }
    sim_sleep_us(1000); if (!sim_wait([] { return net_service_idle(); }, 4000000000ull)) violate("stuck", "the service thread never became idle");
    if (started != (int)w.msgs.size()) violate("stuck", "only %d of %zu messages were handled", started, w.msgs.size());
    std::map<std::string, int> last; for (auto& p : w.wire) last[p.first] = p.second;
    std::set<std::string> unsure; for (auto& p : w.h) for (auto& o : p.second) if (o.kind == 4) unsure.insert(p.first);
    for (int i = 0; i < ids; i++) { C04::Msg& m = w.msgs[w.msgs.size() - ids + i]; if (w.closed.count(m.sid) || unsure.count(m.sid)) continue; int lw = last.count(m.sid) ? last[m.sid] : -1; if (lw != m.to) violate("wire-vs-registration", "the last message to the relay for subscription %s was %s, but an event for it reaches %s", m.sid.c_str(), lw < 0 ? "CLOSE" : ("REQ of registration " + std::to_string(lw)).c_str(), m.to < 0 ? "no callback" : ("registration " + std::to_string(m.to)).c_str()); }
    for (auto& m : w.msgs) w.h[m.sid].push_back(m.event ? Op4{3, m.begin, m.to >= 0 ? m.cb : m.end, m.to} : Op4{2, m.begin, m.end, -1});
    for (auto& p : w.h) { Lin4 L{p.second, {}, -1, 0}; std::vector<bool> d(p.second.size()); if (!L.go(d, -1, 0)) { std::string t; auto v = p.second; std::sort(v.begin(), v.end(), [](const Op4& a, const Op4& b) { return a.call < b.call; }); for (auto& o : v) t += std::string("\n  [") + std::to_string(o.call) + "," + std::to_string(o.ret) + "] " + (o.kind == 0 ? "subscribe" : o.kind == 1 ? "unsubscribe" : o.kind == 2 ? "CLOSED" : o.kind == 4 ? "unsubscribe(failed)" : "event to") + " " + std::to_string(o.reg); violate("subscription-history", "no order of the subscription operations explains where the events for %s went:%s", p.first.c_str(), t.c_str()); } if (L.steps > 400000) count("lin_budget"); }
    nostr_relay_destroy(r);
    if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C04, subs, c04_world)

// ================================================================ C05 what goes onto the wire
struct C05 {
    struct R { nostr_relay* r = nullptr; }; std::vector<R> rs; Server sv; std::map<int, int> conn_relay; struct Frame { int relay; std::string text; bool used = false; uint64_t seq; }; std::vector<Frame> frames; int uniq = 0;
};
static void c05_ev(const nostr_event*, void*) {}
static void c05_app(C05& w, int id, bool faulty) {
    Src s = src("app", id); int n = 3 + (int)s(14);
    static const std::vector<std::string> badids = {"", "a\"b", "x\\", "a\nb", std::string(257, 'x'), "\",{}],[\"CLOSE\",\"q"};
    static const std::vector<std::string> bad = {"", "{", "{}]", "{}],[\"CLOSE\",\"x\"", "{} x", "{},", "]", "{}]]", "{}] ,{}", "{\"a\":}", "nonsense", "{\"kinds\":[1}", ",{}"};
    for (int i = 0; i < n; i++) {
        if (s(3) == 2) sim_sleep_us(s.of(std::vector<uint32_t>{1, 1000, 40000}));
        int k = (int)s((uint32_t)w.rs.size()); nostr_relay* r = w.rs[k].r; int u = ++w.uniq; std::string mark = "m" + std::to_string(u) + "_"; int op = (int)s(6); std::string what, want; bool mustfail = false; nostr_error_t rc;
        Faults f; if (faulty && s(3) == 2) { if (s(2)) { f.lws_at = 0; } else { f.alloc_at = (int)s(s(2) ? 60 : 6); f.alloc_run = s(4) == 3 ? 100 : 1; } }
        size_t f0 = w.frames.size(); bool before = r->state == NOSTR_RELAY_CONNECTED;
        if (op <= 2) {
            RefEvent e = small_event(s, u); e.content += mark; if (s(20) == 19) e.content += std::string(s(200000), 'z'); e.seal_fake(key_no(2)); nostr_event* ev = make_event(e); what = "event"; want = "[\"EVENT\"," + e.json() + "]";
            faults() = f; rc = op == 2 ? nostr_publish_event(r, ev) : nostr_relay_send_event(r, ev); f = faults_take(); nostr_event_destroy(ev);
        } else if (op == 3 || op == 4) {
            std::string sid = mark + gen_text(s, 3), fl = random_filter(s); std::string t; for (char c : sid) if (c != '"' && c != '\\' && (unsigned char)c >= 0x20) t += c; sid = t;
            int z = (int)s(8); if (z == 7) fl += ",{\"limit\":" + std::to_string(u) + "}"; if (z == 6) { fl = s.of(bad); if (!fl.empty()) fl += mark[0] == 'm' ? "" : ""; mustfail = true; } if (z == 5) { sid = s.of(badids); mustfail = true; } if (z == 4) { sid = mark + std::string(256 - mark.size(), 'y'); }
            what = "subscribe " + sid + " " + fl; want = "[\"REQ\"," + jstr(sid) + "," + fl + "]";
            faults() = f; rc = nostr_subscribe(r, sid.c_str(), fl.c_str(), c05_ev, nullptr); f = faults_take();
        } else { std::string sid = s(6) == 5 ? s.of(badids) : mark + "q"; for (auto& b : badids) if (sid == b) mustfail = true; what = "unsubscribe " + sid; want = "[\"CLOSE\"," + jstr(sid) + "]"; faults() = f; rc = nostr_relay_unsubscribe(r, sid.c_str()); f = faults_take(); }
        // match the frames that appeared since
        J wj; bool wok = jparse(want, wj); int hits = 0;
        for (size_t q = f0; q < w.frames.size(); q++) { auto& fr = w.frames[q]; if (fr.used) continue; J j; if (!jparse(fr.text, j)) violate("wire-malformed", "a message that is not JSON was sent: %.300s", fr.text.c_str()); if (wok && jeq(j, wj)) { hits++; fr.used = true; if (fr.relay != k) violate("wire-wrong-relay", "%s for relay %d went to relay %d", what.c_str(), k, fr.relay); } }
        slog("app %d %s -> %d hits %d fired %d", id, what.c_str(), (int)rc, hits, f.fired); count(rc == NOSTR_OK ? "ok" : "refused");
        if (rc == NOSTR_OK && mustfail) violate("accepted-invalid", "an invalid request was accepted: %s", what.c_str());
        if (rc == NOSTR_OK && hits != 1) violate("wire-lost", "%s reported success but %d matching messages reached the relay; sent: %.300s", what.c_str(), hits, f0 < w.frames.size() ? w.frames.back().text.c_str() : "nothing");
        if (rc != NOSTR_OK && hits) violate("wire-extra", "%s failed with %d but its message reached the relay", what.c_str(), (int)rc);
        if (rc != NOSTR_OK && !mustfail && !f.fired && before && r->state == NOSTR_RELAY_CONNECTED && w.sv.cfg.close_live == 0) violate("wire-refused", "%s on an open connection failed with %d", what.c_str(), (int)rc);
        if (rc == NOSTR_OK && f.fired_lws) violate("write-failure-hidden", "%s reported success although the write failed", what.c_str());
    }
}
static void c05_world() {
    C05 w; Src g("cfg"); sim_preempt_mode((int)g(4)); int nr = 1 + (int)g(3), na = 1 + (int)g(3); w.sv.cfg.max_delay_ms = 10; w.sv.cfg.close_live = g(3) == 2 ? 80 : 0; w.sv.install();
    w.sv.data = [&](int id, const std::string& d) { if (d.find("\1BADTYPE") == 0) violate("wire-malformed", "a message was not sent as text"); if (!utf8_ok(d)) violate("wire-malformed", "a message is not UTF-8"); w.frames.push_back({w.conn_relay.count(id) ? w.conn_relay[id] : -1, d, false, sim_seq()}); if (d.size() > 1000) count("big_message"); };
    auto oc = g_net.on_connect; g_net.on_connect = [&, oc](int id) { w.conn_relay[id] = atoi(net_conn(id)->address.c_str() + 1); oc(id); };
    uint64_t mark = alloc_mark();
    for (int i = 0; i < nr; i++) { C05::R x; if (nostr_relay_create(&x.r, ("ws://r" + std::to_string(i) + ".example").c_str()) != NOSTR_OK) violate("create", "create"); if (nostr_relay_connect(x.r, [](nostr_relay*, nostr_relay_state, void*) {}, nullptr) != NOSTR_OK) violate("connect", "connect"); w.rs.push_back(x); }
    sim_wait([&] { for (auto& x : w.rs) if (x.r->state != NOSTR_RELAY_CONNECTED) return false; return true; }, 5000000);
    bool faulty = g(2);
    for (int a = 0; a < na; a++) sim_spawn("app", [&, a] { c05_app(w, a, faulty); });
    sim_join_spawned();
    for (auto& f : w.frames) if (!f.used) violate("wire-extra", "a message nobody asked for was sent: %.300s", f.text.c_str());
    for (auto& x : w.rs) nostr_relay_destroy(x.r);
    if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C05, wire, c05_world)
