// Relay client worlds (C01 lifecycle, C02 state, C03 receive, C04 subscriptions, C05 wire)
#include "relay_server.h"

// ================================================================ C01 lifecycle
struct App1 {
    int id; nostr_relay* r = nullptr; bool allow = false; bool strict = true; Server* sv; Src s; int reent; int events = 0, states = 0, msgs = 0; nostr_event* ev = nullptr; bool single = false;
    App1(int i, Server* v) : id(i), sv(v), s(src("app", i)) {}
};
static void c01_ev(const nostr_event* e, void* u) {
    App1* a = (App1*)u; sim_point();
    if (!a->allow) violate("callback-after-disconnect", "an event callback ran after the relay had been disconnected");
    if (!e || !e->content) violate("callback-bad-event", "an event callback was given an unusable event");
    size_t n = strlen(e->content); (void)n; a->events++;
    Src s = src("cbev", a->id);
    if (a->reent & 1) switch (s(5)) { case 0: nostr_relay_unsubscribe(a->r, "s0"); break; case 1: nostr_relay_send_event(a->r, e); break; case 2: nostr_subscribe(a->r, "s0", "{}", c01_ev, a); break; default: break; }
    sim_point();
}
static void c01_msg(const char* t, const char* d, void* u) { App1* a = (App1*)u; if (!a->allow) violate("callback-after-disconnect", "a message callback ran after the relay had been disconnected"); if (!t || !d) violate("callback-bad-message", "NULL message"); a->msgs += (int)(strlen(t) + strlen(d) > 0); if (a->reent & 2) { Src s = src("cbmsg", a->id); if (s(3) == 1) nostr_relay_unsubscribe(a->r, "s1"); } }
static void c01_state(nostr_relay* r, nostr_relay_state st, void* u) {
    App1* a = (App1*)u; a->states++; slog("app %d state %d", a->id, (int)st);
    if (!a->allow) violate("callback-after-disconnect", "a state callback (%d) ran after the relay had been disconnected or destroyed", (int)st);
    if (r != a->r && a->r) violate("callback-wrong-relay", "state callback for a different relay");
    if ((a->reent & 4) && st == NOSTR_RELAY_CONNECTED) nostr_subscribe(r, "s0", "{}", c01_ev, a);
    if ((a->reent & 8) && st == NOSTR_RELAY_DISCONNECTED) nostr_relay_send_event(r, a->ev);
}
static void c01_plan_fault(const Src& s, int kinds) {
    Faults& f = faults(); f = Faults();
    if (!kinds || !s.chance(1, 3)) return;
    std::vector<int> ks; for (int i = 0; i < 5; i++) if (kinds >> i & 1) ks.push_back(i);
    switch (s.of(ks)) { case 0: f.alloc_at = (int)s(8); f.alloc_run = s(3) == 2 ? 4 : 1; break; case 1: f.thread_at = 0; break; case 2: f.mutex_at = 0; break; case 3: f.lws_at = (int)s(3); break; case 4: f.alloc_at = (int)s(40); break; }
}
static void c01_app(App1* a, int faultkinds) {
    const Src& s = a->s; int n = 3 + (int)s(14);
    static const std::vector<const char*> urls = {"wss://relay.example", "ws://relay.example/path", "wss://r/", "http://nope", "ws://h:7777/x"};
    auto down = [&] { if (a->single) {
            if (sim_live_library_threads()) violate("thread-leak", "the service thread outlived disconnect/destroy");
            if (net_live_contexts()) violate("context-leak", "a websocket context outlived disconnect/destroy");
        } };
    for (int i = 0; i < n; i++) {
        int op = (int)s(14); nostr_error_t rc = NOSTR_OK;
        if (!a->r && op != 0) { if (op > 8) continue; op = 0; }
        bool plan = op != 6 && op != 9 && op != 10 && op != 11;
        if (plan) c01_plan_fault(s, faultkinds);
        switch (op) {
        case 0: if (a->r) { faults() = Faults(); break; } { a->r = (nostr_relay*)0; nostr_relay* r = nullptr; const char* u = s(4) ? urls[s(2)] : s.of(urls); rc = nostr_relay_create(&r, u); if (rc == NOSTR_OK) { if (!r) violate("create-null", "create succeeded without a relay"); a->r = r; if (r->state != NOSTR_RELAY_DISCONNECTED) violate("create-state", "a new relay is not DISCONNECTED"); } } break;
        case 1: case 2: case 3: { a->allow = true; nostr_relay_state st = a->r->state; rc = nostr_relay_connect(a->r, c01_state, a);
            if (rc != NOSTR_OK && st != NOSTR_RELAY_CONNECTED && st != NOSTR_RELAY_CONNECTING) {
                // a failed attempt on an idle relay leaves nothing behind
                if (a->single && a->r->state != NOSTR_RELAY_CONNECTED && a->r->state != NOSTR_RELAY_CONNECTING) { if (sim_live_library_threads()) violate("thread-leak", "a failed connect left a service thread"); if (net_live_contexts()) violate("context-leak", "a failed connect left a websocket context"); }
                a->allow = a->r->state == NOSTR_RELAY_CONNECTED || a->r->state == NOSTR_RELAY_CONNECTING;
            } } break;
        case 4: rc = nostr_relay_send_event(a->r, a->ev); break;
        case 5: { std::string id = "s" + std::to_string(s(3)); rc = nostr_subscribe(a->r, id.c_str(), "{\"kinds\":[1]}", c01_ev, a); } break;
        case 6: { std::string id = "s" + std::to_string(s(3)); rc = nostr_relay_unsubscribe(a->r, id.c_str()); } break;
        case 7: rc = nostr_relay_set_message_callback(a->r, s(3) ? c01_msg : nullptr, a); break;
        case 8: case 12: rc = nostr_relay_disconnect(a->r); if (rc == NOSTR_OK) { a->allow = false; down(); if (a->r->state != NOSTR_RELAY_DISCONNECTED) violate("disconnect-state", "state %d after disconnect", (int)a->r->state); } break;
        case 9: sim_sleep_us(s.of(std::vector<uint32_t>{1, 1000, 50000, 1000000, 6000000, 30000000})); break;
        case 10: case 11: { nostr_relay* r = a->r; sim_wait([r] { return r->state == NOSTR_RELAY_CONNECTED; }, 3000000); } break;
        case 13: nostr_relay_destroy(a->r); a->r = nullptr; a->allow = false; down(); break;
        }
        Faults f = faults_take();
        slog("app %d op %d -> %d (fired %d)", a->id, op, (int)rc, f.fired);
        if (rc != NOSTR_OK && rc != NOSTR_ERR_INVALID_PARAM && rc != NOSTR_ERR_MEMORY && rc != NOSTR_ERR_CONNECTION && f.fired == 0) violate("odd-error", "op %d returned %d without any fault", op, (int)rc);
    }
    faults() = Faults();
    if (a->r) { nostr_relay_destroy(a->r); a->r = nullptr; a->allow = false; down(); }
}
static void c01_world() {
    Src s("cfg"); Server sv; sv.cfg = {s(4) == 3 ? 50 : (int)s(20), (int)s(20), (int)s(4) * 30, 1 + (int)s(400)};
    sim_preempt_mode((int)s(4));
    int napps = s(4) == 3 ? 2 : 1; int kinds = s(2) ? (int)s(32) : 0; int reent = (int)s(16);
    nostr_event* ev = nullptr; RefEvent re = small_event(s, 1); ev = make_event(re);
    uint64_t mark = alloc_mark();
    sv.data = [&](int id, const std::string& d) {
        Src t = src("srv", id);
        if (d.compare(0, 6, "[\"REQ\"") == 0) { J j; if (jparse(d, j) && j.a.size() > 1) { std::string sid = j.a[1].s; int n = (int)t(6); for (int i = 0; i < n; i++) { uint64_t dl = 1000 * t(t(3) == 2 ? 4000 : 50); std::string m = t(5) == 4 ? "[\"CLOSED\"," + jstr(sid) + ",\"bye\"]" : "[\"EVENT\"," + jstr(sid) + "," + small_event(t, i).json() + "]"; sim_after(dl, [&sv, id, m, t] { sv.send(id, m, t, 2); }); } sim_after(60000, [&sv, id, sid, t] { sv.send(id, "[\"EOSE\"," + jstr(sid) + "]", t, 0); }); } }
        else if (d.compare(0, 8, "[\"EVENT\"") == 0) { sim_after(1000 * t(50), [&sv, id, t] { sv.send(id, "[\"OK\",\"00\",true,\"\"]", t, 1); }); }
    };
    sv.install();
    std::vector<std::unique_ptr<App1>> apps;
    for (int i = 0; i < napps; i++) { apps.emplace_back(new App1(i, &sv)); apps.back()->single = napps == 1; apps.back()->reent = reent; apps.back()->ev = ev; }
    for (auto& a : apps) { App1* p = a.get(); sim_spawn("app", [p, kinds] { c01_app(p, kinds); }); }
    sim_join_spawned();
    for (auto& a : apps) { count("cb.event", a->events); count("cb.state", a->states); count("cb.msg", a->msgs); }
    sim_sleep_us(100000000);          // anything still alive would act now
    if (sim_live_library_threads()) violate("thread-leak", "%d service threads left after every relay was destroyed", sim_live_library_threads());
    if (net_live_contexts()) violate("context-leak", "%d websocket contexts left after every relay was destroyed", net_live_contexts());
    if (live_since(mark)) violate("memory-leak", "%zu allocations left after every relay was destroyed: %s", live_since(mark), describe_live(mark).c_str());
    nostr_event_destroy(ev);
}
WORLD(C01, lifecycle, c01_world)

// ================================================================ C02 reported state
struct C02 {
    nostr_relay* r = nullptr; Server sv; std::string log; int nC = 0, nD = 0, nc = 0, last = -1; bool in_api = false, in_disconnect = false; std::map<int, int> d_at; uint64_t last_try = 0; int want_attempts = 0, failed = 0, d_failed = -1; bool may_fail = false;
    int open() { int n = 0; for (int i = 0; i < net_conn_count(); i++) if (!net_conn(i)->dead && net_conn(i)->open) n++; return n; }
    int pending() { int n = 0; for (int i = 0; i < net_conn_count(); i++) if (!net_conn(i)->dead && !net_conn(i)->open) n++; return n; }
};
static void c02_state(nostr_relay* r, nostr_relay_state st, void* u) {
    C02* w = (C02*)u; slog("state callback %d", (int)st); w->log += "DcCE"[st]; sim_point();
    if (r != w->r) violate("callback-wrong-relay", "state callback for a different relay");
    if (st == NOSTR_RELAY_CONNECTED) { w->nC++; if (!w->open()) violate("connected-without-connection", "CONNECTED was reported while no connection is open"); if (w->nc == 0) violate("connected-before-connecting", "CONNECTED was reported before CONNECTING (%s)", w->log.c_str()); w->nc = 0; }
    else if (st == NOSTR_RELAY_CONNECTING) { w->nc++; if (w->last == NOSTR_RELAY_CONNECTED) violate("connecting-after-connected", "CONNECTING was reported after CONNECTED without a loss in between (%s)", w->log.c_str()); }
    else if (st == NOSTR_RELAY_DISCONNECTED) { w->nD++; w->nc = 0; if (w->open()) violate("disconnected-with-connection", "DISCONNECTED was reported while a connection is open (%s)", w->log.c_str()); }
    w->last = st;
}
static void c02_check(C02& w, const char* when) {
    if (!sim_wait([] { return net_service_idle(); }, 200000000)) violate("stuck", "the service thread never became idle");
    int o = w.open(), p = w.pending(); nostr_relay_state st = w.r->state;
    if (w.sv.attempts < w.want_attempts) violate("not-retried", "a connection lost long after the previous attempt was not retried (%s, callbacks %s)", when, w.log.c_str());
    if (w.d_failed >= 0) { if (w.nD == w.d_failed) violate("failure-unreported", "an attempt to connect again failed but DISCONNECTED was not reported (%s, callbacks %s)", when, w.log.c_str()); w.d_failed = -1; }
    if (o + p > 1) violate("two-connections", "%d connections are open or pending at once (%s)", o + p, when);
    if (o && st != NOSTR_RELAY_CONNECTED) violate("state-not-connected", "a connection is open but the relay reports state %d (%s, callbacks %s)", (int)st, when, w.log.c_str());
    if (!o && st == NOSTR_RELAY_CONNECTED) violate("state-stale-connected", "no connection is open but the relay reports CONNECTED (%s, callbacks %s)", when, w.log.c_str());
    if (!o && !p && st == NOSTR_RELAY_CONNECTING) violate("state-stuck-connecting", "no connection attempt is in progress but the relay reports CONNECTING (%s, callbacks %s)", when, w.log.c_str());
    if (p && st != NOSTR_RELAY_CONNECTING) violate("state-not-connecting", "a connection attempt is in progress but the relay reports state %d (%s)", (int)st, when);
    if (w.nC != w.sv.opened) violate("connected-count", "%d connections were established but CONNECTED was reported %d times (%s)", w.sv.opened, w.nC, when);
}
static void c02_world() {
    C02 w; Src s("app"); Src g("cfg");
    w.sv.cfg = {(int)g(4) * 20, (int)g(3) * 10, (int)g(4) * 33, 1 + (int)g(300)}; w.sv.install(); sim_preempt_mode((int)g(4));
    struct Url { const char* u; const char* host; int port; int ssl; const char* path; };
    static const std::vector<Url> urls = {{"wss://relay.example", "relay.example", 443, 1, ""}, {"ws://relay.example", "relay.example", 80, 0, ""}, {"wss://a.b.example/nostr/x?y=1", "a.b.example", 443, 1, "nostr/x?y=1"}, {"ws://10.0.0.1/", "10.0.0.1", 80, 0, ""}, {"ws://localhost:7777", "localhost", 7777, 0, ""}, {"wss://relay.example:8443/p", "relay.example", 8443, 1, "p"}, {"ws://h:1/", "h", 1, 0, ""}, {"wss://h.example:65535/a:9/b?c=d:80", "h.example", 65535, 1, "a:9/b?c=d:80"}, {"ws://h.example/a:81", "h.example", 80, 0, "a:81"}};
    const Url& U = urls[g((uint32_t)urls.size())];
    auto oc = g_net.on_connect; g_net.on_connect = [&w, oc](int id) { if (w.in_disconnect && sim_self() == 0) violate("reconnect-in-disconnect", "a disconnect starts a new connection attempt (callbacks %s)", w.log.c_str()); if (!w.in_api) { count("auto_reconnects"); if (w.last_try && sim_now_us() - w.last_try < 3900000) violate("retry-too-soon", "a lost connection was retried %.3f s after the previous attempt (callbacks %s)", (sim_now_us() - w.last_try) / 1e6, w.log.c_str()); } w.last_try = sim_now_us(); w.d_at[id] = w.nD; oc(id); };
    auto cl = g_net.on_closed; g_net.on_closed = [&w, cl](int id) { cl(id); if (!w.in_api && sim_now_us() - w.last_try > 6100000) w.want_attempts = w.sv.attempts + 1; if (!w.in_api && w.d_at.count(id) && w.nD == w.d_at[id]) violate("loss-unreported", "a connection ended but DISCONNECTED was not reported (callbacks %s)", w.log.c_str()); if (w.nD > w.sv.lost + w.failed) violate("loss-reported-twice", "%d connections ended but DISCONNECTED was reported %d times", w.sv.lost, w.nD); };
    Src fr("failing"); w.may_fail = g(3) == 2;
    g_net.fail_connect = [&w, fr] { if (!w.may_fail || w.in_api || !w.sv.faults_on || fr(2)) return false; if (w.last_try && sim_now_us() - w.last_try < 3900000) violate("retry-too-soon", "a lost connection was retried %.3f s after the previous attempt (callbacks %s)", (sim_now_us() - w.last_try) / 1e6, w.log.c_str()); w.last_try = sim_now_us(); w.sv.attempts++; w.failed++; w.d_failed = w.nD; return true; };
    uint64_t mark = alloc_mark();
    nostr_relay* r = nullptr; if (nostr_relay_create(&r, U.u) != NOSTR_OK) violate("create", "create failed"); w.r = r;
    std::vector<std::string> got; w.sv.data = [&](int, const std::string& d) { got.push_back(d); };
    RefEvent re = small_event(g, 7); nostr_event* ev = make_event(re);
    if (g(4) == 3) {
        static const std::vector<const char*> wrong = {"ws://h:0", "ws://h:65536/x", "wss://h:99999999999999999999", "ws://h:/x", "wss://h:8o", "ws://h:80x/", "ws://h:-1", "http://h", "h.example", "", "WSX://h", "ws:/h", "wss:h"};
        nostr_relay* q = nullptr; const char* u = g.of(wrong); if (nostr_relay_create(&q, u) != NOSTR_OK) violate("create", "create failed"); int a = w.sv.attempts; w.in_api = true; nostr_error_t rc = nostr_relay_connect(q, [](nostr_relay*, nostr_relay_state, void*) {}, nullptr); w.in_api = false;
        if (rc == NOSTR_OK || w.sv.attempts != a) violate("connect-target", "the url %s connects somewhere", u); if (q->state == NOSTR_RELAY_CONNECTED || q->state == NOSTR_RELAY_CONNECTING) violate("state-after-failed-connect", "connect failed but the relay reports state %d", (int)q->state); nostr_relay_destroy(q); count("url_refused");
    }
    int n = 3 + (int)s(14);
    for (int i = 0; i < n; i++) {
        int op = (int)s(10); nostr_error_t rc = NOSTR_OK;
        switch (op) {
        case 0: case 1: case 2: {
            nostr_relay_state st0 = r->state; int a0 = w.sv.attempts; bool lf = s(12) == 11, tf = s(12) == 11;
            if (lf) faults().lws_at = (int)s(2); if (tf) faults().thread_at = 0;
            w.last = w.last == NOSTR_RELAY_CONNECTED && st0 != NOSTR_RELAY_CONNECTED ? (int)st0 : w.last; if (st0 != NOSTR_RELAY_CONNECTED && st0 != NOSTR_RELAY_CONNECTING) w.nc = 0;
            w.in_api = true; rc = nostr_relay_connect(r, c02_state, &w); w.in_api = false; w.want_attempts = 0; Faults f = faults_take(); slog("connect -> %d", (int)rc);
            if (rc == NOSTR_OK) {
                if (f.fired) violate("connect-fault-ignored", "connect reported success although a call it needs failed");
                NetConn* c = net_conn(net_conn_count() - 1);
                if (w.sv.attempts == a0) violate("connect-no-attempt", "connect succeeded without starting a connection");
                std::string p = c->path; if (!p.empty() && p[0] == '/') p.erase(0, 1);
                if (c->address != U.host || c->port != U.port || (c->ssl != 0) != (U.ssl != 0) || p != U.path) violate("connect-target", "url %s connected to %s:%d ssl=%d path=/%s", U.u, c->address.c_str(), c->port, c->ssl, p.c_str());
                if (!strcmp(c->host.c_str(), "") ) violate("connect-target", "no Host header");
            } else if (!f.fired && st0 != NOSTR_RELAY_CONNECTED && st0 != NOSTR_RELAY_CONNECTING) {
                // the service thread may have moved on since we looked; only a settled idle relay must accept
                if (w.sv.attempts == a0) violate("connect-refused-idle", "connect failed with %d on an idle relay (state %d)", (int)rc, (int)st0);
            }
            if (rc != NOSTR_OK && f.fired && (r->state == NOSTR_RELAY_CONNECTED || r->state == NOSTR_RELAY_CONNECTING) && st0 != NOSTR_RELAY_CONNECTED && st0 != NOSTR_RELAY_CONNECTING) violate("state-after-failed-connect", "connect failed but the relay reports state %d", (int)r->state);
            break; }
        case 3: { w.in_api = w.in_disconnect = true; rc = nostr_relay_disconnect(r); w.in_api = w.in_disconnect = false; w.want_attempts = 0; slog("disconnect -> %d", (int)rc); if (rc == NOSTR_OK) { if (r->state != NOSTR_RELAY_DISCONNECTED) violate("disconnect-state", "state %d after disconnect", (int)r->state); if (w.open() + w.pending()) violate("disconnect-left-open", "a connection survives disconnect"); int a = w.sv.attempts; sim_sleep_us(20000000); if (w.sv.attempts != a) violate("reconnect-after-disconnect", "a new connection was attempted after an explicit disconnect"); w.last = -1; w.nc = 0; } break; }
        case 4: case 5: sim_sleep_us(s.of(std::vector<uint32_t>{1000, 100000, 1000000, 5500000, 20000000})); break;
        case 6: { sim_wait([&] { return w.open() > 0; }, 5000000); break; }
        case 7: case 8: {
            if (!sim_wait([] { return net_service_idle(); }, 200000000)) violate("stuck", "the service thread never became idle");
            int o = w.open(), o0 = w.sv.opened, l0 = w.sv.lost; size_t g0 = got.size(); rc = op == 7 ? nostr_relay_send_event(r, ev) : nostr_subscribe(r, "s", "{}", nullptr, nullptr); slog("send -> %d", (int)rc);
            if (!o && w.sv.opened == o0 && rc == NOSTR_OK) violate("send-into-void", "a send on a relay without a connection reported success");
            if (o && w.sv.opened == o0 && w.sv.lost == l0 && w.open() && rc != NOSTR_OK) violate("send-refused", "a send on an open connection failed with %d", (int)rc);
            if (rc == NOSTR_OK && got.size() == g0) violate("send-lost", "a send reported success but nothing reached the network");
            break; }
        case 9: if (w.open()) { for (int k = 0; k < net_conn_count(); k++) if (!net_conn(k)->dead && net_conn(k)->open) { count("fault.peer_close"); net_peer_close(k); } } break;
        }
        if (s(2)) c02_check(w, ("after op " + std::to_string(op)).c_str());
    }
    // faults stop: the relay becomes usable again within a bounded time
    w.sv.faults_on = false;
    c02_check(w, "before recovery");
    bool up = false;
    for (int k = 0; k < 6 && !up; k++) {
        if (!sim_wait([&] { return r->state != NOSTR_RELAY_CONNECTING; }, 40000000)) violate("state-stuck-connecting", "still CONNECTING 40 s after the faults stopped (%s)", w.log.c_str());
        if (r->state != NOSTR_RELAY_CONNECTED) { w.nc = 0; w.last = -1; w.in_api = true; nostr_error_t rc = nostr_relay_connect(r, c02_state, &w); w.in_api = false; w.want_attempts = 0; slog("recover connect -> %d", (int)rc); if (rc != NOSTR_OK && w.open() + w.pending() == 0) violate("not-recoverable", "connect fails with %d after the faults stopped (state %d)", (int)rc, (int)r->state); sim_wait([&] { return w.open() > 0; }, 20000000); sim_wait([] { return net_service_idle(); }, 20000000); }
        up = r->state == NOSTR_RELAY_CONNECTED && w.open() > 0 && nostr_relay_send_event(r, ev) == NOSTR_OK;
        if (!up) sim_sleep_us(1000000);
    }
    if (!up) violate("not-recoverable", "the relay cannot be used again after the faults stopped (state %d, callbacks %s)", (int)r->state, w.log.c_str());
    c02_check(w, "after recovery");
    w.in_api = true; nostr_relay_destroy(r); nostr_event_destroy(ev);
    if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
    if (sim_live_library_threads() || net_live_contexts()) violate("thread-leak", "threads or contexts left after destroy");
}
WORLD(C02, state, c02_world)
