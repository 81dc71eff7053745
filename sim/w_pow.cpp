// C13: proof of work — a mined event carries the work it claims, whatever the threads and the clock do
#include "op.h"
static int zeros(const std::string& id) { int n = 0; for (unsigned char c : id) { if (!c) { n += 8; continue; } while (!(c & 0x80)) { n++; c = (unsigned char)(c << 1); } break; } return n; }
struct C13 { int pct = 0, kinds = 0, cpus = 1; int actors = 1; bool workers_fail = false; bool jumped = false; std::vector<std::pair<int64_t, int64_t>> wall; };
static C13* w13;
static void wall_note() { int64_t t = sim_wall(); auto& v = w13->wall; if (v.empty() || t < v.back().first) v.push_back({t, t}); v.back().second = std::max(v.back().second, t); }
static void clock_jump(int64_t d) { wall_note(); sim_clock_jump(d); int64_t t = sim_wall(); w13->wall.push_back({t, t}); w13->jumped = true; count("fault.clock_jump"); }
static int nonce_at(const RefEvent& r) { for (size_t i = 0; i < r.tags.size(); i++) if (!r.tags[i].empty() && r.tags[i][0] == "nonce") return (int)i; return -1; }
static bool decimal(const std::string& t) { if (t.empty() || t.size() > 20 || (t[0] == '0' && t.size() > 1)) return false; for (char c : t) if (!isdigit((unsigned char)c)) return false; return true; }
static RefEvent gen_work(const Src& s) {
    RefEvent r; r.kind = s(4) ? 1 : (int)s(65536); r.created_at = 1600000000 + s(1000); r.content = gen_text(s, s(5) ? 6 : 200); r.pk = key_no((int)s(4)).pk; int before = (int)s(4);
    for (int i = 0; i < before; i++) { if (s(6) == 5) r.tags.push_back({"t", std::string(800 + s(300), 'x')}); else r.tags.push_back({"t", gen_text(s, 5)}); }
    if (s(3) == 2) { static const std::vector<std::string> nn = {"0", "776797", "", "18446744073709551615"}; std::vector<std::string> t = {"nonce"}; if (s(6)) t.push_back(s.of(nn)); if (t.size() == 2 && s(2)) { static const std::vector<std::string> far = {"257", "4294967297", "9223372036854775808", "18446744073709551617"}; t.push_back(s(8) ? std::to_string(s(40)) : s.of(far)); } if (t.size() == 3 && s(4) == 3) t.push_back(gen_name(s)); r.tags.push_back(t); }
    int after = (int)s(3); for (int i = 0; i < after; i++) r.tags.push_back({gen_name(s), gen_text(s, 5)}); if (s(10) == 9) r.tags.push_back({"nonce", "7", "3"}); return r;
}
// everything but the nonce tag, the id and the time must stay
static void same_rest(const RefEvent& g, const RefEvent& r, const char* what) {
    int n = nonce_at(r), m = nonce_at(g); RefEvent a = g, b = r; a.id = b.id; a.created_at = b.created_at; if (n >= 0 && n == m) { std::vector<std::string> x = g.tags[n], y = r.tags[n]; if (y.size() > 3 && (x.size() > 3) && std::vector<std::string>(x.begin() + 3, x.end()) != std::vector<std::string>(y.begin() + 3, y.end())) violate("event-changed", "%s changed further values of the nonce tag", what); a.tags[n] = b.tags[n]; }
    else if (n < 0 && m >= 0) { if (m != (int)g.tags.size() - 1) violate("event-changed", "%s added its tag in between", what); a.tags.pop_back(); }
    for (auto& t : g.tags) for (auto& v : t) if (v == "\1NULL") violate("null-value", "%s left a tag value that does not exist", what);
    if (!same_event(a, b)) violate("event-changed", "%s changed more than the nonce, the id and the time: %s", what, ev_diff(a, b).c_str());
}
static void verify_check(const Src& s) {
    RefEvent r = gen_work(s); int z = s(4) ? (int)s(40) : s(3) ? 200 + (int)s(57) : (int)s(257); std::string id = unhex(gen_hex(s, 32)); for (int i = 0; i < z; i++) id[i / 8] &= (char)~(0x80 >> i % 8); if (z < 256) id[z / 8] |= (char)(0x80 >> z % 8); r.id = id; int have = zeros(id); nostr_event* e; { NoFaults nf; e = make_event(r); }
    if (nostr_nip13_calculate_difficulty(e->id) != have) violate("difficulty", "the difficulty of %s is %d, expected %d", hex(id.data(), 32).c_str(), nostr_nip13_calculate_difficulty(e->id), have);
    int min = s(3) ? std::max(1, have - 1 + (int)s(3)) : (int)s(260) - 2; int n = nonce_at(r); bool ok = min >= 1 && n >= 0 && r.tags[n].size() >= 2 && have >= min; if (ok && r.tags[n].size() >= 3 && decimal(r.tags[n][2]) && (r.tags[n][2].size() > 3 || have < atoi(r.tags[n][2].c_str()))) ok = false;
    Leak lk; arm(s, w13->pct, w13->kinds); nostr_error_t rc = nostr_nip13_verify_pow(e, min); disarm(); lk.check("nostr_nip13_verify_pow"); if ((rc == NOSTR_OK) != ok) violate("verify", "an event with %d leading zero bits and nonce tag %s is %s for difficulty %d", have, n < 0 ? "none" : r.tags_json().substr(0, 300).c_str(), rc == NOSTR_OK ? "accepted" : "refused", min);
    if (!same_event(from_lib(e), r)) violate("event-changed", "verification changed the event"); nostr_event_destroy(e); count(ok ? "verified" : "refused");
}
static void mine(const Src& s) {
    C13& w = *w13; RefEvent r = gen_work(s); nostr_event* e; { NoFaults nf; e = make_event(r); } bool threaded = s(3) != 0; int target = 1 + (int)s(8), nt = (int)s(5); uint64_t max = s(3) ? (s(2) ? 1 + s(40) : 0) : 1;
    for (int tries = 0; tries < 3; tries++) {
        wall_note(); size_t w0 = w.wall.size() - 1; int64_t first = sim_wall(); int lf0 = faults_fired_in_library(); if (tries) disarm(); else { arm(s, w.pct, w.kinds, 30); if (w.pct && s(4) == 3) faults().thread_at = (int)s(4); }
        nostr_error_t rc = threaded ? nostr_nip13_mine_event_threaded(e, target, nt, max) : nostr_nip13_mine_event(e, target, max); Faults f = disarm(); wall_note(); RefEvent g = from_lib(e);
        same_rest(g, r, "mining"); bool worker_fault = threaded && faults_fired_in_library() > lf0;
        if (rc == NOSTR_OK) {
            int n = nonce_at(g); if (n < 0 || g.tags[n].size() < 3) violate("no-commitment", "a mined event has no committed difficulty: %s", g.tags_json().c_str());
            if (!decimal(g.tags[n][1]) || g.tags[n][2] != std::to_string(target)) violate("no-commitment", "an event mined for %d carries the nonce tag [%s,%s]", target, g.tags[n][1].c_str(), g.tags[n][2].c_str());
            if (max) { uint64_t k = strtoull(g.tags[n][1].c_str(), 0, 10); if ((threaded ? k / 1000 : k) >= max) violate("beyond-limit", "mining limited to %llu tries comes back with nonce %llu", (unsigned long long)max, (unsigned long long)k); }
            if (g.id != sha256(g.canonical())) violate("wrong-id", "a mined event's id is not the hash of its content (nonce %s)", g.tags[n][1].c_str());
            if (zeros(g.id) < target) violate("no-work", "an event mined for %d has %d zero bits", target, zeros(g.id));
            bool in = false; for (size_t i = w0; i < w.wall.size(); i++) if (g.created_at >= w.wall[i].first && g.created_at <= w.wall[i].second) in = true; if (!in) violate("wrong-time", "a mined event is dated %lld, the clock never showed that while it was mined", (long long)g.created_at);
            if (nostr_nip13_verify_pow(e, target) != NOSTR_OK) violate("verify", "a mined event does not verify"); nostr_privkey sk = lib_sk(key_no(1)); if (nostr_event_sign(e, &sk) != NOSTR_OK || !from_lib(e).authentic()) violate("sign-failed", "a mined event cannot be signed"); count("mined"); break;
        }
        if (rc == NOSTR_ERR_NOT_FOUND && !f.fired && !worker_fault) {
            if (!max) violate("gave-up", "mining without a limit gives up");
            if (!w.jumped && sim_wall() == first) { RefEvent q = g; int n = nonce_at(q); if (n < 0 || q.tags[n].size() < 3) violate("no-commitment", "a tried event has no nonce tag"); q.created_at = first; int starts = threaded ? (nt > 0 ? nt : w.cpus) : 1; for (int i = 0; i < starts; i++) for (uint64_t k = 0; k < max; k++) { q.tags[n][1] = std::to_string(threaded ? i + 1000 * k : k); if (zeros(sha256(q.canonical())) >= target) violate("missed", "mining for %d says there is no solution, nonce %s is one", target, q.tags[n][1].c_str()); } count("exhausted_checked"); }
            count("not_found"); if (s(2)) break; max = 0; continue;
        }
        if (rc == NOSTR_ERR_NOT_FOUND && f.fired) violate("failure-hidden", "mining hit a failure but says that there is no solution");
        if (rc == NOSTR_ERR_NOT_FOUND && w.actors == 1) violate("failure-hidden", "workers failed but mining says that there is no solution");
        if (rc == NOSTR_ERR_NOT_FOUND) { count("not_found"); break; }
        if (!f.fired && !worker_fault) violate("mine-failed", "mining fails although nothing else does: %s", nostr_error_string(rc));
        count("failed"); if (tries == 2 && !w.workers_fail) violate("no-recovery", "mining keeps failing"); r = g; if (nonce_at(r) >= 0) { auto& t = r.tags[nonce_at(r)]; if (t.size() > 3) t.resize(3); }
    }
    nostr_event_destroy(e);
}
static void add_nonce(const Src& s) {
    C13& w = *w13; RefEvent r = gen_work(s); nostr_event* e; { NoFaults nf; e = make_event(r); } int n = 1 + (int)s(s(8) ? 5 : 200);
    for (int i = 0; i < n; i++) { uint64_t v = s(3) ? s(100000) : s.u64(); int target = s(3) ? (int)s(64) : s(2) ? -(int)s(5) : 2147483647; RefEvent b = from_lib(e); arm(s, w.pct, w.kinds, 6); nostr_error_t rc = nostr_nip13_add_nonce_tag(e, v, target); Faults f = disarm(); RefEvent g = from_lib(e); g.created_at = b.created_at; same_rest(g, b, "nostr_nip13_add_nonce_tag");
        if (g.id != b.id) violate("event-changed", "setting the nonce changed the id");
        if (rc != NOSTR_OK) { if (!f.fired) violate("nonce-failed", "the nonce cannot be set: %s", nostr_error_string(rc)); int k = nonce_at(g), k0 = nonce_at(b); if (k != k0 || (k >= 0 && g.tags[k] != b.tags[k])) violate("half-done", "a failed nostr_nip13_add_nonce_tag left the tag %s", g.tags_json().substr(0, 300).c_str()); count("nonce_failed"); continue; }
        int k = nonce_at(g); std::vector<std::string> want = {"nonce", std::to_string(v)}; if (target > 0) want.push_back(std::to_string(target)); auto got = g.tags[k]; int k0 = nonce_at(b); if (target > 0 && k0 >= 0 && b.tags[k0].size() > 3) got.resize(3); if (got != want) violate("wrong-nonce", "the nonce tag is %s after setting %s and %d", g.tags_json().substr(0, 300).c_str(), want[1].c_str(), target); count("nonce_set"); }
    nostr_event_destroy(e);
}
static void c13_pow() {
    C13 w; w13 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.cpus = 1 + (int)g(4); sim_set_cpus(w.cpus); w.kinds = (int)g(2) ? FAULT_ALLOC : 0; w.pct = w.kinds ? 35 : 0;
    if (w.kinds && g(3) == 2) w.workers_fail = true;
    wall_note(); bool jumps = g(3) == 2; w.jumped = jumps; int nt = w.actors = 1 + (int)g(2);
    Faults wf; if (w.workers_fail) { wf.alloc_at = (int)g(60); wf.alloc_run = g(2) ? 1 : 1 << 20; }
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, wf] { Src s = src("actor", i); faults_all_new_threads(wf); int ops = 1 + (int)s(5); for (int k = 0; k < ops; k++) switch (s(4)) { case 0: verify_check(s); break; case 1: add_nonce(s); break; default: mine(s); } });
    if (jumps) sim_spawn("clock", [] { Src s("clock"); int n = 1 + (int)s(6); for (int i = 0; i < n; i++) { sim_sleep_us(1 + s(5000)); clock_jump(s(2) ? (int64_t)s(100) - 50 : (int64_t)s(200000) - 100000); } });
    sim_join_spawned(); faults_all_new_threads(Faults()); disarm(); if (sim_live_library_threads()) violate("thread-leak", "%d mining threads are left", sim_live_library_threads()); nostr_cleanup(); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C13, pow, c13_pow)
