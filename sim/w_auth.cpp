// C07: what is signed verifies anywhere unchanged; nothing else does
#include "op.h"
std::string respace(const std::string& m, const Src& s, int density);
std::string respell(const std::string& m, const Src& s);
std::string with_nul(const std::string& m, const Src& s);
struct Shared { nostr_event* e; RefEvent r; };
struct C07 { std::vector<Shared> pub; std::set<std::string> signed_ids; int kinds = 0; int fault_pct = 0; };
static C07* w7;
static RefEvent gen_plain(const Src& s) {
    RefEvent r; static const std::vector<int> ks = {1, 0, 5, 7, 30023, 65535, 10002, 22242}; static const std::vector<int64_t> ts = {1700000000, 0, 1, 2147483648ll, 4294967296ll, 9007199254740992ll, -1, 253402300799ll, -9007199254740992ll};
    r.kind = s.of(ks); r.created_at = s(3) ? 1700000000 + (int64_t)s(1000) : s.of(ts); r.content = gen_text(s, s(6) ? 10 : 300); r.tags = gen_tags(s, s(6) ? 4 : 40);
    return r;
}
static nostr_event* built(const RefEvent& r) { NoFaults nf; nostr_event* e = make_event(r); if (!e) violate("harness", "cannot build"); if (!same_event(from_lib(e), r)) violate("event-changed", "an event built field by field differs: %s", ev_diff(from_lib(e), r).c_str()); return e; }
static void expect_verify(const nostr_event* e, const RefEvent& r, const char* what, const Src& s) {
    C07& w = *w7; Leak lk; arm(s, w.fault_pct, w.kinds); nostr_error_t v = nostr_event_verify(e); Faults f = disarm(); bool au = r.authentic();
    if (v == NOSTR_OK && !au) violate("forged-accepted", "%s verifies although it is not authentic: %.600s", what, r.json().c_str());
    if (v != NOSTR_OK && au && !f.fired) violate("authentic-refused", "%s is authentic but verification says %s: %.600s", what, nostr_error_string(v), r.json().c_str());
    if (v == NOSTR_ERR_MEMORY && !f.fired) violate("error-code", "%s: out of memory without a failure", what);
    RefEvent now = from_lib(e); if (!same_event(now, r)) violate("verify-changed", "verification changed the event: %s", ev_diff(now, r).c_str());
    lk.check("nostr_event_verify"); count(au ? "verified" : "rejected");
}
static std::string mangle(std::string t, const Src& s, const RefEvent& other) {
    int n = 1 + (int)s(2);
    while (n--) switch (s(9)) {
        case 0: if (!t.empty()) t[s((uint32_t)t.size())] ^= 1 << s(8); break;
        case 1: if (!t.empty()) t.erase(s((uint32_t)t.size()), 1 + s(3)); break;
        case 2: t.insert(s((uint32_t)t.size() + 1), 1, "0a\"\\ ,]}"[s(8)]); break;
        case 3: t.resize(s((uint32_t)t.size() + 1)); break;
        case 4: { const char* k[] = {"\"id\":\"", "\"pubkey\":\"", "\"sig\":\""}; const char* key = k[s(3)]; size_t a = t.find(key), b = other.json().find(key); if (a != std::string::npos && b != std::string::npos) { a += strlen(key); b += strlen(key); size_t len = key[1] == 's' ? 128 : 64; if (a + len <= t.size()) t.replace(a, len, other.json(), b, len); } break; }
        case 5: { size_t a = t.find("\"content\":\""); if (a != std::string::npos) t.insert(a + 11, 1, 'x'); break; }
        case 6: { size_t a = t.find("\"created_at\":"); if (a != std::string::npos && a + 13 < t.size()) { char& c = t[a + 13]; if (isdigit((unsigned char)c)) c = '0' + (c - '0' + 1) % 10; } break; }
        case 7: { size_t a = t.find("\"tags\":["); if (a != std::string::npos) t.insert(a + 8, t[a + 8] == ']' ? "[\"t\",\"y\"]" : "[\"t\",\"y\"],"); break; }
        default: { size_t a = t.find("\"kind\":"); if (a != std::string::npos) t.insert(a + 7, 1, '1' + s(9)); break; }
        }
    for (auto& c : t) if (!c) c = ' ';
    return t;
}
static void c07_thread(int id) {
    C07& w = *w7; Src s = src("actor", id); int ops = 3 + (int)s(8);
    for (int i = 0; i < ops; i++) {
        int op = (int)s(8);
        if (op <= 2 || w.pub.empty()) {                       // sign
            RefEvent r = gen_plain(s); int k = (int)s(6); std::string sk = key_no(k).sk; bool bad = s(12) == 11; if (bad) sk = bad_sk(s);
            nostr_event* e = built(r); if (s(4) == 3) { memset(e->id, 0x11, 32); memset(e->sig, 0x22, 64); memset(e->pubkey.data, 0x33, 32); }
            std::unique_ptr<nostr_privkey> p(new nostr_privkey); memcpy(p->data, sk.data(), 32);
            for (int tries = 0;; tries++) {
                Leak lk; size_t r0 = rng_log().size(); if (tries) disarm(); else arm(s, w.fault_pct, w.kinds); nostr_error_t rc = nostr_event_sign(e, p.get()); Faults f = disarm(); RefEvent g = from_lib(e);
                lk.check("nostr_event_sign"); if (memcmp(p->data, sk.data(), 32)) violate("key-changed", "signing changed the private key");
                RefEvent q = r; q.id = g.id; q.pk = g.pk; q.sig = g.sig; if (!same_event(q, g)) violate("event-changed", "signing changed the event: %s", ev_diff(q, g).c_str());
                if (rc == NOSTR_OK) {
                    if (bad) violate("bad-key-signed", "an invalid private key signed an event");
                    if (g.pk != key_no(k).pk) violate("wrong-author", "the event was signed as %s, expected %s", hex(g.pk.data(), 32).c_str(), hex(key_no(k).pk.data(), 32).c_str());
                    if (!g.authentic()) violate("bad-signature", "signing reported success but the event is not authentic (id %s): %.600s", g.id == sha256(g.canonical()) ? "right" : "wrong", g.json().c_str());
                    bool fresh = false; for (auto& b : rng_mine(r0)) if (b.size() == 32) fresh = true; if (!fresh) violate("no-fresh-randomness", "an event was signed without drawing fresh randomness");
                    w.signed_ids.insert(g.pk + g.id); slog("signed %s", hex(g.id.data(), 4).c_str()); count("signed");
                    expect_verify(e, g, "a freshly signed event", s); w.pub.push_back({e, g}); break;
                }
                if (bad) { if (!f.fired && rc != NOSTR_ERR_INVALID_KEY) violate("error-code", "an invalid key gives %s", nostr_error_string(rc)); nostr_event_destroy(e); break; }
                if (!f.fired) violate("sign-failed", "an event cannot be signed: %s (%s)", nostr_error_string(rc), tries ? "after an earlier failure" : "first attempt");
                // nothing that verifies may come out of a failed signature
                nostr_error_t v = nostr_event_verify(e); if (v == NOSTR_OK && !g.authentic()) violate("forged-accepted", "an event left by a failed signature verifies");
            }
            continue;
        }
        Shared sh = w.pub[s((uint32_t)w.pub.size())];
        if (op == 3) { expect_verify(sh.e, sh.r, "a shared event", s); continue; }
        if (op == 4) {                                         // tampered in memory
            nostr_event* e = built(sh.r); RefEvent o = w.pub[s((uint32_t)w.pub.size())].r;
            switch (s(12)) { case 10: case 11: { e->id[s(32)] ^= 1 << s(8); for (int k = 0; k < 6; k++) if (key_no(k).pk == sh.r.pk) { std::string q = ref_sign(key_no(k), std::string((char*)e->id, 32)); memcpy(e->sig, q.data(), 64); count("fault.signed_another_id"); } break; } case 0: e->id[s(32)] ^= 1 << s(8); break; case 1: e->sig[s(64)] ^= 1 << s(8); break; case 2: e->pubkey.data[s(32)] ^= 1 << s(8); break; case 3: e->created_at += s(2) ? 1 : -1; break; case 4: e->kind ^= 1 << s(16); break; case 5: nostr_event_set_content(e, (sh.r.content + (s(2) ? " " : "\x01")).c_str()); break; case 6: { const char* v[] = {"t", "x"}; nostr_event_add_tag(e, v, 1 + s(2)); break; }
            case 7: memcpy(e->sig, o.sig.data(), 64); break; case 8: memcpy(e->pubkey.data, o.pk.data(), 32); if (s(2)) nostr_event_compute_id(e); break; default: { memcpy(e->id, o.id.data(), 32); memcpy(e->sig, o.sig.data(), 64); memcpy(e->pubkey.data, o.pk.data(), 32); break; } }
            RefEvent r = from_lib(e); if (s(4) == 3) { nostr_error_t rc = nostr_event_compute_id(e); RefEvent r2 = from_lib(e); if (rc != NOSTR_OK || r2.id != sha256(r2.canonical())) violate("wrong-id", "the id of an event is not its NIP-01 hash: %.500s", r2.canonical().c_str()); r = r2; }
            if (r.authentic() && !w.signed_ids.count(r.pk + r.id)) violate("harness", "forged by chance");
            expect_verify(e, r, "a tampered event", s); count("tampered"); nostr_event_destroy(e); continue;
        }
        if (!HAS_JSON) { char* j = nullptr; nostr_event* e = nullptr; CStr ct(sh.r.json()); if (nostr_event_to_json(sh.e, &j) == NOSTR_OK || j) violate("json-changed", "a build without JSON writes an event as JSON"); if (nostr_event_from_json(ct, &e) == NOSTR_OK || e) violate("event-changed", "a build without JSON reads an event"); continue; }
        // over the wire
        std::string t; { Leak lk; char* j = nullptr; arm(s, w.fault_pct, w.kinds, 60); nostr_error_t rc = nostr_event_to_json(sh.e, &j); Faults f = disarm(); if (rc == NOSTR_OK) { t = j; J v; RefEvent g; if (!jparse(t, v) || !ref_from_json(v, g) || !same_event(g, sh.r)) violate("json-changed", "an event serialised as JSON differs (%s): %.600s", ev_diff(g, sh.r).c_str(), t.c_str()); nostr_free(j); } else if (!f.fired) violate("json-failed", "an event cannot be serialised: %s", nostr_error_string(rc)); lk.check("nostr_event_to_json"); }
        if (t.empty() || s(2)) t = sh.r.json();
        if (s(2)) t = respell(t, s); if (s(2)) t = respace(t, s, 1 + (int)s(4));
        bool touched = op >= 6; if (touched) { t = mangle(t, s, w.pub[s((uint32_t)w.pub.size())].r); count("fault.corrupted_in_transit"); }
        std::string t0 = t; if (touched && s(4) == 3 && jparse(t, *std::make_unique<J>())) t = with_nul(t, s); bool nul = t != t0;
        J v; RefEvent want; bool clear = jparse(t, v) && ref_from_json(v, want) && want.id.size() == 32 && want.kind >= 0 && want.kind <= 65535 && utf8_ok(t) && llabs(want.created_at) <= 9007199254740992ll; if (clear) for (auto& g : want.tags) if (g.empty()) clear = false;
        if (clear && t.find("\\u0000") != std::string::npos) clear = false;
        if (clear) for (const char* k : {"id", "pubkey", "sig"}) for (char c : v.get(k)->s) if (!isxdigit((unsigned char)c)) clear = false;
        CStr ct(t); nostr_event* e = nullptr; Leak lk; arm(s, touched ? 0 : w.fault_pct, w.kinds, 60); nostr_error_t rc = nostr_event_from_json(ct, &e); Faults f = disarm();
        if (rc != NOSTR_OK) { if (e) violate("dangling", "a failed parse left an event pointer"); lk.check("a failed nostr_event_from_json"); if (clear && !f.fired) violate("event-refused", "a well-formed event was refused (%s): %.600s", nostr_error_string(rc), t.c_str()); continue; }
        if (nul) violate("cut-accepted", "a text with a NUL character is read as an event: %.600s", t.c_str());
        RefEvent g = from_lib(e);
        if (clear && !same_event(g, want)) violate("event-changed", "an event was read differently (%s): %.600s", ev_diff(g, want).c_str(), t.c_str());
        if (!touched && !clear) violate("harness", "an untouched event is not clear: %.400s", t.c_str());
        if (g.authentic() && !w.signed_ids.count(g.pk + g.id)) violate("harness", "forged by chance");
        expect_verify(e, g, touched ? "a corrupted event" : "an event from the wire", s); count(touched ? "parsed_corrupted" : "parsed");
        nostr_event_destroy(e); lk.check("an event's life");
    }
}
static void c07_auth() {
    C07 w; w7 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 1 + (int)g(3);
    w.kinds = (int)g(8); w.fault_pct = w.kinds ? 30 : 0; if (g(2) && nostr_init() != NOSTR_OK) violate("init", "nostr_init fails");
    int rounds = 1 + (int)g(2);
    for (int r = 0; r < rounds; r++) {
        for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, r] { c07_thread(r * 10 + i); });
        sim_join_spawned();
        // after everything stopped: whatever was published still verifies, also across a clean-up
        if (g(2)) { nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); }
        for (auto& p : w.pub) { if (!same_event(from_lib(p.e), p.r)) violate("shared-changed", "a published event changed: %s", ev_diff(from_lib(p.e), p.r).c_str()); if (g(3) == 2) expect_verify(p.e, p.r, "a published event", g); }
    }
    for (auto& p : w.pub) nostr_event_destroy(p.e);
    nostr_cleanup(); if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts());
    if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C07, auth, c07_auth)
