// C17: delegation — a token lets exactly its delegatee sign exactly what its conditions allow
#include "op.h"
struct Cond { std::string text; bool ok = true; std::vector<int> kinds; bool has_a = false, has_b = false; int64_t a = 0, b = 0; bool allows(int kind, int64_t t) const { bool k = kinds.empty(); for (int x : kinds) k |= x == kind; return k && !(has_a && t <= a) && !(has_b && t >= b); } };
struct C17 { int pct = 0, kinds = 0; nostr_event* shared_e = nullptr; RefEvent shared; bool shared_ok = false; std::string shared_why; };
static C17* w17;
static std::string token_digest(const std::string& pk, const std::string& cond) { return sha256("nostr:delegation:" + hex(pk.data(), 32) + ":" + cond); }
static int64_t some_time(const Src& s) { static const std::vector<int64_t> ts = {0, 1, 4294967295ll, 4294967296ll, 9223372036854775807ll, 2147483647}; return s(5) ? 1600000000 + 10 * (int64_t)s(6) : s.of(ts); }
static Cond gen_cond(const Src& s) {
    Cond c; static const std::vector<int> ks = {1, 0, 7, 30023, 65535, 5}; int n = s(12) == 11 ? 60 + (int)s(41) : 1 + (int)s(5);
    for (int i = 0; i < n; i++) { if (i) c.text += "&"; switch (s(4)) {
        case 0: case 1: { int k = s(4) ? s.of(ks) : (int)s(65536); c.kinds.push_back(k); c.text += "kind=" + std::to_string(k); break; }
        case 2: { int64_t t = some_time(s); if (!c.has_a || t > c.a) c.a = t; c.has_a = true; c.text += "created_at>" + std::to_string(t); break; }
        default: { int64_t t = some_time(s); if (!c.has_b || t < c.b) c.b = t; c.has_b = true; c.text += "created_at<" + std::to_string(t); } } }
    if (s(8) == 7) { static const std::vector<std::string> bad = {"kind=", "kind=x", "foo=1", "kind=65536", "kind=18446744073709551617", "created_at=5", "created_at>", "created_at<x", "Kind=1", "created_at>9223372036854775808", "kind", "kind=1;created_at>5", "kind=1x", " kind=1", "kind=70000", "created_at>>5", "kind=1 ", "kind= 1", "kind=+1", "kind=-1", "kind=-18446744073709551615", "kind=1kind=7", "kind=1created_at>5", "created_at>5created_at<9000000000", "created_at> 5", "created_at>+5", "created_at<\t9000000000"}; std::string b = s.of(bad); c.ok = false; if (s(3) == 2) c.text = ""; else if (s(2)) c.text = b; else c.text = s(2) ? b + "&" + c.text : c.text + "&" + b; }
    else if (s(25) == 24) { c.ok = false; c.text = "kind=" + std::string(4200, '0') + "1"; }
    return c;
}
static void check_parsed(const nostr_delegation& d, const Cond& c, const char* what) {
    const auto& p = d.parsed_conditions; bool same = p.kind_count == c.kinds.size(); if (same) for (size_t i = 0; i < p.kind_count; i++) same &= p.kinds[i] == c.kinds[i];
    if (!same) violate("conditions", "%s reads %zu kinds from '%.200s'", what, p.kind_count, c.text.c_str());
    if (!!p.has_created_after != c.has_a || !!p.has_created_before != c.has_b || (c.has_a && p.created_after != c.a) || (c.has_b && p.created_before != c.b)) violate("conditions", "%s reads the times %lld%s..%lld%s from '%.300s', they are %lld..%lld", what, (long long)p.created_after, p.has_created_after ? "" : "(none)", (long long)p.created_before, p.has_created_before ? "" : "(none)", c.text.c_str(), (long long)c.a, (long long)c.b);
    if (!d.conditions || d.conditions != c.text) violate("conditions", "%s keeps other conditions", what);
}
static void check_allows(const nostr_delegation& d, const Cond& c, const Src& s) {
    for (int i = 0; i < 4; i++) { static const std::vector<int> ks = {1, 0, 7, 30023, 65535, 5, 2, 6}; int k = c.kinds.empty() || s(3) == 0 ? s.of(ks) : c.kinds[s((uint32_t)c.kinds.size())]; if (s(8) == 7) k = s(2) ? k ^ (1 << s(16)) : (int)s(65536); int64_t t = s(3) ? some_time(s) : c.has_a && s(2) ? c.a : c.has_b ? c.b : some_time(s); if (t > 0 && t < INT64_MAX) t += (int)s(3) - 1;
        nostr_error_t rc = nostr_delegation_check_conditions(&d, (uint16_t)k, t); if ((rc == NOSTR_OK) != c.allows(k, t)) violate("conditions", "an event of kind %d at %lld is %s under '%.300s'", k, (long long)t, rc == NOSTR_OK ? "allowed" : "not allowed", c.text.c_str()); count(rc == NOSTR_OK ? "allowed" : "not_allowed"); }
}
static void release(nostr_delegation* d) { nostr_delegation_free(d); if (!all_zero(d, sizeof *d)) violate("not-wiped", "a freed delegation still holds data"); nostr_delegation_free(d); }
static void verify_ev(const nostr_event* e, const RefEvent& r, bool ok, const std::string& why, const Src& s) {
    C17& w = *w17; Leak lk; arm(s, w.pct, w.kinds); nostr_error_t rc = nostr_event_verify_delegation(e); Faults f = disarm(); lk.check("nostr_event_verify_delegation");
    if (rc == NOSTR_OK && !ok) violate("forged-accepted", "a delegated event is accepted (%s): %.900s", why.c_str(), r.json().c_str());
    if (rc != NOSTR_OK && ok && !f.fired) violate("refused", "a rightly delegated event is refused with %s: %.900s", nostr_error_string(rc), r.json().c_str());
    if (!same_event(from_lib(e), r)) violate("event-changed", "verification changed the event"); count(ok ? "event_verified" : "event_rejected");
}
static void c17_op(const Src& s) {
    C17& w = *w17; RefKey from = key_no((int)s(3)), to = key_no(3 + (int)s(3)); Cond c = gen_cond(s); bool badkey = s(20) == 19; std::unique_ptr<nostr_privkey> sk(new nostr_privkey); std::string skb = badkey ? bad_sk(s) : from.sk; memcpy(sk->data, skb.data(), 32); nostr_key pk = lib_pk(to); CStr text(c.text);
    std::unique_ptr<nostr_delegation> d(new nostr_delegation); bool have = false;
    for (int tries = 0; tries < 2; tries++) {
        memset(d.get(), s(2) ? 0 : 0xA5, sizeof *d); Leak lk; size_t r0 = rng_log().size(); if (tries) disarm(); else arm(s, w.pct, w.kinds, 8); nostr_error_t rc = nostr_delegation_create(sk.get(), &pk, text, d.get()); Faults f = disarm();
        if (memcmp(sk->data, skb.data(), 32)) violate("key-changed", "delegating changed the private key");
        if (rc == NOSTR_OK) {
            if (badkey || !c.ok) violate("accepted", "a delegation is made %s '%.200s'", badkey ? "with an invalid key under" : "under malformed conditions", c.text.c_str());
            if (memcmp(d->delegator_pubkey.data, from.pk.data(), 32)) violate("wrong-delegator", "the token names another delegator"); check_parsed(*d, c, "nostr_delegation_create");
            if (!ref_verify(from.pk, token_digest(to.pk, c.text), std::string((char*)d->token, 64))) violate("bad-token", "the token of a delegation under '%.200s' is not valid", c.text.c_str());
            bool fresh = false; for (auto& b : rng_mine(r0)) if (b.size() == 32) fresh = true; if (!fresh) violate("no-fresh-randomness", "a token was signed without drawing fresh randomness");
            have = true; count("created"); break;
        }
        lk.check("nostr_delegation_create"); if (!badkey && c.ok && !f.fired) violate("refused", "a delegation under '%.300s' fails%s: %s", c.text.c_str(), tries ? " after an earlier failure" : "", nostr_error_string(rc)); if (tries || !c.ok || badkey) { count("refused"); return; }
    }
    if (!have) return;
    check_allows(*d, c, s);
    {   // verification by the delegatee's relay, with what may have changed on the way
        nostr_delegation q = *d; CStr alt(s(2) ? c.text + "&kind=9" : c.text.substr(0, c.text.size() - 1) + (char)(c.text.back() ^ 1)); nostr_key other = pk; int how = (int)s(6); switch (how) { case 1: q.token[s(64)] ^= (uint8_t)(1 << s(8)); break; case 2: q.conditions = (char*)(const char*)alt; break; case 3: q.delegator_pubkey.data[s(32)] ^= (uint8_t)(1 << s(8)); break; case 4: other = lib_pk(s(2) ? from : key_no(7)); break; case 5: q.delegator_pubkey = pk; break; default: break; }
        bool ok = ref_verify(std::string((char*)q.delegator_pubkey.data, 32), token_digest(std::string((char*)other.data, 32), q.conditions), std::string((char*)q.token, 64)); Leak lk; arm(s, w.pct, w.kinds, 4); nostr_error_t rc = nostr_delegation_verify(&q, &other); Faults f = disarm(); lk.check("nostr_delegation_verify");
        if (rc == NOSTR_OK && !ok) violate("forged-accepted", "an altered token (%d) verifies", how); if (rc != NOSTR_OK && ok && !f.fired) violate("refused", "a valid token does not verify: %s", nostr_error_string(rc)); count(ok ? "token_verified" : "token_rejected");
    }
    // the delegatee's event
    RefEvent r; static const std::vector<int> ks = {1, 7, 2, 0, 30023}; r.kind = s(3) && !c.kinds.empty() ? c.kinds[s((uint32_t)c.kinds.size())] : s(4) ? s.of(ks) : (int)s(65536); r.created_at = s(3) ? (c.has_a ? (c.a < INT64_MAX ? c.a + 1 : c.a) : c.has_b ? c.b - 1 : 1600000000) : some_time(s); if (r.created_at > (1ll << 53)) r.created_at = 1ll << 53; if (r.created_at < 0) r.created_at = 0; r.content = gen_text(s, 6); int before = (int)s(3); for (int i = 0; i < before; i++) r.tags.push_back(s(6) == 5 ? std::vector<std::string>{"delegation", gen_name(s)} : std::vector<std::string>{"p", gen_name(s)});
    r.pk = to.pk; nostr_event* e; { NoFaults nf; e = make_event(r); }
    { Leak lk; arm(s, w.pct, w.kinds, 3); nostr_error_t rc = nostr_event_add_delegation(e, d.get()); Faults f = disarm(); if (rc == NOSTR_OK) r.tags.push_back({"delegation", hex(from.pk.data(), 32), c.text, hex(d->token, 64)}); else { if (!f.fired) violate("refused", "a delegation cannot be added: %s", nostr_error_string(rc)); } if (!same_event(from_lib(e), r)) violate("event-changed", "adding a delegation (%s) leaves %s", nostr_error_string(rc), ev_diff(from_lib(e), r).c_str()); if (rc != NOSTR_OK) { release(d.get()); nostr_event_destroy(e); return; } }
    release(d.get());
    std::string why = "as made"; bool tagok = true; size_t at = r.tags.size() - 1; if (s(4) == 3) { r.tags.push_back({"t", "x"}); if (s(2)) r.tags.push_back({"delegation", hex(key_no(9).pk.data(), 32), "kind=1", std::string(128, '0')}); }
    auto& t = r.tags[at]; switch (s(14)) {
    case 0: r.kind = (r.kind + 1) & 0xffff; why = "kind"; break; case 1: r.created_at += s(2) ? 1000000 : -1; why = "time"; break; case 2: { char& ch = t[3][s(128)]; ch = ch == (char)48 ? (char)49 : (char)48; why = "token"; break; } case 3: t[1] = hex(key_no(8).pk.data(), 32); why = "delegator"; break; case 4: if (std::count(t[2].begin(), t[2].end(), '&') >= 99) break; t[2] += "&kind=" + std::to_string(r.kind); why = "conditions"; break;
    case 5: r.pk = key_no(9).pk; why = "author"; break; case 6: t[3] = t[3].substr(0, 126); tagok = false; why = "short token"; break; case 7: t[1] += "00"; tagok = false; why = "long delegator"; break; case 8: t[2] = s(2) ? "" : "kind=x"; tagok = false; why = "malformed conditions"; break; case 9: t[3][5] = 'g'; tagok = false; why = "no hex"; break; case 10: t.resize(3); tagok = false; why = "incomplete"; break; default: break; }
    if (r.created_at < 0) r.created_at = 0;
    // the first complete delegation tag counts; the harness' alterations decide which that is
    const std::vector<std::string>* first = nullptr; for (auto& x : r.tags) if (!x.empty() && x[0] == "delegation" && x.size() >= 4) { first = &x; break; }
    bool allhex = true; auto hx = [&](const std::string& h, size_t n) { if (h.size() != n) return false; for (char ch : h) if (!isxdigit((unsigned char)ch)) return false; return true; }; if (first) allhex = hx((*first)[1], 64) && hx((*first)[3], 128);
    nostr_event_destroy(e); { NoFaults nf; e = make_event(r); if (s(2)) { char* js = nullptr; if (nostr_event_to_json(e, &js) == NOSTR_OK) { nostr_event* e2 = nullptr; if (nostr_event_from_json(js, &e2) == NOSTR_OK) { nostr_event_destroy(e); e = e2; } nostr_free(js); } r = from_lib(e); first = nullptr; for (auto& x : r.tags) if (!x.empty() && x[0] == "delegation" && x.size() >= 4) { first = &x; break; } } }
    Cond c2 = c; bool ours = first && tagok && first == &r.tags[at]; if (ours && why == "conditions") { c2.kinds.push_back(r.kind); c2.text = (*first)[2]; }
    bool readable = first && allhex; if (ours) readable = true; else if (first) { c2 = Cond(); c2.text = (*first)[2]; if (c2.text == "kind=1") c2.kinds = {1}; else readable = false; }
    bool ok = readable && ref_verify(unhex((*first)[1]), token_digest(r.pk, (*first)[2]), unhex((*first)[3])) && c2.allows(r.kind, r.created_at);
    { std::unique_ptr<nostr_delegation> g(new nostr_delegation); memset(g.get(), 0xA5, sizeof *g); Leak lk; arm(s, w.pct, w.kinds, 6); nostr_error_t rc = nostr_event_get_delegation(e, g.get()); Faults f = disarm();
      if (rc == NOSTR_OK) { if (!readable) violate("accepted", "a malformed delegation (%s) is read: %s", why.c_str(), r.tags_json().substr(0, 600).c_str()); check_parsed(*g, c2, "nostr_event_get_delegation"); if (hex(g->delegator_pubkey.data, 32) != (*first)[1] || hex(g->token, 64) != (*first)[3]) violate("misread", "a delegation is read with another key or token"); check_allows(*g, c2, s); release(g.get()); count("read"); }
      else { if (readable && !f.fired) violate("refused", "a delegation (%s) cannot be read: %s from %s", why.c_str(), nostr_error_string(rc), r.tags_json().substr(0, 600).c_str()); if (!first && rc != NOSTR_ERR_NOT_FOUND) violate("error-code", "an event without delegation gives %s", nostr_error_string(rc)); if (first && rc == NOSTR_ERR_NOT_FOUND) violate("error-code", "a malformed delegation is not found"); nostr_delegation_free(g.get()); }
      lk.check("nostr_event_get_delegation"); }
    verify_ev(e, r, ok, why, s); verify_ev(w.shared_e, w.shared, w.shared_ok, w.shared_why, s); nostr_event_destroy(e);
}
static void c17_deleg() {
    C17 w; w17 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); switch (g(3)) { case 0: break; case 1: w.kinds = FAULT_ALLOC; break; default: w.kinds = FAULT_ALLOC | FAULT_RNG | FAULT_CRYPTO; } w.pct = w.kinds ? 40 : 0;
    { RefKey a = key_no(11), b = key_no(12); std::string cond = "kind=1&created_at>1600000000&created_at<1700000000"; w.shared.kind = 1; w.shared.created_at = 1650000000; w.shared.pk = b.pk; w.shared.tags = {{"delegation", hex(a.pk.data(), 32), cond, hex(ref_sign(a, token_digest(b.pk, cond)).data(), 64)}}; w.shared_ok = true; w.shared_why = "as made"; switch (g(4)) { case 2: w.shared.created_at = 1700000000; w.shared_ok = false; w.shared_why = "late"; break; case 3: w.shared.kind = 7; w.shared_ok = false; w.shared_why = "kind"; break; default: break; } w.shared_e = make_event(w.shared); }
    if (g(2)) nostr_init(); int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int ops = 2 + (int)s(7); for (int k = 0; k < ops; k++) c17_op(s); });
    sim_join_spawned(); nostr_event_destroy(w.shared_e); nostr_cleanup(); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C17, deleg, c17_deleg)
