// C20: NIP-57 zaps — a request asks for exactly what was meant, and only its own paid receipt proves it
#include "ident_ref.h"
std::string other_spelling(const std::string& m, const Src& s);
struct C20 { int pct = 0, kinds = 0; nostr_event *shared_rq = nullptr, *shared_rc = nullptr; std::string server; };
static C20* w20;
typedef std::vector<std::vector<std::string>> Tags;
static Tags sorted(Tags t) { std::sort(t.begin(), t.end()); return t; }
static uint64_t gen_amount(const Src& s) { static const std::vector<uint64_t> v = {21000, 1, 1000, 0, 100000000000ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull, 4294967296ull, 2100000000000000000ull}; return s(3) ? 1000ull * (1 + s(50)) : s.of(v); }
struct Inv { std::string text; uint64_t msat = 0; };
static Inv gen_inv(const Src& s, bool want, uint64_t msat) {
    static const std::vector<std::string> nets = {"lnbc", "lnbc", "lnbc", "lntb", "lntbs", "lnbcrt"}; Inv v; std::string body; int n = 7 + (int)s(40); for (int i = 0; i < n; i++) body += CH[s(32)]; std::string net = s.of(nets), amt;
    if (want) { v.msat = msat; std::vector<std::pair<uint64_t, const char*>> u; if (msat && msat <= UINT64_MAX / 10) u.push_back({msat * 10, "p"}); if (msat && msat % 100 == 0) u.push_back({msat / 100, "n"}); if (msat && msat % 100000 == 0) u.push_back({msat / 100000, "u"}); if (msat && msat % 100000000 == 0) u.push_back({msat / 100000000, "m"}); if (msat && msat % 100000000000ull == 0) u.push_back({msat / 100000000000ull, ""}); if (u.empty()) v.msat = 0; else { auto c = u[s((uint32_t)u.size())]; amt = std::to_string(c.first) + c.second; } }
    else switch (s(7)) { case 0: break; case 1: amt = "184467440737095517m"; break; case 2: amt = "99999999999999999999999999u"; break; case 3: amt = "300000000"; break; case 4: { static const std::vector<std::string> bad = {"21x", "u", "25un", "25m7", "2u5", "21 n", "2 1", "0x10", "7e3", "21mm", "21U", "-21u", "+21u", "21.5u", "21pp", "m21"}; amt = s.of(bad); break; } case 5: amt = "18446744073709551625n"; break; default: v.text = s.of(std::vector<std::string>{"", "lnbc", "lnbc25u", "nothing", "1", "lnbc1", "lnurl1abc"}); return v; }
    v.text = net + amt + "1" + body; return v;
}
static void zap_create(const Src& s) {
    C20& w = *w20; RefKey to = key_no((int)s(4)); nostr_key pk = lib_pk(to); uint64_t amount = gen_amount(s); bool has_l = s(4), has_c = s(4); std::string l = s(2) ? b32_encode("lnurl", "https://" + gen_name(s, 30)) : gen_text(s, 6), c = gen_text(s, s(10) ? 8 : 3000); size_t n = s(4) ? 1 + s(4) : s(2) ? 13 + s(6) : s(60);
    std::vector<std::string> rs; for (size_t i = 0; i < n; i++) rs.push_back(s(3) ? "wss://" + gen_name(s, 12) : gen_text(s, 5)); std::vector<CStr> cs; for (auto& x : rs) cs.emplace_back(x); std::unique_ptr<const char*[]> ptr(new const char*[n ? n : 1]); for (size_t i = 0; i < n; i++) ptr[i] = cs[i]; CStr cl(l), cc(c);
    Tags want; want.push_back({"relays"}); for (auto& x : rs) want[0].push_back(x); want.push_back({"amount", std::to_string(amount)}); if (has_l) want.push_back({"lnurl", l}); want.push_back({"p", hex(to.pk.data(), 32)});
    for (int tries = 0; tries < 2; tries++) {
        nostr_event* e = (nostr_event*)8; int64_t t0 = sim_wall(); Leak lk; if (tries) disarm(); else arm(s, w.pct, w.kinds, 30); nostr_error_t rc = nostr_zap_create_request(&e, amount, &pk, has_l ? (const char*)cl : nullptr, has_c ? (const char*)cc : nullptr, ptr.get(), n); Faults f = disarm(); int64_t t1 = sim_wall();
        if (rc != NOSTR_OK) { if (e && e != (nostr_event*)8) violate("dangling", "a failed nostr_zap_create_request gives an event"); lk.check("a failed nostr_zap_create_request"); if (n && !f.fired) violate("refused", "a zap request for %llu msat with %zu relays is refused: %s", (unsigned long long)amount, n, nostr_error_string(rc)); count("request_refused"); if (!n) return; continue; }
        if (!n) violate("accepted", "a zap request without relays is created"); RefEvent g = from_lib(e); if (g.kind != 9734 || g.content != (has_c ? c : "") || sorted(g.tags) != sorted(want)) violate("request-wrong", "a zap request of %llu msat (%zu relays) is kind %d, content %.100s, tags %.900s; it should be %.900s", (unsigned long long)amount, n, g.kind, g.content.c_str(), g.tags_json().c_str(), [&] { RefEvent r; r.tags = want; return r.tags_json(); }().c_str());
        if (g.created_at < std::min(t0, t1) || g.created_at > std::max(t0, t1)) violate("wrong-time", "a zap request made at %lld is dated %lld", (long long)t0, (long long)g.created_at); nostr_event_destroy(e); lk.check("nostr_zap_create_request"); count("request_created"); return;
    }
}
static void zap_lnurl(const Src& s) {
    C20& w = *w20; std::string t; int n = s(3) ? (int)s(60) : (int)s(2) ? 40 + (int)s(20) : (int)s(700); std::string url = "https://"; while ((int)url.size() < n + 8) url += (char)(33 + s(94)); std::string hrp = s(6) ? "lnurl" : s.of(std::vector<std::string>{"lnurlx", "lnur", "lnbc", "lnurl1", "lnurlp" + std::string(s(70), 'a')}); { int fg = s(10) ? -1 : (int)s(800); t = b32_encode(hrp, url, fg, "bioB!~"[s(6)], s(2) ? 255 : 31); }
    switch (s(10)) { case 0: { size_t i = s((uint32_t)t.size()); t[i] = CH[s(32)]; break; } case 1: t.resize(s((uint32_t)t.size() + 1)); break; case 2: t += CH[s(32)]; break; case 3: t.insert(s((uint32_t)t.size() + 1), 1, "b1io !%"[s(7)]); break; case 4: t = s.of(std::vector<std::string>{"", "lnurl", "lnurl1", "1", "lnurl" + std::string(s(120), 'x'), "lnurl" + std::string(s(120), '1'), "lnurl" + std::string(20 + s(70), 'q') + "1qqqqqqq", "https://example.com"}); break; case 5: if (t.size() > 8) std::swap(t[6 + s((uint32_t)t.size() - 7)], t[6]); break; default: break; }
    bool ok = false; size_t sep = t.rfind('1'); if (sep == 5 && !t.compare(0, 5, "lnurl") && t.size() - 6 >= 6) { std::vector<int> x = hrpx("lnurl"); ok = true; for (size_t i = 6; i < t.size(); i++) { const char* p = strchr(CH, t[i]); if (!p) ok = false; else x.push_back((int)(p - CH)); } ok = ok && polymod(x) == 1; }
    CStr c(t); Buf key(33); bool allows = false; Leak lk; arm(s, w.pct, w.kinds & FAULT_ALLOC, 4); nostr_error_t rc = nostr_zap_validate_lnurl(c, s(2) ? nullptr : key.c(), s(2) ? nullptr : &allows); Faults f = disarm(); lk.check("nostr_zap_validate_lnurl");
    if (rc == NOSTR_OK && !ok) violate("lnurl", "'%s' (%zu characters) is accepted as LNURL", t.c_str(), t.size()); if (rc != NOSTR_OK && ok && !f.fired) violate("lnurl", "the LNURL '%s' (%zu characters) is refused: %s", t.c_str(), t.size(), nostr_error_string(rc)); count(ok ? "lnurl_valid" : "lnurl_invalid");
}
static std::string respell(const Src& s, const RefEvent& r) {      // the same event, as another client might write it
    std::vector<std::pair<std::string, std::string>> f = {{"id", "\"" + hex(r.id.data(), 32) + "\""}, {"pubkey", "\"" + hex(r.pk.data(), 32) + "\""}, {"created_at", std::to_string(r.created_at)}, {"kind", std::to_string(r.kind)}, {"tags", r.tags_json()}, {"content", jstr(r.content)}, {"sig", "\"" + hex(r.sig.data(), 64) + "\""}};
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[s((uint32_t)i)]); std::string sp = s(2) ? " " : "", o = "{"; for (size_t i = 0; i < f.size(); i++) o += (i ? "," + sp : sp) + "\"" + f[i].first + "\":" + sp + f[i].second; return other_spelling(o + "}", s);
}
static RefEvent gen_request(const Src& s, bool has_amount, uint64_t amount) { RefEvent r; r.kind = 9734; r.created_at = 1600000000 + (int)s(1000); r.content = gen_text(s, 6); r.tags.push_back({"relays", "wss://" + gen_name(s), "wss://r2.example"}); if (s(3) == 0) r.tags.push_back(s(2) ? std::vector<std::string>{"amount"} : std::vector<std::string>{"amounts", "1"}); if (has_amount) r.tags.push_back({"amount", std::to_string(amount)}); r.tags.push_back({"p", hex(key_no(5).pk.data(), 32)}); if (s(2)) r.tags.push_back({"e", gen_hex(s, 32)}); r.seal(key_no((int)s(3))); return r; }
static void zap_parse(const Src& s) {
    C20& w = *w20; RefEvent r; r.kind = s(12) ? 9735 : (int)s.of(std::vector<int>{9734, 1, 9736}); r.created_at = 1600000000; r.tags.push_back({"p", hex(key_no(1).pk.data(), 32)}); uint64_t msat = gen_amount(s); Inv inv = gen_inv(s, s(4), msat); RefEvent rq = gen_request(s, s(2), msat); bool has_inv = s(5), has_pre = s(2), has_desc = s(4); std::string pre = s(4) ? gen_hex(s, 32) : s(2) ? gen_hex(s, (int)s(34)) : "x" + std::string(s(200), 'y'); bool badjson = s(6) == 5; std::string js = badjson ? s.of(std::vector<std::string>{"", "{", "null", rq.json().substr(0, 80), "[]"}) : respell(s, rq);
    Tags t; if (has_inv) t.push_back({"bolt11", inv.text}); if (has_pre) t.push_back({"preimage", pre}); if (has_desc) t.push_back({"description", js}); bool dup = s(8) == 7; if (dup) { if (has_inv) t.push_back({"bolt11", inv.text}); if (has_desc) t.push_back({"description", js}); if (has_pre) t.push_back({"preimage", pre}); } if (s(3) == 2) t.push_back({s.of(std::vector<std::string>{"bolt11", "preimage", "description", ""})}); if (s(3) == 2) t.push_back({"bolt12", "lnbc1"}); for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[s((uint32_t)i)]); r.tags.insert(r.tags.end(), t.begin(), t.end()); r.seal_fake(key_no(2));
    nostr_event* e; { NoFaults nf; e = make_event(r); } bool wa = s(4), wb = s(4), wp = s(4), wr = s(4); bool bad = r.kind != 9735 || (wr && has_desc && badjson);
    for (int tries = 0; tries < 2; tries++) {
        uint64_t amount = 0xA5A5A5A5A5ull; char* b = (char*)8; nostr_event* q = (nostr_event*)8; Buf p(65); Leak lk; if (tries) disarm(); else arm(s, w.pct, w.kinds & FAULT_ALLOC, 30); nostr_error_t rc = nostr_zap_parse_receipt(e, wa ? &amount : nullptr, wb ? &b : nullptr, wp ? p.c() : nullptr, wr ? &q : nullptr); Faults f = disarm();
        if (!same_event(from_lib(e), r)) violate("event-changed", "parsing changed a receipt");
        if (rc != NOSTR_OK) { if (wb && b && b != (char*)8) violate("dangling", "a failed nostr_zap_parse_receipt gives an invoice"); if (wr && q && q != (nostr_event*)8) violate("dangling", "a failed nostr_zap_parse_receipt gives a request"); lk.check("a failed nostr_zap_parse_receipt"); if (!bad && !f.fired) violate("refused", "a receipt is refused (%s): %.900s", nostr_error_string(rc), r.tags_json().c_str()); count("receipt_refused"); if (bad) break; continue; }
        if (bad) violate("accepted", "a receipt is read that is kind %d with the request %.200s", r.kind, js.c_str());
        if (wb && (has_inv ? !b || b == (char*)8 || inv.text != b : b != nullptr)) violate("misread", "the invoice of %.900s is read as %s", r.tags_json().c_str(), !b ? "nothing" : b == (char*)8 ? "(unset)" : b);
        if (wa && amount != (has_inv ? inv.msat : 0)) violate("amount", "the amount of invoice '%s' is read as %llu msat, it is %llu", has_inv ? inv.text.c_str() : "(none)", (unsigned long long)amount, (unsigned long long)(has_inv ? inv.msat : 0));
        if (wp) { std::string want = has_pre && pre.size() <= 64 ? pre : ""; if (strnlen(p.c(), 65) == 65 || want != p.c()) violate("misread", "the preimage %s is read as %.65s", want.c_str(), p.c()); }
        if (wr) { if (!has_desc) { if (q) violate("misread", "a receipt without description has a request"); } else { if (!q || q == (nostr_event*)8) violate("misread", "the request of a receipt is not given"); if (!same_event(from_lib(q), rq)) violate("misread", "a receipt's request is read with another %s", ev_diff(from_lib(q), rq).c_str()); nostr_event_destroy(q); } }
        if (wb) nostr_free(b); lk.check("nostr_zap_parse_receipt"); count("receipt_read"); break;
    }
    nostr_event_destroy(e);
}
static void zap_verify(const Src& s) {
    C20& w = *w20; bool has_amount = s(4); uint64_t msat = gen_amount(s); RefEvent rq = gen_request(s, has_amount, msat), emb = rq; RefKey server = key_no(6); std::string who = hex(server.pk.data(), 32); RefEvent r; r.kind = 9735; r.created_at = rq.created_at + 5; r.content = s(3) ? "" : gen_text(s, 3); bool ok = true, has_desc = true, has_inv = true; std::string why = "as paid"; Inv inv = gen_inv(s, true, msat); std::string desc;
    int how = (int)s(20); switch (how) {
    case 0: { uint64_t other = gen_amount(s); inv = gen_inv(s, true, other); why = "another amount"; break; } case 1: inv = gen_inv(s, false, 0); why = "no amount"; break; case 2: has_inv = false; why = "no invoice"; break; case 3: has_desc = false; ok = false; why = "no request"; break;
    case 4: emb = gen_request(s, has_amount, msat); why = "another request"; break; case 5: emb.content += "!"; why = "altered request, same id"; break; case 6: if (emb.tags.size() > 1) emb.tags.back() = {"p", hex(key_no(7).pk.data(), 32)}; why = "redirected request, same id"; break; case 7: emb.kind = 1; why = "request of another kind, same id"; break; case 8: r.kind = 9734; ok = false; why = "receipt of another kind"; break;
    case 9: desc = s.of(std::vector<std::string>{"", "{}", "x", rq.json().substr(0, 100)}); ok = false; why = "damaged request"; break; case 10: if (s(2)) who = hex(key_no(8).pk.data(), 32); else { size_t i = s(64); char c = "0123456789abcdef"[s(16)]; if (c == who[i]) c = c == '0' ? '1' : '0'; who[i] = c; } ok = false; why = "another server"; break; case 11: who = s(2) ? who.substr(0, 63) : who + "0"; ok = false; why = "malformed server"; break; case 12: emb.sig[3] ^= 1; why = "request with another signature"; break; default: break; }
    if (desc.empty() && how != 9) desc = respell(s, emb); if (has_desc) r.tags.push_back({"description", desc}); if (has_inv) r.tags.push_back({"bolt11", inv.text}); r.tags.push_back({"p", hex(key_no(5).pk.data(), 32)}); if (s(2)) std::reverse(r.tags.begin(), r.tags.end()); r.seal(how == 13 ? key_no(9) : server); if (how == 13) { ok = false; why = "receipt of another key"; }
    if (how == 14) { r.sig[s(64)] ^= (char)(1 << s(8)); ok = false; why = "altered signature"; } if (how == 15) { r.content += " "; ok = false; why = "altered receipt"; } if (how == 16) { r.pk = server.pk; r.sig = ref_sign(key_no(9), r.id); ok = false; why = "signed by another key"; } if (how == 17) { r.id[s(32)] ^= (char)(1 << s(8)); if (s(2)) r.sig = ref_sign(server, r.id); ok = false; why = "altered id"; }
    RefEvent caller = rq; if (how == 18) { caller.kind = 1; caller.seal(key_no(0)); ok = false; why = "no request"; }
    if (ok) { RefEvent x = emb; if (sha256(x.canonical()) != rq.id) ok = false; uint64_t got = has_inv ? inv.msat : 0; if (has_amount && msat && got != msat) ok = false; }
    nostr_event *e, *q; { NoFaults nf; e = make_event(r); q = make_event(caller); } CStr srv(who);
    for (int tries = 0; tries < 2; tries++) {
        Leak lk; if (tries) disarm(); else arm(s, w.pct, w.kinds, 30); nostr_error_t rc = nostr_zap_verify(e, q, srv); Faults f = disarm(); lk.check("nostr_zap_verify"); if (rc == NOSTR_OK && !ok) violate("forged-accepted", "a receipt (%s; amount %s%llu, invoice %s) proves the request %.500s: %.900s", why.c_str(), has_amount ? "" : "not ", (unsigned long long)msat, inv.text.c_str(), rq.json().c_str(), r.json().c_str());
        if (rc != NOSTR_OK && ok && !f.fired) violate("refused", "a receipt (%s; amount %s%llu, invoice %s) is refused with %s: %.900s", why.c_str(), has_amount ? "" : "not ", (unsigned long long)msat, inv.text.c_str(), nostr_error_string(rc), r.json().c_str()); count(ok ? "receipt_verified" : "receipt_rejected"); if (!same_event(from_lib(e), r) || !same_event(from_lib(q), caller)) violate("event-changed", "verification changed an event"); if (!f.fired) break; }
    nostr_event_destroy(e); nostr_event_destroy(q);
    CStr sv(w.server); if (nostr_zap_verify(w.shared_rc, w.shared_rq, sv) != NOSTR_OK) violate("refused", "a receipt several threads verify is refused");
}
static void c20_zap() {
    C20 w; w20 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); switch (g(3)) { case 0: break; case 1: w.kinds = FAULT_ALLOC; break; default: w.kinds = FAULT_ALLOC | FAULT_CRYPTO; } w.pct = w.kinds ? 40 : 0;
    { Src s = src("shared", 0); RefEvent rq = gen_request(s, true, 21000), rc; rc.kind = 9735; rc.created_at = 1600000000; rc.tags = {{"bolt11", "lnbc210n1qqqqqqqqqq"}, {"description", rq.json()}}; rc.seal(key_no(6)); w.server = hex(key_no(6).pk.data(), 32); w.shared_rq = make_event(rq); w.shared_rc = make_event(rc); }
    if (g(2)) nostr_init(); int nt = 1 + (int)g(3); for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int ops = 3 + (int)s(9); for (int k = 0; k < ops; k++) switch (s(6)) { case 0: zap_create(s); break; case 1: zap_lnurl(s); break; case 2: case 3: zap_parse(s); break; default: zap_verify(s); } });
    sim_join_spawned(); nostr_event_destroy(w.shared_rq); nostr_event_destroy(w.shared_rc); nostr_cleanup(); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C20, zap, c20_zap)
