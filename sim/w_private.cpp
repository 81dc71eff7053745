// C23: private messages (NIP-17) and gift wraps (NIP-59) — whole for the recipient, sealed by their author, silent to everyone else
#include "nip44_ref.h"
std::string other_spelling(const std::string& m, const Src& s);
#if defined(VARIANT_NOS) || defined(VARIANT_NOSJ)
static const int64_t TWO_DAYS = 172800;
struct C23 { int kinds = 0, pct = 0; std::set<std::string> eph; std::vector<int64_t> offs; int gaps_same = 0, gaps = 0; };
static C23* w23;
static std::string gen_content(const Src& s) { switch (s(8)) { case 0: return ""; case 1: return std::string(200 + s(3000), 'm') + gen_text(s, 10); case 2: return s(3) ? gen_text(s, 60) : std::string(8000 + s(9000), 'L'); default: return "msg-" + gen_name(s, 12) + gen_text(s, 20); } }
struct Opened { RefEvent wrap, seal, rumor; };
// opens a gift wrap as any other implementation would, checking each layer
static Opened open_ref(const nostr_event* e, const RefKey& to, const std::vector<std::vector<std::string>>& extra, int64_t t0, int64_t t1, size_t r0, const char* what, bool seal_known = false) {
    Opened o; o.wrap = from_lib(e); if (o.wrap.kind != 1059 || !o.wrap.authentic()) violate("wrong-wrap", "%s gives an event of kind %d, %s", what, o.wrap.kind, o.wrap.authentic() ? "authentic" : "not authentic");
    std::vector<std::vector<std::string>> want = {{"p", hex(to.pk.data(), 32)}}; for (auto& x : extra) want.push_back(x); if (o.wrap.tags != want) violate("wrong-wrap", "%s gives the tags %s", what, o.wrap.tags_json().c_str());
    if (!w23->eph.insert(o.wrap.pk).second) violate("key-reuse", "%s signs a gift wrap with a key used before", what); bool fresh = false; for (auto& d : rng_mine(r0)) if (d.size() == 32 && sk_valid(d) && ref_pub(d) == o.wrap.pk) fresh = true; if (!fresh) violate("no-fresh-randomness", "%s signs a gift wrap with a key that is not freshly drawn", what);
    auto when = [&](int64_t at, const char* part) { if (at > std::max(t0, t1) || at <= std::min(t0, t1) - TWO_DAYS) violate("wrong-time", "%s at %lld dates the %s %lld", what, (long long)t1, part, (long long)at); if (t0 == t1) w23->offs.push_back(t1 - at); };
    when(o.wrap.created_at, "gift wrap"); std::string js, js2, n1, n2; J j; if (!n44_decrypt(n44_conv(to.sk, o.wrap.pk), o.wrap.content, js, &n1) || !jparse(js, j) || !ref_from_json(j, o.seal)) violate("unreadable", "the recipient cannot open what %s made: %s", what, js.substr(0, 300).c_str());
    if (o.seal.kind != 13 || !o.seal.tags.empty() || !o.seal.authentic()) violate("wrong-seal", "the seal of %s is %s", what, js.substr(0, 500).c_str()); if (!seal_known) { when(o.seal.created_at, "seal"); w23->gaps++; if (o.seal.created_at == o.wrap.created_at) w23->gaps_same++; }
    if (!n44_decrypt(n44_conv(to.sk, o.seal.pk), o.seal.content, js2, &n2) || !jparse(js2, j) || !ref_from_json(j, o.rumor)) violate("unreadable", "the recipient cannot open the seal %s made: %s", what, js2.substr(0, 300).c_str());
    for (auto* n : {&n1, &n2}) { if (seal_known && n == &n2) continue; bool ok = false; for (auto& d : rng_mine(r0)) if (d.find(*n) != std::string::npos) ok = true; if (!ok) violate("no-fresh-randomness", "%s uses a nonce that is not freshly drawn", what); }
    if (n1 == n2) violate("no-fresh-randomness", "%s uses one nonce twice", what); return o;
}
static void silent(const Opened& o, const RefKey& from, const RefKey& to, const std::vector<std::string>& secrets, const char* what) {
    std::string wire = o.wrap.json(); if (o.wrap.pk == from.pk) violate("reveals", "%s shows its author", what); if (from.pk != to.pk && wire.find(hex(from.pk.data(), 32)) != std::string::npos) violate("reveals", "%s shows its author", what); if (wire.find(hex(o.rumor.id.data(), 32)) != std::string::npos) violate("reveals", "%s shows the id of the message", what);
    for (auto& x : secrets) if (x.size() >= 12 && wire.find(x.substr(0, 24)) != std::string::npos) violate("reveals", "%s shows '%s' in clear", what, x.substr(0, 24).c_str()); if (o.wrap.created_at == o.rumor.created_at && o.seal.created_at == o.rumor.created_at) count("same_second");
}
static RefKey third(const RefKey& a, const RefKey& b, const Src& s) { for (int i = (int)s(4);; i++) { RefKey k = key_no(8 + i % 6); if (k.pk != a.pk && k.pk != b.pk) return k; } }
// the library opens a wrap; want==nullptr: it has to refuse
static void must_unwrap(const Src& s, const nostr_event* e, const RefKey& to, const RefEvent* want, const std::string& author, bool nip17, const char* what, bool noid = false, bool maybe = false) {
    RefEvent before = from_lib(e); nostr_privkey sk = lib_sk(to);
    for (int t = 0; t < 2; t++) {
        nostr_event* o = (nostr_event*)8; std::unique_ptr<nostr_key> a(s(4) ? new nostr_key : nullptr); if (a) memset(a->data, 0xEE, 32); Leak lk; if (t) disarm(); else arm(s, w23->pct, w23->kinds, 40);
        nostr_error_t rc = nip17 ? nostr_nip17_unwrap_dm(e, &sk, &o, a.get()) : nostr_nip59_unwrap_event(e, &sk, &o, a.get()); Faults f = disarm(); if (!same_event(from_lib(e), before)) violate("argument-changed", "unwrapping changed the gift wrap");
        if (rc == NOSTR_OK) {
            if (!want) violate("accepted", "%s is unwrapped", what); if (!o || o == (nostr_event*)8) violate("dangling", "unwrapping succeeds with nothing"); RefEvent g = from_lib(o); if (noid) g.id = want->id;
            if (!same_event(g, *want)) violate("misread", "%s is unwrapped wrongly: %s", what, ev_diff(g, *want).substr(0, 500).c_str()); if (a && std::string((char*)a->data, 32) != author) violate("wrong-author", "%s is reported as somebody else's", what);
            nostr_event_destroy(o); lk.check("unwrapping"); count("unwrapped"); return; }
        if (o && o != (nostr_event*)8) violate("dangling", "a failed unwrap gives out an event"); lk.check("a failed unwrap"); if (!want) { count("refused"); return; } if (maybe) return;
        if (!f.fired) violate("refused", "%s is refused: %s", what, nostr_error_string(rc));
    }
}
static void after(const Src& s, const nostr_event* e, const Opened& o, const RefKey& from, const RefKey& to, const char* what) {
    nostr_event* e2 = nullptr; if (s(2)) { NoFaults nf; char* js = nullptr; if (nostr_event_to_json(e, &js) != NOSTR_OK || nostr_event_from_json(js, &e2) != NOSTR_OK) violate("harness", "no transport"); nostr_free(js); }
    const nostr_event* q = e2 ? e2 : e; bool own = o.rumor.pk == o.seal.pk; must_unwrap(s, q, to, s(2) || own ? &o.rumor : &o.rumor, o.seal.pk, false, what); must_unwrap(s, q, to, own ? &o.rumor : nullptr, o.seal.pk, true, what); must_unwrap(s, q, third(from, to, s), nullptr, "", s(2), "a gift wrap for somebody else");
    if (e2) { NoFaults nf; nostr_event_destroy(e2); }
}
static void make_dm(const Src& s) {
    RefKey a = key_no((int)s(5)), b = key_no((int)s(5)); std::string content = gen_content(s), subj = s(6) == 5 ? "" : "subject-" + gen_name(s, 10) + gen_text(s, 6), reply = unhex(gen_hex(s, 32)); bool has_s = s(2), has_r = s(2); int64_t at = s(3) ? 0 : 1600000000 + (int64_t)s(100000000); nostr_privkey sk = lib_sk(a); nostr_key pk = lib_pk(b); int spoil = (int)s(16); if (spoil == 15) { std::string x = bad_sk(s); memcpy(sk.data, x.data(), 32); } if (spoil == 14) { std::string x = curve_order(); memcpy(pk.data, x.data(), 32); if (!ref_ecdh(a.sk, x).empty()) memset(pk.data, 0xff, 32); }
    nostr_event* e = (nostr_event*)8; int64_t t0 = sim_wall(); size_t r0 = rng_log().size(); Leak lk; arm(s, w23->pct, w23->kinds, 60); CStr cc(content), cs(subj); nostr_error_t rc = nostr_nip17_send_dm(&e, cc, &sk, &pk, has_s ? (const char*)cs : nullptr, has_r ? (const uint8_t*)reply.data() : nullptr, at); Faults f = disarm(); int64_t t1 = sim_wall();
    if (rc != NOSTR_OK) { if (e && e != (nostr_event*)8) violate("dangling", "a failed nostr_nip17_send_dm gives out an event"); lk.check("a failed nostr_nip17_send_dm"); if (!f.fired && spoil < 14) violate("refused", "a message of %zu bytes cannot be sent: %s", content.size(), nostr_error_string(rc)); count("send_refused"); return; }
    if (spoil >= 14) violate("accepted", "a message is sent with an invalid key"); if (f.fired_rng) violate("no-fresh-randomness", "a message is sent although the random source failed");
    Opened o = open_ref(e, b, {}, t0, t1, r0, "nostr_nip17_send_dm"); std::vector<std::vector<std::string>> tags = {{"p", hex(b.pk.data(), 32)}}; if (has_s) tags.push_back({"subject", subj}); if (has_r) tags.push_back({"e", hex(reply.data(), 32)});
    if (o.seal.pk != a.pk || o.rumor.pk != a.pk) violate("wrong-author", "a message is sealed by, or made as, somebody else"); if (o.rumor.kind != 14 || o.rumor.content != content || o.rumor.tags != tags) violate("message-wrong", "the message sent is %s", o.rumor.json().substr(0, 600).c_str());
    if (at ? o.rumor.created_at != at : (o.rumor.created_at < std::min(t0, t1) || o.rumor.created_at > std::max(t0, t1))) violate("wrong-time", "a message of %lld is dated %lld", (long long)(at ? at : t1), (long long)o.rumor.created_at);
    if (o.rumor.id != sha256(o.rumor.canonical())) violate("wrong-id", "the message sent does not have its own id: %s", o.rumor.json().substr(0, 500).c_str()); if (!all_zero(o.rumor.sig.data(), 64)) violate("signed", "the message inside is signed");
    silent(o, a, b, {content, has_s ? subj : ""}, "a private message"); count("sent"); after(s, e, o, a, b, "a message sent"); { NoFaults nf; nostr_event_destroy(e); } lk.check("a private message");
}
static void make_steps(const Src& s) {          // the same by single steps, and any event in a gift wrap
    RefKey a = key_no((int)s(5)), b = key_no((int)s(5)); nostr_privkey sk = lib_sk(a); nostr_key apk = lib_pk(a), bpk = lib_pk(b); bool n17 = s(2), whole = !n17 && s(2); int kind = s(3) ? (int)s(2) + 14 : (int)s(65536); std::string content = gen_content(s); int64_t at = s(2) ? 0 : 1500000000 + (int64_t)s(1000000); nostr_event* r = nullptr; Leak lk;
    int64_t t0 = sim_wall(); size_t r0 = rng_log().size(); RefEvent want;
    if (s(3)) {
        bool nocontent = !n17 && s(5) == 4; CStr cc(content); for (int t = 0; t < 2; t++) { r = (nostr_event*)8; if (t) disarm(); else arm(s, w23->pct, w23->kinds, 12); nostr_error_t rc = n17 ? nostr_nip17_create_rumor(&r, (uint16_t)kind, &apk, cc, at) : nostr_nip59_create_rumor(&r, (uint16_t)kind, &apk, nocontent ? nullptr : (const char*)cc); Faults f = disarm(); if (rc == NOSTR_OK) break; if (r && r != (nostr_event*)8) violate("dangling", "a failed create_rumor gives out an event"); lk.check("a failed create_rumor"); if (!f.fired) violate("refused", "a rumor cannot be made: %s", nostr_error_string(rc)); }
        int64_t t1 = sim_wall(); want = from_lib(r); if (nocontent) content = ""; if (want.kind != kind || want.pk != a.pk || want.content != content || !want.tags.empty() || want.id != sha256(want.canonical()) || !all_zero(want.sig.data(), 64)) violate("message-wrong", "the rumor is %s", want.json().substr(0, 500).c_str());
        if (n17 && at ? want.created_at != at : (want.created_at < std::min(t0, t1) || want.created_at > std::max(t0, t1))) violate("wrong-time", "a rumor is dated %lld", (long long)want.created_at);
    } else { want.kind = kind; want.created_at = 1400000000 + (int64_t)s(200000000); want.content = content.substr(0, 6000); want.tags = gen_tags(s); RefKey x = s(2) ? a : key_no((int)s(8)); if (s(2)) want.seal(x); else { want.pk = x.pk; want.id = sha256(want.canonical()); } NoFaults nf; r = make_event(want); }
    auto tick = [&] { t0 = sim_wall(); r0 = rng_log().size(); }; tick(); nostr_event *seal = nullptr, *wrap = nullptr; std::vector<std::vector<std::string>> extra; bool seal_known = false; Faults f; Opened o;
    if (whole) {
        for (int t = 0; t < 2; t++) { tick(); wrap = (nostr_event*)8; Leak l2; if (t) disarm(); else arm(s, w23->pct, w23->kinds, 60); nostr_error_t rc = nostr_nip59_wrap_event(&wrap, r, &sk, &bpk); f = disarm(); if (rc == NOSTR_OK) break; if (wrap && wrap != (nostr_event*)8) violate("dangling", "a failed nostr_nip59_wrap_event gives out an event"); l2.check("a failed nostr_nip59_wrap_event"); if (!f.fired) violate("refused", "an event cannot be wrapped: %s", nostr_error_string(rc)); }
    } else {
        for (int t = 0; t < 2; t++) { tick(); seal = (nostr_event*)8; Leak l2; if (t) disarm(); else arm(s, w23->pct, w23->kinds, 40); nostr_error_t rc = n17 ? nostr_nip17_create_seal(&seal, r, &sk, &bpk) : nostr_nip59_create_seal(&seal, r, &sk, &bpk); f = disarm(); if (rc == NOSTR_OK) break; if (seal && seal != (nostr_event*)8) violate("dangling", "a failed create_seal gives out an event"); l2.check("a failed create_seal"); if (!f.fired) violate("refused", "a seal cannot be made: %s", nostr_error_string(rc)); }
        if (f.fired_rng) violate("no-fresh-randomness", "a seal is made although the random source failed"); RefEvent sl = from_lib(seal); int64_t t1 = sim_wall(); if (sl.kind != 13 || sl.pk != a.pk || !sl.tags.empty() || !sl.authentic()) violate("wrong-seal", "the seal is %s", sl.json().substr(0, 400).c_str()); if (sl.created_at > std::max(t0, t1) || sl.created_at <= std::min(t0, t1) - TWO_DAYS) violate("wrong-time", "a seal made at %lld is dated %lld", (long long)t1, (long long)sl.created_at); if (t0 == t1) w23->offs.push_back(t1 - sl.created_at);
        seal_known = true; std::vector<std::string> flat; if (!n17) for (int i = (int)s(3); i > 0; i--) extra.push_back({s(2) ? "expiration" : gen_name(s, 3), gen_text(s, 6)}); for (auto& x : extra) for (auto& y : x) flat.push_back(y); std::vector<const char*> fp; for (auto& x : flat) fp.push_back(x.c_str());
        for (int t = 0; t < 2; t++) { tick(); wrap = (nostr_event*)8; Leak l2; if (t) disarm(); else arm(s, w23->pct, w23->kinds, 40); nostr_error_t rc = n17 ? nostr_nip17_create_gift_wrap(&wrap, seal, &bpk) : nostr_nip59_create_gift_wrap(&wrap, seal, &bpk, fp.empty() ? nullptr : fp.data(), fp.size()); f = disarm(); if (rc == NOSTR_OK) break; if (wrap && wrap != (nostr_event*)8) violate("dangling", "a failed create_gift_wrap gives out an event"); l2.check("a failed create_gift_wrap"); if (!f.fired) violate("refused", "a gift wrap cannot be made: %s", nostr_error_string(rc)); }
        if (!same_event(from_lib(seal), sl)) violate("argument-changed", "wrapping changed the seal"); }
    if (f.fired_rng) violate("no-fresh-randomness", "a gift wrap is made although the random source failed"); if (!same_event(from_lib(r), want)) violate("argument-changed", "wrapping changed the event");
    o = open_ref(wrap, b, extra, t0, sim_wall(), r0, "wrapping", seal_known); if (o.seal.pk != a.pk) violate("wrong-author", "an event is sealed by somebody else"); if (!same_event(o.rumor, want)) violate("message-wrong", "the event wrapped is %s, not %s", o.rumor.json().substr(0, 400).c_str(), want.json().substr(0, 400).c_str());
    bool tells = false; for (auto& x : extra) for (auto& y : x) if (y.size() >= 12) tells = true; if (!tells) silent(o, a, b, {content}, "a gift wrap"); count("wrapped"); after(s, wrap, o, a, b, "an event wrapped"); { NoFaults nf; nostr_event_destroy(wrap); nostr_event_destroy(seal); nostr_event_destroy(r); } lk.check("a gift wrap");
}
static std::string spell(const Src& s, const RefEvent& r, bool nosig, bool noid) {        // another implementation's spelling
    std::vector<std::string> f = {"\"pubkey\":\"" + hex(r.pk.data(), 32) + "\"", "\"created_at\":" + std::to_string(r.created_at), "\"kind\":" + std::to_string(r.kind), "\"tags\":" + r.tags_json(), "\"content\":" + jstr(r.content)}; if (!noid) f.push_back("\"id\":\"" + hex(r.id.data(), 32) + "\""); if (!nosig) f.push_back("\"sig\":\"" + hex(r.sig.data(), 64) + "\"");
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[s((uint32_t)i)]); std::string o = "{"; for (size_t i = 0; i < f.size(); i++) o += (i ? std::string(",") + (s(4) ? "" : " ") : "") + f[i]; return o + "}";
}
static void foreign(const Src& s) {
    RefKey a = key_no((int)s(5)), b = key_no((int)s(5)), eph = ref_key("eph" + std::to_string(s(1000000))), evil = third(a, b, s); RefEvent r; r.kind = 14; r.created_at = 1600000000 + (int64_t)s(99999999); r.content = gen_content(s); if (r.content.size() > 5000) r.content.resize(5000); r.tags = gen_tags(s); r.pk = a.pk; r.sig = std::string(64, 0); r.id = sha256(r.canonical()); bool nosig = s(4) != 0, noid = s(8) == 7;
    int k = (int)s(26); if (k > 17) k = 0; bool good17 = true, good59 = true; bool both = true; const char* what = "another implementation's message"; RefKey sealer = a; std::string rj;
    if (k == 1) { sealer = evil; good17 = false; what = "a message in somebody else's name"; }                 // 59 reports the sealer as author
    rj = spell(s, r, nosig, noid); if (k == 2) { std::string q = r.pk; RefEvent x = r; if (s(2)) x.pk = std::string(32, 0); else x.pk[s(32)] ^= 1 << s(8); rj = spell(s, x, nosig, noid); good17 = false; r.pk = x.pk; what = "a message in another name"; }
    if (k != 4) rj = other_spelling(rj, s); if (k == 3) { rj = "x" + gen_text(s, 30) + "{"; good17 = good59 = false; what = "a seal that holds no event"; } if (k == 4) { size_t at = rj.find("\"pubkey\""); rj.replace(at, 8, "\"pubkez\""); good17 = false; both = false; what = "a message without an author"; }
    std::string conv1 = n44_conv(sealer.sk, b.pk), n1 = unhex(gen_hex(s, 32)), n2 = unhex(gen_hex(s, 32)); RefEvent sl; sl.kind = 13; sl.created_at = 1600000000 + (int64_t)s(99999999); sl.content = n44_encrypt(conv1, n1, rj); if (k == 5) { static const std::vector<int> ks = {1059, 1, 14, 12, 269, 15, 0, 1060}; sl.kind = s(2) ? s.of(ks) : (int)s(3000); if (sl.kind == 13) sl.kind = 14; good17 = good59 = false; what = "a seal of another kind"; }
    if (k == 6) { sl.content = n44_encrypt(n44_conv(evil.sk, b.pk), n1, rj); good17 = good59 = false; what = "a seal encrypted by somebody else"; } sl.seal(sealer);
    if (k == 7) { sl.sig[s(64)] ^= 1 << s(8); good17 = good59 = false; what = "a seal with a forged signature"; } if (k == 8) { sl.pk = a.pk; sl.id = sha256(sl.canonical()); sl.sig = ref_sign(evil, sl.id); good17 = good59 = false; what = "a seal signed by somebody else"; } if (k == 9) { sl.created_at++; good17 = good59 = false; what = "a seal that was altered"; } if (k == 10) { sl.sig = std::string(64, 0); good17 = good59 = false; what = "an unsigned seal"; }
    if (k == 11) { sl.id[s(32)] ^= 1 << s(8); if (s(2)) sl.sig = ref_sign(sealer, sl.id); good17 = good59 = false; what = "a seal with another id"; }
    std::string sj = spell(s, sl, k == 10 && s(2), false); sj = other_spelling(sj, s); if (k == 12) { sj = s(2) ? "x" : "x" + gen_text(s, 20) + "[]"; good17 = good59 = false; what = "a wrap that holds no event"; }
    RefEvent w; w.kind = 1059; w.created_at = 1600000000; w.tags = {{"p", hex(b.pk.data(), 32)}}; w.content = n44_encrypt(n44_conv(eph.sk, b.pk), n2, sj); w.seal(eph);
    if (k == 13) { w.kind = s(2) ? 1058 : (int)s(2000); if (w.kind == 1059) w.kind = 13; w.seal(eph); good17 = good59 = false; what = "an event that is no gift wrap"; } if (k == 14) { std::string raw; b64d(w.content, raw); raw[s((uint32_t)raw.size())] ^= 1 << s(8); w.content = b64e(raw); good17 = good59 = false; what = "an altered gift wrap"; } if (k == 15) { w.pk = evil.pk; good17 = good59 = false; what = "a gift wrap under another key"; } if (k == 16) { w.content = s(3) ? gen_text(s, 20) : ""; good17 = good59 = false; what = "a gift wrap without a payload"; }
    if (k == 17) { w.content = sj; good17 = good59 = false; what = "a gift wrap in clear"; }
    nostr_event* e; { NoFaults nf; e = make_event(w); } if (nosig && k == 0) r.sig = std::string(64, 0); must_unwrap(s, e, b, good17 ? &r : nullptr, sealer.pk, true, what, noid); if (both) must_unwrap(s, e, b, good59 ? &r : nullptr, sealer.pk, false, what, noid); count(good17 ? "foreign_good" : "foreign_bad"); { NoFaults nf; nostr_event_destroy(e); }
}
static void c23_thread(int id) { Src s = src("actor", id); int n = 1 + (int)s(5); for (int i = 0; i < n; i++) switch (s(8)) { case 0: case 1: case 2: make_dm(s); break; case 3: case 4: case 5: make_steps(s); break; default: foreign(s); break; } }
static void c23_run() {
    n44_selfcheck(); C23 w; w23 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 1 + (int)g(3); w.kinds = (int)g(8); w.pct = w.kinds ? 40 : 0; if (g(2) && nostr_init() != NOSTR_OK) violate("init", "nostr_init fails"); if (g(4) == 3) sim_after(1 + g(200), [] { sim_clock_jump(3600); });
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { c23_thread(i); }); sim_join_spawned(); nostr_cleanup();
    std::set<int64_t> d(w.offs.begin(), w.offs.end()); if (w.offs.size() >= 4 && d.size() < w.offs.size() / 2) violate("not-hidden", "the %zu seals and gift wraps were back-dated by only %zu different times", w.offs.size(), d.size()); if (w.gaps >= 3 && w.gaps_same == w.gaps) violate("not-hidden", "seal and gift wrap always share their time");
    for (auto& x : w.offs) count(x < 43200 ? "offset_q1" : x < 86400 ? "offset_q2" : x < 129600 ? "offset_q3" : "offset_q4");
    if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C23, private, c23_run)
#endif
