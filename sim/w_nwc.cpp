// C24: remote signing (NIP-46); C25: wallet connections, requests and answers (NIP-47); C26: their parameters and results
#include "nip44_ref.h"
std::string other_spelling(const std::string& m, const Src& s);
std::string with_nul(const std::string& m, const Src& s);
#if defined(VARIANT_NOS) || defined(VARIANT_NOSJ)
struct CN { int kinds = 0, pct = 0; };
static CN* wn;
static std::string gen_json(const Src& s, int depth = 0) {
    switch (s(depth > 2 ? 5 : 8)) { case 0: return jstr(gen_text(s, 10)); case 1: return std::to_string((int)s(1000000)); case 2: return s(2) ? "true" : "false"; case 3: return s(2) ? std::to_string((long long)s(2000000000) * 400000) : "-" + std::to_string(1 + s(5000)); case 4: return jstr(gen_name(s)); case 5: { std::string o = "["; int n = (int)s(4); for (int i = 0; i < n; i++) o += (i ? "," : "") + gen_json(s, depth + 1); return o + "]"; } default: { std::string o = "{"; int n = (int)s(4); for (int i = 0; i < n; i++) o += (i ? std::string(",") : "") + (s(4) == 3 ? " " : "") + "\"k" + std::to_string(i) + gen_name(s, 4) + "\":" + gen_json(s, depth + 1); return o + "}"; } }
}
static std::string any_text(const Src& s) { switch (s(10)) { case 0: return ""; case 1: return std::to_string(s(100000)) + (s(2) ? " monkeys" : ""); case 2: return s(2) ? "true" : "null"; case 3: return hex(key_no((int)s(12)).pk.data(), 32); case 4: return gen_json(s); case 5: return s(2) ? "ack" : "pong"; case 6: return s(4) ? gen_text(s, 40) : std::string(4000 + s(20000), 'r'); default: return gen_text(s, 12); } }
static nostr_event* lib_event(const RefEvent& r) { NoFaults nf; return make_event(r); }
static void drop(nostr_event* e) { NoFaults nf; nostr_event_destroy(e); }
static std::string take(char* p) { std::string r = p ? p : "\1"; nostr_free(p); return r; }

extern "C" void* sim_malloc(size_t);
// ------------------------------------------------------------------ C24
static void n46_request(const Src& s) {
    RefKey client = key_no((int)s(4)), signer = key_no(4 + (int)s(4)); std::string id = s(4) ? gen_hex(s, 1 + (int)s(32)) : gen_text(s, 10), method = s.of(std::vector<std::string>{"connect", "sign_event", "ping", "get_public_key", "nip44_encrypt", "nip44_decrypt", "nip04_decrypt", "switch_relays"}); bool longid = s(12) == 11; if (longid) id = std::string(65 + s(40), 'i'); else if (id.size() > 64 || s(12) == 11) { id = std::string(64, 'j'); } bool longm = s(16) == 15; if (longm) method = std::string(32 + s(30), 'm'); else if (s(16) == 15) method = std::string(31, 'n');
    std::string params = "["; int np = (int)s(4); for (int i = 0; i < np; i++) params += (i ? "," : "") + jstr(any_text(s)); params += "]"; bool noparams = s(12) == 11; int k = (int)s(20); std::vector<std::string> f = {"\"id\":" + jstr(id), "\"method\":" + jstr(method)}; if (!noparams) f.push_back("\"params\":" + params); for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[s((uint32_t)i)]); std::string js = "{"; for (size_t i = 0; i < f.size(); i++) js += (i ? std::string(",") + (s(3) ? "" : " ") : "") + f[i]; js += "}"; js = other_spelling(js, s);
    bool good = !longid && !longm; const char* what = longid ? "a request with an id that does not fit" : longm ? "a request with a method that does not fit" : "a request"; if (k == 0) { js = js.substr(0, s((uint32_t)js.size())); if (js.empty()) js = "{"; good = false; what = "a request cut short"; } if (k == 1) { js = "x" + gen_text(s, 10) + "["; good = false; what = "a text that is no request"; } if (k == 7) { js = s(3) == 0 ? "{\"id\":" + jstr(id) + ",\"params\":" + params + "}" : s(2) ? "{\"method\":" + jstr(method) + ",\"params\":" + params + "}" : s(2) ? "{\"id\":7,\"method\":" + jstr(method) + "}" : "[" + jstr(id) + "," + jstr(method) + "]"; good = false; what = "a request without an id or a method"; } if (k == 8 && good) { std::string u = with_nul(js, s); if (s(4) == 3) u = js + std::string(1, '\0') + (s(2) ? "x" : js); good = u == js; js = u; what = "a request with a NUL character in its text"; }
    RefEvent e; e.kind = 24133; e.created_at = 1700000000; e.tags = {{"p", hex(signer.pk.data(), 32)}}; e.content = n44_encrypt(n44_conv(client.sk, signer.pk), unhex(gen_hex(s, 32)), js); if (k == 2) { e.kind = (int)s(30000); if (e.kind == 24133) e.kind = 1; good = false; what = "an event of another kind"; } if (k == 3) { std::string raw; b64d(e.content, raw); raw[s((uint32_t)raw.size())] ^= 1 << s(8); e.content = b64e(raw); good = false; what = "an altered request"; } if (k == 4) { e.content = js; good = false; what = "a request in clear"; } e.seal(client); if (k == 5) { e.pk = key_no(9).pk; good = false; what = "a request in somebody else's name"; } RefKey me = signer; if (k == 6) { me = key_no(10); good = false; what = "a request to somebody else"; }
    nostr_event* ev = lib_event(e); nostr_privkey sk = lib_sk(me);
    for (int t = 0; t < 2; t++) { Leak lk; std::unique_ptr<nostr_nip46_request_t> r(new nostr_nip46_request_t); memset(r.get(), 0xEE, sizeof *r); if (t) disarm(); else arm(s, wn->pct, wn->kinds, 30); nostr_error_t rc = nostr_nip46_parse_request(ev, &sk, r.get()); Faults fl = disarm();
        if (rc != NOSTR_OK) { if (r->params) violate("dangling", "a failed nostr_nip46_parse_request gives out parameters"); lk.check("a failed nostr_nip46_parse_request"); if (!good) { count("n46_refused"); break; } if (!fl.fired) violate("refused", "the request %s is refused: %s", js.substr(0, 300).c_str(), nostr_error_string(rc)); continue; }
        if (!good) violate("accepted", "%s is accepted: id '%.64s' method '%.31s'", what, r->id, r->method); J a, b; if (id != r->id || method != r->method || std::string((char*)r->sender_pubkey.data, 32) != client.pk) violate("misread", "the request %s is read as id '%.64s' method '%.31s'", js.substr(0, 300).c_str(), r->id, r->method);
        if (noparams ? r->params != nullptr : (!r->params || r->params_len != strlen(r->params) || !jparse(r->params, a) || !jparse(params, b) || !jeq(a, b))) violate("misread", "the request %s is read with the parameters %.300s", js.substr(0, 400).c_str(), r->params ? r->params : "(none)"); nostr_nip46_request_free(r.get()); if (r->params) violate("dangling", "a freed request still has parameters"); nostr_nip46_request_free(r.get()); lk.check("nostr_nip46_parse_request and free"); count("n46_request"); break; }
    drop(ev);
}
static void n46_response(const Src& s) {
    RefKey client = key_no((int)s(4)), signer = key_no(4 + (int)s(4)); nostr_nip46_response_t r; memset(&r, 0, sizeof r); std::string id = s(6) == 5 ? std::string(64, 'q') : gen_text(s, 8); if (id.size() > 64) id.resize(0); strcpy(r.id, id.c_str()); std::string result = any_text(s), error = gen_text(s, 10); bool he = s(4) == 3, hr = !he && s(8) != 7;
    CStr cr(result), ce(error); r.result = hr ? (char*)(const char*)cr : nullptr; r.error = he ? (char*)(const char*)ce : nullptr; nostr_privkey sk = lib_sk(signer); nostr_key pk = lib_pk(client); int spoil = (int)s(16); if (spoil == 15) memcpy(sk.data, bad_sk(s).data(), 32); if (spoil == 14) memset(pk.data, 0xff, 32);
    for (int t = 0; t < 2; t++) { Leak lk; nostr_event* e = (nostr_event*)8; int64_t t0 = sim_wall(); size_t r0 = rng_log().size(); if (t) disarm(); else arm(s, wn->pct, wn->kinds, 40); nostr_error_t rc = nostr_nip46_create_response(&r, &sk, &pk, &e); Faults f = disarm(); int64_t t1 = sim_wall();
        if (rc != NOSTR_OK) { if (e && e != (nostr_event*)8) violate("dangling", "a failed nostr_nip46_create_response gives out an event"); lk.check("a failed nostr_nip46_create_response"); if (spoil >= 14) return; if (!f.fired) violate("refused", "a response cannot be made: %s", nostr_error_string(rc)); continue; }
        if (spoil >= 14) violate("accepted", "a response is made with an invalid key"); RefEvent g = from_lib(e); std::vector<std::vector<std::string>> tags = {{"p", hex(client.pk.data(), 32)}}; if (g.kind != 24133 || g.pk != signer.pk || g.tags != tags || !g.authentic() || g.created_at < std::min(t0, t1) || g.created_at > std::max(t0, t1)) violate("response-wrong", "the response event is %s", g.json().substr(0, 500).c_str());
        std::string js, nonce; J j; if (!n44_decrypt(n44_conv(client.sk, signer.pk), g.content, js, &nonce) || !jparse(js, j) || !j.is(J::OBJ)) violate("response-wrong", "the client cannot open the response: %s", js.substr(0, 300).c_str()); const J *i = j.get("id"), *q = j.get("result"), *x = j.get("error");
        if (j.has("id") != 1 || !i->is(J::STR) || i->s != id || (he ? !x || !x->is(J::STR) || x->s != error : x && !x->is(J::NUL)) || (hr ? !q || !q->is(J::STR) || q->s != result : q && !q->is(J::NUL))) violate("response-wrong", "the response to '%s' with %s '%s' says %s", id.c_str(), he ? "the error" : hr ? "the result" : "no result", he ? error.c_str() : result.substr(0, 200).c_str(), js.substr(0, 400).c_str());
        bool fresh = false; for (auto& d : rng_mine(r0)) if (d.find(nonce) != std::string::npos) fresh = true; if (!fresh) violate("no-fresh-randomness", "a response uses a nonce that is not freshly drawn"); std::string wire = g.json(); if (hr && result.size() >= 16 && wire.find(result.substr(0, 40)) != std::string::npos && result.find(hex(client.pk.data(), 32)) == std::string::npos && result.find(hex(signer.pk.data(), 32)) == std::string::npos) violate("reveals", "the response shows its result in clear"); drop(e); lk.check("nostr_nip46_create_response"); count("n46_response");
        if (s(3) == 2) { Leak l2; auto own = [&](const std::string& x) { char* p = (char*)sim_malloc(x.size() + 1); memcpy(p, x.c_str(), x.size() + 1); return p; }; nostr_nip46_response_t o; memset(&o, 0, sizeof o); strcpy(o.id, r.id); if (hr) o.result = own(result); if (he || s(3) == 2) o.error = own(error); nostr_nip46_response_free(&o); if (o.result || o.error) violate("dangling", "a freed response still has its texts"); nostr_nip46_response_free(&o); l2.check("nostr_nip46_response_free"); count("n46_response_freed"); }
        return; }
}
static void c24_thread(int id) { Src s = src("actor", id); int n = 2 + (int)s(8); for (int i = 0; i < n; i++) s(2) ? n46_request(s) : n46_response(s); }

// ------------------------------------------------------------------ C25
struct Conn { RefKey service, client; std::vector<std::string> relays; std::string lud16; bool has_lud = false; std::string uri; bool good = true; };
static std::string pct(const std::string& x, const Src& s, int mode) { std::string o; char b[4]; for (unsigned char c : x) if (mode == 0 ? !isalnum(c) && !strchr("-._~", c) : mode == 1 ? (c == '%' || c == '&' || c == '?' || c == '=' || c == '#' || c == '+' || c <= ' ' || c >= 127) : (c == '%' || c == '&' || s(4) == 0)) { snprintf(b, 4, s(2) ? "%%%02X" : "%%%02x", c); o += b; } else o += (char)c; return o; }
static Conn gen_conn(const Src& s) {
    Conn c; c.service = key_no((int)s(5)); c.client = key_no(5 + (int)s(5)); int nr = s(8) ? 1 + (int)s(3) : s(2) ? 4 + (int)s(14) : 0; std::vector<std::string> parts; for (int i = 0; i < nr; i++) { std::string r = "wss://relay" + std::to_string(i) + gen_name(s, 5) + ".example" + (s(3) ? "" : "/p?x=1&y=%41"); c.relays.push_back(r); parts.push_back("relay=" + pct(r, s, (int)s(3))); }
    std::string sec = hex(c.client.sk.data(), 32), sv = hex(c.service.pk.data(), 32); if (s(6) == 5) for (auto& x : sec) x = (char)toupper(x); if (s(6) == 5) for (auto& x : sv) x = (char)toupper(x); if (nr == 0) c.good = false; int k = (int)s(24); bool nosec = false; static const std::vector<std::string> junk = {" ", "+", "-", "g", "G", "x", "/", ":", "@", "`", "\t", "\x80"};
    if (k == 0) { nosec = true; c.good = false; } if (k == 1) { sec[s(64)] = s.of(junk)[0]; c.good = false; } if (k == 2) { if (s(2)) sec.pop_back(); else sec += "0"; c.good = false; } if (k == 3) { sv[s(64)] = s.of(junk)[0]; c.good = false; } if (k == 4) { if (s(2)) sv.pop_back(); else sv += "0"; c.good = false; }
    if (!nosec) parts.push_back("secret=" + sec); if (s(2)) { c.has_lud = true; c.lud16 = gen_name(s) + "+x@exa mple.com"; if (s(6) == 5) parts.push_back("lud16=" + pct("other@else.where", s, 0)); parts.push_back("lud16=" + pct(c.lud16, s, (int)s(2))); } if (s(4) == 3) parts.push_back("name=" + pct(gen_text(s, 5), s, 0)); if (s(8) == 7) parts.push_back("flag"); if (s(8) == 7) parts.push_back("");
    if (parts.size() > 1) for (size_t i = parts.size(); i > 1; i--) { size_t q = s((uint32_t)i); bool keep = parts[i - 1].substr(0, 5) == "relay" || parts[q].substr(0, 5) == "relay" || parts[i - 1].substr(0, 5) == "lud16" || parts[q].substr(0, 5) == "lud16"; if (!keep) std::swap(parts[i - 1], parts[q]); } if (s(2)) { for (size_t i = 0; i < parts.size(); i++) if (parts[i].substr(0, 6) == "secret") std::rotate(parts.begin(), parts.begin() + i, parts.begin() + i + 1); }
    std::string q; for (size_t i = 0; i < parts.size(); i++) q += (i ? "&" : "") + parts[i]; c.uri = "nostr+walletconnect://" + sv + "?" + q; if (k == 5) { c.uri = "nostrwalletconnect://" + sv + "?" + q; c.good = false; } if (k == 6) { c.uri = "nostr+walletconnect://" + sv; c.good = false; } if (k == 7) { c.uri = c.uri.substr(0, s(110)); c.good = false; } return c;
}
static nwc_connection* parse_conn(const Src& s, const Conn& c) {
    CStr u(c.uri); for (int t = 0; t < 2; t++) { uint64_t m = alloc_mark(); Leak lk; nwc_connection* o = (nwc_connection*)8; if (t) disarm(); else arm(s, wn->pct, wn->kinds & FAULT_ALLOC, 14); nostr_error_t rc = nostr_nip47_parse_connection_uri(u, &o); Faults f = disarm();
        if (rc != NOSTR_OK) { if (o != (nwc_connection*)8 && o) violate("dangling", "a failed nostr_nip47_parse_connection_uri gives out a connection"); lk.check("a failed nostr_nip47_parse_connection_uri"); if (!c.good) { count("uri_refused"); return nullptr; } if (!f.fired) violate("refused", "the connection %s is refused: %s", c.uri.c_str(), nostr_error_string(rc)); continue; }
        if (!c.good) violate("accepted", "the connection '%s' is accepted", c.uri.c_str()); if (!o || o == (nwc_connection*)8) violate("dangling", "no connection"); for (auto& r : c.relays) if (!live_has(m, r.c_str(), r.size() + 1)) violate("connection-wrong", "the relay %s of %s is lost", r.c_str(), c.uri.c_str()); if (c.has_lud && !live_has(m, c.lud16.c_str(), c.lud16.size() + 1)) violate("connection-wrong", "the address %s of %s is lost", c.lud16.c_str(), c.uri.c_str()); count("uri_parsed"); return o; }
    return nullptr;
}
static std::string nwc_request(const Src& s, const Conn& c, const nwc_connection* conn) {
    std::string method = s.of(std::vector<std::string>{"pay_invoice", "get_balance", "make_invoice", "lookup_invoice", "get_info"}), params = gen_json(s); if (s(10) == 9) method = gen_text(s, 12); if (params[0] != '{') params = "{\"v\":" + params + "}"; if (s(12) == 11) params = "{\"memo\":\"" + std::string(7000 + s(3000), 'z') + "\",\"amount\":21}"; bool good = true; if (s(14) == 13) { J j; params = s(3) == 0 ? params.substr(0, s((uint32_t)params.size())) : s(2) ? params + ",\"extra\":1" : params + "}"; good = jparse(params, j); }
    CStr cm(method), cp(params); nostr_event* e = nullptr; bool legacy = s(16) == 15;
    for (int t = 0; t < 2; t++) { e = (nostr_event*)8; Leak lk; int64_t t0 = sim_wall(); size_t r0 = rng_log().size(); if (t) disarm(); else arm(s, wn->pct, wn->kinds, 40); nostr_error_t rc = nostr_nip47_create_request_event(&e, conn, cm, cp, !legacy); Faults f = disarm(); int64_t t1 = sim_wall();
        if (rc != NOSTR_OK) { if (e && e != (nostr_event*)8) violate("dangling", "a failed nostr_nip47_create_request_event gives out an event"); lk.check("a failed nostr_nip47_create_request_event"); if (!good || legacy) { count("request_refused"); return ""; } if (!f.fired) violate("refused", "the request %s(%s) is refused: %s", method.c_str(), params.substr(0, 200).c_str(), nostr_error_string(rc)); continue; }
        if (!good) violate("accepted", "a request is made of the parameters %s", params.substr(0, 300).c_str()); RefEvent g = from_lib(e); if (g.kind != 23194 || g.pk != c.client.pk || !g.authentic() || g.created_at < std::min(t0, t1) || g.created_at > std::max(t0, t1)) violate("request-wrong", "the request event is %s", g.json().substr(0, 500).c_str());
        bool p = false, enc = false; for (auto& x : g.tags) { if (x.size() > 1 && x[0] == "p" && x[1] == hex(c.service.pk.data(), 32)) p = true; if (x.size() > 1 && x[0] == "encryption" && x[1] == "nip44_v2") enc = true; } if (!p || !enc) violate("request-wrong", "the request event has the tags %s", g.tags_json().c_str());
        std::string js, nonce; J j, want; if (!n44_decrypt(n44_conv(c.service.sk, c.client.pk), g.content, js, &nonce) || !jparse(js, j) || !j.is(J::OBJ)) violate("request-wrong", "the wallet cannot open the request %s(%s): %zu bytes %s", method.c_str(), params.substr(0, 60).c_str(), js.size(), js.substr(0, 200).c_str()); jparse(params, want); if (j.has("method") != 1 || j.has("params") != 1 || j.get("method")->s != method || !jeq(*j.get("params"), want) || j.o.size() != 2) violate("request-wrong", "the request %s(%s) says %s", method.c_str(), params.substr(0, 200).c_str(), js.substr(0, 400).c_str());
        bool fresh = false; for (auto& d : rng_mine(r0)) if (d.find(nonce) != std::string::npos) fresh = true; if (!fresh) violate("no-fresh-randomness", "a request uses a nonce that is not freshly drawn"); std::string id = g.id; drop(e); lk.check("nostr_nip47_create_request_event"); count("request"); return id; }
    return "";
}
static void nwc_answer(const Src& s, const Conn& c, const std::string& reqid) {
    bool notif = s(3) == 2; std::string type = s.of(std::vector<std::string>{"pay_invoice", "get_balance", "payment_received"}), result = gen_json(s), code = s(2) ? "QUOTA_EXCEEDED" : gen_text(s, 6), msg = gen_text(s, 16); if (result[0] != '{') result = "{\"v\":" + result + "}"; bool err = !notif && s(3) == 2, notype = s(16) == 15, plain = false; std::string js;
    if (notif) js = std::string("{") + (notype ? "" : "\"notification_type\":" + jstr(type) + ",") + "\"notification\":" + result + "}"; else { std::vector<std::string> f; if (!notype) f.push_back("\"result_type\":" + jstr(type)); if (err) { f.push_back("\"error\":{\"code\":" + jstr(code) + ",\"message\":" + jstr(msg) + "}"); if (s(2)) f.push_back("\"result\":null"); } else { f.push_back("\"result\":" + result); if (s(2)) f.push_back("\"error\":null"); } for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[s((uint32_t)i)]); js = "{"; for (size_t i = 0; i < f.size(); i++) js += (i ? "," : "") + f[i]; js += "}"; } js = other_spelling(js, s);
    int k = (int)s(18); bool good = true; const char* what = "an answer"; if (k == 0) { js = js.substr(0, 1 + s((uint32_t)js.size() - 1)); good = false; what = "an answer cut short"; } if (k == 7) { std::string u = with_nul(js, s); if (s(4) == 3) u = js + std::string(1, '\0') + "}"; good = u == js; js = u; what = "an answer with a NUL character in its text"; } RefEvent e; e.kind = notif ? 23197 : 23195; e.created_at = 1700000000; e.tags = {{"p", hex(c.client.pk.data(), 32)}}; if (!notif && !reqid.empty()) e.tags.push_back({"e", hex(reqid.data(), 32)}); if (s(2)) e.tags.push_back({"encryption", s(2) ? "nip44_v2" : "nip44_v2"}); if (s(2)) std::swap(e.tags[0], e.tags.back());
    e.content = n44_encrypt(n44_conv(c.service.sk, c.client.pk), unhex(gen_hex(s, 32)), js); if (k == 1) { std::string raw; b64d(e.content, raw); raw[s((uint32_t)raw.size())] ^= 1 << s(8); e.content = b64e(raw); good = false; what = "an altered answer"; } if (k == 2) { e.content = js; good = false; what = "an answer in clear"; } if (k == 3) { do e.kind = s(2) ? 23194 + (int)s(3) : (int)s(30000); while (e.kind == (notif ? 23197 : 23195)); good = false; what = "an event of another kind"; } e.seal(c.service); if (k == 4) { e.pk = key_no(11).pk; good = false; what = "an answer under another key"; } RefKey me = c.client; if (k == 5) { me = key_no(12); good = false; what = "an answer to somebody else"; } if (k == 6) { e.tags = gen_tags(s); if (e.tags.size() && e.tags[0][0] == "encryption") e.tags.clear(); } (void)plain;
    nostr_event* ev = lib_event(e); nostr_privkey sk = lib_sk(me); int skip = s(4) == 3 ? s(2) ? 9 : (int)s(16) : 0;
    for (int t = 0; t < 2; t++) { char *a = nullptr, *b = nullptr, *x = nullptr, *y = nullptr; Leak lk; if (t) disarm(); else arm(s, wn->pct, wn->kinds, 40); nostr_error_t rc = notif ? nostr_nip47_parse_notification_event(ev, &sk, skip & 1 ? nullptr : &a, skip & 2 ? nullptr : &b) : nostr_nip47_parse_response_event(ev, &sk, skip & 1 ? nullptr : &a, skip & 2 ? nullptr : &b, skip & 4 ? nullptr : &x, skip & 8 ? nullptr : &y); Faults f = disarm();
        if (rc != NOSTR_OK) { if (a || b || x || y) violate("dangling", "a failed answer gives out texts"); lk.check("a failed answer"); if (!good) { count("answer_refused"); break; } if (!f.fired) violate("refused", "the answer %s (tags %s) is refused: %s", js.substr(0, 200).c_str(), e.tags_json().substr(0, 200).c_str(), nostr_error_string(rc)); continue; }
        if (!good) violate("accepted", "%s is accepted", what); std::string gt = take(a), gr = take(b), gc = take(x), gm = take(y); J j1, j2; jparse(result, j2); bool hasres = jparse(gr, j1);
        if (!(skip & 1) && gt != (notype ? "\1" : type)) violate("misread", "the answer %s is of type '%s'", js.substr(0, 300).c_str(), gt.c_str()); if (skip & 2) {} else if (err ? (hasres && !j1.is(J::NUL)) : (!hasres || !jeq(j1, j2))) violate("misread", "the answer %s has the result %s", js.substr(0, 300).c_str(), gr.substr(0, 300).c_str()); if ((!(skip & 4) && gc != (err ? code : "\1")) || (!(skip & 8) && gm != (err ? msg : "\1"))) violate("misread", "the answer %s has the error '%s' '%s'", js.substr(0, 300).c_str(), gc.c_str(), gm.c_str()); lk.check("an answer"); count(err ? "answer_error" : notif ? "notification" : "answer"); break; }
    drop(ev);
}
static void nwc_info(const Src& s) {
    auto words = [&](int max) { std::vector<std::string> v; int n = (int)s(max + 1); for (int i = 0; i < n; i++) v.push_back(gen_name(s, 8)); return v; }; auto join = [&](const std::vector<std::string>& v) { std::string o; if (s(6) == 5) o = " "; for (size_t i = 0; i < v.size(); i++) o += (i ? (s(8) == 7 ? "  " : " ") : "") + v[i]; if (s(6) == 5) o += " "; return o; };
    std::vector<std::string> caps = words(6), nots = words(3), encs = words(3); bool hn = s(3), he = s(3); RefEvent e; e.kind = 13194; e.content = join(caps); if (hn) e.tags.push_back({"notifications", join(nots)}); if (he) e.tags.insert(e.tags.begin() + (e.tags.empty() ? 0 : s(2)), {"encryption", join(encs)}); if (s(3) == 2) e.tags.insert(e.tags.begin(), {"notification", "x y"}); if (!hn) nots.clear(); if (!he) encs.clear(); bool good = true; if (s(12) == 11) { e.kind = (int)s(20000); good = e.kind == 13194; } bool nocontent = caps.empty() && s(2);
    nostr_event* ev = lib_event(e); if (nocontent) { NoFaults nf; nostr_event_destroy(ev); nostr_event_create(&ev); ev->kind = (uint16_t)e.kind; for (auto& t : e.tags) { std::vector<const char*> v; for (auto& x : t) v.push_back(x.c_str()); nostr_event_add_tag(ev, v.data(), v.size()); } } int skip = (int)s(8);
    for (int t = 0; t < 2; t++) { char **a = nullptr, **b = nullptr, **x = nullptr; size_t na = 0, nb = 0, nx = 0; Leak lk; if (t) disarm(); else arm(s, wn->pct, wn->kinds & FAULT_ALLOC, 20); nostr_error_t rc = nostr_nip47_parse_info_event(ev, skip == 7 ? nullptr : &a, skip == 7 ? nullptr : &na, skip == 6 ? nullptr : &b, skip == 6 ? nullptr : &nb, skip == 5 ? nullptr : &x, skip == 5 ? nullptr : &nx); Faults f = disarm();
        if (rc != NOSTR_OK) { if (a || b || x) violate("dangling", "a failed nostr_nip47_parse_info_event gives out lists"); lk.check("a failed nostr_nip47_parse_info_event"); if (!good) break; if (!f.fired) violate("refused", "the info event %s is refused: %s", e.json().c_str(), nostr_error_string(rc)); continue; }
        if (!good) violate("accepted", "an event of kind %d is read as wallet information", e.kind); auto same = [&](char** p, size_t n, const std::vector<std::string>& want, const char* what) { std::vector<std::string> g; for (size_t i = 0; i < n; i++) g.push_back(p[i] ? p[i] : "\1"); if (s(2)) nostr_free_strings(p, n); else { for (size_t i = 0; i < n; i++) nostr_free(p[i]); nostr_free(p); } if (g != want) { std::string r; for (auto& q : g) r += "[" + q + "]"; violate("misread", "the %s of %s are %s", what, e.json().substr(0, 400).c_str(), r.c_str()); } }; if (skip != 7) same(a, na, caps, "capabilities"); if (skip != 6) same(b, nb, nots, "notifications"); if (skip != 5) same(x, nx, encs, "encryptions"); lk.check("nostr_nip47_parse_info_event"); count("info"); break; }
    drop(ev);
}
static void c25_thread(int id) { Src s = src("actor", id); int n = 1 + (int)s(3); for (int i = 0; i < n; i++) { Conn c = gen_conn(s); Leak lk; nwc_connection* k = parse_conn(s, c); int m = (int)s(4); std::string req; for (int q = 0; q < m; q++) { if (k && s(2)) req = nwc_request(s, c, k); else nwc_answer(s, c, req); } if (s(2)) nwc_info(s); if (k) { nostr_nip47_free_connection(k); lk.check("a connection and its use"); } } }

// ------------------------------------------------------------------ C26
static std::string num(uint64_t v) { return std::to_string(v); }
static uint64_t gen_amount(const Src& s) { switch (s(6)) { case 0: return 1 + s(10); case 1: return 1000 * (uint64_t)(1 + s(100000)); case 2: return 999999999999999ULL - s(5); case 3: return 4294967295ULL + s(3); default: return 1 + s(2000000000); } }
static uint64_t gen_ask(const Src& s) { static const std::vector<uint64_t> v = {9007199254740993ULL, 18446744073709551615ULL, 9223372036854775807ULL, 9223372036854775809ULL, 2100000000000000001ULL, 1234567890123456789ULL, 9999999999999999ULL}; return s(4) ? gen_amount(s) : s.of(v); }
static void must_params(const Src& s, const std::string& want, bool good, const char* what, const std::function<nostr_error_t(char**)>& call) {
    for (int t = 0; t < 2; t++) { char* o = (char*)8; Leak lk; if (t) disarm(); else arm(s, wn->pct, wn->kinds & FAULT_ALLOC, 30); nostr_error_t rc = call(&o); Faults f = disarm(); if (rc != NOSTR_OK) { if (o && o != (char*)8) violate("dangling", "a failed %s gives out parameters", what); lk.check(what); if (!good) { count("params_refused"); return; } if (!f.fired) violate("refused", "%s fails: %s", what, nostr_error_string(rc)); continue; }
        if (!good) violate("accepted", "%s accepts what cannot be asked", what); J a, b; if (!o || o == (char*)8) violate("dangling", "%s gives nothing", what); std::string g = o; if (!jparse(g, a) || !jparse(want, b) || !jeq(a, b, true)) violate("params-wrong", "%s gives %s instead of %s", what, g.substr(0, 500).c_str(), want.substr(0, 500).c_str()); nostr_free(o); lk.check(what); count("params"); return; }
}
static void c26_params(const Src& s) {
    std::string a = s(4) ? "lnbc" + gen_name(s, 20) : gen_text(s, 10), b = gen_text(s, 12), c = hex(sha256(b).data(), 32); uint64_t amt = gen_ask(s); CStr ca(a), cb(b), cc(c); bool x = s(2), y = s(2), z = s(2);
    switch (s(8)) {
    case 0: must_params(s, "{\"invoice\":" + jstr(a) + (x ? ",\"amount\":" + num(amt) : "") + "}", true, "nostr_nip47_create_pay_invoice_params", [&](char** o) { return nostr_nip47_create_pay_invoice_params(o, ca, x ? &amt : nullptr); }); break;
    case 1: must_params(s, "{}", true, s(2) ? "nostr_nip47_create_get_balance_params" : "nostr_nip47_create_get_info_params", [&](char** o) { return x ? nostr_nip47_create_get_balance_params(o) : nostr_nip47_create_get_info_params(o); }); break;
    case 2: { uint32_t exp = s(3) ? s(100000) : 4294967295u; if (s(10) == 9) amt = 0; must_params(s, "{\"amount\":" + num(amt) + (x ? ",\"description\":" + jstr(b) : "") + (y ? ",\"description_hash\":" + jstr(c) : "") + (z ? ",\"expiry\":" + num(exp) : "") + "}", amt > 0, "nostr_nip47_create_make_invoice_params", [&](char** o) { return nostr_nip47_create_make_invoice_params(o, amt, x ? (const char*)cb : nullptr, y ? (const char*)cc : nullptr, z ? &exp : nullptr); }); break; }
    case 3: { time_t f = 1600000000 + (time_t)s(100000000), u = s(6) ? f + s(1000) : s(2) ? 4000000000LL : 9007199254740993LL; uint32_t lim = s(100), off = s(3) ? s(100) : 4294967295u; int unpaid = (int)s(3); bool ty = s(2), lo = s(2), un = s(2); std::vector<std::string> q; if (x) q.push_back("\"from\":" + std::to_string((long long)f)); if (y) q.push_back("\"until\":" + std::to_string((long long)u)); if (z) q.push_back("\"limit\":" + num(lim)); if (lo) q.push_back("\"offset\":" + num(off)); if (un) q.push_back(std::string("\"unpaid\":") + (unpaid ? "true" : "false")); if (ty) q.push_back("\"type\":\"incoming\""); std::string w; for (auto& k : q) w += (w.empty() ? "" : ",") + k; must_params(s, "{" + w + "}", true, "nostr_nip47_create_list_transactions_params", [&](char** o) { return nostr_nip47_create_list_transactions_params(o, x ? &f : nullptr, y ? &u : nullptr, z ? &lim : nullptr, lo ? &off : nullptr, un ? &unpaid : nullptr, ty ? "incoming" : nullptr); }); break; }
    case 4: must_params(s, std::string("{") + (x ? "\"payment_hash\":" + jstr(c) : "") + (x && y ? "," : "") + (y ? "\"invoice\":" + jstr(a) : "") + "}", x || y, "nostr_nip47_create_lookup_invoice_params", [&](char** o) { return nostr_nip47_create_lookup_invoice_params(o, x ? (const char*)cc : nullptr, y ? (const char*)ca : nullptr); }); break;
    case 5: case 6: { if (s(10) == 9) amt = 0; int n = (int)s(5); bool okt = true; std::vector<std::string> t; std::string tl; for (int i = 0; i < n; i++) { static const std::vector<std::string> wrong = {"12x", "-1", "", " 7", "+7", "18446744073709551616", "99999999999999999999999", "1.5", "x"}; bool wr = s(25) == 24; if (wr) okt = false; std::string ty = wr ? s.of(wrong) : std::to_string(s(3) ? 7629169 + (uint64_t)s(100) : s(2) ? 5482373484ULL : gen_ask(s)), v = s(3) ? gen_hex(s, (int)s(20)) : gen_text(s, 6); t.push_back(ty); t.push_back(v); tl += (i ? ",{\"type\":" : "{\"type\":") + ty + ",\"value\":" + jstr(v) + "}"; } std::vector<const char*> p; for (auto& q : t) p.push_back(q.c_str());
        must_params(s, "{\"amount\":" + num(amt) + ",\"pubkey\":" + jstr(c) + (x ? ",\"preimage\":" + jstr(b) : "") + (n ? ",\"tlv_records\":[" + tl + "]" : "") + "}", amt > 0 && okt, "nostr_nip47_create_pay_keysend_params", [&](char** o) { return nostr_nip47_create_pay_keysend_params(o, amt, cc, x ? (const char*)cb : nullptr, n ? p.data() : nullptr, p.size()); }); break; }
    default: { size_t n = s(6); std::vector<std::string> ids, invs; std::vector<uint64_t> am; std::string w; for (size_t i = 0; i < n; i++) { ids.push_back(s(4) ? gen_name(s) : "\1"); invs.push_back("lnbc" + gen_text(s, 5)); am.push_back(s(3) ? gen_ask(s) : 0); w += std::string(i ? "," : "") + "{" + (x && ids[i] != "\1" ? "\"id\":" + jstr(ids[i]) + "," : "") + "\"invoice\":" + jstr(invs[i]) + (y && am[i] ? ",\"amount\":" + num(am[i]) : "") + "}"; } std::vector<const char*> ip, vp; for (size_t i = 0; i < n; i++) { ip.push_back(ids[i] == "\1" ? nullptr : ids[i].c_str()); vp.push_back(invs[i].c_str()); }
        static const char* none[1] = {"x"}; must_params(s, "{\"invoices\":[" + w + "]}", n > 0, "nostr_nip47_create_multi_pay_invoice_params", [&](char** o) { return nostr_nip47_create_multi_pay_invoice_params(o, x && n ? ip.data() : nullptr, n ? vp.data() : none, y && n ? am.data() : nullptr, n); }); break; }
    }
}
static void c26_results(const Src& s) {
    uint64_t v = s(6) ? gen_amount(s) : 0; int bad = (int)s(12); std::string js; std::vector<std::string> f; std::string extra = s(3) ? "" : ",\"other\":" + gen_json(s);
    switch (s(3)) {
    case 0: { js = other_spelling("{\"balance\":" + num(v) + extra + "}", s); bool good = true; if (bad == 0) { js = "{\"balance\":\"" + num(v) + "\"}"; good = false; } if (bad == 1) { js = "{\"amount\":" + num(v) + "}"; good = false; } if (bad == 2) { js = "{\"balance\":" + num(v); good = false; } if (bad == 3) { js = s(2) ? "{\"balance\":-5}" : "{\"balance\":1e300}"; good = false; } if (bad == 4) { js = with_nul(js, s); good = false; } CStr c(js);
        for (int t = 0; t < 2; t++) { uint64_t o = 777; Leak lk; if (t) disarm(); else arm(s, wn->pct, wn->kinds & FAULT_ALLOC, 12); nostr_error_t rc = nostr_nip47_parse_balance_response(c, &o); Faults fl = disarm(); lk.check("nostr_nip47_parse_balance_response"); if (rc == NOSTR_OK) { if (!good) violate("accepted", "the balance %s is read as %llu", js.c_str(), (unsigned long long)o); if (o != v) violate("misread", "the balance %s is read as %llu", js.c_str(), (unsigned long long)o); count("balance"); return; } if (!good) { count("balance_refused"); return; } if (!fl.fired) violate("refused", "the balance %s is refused: %s", js.c_str(), nostr_error_string(rc)); } break; }
    case 1: { std::string pre = s(3) ? gen_hex(s, 32) : gen_text(s, 8); bool hp = s(6) != 5, hf = s(2); js = std::string("{") + (hp ? "\"preimage\":" + jstr(pre) : "\"x\":1") + (hf ? ",\"fees_paid\":" + num(v) : "") + extra + "}"; js = other_spelling(js, s); bool good = true; if (bad == 0) { js = js.substr(0, js.size() - 1); good = false; } if (bad == 1) { hf = true; js = "{\"fees_paid\":-1}"; good = false; } if (bad == 4) { js = with_nul(js, s); good = false; } CStr c(js); bool np = s(5) == 4, nf = s(5) == 4; if (bad == 1 && nf) return;
        for (int t = 0; t < 2; t++) { char* o = (char*)8; uint64_t fee = 777; Leak lk; if (t) disarm(); else arm(s, wn->pct, wn->kinds & FAULT_ALLOC, 14); nostr_error_t rc = nostr_nip47_parse_pay_invoice_response(c, np ? nullptr : &o, nf ? nullptr : &fee); Faults fl = disarm(); if (rc == NOSTR_OK) { if (!good) violate("accepted", "the payment result %s is accepted with fees %llu", js.c_str(), (unsigned long long)fee); if (np) o = nullptr; if (o == (char*)8) violate("dangling", "the payment result %s leaves the preimage unset", js.c_str()); std::string g = take(o); if (!np && g != (hp ? pre : "\1")) violate("misread", "the payment result %s has the preimage '%s'", js.c_str(), g.c_str()); if (!nf && hf && fee != v) violate("misread", "the payment result %s has the fees %llu", js.c_str(), (unsigned long long)fee); if (!nf && !hf && fee != 777 && fee != 0) violate("misread", "the payment result %s has the fees %llu", js.c_str(), (unsigned long long)fee); lk.check("nostr_nip47_parse_pay_invoice_response"); count("paid"); return; }
            if (o && o != (char*)8) violate("dangling", "a failed nostr_nip47_parse_pay_invoice_response gives out a preimage"); lk.check("a failed nostr_nip47_parse_pay_invoice_response"); if (!good) return; if (!fl.fired) violate("refused", "the payment result %s is refused: %s", js.c_str(), nostr_error_string(rc)); } break; }
    default: { std::string val[4]; static const char* nm[4] = {"alias", "color", "pubkey", "network"}; bool has[4]; js = "{\"q\":0"; for (int i = 0; i < 4; i++) { has[i] = s(4) != 3; val[i] = gen_text(s, 8); if (has[i]) js += std::string(",\"") + nm[i] + "\":" + jstr(val[i]); } uint32_t h = s(3) ? s(1000000) : 4294967295u; bool hh = s(4) != 3, hm = s(4) != 3; if (hh) js += ",\"block_height\":" + num(h); std::vector<std::string> ms; std::string ml; int n = (int)s(6); for (int i = 0; i < n; i++) { bool odd = s(14) == 13; std::string m = gen_text(s, 5); ml += (i ? "," : "") + (odd ? (s(2) ? "null" : "7") : jstr(m)); if (!odd) ms.push_back(m); } if (hm) js += ",\"methods\":[" + ml + "]"; else ms.clear(); js += extra + "}"; js = other_spelling(js, s); bool good = true; if (bad == 0) { js = js.substr(0, js.size() - 1); good = false; } if (bad == 4) { js = with_nul(js, s); good = false; } CStr c(js); bool nm2 = s(6) == 5; int sk4 = s(5) == 4 ? (int)s(32) : 0;
        for (int t = 0; t < 2; t++) { char* o[4] = {}; uint32_t g = 0; char** m = nullptr; size_t mc = 0; Leak lk; if (t) disarm(); else arm(s, wn->pct, wn->kinds & FAULT_ALLOC, 40); nostr_error_t rc = nostr_nip47_parse_info_response(c, sk4 & 1 ? nullptr : &o[0], sk4 & 2 ? nullptr : &o[1], sk4 & 4 ? nullptr : &o[2], sk4 & 8 ? nullptr : &o[3], sk4 & 16 ? nullptr : &g, nm2 ? nullptr : &m, nm2 ? nullptr : &mc); Faults fl = disarm();
            if (rc == NOSTR_OK) { if (!good) violate("accepted", "the damaged information %s is accepted", js.substr(0, 300).c_str()); for (int i = 0; i < 4; i++) { std::string x = take(o[i]); if (!(sk4 >> i & 1) && x != (has[i] ? val[i] : "\1")) violate("misread", "the %s of %s is '%s'", nm[i], js.substr(0, 400).c_str(), x.c_str()); } if (hh && !(sk4 & 16) && g != h) violate("misread", "the height of %s is %u", js.substr(0, 400).c_str(), g); if (!nm2) { std::vector<std::string> q; for (size_t i = 0; i < mc; i++) { if (m[i]) q.push_back(m[i]); nostr_free(m[i]); } nostr_free(m); if (q != ms) violate("misread", "the methods of %s are %zu others", js.substr(0, 400).c_str(), q.size()); } lk.check("nostr_nip47_parse_info_response"); count("wallet_info"); return; }
            for (int i = 0; i < 4; i++) if (o[i]) violate("dangling", "a failed nostr_nip47_parse_info_response gives out texts"); if (m) violate("dangling", "a failed nostr_nip47_parse_info_response gives out methods"); lk.check("a failed nostr_nip47_parse_info_response"); if (!good) return; if (!fl.fired) violate("refused", "the information %s is refused: %s", js.substr(0, 300).c_str(), nostr_error_string(rc)); } break; }
    }
}
static void c26_thread(int id) { Src s = src("actor", id); int n = 3 + (int)s(12); for (int i = 0; i < n; i++) s(5) < 3 ? c26_params(s) : c26_results(s); }
static void run_n(void (*th)(int)) {
    n44_selfcheck(); CN w; wn = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); int nt = 1 + (int)g(3); w.kinds = (int)g(8); w.pct = w.kinds ? 40 : 0; if (g(2) && nostr_init() != NOSTR_OK) violate("init", "nostr_init fails");
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i, th] { th(i); }); sim_join_spawned(); nostr_cleanup();
    if (live_contexts()) violate("context-leak", "%d crypto contexts survive nostr_cleanup", live_contexts()); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
static void c24_run() { run_n(c24_thread); }
static void c25_run() { run_n(c25_thread); }
static void c26_run() { run_n(c26_thread); }
WORLD(C24, remote_signer, c24_run)
WORLD(C25, wallet_connect, c25_run)
WORLD(C26, wallet_values, c26_run)
#endif
