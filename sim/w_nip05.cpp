// C16: a NIP-05 name is confirmed exactly when its domain says so
#include "op.h"
extern "C" void* sim_malloc(size_t);
struct C16 { int pct = 0, kinds = 0; };
static C16* w16;
static std::string ws_of(const Src& s) { static const std::vector<std::string> v = {"", "", " ", "\n  ", "\t", "\r\n"}; return s.of(v); }
static std::string lower(std::string t) { for (auto& c : t) c = (char)tolower(c); return t; }
struct Raw { std::string text; };                       // a JSON value as text
typedef std::vector<std::pair<std::string, std::string>> Obj;  // key text (no quotes), value text
static std::string obj(const Src& s, const Obj& o) { std::string r = "{"; for (size_t i = 0; i < o.size(); i++) { if (i) r += ","; r += ws_of(s) + "\"" + o[i].first + "\"" + ws_of(s) + ":" + ws_of(s) + o[i].second; } return r + ws_of(s) + "}"; }
static std::string arr(const Src& s, const std::vector<std::string>& a) { std::string r = "["; for (size_t i = 0; i < a.size(); i++) { if (i) r += ","; r += ws_of(s) + a[i]; } return r + ws_of(s) + "]"; }
static std::string slashes(const Src& s, const std::string& u) { std::string r; bool esc = s(3) == 2; for (char c : u) { if (c == '/' && esc) r += "\\/"; else r += c; } return "\"" + r + "\""; }
struct Doc { std::string text; };
// what a response says (names and relays at its top level); false: not a well-formed or not a clear answer
struct Answer { bool clear = true; bool found = false, bad = false; std::string pk; std::vector<std::string> relays; bool relays_clear = true; };
static bool has_escape(const std::string& t, const std::string& chars) { for (size_t i = 0; i + 1 < t.size(); i++) if (t[i] == '\\') { if (chars.find(t[i + 1]) != std::string::npos) return true; i++; } return false; }
static Answer answer(const std::string& t, const std::string& name) {
    Answer a; J j; if (t.find('\0') != std::string::npos || !jparse(t, j) || !j.is(J::OBJ)) { a.clear = false; return a; }
    if (j.has("names") > 1 || j.has("relays") > 1 || has_escape(t, "u") || t.size() > 1024 * 1024) { a.clear = false; return a; }
    const J* n = j.get("names"); if (!n) return a; if (!n->is(J::OBJ)) { a.bad = true; return a; } if (n->has(name.c_str()) > 1) { a.clear = false; return a; } const J* k = n->get(name.c_str()); if (!k) return a;
    a.found = true; if (!k->is(J::STR) || k->s.size() != 64 || k->s.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) { a.bad = true; return a; } a.pk = lower(k->s);
    const J* r = j.get("relays"); if (!r || !r->is(J::OBJ)) return a; if (r->has(a.pk.c_str()) > 1) a.relays_clear = false; const J* l = r->get(a.pk.c_str()); if (!l || !l->is(J::ARR)) return a; if (l->a.size() > 100) a.relays_clear = false;
    for (auto& x : l->a) { if (!x.is(J::STR)) { if (x.is(J::ARR) || x.is(J::OBJ)) a.relays_clear = false; continue; } for (unsigned char c : x.s) if (c < 0x20) a.relays_clear = false; if (x.s.size() >= 6 && (!x.s.compare(0, 6, "wss://") || !x.s.compare(0, 5, "ws://"))) a.relays.push_back(x.s); } return a;
}
static std::string gen_doc(const Src& s, const std::string& name, const std::string& pk) {
    auto key = [&](const std::string& p) { return "\"" + (s(4) ? p : [&] { std::string u = p; for (auto& c : u) c = (char)toupper(c); return u; }()) + "\""; };
    auto odd = [&]() -> std::string { static const std::vector<std::string> v = {"1", "null", "\"x\"", "[]", "{}", "\"\\\"names\\\":{\"", "\"}\"", "\"]\"", "true", "\"\\\\\""}; return s.of(v); };
    std::string other = hex(sha256("o" + std::to_string(s(50))).data(), 32); Obj names, relays, top; int n = (int)s(4);
    for (int i = 0; i < n; i++) { switch (s(6)) { case 0: names.push_back({gen_name(s), key(other)}); break; case 1: names.push_back({name + "x", key(other)}); break; case 2: names.push_back({"x" + name, odd()}); break; case 3: names.push_back({"nested", obj(s, {{name, key(other)}})}); break; case 4: names.push_back({gen_name(s, 3), "\"" + name + "\""}); break; default: names.push_back({"\\\"" + name, key(other)}); } }
    switch (s(8)) { case 6: break; case 7: { static const std::vector<std::string> v = {"1", "null", "[]", "{}", "true"}; names.insert(names.begin() + s((uint32_t)names.size() + 1), {name, s(2) ? s.of(v) : "\"" + (s(2) ? pk.substr(0, s(64)) : s(2) ? pk + "0" : pk.substr(1) + "g") + "\""}); break; } default: names.insert(names.begin() + s((uint32_t)names.size() + 1), {name, key(pk)}); }
    int m = (int)s(3); for (int i = 0; i < m; i++) relays.push_back({s(3) ? other : name, s(4) ? arr(s, {"\"wss://other.example\""}) : odd()});
    if (s(4)) { std::vector<std::string> l; int k = s(30) == 29 ? 101 : s(20) == 19 ? 10 + (int)s(91) : (int)s(5); for (int i = 0; i < k; i++) switch (s(9)) { case 0: l.push_back(slashes(s, "wss://[2001:db8::" + std::to_string(s(9)) + "]:443/")); break; case 1: { static const std::vector<std::string> b = {"\"http://x\"", "\"\"", "\"wss:/\"", "1", "null", "\"ws:/x\"", "\"wss://\"", "true", "\"WSS://x\""}; l.push_back(s.of(b)); break; } case 2: l.push_back(slashes(s, "ws://" + gen_name(s) + "/" + (s(6) ? "" : std::string(400, 'r')))); break; case 3: l.push_back("\"wss://a.b/\\\"q\\\\\""); break; case 4: if (s(6) == 5) { l.push_back(s(2) ? "[\"wss://in\"]" : "\"wss://x/\\u0041\""); break; } /* fall through */ default: l.push_back(slashes(s, "wss://" + gen_name(s) + ".example")); } relays.insert(relays.begin() + s((uint32_t)relays.size() + 1), {s(12) ? pk : other + "", s(12) ? arr(s, l) : odd()}); }
    std::string nv = s(16) ? obj(s, names) : odd(), rv = s(16) ? obj(s, relays) : odd(); if (s(16)) top.push_back({"names", nv}); if (s(3)) top.insert(top.begin() + s((uint32_t)top.size() + 1), {"relays", rv});
    int d = (int)s(4); for (int i = 0; i < d; i++) { Obj::value_type x; switch (s(6)) { case 0: x = {"meta", obj(s, {{"names", obj(s, {{name, key(other)}})}})}; break; case 1: x = {"note", "\"\\\"names\\\":{\\\"" + name + "\\\":\\\"" + other + "\\\"}\""}; break; case 2: x = {"list", arr(s, {obj(s, {{"names", obj(s, {{name, key(other)}})}, {"relays", obj(s, {{pk, arr(s, {"\"wss://evil\""})}})}})})}; break; case 3: x = {"nip46", obj(s, {{"relays", arr(s, {"\"wss://n46\""})}, {pk, arr(s, {"\"wss://n46\""})}})}; break; case 4: x = {name, key(other)}; break; default: x = {"k", odd()}; } top.insert(top.begin() + s((uint32_t)top.size() + 1), x); }
    std::string t = ws_of(s) + obj(s, top) + ws_of(s); if (s(60) == 59) t = std::string(s(2) ? 1024 * 1024 - 100 : 1024 * 1024 + 1, ' ') + t; return t;
}
static std::string damage(std::string t, const Src& s) { int n = 1 + (int)s(3); for (int i = 0; i < n && !t.empty(); i++) { size_t p = s((uint32_t)t.size()); switch (s(6)) { case 0: t.resize(p); break; case 1: t[p] = "{}[]\",:\\ x"[s(10)]; break; case 2: t.erase(p, 1 + s(5)); break; case 3: t.insert(p, 1, "{}[]\",:\\ x"[s(10)]); break; case 4: t[p] ^= (char)(1 << s(8)); break; default: t.insert(p, t.substr(p, s(30))); } } return t; }
static std::string gen_local(const Src& s) { static const std::vector<std::string> v = {"bob", "_", "names", "relays", "a.b-c_d", "BoB", "0", "x"}; return s(3) ? s.of(v) : s(6) ? gen_name(s, 20) : std::string(60 + s(8), 'n'); }
static bool local_ok(const std::string& l) { if (l.empty() || l.size() > 64) return false; for (unsigned char c : l) if (!(isalnum(c) && c < 128) && c != '-' && c != '_' && c != '.') return false; return true; }
static bool domain_ok(const std::string& d) { if (d.empty() || d.size() > 256 || d[0] == '.' || d.back() == '.' || d.find('.') == std::string::npos || d.find("..") != std::string::npos) return false; for (unsigned char c : d) if (!(isalnum(c) && c < 128) && c != '-' && c != '.') return false; return true; }
static std::string gen_ident(const Src& s, std::string& local, std::string& domain, bool& ok) {
    local = gen_local(s); static const std::vector<std::string> ds = {"example.com", "Sub.Example.COM", "a.b", "x-y.z0", "1.2.3.4"}; domain = s(6) ? s.of(ds) : gen_name(s, 8) + "." + std::string(s(2) ? 3 : 235 + s(25), 'd'); for (auto& c : domain) if (c == '_') c = '-';
    static const std::vector<std::string> badl = {"", "a b", "a\"b", "a\\", "é", "a+b", "a/b", "a%41", "a&x", "a?x", "\n", "a\x7f"}, badd = {"", "localhost", ".com", "com.", "a..b", "a b.c", "a.b/c", "a.b:443", "u@a.b", "é.com", "a_b.c", "a.b?", "a.b#", "[::1]", "a.b\n"};
    switch (s(10)) { case 8: local = s.of(badl); break; case 9: domain = s.of(badd); break; default: break; } std::string id = local + "@" + domain; if (s(20) == 19) id = domain; size_t at = id.find('@'); ok = at != std::string::npos; if (ok) { local = id.substr(0, at); domain = id.substr(at + 1); ok = local_ok(local) && domain_ok(domain); } return id;
}
struct Fetch { const Src* s; std::string want_url, body; int mode = 0, calls = 0; bool gave = false; };
static nostr_error_t fetch(const char* url, char** resp, size_t* len, void* ud) {
    Fetch& f = *(Fetch*)ud; f.calls++; NoFaults nf; if (f.want_url != url) violate("wrong-url", "the library asks for %s, not %s", url, f.want_url.c_str()); sim_sleep_us(1 + (*f.s)(5000));
    switch (f.mode) { case 1: count("fault.http_error"); return NOSTR_ERR_CONNECTION; case 2: count("fault.http_error"); *resp = (char*)sim_malloc(8); memcpy(*resp, "partial", 8); *len = 7; return NOSTR_ERR_TIMEOUT; case 3: count("fault.http_empty"); return NOSTR_OK; case 4: count("fault.http_empty"); *resp = (char*)sim_malloc(4); *len = 0; return NOSTR_OK; default: break; }
    *resp = (char*)sim_malloc(f.body.size() + (f.mode == 5)); if (f.mode == 5) (*resp)[f.body.size()] = 0; memcpy(*resp, f.body.data(), f.body.size()); *len = f.body.size(); f.gave = true; return NOSTR_OK;
}
static std::string show_relays(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x.substr(0, 60) + " "; return r; }
static void check_relays(const Answer& a, char** r, size_t n, const std::string& doc) { std::vector<std::string> got; for (size_t i = 0; i < n; i++) { if (!r[i]) violate("null-relay", "relay %zu of %zu is NULL", i, n); got.push_back(r[i]); } if (a.clear && a.relays_clear && got != a.relays) violate("relays-misread", "the relays %s are read from %.900s, it gives %s", show_relays(got).c_str(), doc.c_str(), show_relays(a.relays).c_str()); }
static void one(const Src& s) {
    C16& w = *w16; std::string local, domain; bool idok; std::string id = gen_ident(s, local, domain, idok); std::string pk = hex(key_no((int)s(4)).pk.data(), 32), name = lower(local); static const char* nm = "";
    std::string doc = gen_doc(s, name.empty() || !local_ok(local) ? "bob" : name, pk); bool cut = false; if (s(5) == 4) { if (s(3) == 2) { size_t end = doc.find_last_not_of(" \n\t\r"); cut = true; doc.resize(s(2) ? s((uint32_t)end + 1) : end - std::min(end, (size_t)s(6))); count("fault.cut_response"); } else { doc = damage(doc, s); count("fault.damaged_response"); } } Answer a = answer(doc, name); (void)nm;
    std::string expect = s(4) ? pk : s(2) ? hex(key_no(5).pk.data(), 32) : s(2) ? pk.substr(0, s(64)) : pk + "00"; if (s(3) == 2) for (auto& c : expect) c = (char)toupper(c);
    if (s(3)) {
        Fetch f; f.s = &s; f.want_url = "https://" + lower(domain) + "/.well-known/nostr.json?name=" + name; f.body = doc; f.mode = s(4) ? (s(2) ? 0 : 5) : 1 + (int)s(4); char** rel = (char**)0x10; size_t nr = 99; bool wr = s(3), wc = wr ? s(16) : s(8) == 7; CStr ci(id), ce(expect); Leak lk; arm(s, w.pct, w.kinds, 8);
        nostr_error_t rc = nostr_nip05_verify(ci, ce, fetch, &f, wr ? &rel : nullptr, wc ? &nr : nullptr); Faults ff = disarm();
        if (f.calls != (idok ? 1 : 0)) violate("fetches", "verifying '%s' makes %d requests", id.c_str(), f.calls);
        bool match = a.clear && a.found && !a.bad && lower(expect) == a.pk;
        if (rc == NOSTR_OK) {
            if (cut) violate("confirmed", "'%s' is confirmed by an answer that was cut short: %.900s", id.c_str(), doc.c_str());
            if (!idok) violate("confirmed", "'%s' is no identifier but is confirmed", id.c_str()); if (!f.gave) violate("confirmed", "'%s' is confirmed without an answer (mode %d)", id.c_str(), f.mode); if (a.clear && !match) violate("confirmed", "'%s' is confirmed for %s by %.900s", id.c_str(), expect.c_str(), doc.c_str());
            if (!a.clear && lower(doc).find(lower(expect)) == std::string::npos) violate("confirmed", "'%s' is confirmed for %s by an answer without that key", id.c_str(), expect.c_str());
            if (wr && wc) check_relays(a, rel, nr, doc); else if ((wr && rel) || (wc && nr)) violate("half-done", "relays are returned without a count"); if (wr) nostr_nip05_free_relays(rel, wc ? nr : 0); count("confirmed");
        } else {
            if (idok && f.gave && match && !ff.fired && a.relays_clear) violate("refused", "'%s' is not confirmed for %s by %.900s: %s", id.c_str(), expect.c_str(), doc.c_str(), nostr_error_string(rc));
            if (f.mode == 1 && idok && rc != NOSTR_ERR_CONNECTION) violate("wrong-error", "a failed request is reported as %s", nostr_error_string(rc)); if (idok && f.gave && a.clear && a.relays_clear && a.found && !a.bad && lower(expect) != a.pk && !ff.fired && rc != NOSTR_ERR_INVALID_KEY) violate("wrong-error", "another key is reported as %s", nostr_error_string(rc));
            if ((wr && rel) || (wc && nr)) violate("dangling", "a failed verification left relays behind"); count("not_confirmed");
        }
        lk.check("nostr_nip05_verify");
    } else if (s(3)) {
        std::string q = s(6) ? name : s(2) ? gen_text(s, 3) : (s(2) ? "\\\"" : s(2) ? "\\" : "\"") + name; bool special = q.find_first_of("\"\\") != std::string::npos; a = answer(doc, q); /* a name with quotes may be refused */ Buf b(s(8) ? 65 : s(100)); char** rel = (char**)0x10; size_t nr = 99; CStr cd(doc), cq(q); Leak lk; arm(s, w.pct, w.kinds, 8); bool want = s(3); nostr_error_t rc = nostr_nip05_parse_response(cd, cq, b.c(), b.n, want ? &rel : nullptr, want ? &nr : nullptr); Faults ff = disarm();
        bool bigd = strlen(cd) > 1024 * 1024 || q.empty() || q.size() > 64 || b.n < 65;
        if (rc == NOSTR_OK) { if (cut) violate("accepted", "an answer that was cut short is read: %.900s", doc.c_str()); if (bigd) violate("accepted", "an answer is read with impossible arguments"); if (!memchr(b.c(), 0, b.n)) violate("unterminated", "the key is not terminated"); if (a.clear && (!a.found || a.bad || a.pk != b.c())) violate("key-misread", "the key %s of '%s' is read from %.900s", b.c(), q.c_str(), doc.c_str()); if (want) { check_relays(a, rel, nr, doc); nostr_nip05_free_relays(rel, nr); } count("read"); }
        else { if (a.clear && a.found && !a.bad && !bigd && !special && !ff.fired && (a.relays_clear || !want)) violate("refused", "the key of '%s' is not found in %.900s: %s", q.c_str(), doc.c_str(), nostr_error_string(rc)); if (b.n >= 65 && want && !bigd && (rel || nr)) violate("dangling", "a failed reading left relays behind"); if (a.clear && !a.found && !a.bad && !bigd && !special && rc != NOSTR_ERR_NOT_FOUND) violate("wrong-error", "a missing name is reported as %s: %.600s", nostr_error_string(rc), doc.c_str()); count("not_read"); }
        lk.check("nostr_nip05_parse_response");
    } else {
        CStr ci(id); Buf n(s(4) ? 65 : s(66)), d(s(4) ? 257 : s(258)); nostr_error_t rc = nostr_nip05_parse(ci, n.c(), n.n, d.c(), d.n); bool fits = local.size() < n.n && domain.size() < d.n && n.n >= 2 && d.n >= 4; if ((rc == NOSTR_OK) != (idok && fits)) violate("identifier", "'%s' is %s for buffers of %zu and %zu", id.c_str(), rc == NOSTR_OK ? "accepted" : "refused", n.n, d.n);
        if (rc == NOSTR_OK) { if (name != n.c() || lower(domain) != d.c()) violate("identifier", "'%s' is split into '%s' and '%s'", id.c_str(), n.c(), d.c()); std::string url = "https://" + std::string(d.c()) + "/.well-known/nostr.json?name=" + n.c(); size_t k = s(2) ? url.size() + 1 : s(2) ? url.size() : s(600); Buf u(k); rc = nostr_nip05_build_url(n.c(), d.c(), u.c(), k); if ((rc == NOSTR_OK) != (k > url.size()) || (rc == NOSTR_OK && url != u.c())) violate("url", "the URL for '%s' in %zu bytes: %s", id.c_str(), k, rc == NOSTR_OK ? u.c() : nostr_error_string(rc)); } count("split");
    }
}
static void c16() {
    C16 w; w16 = &w; Src g("cfg"); sim_preempt_mode((int)g(4)); uint64_t mark = alloc_mark(); w.kinds = (int)g(2) ? FAULT_ALLOC : 0; w.pct = w.kinds ? 40 : 0; int nt = 1 + (int)g(3);
    for (int i = 0; i < nt; i++) sim_spawn("actor" + std::to_string(i), [i] { Src s = src("actor", i); int n = 2 + (int)s(10); for (int k = 0; k < n; k++) one(s); });
    sim_join_spawned(); if (live_since(mark)) violate("memory-leak", "%zu allocations left: %s", live_since(mark), describe_live(mark).c_str());
}
WORLD(C16, nip05, c16)
