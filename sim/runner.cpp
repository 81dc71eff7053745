// Driver: one forked child per simulated run, deterministic seeds, replay, minimisation.
#include "sim.h"
#include "runner.h"
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <cjson/cJSON.h>

struct Shm {
    int status; char key[256]; char msg[8192]; uint64_t hash, ilv, nlog, points, sim_us, switches;
    uint32_t blob_len; char blob[8 << 20]; uint32_t cnt_len; char cnt[256 << 10]; uint32_t log_len; char log[4 << 20]; unsigned char edges[MAX_EDGES];
};
static Shm* shm;
static std::set<std::string> g_known;
bool is_known(const char* key) { return g_known.count(g_prop + " " + key) != 0; }

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:handle_abort=1:handle_sigfpe=1:handle_sigill=1:allocator_may_return_null=1:quarantine_size_mb=24:max_malloc_fill_size=1048576:malloc_fill_byte=190:malloc_context_size=6:"
           "detect_stack_use_after_return=0:symbolize=1:print_scariness=0:print_summary=1:allow_user_segv_handler=0:color=never:use_sigaltstack=0:max_allocation_size_mb=512:thread_local_quarantine_size_kb=64";
}
static std::string asan_report;
static void on_report(const char* r) { asan_report = r; }
void finish_run_to_shm(int status, const char* key, const char* msg);
static bool in_death = false;
static void on_death() {
    if (in_death) return; in_death = true;
    std::string what = __asan_get_report_description() ? __asan_get_report_description() : "";
    std::string rep = asan_report;
    size_t e = rep.find("ERROR: AddressSanitizer: ");
    if (e != std::string::npos) { size_t s = e + 25; size_t q = rep.find_first_of(" :\n", s); what = rep.substr(s, q - s); }
    // first frame inside the library under test
    std::string fn = "?";
    std::istringstream is(rep); std::string line; std::string first;
    while (std::getline(is, line)) { size_t p = line.find(" in "); if (line.find('#') == std::string::npos || p == std::string::npos) continue; std::string f = line.substr(p + 4); if (f.find("/src/") != std::string::npos && f.find("/verif/") == std::string::npos) { size_t sp = f.find(' '); fn = f.substr(0, sp); break; } }
    std::string key = "crash:" + what + "@" + fn;
    finish_run_to_shm(is_known(key.c_str()) ? RUN_KNOWN : RUN_CRASH, key.c_str(), rep.substr(0, 6000).c_str());
}
static std::string serialise_choices() {
    std::string o; char b[64];
    for (auto& r : g_run.sched) { snprintf(b, sizeof b, "sched %d %llu %d\n", r.tid, (unsigned long long)r.at, r.target); o += b; }
    for (auto& kv : g_run.streams) {
        o += "stream " + kv.first;
        size_t n = g_run.replay ? std::min(kv.second.vals.size(), kv.second.pos) : kv.second.vals.size();
        while (n && kv.second.vals[n - 1] == 0) n--;
        for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, " %u", kv.second.vals[i]); o += b; }
        o += "\n";
    }
    return o;
}
static bool g_want_choices = false;
void finish_run_to_shm(int status, const char* key, const char* msg) {
    shm->status = status; snprintf(shm->key, sizeof shm->key, "%s", key); snprintf(shm->msg, sizeof shm->msg, "%s", msg);
    shm->hash = g_run.hash; shm->ilv = g_run.ilv; shm->nlog = g_run.nlog; shm->points = sim_total_points(); shm->sim_us = sim_now_us(); shm->switches = g_run.switches;
    if (status == RUN_VIOLATION || status == RUN_CRASH || status == RUN_KNOWN || g_want_choices) { std::string s = serialise_choices(); if (s.size() > sizeof shm->blob) s.resize(0); memcpy(shm->blob, s.data(), s.size()); shm->blob_len = s.size(); }
    std::string c; for (auto& k : g_run.counters) c += k.first + "=" + std::to_string(k.second) + "\n";
    if (c.size() > sizeof shm->cnt) c.resize(sizeof shm->cnt); memcpy(shm->cnt, c.data(), c.size()); shm->cnt_len = c.size();
    if (g_verbose) { const std::string& l = sim_log(); size_t n = std::min(l.size(), sizeof shm->log); memcpy(shm->log, l.data(), n); shm->log_len = n; }
}

struct Case { uint64_t seed; std::string prop, world; bool replay; std::vector<SchedRec> sched; std::map<std::string, std::vector<uint32_t>> streams; std::string key; };
struct Out { int status; std::string key, msg, blob; uint64_t hash; };
extern "C" { void* sim_malloc(size_t); void sim_free(void*); }

static int g_errfd = -1;
static Out run_case(const Case& c) {
    shm->status = RUN_NONE; shm->key[0] = shm->msg[0] = 0; shm->blob_len = shm->cnt_len = shm->log_len = 0; memset(shm->edges, 0, MAX_EDGES);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        if (g_errfd >= 0) { dup2(g_errfd, 2); dup2(g_errfd, 1); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        g_prop = c.prop; g_run.seed = c.seed; g_run.replay = c.replay; g_run.sched = c.sched; g_run.edges = shm->edges;
        for (auto& k : c.streams) { StreamRec s; s.vals = k.second; g_run.streams[k.first] = s; }
        __asan_set_error_report_callback(on_report); __asan_set_death_callback(on_death);
        cJSON_Hooks h = {sim_malloc, sim_free}; cJSON_InitHooks(&h);
        for (auto& w : worlds()) if (c.world == w.name && c.prop == w.prop) {
            sim_begin_run();
            w.fn();
            sim_end_run();
            _exit(0);
        }
        _exit(91);
    }
    int st = 0; time_t t0 = time(nullptr); int spins = 0;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (++spins < 400) usleep(50); else usleep(500);
        if (time(nullptr) - t0 > 240) { kill(p, SIGKILL); waitpid(p, &st, 0); return {-2, "timeout", "run exceeded 240 s of wall clock", "", 0}; }
    }
    Out o; o.status = shm->status; o.key = shm->key; o.msg = shm->msg; o.blob.assign(shm->blob, shm->blob_len); o.hash = shm->hash;
    if (o.status == RUN_NONE) {
        if (WIFSIGNALED(st)) { o.status = WTERMSIG(st) == SIGKILL ? -2 : RUN_CRASH; o.key = "crash:signal-" + std::to_string(WTERMSIG(st)); }
        else if (WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) <= 99) { o.status = -2; o.key = "harness-exit-" + std::to_string(WEXITSTATUS(st)); }
        else { o.status = RUN_CRASH; o.key = "crash:exit-" + std::to_string(WEXITSTATUS(st)); }
    }
    return o;
}
static std::string case_text(const Case& c) {
    std::ostringstream o; o << "property " << c.prop << "\nworld " << c.world << "\nseed " << c.seed << "\nkey " << c.key << "\n";
    for (auto& r : c.sched) o << "sched " << r.tid << " " << r.at << " " << r.target << "\n";
    for (auto& k : c.streams) { o << "stream " << k.first; for (auto v : k.second) o << " " << v; o << "\n"; }
    return o.str();
}
static Case parse_case(std::istream& in) {
    Case c; c.replay = true; c.seed = 0; std::string line; bool any = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if (k == "property") l >> c.prop; else if (k == "world") l >> c.world; else if (k == "seed") l >> c.seed;
        else if (k == "key") { std::getline(l, c.key); if (!c.key.empty() && c.key[0] == ' ') c.key.erase(0, 1); }
        else if (k == "sched") { SchedRec r; l >> r.tid >> r.at >> r.target; c.sched.push_back(r); any = true; }
        else if (k == "stream") { std::string n; l >> n; auto& v = c.streams[n]; uint32_t x; while (l >> x) v.push_back(x); any = true; }
        else if (k == "explore") any = false;
    }
    c.replay = any;
    return c;
}
static bool bad(const Out& o) { return o.status == RUN_VIOLATION || o.status == RUN_CRASH; }
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ULL + b; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void minimise(Case& c, double budget) {
    double t0 = mono(); int tries = 0;
    auto still = [&](const Case& d) { if (mono() - t0 > budget) return false; tries++; Out o = run_case(d); return bad(o) && o.key == c.key; };
    bool progress = true;
    while (progress && mono() - t0 < budget) {
        progress = false;
        // drop schedule decisions, big chunks first
        for (size_t chunk = std::max<size_t>(1, c.sched.size()); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < c.sched.size();) {
                Case d = c; size_t e = std::min(d.sched.size(), i + chunk);
                d.sched.erase(d.sched.begin() + i, d.sched.begin() + e);
                if (still(d)) { c = d; progress = true; } else i += chunk;
                if (mono() - t0 > budget) return;
            }
            if (chunk == 1) break;
        }
        // empty whole streams
        std::vector<std::string> names; for (auto& k : c.streams) if (!k.second.empty()) names.push_back(k.first);
        for (size_t chunk = std::max<size_t>(1, names.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < names.size(); i += chunk) {
                Case d = c; bool any = false;
                for (size_t j = i; j < std::min(names.size(), i + chunk); j++) if (!d.streams[names[j]].empty()) { d.streams[names[j]].clear(); any = true; }
                if (any && still(d)) { c = d; progress = true; }
                if (mono() - t0 > budget) return;
            }
            if (chunk == 1) break;
        }
        // zero or shrink single values
        for (auto& n : names) {
            for (size_t i = 0; i < c.streams[n].size(); i++) {
                uint32_t v = c.streams[n][i]; if (!v) continue;
                Case d = c; d.streams[n][i] = 0;
                if (still(d)) { c = d; progress = true; continue; }
                if (v > 1) { d = c; d.streams[n][i] = v / 2; if (still(d)) { c = d; progress = true; } }
                if (mono() - t0 > budget) return;
            }
            while (!c.streams[n].empty() && c.streams[n].back() == 0) c.streams[n].pop_back();
        }
    }
    for (auto it = c.streams.begin(); it != c.streams.end();) if (it->second.empty()) it = c.streams.erase(it); else ++it;
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 3; }
    if (a.count("--known")) { std::ifstream f(a["--known"]); std::string l; while (std::getline(f, l)) { std::istringstream s(l); std::string k, p, q; s >> k >> p >> q; if (k == "known:" && p.rfind("property=", 0) == 0 && q.rfind("key=", 0) == 0) g_known.insert(p.substr(9) + " " + q.substr(4)); } }
    if (mode == "list") { for (auto& w : worlds()) printf("%s %s\n", w.prop, w.name); return 0; }
    if (a.count("--stderr")) g_errfd = open(a["--stderr"].c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (mode == "explore") {
        std::string prop = a["--prop"]; uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10);
        long runs = atol(a["--runs"].c_str()); int w = atoi(a["--worker"].c_str()), W = atoi(a["--workers"].c_str()); double tl = atof(a["--time"].c_str());
        long maxviol = a.count("--max-violations") ? atol(a["--max-violations"].c_str()) : 1;
        std::vector<const World*> ws; for (auto& x : worlds()) if (prop == x.prop && (!a.count("--world") || a["--world"] == x.name)) ws.push_back(&x);
        if (ws.empty()) { fprintf(stderr, "no world for %s\n", prop.c_str()); return 3; }
        double t0 = mono(); long done = 0, viol = 0; std::map<std::string, uint64_t> cnt; std::unordered_set<uint64_t> esig, ilv; std::map<std::string, uint64_t> knownhits, perworld; std::map<std::string, long> keys;
        uint64_t sim_us = 0, points = 0, switches = 0; std::vector<unsigned char> edges(MAX_EDGES, 0); double maxrun = 0; uint64_t withfault = 0;
        std::ofstream hf; if (a.count("--hashes")) hf.open(a["--hashes"]);
        uint64_t ph = 0; for (char ch : prop) ph = ph * 131 + (unsigned char)ch;
        for (long i = w; i < runs; i += W) {
            if (tl > 0 && mono() - t0 > tl) break;
            const World* wd = ws[i % ws.size()];
            Case c; c.prop = prop; c.world = wd->name; c.replay = false; c.seed = mix(mix(seed, ph), (uint64_t)i);
            if (g_errfd >= 0) { if (ftruncate(g_errfd, 0)) {} lseek(g_errfd, 0, SEEK_SET); }
            double r0 = mono();
            Out o = run_case(c); done++; perworld[wd->name]++;
            double rt = mono() - r0; if (rt > maxrun) maxrun = rt;
            if (o.status == -2) { fprintf(stderr, "ERROR world=%s seed=%llu %s\n", wd->name, (unsigned long long)c.seed, o.key.c_str()); return 3; }
            std::istringstream cs(std::string(shm->cnt, shm->cnt_len)); std::string l; bool anyf = false;
            while (std::getline(cs, l)) { size_t e = l.rfind('='); uint64_t v = strtoull(l.c_str() + e + 1, 0, 10); std::string k = l.substr(0, e); if (k.rfind("known.", 0) == 0) { knownhits[k.substr(6)]++; continue; } if (k.rfind("max.", 0) == 0) { if (v > cnt[k]) cnt[k] = v; } else cnt[k] += v; if (l.rfind("fault.", 0) == 0) anyf = true; }
            if (anyf) withfault++;
            uint64_t h = 0xcbf29ce484222325ULL; uint32_t ng = sim_nguards(); for (uint32_t g = 1; g < ng; g++) if (shm->edges[g]) { edges[g] = 1; h ^= g; h *= 0x100000001b3ULL; }
            esig.insert(h); ilv.insert(shm->ilv ^ h * 31 ^ shm->hash);
            sim_us += shm->sim_us; points += shm->points; switches += shm->switches;
            if (hf.is_open()) hf << i << " " << o.hash << " " << o.status << " " << shm->points << "\n";
            if (o.status == RUN_KNOWN) knownhits[o.key]++;
            if (bad(o)) {
                keys[o.key]++;
                if (viol < maxviol && !(a.count("--distinct") && keys[o.key] > 1)) {
                    Case d; std::istringstream bs(o.blob); d = parse_case(bs); d.prop = prop; d.world = wd->name; d.seed = c.seed; d.key = o.key;
                    std::ofstream f(a["--out"] + ".viol" + std::to_string(viol)); f << "# raw\n" << case_text(d) << (o.blob.empty() ? "explore 1\n" : ""); std::istringstream ms(o.msg); std::string ml; while (std::getline(ms, ml)) f << "# " << ml << "\n";
                    viol++;
                }
                if (!a.count("--distinct") && viol >= maxviol) break;
            }
        }
        std::ofstream f(a["--out"]);
        uint64_t ne = 0; for (auto e : edges) ne += e;
        f << "runs " << done << "\nviolations " << viol << "\nsim_us " << sim_us << "\npoints " << points << "\nswitches " << switches << "\nedges_total " << sim_nguards() - 1 << "\nwall " << mono() - t0 << "\nmaxrun " << maxrun << "\nwithfault " << withfault << "\n";
        for (auto& k : cnt) f << "counter " << k.first << " " << k.second << "\n";
        for (auto& k : knownhits) f << "known " << k.second << " " << k.first << "\n";
        for (auto& k : perworld) f << "world " << k.first << " " << k.second << "\n";
        for (auto& k : keys) f << "key " << k.second << " " << k.first << "\n";
        f << "esig"; for (auto v : esig) f << " " << std::hex << v << std::dec; f << "\nilv"; for (auto v : ilv) f << " " << std::hex << v << std::dec; f << "\nedges"; for (uint32_t g = 1; g < sim_nguards(); g++) if (edges[g]) f << " " << g; f << "\n";
        return 0;
    }
    if (mode == "replay" || mode == "minimise" || mode == "seed") {
        Case c;
        if (mode == "seed") { c.prop = a["--prop"]; c.world = a["--world"]; c.seed = strtoull(a["--seed"].c_str(), 0, 10); c.replay = false; }
        else { std::ifstream f(a["--file"]); if (!f) { fprintf(stderr, "cannot open %s\n", a["--file"].c_str()); return 3; } c = parse_case(f); }
        if (mode == "minimise") {
            Out o = run_case(c);
            if (!bad(o) || o.key != c.key) { printf("not reproduced: %d %s\n", o.status, o.key.c_str()); return 4; }
            if (!c.replay && !o.blob.empty()) { std::istringstream bs(o.blob); Case d = parse_case(bs); d.prop = c.prop; d.world = c.world; d.seed = c.seed; d.key = c.key; c = d; }
            if (c.replay) minimise(c, a.count("--budget") ? atof(a["--budget"].c_str()) : 30);
        }
        g_verbose = true; g_want_choices = mode == "seed";
        Out o = run_case(c);
        std::string log(shm->log, shm->log_len);
        if (mode == "minimise") {
            std::ofstream f(a["--out"]); f << "# replay file: python3 /verif/check.py replay <this file>\n" << (a.count("--header") ? a["--header"] + "\n" : "") << case_text(c) << (c.replay ? "" : "explore 1\n") << "hash " << o.hash << "\n# ---- violation: " << o.key << "\n";
            std::istringstream ms(o.msg); std::string ml; while (std::getline(ms, ml)) f << "# " << ml << "\n";
            f << "# ---- trace of the minimised run\n"; std::istringstream ls(log); while (std::getline(ls, ml)) f << "# " << ml << "\n";
        }
        if (a.count("--quiet") == 0 && mode != "minimise") { std::cout << log; if (mode == "seed") std::cout << o.blob; std::cout << std::string(shm->cnt, shm->cnt_len); std::cout << o.msg << "\n"; }
        std::cout << "RESULT status=" << o.status << " hash=" << o.hash << " points=" << shm->points << " key=" << o.key << "\n";
        return bad(o) ? 1 : o.status == -2 ? 3 : 0;
    }
    fprintf(stderr, "usage\n");
    return 3;
}
