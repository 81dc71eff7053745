#include "sim.h"
#include "runner.h"
#include <libwebsockets.h>
#include <algorithm>
#include <cstdlib>
#include <deque>
#include <errno.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <sanitizer/asan_interface.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

bool g_verbose = false;
std::string g_prop;
bool g_in_harness_cb = false;
RunState g_run;

// ================================================================ hashing, choices
static inline uint64_t sm64(uint64_t& s) { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; } return h; }
void mix_hash(const void* p, size_t n) { g_run.hash = fnv(p, n, g_run.hash); }

uint32_t pick(const std::string& name, uint32_t n) {
    auto it = g_run.streams.find(name);
    if (it == g_run.streams.end()) {
        StreamRec s; s.rng = g_run.seed ^ fnv(name.data(), name.size()); sm64(s.rng);
        it = g_run.streams.emplace(name, s).first;
    }
    StreamRec& s = it->second;
    uint32_t v;
    if (g_run.replay) v = s.pos < s.vals.size() ? s.vals[s.pos] : 0;
    else { v = n <= 1 ? 0 : (uint32_t)(sm64(s.rng) % n); s.vals.push_back(v); }
    s.pos++;
    if (n == 0) return 0;
    return v % n;
}

std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { r += d[c[i] >> 4]; r += d[c[i] & 15]; } return r; }
std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return r; }

// ================================================================ threads
struct T {
    int id; std::string name; sem_t sem; enum { RUN, BLOCK, DONE } st = RUN;
    uint64_t wake_at = UINT64_MAX; bool timed_out = false;
    uint64_t points = 0; int64_t gap = 0;
    std::function<void()> fn; void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    pthread_t real{}; bool library = false, joined = false, detached = false;
    void* wait_mutex = nullptr; int wait_join = -1; std::function<bool()> pred; const char* why = "";
    int64_t skew = 0; Faults f; size_t rec_i = 0; std::vector<std::pair<uint64_t,int>> recs;
};
static std::vector<T*> th;
static T* cur = nullptr;
static __thread T* me = nullptr;
static int64_t countdown = INT64_MAX;
static int in_sched = 0;
static int preempt = 0;
static uint64_t now_us = 0, total_points = 0, seqno = 0;
static int64_t epoch_s = 1700000000, jump_s = 0;
static uint64_t time_limit_us = 40ull * 24 * 3600 * 1000000;
static uint64_t point_cap = 400ull * 1000 * 1000;
struct Timer { uint64_t at, seq; std::function<void()> fn; };
struct TimerCmp { bool operator()(const Timer* a, const Timer* b) const { return a->at != b->at ? a->at < b->at : a->seq < b->seq; } };
static std::set<Timer*, TimerCmp> timers;
static uint64_t timer_seq = 0;
static uint64_t sched_rng = 0;
static const int64_t FAIR = 300000;

uint64_t sim_now_us() { return now_us; }
int sim_self() { return me ? me->id : -1; }
uint64_t sim_seq() { return ++seqno; }
void sim_set_epoch(int64_t s) { epoch_s = s; jump_s = 0; }
static int64_t thread_skew();
int64_t sim_wall() { return epoch_s + jump_s + thread_skew() + (int64_t)(now_us / 1000000); }
void sim_clock_jump(int64_t s) { jump_s += s; slog("clock jump %lld -> %lld", (long long)s, (long long)sim_wall()); count(s < 0 ? "fault.clock_back" : "fault.clock_fwd"); }

static int64_t thread_skew() { return me ? me->skew : 0; }
void sim_thread_skew(int64_t sec) { if (me->skew != sec) { slog("clock skew %lld -> %lld", (long long)me->skew, (long long)sec); count("fault.clock_skew"); } me->skew = sec; }
static uint64_t sched_rand() { return sm64(sched_rng); }
static void set_gap(T* t) {
    int64_t g;
    if (g_run.replay) {
        g = FAIR;
        while (t->rec_i < t->recs.size() && t->recs[t->rec_i].first <= t->points) t->rec_i++;
        if (t->rec_i < t->recs.size()) { int64_t d = (int64_t)(t->recs[t->rec_i].first - t->points); if (d < g) g = d; }
    } else {
        uint64_t mean = preempt == 3 ? 12 : preempt == 2 ? 150 : preempt == 1 ? 2500 : 0;
        if (!mean) g = FAIR; else {
            // log-uniform-ish: mixes bursts of tight switching with long stretches
            uint64_t k = sched_rand() % 6; uint64_t m = mean << (k > 3 ? k - 3 : 0); m = m >> (k == 0 ? 2 : 0); if (!m) m = 1;
            g = 1 + (int64_t)(sched_rand() % (2 * m));
        }
    }
    t->gap = g; countdown = g;
}
static void settle() { if (cur) { cur->points += (uint64_t)(cur->gap - countdown); total_points += (uint64_t)(cur->gap - countdown); cur->gap = countdown; } }
void sim_preempt_mode(int m) { settle(); preempt = m; if (cur) set_gap(cur); }

static std::string dump_threads() {
    std::string r; char b[256];
    for (T* t : th) { snprintf(b, sizeof b, " T%d(%s)=%s%s%s", t->id, t->name.c_str(), t->st == T::RUN ? "run" : t->st == T::DONE ? "done" : "blocked:", t->st == T::BLOCK ? t->why : "", t->library ? "[lib]" : ""); r += b; }
    return r;
}
static void fire_due() {
    while (!timers.empty() && (*timers.begin())->at <= now_us) { Timer* t = *timers.begin(); timers.erase(timers.begin()); in_sched++; t->fn(); in_sched--; delete t; }
    for (T* t : th) if (t->st == T::BLOCK && t->wake_at <= now_us) { t->st = T::RUN; t->timed_out = true; t->wake_at = UINT64_MAX; }
    for (T* t : th) if (t->st == T::BLOCK && t->pred && t->pred()) { t->st = T::RUN; t->wake_at = UINT64_MAX; }
}
static uint64_t next_time() {
    uint64_t n = UINT64_MAX;
    if (!timers.empty()) n = (*timers.begin())->at;
    for (T* t : th) if (t->st == T::BLOCK && t->wake_at < n) n = t->wake_at;
    return n;
}
static bool advance() {
    uint64_t n = next_time();
    if (n == UINT64_MAX) return false;
    if (n > now_us) now_us = n;
    if (now_us > time_limit_us) violate("stuck", "no progress within the simulated time limit:%s", dump_threads().c_str());
    fire_due();
    return true;
}
static void note_switch(T* n) { uint64_t x = ((uint64_t)n->id << 32) ^ (cur ? cur->points : 0); g_run.ilv = fnv(&x, sizeof x, g_run.ilv); g_run.switches++; }
static void resume_to(T* n) {           // caller is `me`, already settled
    T* self = me;
    if (n == self) { cur = self; set_gap(self); return; }
    note_switch(n);
    cur = n;
    set_gap(n);
    sem_post(&n->sem);
    if (self->st == T::DONE) return;
    while (sem_wait(&self->sem) != 0) {}
    // resumed: whoever switched to us set cur & gap
}
static void schedule_next(bool self_blocked) {
    settle();
    std::vector<T*> r;
    for (;;) {
        for (T* t : th) if (t->st == T::BLOCK && t->pred && t->pred()) { t->st = T::RUN; t->wake_at = UINT64_MAX; }
        r.clear();
        for (T* t : th) if (t->st == T::RUN) r.push_back(t);
        if (!r.empty()) break;
        if (!advance()) violate("deadlock", "all threads blocked:%s", dump_threads().c_str());
    }
    T* n = r.size() == 1 ? r[0] : r[pick("blk", (uint32_t)r.size())];
    (void)self_blocked;
    resume_to(n);
}
static void slow_point() {
    settle();
    T* t = me;
    if (total_points > point_cap) violate("livelock", "run exceeded its step budget:%s", dump_threads().c_str());
    int target = -1;
    std::vector<int> cand;
    if (g_run.replay) {
        if (t->rec_i < t->recs.size() && t->recs[t->rec_i].first == t->points) { target = t->recs[t->rec_i].second; t->rec_i++; }
        if (target < 0) { set_gap(t); return; }
        if (target != 1000 && (target >= (int)th.size() || th[target]->st != T::RUN)) { set_gap(t); return; }
    } else {
        for (T* o : th) if (o != t && o->st == T::RUN) cand.push_back(o->id);
        uint64_t nx = next_time();      // a running thread may stall, but for at most a second at a time
        if (nx != UINT64_MAX && nx <= now_us + 1000000 && (!preempt || cand.empty() || sched_rand() % 3 == 0)) cand.push_back(1000);
        if (cand.empty() || (!preempt && cand.size() == 1 && cand[0] == 1000 && false)) { set_gap(t); return; }
        target = cand[sched_rand() % cand.size()];
        g_run.sched.push_back({t->id, t->points, target});
    }
    if (target == 1000) { uint64_t nx = next_time(); if (nx != UINT64_MAX && nx <= now_us + 1000000) advance(); set_gap(t); return; }
    resume_to(th[target]);
}
void sim_point() {
    if (--countdown > 0) return;
    if (!me || in_sched || me != cur) { countdown = 1000; return; }
    slow_point();
}
// a place where a context switch is more likely to matter: around locks, writes and thread starts
static void hot_point() {
    if (preempt && me && me == cur && !in_sched && !g_run.replay && th.size() > 1 && sched_rand() % 6 == 0) { settle(); cur->gap = countdown = 1; }
    sim_point();
}
void sim_yield() {
    if (!me) return;
    settle();
    std::vector<T*> r;
    for (T* t : th) if (t->st == T::RUN) r.push_back(t);
    T* n = r.size() <= 1 ? me : r[pick("blk", (uint32_t)r.size())];
    resume_to(n);
}
static void block(const char* why, uint64_t wake_at) {
    T* t = me; t->st = T::BLOCK; t->wake_at = wake_at; t->why = why; t->timed_out = false;
    schedule_next(true);
    t->why = "";
}
static void wake(T* t) { if (t->st == T::BLOCK) { t->st = T::RUN; t->wake_at = UINT64_MAX; } }
void sim_wake_all() { fire_due(); }

bool sim_wait(std::function<bool()> pred, uint64_t timeout) {
    uint64_t end = timeout == UINT64_MAX ? UINT64_MAX : now_us + timeout;
    while (!pred()) {                          // it may have turned false again before this thread ran
        if (now_us >= end) return false;
        T* t = me; t->pred = pred;
        block("harness wait", end);
        t->pred = nullptr;
    }
    return true;
}
void sim_after(uint64_t us, std::function<void()> fn) { timers.insert(new Timer{now_us + us, timer_seq++, std::move(fn)}); }
size_t sim_pending_events() { return timers.size(); }
void sim_sleep_us(uint64_t us) { block("sleep", now_us + us); }

static void thread_finish() {
    T* t = me; settle(); t->st = T::DONE;
    for (T* o : th) if (o->st == T::BLOCK && o->wait_join == t->id) wake(o);
    // hand the baton over; never returns control to this thread
    std::vector<T*> r;
    for (;;) {
        for (T* o : th) if (o->st == T::BLOCK && o->pred && o->pred()) { o->st = T::RUN; o->wake_at = UINT64_MAX; }
        r.clear();
        for (T* o : th) if (o->st == T::RUN) r.push_back(o);
        if (!r.empty()) break;
        if (!advance()) violate("deadlock", "all threads blocked:%s", dump_threads().c_str());
    }
    T* n = r.size() == 1 ? r[0] : r[pick("blk", (uint32_t)r.size())];
    resume_to(n);
}
static void* trampoline(void* p) {
    T* t = (T*)p; me = t;
    while (sem_wait(&t->sem) != 0) {}
    if (t->start) t->ret = t->start(t->arg); else t->fn();
    thread_finish();
    return nullptr;
}
static Faults new_thread_faults;
void faults_all_new_threads(const Faults& f) { new_thread_faults = f; }
int faults_fired_in_library() { int n = 0; for (T* t : th) if (t->library) n += t->f.fired; return n; }
static T* new_thread(const std::string& name) {
    T* t = new T; t->id = (int)th.size(); t->name = name; sem_init(&t->sem, 0, 0); t->f = new_thread_faults;
    if (g_run.replay) for (auto& r : g_run.sched) if (r.tid == t->id) t->recs.push_back({r.at, r.target});
    th.push_back(t);
    return t;
}
static void launch(T* t) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
    if (pthread_create(&t->real, &a, trampoline, t) != 0) { fprintf(stderr, "sim: real pthread_create failed\n"); _exit(90); }
    pthread_attr_destroy(&a);
}
int sim_spawn(const std::string& name, std::function<void()> fn) { settle(); T* t = new_thread(name); t->fn = std::move(fn); launch(t); return t->id; }
void sim_join_spawned() {
    sim_wait([] { for (T* t : th) if (t->id != 0 && !t->library && t->st != T::DONE) return false; return true; }, UINT64_MAX);
}
int sim_live_library_threads() { int n = 0; for (T* t : th) if (t->library && (t->st != T::DONE || (!t->joined && !t->detached))) n++; return n; }
void sim_set_thread_fault(int tid, const Faults& f) { if (tid >= 0 && tid < (int)th.size()) th[tid]->f = f; }

void sim_begin_run() {
    sched_rng = g_run.seed ^ 0x5ced5ced5cedULL; sm64(sched_rng);
    T* t = new_thread("main"); me = t; cur = t; t->real = pthread_self();
    set_gap(t);
}

// ================================================================ logging and verdicts
static std::string logbuf;
void slog(const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char h[64]; int n = snprintf(h, sizeof h, "T%d@%llu ", sim_self(), (unsigned long long)now_us);
    mix_hash(h, n); mix_hash(b, strlen(b)); g_run.nlog++;
    if (g_verbose && logbuf.size() < (4u << 20)) { logbuf += h; logbuf += b; logbuf += '\n'; }
}
void count(const std::string& n, uint64_t k) { g_run.counters[n] += k; }
const std::string& sim_log() { return logbuf; }

void finish_run_to_shm(int status, const char* key, const char* msg);
void violate(const char* key, const char* fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    slog("VIOLATION %s: %s", key, b);
    settle();
    finish_run_to_shm(is_known(key) ? RUN_KNOWN : RUN_VIOLATION, key, b);
    _exit(0);
}
void finding(const char* key, const char* fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (is_known(key)) { slog("known finding %s", key); g_run.counters[std::string("known.") + key]++; return; }
    violate(key, "%s", b);
}
void sim_end_run() { settle(); finish_run_to_shm(RUN_OK, "", ""); }
uint64_t sim_total_points() { return total_points; }

// ================================================================ faults
Faults& faults() { static Faults none; return me ? me->f : none; }
Faults faults_take() { Faults f = faults(); faults() = Faults(); return f; }
static bool hit(int& at, int& run) {
    if (at < 0) return false;
    if (at > 0) { at--; return false; }
    if (--run <= 0) at = -1;
    return true;
}

// ================================================================ allocation
struct AInfo { size_t size; uint64_t seq; void* pc; int tid; };
static std::unordered_map<const void*, AInfo>* live;
static uint64_t aseq = 0;
static std::function<void(void*, size_t)> on_free;
void set_on_free(std::function<void(void*, size_t)> f) { on_free = std::move(f); }
static std::unordered_map<const void*, AInfo>& L() { if (!live) live = new std::unordered_map<const void*, AInfo>(); return *live; }
size_t live_allocs() { return L().size(); }
uint64_t alloc_mark() { return ++aseq; }
size_t live_since(uint64_t m) { size_t n = 0; for (auto& k : L()) if (k.second.seq > m) n++; return n; }
size_t live_mine(uint64_t m) { size_t n = 0; int t = sim_self(); for (auto& k : L()) if (k.second.seq > m && k.second.tid == t) n++; return n; }
bool is_live_alloc(const void* p) { return L().count(p) != 0; }
bool addr_bad(const void* p) { return __asan_address_is_poisoned(p); }
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t out_size);
std::string describe_live(uint64_t m, bool mine) {
    std::vector<AInfo> v; for (auto& k : L()) if (k.second.seq > m && (!mine || k.second.tid == sim_self())) v.push_back(k.second);
    std::sort(v.begin(), v.end(), [](const AInfo& a, const AInfo& b) { return a.seq < b.seq; });
    std::string r; char b[512]; int n = 0;
    for (auto& a : v) { if (n++ >= 6) break; char s[400] = "?"; __sanitizer_symbolize_pc(a.pc, "%f %S", s, sizeof s); std::string q = s; size_t sl = q.rfind('/'); size_t sp = q.find(' '); if (sl != std::string::npos && sp != std::string::npos) q = q.substr(0, sp + 1) + q.substr(sl + 1); snprintf(b, sizeof b, "%zu bytes from %s; ", a.size, q.c_str()); r += b; }
    return r;
}
bool live_has(uint64_t m, const char* bytes, size_t n) { for (auto& k : L()) if (k.second.seq > m && k.second.size >= n && memmem(k.first, k.second.size, bytes, n)) return true; return false; }
static bool alloc_fault() {
    if (!me) return false;
    Faults& f = me->f; f.allocs++;
    if (hit(f.alloc_at, f.alloc_run)) { f.fired++; f.fired_alloc++; g_run.counters["fault.alloc"]++; slog("fault: allocation %d fails", f.allocs); return true; }
    return false;
}
extern "C" {
void* sim_malloc(size_t n) { sim_point(); if (alloc_fault()) { errno = ENOMEM; return nullptr; } void* p = malloc(n); if (p) L()[p] = {n, ++aseq, __builtin_return_address(0), sim_self()}; return p; }
void* sim_calloc(size_t a, size_t b) { sim_point(); if (alloc_fault()) { errno = ENOMEM; return nullptr; } void* p = calloc(a, b); if (p) L()[p] = {a * b, ++aseq, __builtin_return_address(0), sim_self()}; return p; }
void sim_free(void* p) {
    sim_point();
    if (!p) return;
    auto it = L().find(p);
    if (it != L().end()) { if (on_free) on_free(p, it->second.size); L().erase(it); }
    free(p);
}
void* sim_realloc(void* p, size_t n) {
    sim_point();
    if (alloc_fault()) { errno = ENOMEM; return nullptr; }
    if (p) { auto it = L().find(p); if (it != L().end() && on_free) on_free(p, it->second.size); }
    void* q = realloc(p, n);
    if (q || n == 0) { if (p) L().erase(p); if (q) L()[q] = {n, ++aseq, __builtin_return_address(0), sim_self()}; }
    return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char* sim_strdup(const char* s) { sim_point(); if (alloc_fault()) { errno = ENOMEM; return nullptr; } char* p = strdup(s); if (p) L()[p] = {strlen(s) + 1, ++aseq, __builtin_return_address(0), sim_self()}; return p; }
char* sim_strndup(const char* s, size_t n) { sim_point(); if (alloc_fault()) { errno = ENOMEM; return nullptr; } char* p = strndup(s, n); if (p) L()[p] = {strlen(p) + 1, ++aseq, __builtin_return_address(0), sim_self()}; return p; }
int sim_asprintf(char** out, const char* fmt, ...) { if (alloc_fault()) { errno = ENOMEM; *out = nullptr; return -1; } va_list ap; va_start(ap, fmt); int n = vasprintf(out, fmt, ap); va_end(ap); if (n >= 0) L()[*out] = {(size_t)n + 1, ++aseq, __builtin_return_address(0), sim_self()}; return n; }
}

// ================================================================ mutexes, conditions, threads
struct M { int owner = -1; int cnt = 0; bool rec = false; bool destroyed = false; };
static std::map<const void*, M> mtx;
struct RW { int writer = -1; int readers = 0; };
static std::map<const void*, RW> rws;
static std::map<const void*, int> onces;
static std::map<const void*, uint64_t> conds;   // generation
static void mcheck(const void* m, const char* op) {
    if (addr_bad(m)) violate("crash:mutex-in-freed-memory", "%s on a mutex inside freed memory", op);
}
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    sim_point(); mcheck(m, "pthread_mutex_init");
    if (me) { if (hit(me->f.mutex_at, me->f.thread_run)) { me->f.fired++; count("fault.mutex_init"); slog("fault: pthread_mutex_init fails"); return ENOMEM; } }
    M x; if (a) { int ty = 0; pthread_mutexattr_gettype(a, &ty); x.rec = ty == PTHREAD_MUTEX_RECURSIVE; }
    memset(m, 0, sizeof *m);
    mtx[m] = x; return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
    sim_point(); mcheck(m, "pthread_mutex_destroy");
    M& x = mtx[m];
    if (x.owner != -1) violate("mutex-destroyed-while-held", "a mutex was destroyed while T%d holds it", x.owner);
    x.destroyed = true; memset(m, 0xDE, sizeof *m); return 0;
}
// a statically initialised mutex at the address of a destroyed one is a new mutex
static void refresh(M& x, const pthread_mutex_t* m) { if (x.destroyed && *(const unsigned char*)m != 0xDE) x = M(); }
static int lock_impl(pthread_mutex_t* m, bool try_, uint64_t until) {
    hot_point(); mcheck(m, "pthread_mutex_lock");
    for (;;) {
        M& x = mtx[m]; refresh(x, m);
        if (x.destroyed) violate("mutex-used-after-destroy", "a destroyed mutex was locked");
        if (x.owner == -1) { x.owner = me->id; x.cnt = 1; return 0; }
        if (x.owner == me->id && x.rec) { x.cnt++; return 0; }
        if (try_) return EBUSY;
        if (until == UINT64_MAX) {   // wait-for cycle?
            int o = x.owner; int hops = 0;
            while (o >= 0 && hops++ < 64) {
                if (o == me->id) violate("deadlock", "lock cycle:%s", dump_threads().c_str());
                T* ot = th[o];
                if (ot->st == T::BLOCK && ot->wait_mutex) o = mtx[ot->wait_mutex].owner;
                else if (ot->st == T::BLOCK && ot->wait_join >= 0) o = ot->wait_join;
                else break;
            }
            if (x.owner >= 0 && th[x.owner]->st == T::DONE) violate("deadlock", "lock held by a finished thread T%d", x.owner);
        }
        me->wait_mutex = m;
        g_run.counters["sched.lock_contended"]++;
        block("mutex", until);
        me->wait_mutex = nullptr;
        if (me->timed_out && mtx[m].owner != -1) return ETIMEDOUT;
        mcheck(m, "pthread_mutex_lock");
    }
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return lock_impl(m, false, UINT64_MAX); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return lock_impl(m, true, UINT64_MAX); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { int64_t d = ts->tv_sec - sim_wall(); return lock_impl(m, false, now_us + (d > 0 ? (uint64_t)d * 1000000 : 0)); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    mcheck(m, "pthread_mutex_unlock");
    M& x = mtx[m];
    if (x.destroyed) violate("mutex-used-after-destroy", "a destroyed mutex was unlocked");
    if (x.owner != me->id) violate("mutex-unlock-not-owner", "unlock of a mutex that the caller does not hold");
    if (--x.cnt == 0) { x.owner = -1; for (T* t : th) if (t->st == T::BLOCK && t->wait_mutex == m) wake(t); }
    hot_point();
    return 0;
}
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { conds[c] = 0; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { conds.erase(c); return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until) {
    uint64_t g = conds[c];
    sim_pthread_mutex_unlock(m);
    int r = 0;
    T* t = me;
    if (conds[c] == g) { t->pred = [c, g] { return conds[c] != g; }; block("cond", until); t->pred = nullptr; if (conds[c] == g) r = ETIMEDOUT; }
    sim_pthread_mutex_lock(m);
    return r;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, UINT64_MAX); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { int64_t d = ts->tv_sec - sim_wall(); return cond_wait(c, m, now_us + (d > 0 ? (uint64_t)d * 1000000 : 0)); }
int sim_pthread_cond_signal(pthread_cond_t* c) { conds[c]++; sim_point(); return 0; }      // wakes all waiters: a legal spurious wake-up
int sim_pthread_cond_broadcast(pthread_cond_t* c) { conds[c]++; sim_point(); return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { mcheck(l, "rwlock_init"); rws[l] = RW(); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* l) { mcheck(l, "rwlock_destroy"); if (rws[l].writer != -1 || rws[l].readers) violate("mutex-destroyed-while-held", "a rwlock was destroyed while held"); rws.erase(l); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    sim_point(); mcheck(l, "rwlock_rdlock");
    T* t = me;
    if (rws[l].writer == t->id) violate("deadlock", "rdlock while holding the write lock");
    while (rws[l].writer != -1) { t->pred = [l] { return rws[l].writer == -1; }; g_run.counters["sched.lock_contended"]++; block("rwlock", UINT64_MAX); t->pred = nullptr; }
    rws[l].readers++; return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    sim_point(); mcheck(l, "rwlock_wrlock");
    T* t = me;
    if (rws[l].writer == t->id) violate("deadlock", "wrlock while holding the write lock");
    while (rws[l].writer != -1 || rws[l].readers) { t->pred = [l] { return rws[l].writer == -1 && !rws[l].readers; }; g_run.counters["sched.lock_contended"]++; block("rwlock", UINT64_MAX); t->pred = nullptr; }
    rws[l].writer = t->id; return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) { mcheck(l, "rwlock_unlock"); RW& r = rws[l]; if (r.writer == me->id) r.writer = -1; else if (r.readers > 0) r.readers--; else violate("mutex-unlock-not-owner", "rwlock unlock without holding it"); sim_point(); return 0; }
int sim_pthread_once(pthread_once_t* o, void (*fn)(void)) {
    sim_point(); int& s = onces[o];
    if (s == 2) return 0;
    if (s == 0) { s = 1; fn(); onces[o] = 2; return 0; }
    T* t = me; t->pred = [o] { return onces[o] == 2; }; block("once", UINT64_MAX); t->pred = nullptr; return 0;
}
int sim_pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    sim_point();
    if (me) { me->f.threads++; if (hit(me->f.thread_at, me->f.thread_run)) { me->f.fired++; me->f.fired_thread++; count("fault.thread_create"); slog("fault: pthread_create fails"); return EAGAIN; } }
    settle();
    T* t = new_thread("lib"); t->library = true; t->start = fn; t->arg = arg; launch(t);
    *out = t->real; count("lib.threads");
    sim_point();
    return 0;
}
static T* by_real(pthread_t p) { for (T* t : th) if (t->library && !t->joined && pthread_equal(t->real, p)) return t; return nullptr; }
int sim_pthread_join(pthread_t p, void** ret) {
    sim_point();
    T* t = by_real(p);
    if (!t) violate("join-of-unknown-thread", "pthread_join of a thread that does not exist or was already joined");
    if (t == me) return EDEADLK;
    while (t->st != T::DONE) { me->wait_join = t->id; block("join", UINT64_MAX); me->wait_join = -1; }
    t->joined = true; if (ret) *ret = t->ret;
    pthread_join(t->real, nullptr);
    return 0;
}
int sim_pthread_detach(pthread_t p) { T* t = by_real(p); if (t) t->detached = true; return 0; }
int sim_usleep(unsigned us) { sim_sleep_us(us ? us : 1); return 0; }
unsigned sim_sleep(unsigned s) { sim_sleep_us((uint64_t)s * 1000000); return 0; }
int sim_nanosleep(const struct timespec* a, struct timespec*) { sim_sleep_us((uint64_t)a->tv_sec * 1000000 + (uint64_t)a->tv_nsec / 1000 + 1); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec*) { sim_sleep_us((uint64_t)a->tv_nsec / 1000 + 1); return 0; }
int sim_sched_yield(void) { sim_yield(); return 0; }
// ---- clock
time_t sim_time(time_t* o) { sim_point(); time_t t = (time_t)sim_wall(); if (o) *o = t; return t; }
int sim_clock_gettime(clockid_t c, struct timespec* ts) { sim_point(); ts->tv_sec = c == CLOCK_REALTIME ? (time_t)sim_wall() : (time_t)(now_us / 1000000); ts->tv_nsec = (long)(now_us % 1000000) * 1000; return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { sim_point(); tv->tv_sec = (time_t)sim_wall(); tv->tv_usec = (suseconds_t)(now_us % 1000000); return 0; }
clock_t sim_clock(void) { return (clock_t)now_us; }
}
// ---- environment / machine
static std::map<std::string, std::string> envs;
static long ncpus = 4;
void env_set(const std::string& k, const std::string& v) { envs[k] = v; }
void env_unset(const std::string& k) { envs.erase(k); }
void sim_set_cpus(long n) { ncpus = n; }
extern "C" {
char* sim_getenv(const char* k) { sim_point(); auto i = envs.find(k); return i == envs.end() ? nullptr : (char*)i->second.c_str(); }
char* sim_secure_getenv(const char* k) { return sim_getenv(k); }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return ncpus; return sysconf(n); }
}
// ---- randomness
static std::vector<std::string> rlog; static std::vector<int> rtid;
std::vector<std::string>& rng_log() { return rlog; }
std::vector<std::string> rng_mine(size_t from) { std::vector<std::string> v; for (size_t i = from; i < rlog.size(); i++) if (rtid[i] == sim_self()) v.push_back(rlog[i]); return v; }
void rng_note(const std::string& b) { rlog.push_back(b); rtid.push_back(sim_self()); }
bool sim_rng_scripted(unsigned char* b, size_t n);
static std::function<bool(unsigned char*, size_t)> rscript;
void rng_script(std::function<bool(unsigned char*, size_t)> f) { rscript = std::move(f); }
bool sim_rng_scripted(unsigned char* b, size_t n) { return rscript && rscript(b, n); }
static uint64_t rstate = 0; static bool rinit = false;
static void rng_fill(unsigned char* b, size_t n) {
    if (!rinit) { rstate = g_run.seed ^ 0xABCDEF0123456789ULL; rinit = true; }
    for (size_t i = 0; i < n; i += 8) { uint64_t v = sm64(rstate); memcpy(b + i, &v, n - i < 8 ? n - i : 8); }
}
static int draw(unsigned char* b, size_t n) {
    if (b && n && __asan_region_is_poisoned(b, n)) violate("crash:random-buffer", "random bytes were asked for into a buffer that is not %zu valid bytes", n);
    sim_point();
    Faults& f = faults(); f.rngs++;
    if (hit(f.rng_at, f.rng_run)) {
        f.fired++; f.fired_rng++; count("fault.rng"); slog("fault: random source fails");
        if (f.rng_dirty && n > 1) { rng_fill(b, n / 2); count("fault.rng_partial"); }
        return 0;
    }
    if (rscript && rscript(b, n)) { f.rng_bytes += n; if (n >= 16) { rlog.push_back(std::string((char*)b, n)); rtid.push_back(sim_self()); } return 1; }
    rng_fill(b, n);
    f.rng_bytes += n;
    if (n >= 16) { rlog.push_back(std::string((char*)b, n)); rtid.push_back(sim_self()); }
    return 1;
}
extern "C" {
int sim_RAND_bytes(unsigned char* b, int n) { return draw(b, (size_t)n); }
int sim_RAND_priv_bytes(unsigned char* b, int n) { return draw(b, (size_t)n); }
ssize_t sim_getrandom(void* b, size_t n, unsigned) { return draw((unsigned char*)b, n) ? (ssize_t)n : -1; }
int sim_getentropy(void* b, size_t n) { return draw((unsigned char*)b, n) ? 0 : -1; }
int sim_rand(void) { unsigned char b[4]; rng_fill(b, 4); return (b[0] | b[1] << 8 | b[2] << 16 | (b[3] & 0x7f) << 24); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned) {}
}
bool sim_crypto_fault() {
    if (!me) return false;
    Faults& f = me->f; f.cryptos++;
    if (hit(f.crypto_at, f.crypto_run)) { f.fired++; f.fired_crypto++; count("fault.crypto"); slog("fault: crypto call %d fails", f.cryptos); return true; }
    return false;
}
int sim_draw(unsigned char* b, size_t n) { return draw(b, n); }
void sim_rng_raw(unsigned char* b, size_t n) { rng_fill(b, n); { rlog.push_back(std::string((char*)b, n)); rtid.push_back(sim_self()); } }

// ================================================================ simulated libwebsockets
Net g_net;
enum EvKind { EV_EST, EV_ERR, EV_CLOSE, EV_FRAG, EV_WRITEABLE, EV_CANCELLED };
struct Ev { EvKind k; int conn; std::string data; bool first, fin; size_t remaining; };
struct lws { uint32_t magic; struct lws_context* ctx; void* opaque; void* user; int conn; bool open, connecting; bool first, fin; size_t remaining; const struct lws_protocols* proto; bool want_write = false; };
struct lws_context { uint32_t magic; const struct lws_protocols* protos; void* user; std::deque<Ev> q; std::vector<struct lws*> wsis; int servicing = -1; bool cancelled = false, parked = false; };
static std::vector<NetConn*> conns;
static std::set<struct lws_context*> ctxs;
static std::set<const struct lws*> wsis_live;
static const uint32_t WM = 0x77734921, CM = 0x63747821;
NetConn* net_conn(int id) { return id >= 0 && id < (int)conns.size() ? conns[id] : nullptr; }
int net_conn_count() { return (int)conns.size(); }
int net_live_contexts() { return (int)ctxs.size(); }
int net_live_wsis() { return (int)wsis_live.size(); }
size_t net_queue_len(int id) { NetConn* c = net_conn(id); if (!c || c->dead || !c->wsi) return 0; size_t n = 0; for (auto& e : c->wsi->ctx->q) if (e.conn == id) n++; return n; }
bool net_service_idle() { for (auto* c : ctxs) if (!c->q.empty() || (c->servicing >= 0 && !c->parked)) return false; return true; }
static void push_ev(int id, Ev e) {
    NetConn* c = net_conn(id); if (!c || c->dead || !c->wsi) return;
    e.conn = id; c->wsi->ctx->q.push_back(std::move(e));
}
void net_establish(int id) { push_ev(id, {EV_EST, id, "", false, false, 0}); }
void net_refuse(int id) { push_ev(id, {EV_ERR, id, "", false, false, 0}); }
void net_peer_close(int id) { push_ev(id, {EV_CLOSE, id, "", false, false, 0}); }
void net_fragment(int id, const std::string& b, bool first, bool fin, size_t rem) { push_ev(id, {EV_FRAG, id, b, first, fin, rem}); }

static struct lws* wsi_check(struct lws* w, const char* fn) {
    if (!wsis_live.count(w)) violate("crash:use-of-closed-wsi", "%s on a websocket handle that the network library already destroyed", fn);
    return w;
}
static void ctx_check(struct lws_context* c, const char* fn) { if (!ctxs.count(c)) violate("crash:use-of-destroyed-context", "%s on a websocket context that was already destroyed", fn); }
static int cb(struct lws* w, enum lws_callback_reasons r, void* in, size_t len) {
    static std::set<int> noted;
    slog("lws callback reason=%d conn=%d len=%zu", (int)r, w->conn, len);
    count("lws.cb." + std::to_string((int)r));
    int rc = w->proto->callback(w, r, w->user, in, len);
    return rc;
}
static void wsi_free(struct lws* w) {
    NetConn* c = net_conn(w->conn);
    if (c) { c->dead = true; c->open = false; c->wsi = nullptr; }
    auto& v = w->ctx->wsis; v.erase(std::remove(v.begin(), v.end(), w), v.end());
    auto& q = w->ctx->q; q.erase(std::remove_if(q.begin(), q.end(), [&](const Ev& e) { return e.conn == w->conn; }), q.end());
    wsis_live.erase(w);
    int id = w->conn;
    free(w->user); memset(w, 0xdd, 16); delete w;
    if (g_net.on_closed) g_net.on_closed(id);
}
static void wsi_close(struct lws* w, bool err) {   // full close sequence, on the calling thread
    if (w->connecting) { w->connecting = false; cb(w, LWS_CALLBACK_CLIENT_CONNECTION_ERROR, (void*)(err ? "connect failed" : "closed before established"), 14); }
    else if (w->open) { w->open = false; NetConn* c = net_conn(w->conn); if (c) c->open = false; cb(w, LWS_CALLBACK_CLIENT_CLOSED, nullptr, 0); }
    cb(w, LWS_CALLBACK_WSI_DESTROY, nullptr, 0);
    wsi_free(w);
}
static bool lws_fault() { if (!me) return false; Faults& f = me->f; f.lwss++; if (hit(f.lws_at, f.lws_run)) { f.fired++; f.fired_lws++; count("fault.lws_call"); return true; } return false; }
extern "C" {
struct lws_context* sim_lws_create_context(const struct lws_context_creation_info* info) {
    sim_point();
    if (lws_fault()) { slog("fault: lws_create_context fails"); return nullptr; }
    auto* c = new lws_context; c->magic = CM; c->protos = info->protocols; c->user = info->user; ctxs.insert(c);
    struct lws fake{}; fake.magic = WM; fake.ctx = c; fake.conn = -1; fake.proto = c->protos;
    if (c->protos && c->protos[0].callback) { wsis_live.insert(&fake); cb(&fake, LWS_CALLBACK_PROTOCOL_INIT, nullptr, 0); wsis_live.erase(&fake); }
    sim_point();
    return c;
}
void sim_lws_context_destroy(struct lws_context* c) {
    sim_point();
    if (!c) return;
    ctx_check(c, "lws_context_destroy");
    if (c->servicing >= 0) violate("crash:context-destroyed-in-service", "lws_context_destroy while T%d is inside lws_service on it", c->servicing);
    while (!c->wsis.empty()) wsi_close(c->wsis.back(), false);
    struct lws fake{}; fake.magic = WM; fake.ctx = c; fake.conn = -1; fake.proto = c->protos;
    if (c->protos && c->protos[0].callback) { wsis_live.insert(&fake); cb(&fake, LWS_CALLBACK_PROTOCOL_DESTROY, nullptr, 0); wsis_live.erase(&fake); }
    ctxs.erase(c); memset((void*)&c->magic, 0xdd, 4); delete c;
}
struct lws* sim_lws_client_connect_via_info(const struct lws_client_connect_info* i) {
    sim_point();
    ctx_check(i->context, "lws_client_connect_via_info");
    if (g_net.fail_connect && g_net.fail_connect()) { slog("fault: connect fails silently"); count("fault.connect_silent"); if (i->pwsi) *i->pwsi = nullptr; return nullptr; }
    struct lws_context* c = i->context;
    auto* w = new struct lws{}; w->magic = WM; w->ctx = c; w->opaque = i->opaque_user_data; w->proto = c->protos; w->connecting = true; w->open = false;
    if (i->protocol || i->local_protocol_name) { const char* pn = i->local_protocol_name ? i->local_protocol_name : i->protocol; for (const struct lws_protocols* p = c->protos; p && p->name; p++) if (!strcmp(p->name, pn)) w->proto = p; }
    w->user = i->userdata ? nullptr : (w->proto->per_session_data_size ? calloc(1, w->proto->per_session_data_size) : nullptr);
    auto* n = new NetConn; n->id = (int)conns.size(); n->address = i->address ? i->address : ""; n->path = i->path ? i->path : ""; n->host = i->host ? i->host : ""; n->origin = i->origin ? i->origin : ""; n->protocol = i->protocol ? i->protocol : ""; n->port = i->port; n->ssl = i->ssl_connection; n->wsi = w; conns.push_back(n);
    w->conn = n->id; c->wsis.push_back(w); wsis_live.insert(w);
    if (i->pwsi) *i->pwsi = w;
    slog("connect conn=%d %s:%d path=%s ssl=%d", n->id, n->address.c_str(), n->port, n->path.c_str(), n->ssl);
    if (lws_fault()) {
        slog("fault: connect fails synchronously");
        if (i->pwsi) *i->pwsi = nullptr;
        wsi_close(w, true);
        return nullptr;
    }
    if (g_net.on_connect) g_net.on_connect(n->id);
    sim_point();
    return w;
}
int sim_lws_service(struct lws_context* c, int timeout_ms) {
    sim_point();
    ctx_check(c, "lws_service");
    if (c->servicing >= 0 && c->servicing != me->id) violate("lws-concurrent-service", "two threads inside lws_service on one context");
    c->servicing = me->id;
    if (c->q.empty() && !c->cancelled && timeout_ms >= 0) {
        T* t = me;
        t->pred = [c] { return !c->q.empty() || c->cancelled; };
        c->parked = true;               // in poll(): the context may not be destroyed now either
        block("lws poll", now_us + 1000000);
        t->pred = nullptr; c->parked = false;
    }
    if (c->cancelled) {
        c->cancelled = false;
        struct lws fake{}; fake.magic = WM; fake.ctx = c; fake.conn = -1; fake.proto = c->protos;
        wsis_live.insert(&fake); cb(&fake, LWS_CALLBACK_EVENT_WAIT_CANCELLED, nullptr, 0); wsis_live.erase(&fake);
    } else if (!c->q.empty()) {
        Ev e = std::move(c->q.front()); c->q.pop_front();
        NetConn* n = net_conn(e.conn); struct lws* w = n ? n->wsi : nullptr;
        if (w && !n->dead) {
            switch (e.k) {
            case EV_EST: if (w->connecting) { w->connecting = false; w->open = true; n->open = true; if (g_net.on_open) g_net.on_open(e.conn); if (cb(w, LWS_CALLBACK_CLIENT_ESTABLISHED, nullptr, 0)) wsi_close(w, false); } break;
            case EV_ERR: if (w->connecting) wsi_close(w, true); break;
            case EV_CLOSE: if (w->open || w->connecting) { if (w->open) cb(w, LWS_CALLBACK_WS_PEER_INITIATED_CLOSE, nullptr, 0); wsi_close(w, false); } break;
            case EV_FRAG: if (w->open) {
                w->first = e.first; w->fin = e.fin; w->remaining = e.remaining;
                // exact-size heap block: reads past the fragment are caught
                char* b = (char*)malloc(e.data.size()); memcpy(b, e.data.data(), e.data.size());
                if (g_net.on_recv) g_net.on_recv(e.conn, true);
                int rc = cb(w, LWS_CALLBACK_CLIENT_RECEIVE, b, e.data.size());
                if (g_net.on_recv) g_net.on_recv(e.conn, false);
                free(b);
                if (rc) wsi_close(w, false);
            } break;
            case EV_WRITEABLE: w->want_write = false; if (w->open) { if (cb(w, LWS_CALLBACK_CLIENT_WRITEABLE, nullptr, 0)) wsi_close(w, false); } break;
            default: break;
            }
        }
    }
    if (ctxs.count(c)) c->servicing = -1;
    sim_point();
    return 0;
}
int sim_lws_service_tsi(struct lws_context* c, int t, int) { return sim_lws_service(c, t); }
void sim_lws_cancel_service(struct lws_context* c) { sim_point(); ctx_check(c, "lws_cancel_service"); c->cancelled = true; count("lws.cancel_service"); }
void sim_lws_cancel_service_pt(struct lws* w) { sim_lws_cancel_service(wsi_check(w, "lws_cancel_service_pt")->ctx); }
int sim_lws_callback_on_writable(struct lws* w) { wsi_check(w, "lws_callback_on_writable"); if (!w->want_write) { w->want_write = true; push_ev(w->conn, {EV_WRITEABLE, w->conn, "", false, false, 0}); } return 1; }
int sim_lws_write(struct lws* w, unsigned char* buf, size_t len, enum lws_write_protocol p) {
    hot_point();
    wsi_check(w, "lws_write");
    // the caller must own LWS_PRE bytes in front of the payload
    if (len && (__asan_region_is_poisoned(buf - LWS_PRE, LWS_PRE + len))) violate("crash:lws_write-buffer", "lws_write was given a buffer without LWS_PRE bytes of headroom or too short");
    memset(buf - LWS_PRE, 0xA5, LWS_PRE);
    bool on_service = w->ctx->servicing == me->id;
    count(on_service ? "lws.write.service_thread" : "lws.write.app_thread");
    if (lws_fault()) { slog("fault: lws_write fails"); return -1; }
    if (!w->open) { slog("lws_write on a connection that is not open"); return -1; }
    std::string d((char*)buf, len);
    slog("conn=%d write type=%d %zu bytes", w->conn, (int)p, len);
    if ((p & 0x1f) != LWS_WRITE_TEXT) d = "\1BADTYPE" + d;
    if (g_net.on_data) g_net.on_data(w->conn, d);
    hot_point();
    return (int)len;
}
void sim_lws_set_opaque_user_data(struct lws* w, void* d) { sim_point(); wsi_check(w, "lws_set_opaque_user_data")->opaque = d; }
void* sim_lws_get_opaque_user_data(const struct lws* w) { return wsi_check((struct lws*)w, "lws_get_opaque_user_data")->opaque; }
void sim_lws_close_reason(struct lws* w, enum lws_close_status, unsigned char*, size_t) { sim_point(); wsi_check(w, "lws_close_reason"); count("lws.close_reason"); }
int sim_lws_is_final_fragment(struct lws* w) { wsi_check(w, "lws_is_final_fragment"); return w->fin && w->remaining == 0; }
int sim_lws_is_first_fragment(struct lws* w) { wsi_check(w, "lws_is_first_fragment"); return w->first; }
size_t sim_lws_remaining_packet_payload(struct lws* w) { wsi_check(w, "lws_remaining_packet_payload"); return w->remaining; }
int sim_lws_frame_is_binary(struct lws* w) { wsi_check(w, "lws_frame_is_binary"); return 0; }
struct lws_context* sim_lws_get_context(const struct lws* w) { return wsi_check((struct lws*)w, "lws_get_context")->ctx; }
void* sim_lws_context_user(struct lws_context* c) { ctx_check(c, "lws_context_user"); return c->user; }
void* sim_lws_wsi_user(struct lws* w) { return wsi_check(w, "lws_wsi_user")->user; }
void sim_lws_set_wsi_user(struct lws* w, void* u) { wsi_check(w, "lws_set_wsi_user")->user = u; }
void sim_lws_set_timeout(struct lws* w, enum pending_timeout, int) { wsi_check(w, "lws_set_timeout"); }
void sim_lws_set_log_level(int, void (*)(int, const char*)) {}
int sim_lws_partial_buffered(struct lws* w) { wsi_check(w, "lws_partial_buffered"); return 0; }
int sim_lws_send_pipe_choked(struct lws* w) { wsi_check(w, "lws_send_pipe_choked"); return 0; }
const struct lws_protocols* sim_lws_get_protocol(struct lws* w) { return wsi_check(w, "lws_get_protocol")->proto; }
}

// ================================================================ instrumentation callbacks
extern "C" {
static uint32_t nguards = 1;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (; a < b; a++) *a = nguards < MAX_EDGES ? nguards++ : 0; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { uint32_t i = *g; if (i && g_run.edges) g_run.edges[i] = 1; sim_point(); }
#define LS(n, t) void __sanitizer_cov_load##n(t*) { sim_point(); } void __sanitizer_cov_store##n(t*) { sim_point(); }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, __uint128_t)
uint32_t sim_nguards() { return nguards; }
}
