// Deterministic simulator core: seeded choices, scheduler, simulated clock,
// seams for allocation, threads, time, randomness, environment and network.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn from a named stream.  0 is always the
// simplest value, so emptying a stream simplifies the run.
uint32_t pick(const std::string& stream, uint32_t n);          // [0,n)
struct Src {
    std::string name;
    explicit Src(std::string n) : name(std::move(n)) {}
    uint32_t operator()(uint32_t n) const { return pick(name, n); }
    bool chance(uint32_t num, uint32_t den) const { return pick(name, den) >= den - num; }
    int range(int lo, int hi) const { return lo + (int)pick(name, (uint32_t)(hi - lo + 1)); }
    uint64_t u64() const { uint64_t a = pick(name, 0x10000), b = pick(name, 0x10000), c = pick(name, 0x10000), d = pick(name, 0x10000); return a | b << 16 | c << 32 | d << 48; }
    template <class T> const T& of(const std::vector<T>& v) const { return v[pick(name, (uint32_t)v.size())]; }
};
static inline Src src(const char* base, int i) { return Src(std::string(base) + "." + std::to_string(i)); }

// ---------------------------------------------------------------- reporting
void slog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violate(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const std::string& name, uint64_t n = 1);
void finding(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // violate() unless the key is a listed known finding, then go on
#define REQUIRE(c, key, ...) do { if (!(c)) violate(key, __VA_ARGS__); } while (0)
extern bool g_verbose;
extern std::string g_prop;
void mix_hash(const void* p, size_t n);

// ---------------------------------------------------------------- scheduler
int  sim_self();
int  sim_spawn(const std::string& name, std::function<void()> fn);
void sim_join_spawned();                   // run until all sim_spawn()ed threads are done
void sim_preempt_mode(int mode);           // 0 none,1 sparse,2 medium,3 dense
void sim_point();
void sim_yield();
uint64_t sim_now_us();
void sim_set_epoch(int64_t unix_seconds);
int64_t sim_wall();                        // wall clock as time() sees it
void sim_thread_skew(int64_t seconds);     // the calling thread's clock is off by this much
void sim_clock_jump(int64_t seconds);      // step the wall clock
void sim_after(uint64_t us, std::function<void()> fn);
void sim_sleep_us(uint64_t us);
bool sim_wait(std::function<bool()> pred, uint64_t timeout_us);  // harness wait on simulated state
void sim_wake_all();
size_t sim_pending_events();
int  sim_live_library_threads();           // created by the library, not finished or not joined
uint64_t sim_seq();                        // global event sequence number
extern bool g_in_harness_cb;

// ---------------------------------------------------------------- faults (per simulated thread)
struct Faults {
    int alloc_at = -1;     // fail the n-th allocation from now (0 = next)
    int alloc_run = 1;     // ... and this many consecutive ones (1<<30: all)
    int rng_at = -1;  int rng_run = 1;
    bool rng_dirty = false; // a failing draw leaves part of the buffer written
    int thread_at = -1; int thread_run = 1;
    int crypto_at = -1; int crypto_run = 1;
    int mutex_at = -1;
    int lws_at = -1;  int lws_run = 1;   // lws_create_context / connect / write
    // observed
    int allocs = 0, rngs = 0, threads = 0, cryptos = 0, lwss = 0;
    int fired = 0;
    int fired_alloc = 0, fired_rng = 0, fired_thread = 0, fired_crypto = 0, fired_lws = 0;
    uint64_t rng_bytes = 0;
};
Faults& faults();                 // of the calling thread
Faults faults_take();             // read and reset
void faults_all_new_threads(const Faults& f);
int faults_fired_in_library();                 // failures that hit threads the library created
void sim_set_thread_fault(int tid, const Faults& f);

// allocation accounting (library + cJSON allocations)
size_t live_allocs();
uint64_t alloc_mark();                       // sequence number
size_t live_since(uint64_t mark);            // allocations still live made after mark
size_t live_mine(uint64_t mark);                // ... and made by the calling thread
std::string describe_live(uint64_t mark, bool mine = false);
bool live_has(uint64_t mark, const char* bytes, size_t n);   // some allocation made after mark contains the bytes
int live_contexts();                         // secp256k1 contexts created by the library and not destroyed
bool is_live_alloc(const void* p);
bool addr_bad(const void* p);
void set_on_free(std::function<void(void*, size_t)> f);

// rng
std::vector<std::string>& rng_log();         // bytes handed out in draws of >= 16 bytes
std::vector<std::string> rng_mine(size_t from);   // of those since index `from`, the ones drawn by the calling thread
void rng_note(const std::string& bytes);
void rng_script(std::function<bool(unsigned char*, size_t)> f);   // optional override
extern bool g_fast_scrypt;                         // scrypt is the quick stand-in below
std::string fast_scrypt(const std::string& pw, const std::string& salt, uint64_t N, uint64_t r, uint64_t p, size_t len);
// environment
void env_set(const std::string& k, const std::string& v);
void env_unset(const std::string& k);
void sim_set_cpus(long n);

// ---------------------------------------------------------------- simulated websocket network
struct NetConn { int id; std::string address, path, host, origin, protocol; int port; int ssl; bool open = false, dead = false; struct lws* wsi = nullptr; };
struct Net {
    std::function<void(int)> on_connect;                       // client started connecting
    std::function<bool()> fail_connect;                        // the library call itself fails, without any callback
    std::function<void(int, const std::string&)> on_data;      // client wrote a text message
    std::function<void(int)> on_closed;                        // client side is gone
    std::function<void(int, bool)> on_recv;                    // a fragment is being handed to the client (true: begin)
    std::function<void(int)> on_open;                          // the handshake completed
};
extern Net g_net;
NetConn* net_conn(int id);
int  net_conn_count();
void net_establish(int id);
void net_refuse(int id);
void net_peer_close(int id);
void net_fragment(int id, const std::string& bytes, bool first, bool final_frag, size_t remaining);
int  net_live_contexts();
int  net_live_wsis();
size_t net_queue_len(int id);
bool net_service_idle();

// ---------------------------------------------------------------- run entry
typedef void (*world_fn)();
struct World { const char* prop; const char* name; world_fn fn; };
const std::vector<World>& worlds();

std::string hex(const void* p, size_t n);
std::string unhex(const std::string& h);
