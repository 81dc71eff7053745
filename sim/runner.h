#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#define MAX_EDGES 65536
enum { RUN_NONE = 0, RUN_OK = 1, RUN_VIOLATION = 2, RUN_KNOWN = 3, RUN_CRASH = 4 };
struct StreamRec { uint64_t rng = 0; std::vector<uint32_t> vals; size_t pos = 0; };
struct SchedRec { int tid; uint64_t at; int target; };
struct RunState {
    uint64_t seed = 0; bool replay = false; uint64_t hash = 0xcbf29ce484222325ULL, ilv = 0xcbf29ce484222325ULL; uint64_t nlog = 0, switches = 0;
    std::map<std::string, StreamRec> streams; std::vector<SchedRec> sched; std::map<std::string, uint64_t> counters; unsigned char* edges = nullptr;
};
extern RunState g_run;
void sim_begin_run(); void sim_end_run();
const std::string& sim_log();
uint64_t sim_total_points(); uint64_t sim_now_us();
bool is_known(const char* key);
bool sim_crypto_fault();
int sim_draw(unsigned char* b, size_t n);
void sim_rng_raw(unsigned char* b, size_t n);
extern "C" uint32_t sim_nguards();
