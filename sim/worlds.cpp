#include "sim.h"
static std::vector<World>& reg() { static std::vector<World> w; return w; }
int register_world(const char* prop, const char* name, world_fn fn) { reg().push_back({prop, name, fn}); return 0; }
const std::vector<World>& worlds() { return reg(); }
