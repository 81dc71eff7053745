#pragma once
#include "util.h"
// ---------------------------------------------------------------- scripted relay server
struct ServerCfg { int refuse = 0, silent = 0, close_live = 0, max_delay_ms = 200; uint64_t conn_life_us = 0; };   // percentages
struct Server {
    ServerCfg cfg; bool faults_on = true;
    std::function<void(int)> connected;                       // handshake done (server side)
    std::function<void(int, const std::string&)> data;
    int attempts = 0, opened = 0, lost = 0, refused = 0;
    std::map<int, int> tag;                                   // user tag per connection
    void install() {
        g_net.on_connect = [this](int id) {
            attempts++;
            Src s = src("net.conn", id);
            if (faults_on && s.chance(cfg.refuse, 100)) { count("fault.conn_refused"); sim_after(1000 * s(cfg.max_delay_ms + 1), [id] { net_refuse(id); }); refused++; return; }
            if (faults_on && s.chance(cfg.silent, 100)) { count("fault.conn_silent"); sim_after(20000000ull, [id] { net_refuse(id); }); return; }   // lws gives up after its own timeout
            sim_after(1000 * s(cfg.max_delay_ms + 1), [this, id, s] {
                net_establish(id);
                if (faults_on && s.chance(cfg.close_live, 100)) { static const std::vector<uint64_t> lives = {0, 100, 20000, 500000, 3000000, 8000000, 60000000}; uint64_t life = s.of(lives) + s(1000); sim_after(life, [this, id] { if (faults_on && net_conn(id) && !net_conn(id)->dead) { count("fault.peer_close"); net_peer_close(id); } }); }
            });
        };
        g_net.on_open = [this](int id) { opened++; if (connected) connected(id); };
        g_net.on_closed = [this](int id) { lost++; slog("network: connection %d gone", id); };
        g_net.on_data = [this](int id, const std::string& d) { if (data) data(id, d); };
    }
    // deliver one text message, cut into websocket fragments and lws chunks
    void send(int id, const std::string& m, const Src& s, int style) {
        NetConn* c = net_conn(id); if (!c || c->dead) return;
        if (style == 0 || m.size() < 2) { net_fragment(id, m, true, true, 0); return; }
        std::vector<size_t> cuts = {0};
        int n = style == 1 ? 1 + (int)s(3) : 1 + (int)s(12);
        for (int i = 0; i < n; i++) cuts.push_back(s((uint32_t)m.size()));
        if (m.size() > 1100 && s(2)) { size_t c = s((uint32_t)(m.size() - 1026)); cuts.push_back(c); cuts.push_back(c + 1023 + s(3)); }   // around the library's growth step
        cuts.push_back(m.size()); std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        std::vector<std::string> parts; for (size_t i = 0; i + 1 < cuts.size(); i++) parts.push_back(m.substr(cuts[i], cuts[i + 1] - cuts[i]));
        // group the parts into websocket frames
        size_t i = 0; bool first = true;
        while (i < parts.size()) { size_t g = i + 1 + s(3); if (g > parts.size()) g = parts.size(); size_t rem = 0; for (size_t k = i; k < g; k++) rem += parts[k].size(); for (size_t k = i; k < g; k++) { rem -= parts[k].size(); net_fragment(id, parts[k], first, g == parts.size(), rem); first = false; count("net.fragments"); } i = g; }
    }
};
static inline std::string random_filter(const Src& s) {
    switch (s(5)) { case 0: return "{\"kinds\":[1]}"; case 1: return "{}"; case 2: return "{\"kinds\":[1,7],\"limit\":" + std::to_string(s(500)) + "}"; case 3: return "{\"authors\":[\"" + hex(key_no(1).pk.data(), 32) + "\"],\"since\":" + std::to_string(1600000000 + s(1000)) + "}"; default: return "{\"#t\":[\"" + gen_name(s) + "\"]}"; }
}
static inline RefEvent small_event(const Src& s, uint64_t uniq) { RefEvent e; e.created_at = 1700000000 + (int)s(1000); e.kind = (int)s.of(std::vector<int>{1, 0, 7, 30023, 65535}); e.tags = gen_tags(s, 2); e.content = gen_text(s, 6) + "#" + std::to_string(uniq); e.seal_fake(key_no((int)s(3))); return e; }
static inline bool settle_net(uint64_t us) { return sim_wait([] { return net_service_idle(); }, us); }

