#include "world.hpp"
namespace sim {
#define SCEN(n) void n##_gen(Plan&, Rng&); void n##_run(const Plan&);
SCEN(relay) SCEN(edge) SCEN(proxy) SCEN(tls) SCEN(srt) SCEN(robust) SCEN(conf) SCEN(udp) SCEN(rtp) SCEN(out)
const Scenario g_scenarios[] = {
    {"relay", relay_gen, relay_run}, {"edge", edge_gen, edge_run}, {"proxy", proxy_gen, proxy_run}, {"tls", tls_gen, tls_run}, {"srt", srt_gen, srt_run}, {"robust", robust_gen, robust_run}, {"conf", conf_gen, conf_run}, {"udp", udp_gen, udp_run}, {"rtp", rtp_gen, rtp_run}, {"out", out_gen, out_run},
    {nullptr, nullptr, nullptr}};
}
