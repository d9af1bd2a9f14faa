// A plan is one simulated execution: the seed, the knobs, the enabled faults and
// the operations of every actor. It is plain text and is what a replay file holds.
#pragma once
#include "sim.hpp"
namespace sim {
struct Op {
    int id = 0; u64 t = 0; std::string kind; std::map<std::string, std::string> a;
    i64 i(const char* k, i64 d = 0) const;
    std::string s(const char* k, const char* d = "") const;
    bool has(const char* k) const { return a.count(k) > 0; }
    Op& set(const char* k, const std::string& v) { a[k] = v; return *this; }
    Op& set(const char* k, i64 v) { a[k] = std::to_string(v); return *this; }
};
struct Plan {
    std::string scen, prop; u64 seed = 0;
    std::map<std::string, std::string> k;
    std::map<std::string, u64> faults;
    std::vector<Op> ops;
    i64 ki(const char* n, i64 d = 0) const;
    std::string ks(const char* n, const char* d = "") const;
    Op& op(const std::string& kind, u64 t) { Op o; o.id = (int) ops.size() + 1; o.kind = kind; o.t = t; ops.push_back(o); return ops.back(); }
    std::string text() const;
    bool parse(const char* p, size_t n);
};
extern Plan g_plan;
struct Scenario {
    const char* name;
    void (*gen)(Plan&, Rng&);
    void (*run)(const Plan&);
};
extern const Scenario g_scenarios[];
}
