// A generator of MPEG transport streams together with what the server must make of them.
#pragma once
#include "world.hpp"
namespace sim {
struct TsStream {
    std::string bytes;
    std::vector<Pub::Raw> raw;          // packets relayed as they are; wend = byte position after the packet
    std::vector<Tag> tags;              // FLV tags in order; wend = byte position after the packet that completes them
};
struct TsOpt { size_t units = 40; size_t max_au = 4000; int video = 1, audio = 1; bool h265 = false; };
TsStream make_ts(Rng& r, const TsOpt& o);
// actors shared between scenarios
void pub_ts(const Op& op, PPub p, bool srt);
void play_raw(const Op& op, PPlay p);
std::string srt_sid(const Op& o, const char* mode);
std::string client_hello(const Op& op);
void tls_get(const Op& op);
void pattern_origin(std::shared_ptr<Listener> l);
}
