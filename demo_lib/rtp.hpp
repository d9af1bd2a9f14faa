// An RTP receiver of the library fed with datagrams from memory.
#include <sps_avformat_rtpdec.hpp>
#include <sps_avcodec_parser.hpp>
#include <sps_log.hpp>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
#include <unistd.h>
using namespace sps;
static void fail(const char* m) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); }
typedef std::string S;
struct Mem : IReader {
    std::deque<S> q;
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return -1; }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    error_t read(void* b, size_t n, size_t& nr) override { if (q.empty()) return ERROR_SOCKET_TIMEOUT; nr = std::min(n, q.front().size()); memcpy(b, q.front().data(), nr); q.pop_front(); return SUCCESS; }
};
static S be16(unsigned v) { return S(1, (char) (v >> 8)) + S(1, (char) v); }
static S be32(unsigned v) { return be16(v >> 16) + be16(v & 0xffff); }
static S rtp(unsigned seq, unsigned ts, const S& pay, int pt = 96, int cc = 0) { S s = S(1, (char) (0x80 | cc)) + S(1, (char) pt) + be16(seq) + be32(ts) + be32(7); for (int i = 0; i < cc; ++i) s += be32(1000 + i); return s + pay; }
static S nal(int type, size_t n) { S s(1, (char) (0x60 | type)); for (size_t i = 0; i < n; ++i) s += (char) (i * 7 + n); return s; }
static std::vector<S> fu(unsigned& seq, unsigned ts, const S& n, size_t piece) { std::vector<S> v; for (size_t o = 1; o < n.size(); o += piece) { bool e = o + piece >= n.size(); v.push_back(rtp(seq++, ts, S(1, (char) ((n[0] & 0xe0) | 28)) + S(1, (char) ((o == 1 ? 0x80 : 0) | (e ? 0x40 : 0) | (n[0] & 31))) + n.substr(o, piece))); } return v; }
struct Rx {
    std::shared_ptr<Mem> m = std::make_shared<Mem>(); RtpDemuxer d;
    Rx(int codec) : d(m) { if (codec && d.init_codec(codec) != SUCCESS && codec != AVCODEC_AAC) fail("init"); }
    std::vector<PAVPacket> operator()(const std::vector<S>& in) { m->q.insert(m->q.end(), in.begin(), in.end()); std::vector<PAVPacket> v; for (;;) { PAVPacket p; error_t e = d.read_packet(p); if (e == SUCCESS && p) v.push_back(p); else if (e == ERROR_SOCKET_TIMEOUT || m->q.empty()) return v; } }
};
static S pay(const PAVPacket& p) { return S((char*) p->buffer(), p->size()); }
static S avc(const S& n) { return be32(n.size()) + n; }
