// A program on the library's client side with real sockets on the loopback network; the peers are threads.
#include <sps_io_socket.hpp>
#include <sps_io_url_http.hpp>
#include <sps_log.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_io_srt.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include <dirent.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
extern "C" {
#include <st.h>
}
using namespace sps;
static void fail(const char* m) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); }
struct Co : ICoHandler { std::function<void()> f; error_t handler() override { f(); return SUCCESS; } };
static std::vector<std::shared_ptr<Co>> keep;
static void go(std::function<void()> f) { auto c = std::make_shared<Co>(); c->f = f; keep.push_back(c); ICoFactory::get_instance().start(c); }
static void ms(int n) { st_usleep(n * 1000); }
static void begin() { st_set_eventsys(ST_EVENTSYS_ALT); ICoFactory::get_instance().init(); }
// a TCP peer on a port of its own
static int tcp_peer(std::function<void(int)> f) {
    int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(l, (sockaddr*) &a, sizeof a); listen(l, 5); socklen_t n = sizeof a; getsockname(l, (sockaddr*) &a, &n);
    std::thread([l, f] { for (;;) { int c = accept(l, 0, 0); if (c < 0) return; f(c); close(c); } }).detach();
    return ntohs(a.sin_port);
}
// an SRT peer: blocking calls in a thread
static int srt_peer(std::function<void(SRTSOCKET)> f) {
    srt_startup();
    for (int i = 0; i < 50; ++i) {
        SRTSOCKET l = srt_create_socket(); int port = 20000 + (getpid() * 7 + i * 131) % 20000; SRT_TRANSTYPE t = SRTT_LIVE; srt_setsockflag(l, SRTO_TRANSTYPE, &t, sizeof t);
        bool no = false, yes = true; srt_setsockflag(l, SRTO_TSBPDMODE, &no, sizeof no); srt_setsockflag(l, SRTO_TLPKTDROP, &no, sizeof no); srt_setsockflag(l, SRTO_RCVSYN, &yes, sizeof yes);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
        if (srt_bind(l, (sockaddr*) &a, sizeof a) == SRT_ERROR || srt_listen(l, 5) == SRT_ERROR) { srt_close(l); continue; }
        std::thread([l, f] { for (;;) { SRTSOCKET c = srt_accept(l, 0, 0); if (c == SRT_INVALID_SOCK) return; f(c); srt_close(c); } }).detach();
        return port;
    }
    fail("no port"); return 0;
}
static PSocket dial(Transport t, const char* host, int port, utime_t tm = 5000000) { return SingleInstance<ClientSocketFactory>::get_instance().create_ss(t, host, port, tm); }
static char pat(size_t o) { return (char) ((o * 2654435761u) >> 13); }
static std::string pats(size_t o, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = pat(o + i); return s; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
