// A UDP server of the library with real sockets on the loopback network; every peer is a plain socket.
#include <sps_sys_st_io_udp.hpp>
#include <sps_sys_co.hpp>
#include <sps_log.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include <st.h>
}
using namespace sps;
static void fail(const char* m) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); }
static int g_port;
struct Conv { std::string peer, self; std::vector<std::string> got; bool over = false; };
static std::vector<std::shared_ptr<Conv>> convs;
static std::map<void*, std::shared_ptr<ICoHandler>> keep;
static utime_t g_rto = -1; static bool g_echo = false; static std::function<int(Conv&)> g_each;       // returns ms to sleep, <0: end
struct Sess : ICoHandler {
    PSocket s; std::shared_ptr<Conv> c;
    error_t handler() override {
        std::vector<char> b(4096); s->set_recv_timeout(g_rto);
        for (;;) {
            size_t n = 0; if (s->read(b.data(), b.size(), n) != SUCCESS) break;
            c->got.push_back(std::string(b.data(), n));
            if (g_echo && s->write(b.data(), n) != SUCCESS) fail("write");
            int r = g_each ? g_each(*c) : 0; if (r < 0) break; if (r) st_usleep(r * 1000);
        }
        c->over = true; s.reset(); keep.erase(this); return SUCCESS;
    }
};
struct Acc : ICoHandler {
    std::shared_ptr<StUdpServerSocket> srv;
    error_t handler() override {
        for (;;) {
            auto s = srv->accept(); auto h = std::make_shared<Sess>(); h->s = s; h->c = std::make_shared<Conv>(); h->c->peer = s->get_peer_ip() + ":" + std::to_string(s->get_peer_port()); h->c->self = s->get_self_ip();
            convs.push_back(h->c); keep[h.get()] = h; ICoFactory::get_instance().start(h);
        }
    }
};
static void serve() {
    st_set_eventsys(ST_EVENTSYS_ALT); ICoFactory::get_instance().init();
    for (int i = 0; i < 50; ++i) {
        auto srv = std::make_shared<StUdpServerSocket>(); g_port = 20000 + (getpid() * 7 + i * 131) % 20000;
        if (srv->listen("", g_port, false, 10) != SUCCESS) continue;
        auto a = std::make_shared<Acc>(); a->srv = srv; keep[a.get()] = a; ICoFactory::get_instance().start(a); return;
    }
    fail("no port");
}
struct Peer {
    int fd; sockaddr_in a{};
    Peer(const char* ip, int port = 0) {
        fd = socket(AF_INET, SOCK_DGRAM, 0); a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, ip, &a.sin_addr);
        if (bind(fd, (sockaddr*) &a, sizeof a)) { perror("bind"); _exit(2); }
        socklen_t l = sizeof a; getsockname(fd, (sockaddr*) &a, &l); fcntl(fd, F_SETFL, O_NONBLOCK);
    }
    void send(const std::string& d) { sockaddr_in t{}; t.sin_family = AF_INET; t.sin_port = htons(g_port); inet_pton(AF_INET, "127.0.0.1", &t.sin_addr); sendto(fd, d.data(), d.size(), 0, (sockaddr*) &t, sizeof t); }
    std::vector<std::string> recv() { std::vector<std::string> v; char b[4096]; ssize_t n; while ((n = ::recv(fd, b, sizeof b, 0)) >= 0) v.push_back(std::string(b, n)); return v; }
    std::string name() { char b[32]; inet_ntop(AF_INET, &a.sin_addr, b, sizeof b); return std::string(b) + ":" + std::to_string(ntohs(a.sin_port)); }
};
static void ms(int n) { st_usleep(n * 1000); }
static std::vector<std::string> all(const std::string& peer) { std::vector<std::string> v; for (auto& c : convs) if (c->peer == peer) v.insert(v.end(), c->got.begin(), c->got.end()); return v; }
static int sessions(const std::string& peer) { int n = 0; for (auto& c : convs) n += c->peer == peer; return n; }
