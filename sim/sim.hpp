// Deterministic simulator core: virtual clock, seeded decisions, fibers,
// world events, the simulated server process (state-threads replacement) and
// the simulated TCP/UDP network.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>

namespace sim {

typedef uint64_t u64;
typedef int64_t  i64;

// ---------------------------------------------------------------- randomness
inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline u64 hash2(u64 a, u64 b) { return mix64(a * 0x9ddfea08eb382d69ULL ^ mix64(b)); }
inline u64 hash3(u64 a, u64 b, u64 c) { return hash2(hash2(a, b), c); }
u64 hash_str(const std::string& s);

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0x5bd1e995)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64) below((u64)(b - a + 1)); }
    bool chance(int pct) { return (int) below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------- results
struct Shm;                       // shared with the driver, see run.cpp
extern u64 g_seed;

void violation(const char* prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern const char* g_alias;        // violations of other properties count for this one too
void count(const char* name, u64 n = 1);          // fault / coverage counters
u64  faults_hit();                                 // injected so far
bool fault_on(const char* kind);                   // fault kind enabled in this plan?
u64  fault_par(const char* kind, u64 def);         // its parameter

// --------------------------------------------------------------------- trace
void trace(const char* kind, u64 a = 0, u64 b = 0, u64 c = 0);
void sched_point(u64 what);        // interleaving signature (no times)
extern bool g_verbose;
void vlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- time/events
u64  now();                        // virtual microseconds since simulation start
u64  idle_seq();                   // number of times the server went idle so far
void at(u64 t, std::function<void()> fn);     // world event
inline void after(u64 d, std::function<void()> fn) { at(now() + d, std::move(fn)); }
void on_idle(std::function<void()> fn);       // called at each server idle moment
struct IdleRec { u64 t; u64 seq; };

// -------------------------------------------------------------------- fibers
struct Fiber;
Fiber* current_fiber();
bool   in_server();
// actor fibers (test clients, upstream servers)
Fiber* spawn(const std::string& name, std::function<void()> fn);
void   sleep_us(u64 d);                 // actor only
struct WaitQ {                          // actor wait queue
    std::vector<Fiber*> q;
    void wake();
};
// returns false on timeout; timeout (u64)-1 = none
bool wait_on(WaitQ& w, u64 timeout);

// ---------------------------------------------------------------------- TCP
struct Tcp;
struct End {
    Tcp*  c = nullptr;
    int   side = 0;               // 0 initiator, 1 acceptor
    bool  server_side = false;    // owned by the server process
    bool  open = true;            // the application still holds it
    bool  connected = false;
    int   conn_err = 0;
    std::string rcvq; size_t roff = 0;
    std::string sendq; size_t soff = 0;
    bool  fin_queued = false, fin_sent = false;   // our FIN
    bool  fin_rcvd = false;
    bool  rst = false;                 // we received a reset
    size_t inflight = 0;               // bytes we have in flight to the peer
    size_t snd_cap = 65536, rcv_cap = 65536;
    u64   last_arrival = 0;            // FIFO of what we sent
    u64   stall_until = 0;             // nothing we send is delivered before that
    u64   total_sent = 0, total_delivered = 0, total_read = 0;
    // total_sent: bytes accepted from our app; total_delivered: bytes put in our rcvq
    u64   segno = 0, readno = 0;
    bool  write_blocked = false;       // the server is waiting for room to send
    u64   blocked_since = 0, read_since = 0, closed_at = 0;
    bool  read_blocked = false;        // the server is waiting for data
    u64   fin_rcvd_at = 0, rst_at = 0, last_write = 0;
    std::vector<std::pair<u64,u64>> deliveries;   // (time, cumulative delivered to us)
    WaitQ rq, wq;                      // actor waiters
    size_t readable() const { return rcvq.size() - roff; }
    size_t sendlen() const { return sendq.size() - soff; }
    End* peer();
    const End* peer() const;
};
struct Tcp : std::enable_shared_from_this<Tcp> {
    u64  id = 0;
    End  e[2];
    u64  lat = 1000, jit = 0;          // one way latency, jitter (us)
    int  segmode = 3;                  // segmentation profile
    int  readmode = 0;                 // short reads at the server
    sockaddr_in addr[2];               // addresses of side 0 and 1
    bool refused = false;
    std::string tag;
};
inline End* End::peer() { return &c->e[1 - side]; }
inline const End* End::peer() const { return &c->e[1 - side]; }

struct LinkProfile { u64 lat = 1000, jit = 0; int segmode = 3, readmode = 0;
                     size_t srv_snd = 65536, srv_rcv = 65536, cli_snd = 65536, cli_rcv = 65536; };
LinkProfile random_link(Rng& r, bool allow_tiny);

// actor-side API
// connect to server port; returns nullptr if refused
std::shared_ptr<Tcp> tcp_connect(int port, const LinkProfile& lp, u64 connid, u64 timeout = 30000000);
ssize_t tcp_read(End* e, void* buf, size_t n, u64 timeout);   // 0 EOF, -1 RST, -2 timeout
bool    tcp_write(End* e, const void* buf, size_t n, u64 timeout = (u64) -1);  // all or false
void    tcp_close(End* e);       // FIN or RST if unread data
void    tcp_shutdown(End* e);    // half close
void    tcp_reset(End* e);       // abortive close
void    tcp_stall(Tcp* c, u64 d, int dirs = 3);  // partition: no delivery for d
size_t  tcp_server_open();       // server side endpoints currently open

size_t  tcp_server_out(const std::string& ip, int port);   // the server's own connections (or attempts) to an address

// upstream listeners run by actors
struct Listener {
    std::string ip; int port;
    std::deque<std::shared_ptr<Tcp>> backlog;
    WaitQ wq;
    int  mode = 0;               // 0 accept 1 refuse 2 blackhole
    LinkProfile lp;
    bool server = false;         // owned by the server
    std::function<int()> on_connect;   // may choose mode per connection
    u64  nconn = 0;
};
std::shared_ptr<Listener> actor_listen(const std::string& ip, int port);
std::shared_ptr<Tcp> actor_accept(Listener* l, u64 timeout);
void dns_set(const std::string& name, const std::string& ip);   // empty ip: fails

// ---------------------------------------------------------------- UDP
struct Udp {
    int port = 0; u64 id = 0;
    bool server = false; bool open = true;
    std::deque<std::pair<sockaddr_in, std::string>> rcvq;
    size_t cap = 1 << 20;
    WaitQ rq;
    u64 sendno = 0;
    bool pktinfo = false;
    sockaddr_in conn{}; bool connected = false;
    sockaddr_in self{};
};
struct UdpProfile { int loss = 0, dup = 0, reorder = 0; u64 lat = 1000, jit = 0; };
extern UdpProfile g_udp;
std::shared_ptr<Udp> udp_actor(const std::string& ip, int port);
extern std::function<void(Udp*, const sockaddr_in&, const std::string&)> g_on_udp;      // a datagram reaches a socket
void udp_send(Udp* from, const sockaddr_in& to, const void* buf, size_t n);

// ---------------------------------------------------------------- server process
struct ServerStats {
    bool started = false, exited = false; int exit_code = 0; bool by_exit = false;
    u64 steps = 0;
    size_t threads = 0, threads_created = 0;
    size_t fds = 0;
    size_t conds = 0;
    size_t srt_socks = 0;
    i64 heap_bytes = 0, heap_blocks = 0;
};
extern ServerStats S;
void server_start(std::function<int()> entry);
void server_cpu(u64 d);          // server process burns d us (stall)
bool server_idle();
bool server_listening(int port, bool udp_or_srt = false);
u64  server_fd_count();
// run world until stop() or limits
void run_world(u64 max_time, u64 max_steps);
void stop_world(const char* why);
extern std::string g_stop_why;
std::string heap_top();   // description of live server heap blocks since mark
void heap_mark();
void heap_dump();

// marks simulator code called from server code (its allocations are not the server's)
void sim_enter(); void sim_leave();
struct SimScope { SimScope() { sim_enter(); } ~SimScope() { sim_leave(); } };
int  fd_bound_port(int fd);

// ---------------------------------------------------------------- SRT (sim_srt.cpp)
// Simulated libsrt: a reliable, ordered, message based connection; loss shows as delay.
struct SrtProfile { u64 lat = 1000, jit = 0; int loss = 0; size_t cap = 64; };
struct SrtSide {
    std::deque<std::string> rcvq, sendq;      // received messages; not yet sent
    size_t inflight = 0;
    bool broken = false, open = true;
    u64 broken_at = 0, last_arrival = 0, sendno = 0, total_recv = 0, total_sent = 0;
    u64 delivered = 0;                       // messages put in rcvq
    u64 closed_at = 0, last_recv_at = 0, last_send_at = 0, blocked_since = 0, accepted_at = 0;
    bool blocked = false;                    // the last send was refused for want of space
    u64 last_deliv = 0;                      // when the last message came
    WaitQ rq, wq;
};
struct SrtConn : std::enable_shared_from_this<SrtConn> {
    u64 id = 0; std::string streamid; SrtProfile pf;
    SrtSide s[2];                            // 0 actor, 1 server
    bool accepted = false, connected = false, refused = false;
    u64 stall_until[2] = {0, 0};             // by sender
    int sock = -1;
    sockaddr_in peer;
    bool out = false; int from_port = 0;     // opened by the server process; from that port, if it asked for one
};
struct SrtListener {                         // run by an actor
    std::string ip; int port; std::deque<std::shared_ptr<SrtConn>> backlog; WaitQ wq;
    int mode = 0;                            // 0 accept 1 reject 2 no answer
    SrtProfile pf; u64 nconn = 0;
};
std::shared_ptr<SrtListener> srt_actor_listen(const std::string& ip, int port);
std::shared_ptr<SrtConn> srt_actor_accept(SrtListener* l, u64 timeout);
std::shared_ptr<SrtConn> srt_actor_connect(int port, const std::string& streamid, const SrtProfile& pf, u64 id, std::function<void(std::shared_ptr<SrtConn>)> early = nullptr);
bool srt_actor_send(SrtConn* c, const void* b, size_t n, u64 timeout = (u64) -1);
int  srt_actor_recv(SrtConn* c, std::string& out, u64 timeout);   // 1 msg, 0 broken, -2 timeout
void srt_actor_close(SrtConn* c);       // orderly shutdown
void srt_actor_vanish(SrtConn* c);      // host dies: the peer notices after 5 s
size_t srt_open_server_socks();
bool srt_listening(int port);

}  // namespace sim
