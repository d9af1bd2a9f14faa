// Simulated libsrt (C API subset the server uses).
#include "sim.hpp"
#include "shm.hpp"
#include <srt/srt.h>
#include <srt/udt.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
struct SSock {
    int id = 0; int state = SRTS_INIT;
    bool listening = false; int port = 0; int udpfd = -1;
    std::deque<std::shared_ptr<SrtConn>> backlog;
    std::shared_ptr<SrtConn> c;
    int from_port = 0;
};
static std::map<int, std::shared_ptr<SSock>> g_ss;
static std::map<std::pair<std::string, int>, std::shared_ptr<SrtListener>> g_sups;
static u64 g_sout = 0;
static std::map<int, int> g_lport;                   // port -> listening socket
static std::map<int, std::map<int,int>> g_ep;        // eid -> (sock -> events)
static int g_next_sock = 500000000, g_next_eid = 1, g_err = 0;
static u64 g_no = 0;

bool srt_listening(int port);
size_t srt_open_server_socks() { return g_ss.size(); }
static SSock* ss(int fd) { auto it = g_ss.find(fd); return it == g_ss.end() ? nullptr : it->second.get(); }

extern u64 g_faults_hit;
static bool fhit(const char* kind, u64 n) {
    if (!fault_on(kind) || now() < fault_par("from", 0) || now() >= fault_par("until", (u64) -1)) return false;
    if (hash3(g_seed, hash_str(kind), n) % 100 >= fault_par(kind, 10)) return false;
    count((std::string("fault.") + kind).c_str()); g_faults_hit++; return true;
}
static void pump(SrtConn* c, int side);
static void arrive(std::shared_ptr<SrtConn> c, int side, std::shared_ptr<std::string> m) {
    SrtSide& to = c->s[1 - side]; SrtSide& from = c->s[side];
    if (from.inflight) from.inflight--;
    if (!to.open || to.broken) return;
    to.rcvq.push_back(*m); to.delivered++; to.last_deliv = now();
    trace("srt-msg", c->id * 2 + side, m->size());
    sched_point(hash3(c->id, side, 99));
    to.rq.wake();
}
static u64 arrival(SrtConn* c, int side) {
    SrtSide& f = c->s[side];
    u64 h = hash3(hash2(g_seed, c->id * 2 + side), 0x5271, f.sendno++);
    u64 t = now() + c->pf.lat + (c->pf.jit ? h % c->pf.jit : 0);
    if ((int) ((h >> 32) % 100) < c->pf.loss) { t += 3 * c->pf.lat + 20000; count("fault.srt_loss"); }   // NAK + retransmission
    if (t < c->stall_until[side]) t = c->stall_until[side] + c->pf.lat;
    if (t < f.last_arrival) t = f.last_arrival;
    f.last_arrival = t;
    return t;
}
static void pump(SrtConn* c, int side) {
    SrtSide& f = c->s[side]; SrtSide& to = c->s[1 - side];
    if (f.broken) return;
    while (!f.sendq.empty() && f.inflight + to.rcvq.size() < c->pf.cap) {
        auto m = std::make_shared<std::string>(std::move(f.sendq.front())); f.sendq.pop_front();
        f.inflight++;
        auto sp = c->shared_from_this();
        at(arrival(c, side), [sp, side, m] { arrive(sp, side, m); });
    }
    f.wq.wake();
}
static void brk(SrtConn* c, int side) {        // that side learns that the connection is gone
    SrtSide& s = c->s[side];
    if (s.broken) return;
    s.broken = true; s.broken_at = now(); s.sendq.clear();
    trace("srt-broken", c->id, side);
    s.rq.wake(); s.wq.wake();
}
static void shut(SrtConn* c, int side) {       // orderly close by side
    SrtSide& s = c->s[side];
    if (!s.open) return;
    s.open = false; s.closed_at = now();
    trace("srt-close", c->id, side);
    if (s.broken) return;
    auto sp = c->shared_from_this();
    // linger: what is queued goes out first
    std::function<void()> fin;
    for (auto& m : s.sendq) { auto mm = std::make_shared<std::string>(m); s.inflight++; at(arrival(c, side), [sp, side, mm] { arrive(sp, side, mm); }); }
    s.sendq.clear();
    at(arrival(c, side), [sp, side] { brk(sp.get(), 1 - side); });
    s.broken = true;
}

std::shared_ptr<SrtConn> srt_actor_connect(int port, const std::string& streamid, const SrtProfile& pf, u64 id, std::function<void(std::shared_ptr<SrtConn>)> early) {
    auto c = std::make_shared<SrtConn>(); c->id = id; c->pf = pf; c->streamid = streamid;
    if (early) early(c);
    memset(&c->peer, 0, sizeof c->peer); c->peer.sin_family = AF_INET;
    c->peer.sin_addr.s_addr = htonl(0x0a000000 | (id & 0xffffff)); c->peer.sin_port = htons(20000 + id % 40000);
    trace("srt-connect", id, port);
    after(2 * pf.lat, [c, port] {
        auto it = g_lport.find(port);
        if (it == g_lport.end() || S.exited) return;
        g_ss[it->second]->backlog.push_back(c);
        after(c->pf.lat, [c] { c->connected = true; c->s[0].rq.wake(); });
    });
    while (!c->connected) if (!wait_on(c->s[0].rq, 3000000 + 4 * pf.lat)) break;
    if (!c->connected) { c->refused = true; return nullptr; }
    return c;
}
bool srt_actor_send(SrtConn* c, const void* b, size_t n, u64 timeout) {
    SrtSide& s = c->s[0];
    while (!s.broken && s.sendq.size() >= c->pf.cap) if (!wait_on(s.wq, timeout)) return false;
    if (s.broken) return false;
    s.sendq.push_back(std::string((const char*) b, n)); s.total_sent++;
    pump(c, 0);
    return !s.broken;
}
int srt_actor_recv(SrtConn* c, std::string& out, u64 timeout) {
    SrtSide& s = c->s[0];
    for (;;) {
        if (!s.rcvq.empty()) {
            out = std::move(s.rcvq.front()); s.rcvq.pop_front(); s.total_recv++;
            auto sp = c->shared_from_this();
            if (!c->s[1].sendq.empty()) after(c->pf.lat, [sp] { pump(sp.get(), 1); });
            return 1;
        }
        if (s.broken) return 0;
        if (!wait_on(s.rq, timeout) && s.rcvq.empty() && !s.broken) return -2;
    }
}
void srt_actor_close(SrtConn* c) { shut(c, 0); }
void srt_actor_vanish(SrtConn* c) {
    SrtSide& s = c->s[0]; if (!s.open) return;
    count("fault.srt_vanish");
    s.open = false; s.broken = true; s.sendq.clear();
    auto sp = c->shared_from_this();
    after(5000000, [sp] { brk(sp.get(), 1); });
}
std::shared_ptr<SrtListener> srt_actor_listen(const std::string& ip, int port) { auto l = std::make_shared<SrtListener>(); l->ip = ip; l->port = port; g_sups[{ip, port}] = l; return l; }
std::shared_ptr<SrtConn> srt_actor_accept(SrtListener* l, u64 timeout) {
    while (l->backlog.empty()) if (!wait_on(l->wq, timeout) && l->backlog.empty()) return nullptr;
    auto c = l->backlog.front(); l->backlog.pop_front(); return c;
}
// connecting does not block: the outcome shows in the state of the socket and in the poll set
static int start_connect(int u, const sockaddr* a) {
    auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    if (k->c || k->state == SRTS_CONNECTING) { g_err = SRT_ECONNSOCK; return SRT_ERROR; }
    const sockaddr_in* sa = (const sockaddr_in*) a; char ip[32]; inet_ntop(AF_INET, &sa->sin_addr, ip, sizeof ip); int port = ntohs(sa->sin_port);
    u64 no = g_sout++;
    trace("srt-out", no, port); count("srt.out_connect");
    if (fhit("srt_connect", no)) { g_err = SRT_ENOSERVER; return SRT_ERROR; }
    std::shared_ptr<SrtListener> l; auto it = g_sups.find({ip, port}); if (it != g_sups.end()) l = it->second;
    k->state = SRTS_CONNECTING;
    std::weak_ptr<SSock> w = g_ss[u];
    auto fail = [w] { auto k = w.lock(); if (k && !k->c) { k->state = SRTS_BROKEN; trace("srt-refused", k->id); } };
    if (l) l->nconn++;
    if (!l || l->mode == 2) { count("fault.srt_blackhole"); after(3000000, fail); return 0; }
    if (l->mode == 1) { count("fault.srt_reject"); after(4 * l->pf.lat + 500, fail); return 0; }
    auto c = std::make_shared<SrtConn>(); c->id = 0x100000 + no; c->pf = l->pf; c->peer = *sa; c->out = true; c->from_port = k->from_port;
    after(3 * c->pf.lat + 500, [w, l, c] {
        if (w.expired()) return;                                   // given up: the handshake never completes
        c->connected = c->accepted = true; l->backlog.push_back(c); l->wq.wake(); trace("srt-in", c->id);
        after(c->pf.lat, [w, c] {
            auto k = w.lock();
            if (!k) { shut(c.get(), 1); return; }
            k->c = c; k->state = SRTS_CONNECTED; c->sock = k->id; c->s[1].accepted_at = c->s[1].last_recv_at = c->s[1].last_send_at = now(); trace("srt-connected", c->id);
        });
    });
    return 0;
}
static int evstate(SSock* k) {
    int e = 0;
    if (!k->c && k->state == SRTS_BROKEN) return SRT_EPOLL_ERR;
    if (k->listening) { if (!k->backlog.empty()) e |= SRT_EPOLL_IN; return e; }
    if (!k->c) return 0;
    SrtSide& s = k->c->s[1];
    if (s.broken) return SRT_EPOLL_IN | SRT_EPOLL_OUT | SRT_EPOLL_ERR;
    if (!s.rcvq.empty()) e |= SRT_EPOLL_IN;
    if (s.sendq.size() < k->c->pf.cap) e |= SRT_EPOLL_OUT;
    return e;
}
bool srt_listening(int port) { return g_lport.count(port); }
}  // namespace sim
using namespace sim;

extern "C" {
SRTSOCKET srt_create_socket(void) {
    SimScope g;
    if (fhit("srt_create", g_no++)) { g_err = SRT_ESOCKFAIL; return SRT_INVALID_SOCK; }
    auto k = std::make_shared<SSock>(); k->id = g_next_sock--; g_ss[k->id] = k; return k->id;
}
int srt_setsockflag(SRTSOCKET, SRT_SOCKOPT, const void*, int) { return 0; }
int srt_setsockopt(SRTSOCKET, int, SRT_SOCKOPT, const void*, int) { return 0; }
int srt_bind(SRTSOCKET u, const struct sockaddr* name, int namelen) {
    SimScope g; auto k = ss(u);
    if (!k || namelen < (int) sizeof(sockaddr_in)) { g_err = SRT_EINVPARAM; return SRT_ERROR; }
    if (fhit("srt_bind", g_no++)) { g_err = SRT_ESOCKFAIL; return SRT_ERROR; }
    k->port = ntohs(((const sockaddr_in*) name)->sin_port);
    if (g_lport.count(k->port)) { g_err = SRT_EBINDCONFLICT; return SRT_ERROR; }
    return 0;
}
int srt_bind_acquire(SRTSOCKET u, UDPSOCKET s) {
    SimScope g; auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    if (fhit("srt_bind", g_no++)) { g_err = SRT_ESOCKFAIL; return SRT_ERROR; }
    k->udpfd = s; k->port = fd_bound_port(s); k->state = SRTS_OPENED; return 0;
}
int srt_listen(SRTSOCKET u, int) {
    SimScope g; auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    if (!k->port) { g_err = SRT_EUNBOUNDSOCK; return SRT_ERROR; }
    if (fhit("srt_listen", g_no++)) { g_err = SRT_ESOCKFAIL; return SRT_ERROR; }
    k->listening = true; k->state = SRTS_LISTENING; g_lport[k->port] = u; trace("srt-listen", k->port); return 0;
}
SRTSOCKET srt_accept(SRTSOCKET u, struct sockaddr* addr, int* len) {
    SimScope g; auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_INVALID_SOCK; }
    if (!k->listening) { g_err = SRT_ENOLISTEN; return SRT_INVALID_SOCK; }
    if (k->backlog.empty()) { g_err = SRT_EASYNCRCV; return SRT_INVALID_SOCK; }
    if (fhit("srt_accept", g_no++)) {
        auto c = k->backlog.front(); k->backlog.pop_front(); c->s[1].open = true; 
        shut(c.get(), 1);
        g_err = SRT_ESOCKFAIL; return SRT_INVALID_SOCK;
    }
    auto c = k->backlog.front(); k->backlog.pop_front();
    auto n = std::make_shared<SSock>(); n->id = g_next_sock--; n->c = c; n->state = SRTS_CONNECTED; g_ss[n->id] = n;
    c->accepted = true; c->sock = n->id; c->s[1].accepted_at = c->s[1].last_recv_at = c->s[1].last_send_at = now();
    if (addr && len) { memcpy(addr, &c->peer, std::min<size_t>(*len, sizeof c->peer)); *len = sizeof c->peer; }
    trace("srt-accept", c->id, n->id); count("srt.accept");
    return n->id;
}
int srt_connect(SRTSOCKET u, const struct sockaddr* a, int) { SimScope g; return start_connect(u, a); }
SRTSOCKET srt_connect_bind(SRTSOCKET u, const struct sockaddr* self, const struct sockaddr* a, int) {
    SimScope g; auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    k->from_port = ntohs(((const sockaddr_in*) self)->sin_port);
    return start_connect(u, a);
}
int srt_recv(SRTSOCKET u, char* buf, int len) {
    SimScope g; auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    if (!k->c) { g_err = SRT_ENOCONN; return SRT_ERROR; }
    SrtSide& s = k->c->s[1];
    if (len < SRT_LIVE_DEF_PLSIZE) { g_err = SRT_EINVALMSGAPI; return SRT_ERROR; }
    if (s.rcvq.empty()) { g_err = s.broken ? SRT_ECONNLOST : SRT_EASYNCRCV; return SRT_ERROR; }
    std::string m = std::move(s.rcvq.front()); s.rcvq.pop_front();
    int n = std::min<int>(len, m.size()); memcpy(buf, m.data(), n);
    s.total_recv++; s.last_recv_at = now();
    auto sp = k->c;
    if (!sp->s[0].sendq.empty()) after(sp->pf.lat, [sp] { pump(sp.get(), 0); });
    trace("srt-recv", sp->id, n);
    return n;
}
int srt_sendmsg(SRTSOCKET u, const char* buf, int len, int, int) {
    SimScope g; auto k = ss(u); if (!k) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    if (!k->c) { g_err = SRT_ENOCONN; return SRT_ERROR; }
    SrtSide& s = k->c->s[1];
    if (s.broken) { g_err = SRT_ECONNLOST; return SRT_ERROR; }
    if (len > SRT_LIVE_DEF_PLSIZE) { g_err = SRT_ELARGEMSG; return SRT_ERROR; }
    if (s.sendq.size() >= k->c->pf.cap) { g_err = SRT_EASYNCSND; count("srt.write_block"); if (!s.blocked) { s.blocked = true; s.blocked_since = now(); } return SRT_ERROR; }
    s.blocked = false; s.last_send_at = now();
    s.sendq.push_back(std::string(buf, len)); s.total_sent++;
    trace("srt-send", k->c->id, len);
    pump(k->c.get(), 1);
    return len;
}
int srt_close(SRTSOCKET u) {
    SimScope g; auto it = g_ss.find(u); if (it == g_ss.end()) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    auto k = it->second;
    for (auto& e : g_ep) e.second.erase(u);
    g_ss.erase(it);
    trace("srt-closesock", u);
    if (k->listening) { g_lport.erase(k->port); }
    if (k->udpfd >= 10000) ::close(k->udpfd);
    if (k->c) shut(k->c.get(), 1);
    return 0;
}
int srt_getlasterror(int* e) { if (e) *e = 0; return g_err; }
const char* srt_getlasterror_str(void) { static char b[64]; snprintf(b, sizeof b, "srt error %d", g_err); return b; }
SRT_SOCKSTATUS srt_getsockstate(SRTSOCKET u) {
    SimScope g; auto k = ss(u); if (!k) return SRTS_NONEXIST;
    if (k->c && k->c->s[1].broken) return SRTS_BROKEN;
    return (SRT_SOCKSTATUS) k->state;
}
int srt_bstats(SRTSOCKET, SRT_TRACEBSTATS* p, int) { if (p) memset(p, 0, sizeof *p); return 0; }
int srt_epoll_release(int e) { SimScope g; g_ep.erase(e); return 0; }
int srt_epoll_create(void) { SimScope g; if (fhit("srt_epoll_create", g_no++)) { g_err = SRT_ENOBUF; return -1; } int e = g_next_eid++; g_ep[e]; return e; }
int32_t srt_epoll_set(int, int32_t) { return 0; }
}
namespace srt { std::string getstreamid(SRTSOCKET u) { std::string r; { SimScope g; auto k = ss(u); if (k && k->c) r = ""; }
    auto k = ss(u); if (k && k->c) return std::string(k->c->streamid.data(), k->c->streamid.size()); return std::string(); } }
namespace UDT {
int epoll_add_usock(int eid, SRTSOCKET u, const int* ev) {
    SimScope g; if (!ss(u) || fhit("srt_epoll", g_no++)) { g_err = SRT_EINVSOCK; return SRT_ERROR; }
    int e = ev ? *ev : (SRT_EPOLL_IN | SRT_EPOLL_OUT | SRT_EPOLL_ERR);
    if (e) g_ep[eid][u] = e; else g_ep[eid].erase(u);
    return 0;
}
int epoll_update_usock(int eid, SRTSOCKET u, const int* ev) { return UDT::epoll_add_usock(eid, u, ev); }
int epoll_remove_usock(int eid, SRTSOCKET u) { SimScope g; if (!g_ep[eid].erase(u)) { g_err = SRT_EINVSOCK; return SRT_ERROR; } return 0; }
int epoll_remove_ssock(int eid, SYSSOCKET u) { SimScope g; return 0; }
int epoll_uwait(const int eid, SRT_EPOLL_EVENT* out, int n, int64_t ms) {
    SimScope g; std::vector<std::pair<int,int>> r;
    for (auto& kv : g_ep[eid]) { auto k = ss(kv.first); if (!k) continue; int e = evstate(k) & kv.second; if (e) r.push_back({kv.first, e}); }
    if (r.size() > 1) {       // reporting order is not specified
        Rng q(hash3(g_seed, 0xe901, g_no++));
        for (size_t i = r.size() - 1; i > 0; --i) std::swap(r[i], r[q.below(i + 1)]);
    }
    int m = std::min<int>(n, r.size());
    if (!m && ms) { server_cpu((ms < 0 ? 1000 : (u64) ms) * 1000); count("srt.poll_blocks"); }     // the one thread of the process sleeps in libsrt
    for (int i = 0; i < m; ++i) { out[i].fd = r[i].first; out[i].events = r[i].second; }
    return m;
}
}
