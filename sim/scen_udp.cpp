// Datagram sockets (C22): a UDP server gives every peer its own conversation; a UDP client talks to
// its peer only. The server process runs a small program (like the project's own UDP tools) on the
// library's sockets: an acceptor, one coroutine per session, and some clients of its own.
#include "world.hpp"
#include "shm.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cstdarg>
#include <sps_sys_st_io_udp.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_sync.hpp>
#include <sps_log.hpp>
extern "C" {
#include <public.h>
}
namespace sim {
static const char* IPS[] = {"10.0.0.1", "10.0.0.11", "10.0.0.2", "172.16.5.1", "127.0.0.1"};
static const int PORTS[] = {5000, 15000, 1, 11, 65535};
static u64 g_ev = 0;                     // order of everything below
struct UDel { u64 ev, t; std::string d; };
struct USess { std::string peer; int no; int port; std::vector<std::string> got; u64 born_ev = 0, end_ev = NEVER, end_idle = 0; bool reading = false; u64 read_ev = 0, read_t = 0; i64 rto = -1; };
struct UPeer { bool over = false; std::vector<UDel> del; std::vector<u64> idle; std::vector<std::shared_ptr<USess>> sess; std::vector<std::string> sent, rcvd; };
static std::map<std::pair<int, std::string>, UPeer> g_peers;           // server port, peer address
static std::map<std::string, std::shared_ptr<Udp>> g_acts;
static std::map<std::string, std::vector<std::string>> g_stray;        // what the actors received from elsewhere
static int g_nsess = 0;
static bool g_busy = false, g_lossy = false;
static std::string astr(const sockaddr_in& a) { char b[32]; inet_ntop(AF_INET, &a.sin_addr, b, sizeof b); return std::string(b) + ":" + std::to_string(ntohs(a.sin_port)); }

void udp_gen(Plan& p, Rng& r) {
    int ns = r.chance(25) ? 2 : 1;
    p.k["nsrv"] = std::to_string(ns);
    p.k["rto"] = std::to_string(r.pick(std::vector<i64>{-1, 200000, 1000000, 3000000})); p.k["lim"] = std::to_string(r.pick(std::vector<i64>{0, 0, 0, 1, 3, 20}));
    p.k["slow"] = std::to_string(r.pick(std::vector<i64>{0, 0, 0, 1000, 30000, 300000})); p.k["echo"] = std::to_string(r.pick(std::vector<i64>{0, 50, 100, 100}));
    p.k["lat"] = std::to_string(r.pick(std::vector<i64>{10, 1000, 20000})); p.k["jit"] = std::to_string(r.chance(50) ? 0 : r.range(1, 20000));
    if (r.chance(30)) { p.k["loss"] = std::to_string(r.range(1, 40)); }
    if (r.chance(30)) { p.k["dup"] = std::to_string(r.range(1, 40)); }
    if (r.chance(30)) { p.k["reorder"] = std::to_string(r.range(1, 60)); }
    if (r.chance(30)) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    if (r.chance(25)) p.faults["udp_recv_err"] = r.range(1, 40);
    if (r.chance(25)) p.faults["udp_send_err"] = r.range(1, 40);
    int np = (int) r.range(1, 8); u64 span = r.range(0, 8) * 1000000;
    for (int i = 0; i < np; ++i) {
        Op& o = p.op("peer", r.below(span + 1));
        o.set("ip", r.below(r.chance(50) ? 2 : 5)).set("port", r.below(r.chance(50) ? 2 : 5)).set("srv", r.below(ns));
        o.set("n", r.chance(8) ? r.range(100, 450) : r.range(1, 30)); o.set("max", r.pick(std::vector<i64>{8, 100, 1400, 4096})); o.set("pace", r.pick(std::vector<i64>{0, 0, 500, 20000, 250000, 1100000}));
    }
    int nc = (int) r.below(4);
    for (int i = 0; i < nc; ++i) {
        Op& o = p.op("cli", r.below(span + 1));
        o.set("ip", r.below(5)).set("port", r.below(5)).set("con", r.below(2)).set("bind", r.chance(40) ? r.range(7000, 7002) : 0).set("n", r.range(1, 15)).set("max", r.pick(std::vector<i64>{8, 1400, 9000})).set("rto", r.pick(std::vector<i64>{-1, 300000, 2000000})).set("reply", r.pick(std::vector<i64>{0, 50, 100, 100})).set("pace", r.pick(std::vector<i64>{0, 1000, 100000}));
    }
    if (r.chance(5)) {          // long conversations and floods, with others beside them
        Op& o = p.op("peer", r.below(span + 1)); bool flood = r.chance(40);
        o.set("ip", 1).set("port", 4).set("srv", 0).set("n", r.range(4050, 5200)).set("max", 8).set("pace", flood ? r.below(2) * 20 : r.range(400, 3000));
        if (flood) p.k["slow"] = std::to_string(r.pick(std::vector<i64>{30000, 300000, 3000000})); else { p.k["lim"] = "0"; p.k["slow"] = "0"; }
    } else
    if (r.chance(20)) p.k["churn"] = std::to_string(r.range(20, 60));
}
static std::string payload(Rng& r, int who, int k, size_t max) {
    char b[16]; snprintf(b, sizeof b, "%03x%05x", who & 0xfff, k & 0xfffff); std::string s = b; size_t n = r.chance(10) ? max : r.range(8, max); s.resize(std::max<size_t>(8, n));
    for (size_t i = 8; i < s.size(); ++i) s[i] = (char) (32 + (r.s = mix64(r.s + i)) % 90);
    return s;
}
// ------------------------------------------------------------ the program under test
static std::map<sps::ICoHandler*, std::shared_ptr<sps::ICoHandler>> g_keep;      // coroutines do not own their handlers
struct Session : sps::ICoHandler {
    sps::PSocket s; int port; std::shared_ptr<USess> u; i64 rto, lim, slow; int echo;
    error_t handler() override {
        static thread_local char dummy; (void) dummy;
        std::unique_ptr<char[]> buf(new char[4096]); i64 n = 0; s->set_recv_timeout(rto < 0 ? (utime_t) -1 : rto);
        for (;;) {
            size_t nr = 0; std::string answer;
            { SimScope g; u->reading = true; u->read_ev = ++g_ev; u->read_t = now(); }
            error_t ret = s->read(buf.get(), 4096, nr);
            {
                SimScope g; u->reading = false; auto& pr = g_peers[{port, u->peer}]; g_ev++;
                if (ret == SUCCESS) u->got.push_back(std::string(buf.get(), nr));
                else if (ret == ERROR_SOCKET_TIMEOUT) {
                    u64 d = now() - u->read_t;
                    if (rto < 0) violation("C22", "session %d of %s timed out after %.3f s without a receive timeout", u->no, u->peer.c_str(), d / 1e6);
                    else {
                        if (d + 1000 < (u64) rto) violation("C22", "session %d of %s timed out after %.3f s (receive timeout %.1f s)", u->no, u->peer.c_str(), d / 1e6, rto / 1e6);
                        if (d > (u64) rto + 300000 + (g_busy ? 5000000 : 0)) violation("C22", "session %d of %s timed out only after %.3f s (receive timeout %.1f s)", u->no, u->peer.c_str(), d / 1e6, rto / 1e6);
                        for (size_t i = 0; i < pr.del.size(); ++i) if (pr.del[i].ev > u->read_ev && pr.idle[i] < idle_seq()) { violation("C22", "session %d of %s timed out although a datagram had come %.3f s before", u->no, u->peer.c_str(), (now() - pr.del[i].t) / 1e6); break; }
                        count("session.timeout");
                    }
                } else violation("C22", "session %d of %s: read fails with %d", u->no, u->peer.c_str(), (int) ret);
            }
            if (ret != SUCCESS) break;
            if (lim && ++n >= lim) break;
            if (slow) st_usleep(slow);
            bool rep; { SimScope g; rep = (int) (hash3(g_seed, u->no, u->got.size()) % 100) < echo; }
            if (rep) {
                { SimScope g; answer = "R" + std::to_string(u->no) + "." + std::to_string(u->got.size()) + ":" + u->got.back().substr(0, 200); auto& pr = g_peers[{port, u->peer}]; pr.sent.push_back(answer); }
                error_t w = s->write((void*) answer.data(), answer.size());
                if (w != SUCCESS) { SimScope g; g_peers[{port, u->peer}].sent.pop_back(); if (!fault_on("udp_send_err")) violation("C22", "session %d of %s: write fails with %d", u->no, u->peer.c_str(), (int) w); }
                { SimScope g; std::string().swap(answer); }
            }
        }
        { SimScope g; u->end_ev = ++g_ev; u->end_idle = idle_seq(); }
        s.reset();
        g_keep.erase(this);
        return SUCCESS;
    }
};
struct Acceptor : sps::ICoHandler {
    std::shared_ptr<sps::StUdpServerSocket> srv; int port;
    error_t handler() override {
        for (;;) {
            auto c = srv->accept();
            auto h = std::make_shared<Session>();
            h->s = c; h->port = port;
            {
                SimScope g; auto u = std::make_shared<USess>(); u->no = g_nsess++; u->port = port; u->peer = c->get_peer_ip() + ":" + std::to_string(c->get_peer_port()); u->born_ev = ++g_ev;
                auto it = g_peers.find({port, u->peer});
                if (it == g_peers.end()) violation("C22", "a session with %s, which sent nothing to port %d", u->peer.c_str(), port);
                auto& pr = g_peers[{port, u->peer}];
                for (auto& o : pr.sess) if (o->end_ev == NEVER) violation("C22", "two sessions with %s at once", u->peer.c_str());
                pr.sess.push_back(u);
                if (c->get_self_ip() != "192.0.2.1") violation("C22", "session with %s: own address %s", u->peer.c_str(), c->get_self_ip().c_str());
                h->u = u; h->rto = g_plan.ki("rto", -1); h->lim = g_plan.ki("lim"); h->slow = g_plan.ki("slow"); h->echo = (int) g_plan.ki("echo"); count("udp.session");
            }
            g_keep[h.get()] = h;
            sps::ICoFactory::get_instance().start(h);
        }
        return SUCCESS;
    }
};
struct Client { Op op; std::vector<std::string> sent, got, replied, arrived, rdel; bool reading = false, done = false; u64 read_t = 0, read_idle = 0, last_reply = 0; bool open = false, bound = false; };
static std::vector<std::shared_ptr<Client>> g_cli;
static std::string c_addr(const Op& o) { return std::string(IPS[o.i("ip")]) + ":" + std::to_string(PORTS[o.i("port")] % 65535 + 1); }
static bool c_shared(const Client& c) { for (auto& o : g_cli) if (o.get() != &c && c.op.i("bind") && o->op.i("bind") == c.op.i("bind") && !c.op.i("con")) return true; return false; }     // may get late answers to an earlier client of its port
static int c_port(const Op& o) { return PORTS[o.i("port")] % 65535 + 1; }
struct ClientCo : sps::ICoHandler {
    std::shared_ptr<Client> c;
    error_t handler() override {
        std::string ip; int port, bind; i64 rto, n; bool con;
        { SimScope g; port = c_port(c->op); bind = (int) c->op.i("bind"); rto = c->op.i("rto"); n = c->op.i("n"); con = c->op.i("con"); }
        ip = IPS[c->op.i("ip")];
        st_usleep(20000 + c->op.t);
        sps::PUdpFd fd; error_t ret = bind ? sps::UdpFd::create_fd(bind, fd) : sps::UdpFd::create_fd(fd);
        bool taken = false; { SimScope g; if (bind) for (auto& o : g_cli) taken |= o != c && o->open && o->op.i("bind") == bind; }
        if ((ret != SUCCESS) != taken) { SimScope g; violation("C22", "a client socket at port %d: %d", bind, (int) ret); }
        if (ret == SUCCESS) {
            c->open = true; c->bound = bind;
            sps::StUdpClientSocket s(ip, port, fd); fd.reset(); s.set_recv_timeout(rto < 0 ? (utime_t) -1 : rto);
            if (con && s.connect() != SUCCESS) { SimScope g; violation("C22", "connect fails"); }
            std::unique_ptr<char[]> buf(new char[9100]);
            for (i64 k = 0; k < n; ++k) {
                const char* d; size_t len; { SimScope g; Rng r(hash3(g_seed, c->op.id, 0xc11 + k)); c->sent.push_back(payload(r, 0x800 + c->op.id, (int) k, c->op.i("max"))); d = c->sent.back().data(); len = c->sent.back().size(); }
                error_t w = s.write((void*) d, len);
                if (w != SUCCESS) { SimScope g; c->sent.pop_back(); if (!fault_on("udp_send_err")) violation("C22", "client %d: write fails with %d", c->op.id, (int) w); }
                if (c->op.i("pace")) st_usleep(c->op.i("pace"));
            }
            for (i64 k = 0; rto >= 0 && k < 3 * n + 2; ++k) {
                size_t nr = 0; c->read_t = now(); c->read_idle = idle_seq(); c->reading = true;
                std::string pip; int pport = 0;
                error_t e = k & 1 ? s.read(buf.get(), 9100, nr) : s.read(buf.get(), 9100, nr, pip, pport);
                c->reading = false;
                SimScope g;
                if (e == SUCCESS) { c->got.push_back(std::string(buf.get(), nr)); if (!(k & 1) && !c_shared(*c) && pip + ":" + std::to_string(pport) != c_addr(c->op)) violation("C22", "client %d: a datagram of %s is said to come from %s:%d", c->op.id, c_addr(c->op).c_str(), pip.c_str(), pport); }
                else if (e == ERROR_SOCKET_TIMEOUT) {
                    u64 d = now() - c->read_t;
                    if (d + 1000 < (u64) rto || d > (u64) rto + 300000 + (g_busy ? 5000000 : 0)) violation("C22", "client %d: timeout after %.3f s (receive timeout %.1f s)", c->op.id, d / 1e6, rto / 1e6);
                    if (c->got.size() < c->rdel.size() && c->last_reply + 100000 < now()) violation("C22", "client %d: timeout although there was a datagram", c->op.id);
                    break;
                } else if (!fault_on("udp_recv_err")) { violation("C22", "client %d: read fails with %d", c->op.id, (int) e); break; }
            }
        }
        c->open = false;
        c->done = true;
        return SUCCESS;
    }
};
static int prog() {
    sps::ICoFactory::get_instance().init();
    int ns = (int) g_plan.ki("nsrv", 1);
    for (int i = 0; i < ns; ++i) {
        auto srv = std::make_shared<sps::StUdpServerSocket>(); int port = 900 + i;
        if (srv->listen("", port, false, 100) != SUCCESS) { SimScope g; violation("C22", "the UDP server at port %d does not start", port); return 1; }
        auto a = std::make_shared<Acceptor>(); a->srv = srv; a->port = port; g_keep[a.get()] = a;
        sps::ICoFactory::get_instance().start(a);
    }
    for (auto& c : g_cli) { auto h = std::make_shared<ClientCo>(); h->c = c; g_keep[h.get()] = h; sps::ICoFactory::get_instance().start(h); }
    st_usleep((st_utime_t) -1);
    return 0;
}
// ------------------------------------------------------------ the peers
static void listen_actor(const std::string& addr, std::shared_ptr<Udp> u) {
    spawn("udp-rx", [addr, u] {
        for (;;) {
            while (!u->rcvq.empty()) {
                auto d = u->rcvq.front(); u->rcvq.pop_front(); int from = ntohs(d.first.sin_port);
                if (from == 900 || from == 901) { g_peers[{from, addr}].rcvd.push_back(d.second); continue; }
                std::shared_ptr<Client> c; for (auto& q : g_cli) if (c_addr(q->op) == addr && std::find(q->sent.begin(), q->sent.end(), d.second) != q->sent.end()) c = q;
                if (!c) { g_stray[addr].push_back(d.second); continue; }
                c->arrived.push_back(d.second);
                if (c->bound && from != c->op.i("bind")) violation("C22", "client %d sends from port %d, not %d", c->op.id, from, (int) c->op.i("bind"));
                if ((int) (hash3(g_seed, hash_str(d.second), 0xec) % 100) < c->op.i("reply")) { std::string a = "A" + d.second; c->replied.push_back(a); udp_send(u.get(), d.first, a.data(), a.size()); }
            }
            wait_on(u->rq, NEVER);
        }
    });
}
static std::shared_ptr<Udp> actor_at(const std::string& ip, int port) {
    std::string a = ip + ":" + std::to_string(port); auto& u = g_acts[a];
    if (!u) { u = udp_actor(ip, port); listen_actor(a, u); }
    return u;
}
static void peer(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x0dd)); auto u = actor_at(IPS[op.i("ip")], PORTS[op.i("port")]);
    sockaddr_in to{}; to.sin_family = AF_INET; to.sin_port = htons(900 + op.i("srv")); to.sin_addr.s_addr = inet_addr("192.0.2.1");
    for (i64 k = 0; k < op.i("n"); ++k) { auto d = payload(r, op.id, (int) k, op.i("max")); udp_send(u.get(), to, d.data(), d.size()); if (op.i("pace")) sleep_us(op.i("pace") / 2 + r.below(op.i("pace"))); }
}
static void check_idle() {
    for (auto& kv : g_peers) {
        auto& pr = kv.second; if (pr.del.empty()) continue;
        USess* s = pr.sess.empty() ? nullptr : pr.sess.back().get(); u64 last = pr.del.back().ev;
        if ((!s || (s->end_ev != NEVER && s->end_ev < last))) violation("C22", "%s has sent a datagram and is not given a session", kv.first.second.c_str());
        else if (s->reading && s->read_ev < last) violation("C22", "session %d of %s waits although there is a datagram for it", s->no, kv.first.second.c_str());
        if (s && s->end_ev == NEVER && s->reading) { i64 rto = g_plan.ki("rto", -1); if (rto >= 0 && now() > s->read_t + rto + 300000 + (g_busy ? 5000000 : 0)) violation("C22", "session %d of %s still waits after %.3f s (receive timeout %.1f s)", s->no, kv.first.second.c_str(), (now() - s->read_t) / 1e6, rto / 1e6); }
    }
}
static bool subseq(const std::vector<std::string>& a, const std::vector<std::string>& b, bool exact) {     // a within b
    if (exact) return a == b;
    std::multiset<std::string> m(b.begin(), b.end());
    for (auto& x : a) { auto it = m.find(x); if (it == m.end()) { if (!std::count(b.begin(), b.end(), x) || !g_udp.dup) return false; } else m.erase(it); }
    return true;
}
void udp_run(const Plan& p) {
    g_alias = nullptr; g_busy = p.faults.count("cpu");
    g_udp.lat = p.ki("lat", 1000); g_udp.jit = p.ki("jit"); g_udp.loss = (int) p.ki("loss"); g_udp.dup = (int) p.ki("dup"); g_udp.reorder = (int) p.ki("reorder");
    g_lossy = g_udp.loss || g_udp.dup || g_udp.reorder || g_udp.jit;
    g_on_udp = [](Udp* u, const sockaddr_in& from, const std::string& d) {
        if (!u->server) return;
        if (u->port == 900 || u->port == 901) { auto& q = g_peers[{u->port, astr(from)}]; q.del.push_back({++g_ev, now(), d}); q.idle.push_back(idle_seq()); size_t got = 0; for (auto& s : q.sess) got += s->got.size(); if (q.del.size() - std::min(got, q.del.size()) > 3990) q.over = true; }
        else for (auto& c : g_cli) if (std::find(c->replied.begin(), c->replied.end(), d) != c->replied.end()) { c->rdel.push_back(d); c->last_reply = now(); }
    };
    for (auto& o : p.ops) if (o.kind == "cli") { auto c = std::make_shared<Client>(); c->op = o; g_cli.push_back(c); actor_at(IPS[o.i("ip")], c_port(o)); }
    server_start(prog);
    on_idle([] { check_idle(); });
    u64 lo = p.ki("rto", -1) > 0 ? p.ki("rto") : 0;
    static size_t heap[3], thr[3]; int churn = (int) p.ki("churn"); static bool leak = false; leak = churn && p.ki("rto") > 0 && !p.ki("slow");
    u64 base = 20000000; for (auto& o : p.ops) base = std::max<u64>(base, o.t + o.i("n") * (2 * o.i("pace") + 1000) + 30000000);
    if (leak) for (int round = 0; round < 3; ++round) {
        u64 t = base + round * 30000000ull;
        for (int i = 0; i < churn; ++i) at(t + i * 1000, [i, round] { auto u = udp_actor("198.51.100.7", 2000 + i); static std::vector<std::shared_ptr<Udp>> keep; keep.push_back(u); sockaddr_in to{}; to.sin_family = AF_INET; to.sin_port = htons(900); to.sin_addr.s_addr = inet_addr("192.0.2.1"); for (int k = 0; k < 3; ++k) { char b[9]; snprintf(b, sizeof b, "c%02x%05x", round * 3 + k, i); udp_send(u.get(), to, b, 8); } });
        at(t + 25000000, [round] { heap[round] = S.heap_blocks; thr[round] = S.threads; });
    }
    u64 settle = 2000000 + lo + (leak ? base + 100000000 : 0) + (g_busy ? 10000000 : 0);
    i64 slow = p.ki("slow"); u64 backlog = 0; for (auto& o : p.ops) if (o.kind == "peer") backlog += o.i("n"); settle += 4000000 + backlog * (g_udp.dup ? 2 : 1) * (slow + (g_busy ? 60000 : 0));
    run_ops(p, 20000, settle, 4000000000ull, 6000000, [](const Op& op) { if (op.kind == "peer") peer(op); });
    if (leak && g_stop_why == "done") {
        if (heap[2] > heap[1] + 20) violation("C22", "%zu heap blocks are left behind by %d sessions that ended", heap[2] - heap[1], churn);
        if (thr[2] != thr[1]) violation("C22", "%zu coroutines after a round of sessions, %zu before", thr[2], thr[1]);
        count("udp.churn");
    }
    // ---- histories
    u64 n = 0;
    for (auto& kv : g_peers) {
        auto& pr = kv.second; const char* who = kv.first.second.c_str();
        if (pr.over) {          // more than a session keeps: the rest may be lost
            size_t k = 0;
            for (auto& s : pr.sess) for (auto& g : s->got) { while (k < pr.del.size() && pr.del[k].d != g) ++k; if (k++ >= pr.del.size()) { violation("C22", "session %d of %s repeats or reorders datagrams of its peer", s->no, who); break; } }
            size_t got = 0; for (auto& s : pr.sess) got += s->got.size(); count("udp.overflow"); n += got; continue;
        }
        std::set<size_t> pos{0}; bool first = true; u64 pend = 0;
        for (auto& s : pr.sess) {
            std::set<size_t> next; n += s->got.size();
            for (size_t q : pos) for (size_t c = q; c <= pr.del.size(); ++c) {
                if (c > q && (first || pr.idle[c - 1] > pend + 1)) break;
                bool ok = c + s->got.size() <= pr.del.size();
                for (size_t i = 0; ok && i < s->got.size(); ++i) ok = pr.del[c + i].d == s->got[i];
                if (ok) next.insert(c + s->got.size());
            }
            if (next.empty()) {
                std::string w; std::multiset<std::string> all; for (auto& d : pr.del) all.insert(d.d);
                for (auto& g : s->got) { auto it = all.find(g); if (it == all.end()) { w = "reads something its peer did not send"; break; } }
                violation("C22", "session %d of %s %s", s->no, who, w.empty() ? "misses, repeats or reorders datagrams of its peer" : w.c_str()); pos = {pr.del.size()}; break;
            }
            pos = next; first = false; pend = s->end_ev == NEVER ? NEVER - 1 : s->end_idle;
        }
        if (g_stop_why == "done" && !pr.sess.empty() && pr.sess.back()->end_ev == NEVER && pos.count(pr.del.size()) == 0) violation("C22", "session %d of %s never reads %zu datagrams that came for it", pr.sess.back()->no, who, pr.del.size() - *pos.rbegin());
        if (g_stop_why == "done" && g_acts.count(kv.first.second) && !subseq(pr.rcvd, pr.sent, !g_lossy)) violation("C22", "%s receives %zu replies from port %d, not the %zu sent to it", who, pr.rcvd.size(), kv.first.first, pr.sent.size());
    }
    for (auto& c : g_cli) {
        if (g_stop_why == "done" && !subseq(c->arrived, c->sent, !g_lossy && c->done && false)) violation("C22", "client %d: its peer receives something else", c->op.id);
        if (g_stop_why == "done" && !g_lossy && c->done && c->arrived.size() < c->sent.size()) violation("C22", "client %d: its peer at %s receives %zu of %zu datagrams", c->op.id, c_addr(c->op).c_str(), c->arrived.size(), c->sent.size());
        if (!c_shared(*c)) for (size_t i = 0; i < c->got.size(); ++i) if (i >= c->rdel.size() || c->got[i] != c->rdel[i]) { violation("C22", "client %d reads something that is not the next datagram of its peer", c->op.id); break; }
        n += c->got.size();
        if (g_stop_why == "done" && !c->done && c->op.i("rto") >= 0) violation("C22", "client %d never ends", c->op.id);
    }
    for (auto& kv : g_stray) if (!kv.second.empty()) violation("C22", "%s receives %zu datagrams that are not for it", kv.first.c_str(), kv.second.size());
    if (n > 2) g_shm->nontrivial = 1;
}
}
