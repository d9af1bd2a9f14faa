// Outgoing connections (C24): what the server process opens itself, over TCP, TLS and SRT, and HTTP requests
// over them. The process runs a small program on the library's client side; the peers are actors.
#include "world.hpp"
#include "shm.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <sps_io_socket.hpp>
#include <sps_io_url_http.hpp>
#include <sps_log.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_io_srt.hpp>
extern "C" {
#include <public.h>
}
#ifndef CERTS
#define CERTS "/verif/certs"
#endif
namespace sim {
enum { TCPK, TLSK, SRTK };
static bool g_busy = false, g_sys = false;
static unsigned char pat(u64 key, u64 o) { return (unsigned char) (mix64(key + o / 8) >> (8 * (o % 8))); }
static std::string pats(u64 key, u64 o, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) pat(key, o + i); return s; }
struct Mark { u64 wire, app; };
// one connection: what both sides did
struct Xo {
    Op op; int id = 0, kind = 0, port = 0; std::string beh, end, ip, name; bool http = false;
    u64 upk = 0, downk = 0;                 // what either side sends
    i64 tm = 0, rto = 0, sto = 0; u64 lat = 0;
    // the program
    bool trying = false, up = false, null = false, dropped = false, reading = false, writing = false, fully = false; int users = 0;
    u64 t0 = 0, t_up = 0, t_drop = 0, read_t = 0, read_idle = 0, write_t = 0, roff = 0, need = 0, wtry = 0, wacc = 0; bool rend = false, wfail = false, gave_up = false, eof_ok = false;
    u64 held = NEVER; int touts = 0;
    // the peer
    std::shared_ptr<Listener> l; std::shared_ptr<SrtListener> sl; std::shared_ptr<Tcp> t; std::shared_ptr<SrtConn> sc; PConn c;
    u64 woff = 0, rxn = 0; std::vector<Mark> marks; bool wdone = false, pclosed = false, prst = false, peof = false, prst_seen = false, deaf = false, bad = false; u64 t_peof = 0, hs_end = 0; bool took = false;
    std::string sni; std::string body; bool body_whole = false;
    // god's view of the program's end
    u64 wire_in() const { return t ? t->e[0].total_delivered : 0; }
    u64 avail() const {                     // bytes that are there for the program, complete
        if (kind == TCPK) return t ? t->e[0].total_delivered : 0;
        if (kind == SRTK) { u64 a = 0; if (sc) for (size_t i = 0; i < marks.size() && marks[i].wire <= sc->s[1].delivered; ++i) a = marks[i].app; return a; }
        if (beh == "flip") return roff;          // the damage may be anywhere
        u64 a = 0; for (auto& m : marks) if (m.wire <= wire_in()) a = m.app; return a;
    }
    u64 last_in() const { if (kind == SRTK) return sc ? sc->s[1].last_deliv : 0; return t && !t->e[0].deliveries.empty() ? t->e[0].deliveries.back().first : 0; }
    bool ended() const { if (kind == SRTK) return sc && sc->s[1].broken; return t && (t->e[0].fin_rcvd || t->e[0].rst); }
    bool reset() const { return kind != SRTK && t && t->e[0].rst; }
    bool blocked() const { if (kind == SRTK) return sc && sc->s[1].blocked; return t && t->e[0].write_blocked; }
    u64 blocked_since() const { return kind == SRTK ? sc->s[1].blocked_since : t->e[0].blocked_since; }
    const char* who() const { static char b[2][60]; static int k; k ^= 1; snprintf(b[k], sizeof b[k], "%s connection %d", kind == TCPK ? "TCP" : kind == TLSK ? "TLS" : "SRT", id); return b[k]; }
};
typedef std::shared_ptr<Xo> PX;
static std::vector<PX>* g_xs;
static u64 slack() { return 300000 + (g_busy ? 6000000 : 0); }

void out_gen(Plan& p, Rng& r) {
    if (r.chance(25)) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    if (r.chance(20)) for (int i = 0; i < 2; ++i) p.faults[r.pick(std::vector<std::string>{"socket", "netfd", "connect", "dns", "srt_create", "srt_connect", "srt_epoll", "fdlimit"})] = r.range(5, 40);
    if (p.faults.count("fdlimit")) p.faults["fdlimit"] = r.range(4, 10);
    int n = (int) r.range(1, 8); u64 span = r.chance(50) ? 1 : r.range(1, 4) * 1000000;
    p.k["rounds"] = r.chance(20) ? "5" : "1";
    for (int i = 0; i < n; ++i) {
        Op& o = p.op("out", r.below(span)); int k = (int) r.below(3);
        o.set("kind", k).set("tm", r.pick(std::vector<i64>{300000, 1000000, 5000000})).set("rto", r.pick(std::vector<i64>{-1, 200000, 1000000, 4000000})).set("sto", r.pick(std::vector<i64>{-1, 500000, 3000000}));
        o.set("beh", r.chance(70) ? "ok" : r.pick(std::vector<std::string>{"refuse", "hole", "nodns", "mute", "garbage", "cut", "flip", "slow"}));
        o.set("end", r.pick(std::vector<std::string>{"half", "half", "close", "rst", "hang", "bad"}));
        o.set("up", r.pick(std::vector<i64>{0, 10, 3000, 40000, 300000})).set("down", r.pick(std::vector<i64>{0, 10, 3000, 40000, 300000})).set("pause", r.pick(std::vector<i64>{0, 0, 5000, 100000, 600000}));
        o.set("duplex", r.chance(30)).set("fully", r.pick(std::vector<i64>{0, 0, 30, 100})).set("chunk", r.pick(std::vector<i64>{1, 100, 1316, 4096, 20000, 70000})).set("lat", r.pick(std::vector<i64>{0, 500, 10000, 50000})).set("name", r.chance(50)).set("cap", r.pick(std::vector<i64>{4, 64}));
        if (r.chance(15)) o.set("deaf", r.range(0, 20000));
        if (k != SRTK && r.chance(35)) o.set("http", r.range(1, 3)).set("cutb", r.chance(30)).set("status", r.pick(std::vector<i64>{200, 200, 404, 204}));
        if (k == SRTK && r.chance(30)) o.set("bind", r.range(30000, 30003));
        if (k == TLSK && r.chance(20)) o.set("early", r.range(1, 3000));
    }
}
// ------------------------------------------------------------ the program under test
static void judge_null(Xo& x) {
    u64 d = now() - x.t0, tm = x.tm;
    if (g_sys) return;
    const std::string& b = x.beh; bool good = b == "ok" || b == "slow" || (x.kind != TLSK && (b == "mute" || b == "garbage" || b == "cut" || b == "flip"));
    if (good && !x.pclosed && !x.prst && tm >= 12 * x.lat + 600000 && !g_busy && !(b == "slow" && x.op.i("pause") > (i64) tm / 2)) violation("C24", "%s to a peer that answers is not established (%.3f s, limit %.3f s)", x.who(), d / 1e6, tm / 1e6);
    if (b == "nodns" || b == "refuse") { if (d > 6 * x.lat + 100000 + slack()) violation("C24", "%s to %s fails only after %.3f s", x.who(), b == "nodns" ? "an unknown name" : "a closed port", d / 1e6); }
    if (b == "hole") {
        u64 want = x.kind == SRTK ? std::min<u64>(tm, 3000000) : tm;
        if (d + 1000 < want || d > want + slack()) violation("C24", "%s to a silent address fails after %.3f s (limit %.3f s)", x.who(), d / 1e6, tm / 1e6);
    }
    if (b == "mute" && x.kind == TLSK && d + 1000 < tm) violation("C24", "%s to a peer that says nothing fails after %.3f s (limit %.3f s)", x.who(), d / 1e6, tm / 1e6);
    u64 from = std::max({x.t0, x.last_in(), x.hs_end});
    if (now() > from + tm + 4 * x.lat + slack()) violation("C24", "%s fails only %.3f s after its peer's last word (limit %.3f s)", x.who(), (now() - from) / 1e6, tm / 1e6);
}
static void judge_up(Xo& x) {
    const std::string& b = x.beh;
    if (b == "refuse" || b == "hole" || b == "nodns") violation("C24", "%s is said to be established although its peer is not there", x.who());
    else if (x.kind == TLSK && (b == "mute" || b == "garbage" || b == "cut")) violation("C24", "%s is said to be established although the handshake is not complete", x.who());
    else if (!x.took) violation("C24", "%s is said to be established with nobody", x.who());
}
// returns whether to go on
static bool judge_read(Xo& x, error_t ret, const char* b, size_t n, bool fully) {
    u64 d = now() - x.read_t; x.reading = false;
    if (ret == SUCCESS) {
        if (n == 0 || n > x.need || (fully && n != x.need)) { violation("C24", "%s: a read of %llu bytes returns %zu", x.who(), (unsigned long long) x.need, n); return false; }
        for (size_t i = 0; i < n; ++i) if ((unsigned char) b[i] != pat(x.downk, x.roff + i) || x.roff + i >= x.woff) { violation("C24", "%s: byte %llu of what is read is not what the peer sent (it sent %llu)", x.who(), (unsigned long long) (x.roff + i), (unsigned long long) x.woff); return false; }
        x.roff += n; return true;
    }
    u64 a = x.avail(); bool all = fully ? a < x.roff + x.need : a <= x.roff;
    if (ret == ERROR_SOCKET_TIMEOUT || ret == ERROR_SRT_SOCKET_TIMEOUT) {
        u64 from = std::max(x.read_t, x.last_in()); if (fully && x.kind == SRTK) from = x.read_t;
        if (x.rto < 0) violation("C24", "%s: a read times out without a timeout", x.who());
        else if (d + 1000 < (u64) x.rto) violation("C24", "%s: a read times out after %.3f s (timeout %.3f s)", x.who(), d / 1e6, x.rto / 1e6);
        else if (now() > from + x.rto + slack() && !(x.kind == SRTK && fully)) violation("C24", "%s: a read times out only after %.3f s (timeout %.3f s)", x.who(), (now() - from) / 1e6, x.rto / 1e6);
        if (!all && x.last_in() + slack() < now()) violation("C24", "%s: a read times out although there are %llu bytes", x.who(), (unsigned long long) (a - x.roff));
        count("out.read_timeout");
        return !fully && ++x.touts < 4;
    }
    x.rend = true;
    if (x.ended() || x.bad || (x.kind == SRTK && g_sys)) {
        if (!x.reset() && !all && !(g_sys && x.kind == SRTK)) violation("C24", "%s: reading ends with %d although %llu bytes of the peer are unread", x.who(), (int) ret, (unsigned long long) (a - x.roff));
        count(x.reset() ? "out.read_reset" : "out.read_end");
    } else violation("C24", "%s: a read fails with %d although the peer is there", x.who(), (int) ret);
    return false;
}
static bool judge_write(Xo& x, error_t ret, size_t n) {
    x.writing = false; u64 d = now() - x.write_t;
    if (ret == SUCCESS) { x.wacc += n; return true; }
    x.wfail = true;
    bool tmo = ret == ERROR_SOCKET_TIMEOUT || ret == ERROR_SRT_SOCKET_TIMEOUT;
    if (tmo) {
        if (x.sto < 0) violation("C24", "%s: a write times out without a timeout", x.who());
        else if (d + 1000 < (u64) x.sto) violation("C24", "%s: a write times out after %.3f s (timeout %.3f s)", x.who(), d / 1e6, x.sto / 1e6);
        count("out.write_timeout");
    } else if (x.ended() || x.pclosed || x.prst || x.bad || (x.kind == SRTK && g_sys)) count("out.write_end");
    else violation("C24", "%s: a write fails with %d although the peer is there", x.who(), (int) ret);
    return false;
}
static std::vector<std::shared_ptr<sps::ICoHandler>> g_hold;
struct Io {                                  // the steps of one direction or of both
    PX x; sps::PSocket s; char* buf; Rng r;
    Io(PX x, sps::PSocket s, u64 seed) : x(x), s(s), r(seed) { buf = new char[70000]; }
    ~Io() { delete[] buf; }
    bool wr() {
        size_t n; u64 up = x->op.i("up");
        { SimScope g; n = std::min<u64>(r.chance(30) ? x->op.i("chunk") : 1 + r.below(x->op.i("chunk")), up - x->wtry); for (size_t i = 0; i < n; ++i) buf[i] = (char) pat(x->upk, x->wtry + i); x->wtry += n; x->writing = true; x->write_t = now(); }
        error_t e = s->write(buf, n);
        SimScope g; return judge_write(*x, e, n);
    }
    bool rd() {
        size_t n, nr = 0; bool f; ssize_t sn = -7;
        { SimScope g; n = r.chance(30) ? x->op.i("chunk") : 1 + r.below(x->op.i("chunk")); f = r.chance(x->op.i("fully")); if (f && !r.chance(20)) { u64 left = x->op.i("down") > (i64) x->roff ? x->op.i("down") - x->roff : 1; n = std::min<u64>(n, left); } x->need = n; x->fully = f; x->reading = true; x->read_t = now(); x->read_idle = idle_seq(); }
        bool io = x->id & 1; error_t e = f ? (io ? s->get_io()->read_fully(buf, n, &sn) : s->read_fully(buf, n, r.chance(80) ? &sn : nullptr)) : s->read(buf, n, nr);
        if (f && e == SUCCESS) { nr = n; if (sn != -7) nr = sn; }
        SimScope g; return judge_read(*x, e, buf, nr, f);
    }
};
struct Half : sps::ICoHandler {              // the writing coroutine of a connection used by two
    PX x; sps::PSocket s;
    error_t handler() override {
        { Io io(x, s, hash3(g_seed, x->id, 0x3a1f)); while ((i64) x->wtry < x->op.i("up") && !x->rend && io.wr()) {} }
        s.reset(); x->users--;
        return SUCCESS;
    }
};
struct Run : sps::ICoHandler {
    PX x;
    void talk() {
        sps::PSocket s;
        x->trying = true; x->t0 = now();
        if (x->kind == SRTK && x->op.i("bind")) {
            SRTSOCKET fd = sps::st_srt_create_fd();
            if (fd != SRT_INVALID_SOCK) {
                if (sps::st_srt_connect(fd, x->name, x->port, "192.0.2.1", (int) x->op.i("bind"), x->tm) != SUCCESS) sps::st_srt_close(fd);
                else s = std::make_shared<sps::Socket>(std::make_shared<sps::StSrtSocket>(fd), x->name, x->port);
            }
        } else s = SingleInstance<sps::ClientSocketFactory>::get_instance().create_ss(x->kind == TCPK ? sps::Transport::TCP : x->kind == TLSK ? sps::Transport::HTTPS : sps::Transport::SRT, x->name, x->port, x->tm);
        { SimScope g; x->trying = false; if (!s) { x->null = true; judge_null(*x); count("out.failed"); return; } x->up = true; x->t_up = now(); judge_up(*x); if (s->get_peer_port() != x->port) violation("C24", "%s: peer port %d", x->who(), s->get_peer_port()); count("out.up"); }
        s->set_recv_timeout(x->rto < 0 ? (utime_t) -1 : x->rto); s->set_send_timeout(x->sto < 0 ? (utime_t) -1 : x->sto);
        bool two = x->op.i("duplex");
        if (two) { x->users = 1; auto h = std::make_shared<Half>(); h->x = x; h->s = s; { SimScope g; g_hold.push_back(h); } h.reset(); if (sps::ICoFactory::get_instance().start(g_hold.back()) != SUCCESS) { x->users = 0; two = false; } }
        {
            Io io(x, s, hash3(g_seed, x->id, 0x10));
            for (;;) {
                bool w = !two && (i64) x->wtry < x->op.i("up") && !x->wfail && (io.r.chance(60) || (i64) x->roff >= x->op.i("down"));
                if (w) { io.wr(); continue; }
                if (!io.rd()) break;
                if (x->end == "hang" && (i64) x->roff >= x->op.i("down") && (two || (i64) x->wtry >= x->op.i("up") || x->wfail) && io.r.chance(50)) { x->gave_up = true; break; }
            }
        }
        while (x->users) st_usleep(50000);
        // SRT keeps no promise for what is still queued when it is closed
        if (x->kind == SRTK && !x->wfail) st_usleep(3000000 + 40 * x->lat);
        s.reset(); x->t_drop = now(); x->dropped = true;
    }
    void fetch() {
        sps::HttpUrlProtocol p; sps::PRequestUrl u; char url[100]; snprintf(url, sizeof url, "%s://%s:%d/f/%d?q=%d", x->kind == TLSK ? "https" : "http", x->name.c_str(), x->port, x->id, x->id);
        if (sps::RequestUrl::from(url, u) != SUCCESS) { SimScope g; violation("C24", "the address %s is refused", url); return; }
        u->tm = x->tm; x->trying = true; x->t0 = now(); x->rto = x->tm;
        if (u->method.empty()) u->method = "GET";
        error_t e = p.open(u, x->kind == TLSK ? sps::Transport::HTTPS : sps::Transport::TCP);
        { SimScope g; x->trying = false; x->up = e == SUCCESS; x->t_up = now(); if (!x->up) { x->null = true; bool good = x->beh == "ok" && !x->op.i("cutb") && !g_sys && !g_busy && x->tm >= 12 * (i64) x->lat + 600000 + 2 * x->op.i("pause"); if (good) violation("C24", "%s: the request for %s fails with %d", x->who(), url, (int) e); u64 from = std::max({x->t0, x->last_in(), x->hs_end}); if (!g_sys && now() > from + x->tm + 4 * x->lat + slack()) violation("C24", "%s: the request fails only %.3f s after its peer's last word (limit %.3f s)", x->who(), (now() - from) / 1e6, x->tm / 1e6); count("out.http_failed"); return; } }
        {
            SimScope g; judge_up(*x); auto rsp = std::dynamic_pointer_cast<sps::HttpResponse>(p.response());
            if (!rsp || rsp->status_code != (int) x->op.i("status")) violation("C24", "%s: status %d instead of %d", x->who(), rsp ? rsp->status_code : -1, (int) x->op.i("status"));
        }
        size_t cap = x->op.i("chunk"), got = 0; char* buf = new char[70000]; error_t ret = SUCCESS;
        for (;;) {
            size_t nr = 0; x->read_t = now();
            ret = p.read(buf, cap, nr);
            if (ret != SUCCESS) break;
            SimScope g;
            if (nr > cap || got + nr > x->body.size() || x->body.compare(got, nr, buf, nr)) { violation("C24", "%s: the body differs from what the peer sent, at byte %zu", x->who(), got); break; }
            got += nr;
        }
        {
            SimScope g; bool full = got == x->body.size(), eof = p.eof(), delim = x->op.i("http") != 3;
            bool cut = x->op.i("cutb") || x->beh != "ok";
            if (eof && !full) violation("C24", "%s: a body of %zu bytes is said to be complete after %zu", x->who(), x->body.size(), got);
            if (!cut && !g_sys && !g_busy && x->op.i("pause") * 4 < x->tm && (!full || (delim && !eof))) violation("C24", "%s: %zu of %zu bytes of the body, complete %d, error %d", x->who(), got, x->body.size(), eof, (int) ret);
            count(full ? "out.http_full" : "out.http_cut"); x->rend = true;
        }
        delete[] buf; p = sps::HttpUrlProtocol(); x->t_drop = now(); x->dropped = true;
    }
    error_t handler() override { st_usleep(20000 + x->op.t); if (x->http) fetch(); else talk(); x->dropped = true; x->t_drop = x->t_drop ? x->t_drop : now(); return SUCCESS; }
};
static int g_round = 0;
static void start_round() { for (auto& x : *g_xs) if (x->op.i("round") == g_round) { auto h = std::make_shared<Run>(); h->x = x; sps::ICoFactory::get_instance().start(h); SimScope g; g_hold.push_back(h); } }
static u64 g_round_len = 0;
static int prog() {
    sps::ICoFactory::get_instance().init();
    int rounds = (int) g_plan.ki("rounds", 1);
    for (g_round = 0; g_round < rounds; ++g_round) {
        start_round();
        st_usleep(g_round_len);
        if (rounds > 1) { g_hold.clear(); }
    }
    st_usleep((st_utime_t) -1);
    return 0;
}
// ------------------------------------------------------------ the peers
struct SrtPeer : Conn {
    std::shared_ptr<SrtConn> c; std::string left;
    bool write(const void* b, size_t n, u64 to) override { for (size_t o = 0; o < n;) { size_t k = std::min<size_t>(n - o, 1316); if (!srt_actor_send(c.get(), (const char*) b + o, k, to)) return false; o += k; } return true; }
    ssize_t read(void* b, size_t n, u64 to) override {
        if (left.empty()) { int r = srt_actor_recv(c.get(), left, to); if (r == 0) return 0; if (r < 0) return -2; if (left.empty()) return -2; }
        size_t k = std::min(n, left.size()); memcpy(b, left.data(), k); left.erase(0, k); return k;
    }
    void close() override { srt_actor_close(c.get()); }
    void reset() override { srt_actor_vanish(c.get()); }
    u64 wpos() override { return c->s[0].total_sent; }
    u64 delivered() override { return c->s[1].delivered; }
    bool srv_open() override { return c->s[1].open; }
    u64 srv_closed_at() override { return c->s[1].closed_at; }
    u64 srv_sent() override { return c->s[1].total_sent; }
    bool end_seen() override { return c->s[1].broken; }
    bool peer_gone() override { return c->s[0].broken; }
    bool srt() override { return true; }
};
static void finish_peer(Xo& x) { if (!x.pclosed && !x.prst) { x.pclosed = true; if (x.c) x.c->close(); } }
static void peer_writer(PX x) {
    Rng r(hash3(g_seed, x->id, 0x3e4)); u64 down = x->op.i("down"), pause = x->op.i("pause"); bool ok = true;
    x->woff = x->op.i("early");
    if (x->woff > down) x->woff = down;
    for (u64 o = x->woff; o < down && ok;) {
        if (pause && r.chance(40)) sleep_us(r.below(2 * pause));
        size_t n = std::min<u64>(r.chance(50) ? 1 + r.below(30000) : 1 + r.below(300), down - o); auto s = pats(x->downk, o, n);
        if (x->kind == SRTK) { size_t k = std::min<size_t>(n, 1316); s.resize(k); n = k; x->woff = o + n; x->marks.push_back({x->c->wpos() + 1, o + n}); ok = x->c->write(s.data(), n, 60000000); }
        else if (x->kind == TCPK) { x->woff = o + n; ok = x->c->write(s.data(), n, 60000000); }
        else { x->woff = o + n; ok = x->c->write(s.data(), n, 60000000); x->marks.push_back({x->c->wpos(), o + n}); }
        o += n;
    }
    x->wdone = true;
    if (!ok || x->pclosed) return;
    if (pause) sleep_us(r.below(2 * pause));
    if (x->peof) return;
    if (x->end == "half" && x->kind != SRTK) { if (x->kind == TLSK && r.chance(50)) tls_notify(x->c); x->c->half(); }
    else if (x->end == "close" || x->end == "half") { x->pclosed = true; if (x->kind == TLSK && r.chance(50)) tls_notify(x->c); x->c->close(); }
    else if (x->end == "rst") { x->prst = true; x->c->reset(); }
    else if (x->end == "bad" && x->kind == TLSK) { x->bad = true; TcpConn raw(x->t, 1); std::string j = r.chance(50) ? std::string("HTTP/1.1 400 Bad Request\r\n\r\n") : std::string("\x17\x03\x03\x00\x20", 5) + std::string(32, 'x'); raw.write(j.data(), j.size(), 60000000); }
}
static void peer_reader(PX x) {
    Rng r(hash3(g_seed, x->id, 0x4ead)); std::vector<char> b(20000); bool slow = r.chance(20); i64 deaf = x->op.has("deaf") ? x->op.i("deaf") : -1;
    while (!x->pclosed && !x->prst) {
        if (deaf >= 0 && (i64) x->rxn >= deaf) { x->deaf = true; while (!x->dropped && !x->pclosed && !x->prst) sleep_us(200000); deaf = -1; continue; }
        ssize_t n = x->c->read(b.data(), slow ? 200 : b.size(), 300000);
        if (n == -2) continue;
        if (n <= 0 && (x->pclosed || x->prst)) break;
        if (n <= 0) { x->peof = true; x->t_peof = now(); x->prst_seen = n < 0; break; }
        for (ssize_t i = 0; i < n; ++i) if ((unsigned char) b[i] != pat(x->upk, x->rxn + i) || x->rxn + i >= x->wtry) { violation("C24", "%s: byte %llu that reaches the peer was not written (%llu were)", x->who(), (unsigned long long) (x->rxn + i), (unsigned long long) x->wtry); x->prst = true; x->c->reset(); return; }
        x->rxn += n; if (slow) sleep_us(r.below(10000));
    }
    if (!x->pclosed && !x->prst) { while (!x->wdone) { if (x->end == "hang" || x->peof) break; sleep_us(100000); } finish_peer(*x); }
}
static void peer_http(PX x) {
    Rng r(hash3(g_seed, x->id, 0x477)); std::string h; char b[1000];
    while (h.find("\r\n\r\n") == std::string::npos) { ssize_t n = x->c->read(b, sizeof b, 60000000); if (n <= 0) { finish_peer(*x); return; } h.append(b, n); }
    char want[200]; snprintf(want, sizeof want, "GET /f/%d?q=%d HTTP/1.1\r\nHost: %s\r\n", x->id, x->id, x->name.c_str());
    if (h.compare(0, strlen(want), want)) violation("C24", "%s: the request reads [%s]", x->who(), h.substr(0, 120).c_str());
    int st = (int) x->op.i("status"), f = (int) x->op.i("http"); bool none = st == 204;
    std::string rs = "HTTP/1.1 " + std::to_string(st) + " X\r\n", body = none ? "" : pats(x->downk, 0, x->op.i("down")); x->body = body;
    if (f == 1 && !none) rs += "Content-Length: " + std::to_string(body.size()) + "\r\n"; if (f == 2 && !none) rs += "Transfer-Encoding: chunked\r\n";
    rs += "\r\n"; std::string w;
    if (f == 2 && !none) { for (size_t o = 0; o < body.size();) { size_t n = std::min<size_t>(1 + r.below(5000), body.size() - o); w += chunk_head(n, r) + body.substr(o, n) + "\r\n"; o += n; } w += "0\r\n\r\n"; } else w = body;
    bool cut = x->op.i("cutb"); rs += w; if (cut) { size_t k = r.below(rs.size()); if (none || (f == 3 && k > rs.size() - w.size())) k = r.below(rs.size() - w.size()); rs.resize(k); }
    for (size_t o = 0; o < rs.size();) { size_t n = std::min<size_t>(1 + r.below(8000), rs.size() - o); x->woff += n; if (!x->c->write(rs.data() + o, n, 60000000)) break; o += n; if (x->op.i("pause") && r.chance(20)) sleep_us(r.below(x->op.i("pause"))); }
    x->wdone = true;
    if (cut || f == 3 || r.chance(50)) { if (x->kind == TLSK && r.chance(50)) tls_notify(x->c); if (cut && r.chance(30)) { x->prst = true; x->c->reset(); } else x->c->half(); }
    for (;;) { ssize_t n = x->c->read(b, sizeof b, 500000); if (n == -2 && !x->dropped) continue; if (n <= 0) { x->peof = true; x->t_peof = now(); break; } }
    finish_peer(*x);
}
static void peer(PX x) {
    if (x->kind == SRTK) {
        x->sc = srt_actor_accept(x->sl.get(), 100000000 + g_round_len * 4); if (!x->sc) return; x->took = true;
        auto c = std::make_shared<SrtPeer>(); c->c = x->sc; x->c = c;
        if (x->op.i("bind") && x->sc->from_port != x->op.i("bind")) violation("C24", "%s comes from port %d instead of %d", x->who(), x->sc->from_port, (int) x->op.i("bind"));
    } else {
        x->t = actor_accept(x->l.get(), 100000000 + g_round_len * 4); if (!x->t) return; x->took = true;
        auto raw = std::make_shared<TcpConn>(x->t, 1); x->c = raw;
        if (x->kind == TLSK) {
            Rng r(hash3(g_seed, x->id, 0x715)); TlsHow how; const std::string& b = x->beh;
            if (b == "mute") { char q[2000]; u64 until = now() + 2 * x->tm + 10000000; while (now() < until && raw->read(q, sizeof q, until - now()) > 0) {} finish_peer(*x); return; }
            if (b == "garbage") { if (r.chance(50)) { char q[2000]; raw->read(q, sizeof q, 5000000); } std::string j = r.chance(30) ? std::string("HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n") : r.chance(50) ? std::string(1 + r.below(2000), (char) r.below(256)) : std::string("\x16\x03\x03\x00\x04\x0e\x00\x00\x00", 9); x->hs_end = now(); raw->write(j.data(), j.size(), 5000000); sleep_us(1000000); finish_peer(*x); return; }
            if (b == "cut") how.cut = r.below(900);                     // before the last flight is out
            if (b == "flip") { how.flip = true; how.flip_at = r.below(1500); }
            if (b == "slow") { how.piece = r.range(1, 60); how.pause = std::max<u64>(1000, x->op.i("pause") / 4); if (how.pause > 20000) how.pause = 20000; }
            else if (r.chance(20)) how.piece = r.range(1, 400);
            if (x->op.i("early") && !x->http) { u64 n = std::min<u64>(x->op.i("early"), x->op.i("down")); how.early = pats(x->downk, 0, n); x->woff = n; }
            x->c = tls_accept(raw, r.chance(50) ? "a" : "b", 40000000, how, &x->sni);
            x->hs_end = now();
            if (!x->c) { x->c = raw; sleep_us(r.below(500000)); if (r.chance(50)) { x->prst = true; raw->reset(); } else finish_peer(*x); return; }
            if (!how.early.empty()) x->marks.push_back({x->c->wpos(), how.early.size()});
            if (x->sni != x->name) violation("C24", "%s names the host \"%s\" instead of %s", x->who(), x->sni.c_str(), x->name.c_str());
        }
    }
    if (x->http) { peer_http(x); return; }
    spawn("peer-w", [x] { op_begin(); peer_writer(x); op_end(); });
    peer_reader(x);
}
static void check_idle() {
    for (auto& p : *g_xs) {
        Xo& x = *p; bool bad = false;
        if (x.trying && !g_sys) {
            u64 from = std::max({x.t0, x.last_in(), x.hs_end});
            if (now() > from + x.tm + 4 * x.lat + slack()) { violation("C24", "%s is still being established %.3f s after its peer's last word (limit %.3f s)", x.who(), (now() - from) / 1e6, x.tm / 1e6); x.trying = false; }
        }
        if (x.reading) {
            u64 a = x.avail();
            if (x.fully ? a >= x.roff + x.need : a > x.roff) bad = true;
            if (x.ended()) bad = true;
            if (x.rto >= 0 && !(x.kind == SRTK && x.fully) && now() > std::max(x.read_t, x.last_in()) + x.rto + slack()) { violation("C24", "%s: a read still waits after %.3f s (timeout %.3f s)", x.who(), (now() - std::max(x.read_t, x.last_in())) / 1e6, x.rto / 1e6); x.reading = false; }
        }
        if (x.writing) {
            bool room = x.kind == SRTK ? x.sc->s[1].sendq.size() < x.sc->pf.cap : !x.t->e[0].write_blocked;
            if (room || x.reset()) bad = true;
            else if (x.sto >= 0 && now() > x.blocked_since() + x.sto + slack()) { violation("C24", "%s: a write still waits after %.3f s (timeout %.3f s)", x.who(), (now() - x.blocked_since()) / 1e6, x.sto / 1e6); x.writing = false; }
        }
        if (!bad) x.held = NEVER;
        else if (x.held == NEVER) x.held = now();
        if (bad && now() >= std::max(x.held, x.reading && x.writing ? std::min(x.read_t, x.write_t) : x.reading ? x.read_t : x.write_t) + (x.kind == SRTK ? g_busy ? 1000000 : 60000 : 0)) { violation("C24", "%s: the program is kept waiting in a %s although it could go on", x.who(), x.reading ? "read" : "write"); x.reading = x.writing = false; }
    }
}
struct OutSample { size_t threads, fds, conds, srt; i64 blocks; };
void out_run(const Plan& p) {
    crypto_init();
    g_alias = nullptr; g_busy = p.faults.count("cpu");
    for (auto& f : p.faults) if (f.first != "cpu" && f.first != "cpu_ms") g_sys = true;
    static std::vector<PX> xs; g_xs = &xs; static Plan q; q = p;
    int rounds = (int) std::max<i64>(1, p.ki("rounds", 1)); g_round_len = rounds > 1 ? 120000000 : 1000000;
    if (rounds > 1) { q.ops.clear(); for (int k = 0; k < rounds; ++k) for (auto o : p.ops) { o.set("round", k); o.id += 100 * k; q.ops.push_back(o); } }
    for (auto& o : q.ops) {
        auto x = std::make_shared<Xo>(); Rng r(hash3(g_seed, o.id % 100, 0x0c7)); x->op = o; x->id = o.id; x->kind = (int) o.i("kind"); x->beh = o.s("beh", "ok"); x->end = o.s("end", "half"); x->tm = o.i("tm"); x->rto = o.i("rto"); x->sto = o.i("sto"); x->lat = o.i("lat"); x->http = o.i("http") && x->kind != SRTK;
        x->upk = hash3(g_seed, o.id % 100, 1) << 8; x->downk = hash3(g_seed, o.id % 100, 2) << 8;
        // somebody must be able to end it
        if (x->end == "hang" && x->rto < 0) x->rto = 1000000;
        if (o.has("deaf") && x->sto < 0) x->sto = 500000;
        if (o.has("deaf") && x->kind != TCPK && x->rto < 0) x->rto = 1000000;
        if (x->end == "bad" && x->kind != TLSK) x->end = "half";
        if (x->beh == "flip" && x->rto < 0) x->rto = 2000000;
        if (x->kind == TLSK && x->beh != "ok" && x->sto < 0) x->sto = 500000;
        if (o.i("chunk") < 1000) for (auto k : {"up", "down"}) if (x->op.i(k) > 3000) x->op.set(k, 3000);
        if (x->kind == TLSK && x->beh == "flip") x->bad = true;
        if (x->kind == SRTK && o.i("pause") >= 100000 && x->op.i("down") > 40000) x->op.set("down", 40000);
        if (x->kind == SRTK && x->rto < 0 && x->end == "half") x->end = "close";
        x->ip = "198.51." + std::to_string(o.id / 200) + "." + std::to_string(o.id % 200 + 1); x->port = 700 + o.id % 100; x->name = o.i("name") || x->beh == "nodns" || x->kind == TLSK ? "h" + std::to_string(o.id % 100) + ".test" : x->ip;
        if (rounds > 1 && x->name != x->ip) x->name = "h" + std::to_string(o.id) + ".test";
        if (x->beh != "nodns" && x->name != x->ip) dns_set(x->name, x->ip);
        int mode = x->beh == "refuse" ? 1 : x->beh == "hole" ? 2 : 0;
        if (x->kind == SRTK) { x->sl = srt_actor_listen(x->ip, x->port); x->sl->mode = mode; x->sl->pf.lat = x->lat; x->sl->pf.jit = r.chance(50) ? 0 : r.below(x->lat + 1000); x->sl->pf.cap = o.i("cap", 64); x->sl->pf.loss = r.chance(30) ? (int) r.below(20) : 0; }
        else {
            x->l = actor_listen(x->ip, x->port); x->l->mode = mode; x->l->lp = random_link(r, r.chance(30)); x->l->lp.lat = x->lat; x->l->lp.jit = r.chance(50) ? 0 : r.below(x->lat + 500);
            x->l->lp.srv_rcv = std::max<size_t>(x->l->lp.srv_rcv, 4096); x->l->lp.cli_snd = std::max<size_t>(x->l->lp.cli_snd, 4096);
        }
        xs.push_back(x);
        if (!mode && x->beh != "nodns") spawn("peer", [x] { peer(x); });
    }
    server_start(prog);
    on_idle([] { check_idle(); });
    static std::vector<OutSample> sm;
    if (rounds > 1) for (int k = 1; k <= rounds; ++k) at(k * g_round_len - 1000000, [] { sm.push_back({S.threads, S.fds, S.conds, srt_open_server_socks(), S.heap_blocks}); });
    op_begin();
    spawn("end", [] {
        for (;;) {
            sleep_us(500000); bool all = true; for (auto& x : *g_xs) all &= x->dropped;
            if (all) break;
            if (now() > 900000000) { for (auto& x : *g_xs) if (!x->dropped) violation("C24", "%s never comes to an end", x->who()); break; }
        }
        for (int i = 0; i < 240; ++i) { sleep_us(500000); bool all = i >= 16; for (auto& x : *g_xs) all &= !x->up || x->http || x->peof || x->pclosed || x->prst; if (all) break; }
        op_end();
    });
    Plan none = q; none.ops.clear();
    run_ops(none, 20000, 2000000, 2000000000ull, 12000000, [](const Op&) {});
    if (g_stop_why != "done") return;
    for (auto& pp : xs) {
        Xo& x = *pp;
        if (!x.up) continue;
        g_shm->nontrivial = 1;
        if (x.http) continue;
        bool clean = !x.prst && !x.pclosed && !x.deaf && !x.bad && x.beh != "flip" && !(g_sys && x.kind == SRTK);
        if (x.peof && clean && x.roff < x.avail() && x.kind != SRTK) clean = false;                  // closed with unread data: a reset
        if (x.peof && !x.prst_seen && x.rxn < x.wacc && x.beh != "flip" && !x.bad && !(x.kind == SRTK && x.wfail)) violation("C24", "%s: %llu bytes were written, %llu reached the peer before the end", x.who(), (unsigned long long) x.wacc, (unsigned long long) x.rxn);
        if (clean || (x.peof && !x.prst_seen)) count("out.whole");
        if (!x.peof && !x.prst && !x.pclosed && x.beh != "flip") violation("C24", "%s: its peer never learns that it is over", x.who());
    }
    if (tcp_server_open()) violation("C24", "%zu connections are still held although all are over", tcp_server_open());
    if (srt_open_server_socks()) violation("C24", "%zu SRT sockets are still held although all are over", srt_open_server_socks());
    // what only the first use creates comes late when a fault hits it: then three rounds in a row must grow
    auto grows = [](size_t OutSample::* m, size_t i) { return g_sys ? i >= 3 && sm[i].*m > sm[i - 1].*m && sm[i - 1].*m > sm[i - 2].*m && sm[i - 2].*m > sm[i - 3].*m : sm[i].*m > sm[1].*m; };
    for (size_t i = 2; i < sm.size(); ++i) {
        if (grows(&OutSample::fds, i)) { violation("C24", "%zu descriptors after round %zu of the same connections, %zu before", sm[i].fds, i, sm[1].fds); break; }
        if (grows(&OutSample::conds, i)) { violation("C24", "%zu condition variables after round %zu of the same connections, %zu before", sm[i].conds, i, sm[1].conds); break; }
        if (grows(&OutSample::threads, i)) { violation("C24", "%zu coroutines after round %zu of the same connections, %zu before", sm[i].threads, i, sm[1].threads); break; }
        if (i + 1 == sm.size() && i >= 3 && sm[i].blocks > sm[1].blocks + 8 && sm[3].blocks > sm[2].blocks && sm[2].blocks > sm[1].blocks) { violation("C24", "%lld heap blocks after round %zu of the same connections, %lld before", (long long) sm[i].blocks, i, (long long) sm[1].blocks); break; }
    }
}
}
