// Receiving RTP (C23): whatever reaches the socket, the receiver gives out the media units it was sent,
// each complete and unaltered, and goes on. The server process runs a small program (like the
// project's own RTP tool): one coroutine per receiver, reading packets in a loop.
#include "ts.hpp"
#include "shm.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avcodec_parser.hpp>
#include <sps_sys_st_io_udp.hpp>
#include <sps_sys_co.hpp>
#include <sps_log.hpp>
extern "C" {
#include <public.h>
}
namespace sim {
enum { H264V, AACA, TSV };
struct Exp { std::string pay; int stream, type, flags; i64 pts = -1, dts = -1; bool must = true, part = false; const char* what = ""; };
struct OutPkt { std::string pay; int stream, type, flags; i64 pts, dts; };
struct Unit { std::string nal; uint32_t ts; int frags = 0; bool must_done = false; std::set<int> have; bool big = false; };
struct PktInfo { std::vector<int> units; int frag = -1; bool last = false; int copies = 0; u64 ts_at = 0, ts_end = 0; };
struct Recv {
    Op op; int port = 0, codec = 0; i64 rto = -1;
    std::vector<Unit> units; std::map<std::string, PktInfo> info; TsStream ts; size_t tag = 0; u64 ts_pos = 0;
    std::vector<const PktInfo*> media;
    std::vector<Exp> exp; std::vector<OutPkt> out; std::set<size_t> pos{0}; size_t done = 0; bool bad = false;
    bool reading = false, up = false; u64 read_t = 0; size_t must = 0, sent = 0;
};
static std::vector<std::shared_ptr<Recv>> g_rv;
static bool g_exact;
static std::vector<std::shared_ptr<sps::ICoHandler>> g_hold;

void rtp_gen(Plan& p, Rng& r) {
    p.k["lat"] = std::to_string(r.pick(std::vector<i64>{10, 1000, 20000}));
    bool clean = r.chance(45); if (clean) p.k["clean"] = "1";
    if (!clean) {
        p.k["jit"] = std::to_string(r.chance(60) ? 0 : r.range(1, 20000));
        if (r.chance(50)) p.k["loss"] = std::to_string(r.range(1, 30));
        if (r.chance(40)) p.k["dup"] = std::to_string(r.range(1, 30));
        if (r.chance(40)) p.k["reorder"] = std::to_string(r.range(1, 40));
    }
    if (r.chance(25)) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    if (r.chance(20)) p.faults["udp_recv_err"] = r.range(1, 30);
    int n = r.chance(60) ? 1 : (int) r.range(2, 3);
    for (int i = 0; i < n; ++i) {
        Op& o = p.op("rtp", r.below(2000000));
        int c = r.chance(55) ? H264V : r.chance(60) || !clean ? AACA : TSV;
        o.set("codec", c).set("n", r.chance(5) ? r.range(300, 800) : r.range(1, 80)).set("mtu", r.pick(std::vector<i64>{60, 200, 1200, 1400, 1400, 2800})).set("pace", r.pick(std::vector<i64>{0, 0, 300, 10000, 40000}));
        o.set("rto", r.pick(std::vector<i64>{-1, 30000, 500000, 2000000})).set("junk", r.pick(std::vector<i64>{0, 0, 5, 30})).set("rtcp", r.pick(std::vector<i64>{0, 5, 20})).set("max", r.pick(std::vector<i64>{100, 1000, 6000, 40000}));
        o.set("pt", r.range(96, 127)).set("seq", r.chance(50) ? 65536 - r.below(60) : r.below(65536)).set("ts", r.chance(30) ? 0xffffffff - r.below(100000) : r.below(0x100000000ull)).set("ext", r.pick(std::vector<i64>{0, 0, 10, 50})).set("pad", r.pick(std::vector<i64>{0, 0, 10, 50})).set("cc", r.pick(std::vector<i64>{0, 0, 10, 50}));
        if (c == H264V && r.chance(8)) o.set("huge", 1);
    }
}
// ------------------------------------------------------------ the program under test
struct RecvCo : sps::ICoHandler {
    std::shared_ptr<Recv> v;
    error_t handler() override {
        int port, codec; i64 rto; { SimScope g; port = v->port; codec = v->codec; rto = v->rto; }
        sps::PUdpFd fd;
        if (sps::UdpFd::create_fd(port, fd) != SUCCESS) { SimScope g; violation("C23", "the socket of receiver %d can not be opened", port); return SUCCESS; }
        auto s = std::make_shared<sps::StUdpClientSocket>("127.0.0.1", port, fd); s->set_recv_timeout(rto < 0 ? (utime_t) -1 : rto);
        sps::RtpDemuxer rtp(s);
        if (codec != TSV && rtp.init_codec(codec == H264V ? sps::AVCODEC_H264 : sps::AVCODEC_AAC) != SUCCESS) { SimScope g; violation("C23", "a receiver for %s can not be set up", codec == H264V ? "H.264" : "AAC"); return SUCCESS; }
        v->up = true;
        for (;;) {
            sps::PAVPacket pkt;
            v->read_t = now(); v->reading = true;
            error_t ret = rtp.read_packet(pkt);
            v->reading = false;
            if (ret == SUCCESS && pkt) {
                SimScope g;
                v->out.push_back({std::string((char*) pkt->buffer(), pkt->size()), (int) pkt->stream_type, pkt->pkt_type.pkt_type, pkt->flags, pkt->pts, pkt->dts}); continue;
            }
            bool err;
            {
                SimScope g; u64 d = now() - v->read_t; err = ret != ERROR_SOCKET_TIMEOUT;
                if (err && !fault_on("udp_recv_err")) violation("C23", "receiver %d: reading ends with %d", port, (int) ret);
                if (!err && rto < 0) violation("C23", "receiver %d: timeout without a receive timeout", port);
                else if (!err && d + 1000 < (u64) rto) violation("C23", "receiver %d: timeout after %.3f s (receive timeout %.3f s)", port, d / 1e6, rto / 1e6);
                if (!err) count("rtp.timeout");
            }
            if (err) st_usleep(1000);
        }
        return SUCCESS;
    }
};
static int prog() {
    sps::ICoFactory::get_instance().init();
    for (auto& v : g_rv) { auto h = std::make_shared<RecvCo>(); h->v = v; g_hold.push_back(h); sps::ICoFactory::get_instance().start(h); }
    st_usleep((st_utime_t) -1);
    return 0;
}
// ------------------------------------------------------------ the sender
static void b8(std::string& s, uint32_t v) { s += (char) v; }
static void b16(std::string& s, uint32_t v) { s += (char) (v >> 8); s += (char) v; }
static void b32(std::string& s, uint32_t v) { b16(s, v >> 16); b16(s, v); }
static std::string rnd(Rng& r, size_t n) { std::string s(n, 0); u64 x = r.next(); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char) (x >> 56); } return s; }
struct Sender {
    std::shared_ptr<Recv> v; Rng r; std::shared_ptr<Udp> u; sockaddr_in to{}; uint32_t seq, ts, ssrc;
    Sender(std::shared_ptr<Recv> v, u64 seed) : v(v), r(seed) {
        u = udp_actor("10.0.0." + std::to_string(v->port % 200), 40000); to.sin_family = AF_INET; to.sin_port = htons(v->port); to.sin_addr.s_addr = inet_addr("192.0.2.1");
        seq = v->op.i("seq"); ts = v->op.i("ts"); ssrc = r.next();
    }
    std::string head(bool mark, int pt, bool plain = false) {
        std::string s; int cc = !plain && r.chance(v->op.i("cc")) ? (int) r.range(1, 15) : 0; bool x = !plain && r.chance(v->op.i("ext"));
        b8(s, 0x80 | (x ? 0x10 : 0) | cc); b8(s, (mark ? 0x80 : 0) | pt); b16(s, seq); b32(s, ts); b32(s, ssrc);
        for (int i = 0; i < cc; ++i) b32(s, r.next());
        if (x) { int w = (int) r.below(5); b16(s, 0xbede); b16(s, w); for (int i = 0; i < w; ++i) b32(s, r.next()); }
        return s;
    }
    void raw(const std::string& d) { udp_send(u.get(), to, d.data(), d.size()); }
    void other() {
        if (r.chance(v->op.i("rtcp"))) {
            std::string s, b; int k = (int) r.below(5), rc = k < 2 ? (int) r.below(4) : 1;
            if (k == 0) { b32(b, ssrc); for (int i = 0; i < 5; ++i) b32(b, r.next()); b += rnd(r, 24 * rc); }
            else if (k == 1) { b32(b, ssrc); b += rnd(r, 24 * rc); }
            else if (k == 2) { rc = (int) r.range(1, 3); for (int i = 0; i < rc; ++i) { b32(b, ssrc + i); b8(b, 1); std::string n = rnd(r, r.below(30)); b8(b, n.size()); b += n; b8(b, 0); while (b.size() & 3) b8(b, 0); } }
            else if (k == 3) { b32(b, ssrc); if (r.chance(50)) b += std::string("\3bye"); }
            else { b32(b, ssrc); b += "name"; b += rnd(r, 4 * r.below(10)); }
            b8(s, 0x80 | rc); b8(s, 200 + k); b16(s, b.size() / 4); s += b;
            if (r.chance(15)) s.resize(r.below(s.size()));
            raw(s); count("rtp.rtcp");
        }
        if (r.chance(v->op.i("junk"))) {
            std::string s; int k = (int) r.below(9), pt = v->codec == TSV ? 33 : (int) v->op.i("pt");
            if (k == 0) {}
            else if (k == 1) { s = rnd(r, r.below(12)); }
            else if (k == 2) { do s = rnd(r, r.range(12, 2900)); while ((s[1] & 0x7f) >= 96 || (s[1] & 0x7f) == 33); }       // another payload type
            else if (k == 3 && v->codec != TSV) { s = head(false, pt, true); s[0] |= (char) r.range(1, 15); s += rnd(r, r.below(4)); }      // CSRCs missing
            else if (k == 4 && v->codec != TSV) { s = head(false, pt, true); s[0] |= 0x10; s += r.chance(40) ? std::string(r.below(4), 7) : std::string("\xbe\xde\x40\1") + rnd(r, r.below(40)); }       // extension missing
            else if (k == 5 && v->codec != TSV) { s = head(false, pt, true); s[0] |= 0x20; s += rnd(r, r.below(40)); s += (char) 200; }       // more padding than there is
            else if (k == 6 && v->codec != TSV) { s = head(false, pt, true); }      // no payload
            else if (k == 7 && v->codec == H264V) { s = head(false, pt, true); b8(s, 24); b16(s, 60000); s += rnd(r, r.below(400)); }
            else if (k == 8) { s = head(false, pt, true); if (v->codec == H264V) b8(s, r.chance(50) ? 0 : 31); else if (v->codec == AACA) { b16(s, 32); b16(s, 8000); b16(s, 8); } else return; s += rnd(r, r.below(20)); }
            if (v->info.count(s)) return;
            raw(s); count("rtp.junk");
        }
        while (r.chance(v->op.i("junk") / 2)) raw("");
    }
    void send(std::string pay, bool mark, int pt, PktInfo pi) {
        other();
        std::string s = head(mark, pt); size_t room = 3000 - std::min<size_t>(2999, s.size() + pay.size());
        s += pay;
        if (r.chance(v->op.i("pad")) && room > 1) { size_t n = r.range(1, std::min<size_t>(room - 1, r.chance(50) ? 4 : 255)); s[0] |= 0x20; s += std::string(n - 1, 0); b8(s, n); }
        if (s.size() > 3000) { v->bad = true; return; }
        v->info[s] = pi; v->sent++; seq++;
        raw(s); count("rtp.packets");
        i64 pace = v->op.i("pace"); if (pace) sleep_us(pace / 2 + r.below(pace)); else if ((seq & 63) == 0) sleep_us(200);
    }
    std::string nal(int type, size_t n) { std::string s(1, (char) ((r.below(4) << 5) | type)); s += rnd(r, n); return s; }
    void h264() {
        int pt = (int) v->op.i("pt"); size_t mtu = v->op.i("mtu"), max = v->op.i("max");
        for (i64 k = 0; k < v->op.i("n"); ++k) {
            std::vector<int> now; int m = r.chance(70) ? 1 : (int) r.range(2, 5);
            bool huge = v->op.i("huge") && k == v->op.i("n") / 2;
            for (int i = 0; i < m; ++i) {
                static const int T[] = {1, 1, 1, 5, 5, 6, 7, 8, 9, 12}; int t = r.pick(std::vector<int>(T, T + 10));
                size_t n = t == 7 ? r.range(4, 40) : t >= 6 ? r.range(1, 60) : r.chance(30) ? r.range(1, 80) : r.range(1, max);
                if (huge) { n = 1048576 + r.below(3) * 100000 - 150000; t = 5; mtu = 1400; }
                v->units.push_back({nal(t, n), ts}); v->units.back().big = n > 1048000; now.push_back((int) v->units.size() - 1);
            }
            for (size_t i = 0; i < now.size();) {
                auto& n = v->units[now[i]].nal; bool end = i + 1 == now.size();
                if (n.size() > mtu || (n.size() > 4 && !huge && r.chance(10))) {         // FU-A
                    std::vector<std::string> fr; size_t o = 1;
                    size_t piece = n.size() > mtu ? mtu - 2 : 1 + r.below(n.size() - 2);
                    while (o < n.size()) { size_t q = std::min(r.chance(10) ? 1 + r.below(piece) : piece, n.size() - o); if (o == 1 && q == n.size() - 1) q--; fr.push_back(n.substr(o, q)); o += q; }
                    v->units[now[i]].frags = (int) fr.size(); count("rtp.fu");
                    char h = n[0]; int ui = now[i];
                    for (size_t f = 0; f < fr.size(); ++f) {
                        std::string p; b8(p, (h & 0xe0) | 28); b8(p, (f == 0 ? 0x80 : 0) | (f + 1 == fr.size() ? 0x40 : 0) | (h & 31));
                        PktInfo pi; pi.units = {ui}; pi.frag = (int) f; pi.last = f + 1 == fr.size(); send(p + fr[f], end && pi.last, pt, pi);
                    }
                    ++i; continue;
                }
                size_t j = i, sz = 1; if (r.chance(50)) while (j < now.size() && sz + 2 + v->units[now[j]].nal.size() <= mtu) sz += 2 + v->units[now[j++]].nal.size();
                PktInfo pi; std::string p;
                if (j > i) { b8(p, r.below(4) << 5 | 24); for (; i < j; ++i) { auto& q = v->units[now[i]].nal; b16(p, q.size()); p += q; pi.units.push_back(now[i]); } count("rtp.stap"); }
                else { p = n; pi.units = {now[i++]}; }
                send(p, i == now.size(), pt, pi);
            }
            ts += 3000;
        }
    }
    void aac() {
        size_t mtu = v->op.i("mtu"), max = std::min<size_t>(v->op.i("max"), 1400);
        for (i64 k = 0; k < v->op.i("n"); ++k) {
            int m = r.chance(60) ? 1 : (int) r.range(2, 6); std::string hd, body; PktInfo pi;
            for (int i = 0; i < m; ++i) {
                std::string au = rnd(r, r.range(1, max)); if (i && 2 + hd.size() + 2 + body.size() + au.size() > mtu) break;
                b16(hd, au.size() << 3 | (i ? 0 : 0)); body += au; v->units.push_back({au, ts}); pi.units.push_back((int) v->units.size() - 1);
            }
            std::string p; b16(p, hd.size() * 8); send(p + hd + body, true, (int) v->op.i("pt"), pi);
            ts += 1024 * pi.units.size();
        }
    }
    void mpegts() {
        TsOpt o; o.units = (size_t) v->op.i("n"); o.max_au = (size_t) v->op.i("max"); o.video = r.chance(85); o.audio = !o.video || r.chance(70);
        v->ts = make_ts(r, o);
        for (size_t i = 0; i < v->ts.bytes.size();) {
            size_t n = std::min<size_t>(v->ts.bytes.size() - i, 188 * (r.chance(80) ? 7 : r.range(1, 14)));
            PktInfo pi; pi.ts_at = i; pi.ts_end = i + n; send(v->ts.bytes.substr(i, n), r.chance(20), 33, pi); i += n; ts += 100;
        }
    }
};
// ------------------------------------------------------------ what must come out
static std::string len4(const std::string& n) { std::string s; b32(s, n.size()); return s + n; }
static void expect_unit(Recv& v, int ui, bool must, bool first) {
    auto& u = v.units[ui]; Exp e; e.must = must; e.stream = v.codec == H264V ? sps::AV_STREAM_TYPE_VIDEO : sps::AV_STREAM_TYPE_AUDIO; e.type = 1;
    if (v.codec == AACA) { e.pay = u.nal; e.flags = 0xaf; e.what = "AAC unit"; if (first) e.dts = e.pts = u.ts / 90; v.exp.push_back(e); return; }
    int t = u.nal[0] & 31; e.pts = u.ts / 90;
    if (t == 7) { e.type = 0; e.pay = u.nal; e.part = true; e.flags = 0x17; e.pts = -1; e.what = "SPS"; }
    else if (t == 1 || t == 5 || t == 6) { e.pay = len4(u.nal); e.flags = t == 5 ? 0x17 : t == 1 ? 0x27 : 0x57; e.what = "NAL unit"; }
    else return;
    v.exp.push_back(e);
}
static void arrived(Recv& v, const std::string& d) {
    auto it = v.info.find(d); if (it == v.info.end()) return;
    PktInfo& p = it->second; p.copies++;
    if (v.codec == TSV) {
        if (p.ts_at != v.ts_pos) { v.bad = true; count("rtp.ts_lost"); return; }          // more than the socket holds
        v.ts_pos = p.ts_end;
        while (v.tag < v.ts.tags.size() && v.ts.tags[v.tag].wend <= p.ts_end) {
            auto& t = v.ts.tags[v.tag++]; Exp e; e.what = "tag"; e.stream = t.type == 9 ? sps::AV_STREAM_TYPE_VIDEO : sps::AV_STREAM_TYPE_AUDIO; e.flags = (uint8_t) t.body[0]; e.dts = t.dts; bool sei = t.type == 9 && (e.flags >> 4) == 5;
            e.type = sei ? 1 : t.body[1]; size_t h = sei ? 1 : t.type == 9 ? 5 : 2; e.pay = t.body.substr(h); if (t.type == 9 && !sei && e.type) e.pts = (i64) t.dts + (((uint8_t) t.body[2] << 16) | ((uint8_t) t.body[3] << 8) | (uint8_t) t.body[4]);
            v.exp.push_back(e);
        }
        return;
    }
    v.media.push_back(&p);
    if (p.frag < 0) { for (size_t i = 0; i < p.units.size(); ++i) expect_unit(v, p.units[i], p.copies == 1, i == 0); return; }
    int ui = p.units[0]; auto& u = v.units[ui]; u.have.insert(p.frag);
    bool cons = p.last && v.media.size() >= (size_t) u.frags;
    for (int f = 0; cons && f < u.frags; ++f) { auto q = v.media[v.media.size() - u.frags + f]; cons = q->frag == f && q->units[0] == ui; }
    if (cons && !u.must_done && !u.big) { u.must_done = true; expect_unit(v, ui, true, true); }
    else if ((int) u.have.size() == u.frags) expect_unit(v, ui, false, true);
}
static bool same(const Exp& e, const OutPkt& o) {
    if (e.stream != o.stream || e.type != o.type || e.flags != o.flags || (e.pts >= 0 && e.pts != o.pts) || (e.dts >= 0 && e.dts != o.dts)) return false;
    return e.part ? o.pay.find(e.pay) != std::string::npos : o.pay == e.pay;
}
static std::string tell(const Recv& v, const OutPkt& o) {
    for (auto& e : v.exp) {
        if (e.part ? o.pay.find(e.pay) == std::string::npos : o.pay != e.pay) continue;
        if (same(e, o)) return std::string("one ") + e.what + " of " + std::to_string(e.pay.size()) + " bytes out of turn or again";
        return std::string("a ") + e.what + " with pts " + std::to_string(o.pts) + ", flags " + std::to_string(o.flags) + " instead of " + std::to_string(e.pts) + ", " + std::to_string(e.flags);
    }
    return "a packet of " + std::to_string(o.pay.size()) + " bytes that is no unit it was sent";
}
static void follow(Recv& v, bool end) {
    for (; v.done < v.out.size(); v.done++) {
        std::set<size_t> next;
        for (size_t q : v.pos) for (size_t j = q; j < v.exp.size(); ++j) { if (same(v.exp[j], v.out[v.done])) next.insert(j + 1); if (v.exp[j].must) break; }
        if (next.empty()) {
            size_t q = *v.pos.rbegin(); while (q < v.exp.size() && !v.exp[q].must) ++q;
            violation("C23", "receiver %d: output %zu is %s%s", v.port, v.done, tell(v, v.out[v.done]).c_str(), q < v.exp.size() ? (std::string("; due is a ") + v.exp[q].what + " of " + std::to_string(v.exp[q].pay.size()) + " bytes").c_str() : ""); v.bad = true; return;
        }
        v.pos = next;
    }
    if (!end) return;
    bool ok = false; size_t at = 0;
    for (size_t q : v.pos) { size_t j = q; while (j < v.exp.size() && !v.exp[j].must) ++j; at = j; if (j >= v.exp.size()) ok = true; }
    if (!ok) { violation("C23", "receiver %d does not give out a %s of %zu bytes that has come", v.port, v.exp[at].what, v.exp[at].pay.size()); v.bad = true; }
}
void rtp_run(const Plan& p) {
    g_alias = nullptr;
    g_udp.lat = p.ki("lat", 1000); g_udp.jit = p.ki("jit"); g_udp.loss = (int) p.ki("loss"); g_udp.dup = (int) p.ki("dup"); g_udp.reorder = (int) p.ki("reorder");
    g_exact = !(g_udp.loss || g_udp.dup || g_udp.reorder || g_udp.jit);
    int port = 5004; u64 settle = 6000000;
    for (auto& o : p.ops) if (o.kind == "rtp") { auto v = std::make_shared<Recv>(); v->op = o; v->port = port; port += 2; v->codec = (int) o.i("codec"); v->rto = o.i("rto"); if (v->codec == TSV && !g_exact) v->codec = AACA; g_rv.push_back(v); }
    g_on_udp = [](Udp* u, const sockaddr_in&, const std::string& d) { if (u->server) for (auto& v : g_rv) if (v->port == u->port) arrived(*v, d); };
    server_start(prog);
    on_idle([] {
        for (auto& v : g_rv) if (!v->bad && v->up) {
            if (v->reading || !fault_on("udp_recv_err")) { follow(*v, v->reading); if (!v->reading) { violation("C23", "receiver %d has stopped", v->port); v->bad = true; } }
        }
    });
    run_ops(p, 100000, settle, 2000000000ull, 6000000, [](const Op& op) { for (auto& v : g_rv) if (v->op.id == op.id) { Sender s(v, hash3(g_seed, op.id, 0x472)); if (v->codec == H264V) s.h264(); else if (v->codec == AACA) s.aac(); else s.mpegts(); s.u->open = true; static std::vector<std::shared_ptr<Udp>> keep; keep.push_back(s.u); } });
    size_t n = 0; for (auto& v : g_rv) { if (!v->bad && g_stop_why == "done") follow(*v, true); n += v->out.size(); count("rtp.units", v->out.size()); }
    if (n > 2) g_shm->nontrivial = 1;
}
}
