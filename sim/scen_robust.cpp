// Hostile input from every side and failing system calls: the server stays up, serves the others, serves
// again when it is over (C14), and gives back everything it took (C13).
#include "ts.hpp"
#include "shm.hpp"
#include <algorithm>
#ifndef CERTS
#define CERTS "/verif/certs"
#endif
namespace sim {
static const int HP = 8080, TP = 8443, SP = 9000;
static u64 g_round_len = 0; static int g_rounds = 1;

static const char* SYSF[] = {"emfile", "connabort", "thread", "netfd", "getsockname", "setsockopt", "socket", "connect", "dns", "fdlimit", "srt_accept", "srt_epoll"};

void robust_gen(Plan& p, Rng& r) {
    bool leak = p.prop == "C13";
    u64 tmo = r.range(2, 6) * 1000000;
    p.k["recv_timeout"] = std::to_string(tmo); p.k["send_timeout"] = std::to_string(r.range(2, 6) * 1000000);
    int srt = r.chance(40), sys = r.chance(leak ? 35 : 50);
    p.k["srt"] = srt ? "1" : "0";
    p.k["rounds"] = std::to_string(leak ? (int) r.range(3, 5) : 1);
    u64 span = r.range(1, 6) * 1000000; p.k["span"] = std::to_string(span);
    p.k["omut"] = std::to_string(r.pick(std::vector<int>{0, 30, 80, 100}));
    if (r.chance(25)) { p.faults["cpu"] = r.range(1, 40); p.faults["cpu_ms"] = r.range(1, 40); }
    if (sys) {
        int n = (int) r.range(1, 3);
        for (int i = 0; i < n; ++i) { std::string k = SYSF[r.below(12)]; p.faults[k] = k == "fdlimit" ? r.range(6, 14) : r.range(5, 60); }
        p.k["sysfault"] = "1";
    }
    auto hostile = [&](u64 t) {
        int w = (int) r.below(srt ? 10 : 8);
        if (w <= 3) {
            Op& o = p.op("raw", t); o.set("port", r.chance(80) ? HP : TP); o.set("tpl", r.pick(std::vector<std::string>{"http", "http", "flv", "flv", "ts", "ts", "hello", "junk"}));
            o.set("nmut", r.pick(std::vector<i64>{0, 1, 1, 2, 5, 20, 200})); o.set("end", r.pick(std::vector<std::string>{"fin", "rst", "half", "wait", "wait"}));
            o.set("n", r.range(3, 40)); o.set("max", r.pick(std::vector<i64>{100, 2000, 20000})); o.set("key", r.below(3)); o.set("enc", r.chance(30)); if (r.chance(30)) o.set("inner", "tls"); if (r.chance(20)) o.set("pace", 1);
        } else if (w == 4) { Op& o = p.op("flood", t); o.set("n", r.range(2, 12)); o.set("port", r.chance(70) ? HP : TP); o.set("how", r.below(4)); }
        else if (w == 5) { Op& o = p.op("xplay", t); o.set("host", r.chance(60) ? "e.com" : "x.com").set("path", "/live/x" + std::to_string(r.below(3))).set("ext", r.pick(std::vector<std::string>{"flv", "flv", "flv", "ts", "mp4", ""})).set("dur", r.range(10000, 12000000)); if (leak && r.chance(50)) o.set("host", "x.com").set("path", "/live/steady").set("ext", "flv"); if (r.chance(30)) o.set("close", "rst"); if (r.chance(30)) { o.set("stop", r.below(2000000)).set("snd", 1200).set("rcv", 1200); } }
        else if (w == 6 || w == 7) { Op& o = p.op("xget", t); o.set("host", r.pick(std::vector<std::string>{"p.com", "p.com", "d.com", "p.tls.com"})); o.set("body", r.chance(40) ? r.range(1, 20000) : 0); o.set("nreq", r.range(1, 3)); o.set("abort", r.chance(30)); }
        else if (w == 8) { Op& o = p.op("sraw", t); o.set("nmut", r.pick(std::vector<i64>{0, 1, 2, 5, 30})); o.set("idmut", r.chance(30) ? r.range(1, 5) : 0); o.set("n", r.range(3, 40)); o.set("max", r.pick(std::vector<i64>{100, 2000, 20000})); o.set("key", r.below(3)); o.set("msz", r.pick(std::vector<i64>{1316, 188, 500, 1})); o.set("end", r.below(3)); o.set("cap", 64); }
        else { Op& o = p.op("xsplay", t); o.set("host", "x.com").set("path", "/live/x" + std::to_string(r.below(3))).set("form", r.below(4)).set("cap", r.pick(std::vector<i64>{8, 64})).set("dur", r.range(10000, 12000000)); if (r.chance(30)) o.set("close", "rst"); if (r.chance(20)) o.set("stop", 100000); }
    };
    if (leak && r.chance(40)) p.k["mute"] = "1";
    auto xpub = [&](u64 t) {
        Op& o = p.op(srt && r.chance(50) ? "xspub" : r.chance(30) ? "xtpub" : "xpub", t); o.set("host", "x.com").set("path", "/live/x" + std::to_string(r.below(3)));
        o.set("n", r.range(5, 60)).set("pace", r.pick(std::vector<i64>{0, 5000, 50000})).set("mode", r.pick(std::vector<std::string>{"raw", "chunked"})).set("end", r.pick(std::vector<std::string>{"fin", "rst", "garbage", "hang"})).set("form", r.below(5)).set("cap", 64);
        if (o.kind != "xpub") o.set("maxau", 3000);
    };
    int nx = (int) r.range(0, 3); for (int i = 0; i < nx; ++i) xpub(r.below(span));
    int nh = (int) r.range(2, leak ? 8 : 14); for (int i = 0; i < nh; ++i) hostile(r.below(span));
    if (!leak && !sys) {            // others are served all the while
        { Op& o = p.op("pub", 0); o.set("host", "ok.com").set("path", "/live/undisturbed-1").set("n", 80).set("maxbody", 3000).set("pace", 100000).set("end", "linger").set("linger", 1000000); }
        int n = (int) r.range(1, 3);
        for (int i = 0; i < n; ++i) { Op& o = p.op("play", r.below(span)); o.set("host", "ok.com").set("path", "/live/undisturbed-1").set("dur", 20000000); }
    }
    if (!leak) {
        int rel = (int) r.below(4);
        u64 t = span + r.range(500000, 3000000); p.k["quiet"] = std::to_string(t);   // faults have stopped by then
        { Op& o = p.op("pub", t); o.set("host", "ok.com").set("path", "/live/canary-1").set("n", 500).set("maxbody", 2000).set("pace", 40000).set("link", "clean").set("canary", 1); }
        { Op& o = p.op("play", t + 3000000); o.set("host", "ok.com").set("path", "/live/canary-1").set("dur", 3000000).set("canary", 1).set("link", "clean"); }
        { Op& o = p.op("cedge", t + r.below(1000000)); o.set("host", "e.com").set("path", "/live/canary-2"); }
        { Op& o = p.op("cget", t + r.below(1000000)); o.set("host", "p.tls.com").set("tr", "tls").set("link", "clean").set("n", 2).set("max", 3000).set("te", rel & 1).set("body", rel & 2 ? 100 : 0); }
        if (srt) {
            { Op& o = p.op("spub", t); o.set("host", "ok.com").set("path", "/live/canary-3").set("n", 300).set("maxau", 2000).set("pace", 40000).set("cap", 1024).set("lat", 1000).set("canary", 1); }
            { Op& o = p.op("splay", t + 3000000); o.set("host", "ok.com").set("path", "/live/canary-3").set("dur", 3000000).set("cap", 1024).set("lat", 1000).set("canary", 1); }
            { Op& o = p.op("play", t + 3000000); o.set("host", "ok.com").set("path", "/live/canary-3").set("dur", 3000000).set("canary", 1).set("link", "clean"); }
        }
    }
}

// ------------------------------------------------------------ mutation
static void mutate(std::string& s, Rng& r, int n, size_t unit) {
    static const char* NUM[] = {"0", "-1", "99999999999999999999", "2147483647", "4294967296", "-2147483648", "65536", " 5", "0x10", "1e9", ""};
    for (int i = 0; i < n && !s.empty(); ++i) {
        size_t p = r.below(s.size());
        if (unit && r.chance(70)) p = std::min(s.size() - 1, p / unit * unit + r.below(std::min<size_t>(unit, 24)));   // headers more than payload
        switch (r.below(10)) {
            case 0: s[p] ^= (char) (1 << r.below(8)); break;
            case 1: s[p] = (char) r.next(); break;
            case 2: s[p] = r.pick(std::vector<char>{0, (char) 0xff, 0x7f, (char) 0x80, '\n', '\r', '%', ':', ' '}); break;
            case 3: s.erase(p, 1 + r.below(r.chance(70) ? 8 : 400)); break;
            case 4: { size_t k = 1 + r.below(r.chance(70) ? 8 : 300); s.insert(p, s.substr(r.below(s.size()), k)); break; }
            case 5: { std::string x; size_t k = 1 + r.below(r.chance(80) ? 6 : 3000); for (size_t j = 0; j < k; ++j) x += (char) (r.chance(50) ? r.next() : 'A'); s.insert(p, x); break; }
            case 6: if (r.chance(30)) s.resize(p); break;
            case 7: { u64 v = r.chance(50) ? (u64) -1 : r.next(); for (size_t j = 0; j < 4 && p + j < s.size(); ++j) s[p + j] = (char) (v >> (8 * j)); break; }
            case 8: { size_t q = s.find_first_of("0123456789", p); if (q != std::string::npos) { size_t e = s.find_first_not_of("0123456789", q); s.replace(q, (e == std::string::npos ? s.size() : e) - q, NUM[r.below(11)]); } break; }
            default: { size_t q = r.below(s.size()), k = 1 + r.below(40); std::string a = s.substr(p, k); s.replace(q, a.size(), a); }
        }
    }
}
static std::string flv_bytes(Rng& r, size_t n, size_t max) {
    std::string all = flv_header(); uint32_t prev = 0;
    for (auto& t : make_stream(r, r.next(), n, max)) { all += flv_tag(t, prev); prev = 11 + t.body.size(); }
    return all;
}
static std::string chunked(const std::string& s, Rng& r) {
    std::string o; char b[32]; size_t i = 0;
    while (i < s.size()) { size_t k = std::min<size_t>(s.size() - i, 1 + r.below(3000)); snprintf(b, sizeof b, "%zx\r\n", k); o += b + s.substr(i, k) + "\r\n"; i += k; }
    return o + "0\r\n\r\n";
}
static std::string hostile_bytes(const Op& op, Rng& r) {
    std::string tpl = op.s("tpl"), key = "/live/x" + op.s("key"); int nm = (int) op.i("nmut"); std::string s;
    TsOpt to; to.units = op.i("n"); to.max_au = op.i("max");
    if (tpl == "junk") { size_t n = r.below(4000); for (size_t i = 0; i < n; ++i) s += (char) r.next(); return s; }
    if (tpl == "hello") { s = client_hello(op); mutate(s, r, nm, 0); return s; }
    if (tpl == "http") {
        int k = (int) r.range(1, 3);
        for (int i = 0; i < k; ++i) {
            s += r.pick(std::vector<std::string>{"GET", "POST", "PUT", "HEAD", "CONNECT", "PRI"}) + " " + r.pick(std::vector<std::string>{key + ".flv", key, "/", "*", "http://x.com" + key + ".flv", "rtmp://x.com:99999" + key, "/a?b=c.flv", "//", "/live/..%2f.flv", key + "." + std::string(300, 'f')}) + " HTTP/1.1\r\n";
            s += "Host: " + r.pick(std::vector<std::string>{"x.com", "x.com:8080", "p.com", "e.com", "", ":", "x.com:abc", "unknown", "a.b.c.d.e", std::string(300, 'h')}) + "\r\n";
            if (r.chance(40)) s += "Transfer-Encoding: chunked\r\n";
            if (r.chance(40)) s += "Content-Length: " + std::to_string(r.pick(std::vector<u64>{0, 5, 100, 3000000000ULL, 18446744073709551615ULL})) + "\r\n";
            if (r.chance(30)) s += "X: " + std::string(r.below(3000), 'x') + "\r\n";
            if (r.chance(20)) s += "Expect: 100-continue\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n";
            s += "\r\n"; if (r.chance(60)) { std::string b(r.below(200), 'b'); s += r.chance(50) ? chunked(b, r) : b; }
        }
        mutate(s, r, nm, 0); return s;
    }
    std::string b = tpl == "flv" ? flv_bytes(r, op.i("n"), op.i("max")) : make_ts(r, to).bytes;
    mutate(b, r, nm, tpl == "ts" ? 188 : 0);
    std::string h = "POST " + key + (tpl == "flv" ? ".flv" : ".ts") + " HTTP/1.1\r\nHost: x.com\r\n";
    if (op.i("enc")) { h += "Transfer-Encoding: chunked\r\n"; b = chunked(b, r); if (r.chance(30)) mutate(b, r, nm, 0); }
    return h + "\r\n" + b;
}
static void finish(PConn c, const std::string& end, Rng& r) {
    char b[4096];
    if (end == "rst") { c->reset(); return; }
    if (end == "half") c->half();
    if (end != "fin") { u64 dl = now() + 14000000; while (now() < dl && c->read(b, sizeof b, dl - now()) > 0) {} }
    c->close();
}
static void raw(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x40b));
    int port = (int) op.i("port"); Op o = op; o.set("may_fail", 1).set("host", "a.tls.com").set("hs_to", 8000000);
    auto c = dial(o, port, port == TP && op.s("inner") == "tls" && op.s("tpl") != "hello" ? "tls" : "tcp", r); if (!c) return;
    std::string s = hostile_bytes(op, r); bool ok = true; count("hostile.raw");
    if (op.i("pace")) { size_t i = 0; while (i < s.size() && ok && !c->peer_gone()) { size_t k = std::min<size_t>(s.size() - i, 1 + r.below(2000)); ok = c->write(s.data() + i, k, 3000000); i += k; sleep_us(r.below(30000)); } }
    else c->write(s.data(), s.size(), 3000000);
    finish(c, op.s("end"), r);
}
static void flood(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xf10)); std::vector<PConn> cs; int how = (int) op.i("how"); count("hostile.flood", op.i("n"));
    for (int i = 0; i < op.i("n"); ++i) {
        Op o = op; o.id = op.id * 100 + i;
        auto c = dial(o, (int) op.i("port"), "tcp", r); if (!c) continue;
        if (how == 0) c->reset(); else if (how == 1) c->close(); else { if (how == 3) c->write(std::string("GET /live/x0.flv HTTP/1.1\r\n")); cs.push_back(c); }
        if (r.chance(50)) sleep_us(r.below(20000));
    }
    sleep_us(r.below(9000000)); for (auto& c : cs) { if (r.chance(50)) c->reset(); else c->close(); }
}
static void xplay(const Op& op, const char* tr, int port) {
    auto q = std::make_shared<Play>(); q->id = op.id; q->exempt = true; Op o = op; o.set("may_fail", 1);
    if (!strcmp(tr, "srt")) play_raw(o, q); else actor_play(o, q, port);
    count("hostile.play");
}
static void xget(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x9e7)); bool tls = op.s("host") == "p.tls.com"; Op o = op; o.set("may_fail", 1).set("hs_to", 8000000);
    auto c = dial(o, tls ? TP : HP, tls ? "tls" : "tcp", r); if (!c) return;
    for (int i = 0; i < op.i("nreq"); ++i) {
        size_t bn = op.i("body"); std::string q = std::string(bn ? "POST" : "GET") + " /h/" + std::to_string(r.below(1000)) + " HTTP/1.1\r\nHost: " + op.s("host") + "\r\n";
        if (bn) q += r.chance(50) ? "Content-Length: " + std::to_string(bn) + "\r\n\r\n" + std::string(bn, 'b') : "Transfer-Encoding: chunked\r\n\r\n" + chunked(std::string(bn, 'b'), r); else q += "\r\n";
        if (!c->write(q.data(), q.size(), 3000000)) break;
        if (op.i("abort")) { sleep_us(r.below(50000)); c->reset(); return; }
        char b[8192]; u64 dl = now() + 6000000; ssize_t n; while (now() < dl && (n = c->read(b, sizeof b, 1500000)) > 0) {}
        if (c->peer_gone()) break;
    }
    count("hostile.get"); c->close();
}
static void sraw(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x54a)); Op o = op;
    std::string sid = "#!::h=x.com/live/x" + op.s("key") + ",m=" + r.pick(std::vector<std::string>{"publish", "publish", "request", "bidirectional"}); if (op.i("idmut")) mutate(sid, r, (int) op.i("idmut"), 0);
    if (sid.size() > 512) sid.resize(512);
    o.set("sid", sid); auto c = dial(o, SP, "srt", r); if (!c) return;
    TsOpt to; to.units = op.i("n"); to.max_au = op.i("max"); std::string s = make_ts(r, to).bytes; mutate(s, r, (int) op.i("nmut"), 188);
    if (op.i("msz") == 1 && s.size() > 400) s.resize(400);
    count("hostile.srt");
    size_t i = 0; while (i < s.size() && !c->peer_gone()) { size_t k = std::min<size_t>(s.size() - i, 13160); if (!c->write(s.data() + i, k, 2000000)) break; i += k; sleep_us(r.below(20000)); }
    if (op.i("end") == 0) c->close(); else if (op.i("end") == 1) c->reset(); else { char b[1500]; u64 dl = now() + 14000000; while (now() < dl && c->read(b, sizeof b, dl - now()) > 0) {} c->close(); }
}
// upstreams of the edge and proxy hosts
static void upstream(std::shared_ptr<Listener> l, bool edge) {
    static u64 no = 0;
    for (;;) {
        auto t = actor_accept(l.get(), NEVER); if (!t) return;
        u64 id = g_rounds > 1 ? 1 : no++;
        spawn("upstream", [t, edge, id] {
            TcpConn c(t, 1); HttpMsg m; Rng r(hash3(g_seed, id, edge));
            while (read_head(c, m, 20000000) == 1) {
                if (g_rounds > 1) r = Rng(hash3(g_seed, hash_str(m.start), 4));
                auto cl = m.get("Content-Length"); std::string body(cl ? std::min<u64>(1 << 20, strtoull(cl->c_str(), nullptr, 10)) : 0, 0);
                if (body.size() && !c.read_n(&body[0], body.size(), 8000000)) break;
                bool canary = m.start.find("canary") != std::string::npos, mut = !canary && (int) r.below(100) < g_plan.ki("omut");
                std::string b, h = "HTTP/1.1 " + std::string(mut && r.chance(20) ? r.pick(std::vector<std::string>{"302 Found", "404 No", "204 No", "304 N", "999 X", "100 Continue"}) : "200 OK") + "\r\nServer: up\r\n";
                if (edge) { if (m.start.find(".ts ") != std::string::npos) { TsOpt to; to.units = 30; to.max_au = 3000; b = make_ts(r, to).bytes; } else b = flv_bytes(r, 40, 2000); if (mut) mutate(b, r, (int) r.below(10), 0); }
                else { b.assign(r.below(20000), 'o'); }
                int fr = (int) r.below(3);
                if (fr == 0) { h += "Transfer-Encoding: chunked\r\n\r\n"; b = chunked(b, r); }
                else if (fr == 1) h += "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n"; else h += "\r\n";
                h += b; if (mut) { count("hostile.upstream"); size_t hl = h.find("\r\n\r\n"); if (r.chance(60)) { std::string x = h.substr(0, hl + 4); mutate(x, r, (int) r.range(1, 6), 0); h = x + h.substr(hl + 4); } else mutate(h, r, (int) r.range(1, 6), 0); }
                bool pace = edge && !mut;
                size_t i = 0; bool ok = true; while (i < h.size() && ok && !c.peer_gone()) { size_t k = std::min<size_t>(h.size() - i, pace ? 1500 : 4000); ok = c.write(h.data() + i, k, 9000000); i += k; if (pace || r.chance(20)) sleep_us(r.below(50000)); }
                if (!ok || fr == 2 || edge || c.peer_gone()) break;
            }
            if (r.chance(20)) sleep_us(r.below(9000000));
            if (r.chance(30)) c.reset(); else c.close();
        });
    }
}
// ------------------------------------------------------------ canaries
static void cedge(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xce)); Op o = op; o.set("link", "clean");
    auto c = dial(o, HP, "tcp", r); if (!c) { violation("C14", "the server no longer accepts connections"); return; }
    c->write("GET " + req_target(op) + " HTTP/1.1\r\nHost: e.com\r\n\r\n");
    HttpMsg m; int rc = read_head(*c, m, 12000000); std::string got; char b[4096]; ssize_t n;
    if (rc == 1 && m.status == 200) { u64 dl = now() + 6000000; while (now() < dl && got.size() < 2000 && (n = c->read(b, sizeof b, dl - now())) > 0) got.append(b, n); }
    if (rc != 1 || m.status != 200 || got.size() < 100) violation("C14", "after the faults an edge pull fails: result %d status %d, %zu bytes of media", rc, m.status, got.size());
    else { count("canary.edge"); g_shm->nontrivial = 1; }
    c->close();
}
// a publisher that outlives every round: what its players leave behind is not hidden by the end of the stream
// (a mute one sends its first frames on a server without timeouts and nothing ever after)
static void steady(u64 until, bool mute) {
    Rng r(1); Op o; o.id = 4001; o.set("link", "clean").set("host", "x.com"); auto c = dial(o, mute ? 8081 : HP, "tcp", r); if (!c) return;
    auto all = make_stream(r, 77, 60, 400); const Tag* key = nullptr; std::string s = "POST /live/steady.flv HTTP/1.1\r\nHost: x.com\r\n\r\n" + flv_header(); uint32_t prev = 0;
    for (auto& t : all) { if (!key && t.kind == TK_KEY) key = &t; if (!key) { s += flv_tag(t, prev); prev = 11 + t.body.size(); } }
    if (!key) return;
    if (mute) s += flv_tag(*key, prev);
    c->write(s.data(), s.size());
    for (; now() < until && !c->peer_gone(); sleep_us(1000000)) { if (mute) continue; s = flv_tag(*key, prev); prev = 11 + key->body.size(); if (!c->write(s.data(), s.size(), 1000000)) break; }
    c->close();
}
struct Sample { size_t threads, fds, conds, srt; i64 blocks, bytes; };
static std::vector<Sample> g_samples; static u64 g_next_sample = 0;
static void sample() { g_samples.push_back({S.threads, S.fds, S.conds, srt_open_server_socks(), S.heap_blocks, S.heap_bytes}); }

void robust_run(const Plan& p) {
    crypto_init();
    W.end_slack = 1500000;
    bool leak = p.prop == "C13"; u64 span = p.ki("span", 3000000); bool srt = p.ki("srt");
    if (leak) g_min_win = 16384;    // the last byte of a round arrives well before the next one begins
    if (!leak) g_alias = "C14";
    static Plan q; q = p; g_rounds = (int) std::max<i64>(1, p.ki("rounds", 1));
    W.recv_timeout = p.ki("recv_timeout"); W.send_timeout = p.ki("send_timeout");
    const u64 T0 = 3000000; g_round_len = span + 60000000;
    if (g_rounds > 1) { q.ops.clear(); for (int k = 0; k < g_rounds; ++k) for (auto& o : p.ops) { Op x = o; x.t += k * g_round_len; x.set("round", k); q.ops.push_back(x); } }
    g_plan.faults["from"] = T0; g_plan.faults["until"] = g_rounds > 1 ? NEVER : T0 + std::min<u64>(span, p.ki("quiet", span) - 300000);
    std::string common = " server_name default;\n recv_timeout " + p.ks("recv_timeout") + ";\n send_timeout " + p.ks("send_timeout") + ";\n", conf;
    auto host = [&](const std::string& n, const std::string& e, bool cert = false) { return " host " + n + " {\n enabled on;\n " + (cert ? std::string("ssl_crt_file " CERTS "/a.crt;\n ssl_key_file " CERTS "/a.key;\n ") : std::string()) + e + "\n }\n"; };
    std::string src = host("x.com", "type stream; role source; edge_avformat all;") + host("ok.com", "type stream; role source; edge_avformat all;");
    conf = "http {\n server plain {\n listen_port 8080;\n" + common + src + host("e.com", "type stream; role edge; edge_avformat all; pass_proxy 198.51.100.1:8001;")
         + host("p.com", "type proxy; role proxy; pass_proxy 203.0.113.7:80;") + host("d.com", "type proxy; role proxy; pass_proxy up.test;") + " }\n"
         + " server tls {\n listen_port 8443;\n transport https;\n" + common + host("a.tls.com", "type stream; role source; edge_avformat all;", true) + host("p.tls.com", "type proxy; role proxy; pass_proxy 203.0.113.8:80;", true) + " }\n"
         + (p.ki("mute") ? " server quiet {\n listen_port 8081;\n server_name default;\n" + src + " }\n" : std::string()) + "}\n";
    if (srt) conf += "srt {\n server s {\n listen_port 9000;\n transport srt;\n" + common + src + " }\n}\n";
    dns_set("up.test", "203.0.113.7");
    start_server(conf);
    on_idle([] { if (!W.pubs.empty() || !W.plays.empty()) W.track(); });
    auto l1 = actor_listen("198.51.100.1", 8001), l2 = actor_listen("203.0.113.7", 80), l3 = actor_listen("203.0.113.8", 80);
    spawn("up1", [l1] { upstream(l1, true); }); spawn("up2", [l2] { upstream(l2, false); });
    if (leak) spawn("up3", [l3] { upstream(l3, false); }); else spawn("up3", [l3] { pattern_origin(l3); });
    g_next_sample = T0 - 50000;
    if (leak) on_idle([] { if (now() >= g_next_sample && g_samples.size() <= (size_t) g_rounds) { sample(); g_next_sample = 3000000 + g_samples.size() * g_round_len - 100000; if (g_verbose) { auto& s = g_samples.back(); vlog("SAMPLE threads %zu fds %zu conds %zu srt %zu blocks %lld bytes %lld %s", s.threads, s.fds, s.conds, s.srt, (long long) s.blocks, (long long) s.bytes, heap_top().c_str()); if (g_samples.size() > 2) heap_dump(); if (g_samples.size() >= 2) heap_mark(); } } });
    if (leak) at(T0 + g_rounds * g_round_len, [] {});
    // what OpenSSL sets up once belongs to no round
    if (leak) at(50000, [] { spawn("warm", [] { Op o; o.id = 4000; o.set("host", "p.tls.com").set("link", "clean"); Rng r(1); auto c = dial(o, TP, "tls", r); if (c) { c->write("GET /h/1 HTTP/1.1\r\nHost: p.tls.com\r\n\r\n"); char b[4096]; while (c->read(b, sizeof b, 1000000) > 0) {} c->close(); } }); });
    if (leak) at(1000000, [] { spawn("steady", [] { steady(3000000 + g_rounds * g_round_len + 1000000, g_plan.ki("mute")); }); });
    run_ops(q, T0, leak ? 0 : 30000000, 900000000, 6000000, [leak](const Op& op) {
        std::string key = op.s("host") + op.s("path");
        bool can = op.i("canary"); const std::string& k = op.kind;
        auto pubm = [&] { auto x = std::make_shared<Pub>(); x->id = op.id; x->key = key; W.add(x); return x; };
        auto playm = [&] { auto x = std::make_shared<Play>(); x->id = op.id; x->key = key; W.plays.push_back(x); return x; };
        auto px = [&] { auto x = std::make_shared<Pub>(); x->id = op.id; return x; };
        if (k == "raw") raw(op); else if (k == "flood") flood(op); else if (k == "xplay") xplay(op, "tcp", HP); else if (k == "xget") xget(op);
        else if (k == "sraw") sraw(op); else if (k == "xsplay") xplay(op, "srt", SP);
        else if (k == "xpub") actor_publish(op, px(), HP);
        else if (k == "xtpub") pub_ts(op, px(), false); else if (k == "xspub") pub_ts(op, px(), true);
        else if (k == "pub") { auto x = pubm(); actor_publish(op, x, HP); if (can && !x->c) violation("C14", "the server no longer accepts connections"); }
        else if (k == "play") { auto x = playm(); actor_play(op, x, HP); if (can) { int st = x->head_status(); if (st != 200) violation("C14", "after the faults a player of %s gets status %d and %zu bytes", key.c_str(), st, x->rx.size()); else { count("canary.play"); g_shm->nontrivial = 1; } } }
        else if (k == "spub") { auto x = pubm(); pub_ts(op, x, true); if (can && !x->c) violation("C14", "the server no longer accepts SRT sessions"); }
        else if (k == "splay") { auto x = playm(); play_raw(op, x); if (can) { if (x->rx.size() < 376) violation("C14", "after the faults an SRT player of %s gets %zu bytes", key.c_str(), x->rx.size()); else count("canary.srt"); } }
        else if (k == "cedge") cedge(op); else if (k == "cget") { tls_get(op); count("canary.tls"); }
        if (leak && g_samples.size() == 1) g_shm->nontrivial = 1;
    });
    W.verify_all();
    if (!leak) {
        if (g_stop_why == "done" && tcp_server_open() > 0 && !p.ki("sysfault")) violation("C13", "%zu connections still held by the server after every client left", tcp_server_open());
        return;
    }
    // C13: every round ends where the first began
    if (g_samples.size() < 3) return;
    const Sample& b = g_samples[0];
    for (size_t i = 1; i < g_samples.size(); ++i) {
        const Sample& s = g_samples[i];
        if (s.fds > b.fds) { violation("C13", "%zu descriptors are open after all clients left, %zu before they came (round %zu)", s.fds, b.fds, i); break; }
        if (s.threads > b.threads) { violation("C13", "%zu coroutines are left after all clients left, %zu before they came (round %zu)", s.threads, b.threads, i); break; }
        if (s.conds > b.conds) { violation("C13", "%zu condition variables are left after all clients left, %zu before they came (round %zu)", s.conds, b.conds, i); break; }
        if (s.srt > b.srt) { violation("C13", "%zu SRT sockets are left after all clients left, %zu before they came (round %zu)", s.srt, b.srt, i); break; }
    }
    i64 most = 0; size_t at_ = 0;
    for (size_t i = 2; i < g_samples.size(); ++i) if (g_samples[i].blocks - g_samples[1].blocks > most) { most = g_samples[i].blocks - g_samples[1].blocks; at_ = i; }
    bool grows = g_samples.size() >= 4;
    for (size_t i = 2; i < g_samples.size(); ++i) if (g_samples[i].blocks <= g_samples[i - 1].blocks) grows = false;
    if (most >= 3) violation("C13", "%lld heap blocks more than after the first round are still held after round %zu of the same load", (long long) most, at_);
    if (grows) violation("C13", "heap blocks grow with every round: %lld, %lld, %lld", (long long) g_samples[1].blocks, (long long) g_samples[2].blocks, (long long) g_samples[3].blocks);
}
}
