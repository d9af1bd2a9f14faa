// HTTPS: media and proxied content over TLS next to stalled, broken and hostile TLS peers.
#include "ts.hpp"
#include "shm.hpp"
#include <algorithm>
#ifndef CERTS
#define CERTS "/verif/certs"
#endif
namespace sim {
static const int PORT = 8080, TPORT = 8443;
static const char* HOSTS[] = {"a.tls.com", "b.tls.com", "x.w.tls.com", "y.w.tls.com"};
static std::string want_cn(const std::string& sni) {
    if (sni == "a.tls.com" || sni == "p.tls.com") return "a.tls.com";
    if (sni == "b.tls.com") return "b.tls.com";
    auto d = sni.find('.'); if (d != std::string::npos && sni.substr(d) == ".w.tls.com") return "*.w.tls.com";
    return "";
}
void tls_gen(Plan& p, Rng& r) {
    bool live = p.prop == "C17";
    u64 rto = r.pick(std::vector<u64>{4000000, 8000000, 20000000}), sto = r.pick(std::vector<u64>{5000000, 20000000});
    p.k["recv_timeout"] = std::to_string(rto); p.k["send_timeout"] = std::to_string(sto);
    if (r.chance(30)) { p.faults["cpu"] = r.range(1, 40); p.faults["cpu_ms"] = r.range(1, 40); }
    u64 span = r.range(2, 10) * 1000000;
    std::vector<std::string> keys; int nk = (int) r.range(1, 2);
    std::vector<const char*> hs; for (int i = 0; i < nk; ++i) hs.push_back(HOSTS[r.below(4)]);
    int np = (int) r.range(1, 2);
    for (int i = 0; i < np; ++i) {
        Op& o = p.op("pub", i ? r.below(span) : 0);
        o.set("host", hs[r.below(nk)]).set("path", "/live/s1").set("tr", r.chance(70) ? "tls" : "tcp").set("link", "tls");
        o.set("n", r.range(5, 80)).set("maxbody", r.pick(std::vector<i64>{300, 3000, 40000})).set("pace", r.pick(std::vector<i64>{2000, 20000, 100000})).set("burst", r.pick(std::vector<i64>{1, 3, 20}));
        o.set("mode", r.pick(std::vector<std::string>{"raw", "raw", "chunked"}));
        o.set("end", r.pick(std::vector<std::string>{"fin", "fin", "rst", "linger", "hang"}));
        if (o.s("end") == "linger") o.set("linger", r.below(3000000));
    }
    int nv = (int) r.range(1, 3);
    for (int i = 0; i < nv; ++i) {
        Op& o = p.op("play", r.below(span));
        o.set("host", hs[r.below(nk)]).set("path", "/live/s1").set("tr", r.chance(85) ? "tls" : "tcp").set("link", "tls");
        o.set("dur", r.chance(25) ? r.range(200000, 3000000) : (i64) (span + 25000000));
        if (r.chance(15)) { o.set("slow", r.range(1000, 100000)); o.set("chunk", r.range(200, 3000)); }
    }
    if (r.chance(3)) for (int i = (int) r.range(6, 20); i > 0; --i) { Op& o = p.op("play", r.below(span)); o.set("host", hs[0]).set("path", "/live/s1").set("tr", r.chance(85) ? "tls" : "tcp").set("link", "tls").set("dur", r.chance(25) ? r.range(200000, 3000000) : (i64) (span + 25000000)); }
    int ng = (int) r.range(0, 3);
    for (int i = 0; i < ng; ++i) { Op& o = p.op("get", r.below(span)); o.set("host", "p.tls.com").set("tr", "tls").set("link", "tls").set("n", r.range(1, 4)).set("max", r.pick(std::vector<i64>{100, 5000, 60000})).set("te", r.chance(30)).set("body", r.chance(30) ? r.range(1, 30000) : 0); }
    for (auto& o : p.ops) if (o.s("tr") == "tls" && r.chance(25)) o.set("fs", r.range(1, 2));
    int nh = (int) r.range(live ? 1 : 0, 3);
    for (int i = 0; i < nh; ++i) { Op& o = p.op("hs", r.below(span)); o.set("sni", r.pick(std::vector<std::string>{"a.tls.com", "b.tls.com", "x.w.tls.com", "zz.w.tls.com", "nocert.tls.com", "unknown.org", "", "w.tls.com", "c.a.tls.com", "p.tls.com"})).set("link", "tls"); }
    int nb = (int) r.range(live ? 1 : 0, live ? 6 : 3);
    for (int i = 0; i < nb; ++i) {
        Op& o = p.op("bad", r.chance(30) ? r.below(100000) : r.below(span));
        o.set("how", r.pick(std::vector<std::string>{"silent", "silent", "partial", "partial", "garbage", "record", "midclose", "midrst", "drip", "plainhttp", "hsfail"})).set("link", "tls");
        o.set("cut", r.below(600)).set("n", r.range(1, 400));
    }
}
// what a client that begins a handshake would send first
std::string client_hello(const Op& op) {
    struct Rec : Conn { std::string out; using Conn::write;
        bool write(const void* b, size_t n, u64) override { out.append((const char*) b, n); return true; }
        ssize_t read(void*, size_t, u64) override { return -1; } void close() override {} void reset() override {}
        u64 wpos() override { return 0; } u64 delivered() override { return 0; } bool srv_open() override { return true; } u64 srv_closed_at() override { return 0; }
        u64 srv_sent() override { return 0; } bool end_seen() override { return false; } bool peer_gone() override { return false; } };
    auto c = std::make_shared<Rec>(); tls_wrap(c, "a.tls.com", 1000000, nullptr); return c->out;
}
static void expect_drop(Conn& c, const Op& op, const char* what) {
    // nothing more comes from us: the server lets go when its receive timeout has passed
    char b[4096]; ssize_t n; while ((n = c.read(b, sizeof b, W.recv_timeout + 10000000)) > 0) {}
    End& d = c.tcp()->e[1];
    u64 last = std::max(d.last_write, d.deliveries.empty() ? 0 : d.deliveries.back().first);
    if (n == -2) violation("C17", "%s TLS peer %d still held %.3f s after its last bytes (receive timeout %.1f s)", what, op.id, (now() - last) / 1e6, W.recv_timeout / 1e6);
    count((std::string("tls.") + what).c_str());
    c.close();
}
static void bad(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xbad)); std::string how = op.s("how");
    auto c = dial(op, TPORT, "tcp", r); if (!c) return;
    std::string ch = client_hello(op);
    if (how == "silent") { expect_drop(*c, op, "silent"); return; }
    if (how == "partial") { c->write(ch.substr(0, std::min<size_t>(ch.size() - 1, op.i("cut")))); expect_drop(*c, op, "partial"); return; }
    if (how == "drip") { for (int i = 0; i < 5 && !c->peer_gone(); ++i) { c->write(ch.substr(i * 20, 20)); sleep_us(W.recv_timeout * 6 / 10); } expect_drop(*c, op, "drip"); return; }
    if (how == "garbage") { std::string g; for (int i = 0; i < op.i("n"); ++i) g += (char) r.next(); c->write(g); expect_drop(*c, op, "garbage"); return; }
    if (how == "plainhttp") { c->write("GET /live/s1.flv HTTP/1.1\r\nHost: a.tls.com\r\n\r\n"); expect_drop(*c, op, "plainhttp"); return; }
    if (how == "midclose" || how == "midrst") { c->write(ch); if (r.chance(50)) { char b[512]; c->read(b, sizeof b, 2000000); } if (how == "midclose") c->close(); else c->reset(); return; }
    if (how == "hsfail") { size_t k = std::min<size_t>(ch.size() - 1, 5 + op.i("cut")); ch[k] ^= (char) (1 + r.below(255)); c->write(ch); expect_drop(*c, op, "hsfail"); return; }
    if (how == "record") {
        auto t = tls_wrap(c, "a.tls.com", 15000000, nullptr);
        if (!t) { violation("C17", "TLS handshake %d failed", op.id); return; }
        std::string g(5, 0); g[0] = (char) (20 + r.below(5)); g[1] = 3; g[2] = 3; size_t n = op.i("n"); g[3] = (char) (n >> 8); g[4] = (char) n; for (size_t i = 0; i < n; ++i) g += (char) r.next();
        c->write(g); expect_drop(*c, op, "record"); return;
    }
}
static void hs(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x45));
    auto c = dial(op, TPORT, "tcp", r); if (!c) return;
    std::string cn, sni = op.s("sni"); u64 t0 = now();
    auto t = tls_wrap(c, sni, 15000000, &cn);
    std::string want = want_cn(sni);
    if (want.empty()) { count("tls.refused"); if (t) violation("C16", "handshake for \"%s\", which has no certificate, was given that of %s", sni.c_str(), cn.c_str()); }
    else if (!t) { violation("C16", "handshake for %s failed", sni.c_str()); violation("C17", "handshake for %s failed", sni.c_str()); }
    else if (cn != want) violation("C16", "handshake for %s was given the certificate of %s", sni.c_str(), cn.c_str());
    if (t && now() - t0 > 5000000) violation("C17", "handshake %d took %.3f s", op.id, (now() - t0) / 1e6);
    g_shm->nontrivial = 1;
    c->close();
}
static std::string pattern(u64 a, size_t n) { std::string s(n, 0); Rng q(a); for (size_t i = 0; i < n; i += 8) { u64 v = q.next(); memcpy(&s[i], &v, std::min<size_t>(8, n - i)); } return s; }
void pattern_origin(std::shared_ptr<Listener> l) {
    for (;;) {
        auto t = actor_accept(l.get(), NEVER); if (!t) return;
        spawn("origin", [t] {
            TcpConn c(t, 1); HttpMsg m; Rng r(hash2(g_seed, t->id));
            while (read_head(c, m, 60000000) == 1) {
                auto cl = m.get("Content-Length"); std::string body(cl ? strtoull(cl->c_str(), nullptr, 10) : 0, 0);
                if (body.size() && !c.read_n(&body[0], body.size(), 60000000)) break;
                unsigned long long a = 0, n = 0, te = 0; sscanf(m.start.c_str(), "%*s /o/%llu/%llu/%llu", &a, &n, &te);
                auto bid = m.get("X-Body");
                if (bid && body != pattern(strtoull(bid->c_str(), nullptr, 10), body.size())) violation("C16", "the origin got an altered request body");
                std::string d = pattern(a, n), o = "HTTP/1.1 200 OK\r\nX-A: " + std::to_string(a) + "\r\n";
                if (te) { o += "Transfer-Encoding: chunked\r\n\r\n"; size_t i = 0; char b[32]; while (i < n) { size_t k = std::min<size_t>(n - i, 1 + r.below(5000)); snprintf(b, 32, "%zx\r\n", k); o += b + d.substr(i, k) + "\r\n"; i += k; } o += "0\r\n\r\n"; }
                else o += "Content-Length: " + std::to_string(n) + "\r\n\r\n" + d;
                if (!c.write(o)) break;
            }
            c.close();
        });
    }
}
void tls_get(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x6e7));
    auto c = dial(op, TPORT, "tls", r); if (!c) return;
    for (int i = 0; i < op.i("n"); ++i) {
        u64 a = r.next() >> 1; size_t n = r.below(op.i("max") + 1); size_t bn = op.i("body") ? r.below(op.i("body")) : 0;
        std::string q = std::string(bn ? "POST" : "GET") + " /o/" + std::to_string(a) + "/" + std::to_string(n) + "/" + std::to_string(op.i("te")) + " HTTP/1.1\r\nHost: p.tls.com\r\n";
        if (bn) q += "X-Body: " + std::to_string(a ^ 1) + "\r\nContent-Length: " + std::to_string(bn) + "\r\n";
        q += "\r\n"; if (bn) q += pattern(a ^ 1, bn);
        bool ok; write_paced(*c, q, r, bn < 3000 && r.chance(20) ? 1 : 0, &ok);
        HttpMsg m; int rc = read_head(*c, m, 30000000);
        if (rc != 1 || m.status != 200) { violation("C16", "request %d.%d over TLS: no answer (%d, status %d)", op.id, i, rc, m.status); break; }
        std::string d;
        if (m.get("Transfer-Encoding")) {
            for (;;) { std::string l; char ch; while (l.size() < 20 && c->read_n(&ch, 1, 30000000)) { l += ch; if (ch == '\n') break; } size_t k = strtoul(l.c_str(), nullptr, 16); std::string x(k + 2, 0); if (l.empty() || !c->read_n(&x[0], k + 2, 30000000)) break; d += x.substr(0, k); if (!k) break; }
        } else { auto cl = m.get("Content-Length"); d.resize(cl ? strtoull(cl->c_str(), nullptr, 10) : 0); if (d.size() && !c->read_n(&d[0], d.size(), 30000000)) d.clear(); }
        if (d != pattern(a, n)) { violation("C16", "request %d.%d over TLS: the answer's body is altered (%zu of %zu bytes)", op.id, i, d.size(), n); break; }
        count("tls.get"); g_shm->nontrivial = 1;
        if (r.chance(30)) sleep_us(r.below(1000000));
    }
    c->close();
}
void tls_run(const Plan& p) {
    crypto_init();
    g_alias = "C16";
    W.recv_timeout = p.ki("recv_timeout"); W.send_timeout = p.ki("send_timeout");
    std::string common = " server_name default;\n recv_timeout " + p.ks("recv_timeout") + ";\n send_timeout " + p.ks("send_timeout") + ";\n", conf = "http {\n";
    auto hosts = [&](bool certs) {
        auto host = [&](const char* n, const char* cert, const char* extra) { conf += std::string(" host ") + n + " {\n enabled on;\n "; if (certs && *cert) conf += std::string("ssl_crt_file " CERTS "/") + cert + ".crt;\n ssl_key_file " CERTS "/" + cert + ".key;\n "; conf += std::string(extra) + "\n }\n"; };
        host("a.tls.com", "a", "type stream; role source; edge_avformat all;");
        host("b.tls.com", "b", "type stream; role source; edge_avformat all;");
        host("*.w.tls.com", "w", "type stream; role source; edge_avformat all;");
        host("nocert.tls.com", "", "type stream; role source; edge_avformat all;");
        host("p.tls.com", "a", "type proxy; role proxy; pass_proxy 203.0.113.7:80;");
    };
    conf += " server plain {\n listen_port " + std::to_string(PORT) + ";\n" + common; hosts(false);
    conf += " }\n server tls {\n listen_port " + std::to_string(TPORT) + ";\n transport https;\n" + common; hosts(true);
    conf += " }\n}\n";
    start_server(conf);
    on_idle([] { W.track(); });
    auto l = actor_listen("203.0.113.7", 80); spawn("origins", [l] { pattern_origin(l); });
    u64 settle = std::max<u64>(std::max(W.recv_timeout, W.send_timeout), 10000000) + 120000000;
    run_ops(p, 20000, settle, 900000000, 3000000, [](const Op& op) {
        std::string key = op.s("host") + op.s("path"); int port = op.s("tr") == "tls" ? TPORT : PORT;
        if (op.kind == "pub") { auto q = std::make_shared<Pub>(); q->id = op.id; q->key = key; W.add(q); actor_publish(op, q, port); }
        else if (op.kind == "play") { auto q = std::make_shared<Play>(); q->id = op.id; q->key = key; W.plays.push_back(q); actor_play(op, q, port); }
        else if (op.kind == "bad") bad(op);
        else if (op.kind == "hs") hs(op);
        else if (op.kind == "get") tls_get(op);
    });
    W.verify_all();
    if (g_stop_why == "done" && tcp_server_open() > 0) violation("C13", "%zu connections still held by the server after every client left", tcp_server_open());
    u64 tags = 0; for (auto& q : W.plays) tags += q->ntags;
    if (tags > 0) g_shm->nontrivial = 1;
}
}
