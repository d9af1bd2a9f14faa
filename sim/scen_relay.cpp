// HTTP-FLV publishing and playing through a source-role server.
#include "world.hpp"
#include "shm.hpp"
namespace sim {
static const int PORT = 8080;
struct KeyDef { const char* host; const char* path; };
static const KeyDef KEYS[] = {
    {"live.com", "/live/s1"}, {"live.com", "/live/s2"}, {"live.com", "/live/s11"}, {"b.com", "/live/s1"},
    {"x.w.com", "/live/s1"}, {"y.w.com", "/live/s1"}, {"live.com", "/s1"}, {"live.com", "/live/s1/s1"},
    // names that look like each other or like a format
    {"live.com", "/live/s1.flv"}, {"live.com", "/live/s1.flv.s1"}, {"live.com", "/live/s1.1"}, {"live.com", "/live/S1"}, {"live.com", "/live/flv"}, {"live.com", "/live.flv/s1"}};
static const int NKEY = 14;

void relay_gen(Plan& p, Rng& r) {
    std::string f = p.prop;
    int nk = f == "C03" ? (int) r.range(2, 5) : f == "C04" ? (int) r.range(1, 2) : (int) r.range(1, 3);
    std::vector<int> keys; for (int i = 0; i < nk; ++i) { int k = (int) r.below(r.chance(50) ? 8 : NKEY); bool dup = false; for (int x : keys) dup |= x == k; if (!dup) keys.push_back(k); }
    bool tmo = f == "C12";
    u64 rto = tmo ? r.range(1, 12) * 1000000 : r.pick(std::vector<u64>{5000000, 20000000, 60000000});
    u64 sto = tmo ? r.range(1, 12) * 1000000 : r.pick(std::vector<u64>{5000000, 20000000});
    p.k["recv_timeout"] = std::to_string(rto); p.k["send_timeout"] = std::to_string(sto);
    int cpu = r.chance(30); if (cpu) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    u64 span = r.range(2, 12) * 1000000;
    int np = f == "C04" ? (int) r.range(2, 9) : f == "C11" ? (int) r.range(1, 3) : (int) r.range(1, 4);
    for (int i = 0; i < np; ++i) {
        const KeyDef& k = KEYS[r.pick(keys)];
        u64 t = i == 0 ? 0 : r.below(span);
        if (f != "C04" && i && i < (int) keys.size()) { t = r.below(500000); }
        const KeyDef& kk = (f != "C04" && i < (int) keys.size()) ? KEYS[keys[i]] : k;
        Op& o = p.op("pub", t);
        o.set("host", kk.host).set("path", kk.path);
        bool deep = r.chance(6);                 // long enough for a player to be many hundred tags behind
        i64 n = r.chance(15) ? r.range(0, 5) : deep ? r.range(300, 1600) : r.range(10, 120);
        o.set("n", n);
        o.set("maxbody", deep ? 100 : r.pick(std::vector<i64>{50, 600, 3000, 3000, 20000}));
        o.set("pace", deep ? 2000 : r.pick(std::vector<i64>{0, 2000, 20000, 100000}));
        o.set("burst", r.pick(std::vector<i64>{1, 1, 3, 20}));
        o.set("mode", r.pick(std::vector<std::string>{"raw", "raw", "chunked", "cl"}));
        std::string end = r.pick(std::vector<std::string>{"fin", "fin", "rst", "half", "garbage", "linger", "linger", "hang"});
        if (!tmo && end == "hang" && r.chance(60)) end = "linger";
        o.set("end", end);
        if (end == "linger") o.set("linger", r.below(std::min<u64>(rto, 8000000)));
        if (r.chance(tmo ? 50 : 12) && n > 0) { o.set("gap_at", r.below(n)); o.set("gap", (i64) (r.chance(50) ? rto * (90 + r.below(8)) / 100 : tmo ? rto * (103 + r.below(60)) / 100 : rto / 2)); }
        if (r.chance(12) && n > 2) { o.set("stall_at", r.below(n)); o.set("stall", r.range(100000, std::min<i64>(4000000, rto * 7 / 10))); o.set("stall_dir", r.range(1, 3)); }
        o.set("link", r.chance(8) ? "tiny" : "rand");
        if (r.chance(20)) o.set("query", r.pick(std::vector<std::string>{"a=1", "k=v&x=y", "t=1.flv", ""}));
        if (r.chance(15)) o.set("hport", 8080);
    }
    for (size_t i = 0, n = p.ops.size(); i < n; ++i) if (p.ops[i].i("n") > 200 && r.chance(80)) {     // a player that falls behind and catches up again
        Op b = p.ops[i]; Op& o = p.op("play", b.t + r.below(600000));
        i64 s = r.below(400000);
        o.set("host", b.s("host")).set("path", b.s("path")).set("stop", s).set("resume", s + (i64) (sto * r.range(30, 90) / 100)).set("snd", r.pick(std::vector<i64>{1200, 4096})).set("rcv", 1200).set("dur", (i64) (span + 45000000));
    }
    int nv = (int) r.range(1, f == "C15" ? 8 : 6);
    for (int i = 0; i < nv; ++i) {
        const KeyDef& k = r.chance(92) ? KEYS[r.pick(keys)] : KEYS[r.below(NKEY)];
        std::string host = k.host, path = k.path; u64 at = r.chance(15) ? r.below(30000) : r.below(span);
        if (r.chance(55)) { const Op& b = p.ops[r.below(np)]; host = b.s("host"); path = b.s("path"); at = b.t + r.below(std::min<u64>(span, 20000 + b.i("n") * b.i("pace") / b.i("burst", 1))); }      // while it is there
        Op& o = p.op("play", at);
        o.set("host", host).set("path", path);
        o.set("dur", r.chance(20) ? r.range(200000, 3000000) : (i64) (span + 25000000));
        if (r.chance(20)) o.set("close", "rst");
        if (r.chance(f == "C15" || tmo ? 45 : 15)) {
            switch (r.below(3)) {
                case 0: o.set("slow", r.range(1000, 200000)); o.set("chunk", r.range(1, 3000)); o.set("snd", r.pick(std::vector<i64>{1200, 4096, 16384})); o.set("rcv", 1200); break;
                case 1: o.set("stop", r.below(span)); o.set("snd", r.pick(std::vector<i64>{1200, 4096})); o.set("rcv", 1200); break;
                case 2: { i64 s = r.below(span); o.set("stop", s); o.set("resume", s + (i64) (r.chance(50) ? sto * (r.range(30, 95)) / 100 : sto * r.range(101, 300) / 100)); o.set("snd", 4096); o.set("rcv", 1200); break; }
            }
        }
        if (r.chance(20)) o.set("query", r.pick(std::vector<std::string>{"a=1", "k=v&x=y", "t=1.flv"}));
        if (r.chance(15)) o.set("hport", 8080);
        if (r.chance(10)) o.set("method", r.pick(std::vector<std::string>{"HEAD", "PUT", "OPTIONS"}));
    }
    if (r.chance(5)) switch (r.below(5)) {       // many of something
        case 0: case 1: {                        // players of one stream
            Op b = p.ops[0]; int n = (int) r.range(20, 110); u64 herd = r.below(span); bool all = r.chance(50);
            for (auto& o : p.ops) if (o.kind == "pub") { o.set("n", std::min<i64>(o.i("n"), 60)); o.set("maxbody", std::min<i64>(o.i("maxbody"), 600)); }
            for (int i = 0; i < n; ++i) { Op& o = p.op("play", all ? herd + r.below(5000) : r.below(span)); o.set("host", b.s("host")).set("path", b.s("path")).set("dur", r.chance(20) ? r.range(100000, 3000000) : (i64) (span + 25000000)); if (r.chance(10)) o.set("close", "rst"); }
            break;
        }
        case 2: {                                // streams
            int n = (int) r.range(15, 60);
            for (int i = 0; i < n; ++i) {
                u64 t = r.below(span / 2); std::string path = "/live/m" + std::to_string(i * i);
                Op& o = p.op("pub", t); o.set("host", "live.com").set("path", path).set("n", r.range(3, 25)).set("maxbody", 300).set("pace", r.pick(std::vector<i64>{20000, 100000})).set("end", r.pick(std::vector<std::string>{"fin", "rst", "linger"})).set("linger", r.below(2000000));
                Op& v = p.op("play", t + r.below(1500000)); v.set("host", "live.com").set("path", path).set("dur", (i64) (span + 25000000));
            }
            break;
        }
        case 3: {                                // publishers of one name, one after the other
            Op b = p.ops[0]; int n = (int) r.range(10, 60); u64 step = r.range(20000, 300000);
            for (int i = 0; i < n; ++i) {
                Op& o = p.op("pub", 1000000 + i * step); o.set("host", b.s("host")).set("path", b.s("path")).set("n", r.range(0, 8)).set("maxbody", 300).set("pace", r.pick(std::vector<i64>{0, 2000, 20000})).set("end", r.pick(std::vector<std::string>{"fin", "rst", "half"}));
                if (r.chance(40)) { Op& v = p.op("play", o.t + r.below(100000)); v.set("host", b.s("host")).set("path", b.s("path")).set("dur", r.chance(50) ? r.range(100000, 3000000) : (i64) 25000000); }
            }
            break;
        }
        case 4: for (auto& o : p.ops) if (o.kind == "pub") { o.set("n", std::min<i64>(o.i("n"), 20)); o.set("maxbody", r.range(60000, 1000000)); } break;      // bytes
    }
    if (r.chance(10)) { std::string pad = "/" + std::string(r.range(100, 1400), 'L'); for (auto& o : p.ops) if (o.kind == "pub" || o.kind == "play") { o.set("path", o.s("path") + pad); } }
    if (f == "C11") {
        int nd = (int) r.range(1, 5);
        for (int i = 0; i < nd; ++i) {
            Op& o = p.op("denied", r.below(span));
            int w = (int) r.below(4);
            o.set("host", w == 0 ? "noflv.com" : w == 1 ? "edge.com" : w == 2 ? "nopub.com" : "flvonly.com").set("path", r.pick(std::vector<std::string>{"/live/s1", "/live/d"}));
            if (w == 3) o.set("ext", r.pick(std::vector<std::string>{"ts", "mp4", "", "fl", "lv", "f", "flvx", "FLV", "all"}));
            if (w == 0 && r.chance(40)) o.set("ext", r.pick(std::vector<std::string>{"", "t", "s", "flv.t", "mp4", "tsx"}));
            o.set("body", r.range(0, 3));
            o.set("early", r.chance(40));
        }
    }
    if (tmo) {
        int nd = (int) r.range(1, 4);
        for (int i = 0; i < nd; ++i) { Op& o = p.op("idle", r.below(span)); o.set("bytes", r.below(40)); o.set("drip", r.chance(40) ? (i64) (rto * r.range(20, 95) / 100) : 0); o.set("ndrip", r.range(1, 4)); }
    }
}

static void denied(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xde1));
    auto c = dial(op, PORT, "tcp", r); if (!c) return;
    std::string head = "POST " + req_target(op) + " HTTP/1.1\r\nHost: " + op.s("host") + "\r\n\r\n";
    auto tags = make_stream(r, hash3(g_seed, op.id, 7), 10, 300);
    std::string body = flv_header(); uint32_t prev = 0; for (auto& t : tags) { body += flv_tag(t, prev); prev = 11 + t.body.size(); }
    if (op.i("early")) head += op.i("body") ? body : "";
    if (!c->write(head)) return;
    HttpMsg m; int rc = read_head(*c, m, 5000000);
    if (rc == 1) {
        count("denied.403");
        if (m.status != 403) violation("C11", "publish to %s%s answered %d instead of 403", op.s("host").c_str(), req_target(op).c_str(), m.status);
    } else if (rc == -2) violation("C11", "publish to %s%s was not refused", op.s("host").c_str(), req_target(op).c_str());
    else if (!op.i("early")) violation("C11", "publish to %s%s: connection closed without the 403", op.s("host").c_str(), req_target(op).c_str());
    // whatever it sends now, no stream may come into being
    if (rc == 1 && !op.i("early") && op.i("body") > 1) c->write(body);
    sleep_us(r.below(300000));
    Op po = op; po.id = op.id; po.set("cno", 3); po.set("ext", "flv"); po.set("link", "clean");
    auto q = dial(po, PORT, "tcp", r);
    if (q) {
        // a play of the refused name must not find media (edge.com has no reachable origin)
        q->write("GET " + req_target(po) + " HTTP/1.1\r\nHost: " + op.s("host") + "\r\n\r\n");
        HttpMsg pm; int prc = read_head(*q, pm, 30000000);
        if (prc == 1 && pm.status == 200) violation("C11", "a refused publish left a playable stream at %s%s", op.s("host").c_str(), req_target(po).c_str());
        if (prc != 1) violation("C11", "play of a refused stream: no answer (%d)", prc);
        q->close();
    }
    c->close();
    g_shm->nontrivial = 1;
}
static void idle_conn(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xde2));
    auto c = dial(op, PORT, "tcp", r); if (!c) return;
    std::string junk = "GET /live/s1.flv HTTP/1.1\r\nHost: live.com\r\nX-P: 1234567890";
    size_t o = op.i("bytes"); c->write(junk.data(), o);
    if (op.i("drip")) for (int i = 0; i < op.i("ndrip") && !c->peer_gone(); ++i) { sleep_us(op.i("drip")); if (c->peer_gone()) break; c->write(junk.data() + o, 1); o++; }
    char b[64]; ssize_t n = c->read(b, 64, W.recv_timeout + 10000000);
    auto& d = c->tcp()->e[1];
    u64 last = d.deliveries.empty() ? 0 : d.deliveries.back().first;
    if (n == -2 || (n > 0)) violation("C12", "idle connection %d still held %.3f s after its last bytes (receive timeout %.1f s)", op.id, (now() - last) / 1e6, W.recv_timeout / 1e6);
    else if (last && !c->end_seen() && d.closed_at + 1000 < last + W.recv_timeout) violation("C12", "idle connection %d dropped %.3f s after its last bytes (receive timeout %.1f s)", op.id, (d.closed_at - last) / 1e6, W.recv_timeout / 1e6);
    count("idle.dropped");
    c->close();
}

void relay_run(const Plan& p) {
    W.recv_timeout = p.ki("recv_timeout"); W.send_timeout = p.ki("send_timeout");
    std::string conf = "http {\n server main {\n listen_port " + std::to_string(PORT) + ";\n server_name default;\n recv_timeout " + p.ks("recv_timeout") + ";\n send_timeout " + p.ks("send_timeout") + ";\n";
    auto host = [&](const char* n, const char* extra) { conf += std::string(" host ") + n + " {\n enabled on;\n type stream;\n " + extra + "\n }\n"; };
    host("live.com", "role source; edge_avformat all;");
    host("b.com", "role source; edge_avformat all;");
    host("*.w.com", "role source; edge_avformat flv;");
    host("noflv.com", "role source; edge_avformat ts;");
    host("flvonly.com", "role source; edge_avformat flv;");
    host("nopub.com", "role proxy; edge_avformat all;");
    host("edge.com", "role edge; pass_proxy 203.0.113.9:80; edge_avformat all;");
    conf += " }\n}\n";
    start_server(conf);
    on_idle([] { W.track(); });
    u64 settle = std::max<u64>(std::max(W.recv_timeout, W.send_timeout), 10000000) + 120000000;
    run_ops(p, 20000, settle, 900000000, 3000000, [](const Op& op) {
        Op o = op; std::string key = op.s("host") + op.s("path");
        if (op.has("hport")) o.set("host", op.s("host") + ":" + op.s("hport"));
        if (op.kind == "pub") { auto q = std::make_shared<Pub>(); q->id = op.id; q->key = key; W.add(q); actor_publish(o, q, PORT); }
        else if (op.kind == "play") { auto q = std::make_shared<Play>(); q->id = op.id; q->key = key; W.plays.push_back(q); actor_play(o, q, PORT); }
        else if (op.kind == "denied") denied(o);
        else if (op.kind == "idle") idle_conn(o);
    });
    W.verify_all();
    if (g_stop_why == "done" && tcp_server_open() > 0) violation("C13", "%zu connections still held by the server after every client left", tcp_server_open());
    u64 tags = 0; for (auto& q : W.plays) tags += q->ntags;
    if (p.prop != "C11" && tags > 0) g_shm->nontrivial = 1;
}
}
