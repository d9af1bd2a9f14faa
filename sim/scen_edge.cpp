// Edge role: players make the server pull streams from origin servers, which fail in every way.
#include "world.hpp"
#include "shm.hpp"
#include <algorithm>
namespace sim {
static const int PORT = 8080;
static const u64 EDGE_TMO = 10000000;       // documented limit of one upstream attempt and of waiting for it
struct OriginDef { const char* host; const char* pass; const char* ip; int port; const char* vhost; };
static const OriginDef ORG[] = {
    {"e1.com", "198.51.100.1:8001", "198.51.100.1", 8001, "198.51.100.1"},
    {"e2.com", "origin.test", "198.51.100.2", 80, "origin.test"},
    {"x.w.com", "198.51.100.3:9000", "198.51.100.3", 9000, "198.51.100.3"},
    {"nodns.com", "nowhere.test:80", "", 80, ""}};
static const char* PATHS[] = {"/live/s1", "/live/s2", "/live/s11", "/live/s1.flv", "/live/s1.flv.s2"};

void edge_gen(Plan& p, Rng& r) {
    bool c6 = p.prop == "C06" || p.prop == "C13";
    p.k["recv_timeout"] = "60000000"; p.k["send_timeout"] = "20000000";
    if (r.chance(25)) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    if (c6 && r.chance(25)) p.faults["connect"] = r.range(1, 40);
    if (c6 && r.chance(15)) p.faults["dns"] = r.range(5, 60);
    if (c6 && r.chance(15)) p.faults["socket"] = r.range(1, 25);
    u64 span = r.range(2, 30) * 1000000;
    int nh = (int) r.range(1, 2);
    std::vector<std::pair<int, int>> keys;
    for (int i = 0; i < nh; ++i) keys.push_back({r.chance(c6 ? 4 : 0) ? 3 : (int) r.below(3), (int) r.below(5)});
    if (r.chance(50)) keys.push_back({keys[0].first, (int) r.below(5)});
    for (auto& k : keys) {
        Op& o = p.op("origin", 0); o.set("h", k.first).set("mode", c6 && r.chance(50) ? r.pick(std::vector<std::string>{"refuse", "blackhole", "s404", "s302", "s500", "stall", "close", "rst", "badhead", "bighead", "badbody", "silent", "drip"}) : "ok");
        o.set("n", r.chance(20) ? r.range(0, 6) : r.range(10, 120)).set("pace", r.pick(std::vector<i64>{0, 5000, 50000, 200000}));
    }
    if (c6) {
        int n = (int) r.range(0, 3);
        for (int i = 0; i < n; ++i) {
            Op& o = p.op("origin", r.below(span)); o.set("h", r.pick(keys).first);
            o.set("mode", r.chance(50) ? "ok" : r.pick(std::vector<std::string>{"refuse", "blackhole", "s404", "s302", "s500", "stall", "close", "rst", "badhead", "bighead", "badbody", "silent", "drip"}));
            o.set("n", r.range(5, 120)).set("pace", r.pick(std::vector<i64>{0, 5000, 50000, 200000}));
        }
    }
    int nv = (int) r.range(1, 8);
    u64 herd = r.below(span);
    for (int i = 0; i < nv; ++i) {
        auto& k = r.pick(keys);
        Op& o = p.op("play", r.chance(40) ? herd + r.below(r.chance(50) ? 2000 : 1500000) : r.below(span));
        o.set("host", ORG[k.first].host).set("path", PATHS[k.second]);
        o.set("dur", r.chance(20) ? r.range(100000, 4000000) : (i64) (span + 30000000));
        if (r.chance(20)) o.set("close", "rst");
        if (r.chance(12)) { o.set("slow", r.range(1000, 200000)); o.set("chunk", r.range(1, 3000)); o.set("snd", 4096); o.set("rcv", 1200); }
        if (r.chance(20)) o.set("query", r.pick(std::vector<std::string>{"a=1", "k=v&x=y", "t=1.flv"}));
    }
    if (r.chance(4)) {                           // a crowd
        auto& k = r.pick(keys); int n = (int) r.range(20, 80); bool all = r.chance(60);
        for (int i = 0; i < n; ++i) { Op& o = p.op("play", all ? herd + r.below(3000) : r.below(span)); o.set("host", ORG[k.first].host).set("path", PATHS[k.second]).set("dur", r.chance(20) ? r.range(100000, 4000000) : (i64) (span + 30000000)); if (r.chance(10)) o.set("close", "rst"); }
    }
    if (r.chance(40)) { Op& o = p.op("play", span + r.range(15, 40) * 1000000); auto& k = r.pick(keys); o.set("host", ORG[k.first].host).set("path", PATHS[k.second]).set("dur", 30000000); }
    if (r.chance(20)) {                          // an ordinary stream next to it
        Op& o = p.op("pub", 0); o.set("host", "live.com").set("path", "/live/s1").set("n", 60).set("pace", 20000);
        Op& v = p.op("play", r.below(2000000)); v.set("host", "live.com").set("path", "/live/s1").set("dur", 40000000);
    }
}

struct OriginState {
    std::vector<const Op*> phases;            // by time
    std::shared_ptr<Listener> l; int h = 0; u64 nconn = 0;
    const Op* cur(u64 t) const { const Op* c = nullptr; for (auto o : phases) if (o->t + 20000 <= t || !c) c = o; return c; }
    // was every moment of [a,b] under a healthy phase?
    bool ok_during(u64 a, u64 b) const {
        for (size_t i = 0; i < phases.size(); ++i) {
            u64 s = i == 0 ? 0 : phases[i]->t + 20000, e = i + 1 < phases.size() ? phases[i + 1]->t + 20000 : NEVER;
            if (phases[i]->s("mode", "ok") != "ok" && s <= b && a <= e) return false;
        }
        return !phases.empty();
    }
};
static std::map<int, OriginState>* g_org;
static std::vector<PPub>* g_pulls;
static int g_pull_id = 1000;

static void origin_conn(OriginState* os, std::shared_ptr<Tcp> t, u64 no) {
    Rng r(hash3(g_seed, no * 16 + os->h, 0x0419));
    PConn c = std::make_shared<TcpConn>(t, 1);
    const Op* ph = os->cur(now());
    std::string mode = ph->s("mode", "ok");
    std::string head; char b[512];
    while (head.find("\r\n\r\n") == std::string::npos) {
        ssize_t n = c->read(b, sizeof b, 60000000);
        if (n <= 0) { c->close(); return; }
        head.append(b, n);
    }
    HttpMsg m;
    if (!parse_head(head, m)) { violation("C05", "malformed upstream request"); c->close(); return; }
    size_t s1 = m.start.find(' '), s2 = m.start.rfind(' ');
    std::string tgt = m.start.substr(s1 + 1, s2 - s1 - 1), path = tgt.substr(0, tgt.find('?'));
    if (m.start.compare(0, 4, "GET ") || m.start.substr(s2) != " HTTP/1.1") violation("C05", "upstream request line [%s]", m.start.c_str());
    const std::string* vh = m.get("Host");
    if (!vh || *vh != ORG[os->h].vhost) violation("C05", "upstream request carries Host [%s]", vh ? vh->c_str() : "");
    bool asked = false;
    for (auto& q : W.plays) if (q->key + ".flv" == ORG[os->h].host + path) asked = true;
    if (!asked) { violation("C05", "origin %s was asked for %s, which no player requested", ORG[os->h].host, tgt.c_str()); c->close(); return; }
    auto p = std::make_shared<Pub>(); p->id = g_pull_id++; p->upstream = true; p->c = c; p->key = ORG[os->h].host + path.substr(0, path.size() - 4);
    g_pulls->push_back(p);
    count(("up." + mode).c_str());
    if (mode != "ok") count(("fault.up_" + mode).c_str());
    auto drain = [&](u64 lim) { u64 dl = now() + lim; ssize_t n; while (now() < dl && (n = c->read(b, sizeof b, dl - now())) > 0) {} };
    if (r.chance(30)) sleep_us(r.below(mode == "ok" ? 400000 : 3000000));
    auto say = [&](const std::string& s) { bool ok; write_paced(*c, s, r, r.chance(20) ? 1 : 0, &ok); return ok; };
    if (mode == "s404" || mode == "s302" || mode == "s500") {
        std::string st = mode == "s404" ? "404 Not Found" : mode == "s302" ? "302 Found" : "500 Internal Server Error";
        say("HTTP/1.1 " + st + "\r\nContent-Length: 0\r\n" + (mode == "s302" ? "Location: http://198.51.100.9/x\r\n" : "") + "\r\n");
        drain(30000000); c->close(); return;
    }
    if (mode == "stall") { drain(60000000); c->close(); return; }
    if (mode == "close") { c->close(); return; }
    if (mode == "rst") { c->reset(); return; }
    if (mode == "badhead") { say(r.chance(50) ? "garbage and nothing else\r\n\r\n" : "HTTP/x 200\r\n\r\n"); drain(30000000); c->close(); return; }
    if (mode == "bighead") { say("HTTP/1.1 200 OK\r\nX: " + std::string(3000, 'x') + "\r\n\r\n"); drain(30000000); c->close(); return; }
    // a 200 answer with a stream
    u64 owner = hash3(g_seed, 0xed9e + os->h, no);
    size_t n = ph->i("n", 50); u64 pace = ph->i("pace", 20000);
    if (mode == "badbody" || mode == "silent") n = r.below(8);
    p->tags = make_stream(r, owner, n, r.pick(std::vector<size_t>{50, 600, 3000}));
    std::string enc = mode == "ok" ? r.pick(std::vector<std::string>{"raw", "raw", "chunked", "cl"}) : "raw";
    std::string all = flv_header(); uint32_t prev = 0;
    for (auto& g : p->tags) { all += flv_tag(g, prev); prev = 11 + g.body.size(); }
    std::string h = std::string(r.chance(92) ? "HTTP/1.1 200 OK" : r.chance(50) ? "HTTP/1.0 200 OK" : "HTTP/1.1 200") + "\r\nServer: origin" + (r.chance(3) ? " \t" : "") + "\r\nContent-Type: video/x-flv\r\n";
    if (enc == "chunked") h += r.chance(95) ? "Transfer-Encoding: chunked\r\n" : "transfer-encoding:Chunked \r\n";
    if (enc == "cl") h += "Content-Length: " + std::to_string(all.size()) + "\r\n";
    h += "\r\n";
    p->hdr_wpos = c->wpos() + h.size();
    W.add(p);
    if (mode == "drip") { for (char ch : h) { if (!c->write(std::string(1, ch))) break; sleep_us(r.below(40000)); } }
    else say(h);
    auto emit = [&](const std::string& d) {
        if (enc != "chunked") return c->write(d);
        size_t o = 0;
        while (o < d.size()) {
            size_t k = std::min<size_t>(d.size() - o, r.chance(50) ? d.size() : 1 + r.below(300));
            if (!c->write(chunk_head(k, r) + d.substr(o, k) + "\r\n")) return false;
            o += k;
        }
        return true;
    };
    bool ok = emit(flv_header());
    if (enc == "cl") p->end_wpos = c->wpos() - 9 + all.size();
    prev = 0;
    for (size_t i = 0; i < p->tags.size() && ok && !c->peer_gone(); ++i) {
        std::string d = flv_tag(p->tags[i], prev); prev = 11 + p->tags[i].body.size();
        p->tags[i].sent_at = now();
        if (enc == "chunked") { ok = emit(d); p->tags[i].wend = c->wpos(); } else { p->tags[i].wend = c->wpos() + d.size(); ok = c->write(d); }
        if (r.chance(70)) sleep_us(r.below(pace + 1));
        if (r.chance(1)) { tcp_stall(t.get(), r.range(100000, 3000000), 3); }
    }
    p->last_tag_at = now();
    if (mode == "silent") { p->hang = true; drain(90000000); p->end_begin = now(); c->close(); return; }
    if (mode == "badbody") { p->end_begin = now(); c->write(std::string("\0\0\0\0\x05\0\0\x04garbage....", 19)); drain(30000000); c->close(); return; }
    u64 e = r.below(4);
    if (e == 3) { sleep_us(r.below(8000000)); e = 0; }
    p->end_begin = now();
    if (c->peer_gone()) c->close();
    else if (e == 0) { if (enc == "chunked" && r.chance(50)) c->write("0\r\n\r\n"); c->close(); }
    else if (e == 1) c->reset();
    else { c->half(); drain(30000000); c->close(); }
}

void edge_run(const Plan& p) {
    W.recv_timeout = p.ki("recv_timeout", 60000000); W.send_timeout = p.ki("send_timeout", 20000000); W.edge = true;
    std::string conf = "http {\n server main {\n listen_port 8080;\n server_name default;\n recv_timeout " + std::to_string(W.recv_timeout) + ";\n send_timeout " + std::to_string(W.send_timeout) + ";\n";
    auto host = [&](const std::string& n, const std::string& extra) { conf += " host " + n + " {\n enabled on;\n type stream;\n " + extra + "\n }\n"; };
    host("live.com", "role source; edge_avformat all;");
    for (auto& o : ORG) host(!strcmp(o.host, "x.w.com") ? "*.w.com" : o.host, std::string("role edge; edge_avformat all; pass_proxy ") + o.pass + ";");
    conf += " }\n}\n";
    static std::map<int, OriginState> org; g_org = &org;
    static std::vector<PPub> pulls; g_pulls = &pulls;
    static Rng lr(hash2(p.seed, 0x11cc));
    dns_set("origin.test", "198.51.100.2");
    for (auto& o : p.ops) if (o.kind == "origin") org[o.i("h")].phases.push_back(&o);
    for (auto& kv : org) {
        OriginState* os = &kv.second; os->h = kv.first;
        std::stable_sort(os->phases.begin(), os->phases.end(), [](const Op* a, const Op* b) { return a->t < b->t; });
        if (!*ORG[os->h].ip) continue;
        os->l = actor_listen(ORG[os->h].ip, ORG[os->h].port);
        os->l->lp = random_link(lr, lr.chance(15));
        os->l->on_connect = [os] { std::string m = os->cur(now())->s("mode", "ok"); if (m == "refuse" || m == "blackhole") { count(("up." + m).c_str()); } return m == "refuse" ? 1 : m == "blackhole" ? 2 : 0; };
        spawn("origin", [os] {
            for (;;) {
                auto t = actor_accept(os->l.get(), NEVER); if (!t) continue;
                u64 no = os->nconn++;
                spawn("origin-conn", [os, t, no] { op_begin(); origin_conn(os, t, no); op_end(); });
            }
        });
    }
    start_server(conf);
    on_idle([] {
        W.track();
        // one pull per stream, and it is dropped when the origin is gone or silent
        std::map<std::string, int> open;
        for (auto& q : *g_pulls) {
            if (!q->c->srv_open()) continue;
            if (++open[q->key] > 1) violation("C05", "stream %s is pulled from its origin more than once at t=%.3f", q->key.c_str(), now() / 1e6);
            if (q->c->end_seen() && !q->tainted) { q->tainted = true; violation("C06", "pull %d of %s: the origin is gone but the pull is not released at t=%.3f", q->id, q->key.c_str(), now() / 1e6); }
            auto& dl = q->c->tcp()->e[0].deliveries; u64 last = dl.empty() ? now() : dl.back().first;
            if (q->seen_deliv == 0) { q->seen_deliv = 1; q->last_deliv = now(); }
            last = std::max(last, q->last_deliv);
            if (!q->tainted && now() > last + EDGE_TMO + W.slack) { q->tainted = true; violation("C06", "pull %d of %s: the origin is silent since t=%.3f and the pull is still held at t=%.3f", q->id, q->key.c_str(), last / 1e6, now() / 1e6); }
        }
        for (auto& q : W.plays) {
            if (!q->c || !q->head_idle || q->ans_idle || q->tainted_) continue;
            for (auto& s : W.by_key[q->key]) if (s->live && s->prev_live && q->head_idle < idle_seq()) { q->tainted_ = true; violation("C05", "player %d of %s is still waiting at t=%.3f although the stream is there", q->id, q->key.c_str(), now() / 1e6); }
            int h = -1; for (int i = 0; i < 4; ++i) if (!q->key.compare(0, strlen(ORG[i].host), ORG[i].host)) h = i;
            if (h >= 0) {                            // waiting is for a pull that is under way, nothing else
                size_t mine = 0, known = 0;
                for (auto& s : *g_pulls) if (s->c->srv_open()) { mine += s->key == q->key; known += !s->key.compare(0, strlen(ORG[h].host), ORG[h].host); }
                bool pulling = mine || (*ORG[h].ip && tcp_server_out(ORG[h].ip, ORG[h].port) > known);
                if (pulling) q->unpulled = NEVER;
                else if (q->unpulled == NEVER) q->unpulled = now();
                else if (now() > q->unpulled + 1000000 && !q->tainted_) { q->tainted_ = true; violation("C06", "player %d of %s is waiting at t=%.3f while nothing has been pulling the stream since t=%.3f", q->id, q->key.c_str(), now() / 1e6, q->unpulled / 1e6); }
            }
            if (now() > q->head_t + EDGE_TMO + W.slack && !q->tainted_) { q->tainted_ = true; violation("C06", "player %d of %s has no answer at t=%.3f, %.1f s after its request", q->id, q->key.c_str(), now() / 1e6, (now() - q->head_t) / 1e6); }
        }
    });
    run_ops(p, 20000, 100000000, 900000000, 3000000, [](const Op& op) {
        Op o = op; std::string key = op.s("host") + op.s("path");
        if (op.kind == "pub") { auto q = std::make_shared<Pub>(); q->id = op.id; q->key = key; W.add(q); actor_publish(o, q, PORT); }
        else if (op.kind == "play") { auto q = std::make_shared<Play>(); q->id = op.id; q->key = key; W.plays.push_back(q); actor_play(o, q, PORT); }
    });
    bool sysf = fault_on("connect") || fault_on("dns") || fault_on("socket");
    W.verify_all();
    u64 tags = 0, n404 = 0;
    for (auto& q : W.plays) {
        tags += q->ntags; n404 += q->status == 404;
        if (!q->c || !q->head_idle || !q->ans_idle) continue;
        int h = -1; for (int i = 0; i < 4; ++i) if (!q->key.compare(0, strlen(ORG[i].host), ORG[i].host)) h = i;
        if (h < 0) continue;
        if (q->status == 404 && h != 3 && !sysf && org.count(h) && org[h].ok_during(q->head_t > EDGE_TMO + 2000000 ? q->head_t - EDGE_TMO - 2000000 : 0, q->ans_t)) {
            bool ended = false;
            for (auto& s : pulls) if (s->key == q->key && s->dead_at != NEVER && s->dead_at + 2000000 >= q->head_t && s->dead_at <= q->ans_t) ended = true;
            if (!ended && q->ans_t < q->head_t + EDGE_TMO) violation("C06", "player %d of %s got 404 at t=%.3f although its origin was well", q->id, q->key.c_str(), q->ans_t / 1e6);
        }
        if (q->rx.empty() && q->eof) violation("C06", "player %d of %s: connection closed without an answer", q->id, q->key.c_str());
    }
    // a publisher's stream dies only with its origin
    for (auto& s : pulls) if (s->was_live && !s->hang && s->dead_at != NEVER && s->end_begin == NEVER) violation("C05", "pull %d of %s ended by the server at t=%.3f", s->id, s->key.c_str(), s->dead_at / 1e6);
    if (g_stop_why == "done" && tcp_server_open() > 0) violation("C13", "%zu connections still held by the server after every client left", tcp_server_open());
    if (p.prop == "C06" ? n404 > 0 : tags > 0) g_shm->nontrivial = 1;
}
}
