// MPEG-TS published over SRT or HTTP, played as it is over SRT and as FLV over HTTP.
#include "ts.hpp"
#include "shm.hpp"
namespace sim {
extern std::map<std::string, std::string> g_rename;
static const int HP = 8080, SP = 9000;
struct KeyDef { const char* host; const char* path; };
static const KeyDef KEYS[] = {{"live.com", "/live/s1"}, {"live.com", "/live/s2"}, {"live.com", "/live/s11"}, {"b.com", "/live/s1"}, {"x.w.com", "/live/s1"}, {"live.com", "/s1"}};

void srt_gen(Plan& p, Rng& r) {
    std::string f = p.prop;
    bool ses = f == "C20";
    std::vector<int> keys; int nk = (int) r.range(1, ses ? 2 : 3);
    for (int i = 0; i < nk; ++i) { int k = (int) r.below(6); bool d = false; for (int x : keys) d |= x == k; if (!d) keys.push_back(k); }
    u64 rto = ses ? r.range(1, 12) * 1000000 : r.pick(std::vector<u64>{5000000, 20000000});
    u64 sto = ses ? r.range(1, 12) * 1000000 : r.pick(std::vector<u64>{5000000, 20000000});
    p.k["recv_timeout"] = std::to_string(rto); p.k["send_timeout"] = std::to_string(sto); p.k["global"] = r.chance(30) ? "1" : "0";
    if (r.chance(30)) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    u64 span = r.range(2, 12) * 1000000;
    int np = ses ? (int) r.range(2, 8) : (int) r.range(1, 4);
    for (int i = 0; i < np; ++i) {
        const KeyDef& k = KEYS[i < (int) keys.size() && !ses ? keys[i] : r.pick(keys)];
        int kind = (int) r.below(10); if (f == "C18") kind = r.chance(85) ? 0 : 9;
        Op& o = p.op(kind <= 5 ? "spub" : kind <= 8 ? "tpub" : "fpub", i == 0 ? 0 : r.below(ses ? span : span / 2 + 1));
        o.set("host", k.host).set("path", k.path);
        o.set("n", r.chance(10) ? r.range(0, 4) : r.range(10, 90)); o.set("maxau", r.pick(std::vector<i64>{100, 1500, 8000, 30000}));
        o.set("pace", r.pick(std::vector<i64>{0, 1000, 5000, 20000}));
        if (o.kind == "fpub") { o.set("maxbody", 3000); o.set("mode", r.pick(std::vector<std::string>{"raw", "chunked"})); }
        else {
            o.set("av", r.pick(std::vector<i64>{3, 3, 3, 3, 1, 2})); if (r.chance(8)) o.set("hevc", 1);
            if (o.kind == "spub") { o.set("msz", r.pick(std::vector<i64>{1316, 1316, 1316, 188, 564, 1000, 100, 1300})); o.set("cap", r.pick(std::vector<i64>{8, 64, 1024})); if (r.chance(30)) o.set("loss", r.range(1, 20)); o.set("form", r.below(5)); }
            else o.set("mode", r.pick(std::vector<std::string>{"raw", "chunked", "cl"}));
        }
        std::string end = r.pick(std::vector<std::string>{"fin", "fin", "rst", "garbage", "linger", "linger", "hang"});
        if (!ses && end == "hang") end = "linger";
        o.set("end", end); if (end == "linger") o.set("linger", r.below(std::min<u64>(rto, 8000000)));
        if (ses && r.chance(40)) { o.set("gap_at", r.below(1000)); o.set("gap", (i64) (r.chance(50) ? rto * (80 + r.below(15)) / 100 : rto * (103 + r.below(60)) / 100)); }
    }
    int nv = (int) r.range(1, 6);
    for (int i = 0; i < nv; ++i) {
        const KeyDef& k = r.chance(90) ? KEYS[r.pick(keys)] : KEYS[r.below(6)];
        bool raw = f == "C18" ? r.chance(85) : f == "C19" ? r.chance(15) : r.chance(50);
        Op& o = p.op(raw ? "splay" : "play", r.chance(15) ? r.below(30000) : r.below(span));
        o.set("host", k.host).set("path", k.path);
        o.set("dur", r.chance(20) ? r.range(200000, 3000000) : (i64) (span + 25000000));
        if (r.chance(20)) o.set("close", "rst");
        if (raw) { o.set("cap", r.pick(std::vector<i64>{8, 64, 1024})); if (r.chance(30)) o.set("loss", r.range(1, 20)); o.set("form", r.below(4)); }
        if (r.chance(ses ? 30 : 15)) {
            i64 s = r.below(span);
            if (raw) { o.set("stop", s); o.set("cap", 8); if (r.chance(60)) o.set("resume", s + (i64) (r.chance(50) ? sto * r.range(30, 90) / 100 : sto * r.range(101, 300) / 100)); }
            else { o.set("slow", r.range(1000, 100000)); o.set("chunk", r.range(100, 3000)); o.set("snd", 4096); o.set("rcv", 1200); }
        }
    }
    if (r.chance(4)) {                           // a crowd
        const KeyDef& k = KEYS[r.pick(keys)]; int n = (int) r.range(10, 40); u64 at = r.below(span);
        for (int i = 0; i < n; ++i) { Op& o = p.op(r.chance(f == "C19" ? 30 : 70) ? "splay" : "play", r.chance(50) ? at + r.below(20000) : r.below(span)); o.set("host", k.host).set("path", k.path).set("dur", r.chance(20) ? r.range(200000, 3000000) : (i64) (span + 25000000)); if (o.kind == "splay") o.set("cap", 64).set("form", r.below(4)); }
    }
    if (ses) {
        int nb = (int) r.range(1, 6);
        for (int i = 0; i < nb; ++i) { Op& o = p.op("bad", r.below(span)); o.set("w", r.below(12)); o.set("send", r.chance(60)); o.set("key", r.below(6)); if (r.chance(20)) o.set("vanish", 1); }
    }
}
std::string srt_sid(const Op& o, const char* mode) {
    std::string n = o.s("host") + o.s("path"), m = mode; int f = (int) o.i("form", 0);
    switch (f) {
        case 0: return "#!::h=" + n + ",m=" + m;
        case 1: return "#!::m=" + m + ",h=" + n;
        case 2: return "#!::r=x,h=srt://" + n + ",u=me,m=" + m + ",";
        case 3: return "#!::h=" + n + ",m=" + m + ",";
        default: return "#!::h=" + n;            // publishing is the default
    }
}
void pub_ts(const Op& op, PPub p, bool srt) {
    Rng r(hash3(g_seed, op.id, 0x5a1));
    TsOpt to; to.units = op.i("n"); to.max_au = op.i("maxau", 1000); to.video = op.i("av", 3) & 1; to.audio = (op.i("av", 3) >> 1) & 1; to.h265 = op.i("hevc");
    auto t = make_ts(r, to);
    p->ts = t.bytes; p->raw = t.raw; p->tags = t.tags; p->has_raw = srt;
    for (auto& x : p->raw) x.wend = NEVER;
    for (auto& x : p->tags) x.wend = NEVER;
    Op o = op; if (srt) o.set("sid", srt_sid(op, "publish"));
    if (srt) p->hdr_wpos = 1;
    auto c = dial(o, srt ? SP : op.i("port", HP), srt ? "srt" : "tcp", r, [p](PConn x) { p->c = x; });
    if (!c) { p->dead = true; count("pub.noconn"); return; }
    p->c = c; bool ok = true; std::string mode = op.s("mode", "raw"); size_t msz = op.i("msz", 1316);
    if (srt) {
        p->hdr_wpos = 1;
        for (size_t i = 0; i < t.raw.size(); ++i) p->raw[i].wend = 1 + (t.raw[i].wend + msz - 1) / msz;
        for (size_t i = 0; i < t.tags.size(); ++i) p->tags[i].wend = 1 + (t.tags[i].wend + msz - 1) / msz;
    } else {
        std::string head = "POST " + op.s("path") + ".ts HTTP/1.1\r\nHost: " + op.s("host") + "\r\n";
        if (mode == "chunked") head += "Transfer-Encoding: chunked\r\n";
        if (mode == "cl") head += "Content-Length: " + std::to_string(t.bytes.size()) + "\r\n";
        head += "\r\n"; p->hdr_wpos = c->wpos() + head.size();
        if (mode == "cl") p->end_wpos = p->hdr_wpos + t.bytes.size();
        if (mode != "chunked") for (size_t i = 0; i < t.tags.size(); ++i) p->tags[i].wend = p->hdr_wpos + t.tags[i].wend;
        ok = c->write(head);
    }
    u64 pace = op.i("pace"); size_t pos = 0, done = 0; i64 gap = op.has("gap_at") ? op.i("gap_at") * (i64) (t.bytes.size() / 188 + 1) / 1000 * 188 : -1;
    while (pos < t.bytes.size() && ok && !c->peer_gone()) {
        size_t k = srt ? msz : r.chance(30) ? 188 : 1 + r.below(5000);
        k = std::min(k, t.bytes.size() - pos);
        if (gap >= 0 && (i64) (pos + k) > gap) { sleep_us(op.i("gap")); gap = -1; }
        if (c->peer_gone()) break;
        std::string d = t.bytes.substr(pos, k);
        if (mode == "chunked" && !srt) d = chunk_head(k, r) + d + "\r\n";
        u64 w0 = c->wpos(); size_t from = pos, hl = d.size() - k - 2;
        pos += k;
        if (mode == "chunked" && !srt) while (done < t.tags.size() && t.tags[done].wend <= pos) { p->tags[done].wend = w0 + hl + (t.tags[done].wend - from); done++; }
        ok = c->write(d);
        p->last_tag_at = now();
        if (pace) sleep_us(r.below(pace + 1)); else if (r.chance(2)) sleep_us(r.below(50000));
    }
    std::string end = op.s("end", "fin");
    if (end == "linger") { sleep_us(op.i("linger", 3000000)); end = "fin"; }
    p->end_begin = now();
    if (c->peer_gone()) { c->close(); return; }
    if (end == "fin") c->close();
    else if (end == "rst") c->reset();
    else if (end == "garbage") { c->write(mode == "chunked" && !srt ? std::string("zzzz\r\n") : std::string(1316, 'x')); char b[256]; while (c->read(b, sizeof b, 60000000) > 0) {} c->close(); }
    else { p->end_begin = NEVER; char b[256]; while (c->read(b, sizeof b, 100000000) > 0) {} p->end_begin = now(); c->close(); }
}
void play_raw(const Op& op, PPlay p) {
    Rng r(hash3(g_seed, op.id, 0x5a2));
    Op o = op; o.set("sid", srt_sid(op, "request"));
    p->raw = true; p->hdr_wpos = 1;
    p->t_req = now();
    auto c = dial(o, SP, "srt", r, [p](PConn x) { p->c = x; });
    if (!c) { p->exempt = true; count("play.noconn"); return; }
    p->c = c;
    u64 t_end = now() + op.i("dur", 60000000), stop = op.has("stop") ? now() + op.i("stop") : NEVER, resume = op.has("resume") ? now() + op.i("resume") : NEVER;
    char buf[2000];
    for (;;) {
        if (now() >= stop && now() < resume) { u64 u = std::min(resume, t_end); if (u > now()) sleep_us(u - now()); stop = NEVER; }
        if (now() >= t_end) break;
        u64 lim = t_end - now(); if (stop != NEVER && now() < stop) lim = std::min(lim, stop - now());
        ssize_t n = c->read(buf, sizeof buf, lim);
        if (n > 0) { if (!p->t_first) p->t_first = now(); p->rx.append(buf, n); continue; }
        if (n == 0) { p->eof = true; p->t_eof = now(); break; }
    }
    p->t_end = now(); if (!p->eof) p->self_closed = true;
    if (op.s("close") == "rst") c->reset(); else c->close();
}
static void bad(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0x5a3));
    const KeyDef& k = KEYS[op.i("key")]; std::string n = std::string(k.host) + k.path, s;
    switch (op.i("w")) {
        case 0: s = ""; break; case 1: s = "#!::"; break; case 2: s = "#!:"; break; case 3: s = "h=m"; break;
        case 4: s = "#!::h=nohost.com/live/s1,m=publish"; break; case 5: s = "#!::h=nohost.com/live/s1,m=request"; break;
        case 6: s = "#!::m=publish,"; break; case 7: s = "#!::h=,m=publish"; break; case 8: s = std::string(500, 'A'); break;
        case 9: s = "#!::,,,,===,"; break; case 10: s = "#!::h=a.nohost.com" + std::string(300, 'z') + ",m=publish"; break;
        default: s = "#!::h=nothing.live.com/live/s1,m=request,";
    }
    Op o = op; o.set("sid", s);
    auto c = dial(o, SP, "srt", r); if (!c) return;
    u64 t0 = now();
    if (op.i("send")) { TsOpt to; to.units = 5; to.max_au = 100; auto t = make_ts(r, to); c->write(t.bytes); }
    if (op.i("vanish")) { c->reset(); return; }
    char b[1500]; ssize_t x = c->read(b, sizeof b, 8000000);
    if (x > 0) violation("C20", "SRT session with the stream id '%s' got data", s.c_str());
    else if (x == -2) violation("C20", "SRT session with the stream id '%s' is held %.3f s", s.substr(0, 60).c_str(), (now() - t0) / 1e6);
    else count("srt.badid");
    c->close(); g_shm->nontrivial = 1;
}

void srt_run(const Plan& p) {
    g_rename = {{"C01", "C19"}, {"C02", "C19"}, {"C03", "C20"}, {"C04", "C20"}, {"C12", "C20"}, {"C15", "C20"}};
    W.recv_timeout = p.ki("recv_timeout"); W.send_timeout = p.ki("send_timeout"); W.end_slack = 1500000;
    std::string tm = " recv_timeout " + p.ks("recv_timeout") + ";\n send_timeout " + p.ks("send_timeout") + ";\n";
    auto host = [&](const char* n) { return std::string(" host ") + n + " {\n enabled on;\n type stream;\n role source;\n edge_avformat all;\n }\n"; };
    std::string hosts = host("live.com") + host("b.com") + host("*.w.com"), conf; bool glob = p.ki("global");
    if (glob) conf += "globalhost g {\n" + hosts + "}\n";
    conf += "http {\n server h {\n listen_port " + std::to_string(HP) + ";\n server_name default;\n" + tm + (glob ? "" : hosts) + " }\n}\n";
    conf += "srt {\n server s {\n listen_port " + std::to_string(SP) + ";\n server_name srt;\n transport srt;\n" + tm + (glob ? "" : hosts) + " }\n}\n";
    start_server(conf);
    on_idle([] { W.track(); });
    u64 settle = std::max<u64>(std::max(W.recv_timeout, W.send_timeout), 10000000) + 120000000;
    run_ops(p, 50000, settle, 900000000, 6000000, [](const Op& op) {
        std::string key = op.s("host") + op.s("path");
        if (op.kind == "spub" || op.kind == "tpub") { auto q = std::make_shared<Pub>(); q->id = op.id; q->key = key; W.add(q); pub_ts(op, q, op.kind == "spub"); }
        else if (op.kind == "fpub") { auto q = std::make_shared<Pub>(); q->id = op.id; q->key = key; W.add(q); actor_publish(op, q, HP); }
        else if (op.kind == "play") { auto q = std::make_shared<Play>(); q->id = op.id; q->key = key; W.plays.push_back(q); actor_play(op, q, HP); }
        else if (op.kind == "splay") { auto q = std::make_shared<Play>(); q->id = op.id; q->key = key; W.plays.push_back(q); play_raw(op, q); }
        else if (op.kind == "bad") bad(op);
    });
    W.verify_all();
    if (g_stop_why == "done") {
        if (tcp_server_open() > 0) violation("C13", "%zu connections still held by the server after every client left", tcp_server_open());
        if (srt_open_server_socks() > 1) violation("C13", "%zu SRT sockets still held by the server after every client left", srt_open_server_socks() - 1);
    }
    u64 tags = 0; for (auto& q : W.plays) tags += q->ntags;
    if (tags > 0) g_shm->nontrivial = 1;
}
}
