// Reverse proxying: keep-alive and pipelined requests to many hosts, origins that fail in every way.
#include "world.hpp"
#include "shm.hpp"
#include <algorithm>
namespace sim {
static const int PORT = 8080;
static const u64 UP_TMO = 10000000;
struct PH { const char* name; int kind; };       // 0 exact 1 wildcard 2 default
static const PH HOSTS[] = {{"p1.com", 0}, {"p2.com", 0}, {"a.w.com", 0}, {"w.com", 0}, {"localhost", 0}, {"deep.a.w.com", 0},
    {"*.w.com", 1}, {"*.a.w.com", 1}, {"*.org", 1}, {"*", 2}};
static const int NH = 10;
static const char* ASK[] = {"p1.com", "p2.com", "a.w.com", "b.w.com", "w.com", "x.a.w.com", "deep.a.w.com", "x.y.a.w.com", "localhost", "foo", "q.org", "r.q.org", "nohost.net", "p1.com.net", "xp1.com"};
static std::string wild(const std::string& h) { size_t n = h.find('.'); return n == std::string::npos ? "" : "*" + h.substr(n); }
static int g_mask;
static int model_host(const std::string& h) {
    for (int i = 0; i < NH; ++i) if (HOSTS[i].kind == 0 && (g_mask >> i & 1) && h == HOSTS[i].name) return i;
    std::string w = wild(h);
    if (!w.empty()) for (int i = 0; i < NH; ++i) if (HOSTS[i].kind == 1 && (g_mask >> i & 1) && w == HOSTS[i].name) return i;
    for (int i = 0; i < NH; ++i) if (HOSTS[i].kind == 2 && (g_mask >> i & 1)) return i;
    return -1;
}

// one request and the answer its origin will give
struct Ex {
    std::string host, hostline, method, target; std::vector<std::pair<std::string, std::string>> h; std::string head, rbody; int rbf = 0, local = 0; bool big = false, lower = false, abs = false; const char* bad = nullptr; std::string te;
    int status; std::string framing, body, fault; size_t fault_at = 0; std::vector<std::pair<std::string, std::string>> rh; u64 delay = 0; u64 decl = 0;
    bool seen = false; int by = -1;
    std::shared_ptr<Tcp> oc, cc; bool done = false, told = false; u64 stuck = 0;      // connections to the origin and from the client
    bool bodyless() const { return method == "HEAD" || status == 204 || status == 304; }
};
static std::map<std::string, std::shared_ptr<Ex>>* g_ex;
static std::string rnd_tok(Rng& r, size_t n, bool val) {
    static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_", V[] = "abcXYZ019 -_.,;:=/()\"%+*'!@#$&?<>[]{}~|";
    std::string s; for (size_t i = 0; i < n; ++i) s += val ? V[r.below(sizeof V - 1)] : A[r.below(sizeof A - 1)];
    if (val) { while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); }
    return s;
}
static std::string trailer(Rng& r) { std::string s = r.chance(20) ? "0;x=y\r\n" : r.chance(20) ? "000\r\n" : "0\r\n"; int n = (int) r.range(1, 3); for (int i = 0; i < n; ++i) s += "T-" + rnd_tok(r, r.below(12), false) + (r.chance(80) ? ": " : ":") + (r.chance(10) ? "" : rnd_tok(r, r.below(60), true)) + "\r\n"; return s + "\r\n"; }
static std::shared_ptr<Ex> make_ex(const Op& op, int i) {
    Rng r(hash3(g_seed, op.id * 64 + i, 0xe1));
    auto x = std::make_shared<Ex>();
    x->host = r.chance(70) ? r.pick(std::vector<std::string>(ASK, ASK + 15)) : op.s("host", "p1.com");
    if (r.chance(op.i("local", 5))) x->local = r.chance(50) ? 404 : 403;
    if (x->local) x->host = x->local == 404 ? "src.local" : "edge.local";
    x->method = r.chance(op.i("get", 80)) ? "GET" : r.pick(std::vector<std::string>{"HEAD", "DELETE", "OPTIONS", "PUT", "POST"});
    x->target = "/r/" + std::to_string(op.id) + "/" + std::to_string(i);
    if (r.chance(30)) x->target += r.pick(std::vector<std::string>{".html", "/", ".tar.gz", "//x", "/%41%20b", "/a.b/c"});
    if (r.chance(40)) x->target += r.pick(std::vector<std::string>{"?a=1", "?a=1&b=2", "?x", "?a=b=c&&d", "?u=http://z/", "?a=1&a=2", "?", "?x?y=?"});
    x->hostline = x->host + (r.chance(20) ? ":8080" : "");
    if (x->local) { x->target = "/live/s" + std::to_string(op.id) + "_" + std::to_string(i) + ".flv"; x->method = x->local == 403 ? "POST" : r.chance(80) ? "GET" : "HEAD"; }
    x->lower = r.chance(op.i("lower", 0));
    int nh = (int) r.below(r.chance(4) ? 40 : 6);
    for (int k = 0; k < nh; ++k) {
        std::string n = "X-" + rnd_tok(r, 1 + r.below(12), false), v = r.chance(8) ? "" : rnd_tok(r, r.below(60), true);
        if (r.chance(10)) n = r.pick(std::vector<std::string>{"Accept", "User-Agent", "Cookie", "Range", "If-None-Match", "accept-encoding"});
        if (r.chance(10) && k) n = x->h.back().first;
        x->h.push_back({n, v});
    }
    if (r.chance(op.i("big", 4))) { size_t want = r.range(1990, 2070); x->h.push_back({"X-Big", std::string(want > 300 ? want - 250 : 1, 'b')}); }
    size_t hp = r.below(x->h.size() + 1);
    x->abs = r.chance(4);                                             // the form proxies are asked in
    auto ows = [&] { return r.chance(2) ? r.pick(std::vector<const char*>{" ", "\t", "  \t "}) : ""; };
    std::string& s = x->head; s = x->method + " " + (x->abs ? "http://" + x->hostline : "") + x->target + " HTTP/1.1\r\n";
    const char* hn = x->lower ? r.pick(std::vector<const char*>{"host", "HOST", "hOsT"}) : "Host";
    for (size_t k = 0; k <= x->h.size(); ++k) {
        if (k == hp) s += std::string(hn) + ":" + (r.chance(90) ? " " : r.chance(50) ? "" : " \t ") + x->hostline + ows() + "\r\n";
        if (k < x->h.size()) s += x->h[k].first + ": " + x->h[k].second + ows() + "\r\n";
    }
        // a body: 1 Content-Length, 2 chunked; it may well look like requests
    std::string wire;
    if (x->method != "GET" && x->method != "HEAD" && !x->local && r.chance(op.i("rbody", 40))) {
        x->rbf = 1 + (int) r.below(2);
        if (r.chance(20)) { x->h.push_back({r.chance(80) ? "Expect" : "expect", "100-continue"}); s += x->h.back().first + ": 100-continue\r\n"; }
        size_t n = r.chance(20) ? r.range(1020, 1030) : r.chance(20) ? r.below(12000) : 1 + r.below(900);
        std::string b(n, 0); for (auto& ch : b) ch = (char) r.next();
        if (r.chance(40)) { b = "GET /smuggled-" + std::to_string(op.id) + " HTTP/1.1\r\nHost: p1.com\r\n\r\n" + (r.chance(50) ? b : ""); }
        x->rbody = b;
        if (x->rbf == 1) { s += (r.chance(70) ? "Content-Length: " : "content-length: ") + std::to_string(b.size()) + "\r\n"; wire = b; }
        else {
            x->te = r.chance(90) ? "chunked" : r.pick(std::vector<const char*>{"gzip, chunked", "gzip,chunked", "deflate , Chunked"});
            s += r.chance(70) ? "Transfer-Encoding: " + x->te : r.chance(50) ? "TRANSFER-ENCODING:" + x->te : x->te == "chunked" ? "transfer-encoding: Chunked" : "transfer-encoding: " + x->te;
            s += r.chance(3) ? " \r\n" : "\r\n";
            for (size_t o = 0; o < b.size();) { size_t k = std::min<size_t>(b.size() - o, 1 + r.below(3000)); wire += chunk_head(k, r) + b.substr(o, k) + "\r\n"; o += k; }
            wire += r.chance(15) ? trailer(r) : "0\r\n\r\n";
        }
    }
    s += "\r\n";
    x->big = s.size() > 2048;
    if (!x->big && x->rbf == 0 && !x->local && r.chance(op.i("bad", 2))) {       // a head that is none; what follows it looks like a request
        static const char* L[] = {"Bad Header: x\r\n", "Content-Length : 60\r\n", "Transfer-Encoding : chunked\r\n", "NoColon\r\n", "Bad(Name): x\r\n", "Content-Length: 5x\r\n", "Content-Length: 3\r\nContent-Length: 60\r\n", "X-A: b\x01" "c\r\n", ": none\r\n", "Transfer-Encoding: gzip\r\n", "Content-Length: 60\r\nTransfer-Encoding: chunked\r\n", "Content-Length: -7\r\n"};
        static const char* Q[] = {"a request line", "a host"};
        std::vector<size_t> at; for (size_t o = s.find("\r\n"); o + 4 < s.size(); o = s.find("\r\n", o + 2)) at.push_back(o + 2);
        int k = (int) r.below(x->abs ? 13 : 14);
        if (k < 12) { s.insert(r.pick(at), L[k]); x->bad = L[k]; }
        else if (k == 12) { size_t e = s.find("\r\n"); s.replace(0, e, r.pick(std::vector<std::string>{"G@T " + x->target + " HTTP/1.1", x->method + " " + x->target + " HTTP/1.x", x->method + " no-slash HTTP/1.1", x->method + " " + x->target + " HTTP/1.1 x", x->method + "  HTTP/1.1"})); x->bad = Q[0]; }
        else { size_t e = s.find(x->hostline, s.find("\r\n")); s.replace(e, x->hostline.size(), r.pick(std::vector<std::string>{"p1 .com", x->host + ":99999", x->host + ":x", x->host + "/a", "p1.com, p2.com"})); x->bad = Q[1]; }
        if (r.chance(70)) wire = "GET /smuggled-" + std::to_string(op.id) + " HTTP/1.1\r\nHost: p1.com\r\n\r\n";
    }
    s += wire;
    // the answer
    x->status = r.chance(70) ? 200 : r.pick(std::vector<int>{206, 204, 301, 304, 400, 403, 404, 416, 500, 503});
    x->framing = r.pick(std::vector<std::string>{"cl", "cl", "cl", "chunked", "chunked", "close"});
    size_t n = r.chance(12) ? 0 : r.chance(15) ? r.range(1020, 1030) : r.chance(20) ? r.below(30000) : r.below(2000);
    x->body.resize(n); Rng q(hash3(g_seed, op.id * 64 + i, 0xb0d1)); for (auto& ch : x->body) ch = (char) q.next();
    x->decl = n;
    if (x->status == 204 || x->status == 304) { x->body.clear(); if (x->framing == "chunked") x->framing = "cl"; }
    if (x->status == 204) x->framing = "close";
    int rn = (int) r.below(r.chance(4) ? 30 : 6);
    for (int k = 0; k < rn; ++k) {
        std::string nme = "Y-" + rnd_tok(r, 1 + r.below(12), false), v = r.chance(8) ? "" : rnd_tok(r, r.below(60), true);
        if (r.chance(25)) nme = r.pick(std::vector<std::string>{"Set-Cookie", "Set-Cookie", "Server", "Content-Type", "Location", "ETag", "server"});
        x->rh.push_back({nme, v});
    }
    if (r.chance(3)) x->rh.push_back({"Y-Big", std::string(r.range(1500, 2300), 'y')});
    if (r.chance(30)) x->delay = r.below(500000);
    int fp = x->local ? 0 : op.i("faults", 0);
    if (x->local) { x->framing = "cl"; x->rh.clear(); }
    if (r.chance(fp)) {
        x->fault = r.pick(std::vector<std::string>{"fin", "rst", "stall", "nofin", "norst", "nostall", "badhead", "badchunk", "huge"});
        x->fault_at = x->body.empty() ? 0 : r.below(x->body.size());
        if (x->bodyless() && x->fault.substr(0, 2) != "no") x->fault = "nofin";
        if (x->fault == "badchunk") { if (x->framing == "close") x->framing = "chunked"; if (x->framing == "cl") x->fault = "fin"; }
        if (x->fault == "huge") { x->framing = "cl"; x->decl = (1ull << 32) * r.range(1, 3) + r.below(x->body.size() + 10); }
        if (x->framing == "chunked" && r.chance(30) && (x->fault == "fin" || x->fault == "rst")) x->fault_at = x->body.size();
        if (x->framing == "close" && (x->fault == "fin" || x->fault == "stall")) x->framing = "cl";
        if (x->framing == "cl" && x->body.empty() && x->fault.substr(0, 2) != "no" && x->fault != "badhead" && x->fault != "huge") x->fault = "nofin";
    }
    if (x->framing == "cl" && x->method != "HEAD" && x->status != 304 && x->fault != "huge") x->decl = x->body.size();
    return x;
}

void proxy_gen(Plan& p, Rng& r) {
    std::string f = p.prop;
    int mask = (int) r.below(1 << NH); if (f != "C10") mask |= 3; else if (r.chance(50)) mask &= r.next();
    p.k["hosts"] = std::to_string(mask); p.k["global"] = std::to_string(r.below(1 << NH) & r.below(1 << NH));
    p.k["recv_timeout"] = "30000000"; p.k["send_timeout"] = "20000000";
    if (r.chance(25)) { p.faults["cpu"] = r.range(1, 60); p.faults["cpu_ms"] = r.range(1, 60); }
    int fp = f == "C08" || f == "C13" ? 60 : r.chance(25) ? 15 : 0;
    int n = (int) r.range(1, 6);
    u64 span = r.range(1, 5) * 1000000;
    for (int i = 0; i < n; ++i) {
        Op& o = p.op("conn", r.chance(30) ? 0 : r.below(span));
        o.set("n", f == "C09" ? r.range(1, 8) : r.range(1, 5)).set("faults", fp).set("pipe", r.below(3));
        if (r.chance(50)) o.set("host", r.pick(std::vector<std::string>{"p1.com", "p2.com", "a.w.com", "b.w.com", "q.org"})); else o.set("host", "p1.com");
        if (f == "C09") o.set("big", 12).set("lower", 20).set("bad", 10);
        if (f == "C09" || r.chance(20)) o.set("get", 50);
        if (f == "C10") o.set("lower", 10).set("local", 0);
        if (f == "C09") o.set("local", 15);
        if (r.chance(15)) { o.set("slow", r.range(1000, 20000)); o.set("chunk", r.range(100, 2000)); o.set("rcv", 1200); o.set("snd", 4096); }
        if (r.chance(8)) { o.set("abort", r.range(1, 5000)); o.set("close", r.chance(50) ? "rst" : "fin"); }
    }
    if (r.chance(3)) { for (int k = (int) r.range(10, 40); k > 0; --k) { Op& o = p.op("conn", r.chance(50) ? 0 : r.below(span)); o.set("n", r.range(1, 2)).set("faults", fp).set("pipe", r.below(3)).set("host", "p1.com"); } }
    else if (r.chance(3)) p.ops[r.below(p.ops.size())].set("n", r.range(20, 60));
    if (r.chance(f == "C08" ? 30 : 5)) { Op& o = p.op("down", r.below(span)); o.set("host", r.pick(std::vector<std::string>{"refused.com", "hole.com", "nodns.com"})); }
}

static void origin_conn(int h, std::shared_ptr<Tcp> t, u64 no) {
    Rng r(hash3(g_seed, no * 16 + h, 0x0419));
    PConn c = std::make_shared<TcpConn>(t, 1);
    std::string head; char b[2048];
    while (head.find("\r\n\r\n") == std::string::npos) { ssize_t n = c->read(b, sizeof b, 60000000); if (n <= 0) { c->close(); return; } head.append(b, n); }
    HttpMsg m;
    auto both = [](const std::string& s) { violation("C07", "%s", s.c_str()); violation("C09", "%s", s.c_str()); };
    size_t he = head.find("\r\n\r\n") + 4;
    if (!parse_head(head.substr(0, he), m)) { both("malformed request reached the origin"); c->close(); return; }
    size_t s1 = m.start.find(' '), s2 = m.start.rfind(' ');
    std::string method = m.start.substr(0, s1), tgt = m.start.substr(s1 + 1, s2 - s1 - 1);
    if (!tgt.compare(0, 7, "http://")) { size_t p = tgt.find('/', 7); tgt = p == std::string::npos ? "/" : tgt.substr(p); }
    auto it = g_ex->find(tgt);
    if (it == g_ex->end()) {
        both("the origin was asked for [" + m.start + "], which nobody requested"); c->close(); return;
    }
    Ex& x = *it->second;
    if (x.bad) both("a malformed request (" + std::string(x.bad) + ") reached an origin");
    if (x.seen) both("request " + x.target + " reached an origin twice");
    x.seen = true; x.by = h; x.oc = t;
    if (model_host(x.host) != h) violation("C10", "request for %s was routed to %s", x.host.c_str(), HOSTS[h].name);
    if (method != x.method || m.start.substr(s2) != " HTTP/1.1") both("request line altered: [" + m.start + "]");
    const std::string* vh = m.get("Host");
    if (!vh || (*vh != x.host && *vh != x.hostline)) both("Host header altered: [" + (vh ? *vh : "") + "] instead of " + x.host);
    // every header of the client arrives, in order
    size_t k = 0;
    for (auto& q : m.h) if (k < x.h.size() && q.first == x.h[k].first && q.second == x.h[k].second) k++;
    if (k < x.h.size()) both("request header lost or altered: [" + x.h[k].first + ": " + x.h[k].second + "]");
    for (auto& q : m.h) {
        if (!strcasecmp(q.first.c_str(), "Host") || !strcasecmp(q.first.c_str(), "Accept") || !strcasecmp(q.first.c_str(), "Content-Length") || !strcasecmp(q.first.c_str(), "Transfer-Encoding")) continue;
        bool mine = false; for (auto& w : x.h) mine |= w == q;
        if (!mine) both("request header invented: [" + q.first + ": " + q.second + "]");
    }
    std::string got, rest = head.substr(he); const std::string* te = m.get("Transfer-Encoding"); int ncl = 0; u64 cl = 0;
    for (auto& q : m.h) if (!strcasecmp(q.first.c_str(), "Content-Length")) { ncl++; cl = strtoull(q.second.c_str(), nullptr, 10); }
    Rng ir(hash3(g_seed, no * 16 + h, 0x1e7)); bool expect = m.get("Expect") != nullptr;
    auto interim = [&] {        // answers that announce the answer
        for (int i = (int) ir.range(1, 3); i > 0; --i) { c->write(ir.pick(std::vector<std::string>{"HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 102 Processing\r\nX-I: 1\r\n\r\n", "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\nLink: </b>\r\n\r\n", "HTTP/1.1 100 \r\n\r\n"})); count("origin.interim"); if (ir.chance(30)) sleep_us(ir.below(5000)); }
    };
    if (expect && ir.chance(80)) interim();
    auto fill = [&] { ssize_t n = c->read(b, sizeof b, 60000000); if (n <= 0) return false; rest.append(b, n); return true; };
    bool whole = true;
    if (te && x.rbf == 2 && strcasecmp(te->c_str(), x.te.c_str())) both(x.target + ": Transfer-Encoding altered: [" + *te + "]");
    if (ncl > 1 || (te && ncl)) both(x.target + ": the forwarded request announces its length twice");
    else if (te) {
        for (;;) {
            size_t e; while ((e = rest.find("\r\n")) == std::string::npos) if (!fill()) { whole = false; break; }
            if (!whole) break;
            u64 k = strtoull(rest.c_str(), nullptr, 16);
            while (rest.size() < e + 4 + k) if (!fill()) { whole = false; break; }
            if (!whole) break;
            got += rest.substr(e + 2, k); rest.erase(0, e + 4 + k); if (!k) break;
        }
    } else { while (rest.size() < cl) if (!fill()) { whole = false; break; } got = rest.substr(0, std::min<u64>(cl, rest.size())); rest.erase(0, got.size()); }
    if (!whole) { count("req.body_cut"); if (x.rbody.compare(0, got.size(), got)) both(x.target + ": the forwarded body differs"); c->close(); return; }
    if (got != x.rbody) both(x.target + ": the forwarded body differs (" + std::to_string(got.size()) + " of " + std::to_string(x.rbody.size()) + " bytes)");
    else if (!got.empty()) count("req.body_ok");
    if (!rest.empty()) both(x.target + ": bytes behind the forwarded request");
    if (x.delay) sleep_us(x.delay);
    count(("origin." + (x.fault.empty() ? x.framing : "fault_" + x.fault)).c_str());
    if (!x.fault.empty()) count(("fault.origin_" + x.fault).c_str());
    auto drain = [&](u64 lim) { u64 dl = now() + lim; ssize_t n; while (now() < dl && (n = c->read(b, sizeof b, dl - now())) > 0) {} };
    if (x.fault == "nofin") { c->close(); return; }
    if (x.fault == "norst") { c->reset(); return; }
    if (x.fault == "nostall") { if (r.chance(50)) c->write("HTTP/1.1 200 OK\r\nX: y"); drain(60000000); c->close(); return; }
    if (x.fault == "badhead") {
        if (r.chance(40)) c->write("HTTP/1.1 " + std::to_string(x.status) + " OK\r\nContent-Type: a/b\r\n" + r.pick(std::vector<std::string>{"NoColon\r\nContent-Length: 0", "Content-Length: 3x", "Content-Length: 3\r\nContent-Length: 4", "Content-Length: -3", "X: b\x01" "c\r\nContent-Length: 0"}) + "\r\n\r\nabc");
        else c->write(r.chance(50) ? "no http at all\r\n\r\n" : "\r\n\r\n\r\n\r\n");
        if (r.chance(50)) { c->close(); return; }
        drain(30000000); c->close(); return; }
    Rng yr(hash3(g_seed, no * 16 + h, 0x0b5));
    auto ows = [&] { return yr.chance(2) ? yr.pick(std::vector<const char*>{" ", "\t", "  \t "}) : ""; };
    std::string rs = (yr.chance(90) ? "HTTP/1.1 " : "HTTP/1.0 ") + std::to_string(x.status) + yr.pick(std::vector<const char*>{" Reason\r\n", " Reason\r\n", " A longer (reason), with: signs \r\n", " \r\n", "\r\n"});
    size_t pos = r.below(x.rh.size() + 1);
    for (size_t i = 0; i <= x.rh.size(); ++i) {
        if (i == pos && x.framing == "cl") rs += (r.chance(75) ? "Content-Length: " : r.chance(50) ? "content-length: " : "CONTENT-LENGTH:") + std::to_string(x.decl) + (yr.chance(3) ? " \r\n" : "\r\n");
        if (i == pos && x.framing == "chunked") rs += r.chance(75) ? "Transfer-Encoding: chunked" : r.chance(50) ? "transfer-encoding: chunked" : "Transfer-Encoding:Chunked", rs += yr.chance(3) ? " \r\n" : "\r\n";
        if (i < x.rh.size()) rs += x.rh[i].first + (yr.chance(95) ? ": " : ":") + x.rh[i].second + ows() + "\r\n";
    }
    rs += "\r\n";
    bool ok = true;
    if (ir.chance(8)) interim();
    write_paced(*c, rs, r, r.chance(20) ? 1 : 0, &ok);
    if (!x.bodyless() && ok) {
        bool cut = x.fault == "fin" || x.fault == "rst" || x.fault == "stall" || x.fault == "badchunk";
        std::string body = cut ? x.body.substr(0, x.fault_at) : x.body;
        if (x.framing != "chunked") { size_t o = 0; while (o < body.size() && ok) { size_t n = std::min<size_t>(body.size() - o, r.chance(40) ? body.size() : 1 + r.below(3000)); ok = c->write(body.substr(o, n)); o += n; if (r.chance(40)) sleep_us(r.below(40000)); } }
        else {
            size_t o = 0;
            while (o < body.size() && ok) {
                size_t n = std::min<size_t>(body.size() - o, r.chance(30) ? body.size() : r.chance(30) ? r.range(1022, 1026) : 1 + r.below(3000));
                ok = c->write(chunk_head(n, r) + body.substr(o, n) + "\r\n"); o += n; if (r.chance(40)) sleep_us(r.below(40000));
            }
            if (x.fault == "badchunk" && ok) {
                std::string bad = r.pick(std::vector<std::string>{"zz\r\n", "zz\r\n\r\n", "\r\n\r\n", "0x\r\n\r\n", "5\r\nabcdefgh\r\n", "\r\n", std::string(60, '1') + "\r\n", "5\r\nab"});
                c->write(bad);
            }
            if (!cut && ok) { Rng q(hash3(g_seed, no, 0x7a11)); std::string z = chunk_head(0, q) + "\r\n"; if (q.chance(12)) { z = trailer(q); count("origin.trailer"); } write_paced(*c, z, q, q.chance(30) ? 1 : 0, &ok); }
        }
    }
    if (x.fault.empty() && ok && (x.bodyless() || x.framing != "close") && hash3(g_seed, no, 0x0e7a) % 8 == 0) {
        // an origin that says more than it announced; often in the same segment as the end of the answer
        std::string more = r.chance(50) ? "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nwrong" : std::string(1 + r.below(3000), 'E');
        if (r.chance(30)) sleep_us(r.below(3000));
        c->write(more); count("origin.says_more");
    }
    if (x.fault == "stall" || x.fault == "huge") { if (x.fault == "huge" && r.chance(50)) sleep_us(100000); else drain(60000000); c->close(); return; }
    if (x.fault == "rst") { sleep_us(r.below(200000)); c->reset(); return; }
    if (x.framing == "close" && !x.bodyless()) { c->close(); return; }
    if (!x.fault.empty() || r.chance(50)) { c->close(); return; }
    drain(40000000); c->close();              // an origin that keeps its connection
}

// reads one answer; returns: 1 complete, 0 closed before anything, -1 incomplete, -2 timeout, -3 malformed
struct Reader { Conn* c; std::string buf; bool eof = false, rst = false; u64 slow = 0; size_t chunk = 4096; u64 abort_after = NEVER, got = 0; bool aborted = false; u64 timeout = 60000000;
    bool fill() {
        if (eof || rst || aborted) return false;
        std::vector<char> b(chunk); ssize_t n = c->read(b.data(), chunk, timeout);
        if (n == 0) { eof = true; return false; } if (n == -1) { rst = true; return false; } if (n < 0) { tmo = true; return false; }
        buf.append(b.data(), n); got += n; if (got >= abort_after) aborted = true; if (slow) sleep_us(slow); return true;
    }
    bool tmo = false;
};
static int read_answer(Reader& rd, const Ex* x, bool head_req, HttpMsg& m, std::string& body, std::string& why, bool* delimited) {
    size_t he; body.clear(); *delimited = true;
    while ((he = rd.buf.find("\r\n\r\n")) == std::string::npos) {
        if (!rd.fill()) { if (rd.aborted) return -4; if (rd.tmo) return -2; return rd.buf.empty() ? 0 : -1; }
        if (rd.buf.size() > 16384) { why = "head too long"; return -3; }
    }
    if (!parse_head(rd.buf.substr(0, he + 4), m) || !m.status) { why = "malformed head [" + rd.buf.substr(0, 60) + "]"; return -3; }
    rd.buf.erase(0, he + 4);
    int ncl = 0, nte = 0; std::string cl, te;
    for (auto& h : m.h) { if (!strcasecmp(h.first.c_str(), "Content-Length")) { if (ncl && cl != h.second) { why = "conflicting Content-Length"; return -3; } ncl++; cl = h.second; } if (!strcasecmp(h.first.c_str(), "Transfer-Encoding")) { nte++; te = h.second; } }
    if (nte > 1) { why = "Transfer-Encoding: chunked announced " + std::to_string(nte) + " times"; return -3; }
    if (nte && ncl) { why = "both Content-Length and Transfer-Encoding"; return -3; }
    if (head_req || m.status == 204 || m.status == 304) return 1;
    if (nte) {
        for (;;) {
            size_t e; while ((e = rd.buf.find("\r\n")) == std::string::npos) if (!rd.fill()) return rd.aborted ? -4 : rd.tmo ? -2 : -1;
            char* end; unsigned long n = strtoul(rd.buf.c_str(), &end, 16);
            if (end == rd.buf.c_str()) { why = "bad chunk size [" + rd.buf.substr(0, 20) + "]"; return -3; }
            while (rd.buf.size() < e + 2 + n + 2) if (!rd.fill()) { if (rd.buf.size() > e + 2) body += rd.buf.substr(e + 2, std::min<size_t>(n, rd.buf.size() - e - 2)); return rd.aborted ? -4 : rd.tmo ? -2 : -1; }
            body += rd.buf.substr(e + 2, n);
            if (rd.buf.compare(e + 2 + n, 2, "\r\n")) { why = "chunk not terminated"; return -3; }
            rd.buf.erase(0, e + 4 + n);
            if (!n) return 1;
        }
    }
    if (ncl) {
        u64 n = strtoull(cl.c_str(), nullptr, 10);
        while (rd.buf.size() < n) if (!rd.fill()) { body = rd.buf; return rd.aborted ? -4 : rd.tmo ? -2 : -1; }
        body = rd.buf.substr(0, n); rd.buf.erase(0, n); return 1;
    }
    *delimited = false;
    while (rd.fill()) {}
    body = rd.buf; rd.buf.clear();
    return rd.eof ? 1 : rd.aborted ? -4 : rd.tmo ? -2 : -1;
}

static bool big_answer(const Ex& x) { size_t s = 40; for (auto& y : x.rh) s += y.first.size() + y.second.size() + 4; s += x.framing == "cl" ? 16 + std::to_string(x.decl).size() + 2 : x.framing == "chunked" ? 28 : 0; return s > 1980; }
// an exchange after which the server closes; what was pipelined behind it would turn that close into a reset, which may also take earlier answers with it
static bool last_one(const Ex& x) { return x.big || x.bad || x.rbf < 0 || !x.fault.empty() || big_answer(x) || (x.framing == "close" && !x.bodyless()); }

static void client(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xc1));
    int n = op.i("n", 1);
    std::vector<std::shared_ptr<Ex>> xs;
    for (int i = 0; i < n; ++i) { auto x = make_ex(op, i); xs.push_back(x); (*g_ex)[x->target] = x; }
    if (op.i("pipe")) for (size_t i = 0; i < xs.size(); ++i) if ((xs[i]->big || xs[i]->bad) && i) { xs.resize(i); n = (int) i; break; } else if (xs[i]->big || xs[i]->bad || (last_one(*xs[i]) && !xs[i]->local && model_host(xs[i]->host) >= 0)) { xs.resize(i + 1); n = (int) i + 1; break; } 
    auto c = dial(op, PORT, "tcp", r); if (!c) return;
    Reader rd; rd.c = c.get(); rd.slow = op.i("slow", 0); rd.chunk = op.i("chunk", 4096); if (op.has("abort")) rd.abort_after = op.i("abort");
    int pipe = op.i("pipe", 0);
    auto both = [&](const std::string& s) { std::string m = "connection " + std::to_string(op.id) + ": " + s; violation("C07", "%s", m.c_str()); violation("C09", "%s", m.c_str()); };
    bool ok = true;
    if (pipe) spawn("pipeliner", [c, xs, pipe, op] {         // writes while the client reads
        op_begin(); Rng r(hash3(g_seed, op.id, 0xc2)); bool ok = true;
        if (pipe == 2) { std::string all; for (auto& x : xs) all += x->head; write_paced(*c, all, r, r.chance(50) ? 0 : 1, &ok); }
        else for (auto& y : xs) { write_paced(*c, y->head, r, r.chance(30) ? 1 : 0, &ok); if (!ok) break; if (r.chance(50)) sleep_us(r.below(50000)); }
        op_end();
    });
    for (int i = 0; i < n; ++i) {
        Ex& x = *xs[i]; x.cc = c->tcp()->shared_from_this();
        if (pipe == 0) { if (r.chance(30)) sleep_us(r.below(2000000)); write_paced(*c, x.head, r, r.chance(30) ? 1 : 0, &ok); }
        HttpMsg m; std::string body, why; bool delim;
        u64 t0 = now();
        int rc = read_answer(rd, &x, x.method == "HEAD", m, body, why, &delim);
        x.done = true;
        if (rc == -4) { count("client.abort"); break; }
        int h = model_host(x.host);
        std::string what = x.method + " " + x.target + " of " + x.host;
        if (x.big) { if (rc != 0 && !(rc == 1 && m.status >= 400 && m.status < 500)) both(what + ": a head of " + std::to_string(x.head.size()) + " bytes was answered"); else count("req.toobig"); break; }
        if (x.bad) { if (rc != 0 && !(rc == 1 && m.status >= 400 && m.status < 500)) both(what + ": a malformed head (" + x.bad + ") was answered: rc " + std::to_string(rc) + " status " + std::to_string(m.status)); else count("req.malformed"); break; }
        if (x.local) {                       // a stream that is not there, a publisher that is not welcome
            if (rc != 1 || m.status != x.local || !delim || !body.empty()) { violation("C09", "connection %llu: %s: rc %d status %d%s instead of an empty %d", (unsigned long long) op.id, what.c_str(), rc, m.status, delim ? "" : " without a length", x.local); break; }
            count("req.local"); continue;
        }
        if (h < 0) {                         // no such host
            if (rc != 1 || m.status != 404) { violation("C10", "%s: unknown host, rc %d status %d instead of 404", what.c_str(), rc, m.status); break; }
            if (!delim || !body.empty()) { both(what + ": 404 with a body"); break; }
            count("req.404"); continue;
        }
        if (rc == -3) { both(what + ": " + why); break; }
        bool bighead = big_answer(x);
        if (!x.fault.empty() || bighead) {
            // never a complete looking answer
            if (rc == -2) { violation("C08", "%s: origin failed (%s) and the client is still waiting after %.0f s", what.c_str(), x.fault.c_str(), (now() - t0) / 1e6); break; }
            if (rc == 1 && x.fault == "rst" && x.framing == "close") { count("req.close_rst"); break; }
            if (rc == 1 && bighead && x.fault.empty()) { if (m.status != x.status || body != (x.bodyless() ? "" : x.body)) both(what + ": wrong answer"); if (!delim) break; continue; }
            if (rc == 1) {
                if (m.status >= 500 && m.status < 600 && m.status != x.status) { if (!delim) break; continue; }     // an honest error answer
                violation("C08", "%s: the origin's answer was cut (%s after %zu of %zu bytes, %s) but the client got a complete answer of %zu bytes, status %d", what.c_str(), x.fault.c_str(), x.fault_at, x.body.size(), x.framing.c_str(), body.size(), m.status); break; }
            if (rc == -1 && !m.status) { count("req.cut_head"); break; }
            if (rc == -1 && (m.status != x.status || body.size() > x.body.size() || x.body.compare(0, body.size(), body)) && !(m.status >= 500)) violation("C08", "%s: bytes before the cut differ from the origin's", what.c_str());
            count("req.cut"); g_shm->nontrivial |= op.i("faults") > 0;
            break;
        }
        if (rc == -2) { both(what + ": no complete answer after " + std::to_string((now() - t0) / 1000000) + " s"); break; }
        if (rc != 1) { if (ok) both(what + ": connection closed before the answer was complete (" + std::to_string(rc) + ")"); break; }
        if (!x.seen) { bool r404 = m.status == 404; violation(r404 ? "C10" : "C07", "%s: answered %d without its origin", what.c_str(), m.status); if (r404) violation("C09", "%s: answered 404 without its origin", what.c_str()); break; }
        if (m.status != x.status) both(what + ": status " + std::to_string(m.status) + " instead of " + std::to_string(x.status));
        std::string want = x.bodyless() ? "" : x.body;
        if (body != want) { size_t d = 0; while (d < body.size() && d < want.size() && body[d] == want[d]) d++; both(what + ": body differs at " + std::to_string(d) + " (" + std::to_string(body.size()) + " of " + std::to_string(want.size()) + " bytes, " + x.framing + ")"); break; }
        size_t k = 0; for (auto& q : m.h) if (k < x.rh.size() && q == x.rh[k]) k++;
        if (k < x.rh.size()) { both(what + ": response header lost or altered [" + x.rh[k].first + ": " + x.rh[k].second + "]"); break; }
        for (auto& q : m.h) {
            if (!strcasecmp(q.first.c_str(), "Content-Length")) { if (x.framing == "cl" && q.second != std::to_string(x.decl)) both(what + ": Content-Length " + q.second + " instead of " + std::to_string(x.decl)); continue; }
            if (!strcasecmp(q.first.c_str(), "Transfer-Encoding") || q.first == "Server") continue;
            bool mine = false; for (auto& w : x.rh) mine |= w == q;
            if (!mine) { both(what + ": response header invented [" + q.first + ": " + q.second + "]"); break; }
        }
        if (x.framing == "close" && delim && !x.bodyless()) { both(what + ": delimited answer for an undelimited one"); }
        count("req.ok"); g_shm->nontrivial = 1;
        if (!delim) break;
    }
    if (op.has("abort") && op.s("close") == "rst") c->reset(); else c->close();
}
static void down(const Op& op) {
    Rng r(hash3(g_seed, op.id, 0xd0));
    auto c = dial(op, PORT, "tcp", r); if (!c) return;
    c->write("GET /x HTTP/1.1\r\nHost: " + op.s("host") + "\r\n\r\n");
    Reader rd; rd.c = c.get(); HttpMsg m; std::string body, why; bool d; u64 t0 = now();
    int rc = read_answer(rd, nullptr, false, m, body, why, &d);
    if (rc == 1 && m.status < 500) violation("C08", "%s is unreachable but the client got status %d", op.s("host").c_str(), m.status);
    if (rc == -2 || now() - t0 > UP_TMO + 2000000) violation("C08", "%s is unreachable and the client waited %.0f s", op.s("host").c_str(), (now() - t0) / 1e6);
    count("req.down"); c->close();
}

void proxy_run(const Plan& p) {
    g_mask = p.ki("hosts"); int gm = p.ki("global");
    static std::map<std::string, std::shared_ptr<Ex>> ex; g_ex = &ex;
    std::string h[2];
    int ord[NH]; for (int i = 0; i < NH; ++i) ord[i] = i;
    { Rng sr(hash2(p.seed, 0x04d)); for (int i = NH - 1; i > 0; --i) std::swap(ord[i], ord[sr.below(i + 1)]); }
    for (int k = 0; k < NH; ++k) {
        int i = ord[k];
        if (!(g_mask >> i & 1)) continue;
        std::string pass = "198.51.100." + std::to_string(10 + i) + (i % 2 ? ":" + std::to_string(8000 + i) : "");
        h[gm >> i & 1] += std::string(" host ") + HOSTS[i].name + " {\n role proxy;\n type proxy;\n pass_proxy " + pass + ";\n }\n";
    }
    h[0] += " host src.local {\n role source;\n type stream;\n }\n host edge.local {\n role proxy;\n type stream;\n }\n";
    h[0] += " host refused.com {\n role proxy;\n type proxy;\n pass_proxy 198.51.100.99:81;\n }\n host hole.com {\n role proxy;\n type proxy;\n pass_proxy 198.51.100.98:81;\n }\n host nodns.com {\n role proxy;\n type proxy;\n pass_proxy nowhere.test:81;\n }\n";
    std::string conf = (h[1].empty() ? "" : "globalhost g {\n" + h[1] + "}\n") + "http {\n server main {\n listen_port 8080;\n server_name default;\n recv_timeout " + p.ks("recv_timeout") + ";\n send_timeout " + p.ks("send_timeout") + ";\n" + h[0] + " }\n}\n";
    static Rng lr(hash2(p.seed, 0x11cd));
    for (int i = 0; i < NH; ++i) {
        if (!(g_mask >> i & 1)) continue;
        auto l = actor_listen("198.51.100." + std::to_string(10 + i), i % 2 ? 8000 + i : 80);
        l->lp = random_link(lr, lr.chance(15));
        spawn("origin", [l, i] { u64 no = 0; for (;;) { auto t = actor_accept(l.get(), NEVER); if (!t) continue; u64 k = no++; spawn("oc", [l, i, t, k] { op_begin(); origin_conn(i, t, k); op_end(); }); } });
    }
    auto hole = actor_listen("198.51.100.98", 81); hole->mode = 2;
    start_server(conf);
    on_idle([] {        // an answer that will never be complete is not held open
        for (auto& kv : *g_ex) {
            Ex& x = *kv.second;
            if (x.done || x.told || !x.oc || !x.cc || x.fault.empty()) continue;
            auto& o = x.oc->e[0]; auto& s = x.cc->e[1];
            bool gone = !o.open || o.rst || (o.fin_rcvd && !o.readable());
            if (!gone || !s.open || s.write_blocked || s.total_sent != x.cc->e[0].total_read) { x.stuck = 0; continue; }
            if (!x.stuck) x.stuck = now();
            else if (now() > x.stuck + 1000000) { x.told = true; violation("C08", "%s of %s: the origin is gone (%s) since t=%.3f and the client is left with an incomplete answer at t=%.3f", x.target.c_str(), x.host.c_str(), x.fault.c_str(), x.stuck / 1e6, now() / 1e6); }
        }
    });
    run_ops(p, 20000, 100000000, 900000000, 3000000, [](const Op& op) { if (op.kind == "conn") client(op); else if (op.kind == "down") down(op); });
    if (g_stop_why == "done" && tcp_server_open() > 0) { for (auto q : {"C08", "C13"}) violation(q, "%zu connections still held by the server after every client and origin left", tcp_server_open()); }
}
}
