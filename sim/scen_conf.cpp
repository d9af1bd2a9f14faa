// The configuration file: whatever it says is served as written, or the server refuses to start (C21).
#include "ts.hpp"
#include "shm.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#ifndef CERTS
#define CERTS "/verif/certs"
#endif
namespace sim {
enum Kind { K_NONE, K_SRC, K_PROXY, K_OFF, K_EDGE };
struct CHost { std::string name; Kind kind; int no; };
struct CSrv { int id, blk, port; std::string tr; i64 rto, sto; std::vector<CHost> hosts; };
static const char* BAD[] = {"open", "extra", "noend", "block", "dup", "anon", "missing", "nest", "transport", "lonely", "trunc"};

void conf_gen(Plan& p, Rng& r) {
    p.k["fmt"] = std::to_string(r.chance(10) ? 0 : (int) (1 + r.below(1000000)));
    int nblk = r.chance(20) ? 2 : 1, ns = (int) r.range(1, 4), id = 1;
    std::vector<std::pair<int, std::string>> names;
    std::vector<Op> srvs;
    for (int i = 0; i < ns; ++i) {
        Op& o = p.op("srv", 0); o.set("sid", id);
        std::string tr = r.pick(std::vector<std::string>{"tcp", "tcp", "https", "srt"});
        int port = (int) r.pick(std::vector<i64>{80, 8080, 8443, 9000, 1935, 65535}); i64 rto = r.pick(std::vector<i64>{-1, 1000000, 3000000, 7000000}), sto = r.pick(std::vector<i64>{-1, 3000000});
        for (auto& s : srvs) if (s.i("port") == port && (s.s("tr") == "srt") == (tr == "srt")) { tr = s.s("tr"); rto = s.i("rto"); sto = s.i("sto"); o.set("blk", s.i("blk")); }   // one more block for the same listener
        if (!o.has("blk")) o.set("blk", tr == "srt" ? 2 : (int) r.below(nblk));
        o.set("port", port).set("tr", tr).set("rto", rto).set("sto", sto).set("reuse", r.below(3)).set("backlog", r.below(2));
        srvs.push_back(o); id++;
    }
    auto host = [&](int in, const std::string& name) { Op& o = p.op("host", 0); o.set("in", in).set("name", name).set("kind", r.pick(std::vector<i64>{K_SRC, K_SRC, K_PROXY, K_PROXY, K_OFF, K_EDGE})).set("no", id++); };
    int ng = (int) r.range(0, 2); for (int i = 0; i < ng; ++i) host(0, "g" + std::to_string(i) + ".com");
    bool gdef = r.chance(6); if (gdef) host(0, "*");
    if (r.chance(8)) host(0, "*.gw.com");
    std::set<std::pair<i64, std::string>> used;
    for (auto& s : srvs) {
        int nh = (int) r.range(0, 3);
        for (int i = 0; i < nh; ++i) { std::string n = r.chance(50) ? "same" + std::to_string(r.below(2)) + ".com" : "own" + std::to_string(id) + ".com";
            if (r.chance(25)) n = r.pick(std::vector<std::string>{"*.w.com", "*.com", gdef ? "*.w.com" : "*", "a.w.com"}); if (used.insert({s.i("port") * 2 + (s.s("tr") == "srt"), n}).second) host((int) s.i("sid"), n); }
    }
    p.k["gblk"] = std::to_string(r.below(3)); p.k["decoys"] = r.chance(60) ? "1" : "0";
    if (r.chance(35)) { p.k["bad"] = BAD[r.below(11)]; p.k["badpos"] = std::to_string(r.below(1000)); }
    else if (r.chance(45)) {
        static const char* F[] = {"socket", "bind", "listen", "setsockopt", "getsockname", "netfd", "thread", "srt_create", "srt_bind", "srt_listen", "srt_epoll", "conf_read", "srt_epoll_create"};
        int n = (int) r.range(1, 2); for (int i = 0; i < n; ++i) p.faults[F[r.below(13)]] = r.pick(std::vector<i64>{15, 30, 60, 100});
        p.faults["from"] = 0; p.faults["until"] = 400000;
    }
}

// ------------------------------------------------------------ the text
struct Text {
    Rng r; bool plain; bool crlf = false; std::vector<std::string> l; int depth = 0;
    Text(u64 fmt) : r(fmt), plain(fmt == 0) { crlf = !plain && r.chance(15); }
    std::string ind() { if (plain) return std::string(depth * 4, ' '); return std::string(r.below(8), r.chance(30) ? '\t' : ' '); }
    std::string gap() { return plain ? " " : std::string(1 + r.below(3), r.chance(30) ? '\t' : ' '); }
    std::string tail() {
        if (plain) return "";
        static const std::vector<std::string> C = {"#", "# a comment", "#x", "# }", "# {", "# role proxy;", "#;", " # listen_port 1; more", "# host x {"};
        std::string s; if (r.chance(20)) s += gap(); if (r.chance(25)) s += " " + r.pick(C); return s;
    }
    void noise() {
        if (plain) return;
        static const std::vector<std::string> C = {"", "", "   ", "\t", "# comment", "#", "#role source;", "# role source; # twice", "# }", "#}", "   # host a.com {", "# listen_port 1; listen_port 2;", "# a; b", "## ; } {", "#; x"};
        while (r.chance(25)) l.push_back(r.pick(C));
    }
    void item(const std::string& k, const std::string& v) { noise(); l.push_back(ind() + k + gap() + v + (!plain && r.chance(20) ? " ;" : ";") + tail()); }
    void open(const std::string& k, const std::string& n = "") { noise(); l.push_back(ind() + k + gap() + (n.empty() ? "" : n + gap()) + "{" + tail()); depth++; }
    void shut() { noise(); depth--; l.push_back(ind() + "}" + tail()); }
    void block(std::vector<std::function<void()>> v) { if (!plain) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); for (auto& f : v) f(); }
};
static std::string up_ip(int no) { return "203.0.113." + std::to_string(no); }
static void put_host(Text& t, const CHost& h, bool cert) {
    t.open("host", h.name);
    std::vector<std::function<void()>> v;
    v.push_back([&t, h] { t.item("role", h.kind == K_PROXY ? "proxy" : h.kind == K_EDGE ? "edge" : "source"); });
    v.push_back([&t, h] { t.item("type", h.kind == K_PROXY ? "proxy" : "stream"); });
    if (h.kind != K_PROXY) v.push_back([&t] { t.item("edge_avformat", "all"); });
    if (h.kind == K_OFF) v.push_back([&t] { t.item("enabled", "off"); }); else if (t.plain || t.r.chance(60)) v.push_back([&t] { t.item("enabled", "on"); });
    if (h.kind == K_PROXY || h.kind == K_EDGE) v.push_back([&t, h] { t.item("pass_proxy", up_ip(h.no) + ":" + std::to_string(7000 + h.no)); });
    if (cert) { v.push_back([&t] { t.item("ssl_crt_file", CERTS "/a.crt"); }); v.push_back([&t] { t.item("ssl_key_file", CERTS "/a.key"); }); }
    if (!t.plain && t.r.chance(20)) v.push_back([&t] { t.item("avformat", "rtmp"); });
    t.block(v); t.shut();
}
static void put_srv(Text& t, const CSrv& s, const Op& o) {
    t.open("server", "s" + std::to_string(s.id));
    std::vector<std::function<void()>> v;
    v.push_back([&t, s] { t.item("listen_port", std::to_string(s.port)); });
    if (s.tr != "tcp" || t.plain || t.r.chance(50)) v.push_back([&t, s] { t.item("transport", s.tr); });
    if (s.rto > 0) v.push_back([&t, s] { t.item("recv_timeout", std::to_string(s.rto)); });
    if (s.sto > 0) v.push_back([&t, s] { t.item("send_timeout", std::to_string(s.sto)); });
    if (o.i("reuse")) v.push_back([&t, &o] { t.item("reuse_port", o.i("reuse") == 1 ? "on" : "off"); });
    if (o.i("backlog")) v.push_back([&t] { t.item("backlog", "128"); });
    if (t.plain || t.r.chance(50)) v.push_back([&t] { t.item("server_name", "default"); });
    for (auto& h : s.hosts) v.push_back([&t, h, s] { put_host(t, h, true); });
    t.block(v); t.shut();
}

// ------------------------------------------------------------ the run
static std::vector<CSrv> g_srv; static std::vector<CHost> g_glob;
static Kind lookup(const CSrv& s, const std::string& name, int* no) {
    size_t dot = name.find('.'); Kind off = K_NONE;
    for (auto& want : {name, dot == std::string::npos ? std::string("?") : "*" + name.substr(dot), std::string("*")}) {      // the name itself, then *.parent, then *
        std::vector<const CHost*> v; for (auto& h : g_glob) v.push_back(&h);
        for (auto& x : g_srv) if (x.port == s.port && (x.tr == "srt") == (s.tr == "srt")) for (auto& h : x.hosts) v.push_back(&h);
        for (auto h : v) if (h->name == want) { if (h->kind != K_OFF) { *no = h->no; return h->kind; } off = K_OFF; }
    }
    return off;
}
static bool listening(const CSrv& s) { return s.tr == "srt" ? srt_listening(s.port) : server_listening(s.port); }
static const char* KN[] = {"unknown", "a source", "proxied", "disabled", "an edge"};
static std::map<int, std::set<std::string>> g_asked;       // what each upstream was asked for
static void origin(std::shared_ptr<Listener> l, int no) {
    for (;;) {
        auto t = actor_accept(l.get(), NEVER); if (!t) return;
        spawn("origin", [t, no] { TcpConn c(t, 1); HttpMsg m; while (read_head(c, m, 60000000) == 1) { g_asked[no].insert(m.start.substr(0, m.start.rfind(' '))); std::string b = "origin " + std::to_string(no); if (!c.Conn::write("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b)) break; } c.close(); });
    }
}
static void probe(const CSrv& s, const std::string& name, int id) {
    int no = 0; Kind k = lookup(s, name, &no); bool gone = k == K_NONE || k == K_OFF; Rng r(hash3(g_seed, id, 0xc0f));
    Op o; o.id = id; o.set("link", "clean").set("host", name).set("cap", 64).set("lat", 1000);
    auto what = [&] { return "host " + name + " (" + KN[k] + ") of server s" + std::to_string(s.id) + " (" + s.tr + " " + std::to_string(s.port) + ")"; };
    count(gone ? "probe.unknown" : k == K_SRC ? "probe.source" : "probe.proxy");
    if (s.tr == "srt") {
        if (k == K_PROXY || k == K_EDGE) return;
        o.set("sid", "#!::h=" + name + "/live/p" + std::to_string(id) + ",m=publish"); auto c = dial(o, s.port, "srt", r);
        if (!c) { violation("C21", "%s: no SRT session", what().c_str()); return; }
        TsOpt to; to.units = 6; to.max_au = 500; std::string b = make_ts(r, to).bytes; c->write(b.substr(0, 188 * 4)); sleep_us(700000);
        bool held = !c->peer_gone() && c->srv_open();
        if (held == gone) violation("C21", "%s: the SRT publisher is %s", what().c_str(), held ? "served" : "turned away");
        c->close(); return;
    }
    auto t = dial(o, s.port, "tcp", r); PConn c = t;
    if (!t) { violation("C21", "%s: connection refused", what().c_str()); return; }
    if (s.tr == "https") {
        c = tls_wrap(t, name, 10000000, nullptr);
        bool cert = !gone;
        if (!c != !cert) { violation("C21", "%s: TLS handshake %s", what().c_str(), c ? "done" : "failed"); }
        if (!c) return;
    }
    HttpMsg m;
    if (k == K_SRC) {
        std::string h = "POST /live/p" + std::to_string(id) + ".flv HTTP/1.1\r\nHost: " + name + "\r\n\r\n" + flv_header(); uint32_t prev = 0;
        for (auto& x : make_stream(r, id, 5, 100)) { h += flv_tag(x, prev); prev = 11 + x.body.size(); }
        c->write(h); u64 b0 = c->srv_sent(); sleep_us(500000);
        if (!t->srv_open()) violation("C21", "%s: its publisher is turned away", what().c_str());
        else if (s.tr == "tcp" && c->srv_sent() != b0) violation("C21", "%s: its publisher gets an answer", what().c_str());
    } else if (k == K_EDGE) {
        std::string path = "/live/e" + std::to_string(id) + ".flv"; bool pub = r.chance(50);
        if (pub) {
            c->write("POST " + path + " HTTP/1.1\r\nHost: " + name + "\r\n\r\n"); int rc = read_head(*c, m, 5000000);
            if (rc != 1 || m.status != 403) violation("C21", "%s: publishing there is answered %d", what().c_str(), rc == 1 ? m.status : -1);
        } else {
            c->write("GET " + path + " HTTP/1.1\r\nHost: " + name + "\r\n\r\n"); sleep_us(2000000);
            if (!g_asked[no].count("GET " + path)) violation("C21", "%s: its upstream was not asked for a stream", what().c_str());
        }
    } else {
        c->write("GET /x HTTP/1.1\r\nHost: " + name + "\r\n\r\n"); int rc = read_head(*c, m, 5000000); std::string b;
        if (rc == 1) { auto cl = m.get("Content-Length"); b.assign(cl ? atoi(cl->c_str()) : 0, 0); if (b.size()) c->read_n(&b[0], b.size(), 5000000); }
        if (gone ? m.status != 404 : m.status != 200 || b != "origin " + std::to_string(no)) violation("C21", "%s: status %d, \"%.40s\"", what().c_str(), rc == 1 ? m.status : -1, b.c_str());
    }
    c->close();
}
static void idle_probe(const CSrv& s, int id) {
    Rng r(hash3(g_seed, id, 0x1d7e)); Op o; o.id = id; o.set("link", "clean");
    auto c = dial(o, s.port, "tcp", r); if (!c) { violation("C21", "server s%d: connection refused", s.id); return; }
    u64 t0 = now(); char b[64]; u64 lim = s.rto > 0 ? s.rto + 1500000 : 12000000; c->read(b, sizeof b, lim); u64 d = now() - t0; bool closed = c->peer_gone();
    if (s.rto > 0 ? !closed || d + 50000 < (u64) s.rto : closed) violation("C21", "server s%d with receive timeout %.1f s: a silent client is %s after %.3f s", s.id, s.rto / 1e6, closed ? "closed" : "held", d / 1e6);
    count("probe.timeout"); c->close();
}
void conf_run(const Plan& p) {
    crypto_init(); g_alias = nullptr; W.end_slack = 1500000;
    static std::vector<Op> so; std::map<int, size_t> at_;
    for (auto& o : p.ops) if (o.kind == "srv") { at_[(int) o.i("sid")] = g_srv.size(); so.push_back(o); g_srv.push_back({(int) o.i("sid"), (int) o.i("blk"), (int) o.i("port"), o.s("tr"), o.i("rto"), o.i("sto"), {}}); }
    std::vector<std::string> names; std::set<std::string> seen;
    for (auto& o : p.ops) if (o.kind == "host") {
        CHost h{o.s("name"), (Kind) o.i("kind"), (int) o.i("no")}; int in = (int) o.i("in");
        if (in && !at_.count(in)) continue;
        if (in) g_srv[at_[in]].hosts.push_back(h); else g_glob.push_back(h);
        std::string pn = h.name == "*" ? "any.net" : h.name[0] == '*' ? "q" + h.name.substr(1) : h.name;
        if (seen.insert(pn).second) names.push_back(pn);
        if (h.kind == K_PROXY || h.kind == K_EDGE) { auto l = actor_listen(up_ip(h.no), 7000 + h.no); int n = h.no; spawn("origin", [l, n] { origin(l, n); }); }
    }
    names.push_back("nobody.org");
    std::string bad = p.ks("bad"); u64 bp = p.ki("badpos");
    // ---- write it
    Text t((u64) p.ki("fmt")); std::vector<std::function<void()>> top;
    if (bad == "transport") {           // one port, two kinds of listener
        if (g_srv.empty() || g_srv[0].tr == "srt") bad = ""; else { CSrv s = g_srv[0]; s.id = 99; s.tr = s.tr == "tcp" ? "https" : "tcp"; s.hosts.clear(); g_srv.push_back(s); so.push_back(so[0]); }
    }
    if (bad == "dup") {
        std::vector<size_t> c; auto on = [bp](const std::vector<CHost>& v) { for (size_t i = 0; i < v.size(); ++i) { auto& h = v[(i + bp / 2) % v.size()]; if (h.kind != K_OFF) return &h; } return (const CHost*) nullptr; };
        for (size_t i = 0; i < g_srv.size(); ++i) if (on(g_srv[i].hosts) || on(g_glob)) c.push_back(i);
        if (c.empty()) bad = ""; else { auto& s = g_srv[c[bp % c.size()]]; auto a = on(s.hosts), b = on(g_glob); CHost h = !b || (bp & 1 && a) ? *a : *b; h.kind = K_SRC; s.hosts.push_back(h); }
    }
    for (int blk = 0; blk < 3; ++blk) {
        std::vector<size_t> ix; for (size_t i = 0; i < g_srv.size(); ++i) if (g_srv[i].blk == blk) ix.push_back(i);
        if (ix.empty()) continue;
        top.push_back([&t, ix, blk] { t.open(blk == 2 ? "srt" : "http"); std::vector<std::function<void()>> v; for (size_t i : ix) v.push_back([&t, i] { put_srv(t, g_srv[i], so[i]); }); if (!t.plain && t.r.chance(30)) v.push_back([&t] { t.item("keepalive_timeout", "10"); }); t.block(v); t.shut(); });
    }
    size_t half = p.ki("gblk") == 2 ? g_glob.size() / 2 : 0;
    if (!g_glob.empty() || p.ki("gblk")) {
        if (half) top.push_back([&t, half] { t.open("globalhost"); for (size_t i = 0; i < half; ++i) put_host(t, g_glob[i], true); t.shut(); });
        top.push_back([&t, half] { t.open("globalhost"); for (size_t i = half; i < g_glob.size(); ++i) put_host(t, g_glob[i], true); t.shut(); });
    }
    if (p.ki("decoys")) { top.push_back([&t] { t.item("comment", "core"); }); top.push_back([&t] { t.open("upstream", "u1"); t.item("server", "127.0.0.1:8080"); t.item("keepalive", "80"); t.shut(); }); }
    t.block(top); t.noise();
    // ---- break it
    auto lines = [&](std::function<bool(const std::string&)> f) { std::vector<size_t> v; for (size_t i = 0; i < t.l.size(); ++i) { auto a = t.l[i].find_first_not_of(" \t"); if (a != std::string::npos && t.l[i][a] != '#' && f(t.l[i])) v.push_back(i); } return v; };
    auto code = [](const std::string& s) { auto h = s.find('#'); std::string c = s.substr(0, h); auto e = c.find_last_not_of(" \t"); return e == std::string::npos ? std::string() : c.substr(0, e + 1); };
    auto ends = [&](char ch) { return lines([&, ch](const std::string& s) { auto c = code(s); return !c.empty() && c.back() == ch; }); };
    auto closes = ends('}'), opens = ends('{'), items = ends(';');
    if (bad == "open") { if (closes.empty()) bad = ""; else t.l.erase(t.l.begin() + closes[bp % closes.size()]); }
    else if (bad == "trunc") {         // the file ends inside a block
        std::vector<size_t> in; int d = 0; for (size_t i = 0; i < t.l.size(); ++i) { if (std::find(opens.begin(), opens.end(), i) != opens.end()) d++; if (std::find(closes.begin(), closes.end(), i) != closes.end()) d--; if (d > 0) in.push_back(i); }
        if (in.empty()) bad = ""; else t.l.resize(in[bp % in.size()] + 1);
    }
    else if (bad == "extra") t.l.insert(t.l.begin() + bp % (t.l.size() + 1), "}");
    else if (bad == "noend") { if (items.empty()) bad = ""; else { auto& s = t.l[items[bp % items.size()]]; s = code(s); s.pop_back(); } }
    else if (bad == "block") t.l.insert(t.l.begin() + bp % (t.l.size() + 1), {"location2 x {", "}"});
    else if (bad == "anon") { auto v = lines([&](const std::string& s) { return s.find("host") == s.find_first_not_of(" \t") && code(s).back() == '{'; }); if (v.empty()) bad = ""; else t.l[v[bp % v.size()]] = "host {"; }
    else if (bad == "nest") { auto v = lines([&](const std::string& s) { return s.find("server ") == s.find_first_not_of(" \t") && code(s).back() == '{'; }); if (v.empty()) bad = ""; else { size_t i = v[bp % v.size()]; t.l.insert(t.l.begin() + i + 1, {"server inner {", "listen_port 1;", "}"}); } }
    else if (bad == "lonely") t.l.insert(t.l.begin() + bp % (t.l.size() + 1), bp & 1 ? "role" : "role;");
    std::string conf; for (auto& s : t.l) conf += s + (t.crlf ? "\r\n" : "\n");
    if (!t.plain && t.r.chance(20) && conf.size()) conf.resize(conf.size() - (t.crlf ? 2 : 1));
    if (g_verbose) vlog("CONFIG bad=%s\n%s", bad.c_str(), conf.c_str());
    start_server_raw(conf, bad == "missing");
    static bool checked = false;
    at(500000, [p, bad, names] {
        checked = true;
        if (S.exited) {
            trace("refused", S.exit_code & 255);
            if ((S.exit_code & 255) == 0) violation("C21", "the server gives up starting but exits with status 0");
            if (!bad.empty()) { count(("refused." + bad).c_str()); g_shm->nontrivial = 1; }
            else if (p.faults.count("until") && faults_hit()) { count("refused.fault"); g_shm->nontrivial = 1; }
            else violation("C21", "the server refuses a correct configuration (exit status %d)", S.exit_code & 255);
            return;
        }
        if (!bad.empty()) { violation("C21", "the server runs with a broken configuration (%s)", bad.c_str()); return; }
        bool all = true;
        for (auto& s : g_srv) if (!listening(s)) { all = false; violation("C21", "the server runs but server s%d (%s %d) does not listen", s.id, s.tr.c_str(), s.port); }
        if (!all) return;
        g_shm->nontrivial = 1; int id = 100;
        for (auto& s : g_srv) {
            for (auto& n : names) { int i = id++; const CSrv* q = &s; spawn("probe", [q, n, i] { probe(*q, n, i); }); }
            if (s.tr != "srt") { int i = id++; const CSrv* q = &s; spawn("idle", [q, i] { idle_probe(*q, i); }); }
        }
    });
    at(20000000, [] { stop_world("done"); });
    run_world(60000000, 3000000);
    if (g_stop_why == "steps") violation("HANG", "the server does not come to rest (%llu scheduler steps)", (unsigned long long) S.steps);
    bool dead = S.exited && (bad.empty() && !(p.faults.count("until") && faults_hit()));
    if (dead && checked) violation("DOWN", "the server process ended (code %d)", S.exit_code);
    finish_common();
}
}
