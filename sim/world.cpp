#include "world.hpp"
#include "shm.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>

int sps_main(int argc, char* argv[]);

namespace sim {
World W;

bool Conn::read_n(void* b, size_t n, u64 timeout) {
    size_t o = 0;
    while (o < n) { ssize_t r = read((char*) b + o, n - o, timeout); if (r <= 0) return false; o += r; }
    return true;
}

// -------------------------------------------------------------- links
size_t g_min_win = 0;
LinkProfile op_link(const Op& op, Rng& r) {
    std::string l = op.s("link", "rand");
    LinkProfile lp;
    if (l == "clean") { lp.srv_snd = lp.srv_rcv = lp.cli_snd = lp.cli_rcv = 1 << 20; return lp; }
    if (l == "big") { lp = random_link(r, false); lp.srv_snd = lp.srv_rcv = lp.cli_snd = lp.cli_rcv = 4 << 20; return lp; }
    if (l == "tls") { lp = random_link(r, r.chance(40)); lp.cli_snd = 4 << 20; lp.lat = std::min<u64>(lp.lat, 20000); lp.jit = std::min<u64>(lp.jit, 20000); return lp; }
    if (l == "tiny") { lp = random_link(r, true); return lp; }
    lp = random_link(r, r.chance(30));
    lp.cli_snd = std::max(lp.cli_snd, g_min_win); lp.srv_rcv = std::max(lp.srv_rcv, g_min_win);
    if (op.has("snd")) lp.srv_snd = op.i("snd");
    if (op.has("rcv")) lp.cli_rcv = op.i("rcv");
    return lp;
}
// bytes over SRT messages; a message counts as delivered when the server has read it
struct SrtByteConn : Conn {
    std::shared_ptr<SrtConn> s; std::string buf; size_t off = 0; u64 sent_msgs = 0; size_t msz = 1316; bool vanished = false;
    bool write(const void* b, size_t n, u64 to) override {
        const char* p = (const char*) b;
        while (n) { size_t k = std::min<size_t>(n, msz); if (!srt_actor_send(s.get(), p, k, to)) return false; p += k; n -= k; sent_msgs++; }
        return true;
    }
    ssize_t read(void* b, size_t n, u64 to) override {
        if (off == buf.size()) { buf.clear(); off = 0; int r = srt_actor_recv(s.get(), buf, to); if (r == 0) return 0; if (r < 0) return -2; }
        size_t k = std::min(n, buf.size() - off); memcpy(b, buf.data() + off, k); off += k; return k;
    }
    void close() override { srt_actor_close(s.get()); }
    void reset() override { srt_actor_vanish(s.get()); }
    u64 wpos() override { return 1 + sent_msgs; }
    u64 delivered() override { return s->accepted ? 1 + s->s[1].total_recv : 0; }
    bool srv_open() override { return s->s[1].open; }
    u64 srv_closed_at() override { return s->s[1].closed_at; }
    u64 srv_sent() override { return s->s[1].total_sent; }
    bool end_seen() override { return s->s[1].broken_at > 0; }
    u64 end_seen_at() override { return s->s[1].broken_at; }
    bool peer_gone() override { return s->s[0].broken; }
    bool timed() override { return true; }
    u64 t_deliv() override { return s->s[1].last_recv_at; }
    u64 t_write() override { return s->s[1].last_send_at; }
    bool blocked() override { return s->s[1].blocked; }
    bool srv_blocked() override { return s->s[1].blocked; }
    u64 blocked_since() override { return s->s[1].blocked_since; }
    bool exact() override { return false; }
    u64 srv_unread() override { return s->s[1].rcvq.size(); }
    bool srt() override { return true; }
};
PConn dial(const Op& op, int port, const std::string& tr, Rng& r, std::function<void(PConn)> early) {
    u64 id = (u64) op.id * 16 + (u64) op.i("cno", 0);
    if (tr == "srt") {
        SrtProfile pf; pf.lat = r.pick(std::vector<u64>{100, 1000, 20000, 60000}); pf.jit = r.below(pf.lat); pf.loss = op.i("loss", 0); pf.cap = op.i("cap", 64); if (op.has("lat")) { pf.lat = op.i("lat"); pf.jit = 0; }
        auto c = std::make_shared<SrtByteConn>(); c->msz = op.i("msz", 1316);
        auto s = srt_actor_connect(port, op.s("sid"), pf, id, [&](std::shared_ptr<SrtConn> x) { c->s = x; if (early) early(c); });
        if (!s) return nullptr;
        return c;
    }
    LinkProfile lp = op_link(op, r);
    auto t = tcp_connect(port, lp, id);
    if (!t) return nullptr;
    PConn c = std::make_shared<TcpConn>(t, 0);
    if (tr == "tls") {
        u64 t0 = now();
        PConn w = tls_wrap(c, op.s("sni", op.s("host").c_str()), op.i("hs_to", 15000000), nullptr, (int) op.i("fs"));
        if (!w && !op.i("may_fail") && !S.exited) {
            violation("C16", "TLS handshake %d with %s failed after %.3f s", op.id, op.s("sni", op.s("host").c_str()).c_str(), (now() - t0) / 1e6);
            violation("C17", "TLS handshake %d with %s failed after %.3f s", op.id, op.s("sni", op.s("host").c_str()).c_str(), (now() - t0) / 1e6);
        } else if (w && !op.i("may_fail") && now() - t0 > 5000000) violation("C17", "TLS handshake %d took %.3f s", op.id, (now() - t0) / 1e6);
        return w;
    }
    return c;
}

// -------------------------------------------------------------- FLV
static void be24(std::string& s, uint32_t v) { s += (char) (v >> 16); s += (char) (v >> 8); s += (char) v; }
static void be32(std::string& s, uint32_t v) { s += (char) (v >> 24); be24(s, v); }
std::string flv_header() { return std::string("FLV\x01\x05\x00\x00\x00\x09", 9); }
size_t flv_tag_len(const Tag& t) { return 15 + t.body.size(); }
std::string flv_tag(const Tag& t, uint32_t prev) {
    std::string s; be32(s, prev); s += (char) t.type; be24(s, t.body.size()); be24(s, t.dts & 0xffffff); s += (char) (t.dts >> 24); be24(s, 0); s += t.body; return s;
}
Tag make_tag(Rng& r, u64 owner, size_t idx, TagKind k, uint32_t dts, size_t max_body) {
    Tag t; t.kind = k; t.dts = dts;
    size_t n;
    switch (r.below(10)) {
        case 0: n = 1 + r.below(4); break;
        case 1: n = 1 + r.below(max_body); break;
        case 2: n = 1 + r.below(std::min<size_t>(max_body, 4000)); break;
        default: n = 8 + r.below(std::min<size_t>(max_body, 300));
    }
    if (r.chance(1)) n = k == TK_SCRIPT;
    std::string pay(n, 0);
    Rng q(hash3(owner, idx, 0xf17));
    for (size_t i = 0; i < n; i += 8) { u64 v = q.next(); memcpy(&pay[i], &v, std::min<size_t>(8, n - i)); }
    if (r.chance(5)) std::fill(pay.begin() + std::min<size_t>(8, n), pay.end(), (char) r.below(256));
    std::string b;
    switch (k) {
        case TK_SCRIPT: t.type = 18; b = pay; break;
        case TK_ACFG: t.type = 8; b += (char) (0xa0 | r.below(16)); b += (char) 0; b += pay; break;
        case TK_VCFG: t.type = 9; b += (char) (r.chance(80) ? 0x17 : 0x1c); b += (char) 0; be24(b, r.below(1 << 24)); b += pay; break;
        case TK_KEY: t.type = 9; b += (char) (r.chance(80) ? 0x17 : 0x1c); b += (char) (1 + r.below(2)); be24(b, r.chance(70) ? r.below(500) : r.below(1 << 24)); b += pay; break;
        default:
            if (r.chance(45)) { t.type = 8; b += (char) (0xa0 | r.below(16)); b += (char) (r.chance(95) ? 1 : 1 + r.below(255)); b += pay; }
            else {
                t.type = 9;
                int ft = r.chance(92) ? 2 : r.pick(std::vector<int>{3, 4, 5});
                b += (char) (ft << 4 | (r.chance(80) ? 7 : 12));
                if (ft != 5) { b += (char) (1 + r.below(2)); be24(b, r.chance(70) ? r.below(500) : r.below(1 << 24)); }
                b += pay;
            }
    }
    t.body = b;
    return t;
}
std::vector<Tag> make_stream(Rng& r, u64 owner, size_t n, size_t max_body) {
    std::vector<Tag> v;
    uint32_t dts = r.pick(std::vector<uint32_t>{0, 0, 1000, 0xfffff0, 0x7ffffff0, 0xfffffff0u});
    if (r.chance(40)) dts = (uint32_t) r.next();
    bool script = r.chance(70), acfg = r.chance(85), vcfg = r.chance(85);
    int gop = r.chance(15) ? 1 : r.chance(12) ? (int) r.range(26, 2000) : (int) r.range(2, 25);
    bool back = r.chance(10), rep = r.chance(10);     // time stamps that step back; tags sent twice
    bool has_video = r.chance(90);
    size_t since = r.chance(70) ? gop : 0;
    for (size_t i = 0; i < n; ++i) {
        TagKind k = TK_FRAME;
        if (script) { k = TK_SCRIPT; script = false; }
        else if (acfg && r.chance(70)) { k = TK_ACFG; acfg = false; }
        else if (vcfg && has_video) { k = TK_VCFG; vcfg = false; }
        else if (acfg) { k = TK_ACFG; acfg = false; }
        else if (r.chance(2)) k = (TagKind) r.below(3);      // configuration changes mid-stream
        else if (has_video && since >= (size_t) gop) { k = TK_KEY; since = 0; }
        since++;
        if (rep && i && r.chance(8)) { v.push_back(v[i - 1 - r.below(std::min<size_t>(i, 12))]); if (r.chance(50)) v.back().dts = dts; }
        else v.push_back(make_tag(r, owner, i, k, dts, max_body));
        if (back && r.chance(20)) v.back().dts -= r.below(100);
        dts += r.chance(90) ? r.below(45) : r.below(3000);
    }
    return v;
}

// -------------------------------------------------------------- HTTP
const std::string* HttpMsg::get(const char* n) const { for (auto& x : h) if (!strcasecmp(x.first.c_str(), n)) return &x.second; return nullptr; }
bool parse_head(const std::string& raw, HttpMsg& m) {
    m.raw = raw; m.h.clear(); m.status = 0;
    size_t e = raw.find("\r\n"); if (e == std::string::npos) return false;
    m.start = raw.substr(0, e);
    size_t i = e + 2;
    while (i < raw.size()) {
        size_t j = raw.find("\r\n", i); if (j == std::string::npos) return false;
        if (j == i) break;
        std::string l = raw.substr(i, j - i); i = j + 2;
        size_t c = l.find(':'); if (c == std::string::npos) return false;
        size_t v = c + 1; while (v < l.size() && (l[v] == ' ' || l[v] == '\t')) v++;
        while (l.size() > v && (l.back() == ' ' || l.back() == '\t')) l.pop_back();
        m.h.push_back({l.substr(0, c), l.substr(v)});
    }
    if (!m.start.compare(0, 9, "HTTP/1.1 ") || !m.start.compare(0, 9, "HTTP/1.0 ")) m.status = atoi(m.start.c_str() + 9);
    return true;
}
int read_head(Conn& c, HttpMsg& m, u64 timeout) {
    std::string s; char ch; u64 dl = timeout == NEVER ? NEVER : now() + timeout;
    for (;;) {
        u64 left = dl == NEVER ? NEVER : (now() >= dl ? 0 : dl - now());
        if (left == 0) return -2;
        ssize_t r = c.read(&ch, 1, left);
        if (r == 0) return 0;
        if (r < 0) return (int) r;
        s += ch;
        if (s.size() >= 4 && !s.compare(s.size() - 4, 4, "\r\n\r\n")) return parse_head(s, m) ? 1 : -3;
        if (s.size() > 100000) return -3;
    }
}
std::string chunk_head(size_t n, Rng& r) {
    char z[40]; snprintf(z, sizeof z, r.chance(50) ? "%zx" : "%zX", n);
    std::string s = z;
    if (r.chance(4)) s = std::string(1 + r.below(12), '0') + s;
    if (r.chance(6)) {
        switch (r.below(4)) {
            case 0: s += ";ext=1"; break;
            case 1: s += ";sig=" + std::string(64, 'a' + (char) r.below(26)); break;      // as signed uploads have them
            case 2: s += " ; a=\"b c\";d"; break;
            default: s += ";v=\"" + std::string(r.below(400), 'x') + "\""; break;
        }
    }
    return s + "\r\n";
}

void write_paced(Conn& c, const std::string& s, Rng& r, int mode, bool* ok) {
    *ok = true;
    if (mode == 0) { *ok = c.write(s); return; }
    size_t o = 0;
    while (o < s.size()) {
        size_t k = std::min<size_t>(s.size() - o, mode == 1 ? 1 + r.below(40) : 1 + r.below(4));
        if (!c.write(s.data() + o, k)) { *ok = false; return; }
        o += k;
        if (r.chance(40) && o < s.size()) sleep_us(r.below(30000));
    }
}

// -------------------------------------------------------------- server
void start_server(const std::string& src) {
    std::string conf; for (char ch : src) { conf += ch; if (ch == ';') conf += '\n'; }   // one directive per line
    start_server_raw(conf, false);
}
void start_server_raw(const std::string& conf, bool missing) {
    int fd = memfd_create("conf", 0);
    if (fd != 101) { dup2(fd, 101); close(fd); fd = 101; }
    (void) !write(fd, conf.data(), conf.size());
    (void) !chdir("/proc/self");
    server_start([missing] {
        static char a0[] = "sps", a1[] = "fd/101"; if (missing) a1[5] = '9'; static char* av[] = {a0, a1, nullptr};
        return sps_main(2, av);
    });
}
bool wait_listening(int port, bool udp, u64 limit) {
    u64 dl = now() + limit;
    while (!server_listening(port, udp) && now() < dl && !S.exited) sleep_us(1000);
    return server_listening(port, udp);
}

// -------------------------------------------------------------- tracking at idle moments
void World::track() {
    for (auto& p : pubs) {
        p->prev_proc = p->proc; p->prev_live = p->live;
        if (!p->c || p->dead) { p->live = false; continue; }
        u64 d = p->c->delivered();
        bool head = d >= p->hdr_wpos && p->hdr_wpos != NEVER;
        if (head && !p->head_seen_idle) p->head_seen_idle = idle_seq();
        while (p->proc < p->tags.size() && p->tags[p->proc].wend <= d) { p->proc++; p->last_idle_proc_t = now(); }
        p->prev_rproc = p->rproc;
        while (p->rproc < p->raw.size() && p->raw[p->rproc].wend <= d) p->rproc++;
        bool open = p->c->srv_open() && !S.exited;
        bool answered = !p->upstream && p->c->srv_sent() > 0 && p->no_reply;
        if (head && !open) {
            p->dead = true; p->dead_at = now();
            if (!p->was_live && p->end_begin == NEVER && !p->c->end_seen() && d < p->end_wpos) p->refused = true;
            p->live = false;
        } else if (head && answered) { p->live = false; if (!p->was_live) p->refused = true; }
        else if (head) {
            p->live = true; p->was_live = true; if (p->live_at == NEVER) p->live_at = now();
        } else p->live = false;
        check_pub(*p, p->prev_live);
    }
    // single publisher per stream
    for (auto& kv : by_key) {
        int n = 0; Pub *a = nullptr, *b = nullptr;
        for (auto& p : kv.second) if (p->live) { n++; if (!a) a = p.get(); else b = p.get(); }
        if (n > 1) violation(a->upstream && b->upstream ? "C05" : "C04", "stream %s has %d sources at once (%d and %d) at t=%.3f", kv.first.c_str(), n, a->id, b->id, now() / 1e6);
        // an unjustified refusal: judged in this interval with no other source around
        for (auto& p : kv.second) {
            if (p->head_seen_idle == idle_seq()) {
                bool other = false;
                for (auto& q : kv.second) if (q != p) {
                    bool near = q->live || q->prev_live || (q->dead && q->dead_at == now()) || q->head_seen_idle == idle_seq() || q->conflict;
                    if (near) other = true;
                }
                p->conflict = false;
                if (!other && !p->tainted && p->refused && !p->upstream)
                    violation("C04", "publisher %d of %s refused although the stream had no source at t=%.3f", p->id, kv.first.c_str(), now() / 1e6);
            }
        }
    }
    for (auto& p : plays) {
        if (!p->c) continue;
        if (!p->head_idle && p->hdr_wpos != NEVER && p->c->delivered() >= p->hdr_wpos) { p->head_idle = idle_seq(); p->head_t = now(); }
        if (p->head_idle && !p->ans_idle && (p->raw || p->c->srv_sent() > p->hdr_len || !p->c->srv_open())) {
            p->ans_idle = idle_seq(); p->ans_t = now();
            bool only = false, any = false;
            for (auto& q : by_key[p->key]) {
                if (p->raw && !q->has_raw) continue;
                if (q->live || q->prev_live || (q->was_live && q->dead_at == now()) || (q->head_seen_idle == idle_seq())) {
                    any = true;
                    p->cands.push_back({q, q->prev_proc, q->proc, q->prev_live, q->live, q->prev_rproc, q->rproc});
                    if (q->live && q->prev_live) only = true;
                }
            }
            p->only_live = only; p->none_live = !any; p->raw_att = any && (only || p->c->srv_open());
        }
        check_play(*p);
        if (p->ans_idle) {
            bool open = p->c->srv_open();
            u64 s = p->c->srv_sent(); bool b = p->c->srv_blocked();
            size_t proc = 0, rproc = 0; bool lv = false; PPub src;
            if (p->cands.size() == 1) { proc = p->cands[0].p->proc; lv = p->cands[0].p->live; if (p->raw) rproc = p->cands[0].p->rproc; }
            if (p->recs.empty() || p->recs.back().sent != s || p->recs.back().blocked != b || p->recs.back().open != open || p->recs.back().proc != proc || p->recs.back().rproc != rproc || p->recs.back().live != lv)
                p->recs.push_back({now(), s, b, open, proc, lv, rproc});
        }
    }
    for (auto& f : idle_checks) f();
    prev_idle_t = now();
}

// -------------------------------------------------------------- timeouts and release
static const u64 PLAY_IDLE = 10000000;
void World::check_pub(Pub& p, bool was_live) {
    if (!p.c || !p.c->timed() || p.upstream) return;
    u64 d = p.c->delivered();
    if (d != p.seen_deliv) { p.seen_deliv = d; u64 t = p.c->t_deliv(); p.last_deliv = t ? t : now(); }
    if (recv_timeout == NEVER || p.tainted) return;
    if (p.live) {
        if (now() > p.last_deliv + recv_timeout + slack) {
            violation("C12", "publisher %d of %s silent since t=%.3f still held at t=%.3f (receive timeout %.1f s)", p.id, p.key.c_str(), p.last_deliv / 1e6, now() / 1e6, recv_timeout / 1e6);
            p.tainted = true;
        }
        if (p.c->end_seen() && now() >= p.c->end_seen_at() + end_slack) { violation("C04", "publisher %d of %s is gone but its stream is not released at t=%.3f", p.id, p.key.c_str(), now() / 1e6); p.tainted = true; }
    }
    if (was_live && p.dead && p.dead_at == now()) {
        u64 t = p.c->srv_closed_at();
        bool ok = p.c->end_seen() || d >= p.end_wpos || p.end_begin <= t || t + 1000 >= p.last_deliv + recv_timeout;
        if (p.c->end_seen() && p.c->srv_unread() && !p.bad_tag && t + 1000 < p.last_deliv + recv_timeout)
            for (auto pr : {"C18", "C19"}) violation(pr, "%llu messages of publisher %d of %s reached the server before the end of the session and were dropped", (unsigned long long) p.c->srv_unread(), p.id, p.key.c_str());
        if (p.c->end_seen()) count("pub.ended"); else if (t + 1000 >= p.last_deliv + recv_timeout) count("pub.recv_timeout");
        if (!ok) {
            const char* props[] = {"C01", "C04", "C12"};
            for (auto pr : props) violation(pr, "publisher %d of %s dropped by the server at t=%.3f, %.3f s after its last bytes (receive timeout %.1f s)", p.id, p.key.c_str(), t / 1e6, (t - p.last_deliv) / 1e6, recv_timeout / 1e6);
        }
    }
}
void World::check_play(Play& p) {
    if (!p.c->timed()) return;
    p.last_sent = p.c->srv_sent(); p.last_sent_t = p.c->t_write();
    if (!p.c->srv_open()) {
        if (!p.close_seen) { p.close_seen = true; p.close_t = p.c->srv_closed_at(); p.close_blocked = p.prev_blocked; p.close_bsince = p.prev_bsince; p.close_end_seen = p.c->end_seen(); }
        return;
    }
    p.prev_blocked = p.c->blocked(); p.prev_bsince = p.c->blocked_since();
    if (p.overdue || !p.ans_idle) return;
    if (p.prev_blocked) {
        if (send_timeout != NEVER && now() > p.prev_bsince + send_timeout + slack) {
            p.overdue = true;
            violation("C12", "player %d of %s takes nothing since t=%.3f and is still held at t=%.3f (send timeout %.1f s)", p.id, p.key.c_str(), p.prev_bsince / 1e6, now() / 1e6, send_timeout / 1e6);
        }
        return;
    }
    int st = p.status_now();
    if (!st || recv_timeout == NEVER) return;
    u64 base = std::max(p.last_sent_t, p.c->t_deliv());
    if (st == 200 && now() > base + PLAY_IDLE + slack) {
        p.overdue = true;
        violation("C15", "player %d of %s got no media since t=%.3f and is still held at t=%.3f", p.id, p.key.c_str(), base / 1e6, now() / 1e6);
    }
    if (st != 200 && now() > base + recv_timeout + slack) {
        p.overdue = true;
        violation("C12", "connection %d idle since t=%.3f is still held at t=%.3f (receive timeout %.1f s)", p.id, base / 1e6, now() / 1e6, recv_timeout / 1e6);
    }
}
void World::check_close(Play& p) {
    if (!p.close_seen || p.close_end_seen || !p.c->timed() || S.exited) return;
    int st = p.status_now();
    if (!st) return;
    if (st == 200) {
        if (p.close_blocked) {
            if (p.close_t >= p.close_bsince + send_timeout || p.last_sent_t > p.close_bsince) { count("play.send_timeout"); return; }
            violation("C12", "player %d of %s dropped at t=%.3f, blocked only since t=%.3f (send timeout %.1f s)", p.id, p.key.c_str(), p.close_t / 1e6, p.close_bsince / 1e6, send_timeout / 1e6);
        } else if (p.close_t + 1000 < p.last_sent_t + PLAY_IDLE)
            violation("C15", "player %d of %s dropped at t=%.3f although media was written to it at t=%.3f", p.id, p.key.c_str(), p.close_t / 1e6, p.last_sent_t / 1e6);
        else count("play.source_gone");
    } else if (recv_timeout != NEVER && p.close_t + 1000 < std::max(p.last_sent_t, p.c->t_deliv()) + recv_timeout) {
        violation("C12", "connection %d dropped at t=%.3f, idle only since t=%.3f (receive timeout %.1f s)", p.id, p.close_t / 1e6, p.last_sent_t / 1e6, recv_timeout / 1e6);
    }
}

// -------------------------------------------------------------- the oracle for one player
static std::vector<size_t> expected_order(const Pub& p, size_t J) {
    std::vector<size_t> o; ssize_t sc = -1, ac = -1, vc = -1, kf = -1;
    for (size_t i = 0; i < J; ++i) switch (p.tags[i].kind) {
        case TK_SCRIPT: sc = i; break; case TK_ACFG: ac = i; break; case TK_VCFG: vc = i; break; case TK_KEY: kf = i; break; default: break; }
    if (sc >= 0) o.push_back(sc);
    if (ac >= 0) o.push_back(ac);
    if (vc >= 0) o.push_back(vc);
    if (kf >= 0) for (size_t i = kf; i < J; ++i) if (p.tags[i].kind == TK_KEY || p.tags[i].kind == TK_FRAME) o.push_back(i);
    for (size_t i = J; i < p.tags.size(); ++i) o.push_back(i);
    return o;
}
static bool same_tag(const Tag& a, const Tag& b) { return a.type == b.type && a.dts == b.dts && a.body == b.body; }

// the transport stream itself, packet by packet
static std::vector<size_t> expected_raw(const Pub& p, size_t J) {
    std::vector<size_t> o; ssize_t pat = -1, pmt = -1; size_t from = 0;
    for (size_t i = 0; i < J; ++i) { int k = p.raw[i].kind; if (k == 0) pat = i; else if (k == 1) pmt = i; else if (k == 2) from = i; }
    if (pat >= 0) o.push_back(pat);
    if (pmt >= 0) o.push_back(pmt);
    for (size_t i = from; i < J; ++i) if (p.raw[i].kind >= 2) o.push_back(i);
    for (size_t i = J; i < p.raw.size(); ++i) o.push_back(i);
    return o;
}
void World::verify_raw(Play& p) {
    if (!p.ans_idle) {
        if (!p.tainted_ && p.t_end > p.t_req + 3000000 && !p.eof && !p.close_seen) violation("C20", "SRT player %d of %s was never taken up", p.id, p.key.c_str());
        return;
    }
    if (p.none_live) {
        count("raw.refused");
        if (!p.rx.empty()) violation("C20", "SRT player %d of %s got data although nothing was published there", p.id, p.key.c_str());
        if (!p.eof && !p.close_seen && p.t_end > p.ans_t + 3000000) violation("C20", "SRT player %d of %s is held although nothing was published there", p.id, p.key.c_str());
        return;
    }
    if (p.rx.empty() && !p.only_live && p.close_seen && p.close_t <= p.ans_t) { count("raw.refused"); return; }
    count("play.200"); p.status = 200;
    if (p.rx.size() % 188) { violation("C18", "SRT player %d of %s: %zu bytes are not whole packets", p.id, p.key.c_str(), p.rx.size()); return; }
    size_t n = p.rx.size() / 188; p.ntags = n; count("raw.packets", n);
    std::string lag; bool ok = false; size_t best = 0, bestJ = 0;
    for (auto& c : p.cands) {
        for (size_t J = c.rlo; J <= c.rhi && !ok; ++J) {
            auto o = expected_raw(*c.p, J);
            size_t k = 0; for (; k < n && k < o.size(); ++k) if (p.rx.compare(k * 188, 188, c.p->ts, c.p->raw[o[k]].off, 188)) break;
            if (k > best) { best = k; bestJ = J; }
            if (k < n) continue;
            bool good = true;
            if (p.cands.size() == 1 && !p.no_lag) {
                size_t njoin = o.size() - (c.p->raw.size() - J);
                for (auto& r : p.recs) {
                    if (!r.open || (p.c->end_seen_at() && r.t >= p.c->end_seen_at())) break;
                    size_t want = njoin + (r.rproc > J ? r.rproc - J : 0);
                    if (r.sent > want || (r.sent < want && !r.blocked)) {
                        char b[200]; snprintf(b, sizeof b, "%llu of %zu packets written at idle t=%.3f (joined at %zu)", (unsigned long long) r.sent, want, r.t / 1e6, J);
                        lag = b; good = false; break;
                    }
                }
            }
            if (!good) continue;
            ok = true; p.src = c.p; p.J = J;
        }
        if (ok) break;
    }
    if (ok) {
        count("oracle.raw_exact"); if (p.J) count("play.join_mid");
        if (p.eof && !p.self_closed && n != p.c->srv_sent()) violation("C18", "SRT player %d of %s: %zu of %llu packets arrived", p.id, p.key.c_str(), n, (unsigned long long) p.c->srv_sent());
        return;
    }
    if (!lag.empty()) { violation("C18", "SRT player %d of %s lags or got too much: %s", p.id, p.key.c_str(), lag.c_str()); return; }
    if (g_verbose) for (auto& c : p.cands) { std::string l; for (size_t k = 0; k < std::min<size_t>(n, 12); ++k) { ssize_t ix = -1; for (size_t x = 0; x < c.p->raw.size(); ++x) if (!p.rx.compare(k * 188, 188, c.p->ts, c.p->raw[x].off, 188)) { ix = x; break; } l += " " + std::to_string(ix) + "k" + std::to_string(ix >= 0 ? c.p->raw[ix].kind : -1); }
        l += " | expected"; auto o = expected_raw(*c.p, c.rlo); for (size_t k = 0; k < std::min<size_t>(o.size(), 12); ++k) l += " " + std::to_string(o[k]) + "k" + std::to_string(c.p->raw[o[k]].kind); vlog("raw: src %d got%s", c.p->id, l.c_str()); }
    // whose packet is the wrong one?
    for (auto& q : pubs) if (q->key != p.key && q->has_raw) for (auto& r : q->raw) if (!p.rx.compare(best * 188, 188, q->ts, r.off, 188)) {
        violation("C18", "SRT player %d of %s: packet %zu belongs to source %d of %s", p.id, p.key.c_str(), best, q->id, q->key.c_str()); return; }
    violation("C18", "SRT player %d of %s joined between packet %zu and %zu, received %zu packets, wrong from %zu (joined at %zu)", p.id, p.key.c_str(),
              p.cands[0].rlo, p.cands[0].rhi, n, best, bestJ);
}
void World::verify_play(Play& p) {
    if (p.verified || p.exempt) return;
    p.verified = true;
    if (p.raw) { verify_raw(p); return; }
    HttpMsg m;
    size_t he = p.rx.find("\r\n\r\n");
    if (p.rx.empty() || he == std::string::npos) {
        if (!p.rx.empty() && (p.eof) && !p.self_closed) violation("C01", "player %d of %s: truncated answer head", p.id, p.key.c_str());
        if (p.rx.empty() && p.head_idle && p.only_live && p.eof && !p.self_closed && p.ans_idle)
            violation("C01", "player %d of %s: connection closed without an answer although the stream was live", p.id, p.key.c_str());
        return;
    }
    p.hdr_len = he + 4;
    if (!parse_head(p.rx.substr(0, he + 4), m) || m.status == 0) { violation("C01", "player %d: malformed answer head", p.id); return; }
    p.status = m.status;
    if (m.status == 404) {
        count("play.404");
        if (p.only_live) violation(edge ? "C06" : "C03", "player %d of %s got 404 at t=%.3f although the stream was live", p.id, p.key.c_str(), p.ans_t / 1e6);
        if (p.rx.size() > p.hdr_len) violation("C03", "player %d of %s: bytes after a 404", p.id, p.key.c_str());
        return;
    }
    if (m.status != 200) { violation("C01", "player %d of %s: unexpected status %d", p.id, p.key.c_str(), m.status); return; }
    count("play.200");
    if (p.none_live) violation("C03", "player %d of %s got 200 at t=%.3f although the stream had no source", p.id, p.key.c_str(), p.ans_t / 1e6);
    std::string fh = flv_header();
    std::string body = p.rx.substr(p.hdr_len);
    if (body.compare(0, std::min<size_t>(9, body.size()), fh, 0, std::min<size_t>(9, body.size()))) { violation("C01", "player %d of %s: bad FLV header", p.id, p.key.c_str()); return; }
    // parse tags
    std::vector<Tag> got; size_t i = 9; uint32_t prev = 0; bool bad = false;
    while (i + 15 <= body.size()) {
        const unsigned char* q = (const unsigned char*) body.data() + i;
        uint32_t ps = q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3];
        uint32_t ds = q[5] << 16 | q[6] << 8 | q[7];
        if (ps != prev) { violation("C01", "player %d of %s: tag %zu: previous tag size %u instead of %u", p.id, p.key.c_str(), got.size(), ps, prev); bad = true; break; }
        if (q[12] || q[13] || q[14]) { violation("C01", "player %d of %s: tag %zu: stream id not 0", p.id, p.key.c_str(), got.size()); bad = true; break; }
        if (i + 15 + ds > body.size()) break;
        Tag t; t.type = q[4]; t.dts = (uint32_t) q[11] << 24 | q[8] << 16 | q[9] << 8 | q[10]; t.body = body.substr(i + 15, ds);
        got.push_back(t); prev = 11 + ds; i += 15 + ds;
    }
    std::string rest = i <= body.size() ? body.substr(i) : "";
    p.ntags = got.size();
    count("play.tags", got.size());
    if (bad) return;
    auto match = [&](const Pub& s, size_t J, size_t* at) {
        auto o = expected_order(s, J);
        if (got.size() > o.size()) { *at = o.size(); return false; }
        for (size_t k = 0; k < got.size(); ++k) if (!same_tag(got[k], s.tags[o[k]])) { *at = k; return false; }
        if (!rest.empty()) {
            if (o.size() <= got.size()) { *at = got.size(); return false; }
            std::string e = flv_tag(s.tags[o[got.size()]], prev);
            if (rest.size() > e.size() || e.compare(0, rest.size(), rest)) { *at = got.size(); return false; }
        }
        *at = got.size(); return true;
    };
    bool ok = false; size_t best = 0; PPub bp;
    std::string lag; size_t lagJ = 0; PPub lagp; bool lag_over = false;
    // what the server had written at each idle moment: everything it had, unless it was blocked
    auto timely = [&](Pub& s, size_t J, std::string& why, bool& over) {
        if (p.cands.size() != 1 || !p.c->exact() || p.rst || p.no_lag) return true;
        auto o = expected_order(s, J);
        size_t njoin = o.size() - (s.tags.size() - J);
        std::vector<u64> cum(1, p.hdr_len + 9);
        for (size_t x : o) cum.push_back(cum.back() + flv_tag_len(s.tags[x]));
        char b[256];
        for (auto& r : p.recs) {
            if (!r.open) break;
            size_t n = njoin + (r.proc > J ? r.proc - J : 0);
            u64 want = cum[n];
            if (r.sent > want || (r.sent < want && !r.blocked)) {
                over = r.sent > want;
                snprintf(b, sizeof b, "%llu of %llu bytes written at idle t=%.3f (joined at tag %zu, source had sent %zu)", (unsigned long long) r.sent, (unsigned long long) want, r.t / 1e6, J, r.proc);
                why = b; return false;
            }
        }
        return true;
    };
    for (auto& c : p.cands) {
        for (size_t J = c.lo; J <= c.hi && !ok; ++J) {
            size_t a;
            if (match(*c.p, J, &a)) {
                std::string why; bool over = false;
                if (timely(*c.p, J, why, over)) { ok = true; p.src = c.p; p.J = J; }
                else if (!lagp) { lagp = c.p; lagJ = J; lag = why; lag_over = over; }
            }
            if (a >= best) { best = a; bp = c.p; }
        }
        if (ok) break;
    }
    if (!ok && lagp) {
        p.src = lagp; p.J = lagJ;
        violation("C01", "player %d of %s %s: %s", p.id, p.key.c_str(), lag_over ? "got too much" : "lags", lag.c_str());
        bool slow = false; for (auto& q : plays) if (q.get() != &p && q->key == p.key && !q->healthy) slow = true;
        if (slow && !lag_over) violation("C15", "player %d of %s lags while another player of the stream is slow: %s", p.id, p.key.c_str(), lag.c_str());
        return;
    }
    if (ok) {
        if (p.J > 0) count("play.join_mid");
        // where the bytes on the wire are not the application's: complete by the end, and not late
        if (!p.c->exact() && p.healthy && !p.rst && p.cands.size() == 1 && !p.no_lag && p.src->tags.size()) {
            size_t njoin = expected_order(*p.src, p.J).size() - (p.src->tags.size() - p.J), want = 0;
            u64 lim = p.eof ? p.t_eof : p.t_end;
            for (auto& r : p.recs) if (r.open && r.t + (p.eof ? 0 : 3000000) <= lim) want = std::max(want, njoin + (r.proc > p.J ? r.proc - p.J : 0));
            if (got.size() < want) violation("C01", "player %d of %s got %zu of %zu tags by t=%.3f", p.id, p.key.c_str(), got.size(), want, lim / 1e6);
        }
        count("oracle.play_exact");
        // the reader got every byte the server wrote before an orderly close
        if (p.c->exact() && p.eof && !p.rst && p.rx.size() != p.c->srv_sent())
            violation("C01", "player %d of %s: %zu of %llu bytes arrived", p.id, p.key.c_str(), p.rx.size(), (unsigned long long) p.c->srv_sent());
        return;
    }
    // classify
    if (p.cands.empty()) { if (!got.empty()) violation("C03", "player %d of %s got data of an unknown source", p.id, p.key.c_str()); return; }
    for (size_t k = 0; k < got.size(); ++k) {
        bool mine = false;
        for (auto& c : p.cands) for (auto& t : c.p->tags) if (same_tag(t, got[k])) { mine = true; break; }
        if (mine) continue;
        for (auto& q : pubs) for (auto& t : q->tags) if (same_tag(t, got[k])) {
            violation("C03", "player %d of %s: tag %zu belongs to source %d of %s", p.id, p.key.c_str(), k, q->id, q->key.c_str()); return; }
        violation("C01", "player %d of %s: tag %zu (type %u, %zu bytes, ts %u) was never published", p.id, p.key.c_str(), k, got[k].type, got[k].body.size(), got[k].dts);
        return;
    }
    // all tags are the source's own: is the live part right?
    std::string seq;
    for (size_t k = 0; k < got.size() && seq.size() < 300; ++k) {
        size_t ix = (size_t) -1; for (size_t x = 0; x < bp->tags.size(); ++x) if (same_tag(bp->tags[x], got[k])) { ix = x; break; }
        seq += (k ? "," : "") + (ix == (size_t) -1 ? std::string("?") : std::to_string(ix));
    }
    size_t lo = 0, hi = 0; for (auto& c : p.cands) if (c.p == bp) { lo = c.lo; hi = c.hi; }
    bool live_ok = false;
    for (size_t J = lo; J <= hi && !live_ok; ++J) {
        // some tail of what was received is J, J+1, ... to the end of what was received
        size_t n = bp->tags.size() - J; 
        for (size_t cut = 0; cut <= got.size() && !live_ok; ++cut) {
            size_t l = got.size() - cut; if (l > n || l == 0) continue;
            bool e = true; for (size_t k = 0; k < l && e; ++k) e = same_tag(got[cut + k], bp->tags[J + k]);
            if (e && (l == n || cut <= bp->tags.size())) live_ok = true;
        }
    }
    violation(live_ok || got.size() <= best ? "C02" : "C01", "player %d of %s joined between tag %zu and %zu, received %zu tags [%s], wrong from %zu", p.id, p.key.c_str(), lo, hi, got.size(), seq.c_str(), best);
}
void World::verify_all() {
    for (auto& p : plays) { verify_play(*p); if (p->c && !p->exempt) check_close(*p); }
}

// -------------------------------------------------------------- standard actors
// the first two lines of a request, in all the ways they may be written
std::string req_target(const Op& op);
static std::string req_head(const std::string& method, const Op& op) {
    Rng q(hash3(g_seed, op.id, 0x4ead)); std::string host = op.s("host", "live.com");
    std::string s = method + " " + (q.chance(3) ? "http://" + host : "") + req_target(op) + " HTTP/1.1\r\n" + q.pick(std::vector<const char*>{"Host: ", "Host: ", "Host: ", "Host:", "host: ", "HOST:  "});
    return s + host + (q.chance(2) ? " \r\n" : "\r\n");
}
std::string req_target(const Op& op) {
    std::string t = op.s("path", "/live/s");
    if (op.has("ext")) { if (!op.s("ext").empty()) t += "." + op.s("ext"); } else t += ".flv";
    if (op.has("query")) t += "?" + op.s("query");
    return t;
}
void actor_publish(const Op& op, PPub p, int port) {
    Rng r(hash3(g_seed, op.id, 0xacc1));
    if (p->tags.empty()) p->tags = make_stream(r, hash3(g_seed, op.id, 7), op.i("n", 50), op.i("maxbody", 3000));
    auto c = dial(op, op.i("port", port), op.s("tr", "tcp"), r);
    if (!c) { p->dead = true; count("pub.noconn"); return; }
    p->c = c;
    std::string mode = op.s("mode", "raw");
    std::string head = req_head("POST", op);
    if (mode == "chunked") head += "Transfer-Encoding: chunked\r\n";
    std::string all = flv_header(); uint32_t prev = 0;
    std::vector<size_t> ends; 
    for (auto& t : p->tags) { all += flv_tag(t, prev); prev = 11 + t.body.size(); ends.push_back(all.size()); }
    if (mode == "cl") head += "Content-Length: " + std::to_string(all.size() + (r.chance(50) ? 4 : 0)) + "\r\n";
    if (r.chance(30)) head += "User-Agent: sim\r\nX-Pad: " + std::string(r.below(300), 'p') + "\r\n";
    head += "\r\n";
    bool ok = true;
    p->hdr_wpos = c->exact() ? c->wpos() + head.size() : NEVER;
    write_paced(*c, head, r, r.chance(15) ? 1 : 0, &ok);
    if (!c->exact()) p->hdr_wpos = c->wpos();
    if (r.chance(20)) sleep_us(r.below(500000));
    // chunked framing is cut at arbitrary places; a tag is there once its last chunk is complete
    auto emit = [&](const std::string& d) {
        if (mode != "chunked") return c->write(d);
        size_t o = 0;
        while (o < d.size()) {
            size_t k = std::min<size_t>(d.size() - o, r.chance(50) ? d.size() : 1 + r.below(200));
            if (!c->write(chunk_head(k, r) + d.substr(o, k) + "\r\n")) return false;
            o += k;
        }
        return true;
    };
    if (ok) ok = emit(flv_header());
    if (mode == "cl") p->end_wpos = c->wpos() - 9 + all.size();
    u64 pace = op.i("pace", 20000); prev = 0;
    i64 gap_at = op.i("gap_at", -1); u64 gap = op.i("gap", 0);
    size_t burst = op.i("burst", 1);
    for (size_t i = 0; i < p->tags.size() && ok; ++i) {
        if (c->peer_gone()) { ok = false; break; }
        if ((i64) i == gap_at) { sleep_us(gap); }
        p->tags[i].sent_at = now();
        std::string d = flv_tag(p->tags[i], prev); prev = 11 + p->tags[i].body.size();
        // the tag counts as delivered when its last byte is; set the mark before a blocking write finishes
        if (mode == "chunked") { ok = emit(d); p->tags[i].wend = c->wpos(); }
        else { if (c->exact()) p->tags[i].wend = c->wpos() + d.size(); ok = c->write(d); if (!c->exact()) p->tags[i].wend = c->wpos(); }
        p->last_tag_at = now();
        if (i % burst == burst - 1) sleep_us(r.below(pace + 1));
        if (op.has("stall_at") && op.i("stall_at") == (i64) i && c->tcp()) tcp_stall(c->tcp(), op.i("stall", 1000000), op.i("stall_dir", 3));
    }
    std::string end = op.s("end", "fin");
    if (end == "linger") { u64 t = op.i("linger", 3000000); sleep_us(t); end = "fin"; }
    p->end_begin = now();
    if (!c->peer_gone()) {
        if (end == "fin") c->close();
        else if (end == "rst") c->reset();
        else if (end == "half") { c->half(); char b[256]; while (c->read(b, sizeof b, 60000000) > 0) {} c->close(); }
        else if (end == "garbage") { c->write(std::string("\0\0\0\0\x05\0\0\x04garbage....", 19)); char b[256]; while (c->read(b, sizeof b, 60000000) > 0) {} c->close(); }
        else if (end == "hang") { p->end_begin = NEVER; char b[256]; ssize_t k; while ((k = c->read(b, sizeof b, 100000000)) > 0) {} p->end_begin = now(); c->close(); }
    } else c->close();
}
void actor_play(const Op& op, PPlay p, int port) {
    Rng r(hash3(g_seed, op.id, 0xacc2));
    auto c = dial(op, op.i("port", port), op.s("tr", "tcp"), r);
    if (!c) { p->exempt = true; count("play.noconn"); return; }
    p->c = c;
    std::string head = req_head(op.s("method", "GET"), op);
    if (r.chance(30)) head += "Accept: */*\r\nX-Pad: " + std::string(r.below(300), 'q') + "\r\n";
    head += "\r\n";
    bool ok; p->t_req = now();
    p->hdr_wpos = c->exact() ? c->wpos() + head.size() : NEVER;
    write_paced(*c, head, r, r.chance(10) ? 1 : 0, &ok);
    if (!c->exact()) p->hdr_wpos = c->wpos();
    u64 t_end = now() + op.i("dur", 60000000);
    u64 stop_at = op.has("stop") ? now() + op.i("stop") : NEVER;
    u64 resume = op.has("resume") ? now() + op.i("resume") : NEVER;
    u64 slow = op.i("slow", 0);         // pause between reads
    size_t chunk = op.i("chunk", 65536);
    std::vector<char> buf(chunk);
    p->healthy = !slow && stop_at == NEVER;
    for (;;) {
        if (now() >= stop_at && (resume == NEVER || now() < resume)) {
            // stops reading, keeps the connection
            u64 until = std::min(resume, t_end);
            while (now() < until) { sleep_us(std::min<u64>(until - now(), 500000)); }
            if (now() >= t_end) break;
        }
        if (now() >= t_end) break;
        u64 lim = t_end - now();
        if (stop_at != NEVER && now() < stop_at) lim = std::min(lim, stop_at - now());
        ssize_t n = c->read(buf.data(), chunk, lim);
        if (n > 0) { if (!p->t_first) p->t_first = now(); if (p->rx.size() < (8u << 20)) p->rx.append(buf.data(), n); if (slow) sleep_us(slow); continue; }
        if (n == 0) { p->eof = true; p->t_eof = now(); break; }
        if (n == -1) { p->rst = true; p->t_eof = now(); break; }
    }
    p->t_end = now();
    if (!p->eof && !p->rst) p->self_closed = true;
    if (op.s("close") == "rst") c->reset(); else c->close();
}
// -------------------------------------------------------------- op driven runs
static int g_left = 0; static u64 g_settle = 0;
void op_begin() { g_left++; }
void op_end() { if (--g_left == 0) after(g_settle, [] { if (g_left == 0) stop_world("done"); }); }
void run_ops(const Plan& p, u64 t0, u64 settle, u64 max_time, u64 max_steps, std::function<void(const Op&)> body) {
    g_settle = settle;
    op_begin();
    for (auto& o : p.ops) {
        const Op* op = &o; op_begin();
        at(t0 + o.t, [op, body] { spawn(op->kind, [op, body] { body(*op); op_end(); }); });
    }
    at(t0, [] { op_end(); });
    run_world(max_time, max_steps);
    if (g_stop_why == "steps") violation("HANG", "the server does not come to rest (%llu scheduler steps)", (unsigned long long) S.steps);
    if (S.exited && !p.ki("may_exit")) violation("DOWN", "the server process ended (code %d)", S.exit_code);
    finish_common();
}
void finish_common() {
    g_shm->sim_time = now();
    u64 h = 0;
    for (auto& p : W.plays) h = hash3(h, hash3(p->id, p->status, p->ntags), hash2(p->J, p->rx.size()));
    for (auto& p : W.pubs) h = hash3(h, hash3(p->id, p->was_live, p->refused), p->proc);
    g_shm->state_hash = hash2(g_shm->state_hash, h);
}
}
