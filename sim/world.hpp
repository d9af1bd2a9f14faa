// Actors (publishers, players, HTTP clients, origin servers) and the reference model.
#pragma once
#include "plan.hpp"
namespace sim {

static const u64 NEVER = (u64) -1;

// -------------------------------------------------------------- connections
struct Conn {
    virtual ~Conn() {}
    virtual bool write(const void* b, size_t n, u64 timeout = NEVER) = 0;
    bool write(const std::string& s) { return write(s.data(), s.size()); }
    virtual ssize_t read(void* b, size_t n, u64 timeout) = 0;   // 0 EOF, -1 reset/broken, -2 timeout
    virtual void close() = 0;
    virtual void reset() = 0;
    virtual void half() { close(); }
    virtual u64  wpos() = 0;            // units handed to the transport so far
    virtual u64  delivered() = 0;       // units that reached the server process
    virtual bool srv_open() = 0;        // the server still holds its side
    virtual u64  srv_closed_at() = 0;
    virtual u64  srv_sent() = 0;        // bytes the server has written
    virtual bool end_seen() = 0;        // our FIN/RST/break reached the server
    virtual u64  end_seen_at() { return 0; }
    virtual bool srt() { return false; }
    virtual u64  srv_unread() { return 0; }     // messages that reached the server's end and were never taken
    virtual bool srv_blocked() { return false; }
    virtual bool peer_gone() = 0;       // we saw the server's FIN/RST
    virtual Tcp* tcp() { return nullptr; }
    virtual bool timed() { return tcp() != nullptr; }        // the four below are known
    virtual u64  t_deliv() { auto& d = tcp()->e[1].deliveries; return d.empty() ? 0 : d.back().first; }
    virtual u64  t_write() { return tcp()->e[1].last_write; }
    virtual bool blocked() { return tcp()->e[1].write_blocked; }
    virtual u64  blocked_since() { return tcp()->e[1].blocked_since; }
    virtual bool exact() { return true; }   // srv_sent counts application bytes
    bool read_n(void* b, size_t n, u64 timeout);
};
typedef std::shared_ptr<Conn> PConn;
struct TcpConn : Conn {
    std::shared_ptr<Tcp> t; End* me; End* srv;
    TcpConn(std::shared_ptr<Tcp> t, int side) : t(t), me(&t->e[side]), srv(&t->e[1 - side]) {}
    bool write(const void* b, size_t n, u64 timeout) override { return tcp_write(me, b, n, timeout); }
    using Conn::write;
    ssize_t read(void* b, size_t n, u64 to) override { return tcp_read(me, b, n, to); }
    void close() override { tcp_close(me); }
    void reset() override { tcp_reset(me); }
    void half() override { tcp_shutdown(me); }
    u64 wpos() override { return me->total_sent; }
    u64 delivered() override { return srv->total_delivered; }
    bool srv_open() override { return srv->open; }
    u64 srv_closed_at() override { return srv->closed_at; }
    u64 srv_sent() override { return srv->total_sent; }
    bool end_seen() override { return srv->fin_rcvd || srv->rst; }
    bool srv_blocked() override { return srv->write_blocked; }
    bool peer_gone() override { return me->fin_rcvd || me->rst; }
    Tcp* tcp() override { return t.get(); }
};
// kinds: "tcp", "tls" (sni in op), "srt" (bytes over SRT messages)
PConn dial(const Op& op, int port, const std::string& tr, Rng& r, std::function<void(PConn)> early = nullptr);   // early: SRT only
PConn tls_wrap(PConn raw, const std::string& sni, u64 timeout, std::string* cert_cn, int fs = 0);   // nullptr: handshake failed
struct TlsHow { size_t piece = 0; u64 pause = 0; size_t cut = (size_t) -1; bool flip = false; size_t flip_at = 0; std::string early; };     // early: data sent along with the last flight
PConn tls_accept(PConn raw, const char* cert, u64 timeout, const TlsHow& how, std::string* sni);     // nullptr: handshake failed or cut
bool  tls_notify(PConn c);              // close_notify
void  crypto_init();                    // deterministic RAND
LinkProfile op_link(const Op& op, Rng& r);

// -------------------------------------------------------------- FLV
enum TagKind { TK_SCRIPT, TK_ACFG, TK_VCFG, TK_KEY, TK_FRAME };
struct Tag { uint8_t type = 0; uint32_t dts = 0; std::string body; TagKind kind = TK_FRAME; u64 wend = NEVER; u64 sent_at = 0; };
std::string flv_tag(const Tag& t, uint32_t prev);      // previous size + tag
size_t flv_tag_len(const Tag& t);
Tag  make_tag(Rng& r, u64 owner, size_t idx, TagKind k, uint32_t dts, size_t max_body);
// a plausible stream: script, configs, GOPs with odd placements now and then
std::vector<Tag> make_stream(Rng& r, u64 owner, size_t n, size_t max_body);
std::string flv_header();
extern size_t g_min_win;        // what clients send is under way at least this fast

// -------------------------------------------------------------- streams and players
struct Pub {                           // one incarnation of a stream
    int id = 0; std::string key;
    std::vector<Tag> tags;
    PConn c;
    u64 hdr_wpos = NEVER;              // wire position after which the server has the request/response head
    bool upstream = false;             // pulled by the server
    // tracked at idle moments
    bool live = false, was_live = false, refused = false, dead = false;
    size_t proc = 0, prev_proc = 0;
    bool prev_live = false;
    u64 live_at = NEVER, dead_at = NEVER, last_tag_at = 0, last_idle_proc_t = 0;
    u64 end_begin = NEVER;             // when the actor began to end it
    bool bad_tag = false;              // the actor sent something the server must refuse
    u64 head_seen_idle = 0;
    bool conflict = false;             // another incarnation was around when it was judged
    bool tainted = false;              // outcome not predictable (own actor misbehaved)
    bool no_reply = true;
    u64 end_wpos = NEVER;              // the body ends there (Content-Length)
    int host_ok = 1;
    u64 last_deliv = 0;                // last time bytes of it reached the server
    u64 seen_deliv = 0; bool hang = false;
    // a transport stream that is also relayed as it is
    struct Raw { size_t off; int kind; u64 wend; };      // kind: 0 PAT, 1 PMT, 2 starts a PES, 3 other
    std::string ts; std::vector<Raw> raw; bool has_raw = false; size_t rproc = 0, prev_rproc = 0;
};
typedef std::shared_ptr<Pub> PPub;
struct Cand { PPub p; size_t lo, hi; bool lv0, lv1; size_t rlo = 0, rhi = 0; };
struct Play {
    int id = 0; std::string key; PConn c;
    u64 hdr_wpos = NEVER;
    u64 t_req = 0, t_end = 0;
    std::string rx; bool eof = false, rst = false, self_closed = false, timed_out = false;
    u64 t_eof = 0, t_first = 0;
    // idle tracking
    u64 head_idle = 0, head_t = 0;     // idle number/time by which the server had the request
    u64 ans_idle = 0, ans_t = 0;       // ... by which it had begun to answer
    std::vector<Cand> cands;           // incarnations around the attach interval
    bool any_live_since_head = false;
    bool only_live = false;            // some incarnation was live through the whole interval
    bool none_live = false;
    struct Rec { u64 t; u64 sent; bool blocked; bool open; size_t proc; bool live; size_t rproc; };
    std::vector<Rec> recs;             // at idle moments
    PPub src; size_t J = 0; size_t hdr_len = 0;
    bool healthy = true;               // always reads
    bool raw_att = false, raw = false; // an SRT player: gets the transport stream itself
    int  expect_edge = 0;
    bool verified = false, exempt = false;
    int status = 0; size_t ntags = 0;
    bool no_lag = false, tainted_ = false;
    u64 unpulled = NEVER;              // edge: since when it has been waiting with nothing pulling its stream
    u64 last_sent = 0, last_sent_t = 0;    // server's bytes to it, and when they last grew
    u64 close_t = 0; bool close_seen = false, close_blocked = false, close_end_seen = false; u64 close_bsince = 0;
    bool prev_blocked = false, overdue = false;
    u64 prev_bsince = 0;
    int status_now() const { return raw ? (raw_att ? 200 : 0) : head_status(); }
    int head_status() const { return rx.size() >= 12 && !rx.compare(0, 9, "HTTP/1.1 ") ? atoi(rx.c_str() + 9) : 0; }
};
typedef std::shared_ptr<Play> PPlay;
struct World {
    std::vector<PPub> pubs; std::vector<PPlay> plays;
    std::map<std::string, std::vector<PPub>> by_key;
    u64 prev_idle_t = 0;
    u64 recv_timeout = NEVER, send_timeout = NEVER;
    u64 slack = 1500000, end_slack = 0;
    bool edge = false;
    std::vector<std::function<void()>> idle_checks;
    void add(PPub p) { pubs.push_back(p); by_key[p->key].push_back(p); }
    void track();                      // at each idle moment
    void verify_play(Play& p);
    void verify_raw(Play& p);
    void verify_all();
    void check_pub(Pub& p, bool was_live);
    void check_play(Play& p);
    void check_close(Play& p);
};
extern World W;

// -------------------------------------------------------------- HTTP
struct HttpMsg { int status = 0; std::string start; std::vector<std::pair<std::string, std::string>> h; std::string raw;
    const std::string* get(const char* n) const; };
bool parse_head(const std::string& raw, HttpMsg& m);
// reads a head; 1 ok, 0 EOF, -1 reset, -2 timeout, -3 malformed
int  read_head(Conn& c, HttpMsg& m, u64 timeout);

// -------------------------------------------------------------- server
void start_server(const std::string& conf);
void start_server_raw(const std::string& conf, bool missing);   // the text as it is; or a file that is not there
bool wait_listening(int port, bool udp = false, u64 limit = 5000000);
std::string chunk_head(size_t n, Rng& r);                                    // the size line of a chunk, sometimes with an extension
void write_paced(Conn& c, const std::string& s, Rng& r, int mode, bool* ok);   // split writes with pauses

// standard actors
void actor_publish(const Op& op, PPub p, int port);
void actor_play(const Op& op, PPlay p, int port);
void op_begin(); void op_end();
// runs every op in its own actor; stops `settle` after the last one has ended
void run_ops(const Plan& p, u64 t0, u64 settle, u64 max_time, u64 max_steps, std::function<void(const Op&)> body);
std::string req_target(const Op& op);
void finish_common();
}
