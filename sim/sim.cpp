#include "sim.hpp"
#include "shm.hpp"
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <cerrno>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <st.h>
#include <sanitizer/common_interface_defs.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace sim {

// ============================================================ globals
u64  g_seed = 0;
bool g_verbose = false;
static bool g_active = false;
static u64  g_now = 0;
static u64  g_idle = 0;
static const u64 EPOCH_US = 1700000000ULL * 1000000ULL;
ServerStats S;
std::string g_stop_why;
static bool g_stop = false;
UdpProfile g_udp;

u64 now() { return g_now; }
u64 idle_seq() { return g_idle; }

u64 hash_str(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix64(h);
}

void vlog(const char* fmt, ...) {
    if (!g_verbose) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    dprintf(2, "[%10.6f] %s\n", g_now / 1e6, b);
}

void trace(const char* kind, u64 a, u64 b, u64 c) {
    u64 h = g_shm->hash;
    h = hash2(h, hash_str(kind));
    h = hash2(h, a); h = hash2(h, b); h = hash2(h, c); h = hash2(h, g_now);
    g_shm->hash = h;
    g_shm->ntrace++;
    if (g_verbose) vlog("%s %llu %llu %llu", kind, (unsigned long long) a,
                        (unsigned long long) b, (unsigned long long) c);
}
void sched_point(u64 what) { g_shm->sched_hash = hash2(g_shm->sched_hash, what); }

// ============================================================ fibers
struct Fiber {
    ucontext_t ctx;
    void* stack = nullptr; size_t size = 0;
    void* fake = nullptr;
    std::function<void()> fn;
    bool  done = false, server = false;
    int   id = 0;
    int   sim_depth = 0;
    std::string name;
    // actor wait state
    bool  waiting = false, timed_out = false;
    u64   wait_seq = 0;
    void* st = nullptr;      // the state thread running on it
};
static Fiber* g_cur = nullptr;
static ucontext_t g_sched;
static void* g_sched_fake = nullptr;
static const void* g_sched_stack = nullptr; static size_t g_sched_size = 0;
static int g_next_fiber = 1;
static std::vector<void*> g_free_stacks;
static const size_t STACK = 512 * 1024;
static std::vector<Fiber*> g_dead;

Fiber* current_fiber() { return g_cur; }
bool in_server() { return g_cur && g_cur->server; }

struct InSim {   // marks simulator code called from server code
    Fiber* f;
    InSim() : f(g_cur) { if (f) f->sim_depth++; }
    ~InSim() { if (f) f->sim_depth--; }
};

void sim_enter() { if (g_cur) g_cur->sim_depth++; }
void sim_leave() { if (g_cur) g_cur->sim_depth--; }

static void fiber_main() {
    __sanitizer_finish_switch_fiber(nullptr, &g_sched_stack, &g_sched_size);
    Fiber* f = g_cur;
    f->fn();
    f->sim_depth = 1;
    f->fn = nullptr;
    f->done = true;
    __sanitizer_start_switch_fiber(nullptr, g_sched_stack, g_sched_size);
    swapcontext(&f->ctx, &g_sched);
    abort();
}
static Fiber* fiber_new(const std::string& name, bool server, std::function<void()> fn) {
    auto f = new Fiber();
    f->id = g_next_fiber++; f->name = name; f->server = server; f->fn = std::move(fn);
    if (!g_free_stacks.empty()) { f->stack = g_free_stacks.back(); g_free_stacks.pop_back(); }
    else {
        char* m = (char*) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); _exit(77); }
        mprotect(m, 4096, PROT_NONE);
        f->stack = m + 4096;
    }
    f->size = STACK;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = f->size; f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, fiber_main, 0);
    return f;
}
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
static void fiber_free(Fiber* f) {
    __asan_unpoison_memory_region(f->stack, f->size);
    g_free_stacks.push_back(f->stack);
    f->stack = nullptr;      // the record itself stays: a pending timeout may still name it
    if (f->server) delete f; else g_dead.push_back(f);
}
static void fiber_run(Fiber* f) {
    g_cur = f;
    __sanitizer_start_switch_fiber(&g_sched_fake, f->stack, f->size);
    swapcontext(&g_sched, &f->ctx);
    __sanitizer_finish_switch_fiber(g_sched_fake, nullptr, nullptr);
    g_cur = nullptr;
    if (f->done) fiber_free(f);
}
static void fiber_yield() {
    Fiber* f = g_cur;
    __sanitizer_start_switch_fiber(&f->fake, g_sched_stack, g_sched_size);
    swapcontext(&f->ctx, &g_sched);
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
    g_cur = f;
}

// ============================================================ world events
struct Ev { u64 t; u64 tie; u64 seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const {
    if (a->t != b->t) return a->t > b->t;
    if (a->tie != b->tie) return a->tie > b->tie;
    return a->seq > b->seq; } };
static std::vector<Ev*> g_heap;
static u64 g_evseq = 0;
void at(u64 t, std::function<void()> fn) {
    if (t < g_now) t = g_now;
    auto e = new Ev{t, 0, g_evseq++, std::move(fn)};
    g_heap.push_back(e); std::push_heap(g_heap.begin(), g_heap.end(), EvCmp());
}
static std::vector<std::function<void()>> g_idle_cb;
void on_idle(std::function<void()> fn) { g_idle_cb.push_back(std::move(fn)); }

Fiber* spawn(const std::string& name, std::function<void()> fn) {
    Fiber* f = fiber_new(name, false, std::move(fn));
    at(g_now, [f] { fiber_run(f); });
    return f;
}
void sleep_us(u64 d) {
    Fiber* f = g_cur;
    at(g_now + d, [f] { fiber_run(f); });
    fiber_yield();
}
void WaitQ::wake() {
    std::vector<Fiber*> l; l.swap(q);
    for (auto f : l) {
        if (!f->waiting) continue;
        f->waiting = false; f->timed_out = false; f->wait_seq++;
        at(g_now, [f] { fiber_run(f); });
    }
}
bool wait_on(WaitQ& w, u64 timeout) {
    Fiber* f = g_cur;
    f->waiting = true; f->timed_out = false;
    u64 ws = ++f->wait_seq;
    w.q.push_back(f);
    static std::set<Fiber*> alive;   // unused, kept for clarity
    (void) alive;
    if (timeout != (u64) -1)
        at(g_now + timeout, [f, ws] {
            if (f->waiting && f->wait_seq == ws) {
                f->waiting = false; f->timed_out = true; f->wait_seq++;
                fiber_run(f);
            }
        });
    fiber_yield();
    w.q.erase(std::remove(w.q.begin(), w.q.end(), f), w.q.end());
    return !f->timed_out;
}

// ============================================================ heap accounting
struct HSlot { uintptr_t p; u64 sz; u64 id; };
static const size_t HN = 1 << 19;
static HSlot* g_h = nullptr;
static u64 g_hid = 0, g_hmark = 0;
static bool g_hooks_on = false;
static void h_add(uintptr_t p, u64 sz) {
    if (S.heap_blocks > (i64) HN / 2) { static const char m[] = "ERROR: AddressSanitizer: the server's heap blocks grow without bound\n"; (void) !write(2, m, sizeof m - 1); _exit(67); }
    size_t i = mix64(p) & (HN - 1);
    while (g_h[i].p) i = (i + 1) & (HN - 1);
    g_h[i] = {p, sz, g_hid++};
    S.heap_bytes += sz; S.heap_blocks++;
}
static void h_del(uintptr_t p) {
    size_t i = mix64(p) & (HN - 1);
    for (;; i = (i + 1) & (HN - 1)) { if (!g_h[i].p) return; if (g_h[i].p == p) break; }
    S.heap_bytes -= g_h[i].sz; S.heap_blocks--;
    size_t j = i;                              // close the gap (linear probing)
    for (;;) {
        g_h[i].p = 0;
        for (;;) {
            j = (j + 1) & (HN - 1);
            if (!g_h[j].p) return;
            size_t k = mix64(g_h[j].p) & (HN - 1);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        g_h[i] = g_h[j]; i = j;
    }
}
static void mhook(const volatile void* p, size_t sz) {
    if (g_hooks_on && g_cur && g_cur->server && g_cur->sim_depth == 0 && p) {
        h_add((uintptr_t) p, sz);
        if (S.heap_bytes > (i64) 1500 << 20) { static const char m[] = "ERROR: AddressSanitizer: the server's heap grows without bound\n"; (void) !write(2, m, sizeof m - 1); _exit(67); }
    }
}
static void fhook(const volatile void* p) { if (g_hooks_on && p) h_del((uintptr_t) p); }
void heap_mark() { g_hmark = g_hid; }
extern "C" size_t __asan_get_alloc_stack(void*, void**, size_t, int*);
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
void heap_dump() {                 // where the live blocks since the mark come from
    for (size_t i = 0, n = 0; i < HN && n < 6; ++i) if (g_h[i].p && g_h[i].id >= g_hmark) {
        void* st[6]; int tid; size_t k = __asan_get_alloc_stack((void*) g_h[i].p, st, 6, &tid); n++;
        for (size_t j = 0; j < k; ++j) { char b[300]; __sanitizer_symbolize_pc(st[j], "%f %s:%l", b, sizeof b); vlog("   block %llu: %s", (unsigned long long) g_h[i].sz, b); }
    }
}
std::string heap_top() {
    std::map<u64, std::pair<u64,u64>> by;
    u64 n = 0;
    for (size_t i = 0; i < HN; ++i) if (g_h[i].p && g_h[i].id >= g_hmark) { by[g_h[i].sz].first++; n++; }
    std::string s; char b[64]; int k = 0;
    for (auto it = by.rbegin(); it != by.rend() && k < 12; ++it, ++k) {
        snprintf(b, sizeof b, " %llux%llu", (unsigned long long) it->second.first, (unsigned long long) it->first); s += b; }
    return s;
}

// ============================================================ server process
enum StState { ST_RUN, ST_IO, ST_COND, ST_SLEEP, ST_DEAD };
}  // namespace sim

struct _st_thread {
    sim::Fiber* f = nullptr;
    sim::StState state = sim::ST_RUN;
    int   id = 0;
    void* (*start)(void*) = nullptr; void* arg = nullptr;
    bool  timed_out = false, interrupted = false, joinable = false, done = false;
    void* retval = nullptr;
    bool  has_timer = false; sim::u64 due = 0, tseq = 0;
    _st_netfd* wfd = nullptr; int how = 0; int revents = 0;
    st_cond_t cond = nullptr;
    st_cond_t term = nullptr;
    std::map<int, void*> spec;
};
struct _st_cond { std::list<_st_thread*> q; };
struct _st_mutex { _st_thread* owner = nullptr; std::list<_st_thread*> q; };

namespace sim {
struct SrvFd {
    enum K { NONE, TCP, LISTEN, UDP } k = NONE;
    std::shared_ptr<Tcp> tcp; End* e = nullptr;
    std::shared_ptr<Listener> l;
    std::shared_ptr<Udp> udp;
    int bound_port = 0; int refs = 0;
};
}
struct _st_netfd { int fd; };

namespace sim {
static std::map<int, SrvFd> g_fds;
static const int FD0 = 10000;
static std::map<int, std::shared_ptr<Listener>> g_listen;          // server tcp ports
static std::map<int, int> g_srv_udp;                               // server udp port -> fd
static std::map<std::pair<std::string,int>, std::shared_ptr<Listener>> g_ups;
static std::map<std::pair<u64,int>, Udp*> g_udp_socks;            // ip,port
static std::map<std::string, std::string> g_dns;
static std::deque<_st_thread*> g_runq;
static std::set<std::tuple<u64,u64,_st_thread*>> g_timers;
static std::list<_st_thread*> g_io;
static u64 g_tseq = 0;
static u64 g_srv_next = 0;        // server CPU busy until
static _st_thread* g_st_cur = nullptr;
static int g_st_ids = 0;
static u64 g_pollno = 0, g_stepno = 0, g_acceptno = 0, g_sockno = 0;
static std::vector<std::shared_ptr<Tcp>> g_conns;  // keep alive

u64 server_fd_count() { return g_fds.size(); }
bool server_idle() { return g_runq.empty(); }
bool server_listening(int port, bool udp) { return udp ? g_srv_udp.count(port) : g_listen.count(port); }
void server_cpu(u64 d) { g_srv_next = std::max(g_srv_next, g_now) + d; }

static int fd_alloc() { int fd = FD0; for (auto& kv : g_fds) { if (kv.first != fd) break; fd++; } return fd; }

static void runnable(_st_thread* t) {
    if (t->has_timer) { g_timers.erase(std::make_tuple(t->due, t->tseq, t)); t->has_timer = false; }
    t->state = ST_RUN; g_runq.push_back(t);
}
static void set_timer(_st_thread* t, u64 timeout) {
    if (timeout == (u64) -1) return;
    // like state threads: an absurdly long sleep never expires
    t->has_timer = true; t->tseq = g_tseq++;
    u64 due = g_now + timeout; if (due < g_now) due = (u64) -2;
    t->due = due; g_timers.insert(std::make_tuple(t->due, t->tseq, t));
}
static void st_block() { Fiber* f = g_cur; g_st_cur = nullptr; fiber_yield(); g_st_cur = (_st_thread*) f->st; }

static bool fd_ready(SrvFd& s, int how) {
    int r = 0;
    if (s.k == SrvFd::LISTEN) { if (!s.l->backlog.empty()) r |= POLLIN; }
    else if (s.k == SrvFd::TCP && s.e) {
        End* e = s.e;
        if (e->readable() || e->fin_rcvd || e->rst) r |= POLLIN;
        if (e->conn_err || e->rst) r |= POLLIN | POLLOUT;
        if (e->connected && e->sendlen() < e->snd_cap) r |= POLLOUT;
    } else if (s.k == SrvFd::UDP) { if (!s.udp->rcvq.empty()) r |= POLLIN; r |= POLLOUT; }
    return (r & how) != 0;
}
static bool poll_io() {
    std::vector<_st_thread*> ready;
    for (auto t : g_io) {
        auto it = g_fds.find(t->wfd->fd);
        if (it == g_fds.end() || fd_ready(it->second, t->how)) ready.push_back(t);
    }
    if (ready.empty()) return false;
    // readiness order is the scheduler's choice
    if (ready.size() > 1) {
        Rng r(hash3(g_seed, 0x9011, g_pollno));
        for (size_t i = ready.size() - 1; i > 0; --i) std::swap(ready[i], ready[r.below(i + 1)]);
    }
    g_pollno++;
    for (auto t : ready) { g_io.remove(t); t->revents = t->how; runnable(t); sched_point(t->id * 8 + 1); }
    return true;
}
static bool fire_timers() {
    bool any = false;
    while (!g_timers.empty()) {
        auto it = g_timers.begin();
        if (std::get<0>(*it) > g_now) break;
        _st_thread* t = std::get<2>(*it);
        t->has_timer = false; g_timers.erase(it);
        t->timed_out = true;
        if (t->state == ST_IO) g_io.remove(t);
        t->state = ST_RUN; g_runq.push_back(t); any = true;
        sched_point(t->id * 8 + 2);
    }
    return any;
}
static void run_one() {
    _st_thread* t = g_runq.front(); g_runq.pop_front();
    S.steps++; g_stepno++;
    trace("run", t->id);
    sched_point(t->id * 8);
    g_st_cur = t;
    Fiber* f = t->f;
    fiber_run(f);
    g_st_cur = nullptr;
    u64 cost = hash3(g_seed, 0xc057, g_stepno) % 40;
    if (fault_on("cpu")) {
        u64 p = fault_par("cpu", 20);              // per mille of steps
        u64 h = hash3(g_seed, 0xc058, g_stepno);
        if (h % 1000 < p) {
            u64 maxms = fault_par("cpu_ms", 30);
            cost += ((h >> 16) % (maxms * 1000 + 1));
            count("fault.cpu_stall");
        }
    }
    g_srv_next = std::max(g_srv_next, g_now) + cost;
}

void stop_world(const char* why) { if (!g_stop) { g_stop = true; g_stop_why = why; } }

static void init_once() {
    g_h = (HSlot*) mmap(nullptr, HN * sizeof(HSlot), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
    g_hooks_on = true;
}

void server_start(std::function<int()> entry) {
    if (!g_h) init_once();
    g_active = true;
    auto t = new _st_thread(); t->id = g_st_ids++;
    t->f = fiber_new("sps_main", true, [entry, t] {
        int rc = entry();
        g_cur->sim_depth = 1;
        S.exited = true; S.exit_code = rc;
        trace("server-exit", (u64) rc);
    });
    t->f->st = t;
    g_runq.push_back(t);
    S.started = true; S.threads = 1;
}

void run_world(u64 max_time, u64 max_steps) {
    g_active = true;
    u64 n = 0;
    bool idle_reported = false;
    while (!g_stop) {
        if (++n > max_steps) { g_stop_why = "steps"; break; }
        u64 te = g_heap.empty() ? (u64) -1 : g_heap[0]->t;
        bool srv_alive = S.started && !S.exited;
        u64 ts = (u64) -1;
        if (srv_alive) {
            if (!g_runq.empty()) ts = std::max(g_now, g_srv_next);
            else {
                // idle thread: poll at the earliest possible moment
                bool io = false;
                for (auto t : g_io) {
                    auto it = g_fds.find(t->wfd->fd);
                    if (it == g_fds.end() || fd_ready(it->second, t->how)) { io = true; break; }
                }
                if (io) ts = std::max(g_now, g_srv_next);
                else if (!g_timers.empty()) {
                    u64 due = std::get<0>(*g_timers.begin());
                    if (due < (u64) 1 << 60) ts = std::max(std::max(g_now, g_srv_next), due);
                }
                if (!io && (ts == (u64) -1 || ts > std::max(g_now, g_srv_next))) {
                    if (!idle_reported) {
                        idle_reported = true; g_idle++;
                        for (auto& f : g_idle_cb) f();
                        continue;
                    }
                }
            }
        }
        if (te == (u64) -1 && ts == (u64) -1) { g_stop_why = "quiet"; break; }
        if (te <= ts) {
            if (te > max_time) { g_stop_why = "time"; break; }
            std::pop_heap(g_heap.begin(), g_heap.end(), EvCmp());
            Ev* e = g_heap.back(); g_heap.pop_back();
            g_now = std::max(g_now, e->t);
            auto fn = std::move(e->fn); delete e;
            fn();
            idle_reported = false;
        } else {
            if (ts > max_time) { g_stop_why = "time"; break; }
            g_now = ts;
            idle_reported = false;
            if (g_runq.empty()) {
                bool a = poll_io(); bool b = fire_timers();
                if (!a && !b) { g_now = std::max(g_now, g_srv_next); }
            } else run_one();
        }
    }
    g_shm->sim_time = g_now; g_shm->steps = S.steps;
}

// ============================================================ TCP
static size_t seg_size(Tcp* c, End* from, size_t avail) {
    u64 h = hash3(hash2(g_seed, c->id * 2 + from->side), 0x5e6, from->segno++);
    size_t m = 1460;
    switch (c->segmode) {
        case 0: m = 1 + h % 3; break;
        case 1: m = 1 + h % 64; break;
        case 2: m = (h & 1) ? 1 + (h >> 8) % 16 : 1 + (h >> 8) % 1460; break;
        case 3: m = 1460; break;
        case 4: m = 1 + h % 20000; break;
        default: m = 1460;
    }
    return std::min(m, avail);
}
struct Seg { std::string d; bool fin, rst; };
static std::map<End*, std::deque<Seg>> g_fly;
static void end_notify(End* e) { if (!e->server_side) { e->rq.wake(); e->wq.wake(); } }
static void arrive(std::shared_ptr<Tcp> c, int side);
static void send_seg(End* from, Seg s) {
    Tcp* c = from->c;
    u64 h = hash3(hash2(g_seed, c->id * 2 + from->side), 0x1a7, from->segno);
    u64 t = g_now + c->lat + (c->jit ? h % c->jit : 0);
    if (t < from->last_arrival) t = from->last_arrival;
    from->last_arrival = t;
    from->inflight += s.d.size();
    g_fly[from].push_back(std::move(s));
    std::shared_ptr<Tcp> sp = c->shared_from_this();
    int side = from->side;
    at(t, [sp, side] { arrive(sp, side); });
}
static void pump(End* e) {
    if (e->rst) return;
    End* p = e->peer();
    while (e->sendlen() > 0) {
        size_t used = e->inflight + p->readable();
        if (used >= p->rcv_cap) return;
        size_t n = seg_size(e->c, e, std::min(e->sendlen(), p->rcv_cap - used));
        send_seg(e, Seg{e->sendq.substr(e->soff, n), false, false});
        e->soff += n;
        if (e->soff == e->sendq.size()) { e->sendq.clear(); e->soff = 0; }
    }
    if (e->fin_queued && !e->fin_sent) { e->fin_sent = true; send_seg(e, Seg{"", true, false}); }
    end_notify(e);
}
static void send_rst(End* e) {
    e->sendq.clear(); e->soff = 0;
    send_seg(e, Seg{"", false, true});
}
static void arrive(std::shared_ptr<Tcp> c, int side) {
    End* from = &c->e[side]; End* to = &c->e[1 - side];
    if (g_now < from->stall_until) { at(from->stall_until, [c, side] { arrive(c, side); }); return; }
    auto& q = g_fly[from];
    if (q.empty()) return;
    Seg s = std::move(q.front()); q.pop_front();
    from->inflight -= s.d.size();
    if (s.rst) {
        trace("rst", c->id, side);
        to->rst = true; to->rst_at = g_now; to->sendq.clear(); to->soff = 0;
        end_notify(to); return;
    }
    if (!to->open) {
        if (!s.d.empty() && !to->rst) { trace("data-to-closed", c->id, side); to->rst = true; send_rst(to); }
        return;
    }
    if (to->rst) return;
    if (!s.d.empty()) {
        to->rcvq += s.d; to->total_delivered += s.d.size();
        to->deliveries.push_back({g_now, to->total_delivered});
        trace("seg", c->id * 2 + side, s.d.size());
        sched_point(hash3(c->id, side, 77));
    }
    if (s.fin) { to->fin_rcvd = true; to->fin_rcvd_at = g_now; trace("fin", c->id, side); }
    end_notify(to);
}
static size_t end_read(End* e, void* buf, size_t n, bool srv) {
    size_t a = e->readable();
    n = std::min(n, a);
    if (srv && e->c->readmode && n > 1) {
        u64 h = hash3(hash2(g_seed, e->c->id), 0x4ead, e->readno++);
        if (h % 3 == 0) { n = 1 + (h >> 8) % n; count("fault.short_read"); }
    }
    memcpy(buf, e->rcvq.data() + e->roff, n);
    e->roff += n; e->total_read += n;
    if (e->roff == e->rcvq.size()) { e->rcvq.clear(); e->roff = 0; }
    else if (e->roff > 65536) { e->rcvq.erase(0, e->roff); e->roff = 0; }
    End* p = e->peer();
    if (n && p->sendlen()) {
        std::shared_ptr<Tcp> sp = e->c->shared_from_this();
        int ps = p->side;
        after(e->c->lat, [sp, ps] { pump(&sp->e[ps]); });
    }
    return n;
}
static size_t end_write(End* e, const void* buf, size_t n) {
    size_t space = e->sendlen() >= e->snd_cap ? 0 : e->snd_cap - e->sendlen();
    n = std::min(n, space);
    if (!n) return 0;
    e->sendq.append((const char*) buf, n); e->total_sent += n; e->last_write = g_now;
    pump(e);
    return n;
}
static void end_close(End* e) {
    if (!e->open) return;
    e->open = false; e->closed_at = g_now;
    trace("close", e->c->id, e->side);
    if (e->rst) return;
    if (e->readable()) { e->rst = true; send_rst(e); return; }
    e->fin_queued = true; pump(e);
}
static sockaddr_in mkaddr(const char* ip, int port) {
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port);
    a.sin_addr.s_addr = inet_addr(ip); return a;
}
static std::shared_ptr<Tcp> mk_tcp(u64 id, const LinkProfile& lp, int srv_side) {
    auto c = std::make_shared<Tcp>();
    c->id = id; c->lat = lp.lat; c->jit = lp.jit; c->segmode = lp.segmode; c->readmode = lp.readmode;
    for (int i = 0; i < 2; ++i) {
        c->e[i].c = c.get(); c->e[i].side = i; c->e[i].server_side = (i == srv_side);
        c->e[i].snd_cap = i == srv_side ? lp.srv_snd : lp.cli_snd;
        c->e[i].rcv_cap = i == srv_side ? lp.srv_rcv : lp.cli_rcv;
    }
    g_conns.push_back(c);
    return c;
}
LinkProfile random_link(Rng& r, bool tiny) {
    LinkProfile l;
    l.lat = r.pick(std::vector<u64>{0, 50, 500, 2000, 20000, 80000});
    l.jit = r.chance(50) ? 0 : 1 + r.below(l.lat + 500);
    l.segmode = tiny ? (int) r.below(5) : (int) r.pick(std::vector<int>{2, 3, 3, 4});
    l.readmode = r.chance(30);
    auto cap = [&] { return (size_t) r.pick(std::vector<u64>{1200, 4096, 16384, 65536, 262144}); };
    l.srv_snd = cap(); l.srv_rcv = cap(); l.cli_snd = cap(); l.cli_rcv = cap();
    return l;
}
std::shared_ptr<Tcp> tcp_connect(int port, const LinkProfile& lp, u64 connid, u64 timeout) {
    auto c = mk_tcp(connid, lp, 1);
    char ip[32]; snprintf(ip, sizeof ip, "10.%d.%d.%d", (int) (connid >> 16) & 255, (int) (connid >> 8) & 255, (int) (connid & 255) );
    c->addr[0] = mkaddr(ip, 20000 + connid % 40000); c->addr[1] = mkaddr("192.0.2.1", port);
    End* e = &c->e[0];
    trace("connect", connid, port);
    after(c->lat, [c, port] {
        auto it = g_listen.find(port);
        if (it == g_listen.end() || S.exited) {
            after(c->lat, [c] { c->refused = true; c->e[0].conn_err = ECONNREFUSED; c->e[0].rq.wake(); });
            return;
        }
        c->e[1].connected = true;
        it->second->backlog.push_back(c);
        trace("syn", c->id, port);
        after(c->lat, [c] { c->e[0].connected = true; c->e[0].rq.wake(); });
    });
    while (!e->connected && !e->conn_err) if (!wait_on(e->rq, timeout)) break;
    if (!e->connected) return nullptr;
    return c;
}
ssize_t tcp_read(End* e, void* buf, size_t n, u64 timeout) {
    u64 deadline = timeout == (u64) -1 ? (u64) -1 : g_now + timeout;
    for (;;) {
        if (e->readable()) return end_read(e, buf, n, false);
        if (e->rst) return -1;
        if (e->fin_rcvd) return 0;
        u64 left = (u64) -1;
        if (deadline != (u64) -1) { if (g_now >= deadline) return -2; left = deadline - g_now; }
        if (!wait_on(e->rq, left) && !e->readable() && !e->rst && !e->fin_rcvd) return -2;
    }
}
bool tcp_write(End* e, const void* buf, size_t n, u64 timeout) {
    size_t o = 0;
    while (o < n) {
        if (e->rst || !e->open) return false;
        size_t k = end_write(e, (const char*) buf + o, n - o);
        o += k;
        if (o < n && k == 0) if (!wait_on(e->wq, timeout)) return false;
    }
    return true;
}
void tcp_close(End* e) { end_close(e); }
void tcp_shutdown(End* e) { if (e->open && !e->rst) { e->fin_queued = true; pump(e); } }
void tcp_reset(End* e) { if (!e->open) return; e->open = false; e->closed_at = g_now; if (e->rst) return; e->rst = true; send_rst(e); }
void tcp_stall(Tcp* c, u64 d, int dirs) {
    count("fault.link_stall");
    for (int i = 0; i < 2; ++i) if (dirs & (1 << i)) c->e[i].stall_until = std::max(c->e[i].stall_until, g_now + d);
}
std::shared_ptr<Listener> actor_listen(const std::string& ip, int port) {
    auto l = std::make_shared<Listener>(); l->ip = ip; l->port = port; g_ups[{ip, port}] = l; return l;
}
std::shared_ptr<Tcp> actor_accept(Listener* l, u64 timeout) {
    while (l->backlog.empty()) if (!wait_on(l->wq, timeout)) return nullptr;
    auto c = l->backlog.front(); l->backlog.pop_front(); return c;
}
void dns_set(const std::string& n, const std::string& ip) { g_dns[n] = ip; }

// ============================================================ UDP
static u64 g_udpid = 1; std::function<void(Udp*, const sockaddr_in&, const std::string&)> g_on_udp;
std::shared_ptr<Udp> udp_actor(const std::string& ip, int port) {
    auto u = std::make_shared<Udp>(); u->port = port; u->id = g_udpid++; u->self = mkaddr(ip.c_str(), port);
    g_udp_socks[{u->self.sin_addr.s_addr, port}] = u.get(); return u;
}
static void udp_deliver(sockaddr_in from, sockaddr_in to, std::string d) {
    Udp* u = nullptr;
    auto it = g_udp_socks.find({to.sin_addr.s_addr, ntohs(to.sin_port)});
    if (it != g_udp_socks.end()) u = it->second;
    else { it = g_udp_socks.find({0, ntohs(to.sin_port)}); if (it != g_udp_socks.end()) u = it->second; }
    if (!u || !u->open || u->rcvq.size() > 3000) { count("udp.undeliverable"); return; }
    if (u->server && u->connected && (u->conn.sin_port != from.sin_port || u->conn.sin_addr.s_addr != from.sin_addr.s_addr)) { count("udp.undeliverable"); return; }
    trace("dgram", u->id, d.size());
    if (g_on_udp) g_on_udp(u, from, d);
    u->rcvq.push_back({from, std::move(d)});
    if (!u->server) u->rq.wake();
}
void udp_send(Udp* f, const sockaddr_in& to, const void* buf, size_t n) {
    std::string d((const char*) buf, n);
    sockaddr_in from = f->self;
    if (from.sin_addr.s_addr == 0) from.sin_addr.s_addr = inet_addr("192.0.2.1");
    u64 h = hash3(hash2(g_seed, f->id), 0xdd, f->sendno++);
    if ((int) (h % 100) < g_udp.loss) { count("fault.udp_loss"); return; }
    int copies = 1;
    if ((int) ((h >> 8) % 100) < g_udp.dup) { copies = 2; count("fault.udp_dup"); }
    for (int i = 0; i < copies; ++i) {
        u64 d2 = g_udp.lat + (g_udp.jit ? (h >> 20) % g_udp.jit : 0);
        if ((int) ((h >> 16) % 100) < g_udp.reorder) { d2 += (h >> 30) % 20000; count("fault.udp_reorder"); }
        if (i) d2 += (h >> 40) % 5000;
        after(d2, [from, to, d] { udp_deliver(from, to, d); });
    }
}

// ============================================================ faults at syscalls
u64 g_faults_hit = 0; u64 faults_hit() { return g_faults_hit; }
static bool hit(const char* kind, u64 n) {
    if (!fault_on(kind) || g_now < fault_par("from", 10000) || g_now >= fault_par("until", (u64) -1)) return false;   // the server starts up undisturbed
    u64 pct = fault_par(kind, 10);
    if (hash3(g_seed, hash_str(kind), n) % 100 >= pct) return false;
    count((std::string("fault.") + kind).c_str());
    trace("fault", hash_str(kind), n); g_faults_hit++;
    return true;
}
static bool fd_full() {
    if (!fault_on("fdlimit") || g_now < fault_par("from", 10000) || g_now >= fault_par("until", (u64) -1)) return false;
    if (g_fds.size() < fault_par("fdlimit", 64)) return false;
    count("fault.fdlimit"); return true;
}
}  // namespace sim

using namespace sim;

// ============================================================ libc seam
extern "C" {
int gettimeofday(struct timeval* tv, void*) {
    if (!g_active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    u64 t = EPOCH_US + g_now; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
time_t time(time_t* p) {
    time_t r;
    if (!g_active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else r = (EPOCH_US + g_now) / 1000000;
    if (p) *p = r; return r;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!g_active) return syscall(SYS_clock_gettime, id, ts);
    u64 t = EPOCH_US + g_now; ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}
int socket(int dom, int type, int proto) {
    if (!in_server()) return syscall(SYS_socket, dom, type, proto);
    InSim g;
    u64 n = g_sockno++;
    if (fd_full() || hit("socket", n)) { errno = EMFILE; return -1; }
    int fd = fd_alloc(); SrvFd s;
    if ((type & 0xf) == SOCK_DGRAM) {
        s.k = SrvFd::UDP; s.udp = std::make_shared<Udp>(); s.udp->server = true; s.udp->id = g_udpid++;
        s.udp->self = mkaddr("0.0.0.0", 0);
    } else s.k = SrvFd::TCP;
    g_fds[fd] = s; S.fds = g_fds.size();
    trace("socket", fd);
    return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t len) {
    if (fd < FD0) return syscall(SYS_bind, fd, a, len);
    InSim g;
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    int port = ntohs(((const sockaddr_in*) a)->sin_port);
    if (hit("bind", port)) { errno = EADDRINUSE; return -1; }
    if (it->second.k == SrvFd::UDP) {
        if (g_srv_udp.count(port)) { errno = EADDRINUSE; return -1; }
        g_srv_udp[port] = fd; it->second.udp->port = port; it->second.udp->self = *(const sockaddr_in*) a;
        g_udp_socks[{0, port}] = it->second.udp.get();
    } else {
        for (auto& kv : g_fds) if (kv.first != fd && kv.second.k != SrvFd::UDP && kv.second.bound_port == port) { errno = EADDRINUSE; return -1; }
    }
    it->second.bound_port = port; trace("bind", fd, port);
    return 0;
}
int listen(int fd, int bl) {
    if (fd < FD0) return syscall(SYS_listen, fd, bl);
    InSim g;
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    if (hit("listen", it->second.bound_port)) { errno = EADDRINUSE; return -1; }
    it->second.k = SrvFd::LISTEN;
    it->second.l = std::make_shared<Listener>(); it->second.l->server = true; it->second.l->port = it->second.bound_port;
    g_listen[it->second.bound_port] = it->second.l; trace("listen", fd, it->second.bound_port);
    return 0;
}
int setsockopt(int fd, int lvl, int name, const void* v, socklen_t l) {
    if (fd < FD0) return syscall(SYS_setsockopt, fd, lvl, name, v, l);
    InSim g;
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    if (hit("setsockopt", g_sockno++)) { errno = ENOPROTOOPT; return -1; }
    if (it->second.k == SrvFd::UDP && lvl == IPPROTO_IP && name == IP_PKTINFO) it->second.udp->pktinfo = true;
    return 0;
}
int getsockopt(int fd, int lvl, int name, void* v, socklen_t* l) {
    if (fd < FD0) return syscall(SYS_getsockopt, fd, lvl, name, v, l);
    if (v && l && *l >= sizeof(int)) *(int*) v = 0;
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
    if (fd < FD0) return syscall(SYS_getsockname, fd, a, l);
    InSim g;
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    if (hit("getsockname", g_sockno++)) { errno = ENOBUFS; return -1; }
    sockaddr_in r = mkaddr("192.0.2.1", it->second.bound_port);
    if (it->second.e) r = it->second.tcp->addr[it->second.e->side];
    memcpy(a, &r, std::min<size_t>(*l, sizeof r)); *l = sizeof r; return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
    if (fd < FD0) return syscall(SYS_getpeername, fd, a, l);
    InSim g;
    auto it = g_fds.find(fd); if (it == g_fds.end() || !it->second.e) { errno = ENOTCONN; return -1; }
    sockaddr_in r = it->second.tcp->addr[1 - it->second.e->side];
    memcpy(a, &r, std::min<size_t>(*l, sizeof r)); *l = sizeof r; return 0;
}
static int sim_close(int fd) {
    auto it = g_fds.find(fd); if (it == g_fds.end()) {
        errno = EBADF; count("close.badfd"); return -1; }
    SrvFd s = it->second; g_fds.erase(it); S.fds = g_fds.size();
    trace("closefd", fd);
    if (s.k == SrvFd::LISTEN) {
        auto l = g_listen.find(s.bound_port);
        if (l != g_listen.end() && l->second == s.l) g_listen.erase(l);
        for (auto& c : s.l->backlog) tcp_reset(&c->e[1]);
    } else if (s.k == SrvFd::UDP) {
        s.udp->open = false;
        if (s.bound_port) { g_srv_udp.erase(s.bound_port); g_udp_socks.erase({0, s.bound_port}); }
    } else if (s.e) end_close(s.e);
    return 0;
}
int close(int fd) {
    if (fd < FD0) return syscall(SYS_close, fd);
    InSim g; return sim_close(fd);
}
int shutdown(int fd, int how) {
    if (fd < FD0) return syscall(SYS_shutdown, fd, how);
    InSim g;
    auto it = g_fds.find(fd); if (it == g_fds.end() || !it->second.e) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD) tcp_shutdown(it->second.e);
    return 0;
}
struct hostent* gethostbyname(const char* name) {
    static struct hostent h; static char addr[4]; static char* lst[2]; static char nm[256];
    InSim g;
    trace("dns", hash_str(name));
    if (fault_on("dns_slow")) { server_cpu(fault_par("dns_slow", 1000) * 1000); count("fault.dns_slow"); }
    auto it = g_dns.find(name);
    if (it == g_dns.end() || it->second.empty() || hit("dns", g_sockno++)) { count("dns.fail"); return nullptr; }
    in_addr_t a = inet_addr(it->second.c_str()); memcpy(addr, &a, 4);
    snprintf(nm, sizeof nm, "%s", name);
    lst[0] = addr; lst[1] = nullptr; h.h_name = nm; h.h_aliases = lst + 1; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = lst;
    return &h;
}
// the configuration is the only file the server reads
ssize_t read(int fd, void* b, size_t n) {
    static u64 no = 0;
    if (in_server() && fault_on("conf_read")) {
        if (n > 1) n = 1 + hash3(g_seed, 0xc0f1e, no) % std::min<size_t>(n, 3000);
        if (hit("conf_read", no++)) { errno = EIO; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) {
    if (!in_server()) __real_exit(code);
    g_cur->sim_depth = 1;
    S.exited = true; S.exit_code = code; S.by_exit = true;
    trace("server-exit()", (u64) code);
    for (;;) fiber_yield();
}

// ============================================================ state-threads seam
int st_init(void) { return 0; }
int st_getfdlimit(void) { return 65536; }
int st_set_eventsys(int) { return 0; }
int st_get_eventsys(void) { return ST_EVENTSYS_ALT; }
const char* st_get_eventsys_name(void) { return "sim"; }
st_switch_cb_t st_set_switch_in_cb(st_switch_cb_t cb) { return nullptr; }
st_switch_cb_t st_set_switch_out_cb(st_switch_cb_t cb) { return nullptr; }
int st_randomize_stacks(int) { return 0; }
int st_set_utime_function(st_utime_t (*)(void)) { return 0; }
int st_timecache_set(int) { return 0; }
st_utime_t st_utime(void) { return EPOCH_US + g_now; }
st_utime_t st_utime_last_clock(void) { return EPOCH_US + g_now; }
time_t st_time(void) { return (EPOCH_US + g_now) / 1000000; }
st_thread_t st_thread_self(void) { return g_st_cur; }

static void thread_end(_st_thread* t, void* rv) {
    t->retval = rv; t->done = true; S.threads--;
    trace("thread-end", t->id);
    if (t->term) st_cond_broadcast(t->term);
}
st_thread_t st_thread_create(void* (*start)(void*), void* arg, int joinable, int) {
    InSim g;
    if (hit("thread", S.threads_created++)) { errno = ENOMEM; return nullptr; }
    auto t = new _st_thread(); t->id = g_st_ids++; t->start = start; t->arg = arg; t->joinable = joinable;
    t->f = fiber_new("st", true, [t] {
        void* rv = t->start(t->arg);
        g_cur->sim_depth = 1;
        thread_end(t, rv);
        if (!t->joinable) delete t;
    });
    t->f->st = t;
    S.threads++;
    g_runq.push_back(t);
    trace("thread", t->id);
    return t;
}
void st_thread_exit(void* rv) { InSim g; thread_end(g_st_cur, rv); for (;;) { g_st_cur->state = ST_DEAD; fiber_yield(); } }
int st_thread_join(st_thread_t t, void** rv) {
    InSim g;
    if (!t->joinable) { errno = EINVAL; return -1; }
    if (!t->term) t->term = st_cond_new();
    while (!t->done) if (st_cond_timedwait(t->term, ST_UTIME_NO_TIMEOUT) < 0) return -1;
    if (rv) *rv = t->retval;
    return 0;
}
void st_thread_interrupt(st_thread_t t) {
    InSim g;
    if (t->done) return;
    t->interrupted = true;
    if (t->state == ST_RUN || t == g_st_cur) return;
    if (t->state == ST_IO) g_io.remove(t);
    runnable(t);
}
int st_usleep(st_utime_t us) {
    InSim g; auto t = g_st_cur;
    if (!t) return 0;
    if (t->interrupted) { t->interrupted = false; errno = EINTR; return -1; }
    t->state = ST_SLEEP; t->timed_out = false;
    if (us != ST_UTIME_NO_TIMEOUT) set_timer(t, us);
    st_block();
    if (t->interrupted) { t->interrupted = false; errno = EINTR; return -1; }
    return 0;
}
int st_sleep(int secs) { return st_usleep(secs >= 0 ? (st_utime_t) secs * 1000000ULL : ST_UTIME_NO_TIMEOUT); }
st_cond_t st_cond_new(void) { InSim g; S.conds++; return new _st_cond(); }
int st_cond_destroy(st_cond_t c) {
    InSim g;
    if (!c->q.empty()) { errno = EBUSY; count("cond.destroy_busy"); return -1; }
    S.conds--; delete c; return 0;
}
int st_cond_timedwait(st_cond_t c, st_utime_t timeout) {
    InSim g; auto t = g_st_cur;
    if (t->interrupted) { t->interrupted = false; errno = EINTR; return -1; }
    t->state = ST_COND; t->timed_out = false; t->cond = c;
    c->q.push_back(t);
    set_timer(t, timeout);
    st_block();
    c->q.remove(t); t->cond = nullptr;
    int rv = 0;
    if (t->timed_out) { errno = ETIME; rv = -1; }
    if (t->interrupted) { t->interrupted = false; errno = EINTR; rv = -1; }
    return rv;
}
int st_cond_wait(st_cond_t c) { return st_cond_timedwait(c, ST_UTIME_NO_TIMEOUT); }
static int cond_sig(st_cond_t c, bool all) {
    for (auto t : c->q) {
        if (t->state == ST_COND) {
            sched_point(t->id * 8 + 3);
            runnable(t);
            if (!all) break;
        }
    }
    return 0;
}
int st_cond_signal(st_cond_t c) { InSim g; return cond_sig(c, false); }
int st_cond_broadcast(st_cond_t c) { InSim g; return cond_sig(c, true); }
st_mutex_t st_mutex_new(void) { InSim g; return new _st_mutex(); }
int st_mutex_destroy(st_mutex_t m) { InSim g; if (m->owner || !m->q.empty()) { errno = EBUSY; return -1; } delete m; return 0; }
int st_mutex_lock(st_mutex_t m) {
    InSim g; auto t = g_st_cur;
    if (!m->owner) { m->owner = t; return 0; }
    if (m->owner == t) { errno = EDEADLK; return -1; }
    t->state = ST_COND; t->timed_out = false; m->q.push_back(t);
    st_block(); m->q.remove(t);
    return 0;
}
int st_mutex_unlock(st_mutex_t m) {
    InSim g;
    if (m->owner != g_st_cur) { errno = EPERM; return -1; }
    for (auto t : m->q) if (t->state == ST_COND) { m->owner = t; runnable(t); return 0; }
    m->owner = nullptr; return 0;
}
int st_mutex_trylock(st_mutex_t m) { if (m->owner) { errno = EBUSY; return -1; } m->owner = g_st_cur; return 0; }
static int g_keys = 0;
int st_key_create(int* k, void (*)(void*)) { *k = g_keys++; return 0; }
int st_key_getlimit(void) { return 16; }
int st_thread_setspecific(int k, void* v) { InSim g; g_st_cur->spec[k] = v; return 0; }
void* st_thread_getspecific(int k) { InSim g; return g_st_cur->spec.count(k) ? g_st_cur->spec[k] : nullptr; }

st_netfd_t st_netfd_open(int fd) { InSim g; return new _st_netfd{fd}; }
st_netfd_t st_netfd_open_socket(int fd) {
    InSim g;
    if (hit("netfd", g_sockno++)) { errno = ENOMEM; return nullptr; }
    return new _st_netfd{fd};
}
void st_netfd_free(st_netfd_t n) { InSim g; delete n; }
int st_netfd_close(st_netfd_t n) {
    InSim g;
    for (auto t : g_io) if (t->wfd == n) { errno = EBUSY; count("netfd.close_busy"); return -1; }
    sim_close(n->fd); delete n; return 0;
}
int st_netfd_fileno(st_netfd_t n) { return n->fd; }
void st_netfd_setspecific(st_netfd_t, void*, void (*)(void*)) {}
void* st_netfd_getspecific(st_netfd_t) { return nullptr; }
int st_netfd_serialize_accept(st_netfd_t) { return 0; }

int st_netfd_poll(st_netfd_t n, int how, st_utime_t timeout) {
    InSim g; auto t = g_st_cur;
    if (t->interrupted) { t->interrupted = false; errno = EINTR; return -1; }
    t->state = ST_IO; t->wfd = n; t->how = how; t->revents = 0; t->timed_out = false;
    g_io.push_back(t);
    set_timer(t, timeout);
    st_block();
    if (t->interrupted) { t->interrupted = false; errno = EINTR; return -1; }
    if (t->timed_out) { errno = ETIME; return -1; }
    return 0;
}
int st_poll(struct pollfd*, int, st_utime_t) { errno = ENOSYS; return -1; }

st_netfd_t st_accept(st_netfd_t n, struct sockaddr* a, int* al, st_utime_t timeout) {
    InSim g;
    for (;;) {
        auto it = g_fds.find(n->fd);
        if (it == g_fds.end() || it->second.k != SrvFd::LISTEN) { errno = EBADF; return nullptr; }
        auto l = it->second.l;
        if (l->backlog.empty()) { if (st_netfd_poll(n, POLLIN, timeout) < 0) return nullptr; continue; }
        u64 an = g_acceptno++;
        if (fd_full() || hit("emfile", an)) { errno = EMFILE; return nullptr; }
        auto c = l->backlog.front(); l->backlog.pop_front();
        if (hit("connabort", an)) { tcp_reset(&c->e[1]); errno = ECONNABORTED; return nullptr; }
        int fd = fd_alloc(); SrvFd s; s.k = SrvFd::TCP; s.tcp = c; s.e = &c->e[1];
        g_fds[fd] = s; S.fds = g_fds.size();
        if (a && al) { memcpy(a, &c->addr[0], std::min<size_t>(*al, sizeof(sockaddr_in))); *al = sizeof(sockaddr_in); }
        trace("accept", c->id, fd); count("tcp.accept");
        return new _st_netfd{fd};
    }
}
static u64 g_outid = 1u << 20;
static void udp_autobind(int fd);
int st_connect(st_netfd_t n, const struct sockaddr* a, int, st_utime_t timeout) {
    InSim g;
    auto it = g_fds.find(n->fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    const sockaddr_in* sa = (const sockaddr_in*) a;
    if (it->second.k == SrvFd::UDP) { udp_autobind(n->fd); it->second.udp->conn = *sa; it->second.udp->connected = true; return 0; }
    char ip[32]; inet_ntop(AF_INET, &sa->sin_addr, ip, sizeof ip);
    int port = ntohs(sa->sin_port);
    u64 no = g_outid++;
    trace("out-connect", no, port);
    count("tcp.out_connect");
    if (hit("connect", no)) { errno = ENETUNREACH; return -1; }
    std::shared_ptr<Listener> l;
    auto u = g_ups.find({ip, port}); if (u != g_ups.end()) l = u->second;
    LinkProfile lp; if (l) lp = l->lp;
    auto c = mk_tcp(no, lp, 0);
    c->addr[0] = mkaddr("192.0.2.1", 40000 + no % 20000); c->addr[1] = *sa;
    it->second.tcp = c; it->second.e = &c->e[0]; it->second.k = SrvFd::TCP;
    int mode = !l ? 1 : l->mode;
    if (l) { l->nconn++; if (l->on_connect) mode = l->on_connect(); }
    if (mode == 1) after(2 * c->lat + 10, [c] { c->e[0].conn_err = ECONNREFUSED; });
    else if (mode == 2) after(127000000, [c] { c->e[0].conn_err = ETIMEDOUT; });
    else after(c->lat, [c, l] {
        c->e[1].connected = true; l->backlog.push_back(c); l->wq.wake();
        after(c->lat, [c] { if (!c->e[0].conn_err) c->e[0].connected = true; });
    });
    if (mode == 1) count("fault.up_refuse"); else if (mode == 2) count("fault.up_blackhole");
    if (st_netfd_poll(n, POLLOUT, timeout) < 0) return -1;
    if (c->e[0].conn_err) { errno = c->e[0].conn_err; return -1; }
    return 0;
}
static End* end_of(st_netfd_t n) {
    auto it = g_fds.find(n->fd); if (it == g_fds.end() || !it->second.e) return nullptr; return it->second.e;
}
ssize_t st_read(st_netfd_t n, void* buf, size_t len, st_utime_t timeout) {
    InSim g;
    for (;;) {
        End* e = end_of(n); if (!e) { errno = EBADF; return -1; }
        if (len == 0) return 0;
        if (e->readable()) {
            size_t k = end_read(e, buf, len, true);
            if (e->c->segmode == 0 && k < 8) {} else trace("read", e->c->id, k);
            return k;
        }
        if (e->rst) { errno = ECONNRESET; return -1; }
        if (e->fin_rcvd) return 0;
        e->read_blocked = true; e->read_since = g_now;
        int pr = st_netfd_poll(n, POLLIN, timeout);
        if ((e = end_of(n))) e->read_blocked = false;
        if (pr < 0) return -1;
    }
}
ssize_t st_read_fully(st_netfd_t n, void* buf, size_t len, st_utime_t timeout) {
    size_t o = 0;
    while (o < len) { ssize_t r = st_read(n, (char*) buf + o, len - o, timeout); if (r < 0) return -1; if (r == 0) break; o += r; }
    return o;
}
int st_read_resid(st_netfd_t n, void* buf, size_t* resid, st_utime_t timeout) {
    while (*resid) { ssize_t r = st_read(n, buf, *resid, timeout); if (r < 0) return -1; if (!r) break; buf = (char*) buf + r; *resid -= r; }
    return 0;
}
ssize_t st_readv(st_netfd_t n, const struct iovec* v, int k, st_utime_t tm) { return k > 0 ? st_read(n, v[0].iov_base, v[0].iov_len, tm) : 0; }
int st_readv_resid(st_netfd_t n, struct iovec** v, int* k, st_utime_t tm) { errno = ENOSYS; return -1; }
ssize_t st_write(st_netfd_t n, const void* buf, size_t len, st_utime_t timeout) {
    InSim g;
    size_t o = 0;
    while (o < len) {
        End* e = end_of(n); if (!e) { errno = EBADF; return -1; }
        if (e->rst) { errno = EPIPE; return -1; }
        if (e->fin_queued) { errno = EPIPE; return -1; }
        size_t k = end_write(e, (const char*) buf + o, len - o);
        o += k;
        if (k) trace("write", e->c->id, k);
        if (o < len && k == 0) {
            e->write_blocked = true; e->blocked_since = g_now; count("tcp.write_block");
            int r = st_netfd_poll(n, POLLOUT, timeout);
            e->write_blocked = false;
            if (r < 0) return -1;
        }
    }
    return len;
}
int st_write_resid(st_netfd_t n, const void* b, size_t* resid, st_utime_t tm) {
    ssize_t r = st_write(n, b, *resid, tm); if (r < 0) return -1; *resid = 0; return 0;
}
ssize_t st_writev(st_netfd_t n, const struct iovec* v, int k, st_utime_t tm) {
    ssize_t tot = 0;
    for (int i = 0; i < k; ++i) { ssize_t r = st_write(n, v[i].iov_base, v[i].iov_len, tm); if (r < 0) return -1; tot += r; }
    return tot;
}
int st_writev_resid(st_netfd_t, struct iovec**, int*, st_utime_t) { errno = ENOSYS; return -1; }
static Udp* udp_of(st_netfd_t n) {
    auto it = g_fds.find(n->fd); if (it == g_fds.end() || it->second.k != SrvFd::UDP) return nullptr; return it->second.udp.get();
}
static int g_eph = 40000; static u64 g_udprd = 0;
static void udp_autobind(int fd) {
    auto& s = g_fds[fd]; if (s.bound_port) return;
    while (g_srv_udp.count(g_eph)) g_eph++;
    s.bound_port = s.udp->port = g_eph; s.udp->self = mkaddr("0.0.0.0", g_eph); g_srv_udp[g_eph] = fd; g_udp_socks[{0, g_eph}] = s.udp.get(); g_eph++;
}

int st_recvfrom(st_netfd_t n, void* buf, int len, struct sockaddr* from, int* fl, st_utime_t tm) {
    InSim g;
    for (;;) {
        Udp* u = udp_of(n); if (!u) { errno = EBADF; return -1; }
        if (!u->rcvq.empty()) {
            if (hit("udp_recv_err", g_udprd++)) { errno = ENOMEM; return -1; }
            auto d = u->rcvq.front(); u->rcvq.pop_front();
            int k = std::min<int>(len, d.second.size()); memcpy(buf, d.second.data(), k);
            if (from && fl) { memcpy(from, &d.first, std::min<size_t>(*fl, sizeof d.first)); *fl = sizeof d.first; }
            return k;
        }
        if (st_netfd_poll(n, POLLIN, tm) < 0) return -1;
    }
}
int st_sendto(st_netfd_t n, const void* m, int len, const struct sockaddr* to, int, st_utime_t) {
    InSim g;
    Udp* u = udp_of(n); if (!u) { errno = EBADF; return -1; }
    sockaddr_in d; if (to) d = *(const sockaddr_in*) to; else if (u->connected) d = u->conn; else { errno = EDESTADDRREQ; return -1; }
    if (len > 65507) { errno = EMSGSIZE; return -1; }
    udp_autobind(n->fd);
    if (hit("udp_send_err", g_udprd++)) { errno = ENOBUFS; return -1; }
    if (d.sin_addr.s_addr == 0) d.sin_addr.s_addr = inet_addr("127.0.0.1");
    udp_send(u, d, m, len); count("udp.server_send");
    return len;
}
int st_recvmsg(st_netfd_t n, struct msghdr* msg, int, st_utime_t tm) {
    InSim g;
    for (;;) {
        Udp* u = udp_of(n); if (!u) { errno = EBADF; return -1; }
        if (!u->rcvq.empty()) {
            if (hit("udp_recv_err", g_udprd++)) { errno = ENOMEM; return -1; }
            auto d = u->rcvq.front(); u->rcvq.pop_front();
            size_t o = 0;
            for (size_t i = 0; i < msg->msg_iovlen && o < d.second.size(); ++i) {
                size_t k = std::min(msg->msg_iov[i].iov_len, d.second.size() - o);
                memcpy(msg->msg_iov[i].iov_base, d.second.data() + o, k); o += k;
            }
            if (msg->msg_name) { memcpy(msg->msg_name, &d.first, std::min<size_t>(msg->msg_namelen, sizeof d.first)); msg->msg_namelen = sizeof d.first; }
            msg->msg_flags = o < d.second.size() ? MSG_TRUNC : 0;
            if (u->pktinfo && msg->msg_control && msg->msg_controllen >= CMSG_SPACE(sizeof(in_pktinfo))) {
                struct cmsghdr* c = CMSG_FIRSTHDR(msg);
                c->cmsg_level = IPPROTO_IP; c->cmsg_type = IP_PKTINFO; c->cmsg_len = CMSG_LEN(sizeof(in_pktinfo));
                in_pktinfo pi; memset(&pi, 0, sizeof pi);
                pi.ipi_addr.s_addr = inet_addr("192.0.2.1"); pi.ipi_spec_dst = pi.ipi_addr;
                memcpy(CMSG_DATA(c), &pi, sizeof pi);
                msg->msg_controllen = CMSG_SPACE(sizeof(in_pktinfo));
            } else msg->msg_controllen = 0;
            return o;
        }
        if (st_netfd_poll(n, POLLIN, tm) < 0) return -1;
    }
}
int st_sendmsg(st_netfd_t n, const struct msghdr* m, int, st_utime_t tm) {
    InSim g; std::string d;
    for (size_t i = 0; i < m->msg_iovlen; ++i) d.append((char*) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return st_sendto(n, d.data(), d.size(), (sockaddr*) m->msg_name, m->msg_namelen, tm);
}
st_netfd_t st_open(const char*, int, mode_t) { errno = ENOSYS; return nullptr; }
}  // extern C

namespace sim { int fd_bound_port(int fd) { auto it = g_fds.find(fd); return it == g_fds.end() ? -1 : it->second.bound_port; } }
namespace sim { size_t tcp_server_out(const std::string& ip, int port) { size_t n = 0; for (auto& kv : g_fds) if (kv.second.k == SrvFd::TCP && kv.second.e && kv.second.e->side == 0 && kv.second.tcp->addr[1].sin_port == htons(port) && kv.second.tcp->addr[1].sin_addr.s_addr == inet_addr(ip.c_str())) n++; return n; } }
namespace sim { size_t tcp_server_open() { size_t n = 0; for (auto& kv : g_fds) if (kv.second.k == SrvFd::TCP) n++; return n; } }
