// Entry point: generates, runs and replays simulated executions.
//   sim gen  SCEN PROP SEED            prints the plan
//   sim run  PLANFILE [-v]             runs one plan, prints the outcome as JSON
//   sim batch SCEN PROP SEED0 N SECS   runs seeds SEED0, SEED0+STEP... prints one JSON line per seed
// The process that forks the runs keeps no heap state of its own between runs, so that every
// run starts from the same memory image and one plan is one execution.
#include "plan.hpp"
#include "shm.hpp"
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
Shm* g_shm = nullptr;
Plan g_plan;
const char* g_alias = nullptr;
std::map<std::string, std::string> g_rename;          // checks shared between scenarios

// ------------------------------------------------------------------ plan
i64 Op::i(const char* k, i64 d) const { auto it = a.find(k); return it == a.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
std::string Op::s(const char* k, const char* d) const { auto it = a.find(k); return it == a.end() ? d : it->second; }
i64 Plan::ki(const char* n, i64 d) const { auto it = k.find(n); return it == k.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
std::string Plan::ks(const char* n, const char* d) const { auto it = k.find(n); return it == k.end() ? d : it->second; }
static std::string esc(const std::string& s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c <= ' ' || c == '%' || c >= 127 || c == '=') { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += c; }
    return r;
}
static std::string unesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i];
    return r;
}
std::string Plan::text() const {
    std::string r; char b[256];
    r += "scen " + scen + "\nprop " + prop + "\n";
    snprintf(b, sizeof b, "seed %llu\n", (unsigned long long) seed); r += b;
    for (auto& kv : k) r += "k " + kv.first + " " + esc(kv.second) + "\n";
    for (auto& kv : faults) { snprintf(b, sizeof b, "fault %s %llu\n", kv.first.c_str(), (unsigned long long) kv.second); r += b; }
    for (auto& o : ops) {
        snprintf(b, sizeof b, "op %d %llu %s", o.id, (unsigned long long) o.t, o.kind.c_str()); r += b;
        for (auto& kv : o.a) r += " " + kv.first + "=" + esc(kv.second);
        r += "\n";
    }
    return r;
}
static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> v; size_t i = 0;
    while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t j = i; while (j < s.size() && s[j] != ' ') j++; if (j > i) v.push_back(s.substr(i, j - i)); i = j; }
    return v;
}
bool Plan::parse(const char* p, size_t n) {
    std::string all(p, n); size_t i = 0;
    while (i < all.size()) {
        size_t j = all.find('\n', i); if (j == std::string::npos) j = all.size();
        std::string line = all.substr(i, j - i); i = j + 1;
        if (line.empty() || line[0] == '#') continue;
        auto w = split(line);
        if (w[0] == "scen") scen = w[1];
        else if (w[0] == "prop") prop = w[1];
        else if (w[0] == "seed") seed = strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "k") k[w[1]] = w.size() > 2 ? unesc(w[2]) : "";
        else if (w[0] == "fault") faults[w[1]] = strtoull(w[2].c_str(), nullptr, 10);
        else if (w[0] == "op") {
            Op o; o.id = atoi(w[1].c_str()); o.t = strtoull(w[2].c_str(), nullptr, 10); o.kind = w[3];
            for (size_t q = 4; q < w.size(); ++q) { auto e = w[q].find('='); if (e != std::string::npos) o.a[w[q].substr(0, e)] = unesc(w[q].substr(e + 1)); }
            ops.push_back(o);
        } else return false;
    }
    return !scen.empty();
}

// ------------------------------------------------------------------ results
void violation(const char* prop, const char* fmt, ...) {
    char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char* c = b; *c; ++c) if ((unsigned char) *c < ' ' || (unsigned char) *c > 126) *c = '?';
    auto rn = g_rename.find(prop); if (rn != g_rename.end()) prop = rn->second.c_str();
    if (g_verbose) vlog("VIOLATION %s %s", prop, b);
    if (g_alias && strcmp(prop, g_alias) && strcmp(prop, "C13") && strcmp(prop, "C17") && prop[0] == 'C' && prop[1] >= '0' && prop[1] <= '9') violation(g_alias, "%s", b);
    u64 same = 0; for (u64 i = 0; i < g_shm->nviol; ++i) same += !strcmp(g_shm->viol[i].prop, prop);
    if (same < 3 && g_shm->nviol < 48) {
        auto& v = g_shm->viol[g_shm->nviol++];
        snprintf(v.prop, sizeof v.prop, "%s", prop); snprintf(v.msg, sizeof v.msg, "%s", b);
    }
    trace("violation", hash_str(prop), hash_str(b));
}
void count(const char* name, u64 n) {
    for (u64 i = 0; i < g_shm->ncnt; ++i) if (!strcmp(g_shm->cnt[i].name, name)) { g_shm->cnt[i].n += n; return; }
    if (g_shm->ncnt >= 128) return;
    auto& c = g_shm->cnt[g_shm->ncnt++]; snprintf(c.name, sizeof c.name, "%s", name); c.n = n;
}
bool fault_on(const char* kind) { return g_plan.faults.count(kind) > 0; }
u64 fault_par(const char* kind, u64 def) { auto it = g_plan.faults.find(kind); return it == g_plan.faults.end() ? def : it->second; }

static const Scenario* find_scen(const char* n) { for (const Scenario* s = g_scenarios; s->name; ++s) if (!strcmp(s->name, n)) return s; return nullptr; }

static char g_err[8192];
static int  g_errfd = -1;
static char g_json[1 << 16];

// child side: does not return
static void child_gen(const char* scen, const char* prop, u64 seed) {
    auto s = find_scen(scen);
    if (!s) _exit(3);
    Plan p; p.scen = scen; p.prop = prop; p.seed = seed;
    Rng r(hash2(seed, hash_str(std::string(scen) + prop)));
    s->gen(p, r);
    std::string t = p.text();
    if (t.size() >= sizeof g_shm->plan) _exit(4);
    memcpy(g_shm->plan, t.data(), t.size()); g_shm->plan_len = t.size();
    _exit(0);
}
static void child_run() {
    if (!g_plan.parse(g_shm->plan, g_shm->plan_len)) _exit(3);
    auto s = find_scen(g_plan.scen.c_str());
    if (!s) _exit(3);
    g_seed = g_plan.seed;
    g_shm->hash = mix64(g_seed);
    if (g_verbose) setvbuf(stdout, nullptr, _IONBF, 0);
    s->run(g_plan);
    g_shm->finished = 1;
    _exit(0);
}
struct Outcome { int status; bool timeout; double secs; };
static double mono() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static Outcome wait_child(pid_t pid, double limit) {
    double t0 = mono(); Outcome o{0, false, 0};
    for (;;) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) { o.status = st; break; }
        if (mono() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.status = st; o.timeout = true; break; }
        usleep(mono() - t0 < 0.02 ? 200 : 2000);
    }
    o.secs = mono() - t0;
    return o;
}
static void clear_results() { memset((char*) g_shm + offsetof(Shm, hash), 0, sizeof(Shm) - offsetof(Shm, hash)); }
static Outcome do_run(bool verbose, double limit) {
    clear_results();
    if (g_errfd >= 0) { (void) !ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET); }
    pid_t pid = fork();
    if (pid == 0) {
        g_verbose = verbose;
        struct rlimit cl{30, 31}; setrlimit(RLIMIT_CPU, &cl);
        if (!verbose) { dup2(g_errfd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
        else dup2(2, 1);
        child_run();
    }
    return wait_child(pid, limit);
}
static int do_gen(const char* scen, const char* prop, u64 seed) {
    g_shm->plan_len = 0;
    pid_t pid = fork();
    if (pid == 0) child_gen(scen, prop, seed);
    Outcome o = wait_child(pid, 60);
    return WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0 && !o.timeout ? 0 : 1;
}
static size_t jstr(char* o, size_t n, const char* s) {
    size_t k = 0; if (n < 3) return 0; o[k++] = '"';
    for (; *s && k + 8 < n; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { o[k++] = '\\'; o[k++] = c; } else if (c < ' ' || c > 126) o[k++] = ' '; else o[k++] = c; }
    o[k++] = '"'; o[k] = 0; return k;
}
// the first lines of interest of a sanitizer report
static void crash_summary(char* out, size_t n, const Outcome& o) {
    out[0] = 0;
    ssize_t r = pread(g_errfd, g_err, sizeof g_err - 1, 0); if (r < 0) r = 0; g_err[r] = 0;
    size_t k = 0;
    char* e = strstr(g_err, "ERROR: AddressSanitizer");
    if (!e) e = strstr(g_err, "terminate called");
    if (!e && strstr(g_err, "Assert")) e = strstr(g_err, "Assert");
    if (e) { char* nl = strchr(e, '\n'); if (nl) { size_t l = nl - e; if (l > 160) l = 160; k += snprintf(out + k, n - k, "%.*s", (int) l, e); } }
    int frames = 0;
    for (char* p = g_err; (p = strstr(p, " in ")) && frames < 6; p += 4) {
        char* nl = strchr(p, '\n'); if (!nl) break;
        size_t l = std::min<size_t>(nl - p - 4, 120);
        if (memmem(p, nl - p, "/repo/src", 9) || frames < 2) { k += snprintf(out + k, n - k, " <- %.*s", (int) l, p + 4); frames++; }
    }
    if (!k) snprintf(out, n, "%s %d", WIFSIGNALED(o.status) ? "signal" : "exit", WIFSIGNALED(o.status) ? WTERMSIG(o.status) : WEXITSTATUS(o.status));
    // addresses and pids out of the message
    char* w = out; for (char* p = out; *p;) { if (p[0] == '0' && p[1] == 'x') { p += 2; while (isxdigit(*p)) p++; *w++ = '@'; } else if (!strncmp(p, "==", 2)) { p += 2; while (isdigit(*p)) p++; while (*p == '=') p++; } else *w++ = *p++; } *w = 0;
}
static void print_outcome(u64 seed, const Outcome& o) {
    size_t k = 0; size_t N = sizeof g_json;
    static char cs[2048]; cs[0] = 0;
    bool crashed = !o.timeout && !g_shm->finished;
    if (crashed) crash_summary(cs, sizeof cs, o);
    k += snprintf(g_json + k, N - k, "{\"seed\":%llu,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"state\":\"%016llx\",\"steps\":%llu,\"sim_us\":%llu,\"ms\":%.1f,\"timeout\":%d,\"crash\":",
                  (unsigned long long) seed, (unsigned long long) g_shm->hash, (unsigned long long) g_shm->sched_hash, (unsigned long long) g_shm->state_hash,
                  (unsigned long long) g_shm->steps, (unsigned long long) g_shm->sim_time, o.secs * 1000, o.timeout ? 1 : 0);
    if (crashed) k += jstr(g_json + k, N - k, cs); else k += snprintf(g_json + k, N - k, "null");
    k += snprintf(g_json + k, N - k, ",\"nontrivial\":%llu,\"note\":", (unsigned long long) g_shm->nontrivial);
    k += jstr(g_json + k, N - k, g_shm->note);
    k += snprintf(g_json + k, N - k, ",\"viol\":[");
    for (u64 i = 0; i < g_shm->nviol; ++i) {
        k += snprintf(g_json + k, N - k, "%s[", i ? "," : ""); k += jstr(g_json + k, N - k, g_shm->viol[i].prop); g_json[k++] = ',';
        k += jstr(g_json + k, N - k, g_shm->viol[i].msg); g_json[k++] = ']'; g_json[k] = 0;
    }
    k += snprintf(g_json + k, N - k, "],\"cnt\":{");
    for (u64 i = 0; i < g_shm->ncnt; ++i) { k += snprintf(g_json + k, N - k, "%s\"%s\":%llu", i ? "," : "", g_shm->cnt[i].name, (unsigned long long) g_shm->cnt[i].n); }
    k += snprintf(g_json + k, N - k, "}}\n");
    for (size_t w = 0; w < k;) { ssize_t r = write(1, g_json + w, k - w); if (r <= 0) break; w += r; }
}
}  // namespace sim
using namespace sim;

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
           "max_allocation_size_mb=4096:quarantine_size_mb=64:detect_odr_violation=0:handle_abort=1:fast_unwind_on_malloc=1:malloc_context_size=6:alloc_dealloc_mismatch=0";
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    // the environment is part of the initial memory image
    clearenv();
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    g_shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_errfd = memfd_create("err", 0);
    if (g_errfd != 100) { dup2(g_errfd, 100); close(g_errfd); g_errfd = 100; }
    if (argc >= 5 && !strcmp(argv[1], "gen")) {
        if (do_gen(argv[2], argv[3], strtoull(argv[4], nullptr, 10))) { fprintf(stderr, "gen failed\n"); return 2; }
        fwrite(g_shm->plan, 1, g_shm->plan_len, stdout); return 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "run")) {
        int fd = open(argv[2], O_RDONLY); if (fd < 0) { perror(argv[2]); return 2; }
        ssize_t r = read(fd, g_shm->plan, sizeof g_shm->plan); close(fd);
        if (r <= 0) return 2;
        g_shm->plan_len = r;
        bool v = argc > 3 && !strcmp(argv[3], "-v");
        double lim = argc > 4 ? atof(argv[4]) : 300;
        Outcome o = do_run(v, lim);
        print_outcome(0, o);
        if (argc > 3 && !strcmp(argv[3], "-e")) { static char b[65536]; ssize_t n = pread(g_errfd, b, sizeof b, 0); (void) !write(2, b, n > 0 ? n : 0); }
        return 0;
    }
    if (argc >= 8 && !strcmp(argv[1], "batch")) {
        u64 s0 = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10), step = strtoull(argv[7], nullptr, 10); double secs = atof(argv[6]);
        double t0 = mono();
        for (u64 i = 0; i < n && mono() - t0 < secs; ++i) {
            u64 seed = s0 + i * step;
            if (do_gen(argv[2], argv[3], seed)) { fprintf(stderr, "gen failed seed %llu\n", (unsigned long long) seed); return 2; }
            Outcome o = do_run(false, 300);
            print_outcome(seed, o);
        }
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
