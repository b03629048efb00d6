#include "omc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <malloc.h>

namespace omc {
int team_size = 2, max_active = 1, seq_order = 0, bound_override = -1;
bool race_detect = false, explore_points = true, atomic_points = true, thorough = false;
int bound = 0;

// ------------------------------------------------------------------ registry
static std::vector<Harness> &registry() { static std::vector<Harness> r; return r; }
Register::Register(const char *n, void (*b)(), int qb, int tb, const char *doc) { registry().push_back({n, b, qb, tb, doc}); }

// ------------------------------------------------------------------- decisions
struct Point { int n, chosen; bool preempt_cost; const char *label; };
static std::vector<int> prefix;          // choices to replay
static std::vector<Point> trace;         // this execution
static int preemptions = 0, max_preempt_seen = 0;
static long executions = 0, tree_nodes = 0, steps = 0, steps_exec = 0;
static long shard_i = 0, shard_n = 1;
static std::set<std::string> outcomes;
static std::map<std::string, long> counters;
static std::vector<std::string> samples;
static std::vector<std::string> notes;
static bool replaying = false, in_exec = false;
static const char *cur_name = "?";
static std::string out_path;
static long horizon = 4000000;
static double t0;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void write_all(const std::string &s) {
    int fd = out_path.empty() ? 1 : open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t off = 0;
    while (off < s.size()) { ssize_t n = write(fd, s.data() + off, s.size() - off); if (n <= 0) break; off += n; }
    if (fd != 1) close(fd);
}
static std::string summary(const char *verdict, const std::string &msg) {
    std::ostringstream o;
    o << "{\"harness\":\"" << cur_name << "\",\"verdict\":\"" << verdict << "\",\"message\":\"" << esc(msg) << "\""
      << ",\"bound\":" << bound << ",\"executions\":" << executions << ",\"states\":" << tree_nodes
      << ",\"transitions\":" << steps << ",\"max_preemptions\":" << max_preempt_seen
      << ",\"distinct_outcomes\":" << outcomes.size() << ",\"wall\":" << (now() - t0) << ",\"choices\":[";
    for (size_t i = 0; i < trace.size(); i++) o << (i ? "," : "") << trace[i].chosen;
    o << "],\"labels\":[";
    size_t lo = 0;
    for (size_t i = lo; i < trace.size() && i < 4000; i++) o << (i ? "," : "") << "\"" << esc(trace[i].label) << "\"";
    o << "],\"notes\":[";
    size_t first = notes.size() > 400 ? notes.size() - 400 : 0;
    for (size_t i = first; i < notes.size(); i++) o << (i > first ? "," : "") << "\"" << esc(notes[i]) << "\"";
    o << "],\"counters\":{";
    bool f = true;
    for (auto &c : counters) { o << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; }
    o << "},\"samples\":[";
    f = true;
    for (auto &c : samples) { o << (f ? "" : ",") << "\"" << esc(c) << "\""; f = false; }
    o << "],\"outcomes\":[";
    f = true; int k = 0;
    for (auto &c : outcomes) { if (k++ > 12) break; o << (f ? "" : ",") << "\"" << esc(c) << "\""; f = false; }
    o << "]}\n";
    return o.str();
}
static std::atomic<bool> dying(false);
[[noreturn]] static void die(const char *verdict, const std::string &msg) {
    if (dying.exchange(true)) for (;;) pause();
    write_all(summary(verdict, msg));
    _exit(strcmp(verdict, "ok") ? 1 : 0);
}
[[noreturn]] void fail(const char *fmt, ...) {
    char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    die("violation", b);
}
void outcome(const std::string &s) { if (outcomes.size() < 100000) outcomes.insert(s); }
void note(const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    notes.push_back(b);
}
void count(const std::string &k, long n) { counters[k] += n; }
static std::set<std::string> known;
bool violation(const char *key, const char *fmt, ...) {
    char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (known.count(key)) { counters[std::string("known:") + key]++; return true; }
    die("violation", std::string("[") + key + "] " + b);
}
void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }

// --alt N: index arithmetic; decide() is the only place where behaviour branches.
static int decide(int n, bool costs, const char *label) {
    steps++; steps_exec++;
    if (steps_exec > horizon) die("violation", "execution exceeds the step horizon: no progress (livelock)");
    if (n <= 1) return 0;
    size_t i = trace.size();
    int c = 0;
    if (i < prefix.size()) {
        c = prefix[i];
        // memory layout can change the order of the code's own hash tables between executions
        if (c < 0 || c >= n) { c = c < 0 ? 0 : n - 1; counters["diverged"]++; }
    } else {
        tree_nodes++;
    }
    trace.push_back({n, c, costs, label});
    if (costs && c > 0) { preemptions++; if (preemptions > max_preempt_seen) max_preempt_seen = preemptions; }
    return c;
}
int choose(int n, const char *label) { return decide(n, false, label); }

// --------------------------------------------------------------------- threads
const int MAXW = 24;                       // OS workers = vector clock slots
struct VC { uint32_t c[MAXW]; VC() { memset(c, 0, sizeof c); }
    void join(const VC &o) { for (int i = 0; i < MAXW; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct WS { long next = 0, end = 0, incr = 1, chunk = 1; bool init = false; };
struct Team {
    Team *parent = nullptr; int parent_num = 0; int size = 1, level = 0, active = 0;
    std::deque<WS> ws; int single_seen = 0; int bar_count = 0; long bar_gen = 0; VC bar_vc, bar_pub; void *copied = nullptr;
};
enum State { IDLE, READY, WAITLOCK, WAITJOIN, WAITBAR, WAITCOND };
struct Thread {
    int id = -1; State st = IDLE; sem_t sem; pthread_t pt; VC vc;
    std::function<void()> job; void *wait = nullptr; int *pending = nullptr; long bar_gen = 0;
    Team *team = nullptr; int num = 0; int ws_index = 0; int single_index = 0; bool timed = false;
    int order = 0;
    const void *spin_at = nullptr; int spins = 0;
    int tasks = 0; VC tasks_done;      // OpenMP tasks it started and has not waited for
};
static Thread *W[MAXW]; static int nW = 0;
static Team root_team;
static thread_local Thread *self = nullptr;          // null: unmanaged thread
static thread_local Team *u_team = nullptr;          // team info for the unmanaged thread
static thread_local int u_num = 0, u_ws = 0, u_single = 0;
static int spawn_order = 0;
static Thread *current = nullptr;
bool managed() { return self != nullptr; }

struct LockInfo { VC vc; };
static std::unordered_map<const void *, VC> sync_vc;   // release clocks by address
struct MtxState { bool held = false; Thread *owner = nullptr; int depth = 0; };
static std::unordered_map<const void *, MtxState> mtx; // criticals and pthread mutexes
static std::unordered_map<const void *, std::vector<Thread *>> cond_waiters;
static sem_t main_sem;

static bool lock_free(Thread *t) {
    auto it = mtx.find(t->wait);
    return it == mtx.end() || !it->second.held;
}
static bool enabled(Thread *t) {
    switch (t->st) {
    case READY: return true;
    case WAITLOCK: return lock_free(t);
    case WAITJOIN: return *t->pending == 0;
    case WAITBAR: return t->team->bar_gen != t->bar_gen;
    default: return false;
    }
}
static void race_reset();
static void switch_to(Thread *t) {
    Thread *me = self;
    if (t == me) return;
    current = t;
    sem_post(&t->sem);
    while (sem_wait(&me->sem) && errno == EINTR) {}
}
static void deadlock() {
    std::ostringstream o;
    o << "deadlock: no thread can run;";
    for (int i = 0; i < nW; i++) if (W[i]->st != IDLE) {
        const char *s = W[i]->st == WAITLOCK ? "waits for a lock" : W[i]->st == WAITJOIN ? "waits for its team" :
                        W[i]->st == WAITBAR ? "waits at a barrier" : W[i]->st == WAITCOND ? "waits on a condition" : "?";
        o << " thread " << W[i]->order << " " << s << ";";
    }
    die("violation", o.str());
}
// choose who runs next; me_can: the calling thread could simply continue
static void schedule(bool me_can, const char *label) {
    Thread *cand[MAXW]; int n = 0;
    if (me_can) cand[n++] = self;
    Thread *others[MAXW]; int m = 0;
    for (int i = 0; i < nW; i++) if (W[i] != self && W[i]->st != IDLE && enabled(W[i])) others[m++] = W[i];
    for (int i = 1; i < m; i++) for (int j = i; j > 0 && others[j]->order < others[j - 1]->order; j--) std::swap(others[j], others[j - 1]);
    for (int i = 0; i < m; i++) cand[n++] = others[i];
    if (n == 0) deadlock();
    int c = 0;
    if (!explore_points) steps++, steps_exec++;
    else if (me_can && preemptions >= bound) { steps++; steps_exec++; }   // budget used: forced
    else c = decide(n, me_can, label);
    if (steps_exec > horizon) die("violation", "execution exceeds the step horizon: no progress (livelock)");
    switch_to(cand[c]);
}
void point(const char *label) { if (self) schedule(true, label); }
// give way without its counting as a preemption: the thread waits actively
static void give_way(const char *label) {
    Thread *others[MAXW]; int m = 0;
    for (int i = 0; i < nW; i++) if (W[i] != self && W[i]->st != IDLE && enabled(W[i])) others[m++] = W[i];
    for (int i = 1; i < m; i++) for (int j = i; j > 0 && others[j]->order < others[j - 1]->order; j--) std::swap(others[j], others[j - 1]);
    if (!m) { steps++; if (++steps_exec > horizon) die("violation", "execution exceeds the step horizon: no progress (livelock)"); return; }
    int c = explore_points ? decide(m, false, label) : 0;
    switch_to(others[c]);
}
// a thread that keeps trying the same thing gets nowhere until another one runs
static bool spinning(const void *p, int limit) {
    if (self->spin_at == p) { if (++self->spins >= limit) { self->spins = 0; give_way("spin"); return true; } }
    else { self->spin_at = p; self->spins = 0; }
    return false;
}
static void block(State s, const char *label) {
    self->st = s;
    if (enabled(self)) { self->st = READY; return; }
    schedule(false, label);
    self->st = READY;
}
static void tick(Thread *t) { t->vc.c[t->id]++; }
static void acquire_vc(const void *p) { auto it = sync_vc.find(p); if (it != sync_vc.end()) self->vc.join(it->second); }
static void release_vc(const void *p) { sync_vc[p].join(self->vc); tick(self); }

static void *worker_main(void *arg) {
    Thread *me = (Thread *)arg;
    self = me;
    for (;;) {
        while (sem_wait(&me->sem) && errno == EINTR) {}
        me->job();
        // finish: hand the baton on
        me->job = nullptr;
        int *p = me->pending; (void)p;
        me->st = IDLE;
        Thread *cand[MAXW]; int n = 0;
        for (int i = 0; i < nW; i++) if (W[i] != me && W[i]->st != IDLE && enabled(W[i])) cand[n++] = W[i];
        for (int i = 1; i < n; i++) for (int j = i; j > 0 && cand[j]->order < cand[j - 1]->order; j--) std::swap(cand[j], cand[j - 1]);
        if (n == 0) {
            bool any = false;
            for (int i = 0; i < nW; i++) if (W[i]->st != IDLE) any = true;
            if (any) deadlock();
            sem_post(&main_sem);
        } else {
            int c = explore_points ? decide(n, false, "exit") : 0;
            current = cand[c];
            sem_post(&cand[c]->sem);
        }
    }
    return nullptr;
}
static Thread *get_worker() {
    for (int i = 0; i < nW; i++) if (W[i]->st == IDLE && !W[i]->job) return W[i];
    if (nW == MAXW) die("error", "too many managed threads");
    Thread *t = new Thread;
    t->id = nW; sem_init(&t->sem, 0, 0);
    W[nW++] = t;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) =
        (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (real(&t->pt, &a, worker_main, t)) die("error", "pthread_create failed");
    return t;
}
static void join_tasks() {
    if (!self) return;
    if (self->tasks) { int *p = self->pending; self->pending = &self->tasks; block(WAITJOIN, "task wait"); self->pending = p; }
    self->vc.join(self->tasks_done);
}
static void start(std::function<void()> f, int *pending, Team *team, int num, const VC &from) {
    Thread *t = get_worker();
    t->vc.join(from); tick(t);
    t->team = team; t->num = num; t->ws_index = 0; t->single_index = 0; t->order = ++spawn_order;
    t->pending = nullptr;
    t->job = [f, pending, t] { f(); join_tasks(); (*pending)--; };
    t->st = READY;
}
void run(std::vector<std::function<void()>> bodies) {
    static VC zero;
    int pending = (int)bodies.size();
    VC from; if (self) from = self->vc;
    spawn_order = 0;
    static Team bodies_team;               // each body is its own initial thread (level 0)
    for (auto &b : bodies) start(b, &pending, &root_team, 0, from);
    // the unmanaged main thread hands over and waits
    Thread *cand[MAXW]; int n = 0;
    for (int i = 0; i < nW; i++) if (W[i]->st == READY) cand[n++] = W[i];
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && cand[j]->order < cand[j - 1]->order; j--) std::swap(cand[j], cand[j - 1]);
    int c = explore_points ? decide(n, false, "first") : 0;
    current = cand[c];
    sem_post(&cand[c]->sem);
    while (sem_wait(&main_sem) && errno == EINTR) {}
    current = nullptr;
    if (pending) die("error", "managed threads left over");
}

// ----------------------------------------------------------- locks (by address)
static bool verbose_trace = getenv("OMC_TRACE") != nullptr;
#define TRACE(what) do { if (verbose_trace) fprintf(stderr, "[t%d] %s %p %s\n", self ? self->order : -1, what, p, label); } while (0)
static void lock_acquire(const void *p, const char *label) {
    TRACE("want");
    if (!self) {
        MtxState &m = mtx[p];
        if (m.held) die("violation", "self-deadlock: a lock is taken again by the only running thread");
        m.held = true;
        return;
    }
    self->spin_at = nullptr;
    schedule(true, label);
    MtxState *m = &mtx[p];
    if (m->held) {
        self->wait = (void *)p;
        block(WAITLOCK, label);
        m = &mtx[p];
        self->wait = nullptr;
    }
    m->held = true; m->owner = self;
    acquire_vc(p);
    TRACE("got");
}
static bool lock_try(const void *p, const char *label) {
    if (self) schedule(true, label);
    if (self && mtx[p].held) spinning(p, 4);
    MtxState &m = mtx[p];
    if (m.held) return false;
    if (self) self->spin_at = nullptr;
    m.held = true; m.owner = self;
    if (self) acquire_vc(p);
    return true;
}
static void lock_release(const void *p, const char *label) {
    TRACE("release");
    MtxState &m = mtx[p];
    m.held = false; m.owner = nullptr;
    if (self) { release_vc(p); schedule(true, label); }
}
static void lock_init(const void *p) { const char *label = ""; TRACE("init"); mtx[p] = MtxState(); sync_vc.erase(p); if (self) release_vc(p); }
static void lock_destroy(const void *p) {
    for (int i = 0; i < nW; i++) if (W[i]->st == WAITLOCK && W[i]->wait == p)
        die("violation", "a lock is destroyed while a thread is waiting for it");
    mtx.erase(p); sync_vc.erase(p);
}

// ----------------------------------------------------------------- teams
static Team *my_team() { return self ? (self->team ? self->team : &root_team) : (u_team ? u_team : &root_team); }
static int my_num() { return self ? self->num : u_num; }
static void team_run(std::function<void()> fn, unsigned nt, std::function<void(Team *)> init) {
    Team *up = my_team();
    Team *t = new Team;
    t->parent = up; t->parent_num = my_num(); t->level = up->level + 1;
    int n = nt ? (int)nt : team_size;
    if (up->active >= max_active) n = 1;
    t->size = n; t->active = up->active + (n > 1 ? 1 : 0);
    if (init) init(t);
    if (!self) {
        Team *ot = u_team; int on = u_num, ow = u_ws, os = u_single;
        for (int k = 0; k < n; k++) {
            u_team = t; u_num = seq_order ? n - 1 - k : k; u_ws = 0; u_single = 0;
            fn();
        }
        u_team = ot; u_num = on; u_ws = ow; u_single = os;
        delete t;
        return;
    }
    int pending = n - 1;
    Team *ot = self->team; int on = self->num, ow = self->ws_index, os = self->single_index;
    VC from = self->vc; tick(self);
    for (int k = 1; k < n; k++) {
        VC *done = &t->bar_pub;
        start([fn, done] { fn(); join_tasks(); done->join(self->vc); tick(self); }, &pending, t, k, from);
    }
    self->team = t; self->num = 0; self->ws_index = 0; self->single_index = 0;
    schedule(true, "parallel");
    fn(); join_tasks();
    self->pending = &pending;
    if (pending) block(WAITJOIN, "join");
    self->pending = nullptr;
    self->vc.join(t->bar_pub);
    self->team = ot; self->num = on; self->ws_index = ow; self->single_index = os;
    delete t;
}
static void barrier() {
    Team *t = my_team();
    join_tasks();
    if (!self || t->size <= 1) return;
    t->bar_vc.join(self->vc); tick(self);
    if (++t->bar_count == t->size) {
        t->bar_count = 0; t->bar_gen++;
        t->bar_pub = t->bar_vc;
        self->vc.join(t->bar_pub);
        schedule(true, "barrier");
    } else {
        self->bar_gen = t->bar_gen;
        block(WAITBAR, "barrier");
        self->vc.join(t->bar_pub);
    }
}
static WS &ws_enter(long start, long end, long incr, long chunk) {
    Team *t = my_team();
    int &ix = self ? self->ws_index : u_ws;
    while ((int)t->ws.size() <= ix) t->ws.emplace_back();
    WS &w = t->ws[ix]; ix++;
    if (!w.init) { w.init = true; w.next = start; w.end = end; w.incr = incr; w.chunk = chunk < 1 ? 1 : chunk; }
    return w;
}
static WS *ws_cur() {
    Team *t = my_team();
    int ix = (self ? self->ws_index : u_ws) - 1;
    if (ix < 0) { ws_enter(0, 0, 1, 1); ix = 0; }
    return &t->ws[ix];
}
static bool ws_next(WS &w, long *is, long *ie) {
    if (self) schedule(true, "chunk");
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *is = w.next;
    long e = w.next + w.incr * w.chunk;
    if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
    *ie = e; w.next = e;
    return true;
}

// ------------------------------------------------------------- race detection
struct Rec { uint8_t tid, write, mask; uint32_t clk; void *pc; };
struct Cell { std::vector<Rec> r; };
static std::unordered_map<uintptr_t, Cell> *shadow;
static thread_local int in_hook = 0;
static bool ignoring = false;
void race_ignore(bool on) { ignoring = on; }
static std::string where(void *pc) {
    Dl_info i; char *a = (char *)pc - 1;
    if (dladdr(a, &i) && i.dli_fbase) a = (char *)(a - (char *)i.dli_fbase);
    char b[64]; snprintf(b, sizeof b, "%p", (void *)a); return b;
}
static void race_reset() { if (shadow) shadow->clear(); }
static inline void access_granule(uintptr_t g, uint8_t mask, bool write, void *pc, const char *what) {
    Cell &c = (*shadow)[g];
    Rec *mine = nullptr;
    for (auto &r : c.r) {
        if (!(r.mask & mask)) continue;
        if (r.tid == self->id) { if (r.write == write && r.mask == mask) mine = &r; continue; }
        if (!(write || r.write)) continue;
        if (r.clk > self->vc.c[r.tid]) {
            in_hook++;
            std::ostringstream o;
            o << "data race: " << (write ? "write" : "read") << " at pc " << where(pc)
              << " conflicts with " << (r.write ? "write" : "read") << " at pc " << where(r.pc)
              << " by another thread; no lock or join orders them";
            if (what) o << " (" << what << ")";
            die("violation", o.str());
        }
    }
    uint32_t clk = self->vc.c[self->id];
    if (mine) { mine->clk = clk; mine->pc = pc; return; }
    // own read covered by own newer write of the same bytes: keep both, they are few
    if (c.r.size() > 12) {   // drop records ordered before us
        std::vector<Rec> k;
        for (auto &r : c.r) if (r.tid == self->id ? false : r.clk > self->vc.c[r.tid]) k.push_back(r);
        c.r.swap(k);
    }
    c.r.push_back({(uint8_t)self->id, (uint8_t)write, mask, clk, pc});
}
static void access(const void *addr, size_t n, bool write, void *pc, const char *what = nullptr) {
    if (!self || !race_detect || in_hook || ignoring || !in_exec) return;
    in_hook++;
    uintptr_t a = (uintptr_t)addr, e = a + n;
    while (a < e) {
        uintptr_t g = a >> 3; unsigned lo = a & 7; unsigned len = 8 - lo; if (a + len > e) len = e - a;
        access_granule(g, (uint8_t)(((1u << len) - 1) << lo), write, pc, what);
        a += len;
    }
    in_hook--;
}
void touch(const void *p, size_t n, bool write, const char *what) { access(p, n, write, __builtin_return_address(0), what); }
static void forget(void *p, size_t n) {
    if (!p || !in_exec) return;
    if (self) self->spin_at = nullptr;
    // a lock inside freed memory must have no waiter
    for (int i = 0; i < nW; i++) if (W[i]->st == WAITLOCK && (char *)W[i]->wait >= (char *)p && (char *)W[i]->wait < (char *)p + n) {
        in_hook++;
        die("violation", "memory holding a lock is freed while a thread is waiting for that lock");
    }
    if (!race_detect || in_hook || !shadow || shadow->empty()) return;
    in_hook++;
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) shadow->erase(g);
    in_hook--;
}

// ------------------------------------------------------------------- exploring
static long exec_cpu_limit = 60;
static void on_signal(int sig) {
    if (sig == SIGVTALRM) die("violation", "an execution used its whole CPU budget without finishing: it does not terminate");
    char b[128]; snprintf(b, sizeof b, "the code under test was stopped by signal %d (%s)", sig, strsignal(sig));
    die("violation", b);
}
static void one(void (*body)()) {
    trace.clear(); notes.clear(); preemptions = 0; steps_exec = 0;
    mtx.clear(); sync_vc.clear(); cond_waiters.clear();
    // locks of long-lived objects are free at the start of an execution
    race_reset();
    for (int i = 0; i < nW; i++) { W[i]->vc = W[i]->tasks_done = VC(); W[i]->tasks = 0; }
    struct itimerval tv = {{0, 0}, {exec_cpu_limit, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    in_exec = true;
    body();
    in_exec = false;
    executions++;
}
// Harnesses named fresh_* run every execution in a forked child, so that one-time
// initialisation of the code under test is explored too.
static bool fresh = false;
static void execute(void (*body)()) {
    if (!fresh) { one(body); return; }
    int fd[2]; if (pipe(fd)) die("error", "pipe");
    pid_t pid = fork();
    if (pid < 0) die("error", "fork");
    if (!pid) {
        close(fd[0]);
        long s0 = steps, n0 = tree_nodes;
        outcomes.clear(); counters.clear();
        one(body);
        std::ostringstream o;
        o << steps - s0 << " " << tree_nodes - n0 << " " << max_preempt_seen << " " << trace.size() << "\n";
        for (auto &p : trace) o << p.n << " " << p.chosen << " " << p.preempt_cost << "\n";
        o << counters.size() << "\n";
        for (auto &c : counters) o << c.second << " " << c.first << "\n";
        for (auto &x : outcomes) o << x << "\n";
        std::string str = o.str(); size_t off = 0;
        while (off < str.size()) { ssize_t n = write(fd[1], str.data() + off, str.size() - off); if (n <= 0) break; off += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string str; char b[65536]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) str.append(b, n);
    close(fd[0]);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 70);   // the child has written the verdict
    std::istringstream is(str);
    long ds, dn; size_t k; is >> ds >> dn >> max_preempt_seen >> k;
    steps += ds; tree_nodes += dn; executions++;
    trace.clear();
    for (size_t i = 0; i < k; i++) { Point p; int c; is >> p.n >> p.chosen >> c; p.preempt_cost = c; p.label = ""; trace.push_back(p); }
    size_t nc; is >> nc; 
    for (size_t i = 0; i < nc; i++) { long v; std::string key; is >> v; is.get(); std::getline(is, key); counters[key] += v; }
    is >> std::ws;
    std::string line; while (std::getline(is, line)) if (!line.empty()) outcomes.insert(line);
}
static bool next_prefix() {
    // deepest decision with an untried alternative that the bound allows
    std::vector<int> used(trace.size() + 1, 0);
    for (size_t i = 0; i < trace.size(); i++)
        used[i + 1] = used[i] + (trace[i].preempt_cost && trace[i].chosen > 0 ? 1 : 0);
    for (size_t k = trace.size(); k-- > 0;) {
        Point &p = trace[k];
        if (p.chosen + 1 < p.n) {
            int cost = used[k] + (p.preempt_cost ? 1 : 0);
            if (cost > bound) continue;
            prefix.clear();
            for (size_t i = 0; i < k; i++) prefix.push_back(trace[i].chosen);
            prefix.push_back(p.chosen + 1);
            tree_nodes++;
            return true;
        }
    }
    return false;
}
}  // namespace omc
using namespace omc;

extern "C" int omc_main(int argc, char **argv) {
    std::string which, replay; long cap = -1; double tmax = -1; bool list = false; int b = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--harness") which = val();
        else if (a == "--list") list = true;
        else if (a == "--bound") b = atoi(val().c_str());
        else if (a == "--thorough") thorough = true;
        else if (a == "--replay") { replay = val(); replaying = true; }
        else if (a == "--out") out_path = val();
        else if (a == "--cap") cap = atol(val().c_str());
        else if (a == "--cpu") exec_cpu_limit = atol(val().c_str());
        else if (a == "--known") { std::istringstream is(val()); std::string k; while (std::getline(is, k, ',')) known.insert(k); }
        else if (a == "--time") tmax = atof(val().c_str());
        else if (a == "--shard") { sscanf(val().c_str(), "%ld/%ld", &shard_i, &shard_n); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (list) { for (auto &h : registry()) printf("%s\t%d\t%d\t%s\n", h.name, h.quick_bound, h.thorough_bound, h.doc); return 0; }
    Harness *h = nullptr;
    for (auto &x : registry()) if (which == x.name) h = &x;
    if (!h) { fprintf(stderr, "no harness %s\n", which.c_str()); return 2; }
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("OMC_REEXEC")) {
        setenv("OMC_REEXEC", "1", 1);                 // same addresses in every run
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    cur_name = h->name; t0 = now();
    sem_init(&main_sem, 0, 0);
    shadow = new std::unordered_map<uintptr_t, Cell>;
    signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal);
    signal(SIGINT, on_signal); signal(SIGBUS, on_signal); signal(SIGILL, on_signal);
    signal(SIGVTALRM, on_signal);
    int top = b >= 0 ? b : thorough ? h->thorough_bound : h->quick_bound;
    bound = top;
    // one execution outside the exploration, so that one-time initialisation never
    // makes the first explored execution different from the others
    fresh = !strncmp(h->name, "fresh_", 6);
    if (!fresh) { bound = 0; one(h->body); bound = top; } outcomes.clear(); counters.clear(); samples.clear(); executions = 0; tree_nodes = 0; steps = 0;
    if (replaying) {
        std::istringstream is(replay); std::string tok;
        while (std::getline(is, tok, ',')) if (!tok.empty()) prefix.push_back(atoi(tok.c_str()));
        execute(h->body);
        die("ok", "replay finished without a violation");
    }
    bool capped = false;
    // small bounds first: the first counterexample has the fewest preemptions
    for (bound = 0; bound <= top; bound++) {
        if (bound < top && top > 1 && bound > 0 && bound < top - 1) continue;
        prefix.clear(); executions = 0; tree_nodes = 0; steps = 0;
        for (;;) {
            execute(h->body);
            if (trace.size() < prefix.size()) counters["diverged"]++;
            if (cap >= 0 && executions >= cap) { capped = true; break; }
            if (tmax >= 0 && now() - t0 > tmax) { capped = true; break; }
            if (!next_prefix()) break;
        }
        if (capped) break;
    }
    if (bound > top) bound = top;
    trace.clear();
    if (capped) die("capped", "execution or time cap reached");
    die("ok", "");
}

// ====================================================== libgomp replacement
extern "C" {
typedef struct { int x; } fake_lock;
void omp_init_lock(void *l) { lock_init(l); }
void omp_init_lock_with_hint(void *l, int) { lock_init(l); }
void omp_destroy_lock(void *l) { lock_destroy(l); }
void omp_set_lock(void *l) { lock_acquire(l, "set_lock"); }
void omp_unset_lock(void *l) { lock_release(l, "unset_lock"); }
int omp_test_lock(void *l) { return lock_try(l, "test_lock"); }
void omp_init_nest_lock(void *l) { lock_init(l); }
void omp_destroy_nest_lock(void *l) { lock_destroy(l); }
void omp_set_nest_lock(void *l) {
    MtxState &m = mtx[l];
    if (m.held && m.owner == self) { m.depth++; return; }
    lock_acquire(l, "set_nest_lock"); mtx[l].depth = 1;
}
void omp_unset_nest_lock(void *l) { MtxState &m = mtx[l]; if (--m.depth <= 0) lock_release(l, "unset_nest_lock"); }
int omp_test_nest_lock(void *l) {
    MtxState &m = mtx[l];
    if (m.held && m.owner == self) return ++m.depth;
    if (!lock_try(l, "test_nest_lock")) return 0;
    return mtx[l].depth = 1;
}
static char critical_lock, atomic_lock;
void GOMP_critical_start(void) { lock_acquire(&critical_lock, "critical"); }
void GOMP_critical_end(void) { lock_release(&critical_lock, "end critical"); }
void GOMP_critical_name_start(void **p) { lock_acquire(p, "critical(name)"); }
void GOMP_critical_name_end(void **p) { lock_release(p, "end critical(name)"); }
void GOMP_atomic_start(void) { lock_acquire(&atomic_lock, "atomic"); }
void GOMP_atomic_end(void) { lock_release(&atomic_lock, "end atomic"); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_single_start(void) {
    Team *t = my_team(); int &ix = self ? self->single_index : u_single; ix++;
    if (t->single_seen < ix) { t->single_seen = ix; return true; }
    return false;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { team_run([=] { fn(data); }, nt, nullptr); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned cnt, unsigned) {
    team_run([=] { if (self) self->ws_index = 1; else u_ws = 1; fn(data); }, nt, [=](Team *t) {
        t->ws.emplace_back(); WS &w = t->ws[0]; w.init = true; w.next = 1; w.end = (long)cnt + 1; });
}
unsigned GOMP_sections_start(unsigned cnt) { long s, e; WS &w = ws_enter(1, (long)cnt + 1, 1, 1); return ws_next(w, &s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_next(void) { long s, e; return ws_next(*ws_cur(), &s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
#define LOOPS(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *is, long *ie) { return ws_next(ws_enter(s, e, i, c), is, ie); } \
    bool GOMP_loop_##K##_next(long *is, long *ie) { return ws_next(*ws_cur(), is, ie); } \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned) { \
        team_run([=] { if (self) self->ws_index = 1; else u_ws = 1; fn(data); }, nt, [=](Team *t) { \
            t->ws.emplace_back(); WS &w = t->ws[0]; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; }); } \
    bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { (void)up; return ws_next(ws_enter(s, e, i, c), (long *)is, (long *)ie); } \
    bool GOMP_loop_ull_##K##_next(unsigned long long *is, unsigned long long *ie) { return ws_next(*ws_cur(), (long *)is, (long *)ie); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RLOOPS(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long *is, long *ie) { return ws_next(ws_enter(s, e, i, 1), is, ie); } \
    bool GOMP_loop_##K##_next(long *is, long *ie) { return ws_next(*ws_cur(), is, ie); } \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned) { \
        team_run([=] { if (self) self->ws_index = 1; else u_ws = 1; fn(data); }, nt, [=](Team *t) { \
            t->ws.emplace_back(); WS &w = t->ws[0]; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = 1; }); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
// one thread takes all the iterations of an ordered loop
#define OLOOPS(K) \
    bool GOMP_loop_ordered_##K##_start(long s, long e, long i, long, long *is, long *ie) { return ws_next(ws_enter(s, e, i, (e > s ? e - s : s - e) + 1), is, ie); } \
    bool GOMP_loop_ordered_##K##_next(long *is, long *ie) { return ws_next(*ws_cur(), is, ie); }
OLOOPS(static) OLOOPS(dynamic) OLOOPS(guided)
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void *GOMP_single_copy_start(void) {
    if (GOMP_single_start()) return nullptr;
    barrier(); return my_team()->copied;
}
void GOMP_single_copy_end(void *p) { my_team()->copied = p; barrier(); }
// ---- tasks: each runs concurrently with everything until somebody waits for it
static void task(void (*fn)(void *), char *arg, bool deferred) {
    int busy = 0; for (int i = 0; i < nW; i++) if (W[i]->st != IDLE || W[i]->job) busy++;
    if (!self || !deferred || busy >= MAXW) { fn(arg); free(arg); return; }
    Thread *creator = self; creator->tasks++;
    start([=] { fn(arg); free(arg); join_tasks(); creator->tasks_done.join(self->vc); tick(self); }, &creator->tasks, self->team, self->num, self->vc);
    tick(self);
    schedule(true, "task");
}
static char *task_arg(void *data, void (*copy)(void *, void *), long size, long align) {
    if (align < 16) align = 16;
    char *arg = (char *)aligned_alloc(align, (size + align) / align * align);
    if (copy) copy(arg, data); else memcpy(arg, data, size);
    return arg;
}
void GOMP_taskwait(void) { join_tasks(); }
void GOMP_taskyield(void) { if (self) schedule(true, "task yield"); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) { join_tasks(); }
void GOMP_task(void (*fn)(void *), void *data, void (*copy)(void *, void *), long size, long align, bool deferred, unsigned flags, void **, int) {
    if (flags & 8) { join_tasks(); deferred = false; }      // dependences
    task(fn, task_arg(data, copy, size, align), deferred);
}
#define TASKLOOP(NAME, T, UP) \
void NAME(void (*fn)(void *), void *data, void (*copy)(void *, void *), long size, long align, unsigned flags, unsigned long, int, T s, T e, T step) { \
    unsigned long n = (UP) ? (s < e ? (unsigned long)((e - s + step - 1) / step) : 0) : (s > e ? (unsigned long)((s - e - step - 1) / -step) : 0); \
    unsigned long parts = std::min<unsigned long>(n, team_size > 1 ? team_size : 1); \
    for (unsigned long k = 0, at = 0; k < parts; k++) { \
        unsigned long m = n / parts + (k < n % parts); char *arg = task_arg(data, copy, size, align); \
        ((T *)arg)[0] = s + (T)at * step; ((T *)arg)[1] = s + (T)(at + m) * step; at += m; \
        task(fn, arg, true); \
    } \
    if (!(flags & 2048)) join_tasks(); \
}
TASKLOOP(GOMP_taskloop, long, step > 0)
TASKLOOP(GOMP_taskloop_ull, unsigned long long, flags & 256)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}

int omp_get_num_threads(void) { return my_team()->size; }
int omp_get_max_threads(void) { return team_size; }
int omp_get_thread_num(void) { return my_num(); }
int omp_get_num_procs(void) { return team_size; }
int omp_in_parallel(void) { return my_team()->active > 0; }
int omp_get_level(void) { return my_team()->level; }
int omp_get_active_level(void) { return my_team()->active; }
int omp_get_ancestor_thread_num(int level) {
    Team *t = my_team(); int num = my_num();
    if (level < 0 || level > t->level) return -1;
    while (t->level > level) { num = t->parent_num; t = t->parent; }
    return num;
}
int omp_get_team_size(int level) {
    Team *t = my_team();
    if (level < 0 || level > t->level) return -1;
    while (t->level > level) t = t->parent;
    return t->size;
}
void omp_set_num_threads(int n) { if (n > 0) team_size = n; }
void omp_set_nested(int n) { max_active = n ? 8 : 1; }
int omp_get_nested(void) { return max_active > 1; }
void omp_set_max_active_levels(int n) { max_active = n; }
int omp_get_max_active_levels(void) { return max_active; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return 0; }
double omp_get_wtick(void) { return 1; }
int omp_get_thread_limit(void) { return 64; }

// ---- pthread mutexes used by managed threads (std::mutex, should the code use it)
typedef int (*mfn)(pthread_mutex_t *);
static mfn real_fn(const char *n) { return (mfn)dlsym(RTLD_NEXT, n); }
#ifndef OMC_NO_PTHREAD
static bool again(pthread_mutex_t *m) {    // a recursive mutex its owner takes again
    MtxState &s = mtx[m];
    if ((m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE || !s.held || s.owner != self) return false;
    s.depth++; return true;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    static mfn real = real_fn("pthread_mutex_lock");
    if (!self || !in_exec || in_hook || dying) return real(m);
    if (again(m)) return 0;
    lock_acquire(m, "mutex lock"); mtx[m].depth = 0; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    static mfn real = real_fn("pthread_mutex_trylock");
    if (!self || !in_exec || in_hook || dying) return real(m);
    if (again(m)) return 0;
    if (!lock_try(m, "mutex trylock")) return EBUSY;
    mtx[m].depth = 0; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static mfn real = real_fn("pthread_mutex_unlock");
    if (!self || !in_exec || in_hook || dying) return real(m);
    if (mtx[m].depth > 0) { mtx[m].depth--; return 0; }
    lock_release(m, "mutex unlock"); return 0;
}
// readers exclude one another too: fewer schedules, no false ones
#define RW(name, what, ret) \
int name(pthread_rwlock_t *m) { \
    static int (*real)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, #name); \
    if (!self || !in_exec || in_hook || dying) return real(m); \
    what; return ret; }
RW(pthread_rwlock_rdlock, lock_acquire(m, "rdlock"), 0)
RW(pthread_rwlock_wrlock, lock_acquire(m, "wrlock"), 0)
RW(pthread_rwlock_tryrdlock, bool ok = lock_try(m, "tryrdlock"), ok ? 0 : EBUSY)
RW(pthread_rwlock_trywrlock, bool ok = lock_try(m, "trywrlock"), ok ? 0 : EBUSY)
RW(pthread_rwlock_unlock, lock_release(m, "rwunlock"), 0)
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    static int (*real)(pthread_once_t *, void (*)(void)) = (int (*)(pthread_once_t *, void (*)(void)))dlsym(RTLD_NEXT, "pthread_once");
    if (!self || !in_exec || in_hook || dying) return real(o, f);
    if (*o == 2) { acquire_vc(o); return 0; }
    lock_acquire(o, "once");
    if (*o != 2) {                          // glibc: 2 means done
        try { f(); } catch (...) { lock_release(o, "once failed"); throw; }
        *o = 2;
    }
    lock_release(o, "once done");
    return 0;
}
int sched_yield(void) {
    if (self && in_exec && !in_hook && !dying) give_way("yield");
    return 0;
}
static int asleep(const struct timespec *a, int (*real)(const struct timespec *, struct timespec *), struct timespec *b) {
    if (self && in_exec && !in_hook && !dying) { give_way("sleep"); return 0; }
    return real(a, b);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    static int (*real)(const struct timespec *, struct timespec *) = (int (*)(const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "nanosleep");
    return asleep(a, real, b);
}
int usleep(useconds_t us) {
    struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}

// condition variables: waiting threads are woken by signal/broadcast only (no spurious wake-ups)
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    cond_waiters[c].push_back(self);
    lock_release(m, "cond wait");
    // a signal may already have arrived during lock_release's scheduling point
    auto waiting = [&] { for (auto t : cond_waiters[c]) if (t == self) return true; return false; };
    if (waiting()) { self->st = WAITCOND; schedule(false, "cond wait"); self->st = READY; }
    acquire_vc(c);
    lock_acquire(m, "cond relock");
    return 0;
}
static void cond_wake(pthread_cond_t *c, bool all) {
    release_vc(c);
    auto &w = cond_waiters[c];
    while (!w.empty()) {
        Thread *t = w.front(); w.erase(w.begin());
        if (t->st == WAITCOND) t->st = READY;
        if (!all) break;
    }
    schedule(true, "signal");
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (!self || !in_exec || in_hook || dying) return real(c, m);
    return cond_wait(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) {
    static int (*real)(pthread_cond_t *) = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_signal");
    if (!self || !in_exec || in_hook || dying) return real(c);
    cond_wake(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static int (*real)(pthread_cond_t *) = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    if (!self || !in_exec || in_hook || dying) return real(c);
    cond_wake(c, true); return 0;
}
#endif

// one-time initialisation: block on the scheduler, not on the real futex
int __cxa_guard_acquire(long long *g) {
    volatile char *b = (volatile char *)g;
    if (!self || !in_exec) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    bool hook = in_hook; in_hook++;
    if (b[0]) { if (race_detect) acquire_vc(g); in_hook--; return 0; }
    while (b[1]) { in_hook--; self->wait = (void *)g; mtx[g].held = true; block(WAITLOCK, "static init"); self->wait = nullptr; in_hook++;
                   if (b[0]) { acquire_vc(g); in_hook--; return 0; } }
    b[1] = 1; mtx[g].held = true;
    in_hook--; (void)hook;
    return 1;
}
void __cxa_guard_release(long long *g) {
    volatile char *b = (volatile char *)g;
    b[0] = 1; b[1] = 0;
    if (self && in_exec) { mtx[g].held = false; release_vc(g); }
}
void __cxa_guard_abort(long long *g) {
    volatile char *b = (volatile char *)g;
    b[1] = 0;
    if (self && in_exec) { mtx[g].held = false; release_vc(g); }
}
int raise(int sig) {
    if (in_exec) { char b[96]; snprintf(b, sizeof b, "the code under test raised signal %d on itself (internal consistency check)", sig); die("violation", b); }
    return kill(getpid(), sig);
}
}

// ------------------------------------------------- allocation hooks
#ifndef OMC_ASAN
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { if (p) { forget(p, malloc_usable_size(p)); free(p); } }
void operator delete[](void *p) noexcept { if (p) { forget(p, malloc_usable_size(p)); free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { forget(p, malloc_usable_size(p)); free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { forget(p, malloc_usable_size(p)); free(p); } }
#endif

// ------------------------------------------------- compiler instrumentation
#ifdef OMC_RACE
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *a) { access(a, 1, false, PC); }
void __tsan_read2(void *a) { access(a, 2, false, PC); }
void __tsan_read4(void *a) { access(a, 4, false, PC); }
void __tsan_read8(void *a) { access(a, 8, false, PC); }
void __tsan_read16(void *a) { access(a, 16, false, PC); }
void __tsan_write1(void *a) { access(a, 1, true, PC); }
void __tsan_write2(void *a) { access(a, 2, true, PC); }
void __tsan_write4(void *a) { access(a, 4, true, PC); }
void __tsan_write8(void *a) { access(a, 8, true, PC); }
void __tsan_write16(void *a) { access(a, 16, true, PC); }
void __tsan_unaligned_read2(void *a) { access(a, 2, false, PC); }
void __tsan_unaligned_read4(void *a) { access(a, 4, false, PC); }
void __tsan_unaligned_read8(void *a) { access(a, 8, false, PC); }
void __tsan_unaligned_read16(void *a) { access(a, 16, false, PC); }
void __tsan_unaligned_write2(void *a) { access(a, 2, true, PC); }
void __tsan_unaligned_write4(void *a) { access(a, 4, true, PC); }
void __tsan_unaligned_write8(void *a) { access(a, 8, true, PC); }
void __tsan_unaligned_write16(void *a) { access(a, 16, true, PC); }
void __tsan_volatile_read1(void *a) { access(a, 1, false, PC); }
void __tsan_volatile_read2(void *a) { access(a, 2, false, PC); }
void __tsan_volatile_read4(void *a) { access(a, 4, false, PC); }
void __tsan_volatile_read8(void *a) { access(a, 8, false, PC); }
void __tsan_volatile_write1(void *a) { access(a, 1, true, PC); }
void __tsan_volatile_write2(void *a) { access(a, 2, true, PC); }
void __tsan_volatile_write4(void *a) { access(a, 4, true, PC); }
void __tsan_volatile_write8(void *a) { access(a, 8, true, PC); }
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// What an atomic operation orders, and whether others may come in between.  shared_ptr counts with acq_rel: taking
// another reference orders nothing, and neither that nor dropping one is worth a switch.  Everything else is: the default
// of std::atomic (5) and of "omp atomic" (0).
static inline void atomic_op(const volatile void *p, int mo, bool load, bool store, bool ref = false, bool waits = true) {
    if (!self || !in_exec || in_hook || dying) return;
    in_hook++;
    bool spun = false;
    if (load && waits) spun = spinning((const void *)p, 40); else self->spin_at = nullptr;
    if (!spun && atomic_points && (mo == 5 || mo == 0)) schedule(true, "atomic");
    if (race_detect && !ref) {
        bool acq = load && mo != 0 && mo != 3, rel = store && mo >= 3;
        if (acq) acquire_vc((const void *)p);
        if (rel) release_vc((const void *)p);
    }
    in_hook--;
}
#define RMW(N, T, op, R) T __tsan_atomic##N##_fetch_##op(volatile T *a, T v, int mo) { atomic_op(a, mo, true, true, R, false); return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); }
#define CAS(N, T, kind) int __tsan_atomic##N##_compare_exchange_##kind(volatile T *a, T *e, T v, int mo, int) { atomic_op(a, mo, true, true); \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { atomic_op(a, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { atomic_op(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { atomic_op(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    RMW(N, T, add, N == 32 && v == 1 && mo == 4) RMW(N, T, sub, false) RMW(N, T, and, false) RMW(N, T, or, false) RMW(N, T, xor, false) \
    CAS(N, T, strong) CAS(N, T, weak) \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int mo, int) { atomic_op(a, mo, true, true); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access(d, n, true, PC); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
}
#endif
