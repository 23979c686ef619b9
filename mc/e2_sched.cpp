// P21: every interleaving, up to a bound on preemptions, of an application
// thread and a command thread. Both threads are coroutines of one process over
// an instance of the framework built with memory access instrumentation
// (gcc's -fsanitize=thread calls, resolved here instead of in a race detector),
// and mutexes are modelled by the scheduler. A schedule is a choice, at each
// scheduling point (lock operations, accesses to memory the other thread also
// uses, hardware accesses), of the thread that goes on; the process forks at
// each point where a preemption is still allowed. Oracle: the outcome, hardware
// accesses and final state are those of some sequential order of the operations.
#include "drivers.h"
#include "worldset.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <ucontext.h>
#include <unordered_set>

namespace
{
enum Mode
{
    OFF,
    RECORD,  // single thread, remembering the memory it uses
    MERGE,   // operations in a given order, no preemption
    EXPLORE, // forks at scheduling points
};
const size_t kStack = 1 << 20;

struct Mtx
{
    int owner = -1, count = 0;
};
struct OpRes
{
    bool ok = false, done = false;
    string val;
    size_t start = 0, end = 0; // ticks: real-time order of the operations
    size_t hwEnd = 0;          // position in the hardware log when it returned
};
struct Co
{
    ucontext_t ctx;
    char *stack = nullptr;
    vector<Op> prog;
    vector<OpRes> res;
    size_t next = 0;
    bool done = false;
    void *blocked = nullptr;
    char eh[16] = {0};
};
struct SharedArea
{
    uint64_t schedules, equivalent, points, forks;
    uint64_t nfp[4];
    bool failed;
    char trace[1 << 14];
    char why[1 << 14];
    char out[2][1 << 17];
    uint64_t pos[64];
    uint64_t fp[4][1 << 18];
};
} // namespace

static Mode mode = OFF;
static int cur = -1; // running coroutine
static Co co[2];
static ucontext_t mainCtx;
static std::map<void *, Mtx> *locks;
static Real *real_;
static size_t tick;
static SharedArea *sh;
static int preemptLeft;
static bool fresh; // since a preemption, the running thread has touched nothing shared
static vector<int> merge_;
static size_t mergeAt;
static bool inRt; // inside the scheduler itself
static std::unordered_map<uintptr_t, int> *foot;
static std::map<uintptr_t, uintptr_t> *live; // heap blocks allocated by the running operation
static vector<uint8_t> conflict; // hash filter
static std::unordered_set<uintptr_t> *conflictSet;
static string *schedule_;
static vector<string> *seqText;
static vector<vector<size_t>> *seqPos;

static string where(void *pc)
{
    Dl_info i;
    if (!pc || !dladdr(pc, &i) || !i.dli_sname) return "?";
    int st;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    string r = d ? d : i.dli_sname;
    free(d);
    if (r.size() > 90) r = r.substr(0, 90) + "...";
    return r;
}
static const char *tname(int t) { return t ? "command thread" : "application thread"; }
static void put(char *b, size_t n, const string &s)
{
    size_t k = std::min(n - 1, s.size());
    memcpy(b, s.data(), k);
    b[k] = 0;
}
static void violation(const string &why)
{
    if (!sh->failed) {
        sh->failed = true;
        put(sh->why, sizeof sh->why, why);
        put(sh->trace, sizeof sh->trace, *schedule_);
    }
    _exit(9);
}
static void switchTo(int t)
{
    int from = cur;
    auto *g = reinterpret_cast<char *>(abi::__cxa_get_globals());
    char (&save)[16] = co[from].eh;
    memcpy(save, g, 16);
    memcpy(g, co[t].eh, 16);
    cur = t;
    inRt = false;
    swapcontext(&co[from].ctx, &co[t].ctx);
    inRt = true;
}
static bool runnable(int t)
{
    if (co[t].done) return false;
    if (!co[t].blocked) return true;
    auto it = locks->find(co[t].blocked);
    return it == locks->end() || it->second.owner < 0;
}
// a place where the other thread may take over
static void point(const char *kind, void *pc)
{
    if (mode != EXPLORE || cur < 0 || inRt) return;
    inRt = true;
    sh->points++;
    int other = 1 - cur;
    if (preemptLeft > 0 && runnable(other)) {
        sh->forks++;
        pid_t p = fork();
        if (p == 0) {
            alarm(20);
            preemptLeft--;
            *schedule_ += string(tname(cur)) + " interrupted " + kind + " in " + where(pc) + "; " + tname(other) +
                          " goes on\n";
            fresh = true;
            switchTo(other);
            inRt = false;
            return;
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st) && !sh->failed) {
            *schedule_ += string(tname(cur)) + " interrupted " + kind + " in " + where(pc) + "; " + tname(other) +
                          " goes on\n";
            violation(WTERMSIG(st) == SIGALRM ? string("no progress")
                                              : string("crash: ") + strsignal(WTERMSIG(st)));
        }
        if (sh->failed) _exit(9);
    }
    inRt = false;
}
static void access(uintptr_t a, size_t n, bool w, void *pc)
{
    if (mode == OFF || cur < 0 || inRt) return;
    auto s = uintptr_t(co[cur].stack);
    if (a >= s && a < s + kStack) return;
    if (mode == RECORD) {
        inRt = true;
        auto it = live->upper_bound(a);
        bool own = it != live->begin() && a < std::prev(it)->second;
        if (!own)
            for (uintptr_t g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; g++) (*foot)[g] |= w ? 2 : 1;
        inRt = false;
        return;
    }
    if (mode != EXPLORE) return;
    for (uintptr_t g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; g++)
        if (conflictSet->count(g)) {
            point(w ? "before a write" : "before a read", pc);
            fresh = false;
            return;
        }
}

// ------------------------------------------------------------ instrumentation
#define PC __builtin_return_address(0)
#define RW(n)                                                                                          \
    void __tsan_read##n(void *a) { access(uintptr_t(a), n, false, PC); }                               \
    void __tsan_write##n(void *a) { access(uintptr_t(a), n, true, PC); }                               \
    void __tsan_volatile_read##n(void *a) { access(uintptr_t(a), n, false, PC); }                      \
    void __tsan_volatile_write##n(void *a) { access(uintptr_t(a), n, true, PC); }                      \
    void __tsan_unaligned_read##n(void *a) { access(uintptr_t(a), n, false, PC); }                     \
    void __tsan_unaligned_write##n(void *a) { access(uintptr_t(a), n, true, PC); }
#define AT(n, T)                                                                                       \
    T __tsan_atomic##n##_load(const T *p, int)                                                         \
    {                                                                                                  \
        access(uintptr_t(p), n / 8, false, PC);                                                        \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                   \
    }                                                                                                  \
    void __tsan_atomic##n##_store(T *p, T v, int)                                                      \
    {                                                                                                  \
        access(uintptr_t(p), n / 8, true, PC);                                                         \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                  \
    ATF(n, T, exchange_n, exchange)                                                                    \
    ATF(n, T, fetch_add, fetch_add)                                                                    \
    ATF(n, T, fetch_sub, fetch_sub)                                                                    \
    ATF(n, T, fetch_and, fetch_and)                                                                    \
    ATF(n, T, fetch_or, fetch_or)                                                                      \
    ATF(n, T, fetch_xor, fetch_xor)                                                                    \
    ATF(n, T, fetch_nand, fetch_nand)                                                                  \
    int __tsan_atomic##n##_compare_exchange_strong(T *p, T *e, T v, int, int)                          \
    {                                                                                                  \
        access(uintptr_t(p), n / 8, true, PC);                                                         \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
    }                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(T *p, T *e, T v, int, int)                            \
    {                                                                                                  \
        access(uintptr_t(p), n / 8, true, PC);                                                         \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
    }
#define ATF(n, T, builtin, name)                                                                       \
    T __tsan_atomic##n##_##name(T *p, T v, int)                                                        \
    {                                                                                                  \
        access(uintptr_t(p), n / 8, true, PC);                                                         \
        return __atomic_##builtin(p, v, __ATOMIC_SEQ_CST);                                             \
    }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **a, void *) { access(uintptr_t(a), 8, true, PC); }
void __tsan_vptr_read(void **a) { access(uintptr_t(a), 8, false, PC); }
void __tsan_read_range(void *a, unsigned long n) { access(uintptr_t(a), n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(uintptr_t(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (n) access(uintptr_t(s), n, false, PC), access(uintptr_t(d), n, true, PC);
    return memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (n) access(uintptr_t(s), n, false, PC), access(uintptr_t(d), n, true, PC);
    return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (n) access(uintptr_t(d), n, true, PC);
    return memset(d, c, n);
}

// ------------------------------------------------------------ mutexes
#define REAL(fn) reinterpret_cast<decltype(&fn)>(dlsym(RTLD_NEXT, #fn))
static bool take(void *m, bool recursive)
{
    Mtx &x = (*locks)[m];
    if (x.owner == cur && recursive) {
        x.count++;
        return true;
    }
    if (x.owner >= 0) return false;
    x.owner = cur, x.count = 1;
    return true;
}
static void acquire(void *m, bool recursive, void *pc)
{
    point("before taking a lock", pc);
    inRt = true;
    while (!take(m, recursive)) {
        if (mode == RECORD || mode == MERGE || co[1 - cur].done || !runnable(1 - cur) ||
            (*locks)[m].owner == cur) {
            violation(string("deadlock: ") + tname(cur) + " waits for a lock in " + where(pc) + " which " +
                      ((*locks)[m].owner == cur ? "it holds itself" : "cannot be released"));
        }
        if (fresh) {
            // nothing shared was touched since the preemption: same as being
            // preempted when the lock is released
            sh->equivalent++;
            _exit(0);
        }
        co[cur].blocked = m;
        *schedule_ += string(tname(cur)) + " waits for a lock in " + where(pc) + "; the other goes on\n";
        switchTo(1 - cur);
        co[cur].blocked = nullptr;
    }
    fresh = false;
    inRt = false;
}
static void release(void *m, void *pc)
{
    inRt = true;
    Mtx &x = (*locks)[m];
    bool last = --x.count <= 0;
    if (last) x.owner = -1, x.count = 0;
    inRt = false;
    if (last) point("after releasing a lock", pc);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    static auto f = REAL(pthread_mutex_lock);
    if (mode == OFF || cur < 0 || inRt) return f(m);
    acquire(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, PC);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    static auto f = REAL(pthread_mutex_trylock);
    if (mode == OFF || cur < 0 || inRt) return f(m);
    point("before trying a lock", PC);
    inRt = true;
    bool ok = take(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
    fresh = false;
    inRt = false;
    return ok ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    static auto f = REAL(pthread_mutex_unlock);
    if (mode == OFF || cur < 0 || inRt) return f(m);
    release(m, PC);
    return 0;
}
// Readers are treated as writers: with two threads this only hides schedules in
// which both read, whose outcomes are those of either order.
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    static auto f = REAL(pthread_rwlock_rdlock);
    if (mode == OFF || cur < 0 || inRt) return f(m);
    acquire(m, true, PC);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    static auto f = REAL(pthread_rwlock_wrlock);
    if (mode == OFF || cur < 0 || inRt) return f(m);
    acquire(m, false, PC);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    static auto f = REAL(pthread_rwlock_unlock);
    if (mode == OFF || cur < 0 || inRt) return f(m);
    release(m, PC);
    return 0;
}
}

// ------------------------------------------------------------ heap of an operation
static void born(void *p, size_t n)
{
    if (mode != RECORD || cur < 0 || inRt || !p) return;
    inRt = true;
    (*live)[uintptr_t(p)] = uintptr_t(p) + (n ? n : 1);
    inRt = false;
}
void *operator new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    born(p, n);
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept
{
    if (mode == RECORD && cur >= 0 && !inRt && p) {
        inRt = true;
        live->erase(uintptr_t(p));
        inRt = false;
    }
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------ threads
static RealOutcome perform(const Op &op)
{
    Real &r = *real_;
    RealOutcome o;
    const string &c = op[0];
    if (c == "@getxml") {
        auto h = r.handle(op[1]);
        string e;
        o.ok = h->getAsXML(o.val, e);
        if (!o.ok) o.val = e;
    } else if (c == "@setxml") {
        o.ok = r.handle(op[1])->setAsXML(op[2], o.val);
    } else if (c == "@getbytes") {
        vector<uint8_t> b;
        string e;
        o.ok = r.handle(op[1])->getAsBytes(b, e);
        for (auto x : b) o.val += std::to_string(int(x)) + " ";
    } else if (c == "@setbytes") {
        vector<uint8_t> b;
        for (size_t i = 2; i < op.size(); i++) b.push_back(uint8_t(atoi(op[i].c_str())));
        o.ok = r.handle(op[1])->setAsBytes(b, o.val);
    } else if (c == "@api") {
        r.apiCmd(op[1], vector<string>(op.begin() + 2, op.end()), o.val, o.ok);
    } else if (c == "@rogue") {
        o.val = r.handle(op[1])->isRogue() ? "rogue" : "owned";
    } else
        o = r.exec(op);
    return o;
}
static void finishRun();
static void threadMain(unsigned t)
{
    inRt = false;
    Co &c = co[t];
    for (;;) {
        if (mode == MERGE) {
            while (mergeAt < merge_.size() && merge_[mergeAt] != cur) {
                inRt = true;
                switchTo(merge_[mergeAt]);
                inRt = false;
            }
            mergeAt++;
        }
        if (c.next >= c.prog.size()) break;
        point("before an operation", nullptr);
        fresh = false;
        OpRes &r = c.res[c.next];
        r.start = ++tick;
        RealOutcome o = perform(c.prog[c.next]);
        r.hwEnd = real_->env.log.size();
        r.end = ++tick;
        r.ok = o.ok, r.val = o.val, r.done = true;
        c.next++;
        if (mode == EXPLORE && c.next < c.prog.size()) fresh = false;
    }
    inRt = true;
    c.done = true;
    fresh = false;
    if (!co[1 - t].done) {
        if (!runnable(1 - int(t)))
            violation(string("deadlock: ") + tname(1 - int(t)) + " waits for a lock that is never released");
        switchTo(1 - int(t));
    }
    finishRun();
}
static string outcome(vector<size_t> &pos)
{
    string r;
    for (int t = 0; t < 2; t++)
        for (size_t i = 0; i < co[t].prog.size(); i++) {
            auto &x = co[t].res[i];
            r += string(tname(t)) + " " + Checker::opText(co[t].prog[i]).substr(0, 200) + " -> " +
                 (!x.done ? "not done" : x.ok ? "success" : "refusal") + " " + x.val + "\n";
            pos.push_back(x.start), pos.push_back(x.end), pos.push_back(x.hwEnd);
        }
    r += "hardware:";
    for (auto &e : real_->env.log) r += " " + evText(e);
    r += "\n";
    real_->keepLog = false;
    r += real_->observe();
    return r;
}
static void finishRun()
{
    Mode m = mode;
    mode = OFF;
    cur = -1;
    inRt = false;
    vector<size_t> pos;
    if (m == RECORD) {
        size_t k = sh->nfp[3]; // slot chosen by the parent
        uint64_t n = 0;
        for (auto &f : *foot)
            if (n < (1 << 18)) sh->fp[k][n++] = f.first << 2 | uintptr_t(f.second);
        sh->nfp[k] = n;
        _exit(0);
    }
    string o = outcome(pos);
    if (m == MERGE) {
        put(sh->out[0], sizeof sh->out[0], o);
        for (size_t i = 0; i < pos.size() && i < 64; i++) sh->pos[i] = pos[i];
        _exit(0);
    }
    sh->schedules++;
    string best;
    for (size_t k = 0; k < seqText->size(); k++) {
        if ((*seqText)[k] == o) {
            // the order must agree with real time, and when an operation returns
            // the effects of all those it comes after must be complete
            auto &q = (*seqPos)[k];
            bool fits = true;
            for (size_t i = 0; i < pos.size(); i += 3) {
                fits = fits && pos[i + 2] >= q[i + 2];
                for (size_t j = 0; j < pos.size(); j += 3)
                    if (pos[i + 1] < pos[j]) fits = fits && q[i + 1] < q[j];
            }
            if (fits) _exit(0);
            best = "an operation took effect after another one that it would have to precede had returned";
        } else if (best.empty())
            best = diffText((*seqText)[0], o);
    }
    violation("the outcome is that of no sequential order of the operations: " + best + "\n" +
              o.substr(0, 3000));
}
// runs the two programs in a forked process; returns false if it died
static bool launch(Mode m, int first, int onlyThread)
{
    pid_t p = fork();
    if (p == 0) {
        alarm(50);
        mode = m;
        for (int t = 0; t < 2; t++) {
            co[t].res.assign(co[t].prog.size(), OpRes());
            co[t].next = 0, co[t].done = onlyThread >= 0 && onlyThread != t, co[t].blocked = nullptr;
            getcontext(&co[t].ctx);
            co[t].ctx.uc_stack.ss_sp = co[t].stack;
            co[t].ctx.uc_stack.ss_size = kStack;
            co[t].ctx.uc_link = nullptr;
            makecontext(&co[t].ctx, reinterpret_cast<void (*)()>(threadMain), 1, unsigned(t));
        }
        real_->keepLog = true;
        real_->env.log.clear();
        *schedule_ = string(tname(first)) + " starts\n";
        tick = 0;
        fresh = false;
        cur = first;
        swapcontext(&mainCtx, &co[first].ctx);
        _exit(3);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && !sh->failed) {
        sh->failed = true;
        put(sh->why, sizeof sh->why, string("crash or hang: ") + strsignal(WTERMSIG(st)));
        put(sh->trace, sizeof sh->trace, string(tname(first)) + " starts");
    }
    return !sh->failed && WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

struct Pair
{
    int world;
    vector<Op> app, cmd;
};
static void hookPoint(Env *, const char *) { point("before a hardware access", __builtin_return_address(0)); fresh = false; }

static bool pairCheck(Ctx &c, World &W, const Pair &p, int bound)
{
    string title = "world " + W.name + "\napplication thread:";
    for (auto &o : p.app) title += " " + Checker::opText(o) + ";";
    title += "\ncommand thread:";
    for (auto &o : p.cmd) title += " " + Checker::opText(o) + ";";
    c.note(title);
    Real r(W);
    if (!r.started) return c.violate("start failed: " + r.error);
    for (auto &op : W.prefix) r.exec(op);
    for (auto &o : p.app)
        for (auto &a : o)
            if (a[0] == '/') r.handle(a);
    r.env.hook = hookPoint;
    real_ = &r;
    for (int t = 0; t < 2; t++) {
        co[t].prog = t ? p.cmd : p.app;
        if (!co[t].stack) co[t].stack = static_cast<char *>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
                                                                 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    memset(sh, 0, offsetof(SharedArea, trace));
    vector<string> texts;
    vector<vector<size_t>> poss;
    seqText = &texts, seqPos = &poss;
    string sched;
    schedule_ = &sched;
    auto bad = [&](const char *phase) {
        c.append(string("\n") + sh->trace);
        return c.violate(string(phase) + ": " + sh->why);
    };
    // sequential orders
    size_t na = p.app.size(), nb = p.cmd.size();
    vector<int> m(na + nb, 0);
    for (size_t i = na; i < na + nb; i++) m[i] = 1;
    do {
        merge_ = m, mergeAt = 0;
        memset(sh->out[0], 0, 1);
        if (!launch(MERGE, m[0], -1)) return bad("sequential execution");
        texts.push_back(sh->out[0]);
        vector<size_t> pos(sh->pos, sh->pos + 3 * (na + nb));
        poss.push_back(pos);
    } while (std::next_permutation(m.begin(), m.end()));
    // memory used by both, at least one of them writing
    std::unordered_map<uintptr_t, int> f[2];
    for (int first = 0; first < 2; first++) {
        sh->nfp[3] = uint64_t(first);
        if (!launch(RECORD, first, first)) return bad("single thread");
        for (uint64_t i = 0; i < sh->nfp[first]; i++) f[first][sh->fp[first][i] >> 2] |= int(sh->fp[first][i] & 3);
    }
    std::unordered_set<uintptr_t> cs;
    for (auto &x : f[0]) {
        auto it = f[1].find(x.first);
        if (it != f[1].end() && ((x.second | it->second) & 2)) cs.insert(x.first);
    }
    conflictSet = &cs;
    preemptLeft = bound;
    for (int first = 0; first < 2; first++)
        if (!launch(EXPLORE, first, -1) && sh->failed) return bad("interleaved execution");
    c.sh->states += sh->points;
    c.sh->transitions += sh->forks;
    c.sh->validated += sh->schedules;
    c.sh->distinct += sh->equivalent;
    if (getenv("MC_SCHED"))
        fprintf(stderr, "%s\n  conflicts %zu points %lu forks %lu schedules %lu equivalent %lu\n", title.c_str(), cs.size(),
                sh->points, sh->forks, sh->schedules, sh->equivalent);
    return true;
}

static World schedWorld(const string &name, bool tuning, bool sync)
{
    WB b(name);
    Dom &d1 = b.dom("D1", {"/Sys/A/c"});
    b.conf(d1, "K1", b.rule(rAll({b.is("C1", "a")})), 1);
    b.conf(d1, "K2", b.rule(rAll({b.is("C1", "b")})), 2);
    Dom &d2 = b.dom("D2", {"/Sys/B/y"}, true);
    b.conf(d2, "L1", b.rule(rAll({b.is("C1", "a")})), 3);
    b.conf(d2, "L2", b.rule(rAll({b.is("C1", "b")})), 4);
    World w = b.w;
    if (tuning) {
        w.prefix.push_back({"setTuningMode", "on"});
        if (!sync) w.prefix.push_back({"setAutoSync", "off"});
        w.prefix.push_back({"setParameter", "/Sys/A/c/p", "77"});
    }
    w.prefix.push_back({"!crit", "C1", "1"}); // not applied yet
    return w;
}

static int p21(Checker &c)
{
    locks = new std::map<void *, Mtx>();
    foot = new std::unordered_map<uintptr_t, int>();
    live = new std::map<uintptr_t, uintptr_t>();
    sh = static_cast<SharedArea *>(nullptr);
    vector<World> W;
    W.push_back(schedWorld("tuningOff", false, true));
    W.push_back(schedWorld("tuningOn", true, true));
    W.push_back(schedWorld("tuningOnNoSync", true, false));
    const string xmlC = [&] {
        World w = W[0];
        Real r(w);
        if (!r.started) fprintf(stderr, "%s\n", r.error.c_str());
        return r.cmdv("getElementXML", {"/Sys/B/z"});
    }();
    string d1xml, all;
    {
        World w = W[0];
        w.dir.clear(), w.name = "sample";
        Real r(w);
        d1xml = r.cmdv("getDomainWithSettingsXML", {"D1"});
        all = r.cmdv("getDomainsWithSettingsXML", {});
    }
    vector<Op> app = {{"!apply"},
                      {"!ht", "u", "0", "/Sys/A/x", "9"},
                      {"!hset", "/Sys/B/z", "9"},
                      {"!hset", "/Sys/A/c/p", "9"},
                      {"!hg", "u", "0", "/Sys/A/x"},
                      {"!hg", "u", "0", "/Sys/A/c/p"},
                      {"!hg", "u", "1", "/Sys/A/c/q"},
                      {"!hget", "/Sys/B/y"},
                      {"@getxml", "/Sys/A"},
                      {"@getbytes", "/Sys/A"},
                      {"@setxml", "/Sys/B/z", xmlC},
                      {"@setbytes", "/Sys/B/z", "55"},
                      {"@rogue", "/Sys/A/x"},
                      {"@api", "getParameter", "/Sys/A/c/p"},
                      {"@api", "setTuningMode", "on"},
                      {"@api", "setTuningMode", "off"}};
    vector<Op> cmd = {{"setTuningMode", "on"},
                      {"setTuningMode", "off"},
                      {"setAutoSync", "on"},
                      {"setAutoSync", "off"},
                      {"sync"},
                      {"setParameter", "/Sys/A/c/p", "33"},
                      {"setParameter", "/Sys/A/x", "33"},
                      {"setParameter", "/Sys/A/c/q", "3 4"},
                      {"getParameter", "/Sys/A/c/p"},
                      {"getParameter", "/Sys/A/x"},
                      {"setConfigurationParameter", "D1", "K1", "/Sys/A/c/p", "44"},
                      {"getConfigurationParameter", "D1", "K1", "/Sys/A/c/p"},
                      {"saveConfiguration", "D1", "K2"},
                      {"restoreConfiguration", "D1", "K2"},
                      {"createDomain", "D9"},
                      {"deleteDomain", "D1"},
                      {"deleteAllDomains"},
                      {"renameDomain", "D1", "D8"},
                      {"setSequenceAwareness", "D1", "true"},
                      {"addElement", "D2", "/Sys/A/x"},
                      {"addElement", "D2", "/Sys/B/z"},
                      {"removeElement", "D1", "/Sys/A/c"},
                      {"splitDomain", "D1", "/Sys/A/c"},
                      {"createConfiguration", "D1", "K3"},
                      {"deleteConfiguration", "D1", "K2"},
                      {"renameConfiguration", "D1", "K2", "K4"},
                      {"setElementSequence", "D1", "K2", "/Sys/A/c"},
                      {"setRule", "D1", "K2", "C1 Is c"},
                      {"clearRule", "D1", "K2"},
                      {"setElementBytes", "/Sys/A/x", "11"},
                      {"getElementBytes", "/Sys/A/c"},
                      {"getElementXML", "/Sys/A/c"},
                      {"setElementXML", "/Sys/B/z", xmlC},
                      {"dumpElement", "/Sys"},
                      {"status"},
                      {"setValueSpace", "raw"},
                      {"listCriteria"},
                      {"dumpDomains"},
                      {"getDomainsWithSettingsXML"},
                      {"setDomainWithSettingsXML", d1xml, "overwrite"},
                      {"setDomainsWithSettingsXML", all}};
    vector<Pair> pairs;
    for (size_t w = 0; w < W.size(); w++)
        for (auto &a : app)
            for (auto &b : cmd) pairs.push_back({int(w), {a}, {b}});
    size_t single = pairs.size();
    // several operations on a side
    vector<vector<Op>> appSeq = {{app[0], app[1]}, {app[1], app[4]}, {app[5], app[0]}, {app[0], app[0]},
                                 {app[2], app[10]}, {app[8], app[8]}};
    vector<vector<Op>> cmdSeq = {{cmd[0], cmd[1]}, {cmd[0], cmd[5]}, {cmd[0], cmd[6], cmd[1]},
                                 {cmd[5], cmd[13]}, {cmd[0], cmd[19], cmd[1]}, {cmd[1], cmd[0]},
                                 {cmd[3], cmd[5], cmd[4]}, {cmd[0], cmd[15], cmd[1]}, {cmd[13], cmd[1]},
                                 {cmd[28], cmd[1]}};
    for (size_t w = 0; w < W.size(); w++)
        for (auto &a : appSeq)
            for (auto &b : cmdSeq) pairs.push_back({int(w), a, b});
    int bound = c.thorough ? 3 : 2;
    c.bounds.push_back(std::to_string(single) + " pairs of one application operation (16 kinds) and one command (41 kinds) in 3 "
                       "systems, " + std::to_string(pairs.size() - single) + " pairs of sequences of 2 and 2 to 3 operations; up to " +
                       std::to_string(bound) + " preemptions; scheduling points: lock operations, memory used by both threads, "
                       "hardware accesses, operation boundaries");
    c.sample("application: !apply; command: setTuningMode off; every point of either interrupted by the other");
    c.items_("schedules", long(pairs.size()), [&](Ctx &cx, long i) {
        if (!sh)
            sh = static_cast<SharedArea *>(
                mmap(nullptr, sizeof(SharedArea), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        auto &p = pairs[size_t(i)];
        return pairCheck(cx, W[size_t(p.world)], p, bound);
    });
    return c.finish("exhaustive within bounds",
                    "every schedule of the two threads up to the preemption bound, at every scheduling point, ends in the "
                    "results, hardware accesses and state of some sequential order of whole operations; states = scheduling "
                    "points, transitions = preemptions tried, validated = complete schedules compared, distinct = schedules "
                    "cut as equivalent to one with the preemption at the release of the lock");
}
static Reg r21("P21", p21);
