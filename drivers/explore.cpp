// Runtime for code compiled with -fsanitize=thread, in place of ThreadSanitizer's: runs the threads of a program one at a
// time, explores the orders of their atomic and locking operations, and records every observed access as an event.
// Judges nothing: the recorded executions are judged by spec/Owners.tla.
#include "driver.h"
#include "explore.h"
#include <algorithm>
#include <climits>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unordered_map>

extern "C" char __data_start, _end;

namespace
{
typedef unsigned long u64;
typedef uintptr_t uptr;

// ---- observed memory ----------------------------------------------------------------------------------------------
char* const BASE = reinterpret_cast<char*>(0x600000000000UL);
const size_t SPACE = 1 << 20;
char* top = nullptr;
bool tracking = false;                      // allocations of the program
struct Block { uptr p; size_t n; bool gone; };
std::vector<Block>* blocks;
thread_local int self = -1;                 // 0: main, 1..: threads, -1: not ours
thread_local int inside = 0;                // inside the runtime

// ---- events -------------------------------------------------------------------------------------------------------
struct Event
{
    char kind;                              // c call, r ret, d destroy, a access, f free, n new, j join, F fence, x stuck
    int t;
    uptr p; size_t n;
    char mode;                              // r w l s x
    bool acq, rel;
    std::string text;
    long v;
};
std::vector<Event>* events;
enum { MAXT = 4 };
const char* pendingCall[MAXT];
bool called[MAXT];
std::set<std::pair<uptr, std::pair<size_t, char>>>* seen;   // per thread: plain accesses since its last synchronisation
bool running = false;                       // threads are scheduled
int nThreads = 0;

void flush_call(int t)
{
    if (pendingCall[t])
    {
        events->push_back({'c', t, 0, 0, 0, false, false, pendingCall[t], 0});
        pendingCall[t] = nullptr;
    }
}
Block* block_of(uptr p)
{
    for (size_t k = blocks->size(); k-- > 0;)
        if (p >= (*blocks)[k].p && p < (*blocks)[k].p + (*blocks)[k].n)
            return &(*blocks)[k];
    return nullptr;
}
bool observed(uptr p)
{
    if (p >= reinterpret_cast<uptr>(BASE) && p < reinterpret_cast<uptr>(top))
        return true;
    return p >= reinterpret_cast<uptr>(&__data_start) && p < reinterpret_cast<uptr>(&_end);
}
struct In { In() { ++inside; } ~In() { --inside; } };

// ---- scheduler ----------------------------------------------------------------------------------------------------
struct Sem
{
    volatile int v = 0;
    void post()
    {
        __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST);
        syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    void wait()
    {
        while (!__atomic_exchange_n(&v, 0, __ATOMIC_SEQ_CST))
            syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
};
Sem sem[MAXT];
struct Pend { uptr p; size_t n; char kind; };   // kind: l load, x write, w weak exchange, m mutex, y yield
Pend pend[MAXT];
bool done[MAXT], parked[MAXT], yielded[MAXT];
int spins[MAXT];
struct Node
{
    std::vector<int> choices;               // enabled
    std::set<int> sleep, tried;
    Pend pend[MAXT];
    int cur;
    int last;                               // thread of the step before
    int preempt;                            // preemptions used before this step
};
std::vector<Node>* stack;
size_t depth;
int lastThread, preemptions;
bool spuriousUsed, pruned, stuck;
int spurious[MAXT];
long steps;
int maxPreempt = -1;
std::map<uptr, int>* mutexes;               // owner, or -readers
std::set<std::pair<uptr, int>>* readers;
int initial;

bool independent(const Pend& a, bool as, const Pend& b, bool bs)
{
    if (a.p + a.n <= b.p || b.p + b.n <= a.p)
        return true;
    const bool ra = a.kind == 'l' || (a.kind == 'w' && as), rb = b.kind == 'l' || (b.kind == 'w' && bs);
    return ra && rb;
}
bool enabled(int t)
{
    if (done[t])
        return false;
    if (pend[t].kind == 'm')
        return mutexes->find(pend[t].p) == mutexes->end();
    if (pend[t].kind == 'M')                // shared lock
    {
        auto it = mutexes->find(pend[t].p);
        return it == mutexes->end() || it->second < 0;
    }
    return true;
}
[[noreturn]] void give_up();

// picks the next thread; the caller has parked (or ended)
int pick()
{
    std::vector<int> en, all;
    for (int t = 1; t <= nThreads; ++t)
        if (enabled(t))
        {
            all.push_back(t);
            if (!yielded[t])
                en.push_back(t);
        }
    if (en.empty())
        en = all;
    if (en.empty() || ++steps > 3000)
    {
        bool over = true;
        for (int t = 1; t <= nThreads; ++t)
            over = over && done[t];
        if (over)
            return 0;
        give_up();
    }
    std::vector<int> ch = en;
    if (!spuriousUsed)
        for (int t : en)
            if (pend[t].kind == 'w')
                ch.push_back(t + 8);
    int c;
    if (depth < stack->size())
    {
        c = (*stack)[depth].cur;
        if (std::find(ch.begin(), ch.end(), c) == ch.end())
            c = ch[0];
    }
    else if (pruned)
        c = ch[0];
    else
    {
        Node n;
        n.choices = ch;
        for (int t = 1; t <= nThreads; ++t)
            n.pend[t] = pend[t];
        n.last = lastThread;
        n.preempt = preemptions;
        if (maxPreempt < 0 && depth > 0)
        {
            const Node& b = stack->back();
            std::set<int> s = b.sleep;
            s.insert(b.tried.begin(), b.tried.end());
            s.erase(b.cur);
            for (int q : s)
                if ((q & 7) != (b.cur & 7) && std::find(ch.begin(), ch.end(), q) != ch.end() &&
                    independent(b.pend[q & 7], q & 8, b.pend[b.cur & 7], b.cur & 8))
                    n.sleep.insert(q);
        }
        c = 0;
        const bool lastEn = std::find(ch.begin(), ch.end(), lastThread) != ch.end();
        if (lastEn && !n.sleep.count(lastThread))
            c = lastThread;
        for (size_t k = 0; !c && k < ch.size(); ++k)
            if (!n.sleep.count(ch[k]) && (maxPreempt < 0 || !lastEn || (ch[k] & 7) == lastThread || preemptions < maxPreempt))
                c = ch[k];
        if (!c)
        {
            pruned = true;
            c = ch[0];
        }
        else
        {
            n.cur = c;
            stack->push_back(n);
        }
    }
    ++depth;
    const int t = c & 7;
    if (t != lastThread && lastThread && std::find(en.begin(), en.end(), lastThread) != en.end())
        ++preemptions;
    lastThread = t;
    spurious[t] = c >> 3;
    if (spurious[t])
        spuriousUsed = true;
    if (pend[t].kind == 'l')
    {
        if (++spins[t] > 30)
            yielded[t] = true;
    }
    else
        spins[t] = 0;
    for (int u = 1; u <= nThreads; ++u)
        if (u != t)
        {
            yielded[u] = false;
            spins[u] = 0;
        }
    return t;
}
// hands control over after the calling thread has parked or ended
void pass()
{
    if (initial > 0)
    {
        // the first round: every thread runs up to its first operation
        if (initial < nThreads)
        {
            const int n = ++initial;
            sem[n].post();
            return;
        }
        initial = 0;
    }
    const int n = pick();
    sem[n].post();
}
// a visible operation of the calling thread: returns when it may execute
void visible(uptr p, size_t n, char kind)
{
    const int t = self;
    pend[t] = {p, n, kind};
    pass();
    sem[t].wait();
    flush_call(t);
}
bool scheduled() { return running && self > 0 && !inside; }

// ---- recorded executions ------------------------------------------------------------------------------------------
std::string serialize(const char* header, std::string& sig)
{
    // cells: the pieces of memory that the accesses of this execution tell apart
    std::set<uptr> cuts;
    for (const Event& e : *events)
        if (e.kind == 'a')
        {
            cuts.insert(e.p);
            cuts.insert(e.p + e.n);
        }
    std::map<uptr, int> id;
    auto cells = [&](uptr p, size_t n) {
        std::string s = "[";
        for (auto it = cuts.lower_bound(p); it != cuts.end() && *it < p + n; ++it)
        {
            auto f = id.find(*it);
            if (f == id.end())
                f = id.insert(std::make_pair(*it, static_cast<int>(id.size()) + 1)).first;
            s += (s.size() > 1 ? "," : "") + std::to_string(f->second);
        }
        return s + "]";
    };
    // only pieces that some access covers
    std::map<uptr, int> blockId;
    std::string body;
    std::string live = "[";
    sig.clear();
    for (size_t k = 0; k < blocks->size(); ++k)
        blockId[(*blocks)[k].p] = static_cast<int>(k) + 1;
    for (const Event& e : *events)
    {
        std::string x;
        const std::string t = ",\"t\":" + std::to_string(e.t + 1);
        switch (e.kind)
        {
            case 'c': x = "{\"op\":\"call\"" + t + ",\"o\":\"" + e.text + "\"}"; break;
            case 'r':
                x = "{\"op\":\"ret\"" + t + ",\"r\":" + std::to_string(e.v) + "}";
                sig += 'r' + std::to_string(e.t) + '=' + std::to_string(e.v) + ' ';
                break;
            case 'd':
                x = "{\"op\":\"destroy\"" + t + ",\"x\":" + std::to_string(e.v) + "}";
                sig += 'd' + std::to_string(e.t) + ':' + std::to_string(e.v) + ' ';
                break;
            case 'a':
                x = "{\"op\":\"access\"" + t + ",\"c\":" + cells(e.p, e.n) + ",\"m\":\"" + e.mode + "\",\"q\":" + (e.acq ? "true" : "false") +
                    ",\"e\":" + (e.rel ? "true" : "false") + "}";
                break;
            case 'F':
                x = "{\"op\":\"fence\"" + t + ",\"q\":" + (e.acq ? "true" : "false") + ",\"e\":" + (e.rel ? "true" : "false") + "}";
                break;
            case 'n':
                x = "{\"op\":\"new\"" + t + ",\"b\":" + std::to_string(blockId[e.p]) + "}";
                break;
            case 'f':
                x = "{\"op\":\"free\"" + t + ",\"b\":" + std::to_string(blockId.count(e.p) ? blockId[e.p] : 0) + ",\"c\":" + cells(e.p, e.n) + "}";
                sig += 'f' + std::to_string(e.t) + ' ';
                break;
            case 'j': x = "{\"op\":\"join\"}"; break;
            case 'x': x = "{\"op\":\"stuck\"}"; break;
        }
        body += "," + x;
    }
    return std::string("{\"op\":\"run\",\"ev\":[{\"op\":\"start\",\"cells\":") + std::to_string(id.size()) + "," + header + "}" + body + "]}";
}
std::string currentHeader;
std::vector<std::pair<std::string, std::string>>* kept;
long explored, redundant;
std::string previous;

void record()
{
    std::string sig;
    std::string s = serialize(currentHeader.c_str(), sig);
    kept->push_back(std::make_pair(sig, s));
}
void emit_kept(long keep)
{
    std::vector<std::string> first, rest;
    std::set<std::string> sigs;
    for (auto& p : *kept)
        if (sigs.insert(p.first).second)
            first.push_back(p.second);
        else
            rest.push_back(p.second);
    std::mt19937_64 g(12345);
    for (size_t k = rest.size(); k > 1; --k)
        std::swap(rest[k - 1], rest[g() % k]);
    while (!rest.empty() && static_cast<long>(first.size() + rest.size()) > keep)
        rest.pop_back();
    first.insert(first.end(), rest.begin(), rest.end());
    if (static_cast<long>(first.size()) > 4 * keep)
        first.resize(4 * keep);
    for (auto& s : first)
    {
        fwrite(s.data(), 1, s.size(), drv::out());
        fputc('\n', drv::out());
    }
    drv::Ev("explored").i("executions", explored).i("redundant", redundant).i("recorded", first.size()).emit();
}
long keepLimit;
void give_up()
{
    // some thread can never go on: the process of this program ends here
    events->push_back({'x', 0, 0, 0, 0, false, false, "", 0});
    record();
    kept->insert(kept->begin(), kept->back());
    emit_kept(keepLimit);
    _exit(0);
}

// ---- accesses -----------------------------------------------------------------------------------------------------
void synced(int t) { seen[t].clear(); }
void plain(uptr p, size_t n, char mode)
{
    if (inside || self < 0 || !tracking || !observed(p))
        return;
    In in;
    const int t = self;
    if (running || t == 0)
    {
        flush_call(t);
        if (t == 0 && !called[0])
            return;                         // before the threads start
        Block* b = block_of(p);
        if (!(b && b->gone))
        {
            if (!seen[t].insert(std::make_pair(p, std::make_pair(n, mode))).second)
                return;
            if (mode == 'r' && seen[t].count(std::make_pair(p, std::make_pair(n, 'w'))))
                return;
        }
        events->push_back({'a', t, p, n, mode, false, false, "", 0});
    }
}
bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void logAtomic(uptr p, size_t n, char mode, int mo)
{
    const int t = self;
    if (t < 0 || !tracking || !observed(p) || (t == 0 && !called[0]))
        return;
    In in;
    flush_call(t);
    synced(t);
    events->push_back({'a', t, p, n, mode, isAcq(mo) && mode != 's', isRel(mo) && mode != 'l', "", 0});
}
void before(const volatile void* a, size_t n, char kind)
{
    const uptr p = reinterpret_cast<uptr>(a);
    if (scheduled() && observed(p))
    {
        In in;
        visible(p, n, kind);
    }
}
void fence(int mo)
{
    if (self < 0 || !tracking || (self == 0 && !called[0]) || inside)
        return;
    In in;
    flush_call(self);
    synced(self);
    events->push_back({'F', self, 0, 0, 0, isAcq(mo), isRel(mo), "", 0});
}

// ---- allocation ---------------------------------------------------------------------------------------------------
void* allocate(size_t n)
{
    if (self < 0 || inside || !tracking)
        return std::malloc(n ? n : 1);
    In in;
    char* p = top;
    top += (n + 31) / 16 * 16 + 16;
    if (top > BASE + SPACE)
        abort();
    blocks->push_back({reinterpret_cast<uptr>(p), n ? n : 1, false});
    if (self > 0)
        flush_call(self);
    events->push_back({'n', self, reinterpret_cast<uptr>(p), n, 0, false, false, "", 0});
    return p;
}
void release(void* q)
{
    const uptr p = reinterpret_cast<uptr>(q);
    if (!(q >= BASE && q < BASE + SPACE))
    {
        std::free(q);
        return;
    }
    In in;
    if (self > 0)
        flush_call(self);
    Block* b = block_of(p);
    events->push_back({'f', self, p, b ? b->n : 1, 0, false, false, "", 0});
    if (b)
        b->gone = true;
}

// ---- exploration --------------------------------------------------------------------------------------------------
vt::Program* program;
Sem toMain;
bool quit = false;
void* worker(void* arg)
{
    const int t = static_cast<int>(reinterpret_cast<uptr>(arg));
    ++inside;
    for (;;)
    {
        sem[t].wait();
        if (quit)
            return nullptr;
        self = t;
        // wait for the first operation to be scheduled like any other: the thread runs up to it now
        --inside;
        program->thread(t);
        ++inside;
        done[t] = true;
        self = -1;
        pass();
    }
}
} // namespace

extern "C"
{
void vt_call(const char* op)
{
    if (self < 0)
        return;
    In in;
    flush_call(self);
    pendingCall[self] = op;
}
void vt_ret(long r)
{
    if (self < 0)
        return;
    In in;
    flush_call(self);
    events->push_back({'r', self, 0, 0, 0, false, false, "", r});
}
void vt_destroy(long o)
{
    In in;
    const int t = self < 0 ? 0 : self;
    flush_call(t);
    events->push_back({'d', t, 0, 0, 0, false, false, "", o});
}
void* vt_plain(std::size_t n) { return std::malloc(n); }

// ---- the interface of instrumented code ---------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { plain(reinterpret_cast<uptr>(p), 8, 'w'); }
void __tsan_vptr_read(void** p) { plain(reinterpret_cast<uptr>(p), 8, 'r'); }
void __tsan_read_range(void* p, u64 n) { plain(reinterpret_cast<uptr>(p), n, 'r'); }
void __tsan_write_range(void* p, u64 n) { plain(reinterpret_cast<uptr>(p), n, 'w'); }
#define RW(N) \
    void __tsan_read##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'r'); } \
    void __tsan_write##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'w'); } \
    void __tsan_read_write##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'r'); plain(reinterpret_cast<uptr>(p), N, 'w'); } \
    void __tsan_unaligned_read##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'r'); } \
    void __tsan_unaligned_write##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'w'); } \
    void __tsan_unaligned_read_write##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'r'); plain(reinterpret_cast<uptr>(p), N, 'w'); } \
    void __tsan_volatile_read##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'r'); } \
    void __tsan_volatile_write##N(void* p) { plain(reinterpret_cast<uptr>(p), N, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    plain(reinterpret_cast<uptr>(s), n, 'r');
    plain(reinterpret_cast<uptr>(d), n, 'w');
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    plain(reinterpret_cast<uptr>(s), n, 'r');
    plain(reinterpret_cast<uptr>(d), n, 'w');
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    plain(reinterpret_cast<uptr>(d), n, 'w');
    return memset(d, c, n);
}
#define RMW(N, T, NAME, BUILTIN) \
    T __tsan_atomic##N##_##NAME(volatile T* a, T v, int mo) \
    { \
        before(a, sizeof(T), 'x'); \
        const T r = BUILTIN(a, v, __ATOMIC_SEQ_CST); \
        logAtomic(reinterpret_cast<uptr>(a), sizeof(T), 'x', mo); \
        return r; \
    }
#define CAS(N, T, NAME, KIND) \
    int __tsan_atomic##N##_compare_exchange_##NAME(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        before(a, sizeof(T), KIND); \
        bool ok = false; \
        if (KIND == 'w' && scheduled() && spurious[self]) \
        { \
            spurious[self] = 0; \
            *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        } \
        else \
            ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        logAtomic(reinterpret_cast<uptr>(a), sizeof(T), ok ? 'x' : 'l', ok ? mo : fmo); \
        return ok; \
    }
#define ATOMIC(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) \
    { \
        before(a, sizeof(T), 'l'); \
        const T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        logAtomic(reinterpret_cast<uptr>(a), sizeof(T), 'l', mo); \
        return r; \
    } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) \
    { \
        before(a, sizeof(T), 'x'); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
        logAtomic(reinterpret_cast<uptr>(a), sizeof(T), 's', mo); \
    } \
    RMW(N, T, exchange, __atomic_exchange_n) \
    RMW(N, T, fetch_add, __atomic_fetch_add) \
    RMW(N, T, fetch_sub, __atomic_fetch_sub) \
    RMW(N, T, fetch_and, __atomic_fetch_and) \
    RMW(N, T, fetch_or, __atomic_fetch_or) \
    RMW(N, T, fetch_xor, __atomic_fetch_xor) \
    RMW(N, T, fetch_nand, __atomic_fetch_nand) \
    CAS(N, T, strong, 'x') \
    CAS(N, T, weak, 'w') \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
    { \
        __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); \
        return c; \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- locks --------------------------------------------------------------------------------------------------------
static int lockIt(void* m, char kind, bool tryIt)
{
    const uptr p = reinterpret_cast<uptr>(m);
    if (scheduled())
    {
        In in;
        visible(p, 1, tryIt ? 'x' : kind);
        auto it = mutexes->find(p);
        if (tryIt && it != mutexes->end() && !(kind == 'M' && it->second < 0))
            return EBUSY;
        if (kind == 'm')
            (*mutexes)[p] = self;
        else
            --(*mutexes)[p];
        synced(self);
        events->push_back({'a', self, p, 1, 'x', true, false, "", 0});
    }
    return 0;
}
static int unlockIt(void* m)
{
    const uptr p = reinterpret_cast<uptr>(m);
    if (scheduled())
    {
        In in;
        visible(p, 1, 'x');
        auto it = mutexes->find(p);
        if (it != mutexes->end() && (it->second > 0 || ++it->second == 0))
            mutexes->erase(it);
        synced(self);
        events->push_back({'a', self, p, 1, 'x', false, true, "", 0});
    }
    return 0;
}
// nobody else of this process runs while a program does, and the runtime takes no locks
int pthread_mutex_lock(pthread_mutex_t* m) throw() { return lockIt(m, 'm', false); }
int pthread_mutex_trylock(pthread_mutex_t* m) throw() { return lockIt(m, 'm', true); }
int pthread_mutex_unlock(pthread_mutex_t* m) throw() { return unlockIt(m); }
int pthread_spin_lock(pthread_spinlock_t* m) throw() { return lockIt(const_cast<int*>(m), 'm', false); }
int pthread_spin_trylock(pthread_spinlock_t* m) throw() { return lockIt(const_cast<int*>(m), 'm', true); }
int pthread_spin_unlock(pthread_spinlock_t* m) throw() { return unlockIt(const_cast<int*>(m)); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) throw() { return lockIt(m, 'm', false); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) throw() { return lockIt(m, 'M', false); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) throw() { return unlockIt(m); }
int __cxa_guard_acquire(char* g)
{
    lockIt(g, 'm', false);
    if (*g)
    {
        unlockIt(g);
        return 0;
    }
    return 1;
}
void __cxa_guard_release(char* g)
{
    *g = 1;
    unlockIt(g);
}
void __cxa_guard_abort(char* g) { unlockIt(g); }
int sched_yield() throw()
{
    if (scheduled())
    {
        In in;
        yielded[self] = true;
        visible(1, 0, 'y');
    }
    return 0;
}
int nanosleep(const struct timespec*, struct timespec*)
{
    sched_yield();
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*)
{
    sched_yield();
    return 0;
}
}

void* operator new(std::size_t n) { return allocate(n); }
void* operator new[](std::size_t n) { return allocate(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { if (p) release(p); }
void operator delete[](void* p) noexcept { if (p) release(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) release(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) release(p); }

namespace vt
{
void explore(Program& p, const Limits& l)
{
    if (mmap(BASE, SPACE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != BASE)
        _exit(96);
    cpu_set_t one;
    sched_getaffinity(0, sizeof one, &one);
    for (int c = 0, n = static_cast<int>(getpid() % CPU_COUNT(&one)); c < CPU_SETSIZE; ++c)
        if (CPU_ISSET(c, &one) && n-- == 0)
        {
            CPU_ZERO(&one);
            CPU_SET(c, &one);
            sched_setaffinity(0, sizeof one, &one);
            break;
        }
    program = &p;
    nThreads = p.threads();
    keepLimit = l.keep;
    maxPreempt = l.preemptions;
    blocks = new std::vector<Block>();
    events = new std::vector<Event>();
    stack = new std::vector<Node>();
    mutexes = new std::map<uptr, int>();
    kept = new std::vector<std::pair<std::string, std::string>>();
    seen = new std::set<std::pair<uptr, std::pair<size_t, char>>>[MAXT];
    pthread_t th[MAXT];
    for (int t = 1; t <= nThreads; ++t)
        pthread_create(&th[t], nullptr, worker, reinterpret_cast<void*>(static_cast<uptr>(t)));
    top = BASE;
    while (explored < l.executions)
    {
        memset(BASE, 0xCD, top - BASE);
        top = BASE;
        blocks->clear();
        events->clear();
        mutexes->clear();
        for (int t = 0; t <= nThreads; ++t)
        {
            pendingCall[t] = nullptr;
            called[t] = done[t] = yielded[t] = false;
            spins[t] = spurious[t] = 0;
            seen[t].clear();
        }
        depth = 0;
        lastThread = preemptions = 0;
        steps = 0;
        spuriousUsed = pruned = false;
        tracking = true;
        self = 0;
        p.setup();
        ++inside;
        currentHeader = p.header();
        --inside;
        running = true;
        initial = 1;
        self = -1;
        sem[1].post();
        sem[0].wait();
        running = false;
        self = 0;
        called[0] = true;
        {
            In in;
            events->push_back({'j', 0, 0, 0, 0, false, false, "", 0});
        }
        p.teardown();
        self = -1;
        tracking = false;
        ++explored;
        if (pruned)
            ++redundant;
        else
            record();
        // the next schedule
        while (!stack->empty())
        {
            Node& n = stack->back();
            n.tried.insert(n.cur);
            int next = 0;
            const bool lastEn = std::find(n.choices.begin(), n.choices.end(), n.last) != n.choices.end();
            for (int c : n.choices)
                if (!n.sleep.count(c) && !n.tried.count(c) && (maxPreempt < 0 || !lastEn || (c & 7) == n.last || n.preempt < maxPreempt))
                {
                    next = c;
                    break;
                }
            if (next)
            {
                n.cur = next;
                break;
            }
            stack->pop_back();
        }
        if (stack->empty())
            break;
    }
    emit_kept(l.keep);
}
}
