// simrt: deterministic simulation runtime.
// * real pthreads, exactly one of which runs at a time; a seeded scheduler decides which
// * code under test is compiled with -fsanitize=thread and linked against the __tsan_* entry points below,
//   so every shared memory access and atomic is a possible preemption point, is checked for happens-before
//   data races (vector clocks) and for use of freed or out-of-bounds heap memory
// * pthread, futex, clock, sleep, malloc, new-thread calls are interposed by defining them in the executable
#include "internal.h"
#include <cerrno>
#include <exception>
#include <initializer_list>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace simi;

extern "C" char __data_start[], _end[];

namespace simi
{
    __thread int tl_fw = 0;
    __thread Thr* tl_self = nullptr;
    __thread int tl_dead = 0;
    bool g_on = false;

    // ---------------------------------------------------------------- raw system calls
    static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
        long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    static void* raw_mmap(u64 at, u64 n, int prot = PROT_READ | PROT_WRITE, int flags = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE)
    {
        return (void*)raw(SYS_mmap, (long)at, (long)n, prot, flags | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    }

    // ---------------------------------------------------------------- PRNG
    struct Rng
    {
        u64 s;
        u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        u64 below(u64 n) { return n <= 1 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); }
    };

    // ---------------------------------------------------------------- results
    constexpr int MAXK = 48, MAXP = 96;
    struct Result
    {
        volatile int status; // 0 running 1 ok 2 violation 3 skip 4 tool error
        char cls[64]; char msg[6000];
        u64 hash, schedHash, stateHash, steps, switches, schedEvents, faultsFired, simNs; int threads;
        int nk; struct { char name[24]; u64 fired, asked; int enabled; } k[MAXK];
        int np; struct { char name[40]; u64 n; } p[MAXP];
    };
    static Result* RES;

    // ---------------------------------------------------------------- run state
    struct Ev { u64 step; u32 type; u32 arg; };          // scheduler events: 'P' preempt/choose, 'T' time skip, 'U' spurious wake
    struct FEv { int kind; u64 idx; u64 val; };
    struct Kind { char name[24]; bool enabled; u64 idx, fired, asked; u32 cursor; Vec<FEv> rep; };

    enum { M_RANDOM = 0, M_PCT = 1, M_BURST = 2 };

    static struct Run
    {
        u64 seed; bool replay; Rng rs, rf, rw;
        Thr* thr[MAXT]; int nthr; int cur; int freeSlot[MAXT], nfreeSlot, nslot; bool reuseIds;
        u64 step, switches, seq; i64 now, tick, nextDeadline, timeLimit, rtOffset; u64 stepLimit; bool fair; u64 fairEnd;
        u64 hash, schedHash, stateHash;
        int mode; int memw; i64 credit; int quantum; // random/burst
        u64 pctPoint[8]; int npct; int prioLow; bool resched;
        unsigned skipPermille, spurPermille; u64 yieldPts;
        Vec<Ev> ev; u32 evCur; Vec<FEv> fev; Vec<u64> wl; u32 wlCur; bool wlReplay;
        Kind kinds[MAXK]; int nk; bool faultsOn; bool raceOn;
        unsigned ncpu; bool finished; char const* dump; char const* logPath; int logFd;
        unsigned quarantine;
        int doneFutex;
    } R;

    static char const* g_scenario = "";

    // ---------------------------------------------------------------- allocator
    struct Hdr { u64 size; u64 req; u64 magic; u32 cls; u32 fw; };
    constexpr u64 MAGIC = 0x51A10CA7EDB10C5ull, FMAGIC = 0xF4EED0F4EED0F4EEull;
    struct FreeNode { FreeNode* next; };
    struct Arena
    {
        u64 base, size, top; FreeNode* head[160]; FreeNode* tail[160]; u32 cnt[160]; u64 live, liveBytes; bool inited;
    };
    static Arena A, F;
    static u8* HS; // heap state: one byte per 8 bytes of the arena
    constexpr u64 HS_BASE = 0x130000000000ull;

    // race shadow: 4 cells of 16 bytes per 8 application bytes
    struct Cell { u32 epoch; u32 pc; u8 tid, mask, flags, used; u32 pad; };
    constexpr u64 RS_A = 0x140000000000ull, RS_S = 0x150000000000ull, RS_G = 0x160000000000ull;
    static u64 G_lo, G_hi;
    constexpr u64 ALT_BASE = 0x170000000000ull, ALT_ONE = 1 << 16;
    static Map* SV; // address -> SyncVar
    struct SyncVar { VC vc; };

    static void mem_init()
    {
        if (A.inited) return;
        A.inited = F.inited = true;
        A.base = A.top = ARENA_BASE; A.size = ARENA_SIZE; F.base = F.top = FW_BASE; F.size = FW_SIZE;
        raw_mmap(ARENA_BASE, ARENA_SIZE); raw_mmap(FW_BASE, FW_SIZE); raw_mmap(STK_BASE, STK_SIZE);
        raw_mmap(ALT_BASE, ALT_ONE * (MAXT + 1));
        HS = (u8*)raw_mmap(HS_BASE, ARENA_SIZE / 8);
        raw_mmap(RS_A, ARENA_SIZE * 8); raw_mmap(RS_S, STK_SIZE * 8);
        G_lo = (u64)__data_start & ~63ull; G_hi = ((u64)_end + 63) & ~63ull;
        raw_mmap(RS_G, (G_hi - G_lo) * 8 + 4096);
    }
    static inline Cell* cells(u64 a)
    {
        if (a - ARENA_BASE < ARENA_SIZE) return (Cell*)(RS_A + (a - ARENA_BASE) / 8 * 64);
        if (a - STK_BASE < STK_SIZE) return (Cell*)(RS_S + (a - STK_BASE) / 8 * 64);
        if (a >= G_lo && a < G_hi) return (Cell*)(RS_G + (a - G_lo) / 8 * 64);
        return nullptr;
    }
    static void shadow_clear(u64 a, u64 n)
    {
        u64 lo = RS_A + (a - ARENA_BASE) / 8 * 64, len = ((n + 7) / 8) * 64;
        if (len > (1u << 16))
        {
            u64 plo = (lo + 4095) & ~4095ull, phi = (lo + len) & ~4095ull;
            memset((void*)lo, 0, plo - lo); memset((void*)phi, 0, lo + len - phi);
            raw(SYS_madvise, (long)plo, (long)(phi - plo), MADV_DONTNEED);
        }
        else memset((void*)lo, 0, len);
    }
    static u32 cls_of(u64 n, u64& rounded)
    {
        if (n <= 1024) { rounded = (n + 15) & ~15ull; if (!rounded) rounded = 16; return (u32)(rounded / 16); } // 1..64
        u64 p = 1024; u32 c = 65;
        for (;; p *= 2) for (int q = 1; q <= 4; ++q, ++c) { u64 s = p + p / 4 * q; if (n <= s) { rounded = s; return c; } }
    }
    static void* arena_alloc(Arena& a, u64 n, u64 align)
    {
        mem_init();
        bool const app = (&a == &A);
        u64 rounded; u32 c = cls_of(n + 16, rounded);       // 16 bytes right redzone at least
        if (c >= 160) return nullptr;
        u64 user = 0;
        u32 minq = app && g_on ? R.quarantine : 0;
        if (align <= 16 && a.head[c] && a.cnt[c] > minq)
        {
            FreeNode* f = a.head[c];
            a.head[c] = f->next; if (!a.head[c]) a.tail[c] = nullptr; --a.cnt[c];
            user = (u64)f;
        }
        else
        {
            u64 p = a.top + sizeof(Hdr);
            p = (p + (align > 16 ? align : 16) - 1) & ~((align > 16 ? align : 16) - 1);
            if (p + rounded > a.base + a.size) return nullptr;
            user = p; a.top = p + rounded;
        }
        Hdr* h = (Hdr*)user - 1;
        h->size = rounded; h->req = n; h->magic = MAGIC; h->cls = align > 16 ? 0 : c; h->fw = !app;
        ++a.live; a.liveBytes += n;
        if (app)
        {
            u8* s = HS + (user - ARENA_BASE) / 8;
            memset(s - 4, 0xFA, 4); memset(s, 0, n / 8); u64 g = n / 8;
            if (n & 7) s[g++] = (u8)(n & 7);
            memset(s + g, 0xFA, rounded / 8 - g);
            shadow_clear(user, rounded);
            if (n <= 65536) memset((void*)user, 0xCD, n);
        }
        return (void*)user;
    }
    static void report_mem(char const* cls, u64 addr, u64 n, bool write, u32 pc);
    static void sync_drop(u64 a, u64 n)
    {
        if (!SV || n > 8192) return;
        for (u64 x = a; x < a + n; x += 4) if (void* p = SV->get(x)) { (void)p; SV->put(x, nullptr); }
    }
    static bool g_drop = true;
    static void arena_free(void* p)
    {
        u64 u = (u64)p;
        if (u - FW_BASE < FW_SIZE)
        {
            Hdr* h = (Hdr*)p - 1; if (h->magic != MAGIC) return; h->magic = FMAGIC; --F.live; F.liveBytes -= h->req;
            if (h->cls) { ((FreeNode*)p)->next = F.head[h->cls]; F.head[h->cls] = (FreeNode*)p; ++F.cnt[h->cls]; if (!F.tail[h->cls]) F.tail[h->cls] = (FreeNode*)p; }
            return;
        }
        if (u - ARENA_BASE >= ARENA_SIZE) return; // not ours
        Hdr* h = (Hdr*)p - 1;
        if ((u & 15) || u - sizeof(Hdr) < ARENA_BASE || h->magic != MAGIC)
        {
            if (g_on) report_mem(((u & 15) == 0 && h->magic == FMAGIC) ? "double-free" : "bad-free", u, 0, true, 0);
            return;
        }
        h->magic = FMAGIC; --A.live; A.liveBytes -= h->req;
        memset(HS + (u - ARENA_BASE) / 8, 0xFD, h->size / 8);
        if (g_on && g_drop) { ++tl_fw; sync_drop(u, h->req); --tl_fw; }
        memset(p, 0xDD, h->req < 4096 ? h->req : 4096);
        if (h->cls)
        {
            // FIFO quarantine of a per-run depth; depth 0 reuses the address at once (LIFO)
            if (g_on && R.quarantine == 0) { ((FreeNode*)p)->next = A.head[h->cls]; A.head[h->cls] = (FreeNode*)p; if (!A.tail[h->cls]) A.tail[h->cls] = (FreeNode*)p; ++A.cnt[h->cls]; return; }
            ((FreeNode*)p)->next = nullptr;
            if (A.tail[h->cls]) A.tail[h->cls]->next = (FreeNode*)p; else A.head[h->cls] = (FreeNode*)p;
            A.tail[h->cls] = (FreeNode*)p; ++A.cnt[h->cls];
        }
    }
    void* fw_alloc(u64 n) { return arena_alloc(F, n, 16); }
    void fw_free(void* p) { arena_free(p); }

    // ---------------------------------------------------------------- output helpers (no allocation)
    static void out(int fd, char const* s, size_t n) { while (n) { long w = raw(SYS_write, fd, (long)s, (long)n); if (w <= 0) break; s += w; n -= (size_t)w; } }
    static int fmt(char* b, size_t cap, char const* f, va_list ap) { ++tl_fw; int r = vsnprintf(b, cap, f, ap); --tl_fw; if (r < 0) r = 0; if ((size_t)r >= cap) r = (int)cap - 1; return r; }
    static void mixh(u64& h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

    static void write_dump()
    {
        if (!R.dump) return;
        int fd = (int)raw(SYS_open, (long)R.dump, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) return;
        static char b[1 << 16]; int n = 0;
        auto put = [&](char const* f, auto... a) { if (n > (int)sizeof b - 8192) { out(fd, b, (size_t)n); n = 0; } if constexpr (sizeof...(a) == 0) n += snprintf(b + n, sizeof b - (size_t)n, "%s", f); else n += snprintf(b + n, sizeof b - (size_t)n, f, a...); };
        ++tl_fw;
        put("scenario %s\nseed %llu\nclass %s\nhash %016llx\nsteps %llu\n", g_scenario, (unsigned long long)R.seed, RES->cls, (unsigned long long)RES->hash, (unsigned long long)R.step);
        put("message "); for (char const* m = RES->msg; *m; ++m) { if (*m == '\n') put("%s", "\\n"); else put("%c", *m); } put("%s", "\n");
        for (u32 i = 0; i < R.wl.n; ++i) put("W %llu\n", (unsigned long long)R.wl[i]);
        for (u32 i = 0; i < R.fev.n; ++i) put("F %s %llu %llu\n", R.kinds[R.fev[i].kind].name, (unsigned long long)R.fev[i].idx, (unsigned long long)R.fev[i].val);
        for (u32 i = 0; i < R.ev.n; ++i) put("E %llu %c %u\n", (unsigned long long)R.ev[i].step, (char)R.ev[i].type, R.ev[i].arg);
        out(fd, b, (size_t)n); raw(SYS_close, fd);
        --tl_fw;
    }

    [[noreturn]] static void finish(int status, char const* cls)
    {
        ++tl_fw; R.finished = true;
        strncpy(RES->cls, cls ? cls : "", sizeof RES->cls - 1);
        u64 h = R.hash; mixh(h, R.schedHash); mixh(h, R.step); mixh(h, (u64)R.now); for (char const* c = RES->cls; *c; ++c) mixh(h, (u64)(u8)*c); for (char const* c = RES->msg; *c; ++c) { if (*c == '@') { while (c[1] && c[1] != ' ' && c[1] != '\n' && c[1] != ',' && c[1] != ')' && c[1] != ']') ++c; continue; } mixh(h, (u64)(u8)*c); }
        RES->hash = h; RES->schedHash = R.schedHash; RES->stateHash = R.stateHash; RES->steps = R.step; RES->switches = R.switches; RES->schedEvents = R.ev.n;
        RES->simNs = (u64)(R.now - 1000 * sim::sec); RES->threads = R.nthr; RES->faultsFired = 0;
        RES->nk = R.nk;
        for (int i = 0; i < R.nk; ++i) { memcpy(RES->k[i].name, R.kinds[i].name, 24); RES->k[i].fired = R.kinds[i].fired; RES->k[i].asked = R.kinds[i].asked; RES->k[i].enabled = R.kinds[i].enabled; RES->faultsFired += R.kinds[i].fired; }
        if (status != 1 || R.dump) write_dump();
        RES->status = status;
        raw(SYS_exit_group, 0);
        for (;;) {}
    }

    static int stack_text(Thr* t, char* b, size_t cap)
    {
        int n = 0; ++tl_fw;
        for (int i = t->depth - 1, k = 0; i >= 0 && k < 14; --i, ++k) if (i < 256 && t->stk[i] && n < (int)cap - 16) n += snprintf(b + n, cap - (size_t)n, " @%x", t->stk[i]);
        --tl_fw; if (!n && cap) b[0] = 0; return n;
    }
    [[noreturn]] static void violation(char const* cls, char const* f, ...)
    {
        ++tl_fw; va_list ap; va_start(ap, f); int n = fmt(RES->msg, 4000, f, ap); va_end(ap);
        if (tl_self) { n += snprintf(RES->msg + n, sizeof RES->msg - (size_t)n, " | thread %d at", tl_self->id); n += stack_text(tl_self, RES->msg + n, sizeof RES->msg - (size_t)n); }
        finish(2, cls);
    }
    void tool_error(char const* f, ...) { ++tl_fw; va_list ap; va_start(ap, f); fmt(RES->msg, 4000, f, ap); va_end(ap); finish(4, "tool-error"); }
    static char const* kname(int k) { static char const* n[] = { "run", "mutex", "condition", "futex", "join", "sleep", "once", "rwlock", "io" }; return n[k]; }
    static char const* where_of(u64 addr, char* b)
    {
        if (addr - ARENA_BASE < ARENA_SIZE) snprintf(b, 80, "heap"); else if (addr - STK_BASE < STK_SIZE) snprintf(b, 80, "stack of thread %llu", (unsigned long long)((addr - STK_BASE) / STK_ONE)); else snprintf(b, 80, "global %llx", (unsigned long long)addr);
        return b;
    }
    static void report_mem(char const* cls, u64 addr, u64 n, bool write, u32 pc)
    {
        violation(cls, "%s of %llu bytes at @%x", write ? "write" : "read", (unsigned long long)n, pc); (void)addr;
    }
    [[noreturn]] static void describe_stuck(char const* cls, char const* why)
    {
        ++tl_fw; char* m = RES->msg; int n = snprintf(m, 5900, "%s:", why);
        for (int i = 0; i < R.nthr && n < 5400; ++i)
        {
            Thr* t = R.thr[i]; if (t->state == T_DONE) continue;
            n += snprintf(m + n, 5900 - (size_t)n, " thread %d %s", t->id, t->state == T_RUN ? "running" : "blocked on "); if (t->state != T_RUN) n += snprintf(m + n, 5900 - (size_t)n, "%s", kname(t->bkind));
            n += stack_text(t, m + n, 5900 - (size_t)n); n += snprintf(m + n, 5900 - (size_t)n, ";");
        }
        finish(2, cls);
    }

    // ---------------------------------------------------------------- baton
    static void futex_wait(volatile int* a, int v) { raw(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0); }
    static void futex_wake(volatile int* a) { raw(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1); }
    static void give(Thr* t) { R.cur = t->id; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex_wake(&t->go); }
    static void take(Thr* t) { while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait(&t->go, 0); t->go = 0; }
    Thr* self() { return tl_self; }
    i64 now() { return R.now; }
    i64 realtime_offset() { return R.rtOffset; }

    static void switch_to(Thr* t, bool iExit = false)
    {
        Thr* me = tl_self;
        if (t == me) return;
        ++R.switches; mixh(R.schedHash, R.seq * 64 + (u64)t->id);
        me->runlen = 0;
        give(t);
        if (!iExit) take(me);
    }

    static void recompute_deadline()
    {
        i64 d = INT64_MAX;
        for (int i = 0; i < R.nthr; ++i) if (R.thr[i]->state == T_BLOCKED && R.thr[i]->deadline >= 0 && R.thr[i]->deadline < d) d = R.thr[i]->deadline;
        R.nextDeadline = d;
    }
    void wake(Thr* t, int reason)
    {
        if (t->state != T_BLOCKED) return;
        t->state = T_RUN; t->reason = reason; t->deadline = -1; t->bobj = nullptr; recompute_deadline(); R.resched = true;
    }
    static void expire()
    {
        for (int i = 0; i < R.nthr; ++i) { Thr* t = R.thr[i]; if (t->state == T_BLOCKED && t->deadline >= 0 && t->deadline <= R.now) { t->state = T_RUN; t->reason = W_TIMEOUT; t->deadline = -1; t->bobj = nullptr; R.resched = true; } }
        recompute_deadline();
    }
    static void check_limits()
    {
        if (R.now > R.timeLimit) describe_stuck("no-progress", "scenario not finished within its simulated time limit");
        if (R.step > R.stepLimit && !R.fair) { R.fair = true; R.fairEnd = R.step + 4000000; R.faultsOn = false; R.skipPermille = 0; R.spurPermille = 0; R.credit = 200; }
        if (R.fair && R.step > R.fairEnd) describe_stuck("livelock", "no completion within the step bound under fair scheduling");
    }
    static int runnable(Thr** o, Thr* except)
    {
        int n = 0; for (int i = 0; i < R.nthr; ++i) if (R.thr[i]->state == T_RUN && R.thr[i] != except) o[n++] = R.thr[i]; return n;
    }
    static Thr* rr_next(int after) { for (int k = 1; k <= R.nthr; ++k) { Thr* t = R.thr[(after + k) % R.nthr]; if (t->state == T_RUN) return t; } return nullptr; }
    static void rec(u32 type, u32 arg) { R.ev.push(Ev{ R.step, type, arg }); }

    static void refill()
    {
        if (R.mode == M_PCT) R.credit = 64 * 64;
        else { u64 q = (u64)R.quantum; R.credit = (i64)(1 + R.rs.below(2 * q)); }
    }
    static Thr* highest(Thr** c, int n) { Thr* b = c[0]; for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i]; return b; }

    // choose whom to run when the current thread cannot go on
    static Thr* choose_next(Thr* me)
    {
        for (;;)
        {
            Thr* c[MAXT]; int n = runnable(c, me);
            if (n)
            {
                Thr* dflt = rr_next(me->id); if (dflt == me) { dflt = c[0]; }
                if (R.replay) { while (R.evCur < R.ev.n && R.ev[R.evCur].step < R.step) ++R.evCur; if (R.evCur < R.ev.n && R.ev[R.evCur].step == R.step && R.ev[R.evCur].type == 'P') { u32 a = R.ev[R.evCur++].arg; if ((int)a < R.nthr && R.thr[a]->state == T_RUN && R.thr[a] != me) return R.thr[a]; } return dflt; }
                Thr* t = R.fair ? dflt : R.mode == M_PCT ? highest(c, n) : c[R.rs.below((u64)n)];
                if (t != dflt) rec('P', (u32)t->id);
                return t;
            }
            if (me->state == T_RUN) return me;
            if (R.nextDeadline == INT64_MAX) return nullptr;
            if (R.nextDeadline > R.now) R.now = R.nextDeadline;
            expire(); check_limits();
        }
    }

    static void slow_point(Thr* me)
    {
        if (me->nosched) { R.credit = 1; return; }
        ++tl_fw;
        check_limits();
        if (R.replay)
        {
            if (R.nextDeadline <= R.now) expire();
            while (R.evCur < R.ev.n && R.ev[R.evCur].step < R.step) ++R.evCur;
            while (R.evCur < R.ev.n && R.ev[R.evCur].step == R.step)
            {
                Ev e = R.ev[R.evCur++];
                if (e.type == 'T') { if (R.nextDeadline != INT64_MAX) { if (R.nextDeadline > R.now) R.now = R.nextDeadline; expire(); } }
                else if (e.type == 'U') { if ((int)e.arg < R.nthr && R.thr[e.arg]->state == T_BLOCKED && (R.thr[e.arg]->bkind == B_COND || R.thr[e.arg]->bkind == B_FUTEX)) wake(R.thr[e.arg], W_SPURIOUS); }
                else if (e.type == 'P') { if ((int)e.arg < R.nthr && R.thr[e.arg]->state == T_RUN && R.thr[e.arg] != me) { --tl_fw; switch_to(R.thr[e.arg]); return; } }
            }
            if (R.fair) { if (R.credit <= 0) { R.credit = 200 * 64; Thr* t = rr_next(me->id); if (t && t != me) { --tl_fw; switch_to(t); return; } } }
            --tl_fw; return;
        }
        if (R.nextDeadline <= R.now) expire();
        if (R.fair)
        {
            if (R.credit <= 0) { R.credit = 200 * 64; Thr* t = rr_next(me->id); if (t && t != me) { --tl_fw; switch_to(t); return; } }
            --tl_fw; return;
        }
        bool expiry = R.credit <= 0;
        if (expiry)
        {
            if (R.skipPermille && R.nextDeadline != INT64_MAX && R.faultsOn && R.rs.below(1000) < R.skipPermille) { rec('T', 0); for (int i = 0; i < R.nk; ++i) if (!strcmp(R.kinds[i].name, "time_skip")) ++R.kinds[i].fired; if (R.nextDeadline > R.now) R.now = R.nextDeadline; expire(); check_limits(); }
            if (R.spurPermille && R.faultsOn && R.rs.below(1000) < R.spurPermille)
            {
                Thr* c[MAXT]; int n = 0; for (int i = 0; i < R.nthr; ++i) if (R.thr[i]->state == T_BLOCKED && (R.thr[i]->bkind == B_COND || R.thr[i]->bkind == B_FUTEX)) c[n++] = R.thr[i];
                if (n) { Thr* t = c[R.rs.below((u64)n)]; rec('U', (u32)t->id); for (int i = 0; i < R.nk; ++i) if (!strcmp(R.kinds[i].name, "spurious_wakeup")) ++R.kinds[i].fired; wake(t, W_SPURIOUS); }
            }
        }
        Thr* to = nullptr;
        Thr* c[MAXT];
        if (R.mode == M_PCT)
        {
            while (R.npct && R.step >= R.pctPoint[R.npct - 1]) { --R.npct; me->prio = --R.prioLow; }
            if (me->runlen > 20000) { me->prio = --R.prioLow; R.resched = true; }
            R.resched = false;
            int n = runnable(c, nullptr); Thr* h = highest(c, n); if (h != me) to = h;
        }
        else if (expiry)
        {
            int n = runnable(c, me); if (n) to = c[R.rs.below((u64)n)];
        }
        if (expiry) refill();
        if (to) { rec('P', (u32)to->id); --tl_fw; switch_to(to); return; }
        --tl_fw;
    }
    // fast path of every instrumented operation
    static inline void point(Thr* me, int w)
    {
        ++R.step; R.now += R.tick; ++me->runlen; R.credit -= w;
        if (R.replay)
        {
            if ((R.evCur < R.ev.n && R.ev[R.evCur].step <= R.step) || R.nextDeadline <= R.now || R.now > R.timeLimit || R.step > R.stepLimit || R.fair) slow_point(me);
            return;
        }
        if (R.credit <= 0 || R.nextDeadline <= R.now || R.now > R.timeLimit || R.step > R.stepLimit) slow_point(me);
        else if (R.mode == M_PCT && (R.resched || (R.npct && R.step >= R.pctPoint[R.npct - 1]))) slow_point(me);
    }
    void sync_point() { Thr* me = tl_self; ++R.seq; ++tl_fw; point(me, 64); --tl_fw; }

    int block(int kind, void* obj, i64 deadline)
    {
        Thr* me = tl_self; ++tl_fw; ++R.step; ++R.seq;
        me->state = T_BLOCKED; me->bkind = kind; me->bobj = obj; me->deadline = deadline; me->reason = W_NONE;
        recompute_deadline();
        if (R.nextDeadline <= R.now) expire();
        if (me->state == T_RUN) { --tl_fw; return me->reason; }
        if (!R.replay && !R.fair && R.skipPermille && R.faultsOn && R.nextDeadline != INT64_MAX && R.rs.below(1000) < R.skipPermille)
        {
            rec('T', 0); for (int i = 0; i < R.nk; ++i) if (!strcmp(R.kinds[i].name, "time_skip")) ++R.kinds[i].fired; if (R.nextDeadline > R.now) R.now = R.nextDeadline; expire();
        }
        else if (R.replay)
        {
            while (R.evCur < R.ev.n && R.ev[R.evCur].step < R.step) ++R.evCur;
            if (R.evCur < R.ev.n && R.ev[R.evCur].step == R.step && R.ev[R.evCur].type == 'T') { ++R.evCur; if (R.nextDeadline != INT64_MAX) { if (R.nextDeadline > R.now) R.now = R.nextDeadline; expire(); } }
        }
        Thr* t = me->state == T_RUN ? me : nullptr;
        if (!t)
        {
            t = choose_next(me);
            if (!t) describe_stuck("deadlock", "every thread is blocked");
        }
        if (t != me) switch_to(t);
        --tl_fw;
        return me->reason;
    }
    int wake_obj(int kind, void* obj, int n)
    {
        Thr* c[MAXT]; int m = 0;
        for (int i = 0; i < R.nthr; ++i) { Thr* t = R.thr[i]; if (t->state == T_BLOCKED && t->bkind == kind && t->bobj == obj) c[m++] = t; }
        int woken = 0;
        if (n >= m) { for (int i = 0; i < m; ++i) { wake(c[i], W_SIGNAL); ++woken; } return woken; }
        while (n-- > 0 && m > 0)
        {
            u64 k = sim::fault_value("wake_choice", (u64)m);
            wake(c[k], W_SIGNAL); ++woken; for (int i = (int)k + 1; i < m; ++i) c[i - 1] = c[i]; --m;
        }
        return woken;
    }

    // ---------------------------------------------------------------- happens-before
    static SyncVar* sv(u64 a, bool make)
    {
        if (!SV) { SV = (Map*)fw_alloc(sizeof(Map)); *SV = Map{}; }
        SyncVar* s = (SyncVar*)SV->get(a);
        if (!s && make) { s = (SyncVar*)fw_alloc(sizeof(SyncVar)); s->vc.clear(); SV->put(a, s); }
        return s;
    }
    static void bump(Thr* t) { ++t->vc.c[t->id]; }
    void hb_release(void* a, bool join) { Thr* t = tl_self; ++tl_fw; SyncVar* s = sv((u64)a, true); if (join) s->vc.join(t->vc); else s->vc = t->vc; bump(t); --tl_fw; }
    void hb_acquire(void* a) { Thr* t = tl_self; ++tl_fw; if (SyncVar* s = sv((u64)a, false)) t->vc.join(s->vc); --tl_fw; }

    void check_heap(void const* p, u64 n, bool write, u32 pc)
    {
        u64 a = (u64)p; if (a - ARENA_BASE >= ARENA_SIZE || !n) return;
        u8* s = HS + (a - ARENA_BASE) / 8; u64 last = (a + n - 1 - ARENA_BASE) / 8, first = (a - ARENA_BASE) / 8;
        for (u64 g = first; g <= last; ++g, ++s)
        {
            u8 v = *s; if (!v) continue;
            if (v < 8) { u64 e = g == last ? ((a + n - 1) & 7) + 1 : 8; if (e <= v) continue; report_mem("heap-overflow", a, n, write, pc); }
            if (v == 0xFD) report_mem("use-after-free", a, n, write, pc);
            if (v == 0xFA) report_mem("heap-overflow", a, n, write, pc);
        }
    }

    static inline void race_check(Thr* t, u64 a, u64 n, bool write, bool atomic, u32 pc)
    {
        while (n)
        {
            u64 off = a & 7, len = 8 - off < n ? 8 - off : n; u8 mask = (u8)(((1u << len) - 1) << off);
            Cell* c = cells(a); if (!c) return;
            int slot = -1; u32 ep = t->vc.c[t->id];
            for (int i = 0; i < 4; ++i)
            {
                Cell& k = c[i];
                if (!k.used) { if (slot < 0) slot = i; continue; }
                bool const kw = k.flags & 1, ka = k.flags & 2;
                if (k.tid == t->id) { if (k.mask == mask && kw == write && ka == atomic) { slot = i; } else if ((k.mask & mask) == k.mask && write && !kw && slot < 0) slot = i; continue; }
                bool const ordered = k.epoch <= t->vc.c[k.tid];
                if (ordered) { if ((k.mask & mask) == k.mask && slot < 0 && (write || !kw)) slot = i; continue; }
                if ((k.mask & mask) && (write || kw) && !(atomic && ka))
                {
                    char b[80];
                    violation("data-race", "%s%s of %llu bytes on the %s at @%x conflicts with %s%s by thread %d at @%x", atomic ? "atomic " : "", write ? "write" : "read", (unsigned long long)len, where_of(a, b), pc, ka ? "atomic " : "", kw ? "write" : "read", k.tid, k.pc);
                }
            }
            if (slot < 0) slot = (int)((R.step + (a >> 3)) & 3);
            Cell& k = c[slot]; k.used = 1; k.tid = (u8)t->id; k.mask = mask; k.flags = (u8)((write ? 1 : 0) | (atomic ? 2 : 0)); k.epoch = ep; k.pc = pc;
            a += len; n -= len;
        }
    }
    static inline void access(u64 a, u64 n, bool write, u32 pc)
    {
        if (!g_on) return;
        if (tl_fw) return;
        Thr* t = tl_self; if (!t) return;
        ++tl_fw;
        if (a - (STK_BASE + STK_ONE * (u64)t->slot) >= STK_ONE) { point(t, R.memw); if (a - ARENA_BASE < ARENA_SIZE) check_heap((void*)a, n, write, pc); }
        if (R.raceOn) race_check(t, a, n, write, false, pc);
        --tl_fw;
    }

    // ---------------------------------------------------------------- threads
    static pthread_key_t g_key; static bool g_keyMade;
    static int (*real_create)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
    static int (*real_detach)(pthread_t);
    template <typename Fn> static void real(Fn& f, char const* n) { if (!f) { f = (Fn)dlsym(RTLD_NEXT, n); } }

    static Thr* new_thr(void* (*fn)(void*), void* arg)
    {
        if (R.nthr >= MAXT) { strcpy(RES->msg, "too many simulated threads"); finish(3, "skip"); }
        Thr* t = (Thr*)fw_alloc(sizeof(Thr)); memset((void*)t, 0, sizeof *t);
        t->id = R.nthr; t->slot = R.nfreeSlot ? R.freeSlot[--R.nfreeSlot] : R.nslot++; t->fn = fn; t->arg = arg; t->state = T_RUN; t->deadline = -1; t->prio = 1000 + (int)R.rs.below(1000000); t->vc.c[t->id] = 1;
        R.thr[R.nthr++] = t; return t;
    }
    static void thread_end(void* v)
    {
        Thr* t = (Thr*)v;
        // run after all other thread-specific destructors: re-arm until the last destructor pass
        if (++t->keyPass < 4) { pthread_setspecific(g_key, t); return; }
        ++tl_fw; ++R.step; ++R.seq;
        t->joinvc = t->vc; bump(t);
        t->state = T_DONE;
        for (int i = 0; i < R.nthr; ++i) if (R.thr[i]->state == T_BLOCKED && R.thr[i]->bkind == B_JOIN && R.thr[i]->bobj == t) wake(R.thr[i], W_SIGNAL);
        Thr* n = choose_next(t);
        if (!n) { describe_stuck("deadlock", "every thread is blocked"); }
        tl_dead = 1;
        ++R.switches; mixh(R.schedHash, R.seq * 64 + (u64)n->id);
        give(n);
    }
    static void* trampoline(void* v)
    {
        Thr* t = (Thr*)v; ++tl_fw; tl_self = t; take(t);
        { stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = (void*)(ALT_BASE + (u64)t->id * ALT_ONE); ss.ss_size = ALT_ONE; raw(SYS_sigaltstack, (long)&ss, 0); }
        pthread_setspecific(g_key, t);
        --tl_fw;
        void* r = t->fn(t->arg);
        t->ret = r;
        return r; // TLS destructors run next, then thread_end through the key destructor
    }
    static int spawn(Thr* t)
    {
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)(STK_BASE + STK_ONE * (u64)t->slot), STK_ONE);
        real(real_create, "pthread_create");
        int e = real_create(&t->real, &at, trampoline, t); pthread_attr_destroy(&at); return e;
    }
    static Thr* by_real(pthread_t p) { for (int i = R.nthr; i-- > 0;) if (pthread_equal(R.thr[i]->real, p)) return R.thr[i]; return nullptr; }
}

// ==================================================================== interposed: memory
static void* do_malloc(u64 n, u64 align)
{
    if (active())
    {
        Thr* t = tl_self;
        if (t->allocFailAt > 0 && --t->allocFailAt == 0) { t->allocFailFired = true; sim::probe("alloc_fail_at"); errno = ENOMEM; return nullptr; }
        if (t->allocFaultPermille && sim::fault("alloc_failure", t->allocFaultPermille)) { t->allocFailFired = true; errno = ENOMEM; return nullptr; }
    }
    if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    ++tl_fw; void* p = arena_alloc(tl_fw > 1 ? F : A, n, align); --tl_fw;
    if (!p) { errno = ENOMEM; if (g_on) tool_error("arena exhausted (%llu)", (unsigned long long)n); }
    return p;
}
extern "C" {
// glibc ends the process when it cannot record a thread-exit destructor: such allocations are not failed
int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* d)
{
    static int (*r)(void (*)(void*), void*, void*); real(r, "__cxa_thread_atexit_impl");
    ++tl_fw; int x = r(f, o, d); --tl_fw; return x;
}
void* malloc(size_t n) { return do_malloc(n, 16); }
void free(void* p) { if (!p || tl_dead) return; arena_free(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = do_malloc(n, 16); if (p) { ++tl_fw; memset(p, 0, n); --tl_fw; } return p; }
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    Hdr* h = (Hdr*)p - 1; u64 o = h->req; 
    if (g_on && h->magic != MAGIC) report_mem("bad-free", (u64)p, 0, true, 0);
    bool fwb = h->fw; if (fwb) ++tl_fw; void* q = do_malloc(n, 16); if (fwb) --tl_fw;
    if (!q) return nullptr; ++tl_fw; memcpy(q, p, o < n ? o : n); --tl_fw; free(p); return q;
}
void* reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void* memalign(size_t al, size_t n) { return do_malloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return do_malloc(n, al); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = do_malloc(n, al); if (!p) return ENOMEM; *o = p; return 0; }
void* valloc(size_t n) { return do_malloc(n, 4096); }
void* pvalloc(size_t n) { return do_malloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->req : 0; }
void cfree(void* p) { free(p); }
}

// ==================================================================== interposed: threads and synchronisation
static void use_obj(void const* p, u64 n) { check_heap(p, n, true, 0); }
#define MX(m) ((m)->__data)
static int mkind(pthread_mutex_t* m) { return MX(m).__kind & 3; }
static bool mx_try(pthread_mutex_t* m, int& err)
{
    int me = tl_self->id + 1;
    if (!MX(m).__lock) { MX(m).__lock = 1; MX(m).__owner = me; MX(m).__count = 1; hb_acquire(m); err = 0; return true; }
    if (MX(m).__owner == me)
    {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { ++MX(m).__count; err = 0; return true; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) { err = EDEADLK; return true; }
    }
    return false;
}
static int mx_lock(pthread_mutex_t* m, i64 deadline)
{
    Fw fw; int e;
    use_obj(m, sizeof *m); sync_point();
    for (;;)
    {
        if (mx_try(m, e)) return e;
        if (deadline >= 0 && R.now >= deadline) return ETIMEDOUT;
        block(B_MUTEX, m, deadline);
        use_obj(m, sizeof *m);
    }
}
static int mx_unlock(pthread_mutex_t* m, bool pt = true)
{
    Fw fw; use_obj(m, sizeof *m);
    if (MX(m).__owner != tl_self->id + 1 || !MX(m).__lock)
    {
        if (mkind(m) == PTHREAD_MUTEX_NORMAL || mkind(m) == PTHREAD_MUTEX_ADAPTIVE_NP) violation("bad-unlock", "mutex unlocked by a thread that does not own it");
        return EPERM;
    }
    if (--MX(m).__count > 0) return 0;
    MX(m).__lock = 0; MX(m).__owner = 0; hb_release(m, true); wake_obj(B_MUTEX, m, MAXT);
    if (pt) sync_point();
    return 0;
}
static i64 abs_deadline(clockid_t c, timespec const* ts) { i64 d = ts->tv_sec * 1000000000ll + ts->tv_nsec; if (c == CLOCK_REALTIME) d -= R.rtOffset; return d < 0 ? 0 : d; }
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline)
{
    Fw fw; use_obj(c, sizeof *c); use_obj(m, sizeof *m);
    sync_point();
    unsigned cnt = MX(m).__count;
    if (MX(m).__owner != tl_self->id + 1) return EPERM;
    MX(m).__lock = 0; MX(m).__owner = 0; MX(m).__count = 0; hb_release(m, true); wake_obj(B_MUTEX, m, MAXT);
    int r = (deadline >= 0 && R.now >= deadline) ? (sync_point(), W_TIMEOUT) : block(B_COND, c, deadline);
    if (r == W_SIGNAL) hb_acquire(c);
    use_obj(m, sizeof *m);
    int e; while (!mx_try(m, e)) { block(B_MUTEX, m, -1); use_obj(m, sizeof *m); }
    MX(m).__count = cnt;
    return r == W_TIMEOUT ? ETIMEDOUT : 0;
}
extern "C" {
int pthread_create(pthread_t* o, pthread_attr_t const* at, void* (*fn)(void*), void* arg)
{
    if (!active()) { real(real_create, "pthread_create"); return real_create(o, at, fn, arg); }
    Fw fw; sync_point();
    if (tl_self && tl_self->threadFaults && sim::fault("thread_create_failure", 300)) return EAGAIN;
    Thr* t = new_thr(fn, arg); int e = spawn(t); if (e) { tool_error("pthread_create: %d", e); return e; }
    int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED;
    *o = t->real; t->vc.join(tl_self->vc); bump(tl_self);
    R.resched = true; sync_point(); return 0;
}
int pthread_join(pthread_t p, void** r)
{
    if (!active()) { static int (*f)(pthread_t, void**); real(f, "pthread_join"); return f(p, r); }
    Fw fw; Thr* t = by_real(p); sync_point();
    if (!t || t->joined || t->detached) return t ? EINVAL : ESRCH;
    if (t == tl_self) return EDEADLK;
    while (t->state != T_DONE) block(B_JOIN, t, -1);
    t->joined = true; tl_self->vc.join(t->joinvc); if (r) *r = t->ret;
    if (R.reuseIds) // as glibc does: the next thread gets the stack, and with it the thread id, of the one joined last
    {
        static int (*f)(pthread_t, void**); real(f, "pthread_join"); void* rv; f(p, &rv); // it is past its last step: the thread itself ends now
        u64 const lo = RS_S + STK_ONE / 8 * 64 * (u64)t->slot; raw(SYS_madvise, (long)lo, (long)(STK_ONE / 8 * 64), MADV_DONTNEED); R.freeSlot[R.nfreeSlot++] = t->slot;
    }
    return 0;
}
int pthread_detach(pthread_t p) { if (!active()) { real(real_detach, "pthread_detach"); return real_detach(p); } Fw fw; Thr* t = by_real(p); if (!t) return ESRCH; if (t->detached || t->joined) return EINVAL; t->detached = true; return 0; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) { int k = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &k); memset(m, 0, sizeof *m); MX(m).__kind = k; if (g_on && tl_self) { Fw fw; if (SV) SV->put((u64)m, nullptr); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (active()) { Fw fw; use_obj(m, sizeof *m); if (MX(m).__lock) violation("mutex-destroyed-locked", "mutex destroyed while locked"); if (SV) SV->put((u64)m, nullptr); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return 0; return mx_lock(m, -1); }
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) { if (!active()) return 0; return mx_lock(m, abs_deadline(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* ts) { if (!active()) return 0; return mx_lock(m, abs_deadline(c, ts)); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return 0; Fw fw; use_obj(m, sizeof *m); sync_point(); int e; if (mx_try(m, e)) return e == EDEADLK ? EBUSY : e; return EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return 0; return mx_unlock(m); }
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const* a) { clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); memset(c, 0, sizeof *c); ((u32*)c)[0] = (u32)k; return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (active()) { Fw fw; use_obj(c, sizeof *c); } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return 0; return cv_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts) { if (!active()) return 0; return cv_wait(c, m, abs_deadline((clockid_t)((u32*)c)[0], ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* ts) { if (!active()) return 0; return cv_wait(c, m, abs_deadline(k, ts)); }
static int cv_notify(pthread_cond_t* c, int n) { if (!active()) return 0; Fw fw; use_obj(c, sizeof *c); sync_point(); hb_release(c, true); wake_obj(B_COND, c, n); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { return cv_notify(c, 1); }
int pthread_cond_broadcast(pthread_cond_t* c) { return cv_notify(c, MAXT); }
// rwlock: state kept in the object: [0]=readers, [1]=writer tid+1
static int rw_lock(pthread_rwlock_t* l, bool w, bool tr, i64 dl)
{
    if (!active()) return 0; Fw fw; use_obj(l, sizeof *l); sync_point(); u32* s = (u32*)l;
    for (;;)
    {
        if (w ? (!s[0] && !s[1]) : !s[1]) { if (w) s[1] = (u32)tl_self->id + 1; else ++s[0]; hb_acquire(l); return 0; }
        if (s[1] == (u32)tl_self->id + 1 && !tr) return EDEADLK;
        if (tr) return EBUSY;
        if (dl >= 0 && R.now >= dl) return ETIMEDOUT;
        block(B_RW, l, dl);
    }
}
int pthread_rwlock_init(pthread_rwlock_t* l, pthread_rwlockattr_t const*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, -1); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, timespec const* t) { return rw_lock(l, false, false, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, timespec const* t) { return rw_lock(l, true, false, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, timespec const* t) { return rw_lock(l, false, false, abs_deadline(c, t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, timespec const* t) { return rw_lock(l, true, false, abs_deadline(c, t)); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!active()) return 0; Fw fw; use_obj(l, sizeof *l); u32* s = (u32*)l;
    if (s[1]) s[1] = 0; else if (s[0]) --s[0];
    hb_release(l, true); wake_obj(B_RW, l, MAXT); sync_point(); return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    volatile int* s = (volatile int*)o;
    if (!active()) { if (*s != 2) { *s = 1; fn(); *s = 2; } return 0; }
    { Fw fw; sync_point(); while (*s == 1) block(B_ONCE, o, -1); if (*s == 2) { hb_acquire(o); return 0; } *s = 1; }
    struct G { volatile int* s; bool ok = false; ~G() { Fw fw; *s = ok ? 2 : 0; hb_release((void*)s, true); wake_obj(B_ONCE, (void*)s, MAXT); } } g{ s };
    fn(); g.ok = true; return 0;
}
int __cxa_guard_acquire(u64* g)
{
    volatile u8* b = (volatile u8*)g;
    if (b[0]) { if (active()) { Fw fw; hb_acquire(g); } return 0; }
    if (!active()) { if (b[1]) { return 1; } b[1] = 1; return 1; }
    Fw fw; sync_point();
    for (;;)
    {
        if (b[0]) { hb_acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; b[2] = (u8)(tl_self->id + 1); return 1; }
        if (b[2] == tl_self->id + 1) violation("recursive-init", "recursive initialisation of a function-local static");
        block(B_ONCE, g, -1);
    }
}
void __cxa_guard_release(u64* g) { volatile u8* b = (volatile u8*)g; if (active()) { Fw fw; b[0] = 1; b[1] = 0; hb_release(g, true); wake_obj(B_ONCE, g, MAXT); sync_point(); } else { b[0] = 1; b[1] = 0; } }
void __cxa_guard_abort(u64* g) { volatile u8* b = (volatile u8*)g; if (active()) { Fw fw; b[1] = 0; b[2] = 0; hb_release(g, true); wake_obj(B_ONCE, g, MAXT); } else b[1] = 0; }

// ==================================================================== interposed: time
static void do_yield(Thr* me)
{
    // give way: somebody else runs if anybody can
    ++R.step; ++R.seq; R.now += R.tick + 1000; if (R.nextDeadline <= R.now) expire(); check_limits();
    if (R.mode == M_PCT && !R.replay) me->prio = --R.prioLow;
    Thr* c[MAXT]; int n = runnable(c, me);
    if (!n)
    {
        // spinning on yield alone: let time pass
        if (me->runlen > 64 && R.nextDeadline != INT64_MAX) { R.now = R.nextDeadline > R.now ? R.nextDeadline : R.now; expire(); check_limits(); n = runnable(c, me); }
        if (!n) return;
    }
    Thr* t = choose_next(me);
    if (t && t != me) switch_to(t);
}
int sched_yield() { if (!active()) return (int)raw(SYS_sched_yield); Fw fw; do_yield(tl_self); return 0; }
static int do_sleep(i64 dl) { Fw fw; sync_point(); if (R.now >= dl) { do_yield(tl_self); return 0; } while (R.now < dl) block(B_SLEEP, nullptr, dl); return 0; }
int nanosleep(timespec const* a, timespec* r) { if (!active()) return (int)raw(SYS_nanosleep, (long)a, (long)r); return do_sleep(R.now + a->tv_sec * 1000000000ll + a->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, timespec const* a, timespec* r) { if (!active()) return (int)-raw(SYS_clock_nanosleep, c, fl, (long)a, (long)r); return do_sleep((fl & TIMER_ABSTIME) ? abs_deadline(c, a) : R.now + a->tv_sec * 1000000000ll + a->tv_nsec); }
int usleep(useconds_t u) { if (!active()) { timespec t{ u / 1000000, (long)(u % 1000000) * 1000 }; return (int)raw(SYS_nanosleep, (long)&t, 0); } return do_sleep(R.now + (i64)u * 1000); }
unsigned sleep(unsigned s) { if (!active()) { timespec t{ s, 0 }; raw(SYS_nanosleep, (long)&t, 0); return 0; } do_sleep(R.now + (i64)s * 1000000000ll); return 0; }
int clock_gettime(clockid_t c, timespec* o)
{
    if (!g_on || !tl_self) return (int)raw(SYS_clock_gettime, c, (long)o);
    i64 t = R.now; if (!tl_fw) { Fw fw; R.now += 20; sync_point(); t = R.now; }
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += R.rtOffset;
    o->tv_sec = t / 1000000000; o->tv_nsec = t % 1000000000; return 0;
}
int clock_getres(clockid_t, timespec* o) { if (o) { o->tv_sec = 0; o->tv_nsec = 1; } return 0; }
int gettimeofday(timeval* tv, void*) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t* o) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
clock_t clock() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; }

static long sim_futex(int* addr, int op, int val, timespec const* to)
{
    Fw fw; op &= ~(FUTEX_PRIVATE_FLAG); bool rt = op & FUTEX_CLOCK_REALTIME; op &= ~FUTEX_CLOCK_REALTIME;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
        i64 dl = -1; if (to) dl = op == FUTEX_WAIT ? R.now + to->tv_sec * 1000000000ll + to->tv_nsec : abs_deadline(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
        check_heap(addr, 4, false, 0);
        sync_point();
        if (*(volatile int*)addr != val) { errno = EAGAIN; return -1; }
        if (dl >= 0 && R.now >= dl) { errno = ETIMEDOUT; return -1; }
        int r = block(B_FUTEX, addr, dl);
        if (r == W_TIMEOUT) { errno = ETIMEDOUT; return -1; }
        if (r == W_SPURIOUS) { errno = EINTR; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { sync_point(); return wake_obj(B_FUTEX, addr, val > MAXT || val < 0 ? MAXT : val); }
    errno = ENOSYS; return -1;
}
long syscall(long n, ...)
{
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (active())
    {
        if (n == SYS_futex) return sim_futex((int*)a, (int)b, (int)c, (timespec const*)d);
        if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (timespec*)b);
        if (n == SYS_gettid) return 1000 + tl_self->id;
        if (n == SYS_sched_yield) return sched_yield();
        if (n == SYS_getrandom) { Fw fw; for (long i = 0; i < b; ++i) ((u8*)a)[i] = (u8)R.rw.next(); return b; }
    }
    long r = raw(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
int get_nprocs() { return g_on ? (int)R.ncpu : (int)8; }
int get_nprocs_conf() { return get_nprocs(); }
static bool getrnd(void* p, size_t n) { if (!g_on) { for (size_t i = 0; i < n; ++i) ((u8*)p)[i] = (u8)(i * 37 + 11); return true; } Fw fw; for (size_t i = 0; i < n; ++i) ((u8*)p)[i] = (u8)R.rf.next(); return true; }
int getentropy(void* p, size_t n) { getrnd(p, n); return 0; }
ssize_t getrandom(void* p, size_t n, unsigned) { getrnd(p, n); return (ssize_t)n; }
u32 arc4random() { u32 v; getrnd(&v, 4); return v; }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { u32 v; getrnd(&v, 4); return v; }
int rand_s_unused;

void abort()
{
    if (g_on && tl_self && !R.finished) { ++tl_fw; violation("terminate", "process aborted (std::terminate, assert or abort)"); }
    raw(SYS_kill, raw(SYS_getpid), SIGABRT); for (;;) raw(SYS_exit_group, 134);
}
void __assert_fail(char const* e, char const* f, unsigned l, char const*) { if (g_on) { ++tl_fw; violation("assert", "assertion failed: %s (%s:%u)", e, f, l); } char b[512]; int n = snprintf(b, sizeof b, "assert %s %s:%u\n", e, f, l); out(2, b, (size_t)n); raw(SYS_exit_group, 134); for (;;) {} }
void __stack_chk_fail() { violation("stack-smash", "stack protector"); }
}

// ==================================================================== __tsan_* entry points
#define PC() ((u32)(u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (!g_on || tl_fw) return; Thr* t = tl_self; if (!t) return; if (t->depth < 256) t->stk[t->depth] = (u64)pc >> 31 ? 0 : (u32)(u64)pc; ++t->depth; }
void __tsan_func_exit() { if (!g_on || tl_fw) return; Thr* t = tl_self; if (!t) return; if (t->depth > 0) --t->depth; }
#define RW(n) void __tsan_read##n(void* a) { access((u64)a, n, false, PC()); } void __tsan_write##n(void* a) { access((u64)a, n, true, PC()); } \
    void __tsan_unaligned_read##n(void* a) { access((u64)a, n, false, PC()); } void __tsan_unaligned_write##n(void* a) { access((u64)a, n, true, PC()); } \
    void __tsan_volatile_read##n(void* a) { access((u64)a, n, false, PC()); } void __tsan_volatile_write##n(void* a) { access((u64)a, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((u64)a, n, false, PC()); }
void __tsan_write_range(void* a, size_t n) { access((u64)a, n, true, PC()); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((u64)p, 8, true, PC()); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, false, PC()); }
}
namespace
{
    enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
    inline bool isacq(int m) { return m == mo_consume || m == mo_acquire || m == mo_acq_rel || m == mo_seq_cst; }
    inline bool isrel(int m) { return m == mo_release || m == mo_acq_rel || m == mo_seq_cst; }
    struct At
    {
        bool on; Thr* t; u64 a;
        At(void const volatile* p, u64 n, bool write, u32 pc) : on{ active() }, t{ tl_self }, a{ (u64)p }
        {
            if (!on) return;
            ++tl_fw; ++R.seq; point(t, 64); check_heap((void const*)p, n, write, pc); if (R.raceOn) race_check(t, a, n, write, true, pc);
        }
        ~At() { if (on) --tl_fw; }
        void load(int mo) { if (!on) return; SyncVar* s = sv(a, false); if (!s) return; if (isacq(mo)) t->vc.join(s->vc); else { if (!t->hasAcq) { t->acqPend.clear(); t->hasAcq = true; } t->acqPend.join(s->vc); } }
        void store(int mo)
        {
            if (!on) return;
            if (isrel(mo)) { sv(a, true)->vc = t->vc; bump(t); }
            else if (t->hasRel) { sv(a, true)->vc = t->relFence; }
            else if (SyncVar* s = sv(a, false)) s->vc.clear();
        }
        void rmw(int mo)
        {
            if (!on) return;
            load(mo);
            if (isrel(mo)) { sv(a, true)->vc.join(t->vc); bump(t); }
            else if (t->hasRel) sv(a, true)->vc.join(t->relFence);
        }
    };
    VC g_scvc;
}
typedef unsigned __int128 u128;
#define ATOMIC(N, T) \
extern "C" T __tsan_atomic##N##_load(T const volatile* p, int mo) { At x(p, sizeof(T), false, PC()); T v = *p; x.load(mo); return v; } \
extern "C" void __tsan_atomic##N##_store(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); *p = v; x.store(mo); } \
extern "C" T __tsan_atomic##N##_exchange(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = v; x.rmw(mo); return o; } \
extern "C" T __tsan_atomic##N##_fetch_add(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = (T)(o + v); x.rmw(mo); return o; } \
extern "C" T __tsan_atomic##N##_fetch_sub(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = (T)(o - v); x.rmw(mo); return o; } \
extern "C" T __tsan_atomic##N##_fetch_and(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = (T)(o & v); x.rmw(mo); return o; } \
extern "C" T __tsan_atomic##N##_fetch_or(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = (T)(o | v); x.rmw(mo); return o; } \
extern "C" T __tsan_atomic##N##_fetch_xor(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = (T)(o ^ v); x.rmw(mo); return o; } \
extern "C" T __tsan_atomic##N##_fetch_nand(T volatile* p, T v, int mo) { At x(p, sizeof(T), true, PC()); T o = *p; *p = (T)~(o & v); x.rmw(mo); return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(T volatile* p, T* c, T v, int mo, int fmo) { At x(p, sizeof(T), true, PC()); T o = *p; if (o == *c) { *p = v; x.rmw(mo); return 1; } x.load(fmo); *c = o; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(T volatile* p, T* c, T v, int mo, int fmo) { At x(p, sizeof(T), true, PC()); T o = *p; if (o == *c && !(x.on && sim::fault("weak_cas_failure", 50))) { *p = v; x.rmw(mo); return 1; } x.load(fmo); *c = o; return 0; } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(T volatile* p, T c, T v, int mo, int fmo) { At x(p, sizeof(T), true, PC()); T o = *p; if (o == c) { *p = v; x.rmw(mo); } else x.load(fmo); return o; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64) ATOMIC(128, u128)
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (!active()) return; Thr* t = tl_self; Fw fw; ++R.seq; point(t, 64);
    if (isacq(mo) && t->hasAcq) t->vc.join(t->acqPend);
    if (mo == mo_seq_cst) { t->vc.join(g_scvc); g_scvc.join(t->vc); }
    if (isrel(mo)) { t->relFence = t->vc; t->hasRel = true; bump(t); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}
// annotations used by libstdc++ when built with -fsanitize=thread
extern "C" {
void __tsan_acquire(void* a) { if (active()) hb_acquire(a); }
void __tsan_release(void* a) { if (active()) hb_release(a, true); }
void AnnotateHappensBefore(char const*, int, void* a) { if (active()) hb_release(a, true); }
void AnnotateHappensAfter(char const*, int, void* a) { if (active()) hb_acquire(a); }
void __tsan_mutex_create(void*, unsigned) {} void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {} void __tsan_mutex_post_lock(void* a, unsigned, int) { if (active()) hb_acquire(a); }
int __tsan_mutex_pre_unlock(void* a, unsigned) { if (active()) hb_release(a, true); return 0; } void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {} void __tsan_mutex_post_signal(void*, unsigned) {} void __tsan_mutex_pre_divert(void*, unsigned) {} void __tsan_mutex_post_divert(void*, unsigned) {}
void* __tsan_get_current_fiber() { return nullptr; } void* __tsan_create_fiber(unsigned) { return nullptr; } void __tsan_destroy_fiber(void*) {} void __tsan_switch_to_fiber(void*, unsigned) {} void __tsan_set_fiber_name(void*, char const*) {}
}
namespace simi { void access_range(void const* p, u64 n, bool w, u32 pc) { if (n && active()) access((u64)p, n, w, pc); } }

// ==================================================================== public interface
namespace sim
{
    static Kind& kind(char const* n)
    {
        for (int i = 0; i < R.nk; ++i) if (!strcmp(R.kinds[i].name, n)) return R.kinds[i];
        if (R.nk >= MAXK) tool_error("too many fault kinds");
        Kind& k = R.kinds[R.nk++]; strncpy(k.name, n, 23); k.enabled = false; return k;
    }
    std::uint64_t rnd(std::uint64_t n)
    {
        Fw fw; u64 v;
        if (R.wlReplay) { v = R.wlCur < R.wl.n ? R.wl[R.wlCur] : 0; ++R.wlCur; if (n && v >= n) v = n - 1; }
        else { v = R.rw.below(n); R.wl.push(v); }
        return v;
    }
    static u64 decide(Kind& k, u64 n, unsigned permille, bool always)
    {
        u64 idx = k.idx++; u64 v = 0; ++k.asked;
        if (R.replay) { while (k.cursor < k.rep.n && k.rep[k.cursor].idx < idx) ++k.cursor; if (k.cursor < k.rep.n && k.rep[k.cursor].idx == idx) v = k.rep[k.cursor].val; if (v >= n) v = n - 1; }
        else if (!R.faultsOn && !always) v = 0;
        else if (n == 2 && !always) v = R.rf.below(1000) < permille;
        else v = R.rf.below(n);
        if (v) { mixh(R.hash, idx * 31 + v); if (!R.replay) R.fev.push(FEv{ (int)(&k - R.kinds), idx, v }); }
        return v;
    }
    bool fault(char const* n, unsigned permille)
    {
        Fw fw; Kind& k = kind(n); if (!k.enabled || !R.faultsOn) return false;
        bool v = decide(k, 2, permille, false); if (v) ++k.fired; return v;
    }
    std::uint64_t fault_value(char const* n, std::uint64_t m) { Fw fw; if (m <= 1) return 0; Kind& k = kind(n); return decide(k, m, 0, true); }
    void enable_fault(char const* n, unsigned pct) { Fw fw; Kind& k = kind(n); k.enabled = rnd(100) >= 100 - pct; if (!strcmp(n, "time_skip")) { static unsigned const c[] = { 5, 30, 150 }; R.skipPermille = k.enabled ? c[R.rs.below(3)] : 0; } if (!strcmp(n, "spurious_wakeup")) { static unsigned const c[] = { 5, 30, 150 }; R.spurPermille = k.enabled ? c[R.rs.below(3)] : 0; } }
    void disable_fault(char const* n) { Fw fw; kind(n).enabled = false; if (!strcmp(n, "time_skip")) R.skipPermille = 0; if (!strcmp(n, "spurious_wakeup")) R.spurPermille = 0; }
    bool fault_enabled(char const* n) { Fw fw; return kind(n).enabled; }
    void set_faults(bool on) { R.faultsOn = on; }
    std::uint64_t fault_count(char const* n) { Fw fw; return kind(n).fired; }
    std::int64_t now() { return R.now; }
    void sleep_ns(std::int64_t n) { do_sleep(R.now + n); }
    void jump(std::int64_t n) { Fw fw; R.now += n; if (R.nextDeadline <= R.now) expire(); sync_point(); }
    void set_time_limit(std::int64_t n) { R.timeLimit = R.now + n; }
    void set_step_limit(std::uint64_t n) { R.stepLimit = R.step + n; }
    void yield() { if (!active()) return; Fw fw; sync_point(); }
    std::uint64_t seq() { return ++R.seq; }
    int self() { return tl_self ? tl_self->id : -1; }
    int threads_alive() { int n = 0; for (int i = 0; i < R.nthr; ++i) n += R.thr[i]->state != T_DONE; return n; }
    void block_on(void* o, std::int64_t dl) { Fw fw; if (dl >= 0 && R.now >= dl) return; block(B_IO, o, dl); }
    void wake_all(void* o) { Fw fw; wake_obj(B_IO, o, MAXT); }
    void thread_faults(bool on) { if (tl_self) tl_self->threadFaults = on; }
    unsigned cpus() { return R.ncpu; }
    void set_cpus(unsigned n) { R.ncpu = n; }
    void log(char const* f, ...)
    {
        Fw fw; char b[512]; va_list ap; va_start(ap, f); int n = fmt(b, sizeof b - 2, f, ap); va_end(ap);
        for (int i = 0; i < n; ++i) mixh(R.hash, (u64)(u8)b[i]);
        if (R.logFd > 0) { char h[64]; int m = snprintf(h, sizeof h, "[%lld t%d s%llu] ", (long long)(R.now - 1000 * sec), tl_self ? tl_self->id : -1, (unsigned long long)R.step); out(R.logFd, h, (size_t)m); b[n] = '\n'; out(R.logFd, b, (size_t)n + 1); }
    }
    void fail(char const* cls, char const* f, ...)
    {
        ++tl_fw; va_list ap; va_start(ap, f); int n = fmt(RES->msg, 4000, f, ap); va_end(ap); (void)n; finish(2, cls);
    }
    void skip(char const* w) { ++tl_fw; strncpy(RES->msg, w, 200); finish(3, "skip"); }
    void probe(char const* n)
    {
        Fw fw; for (int i = 0; i < RES->np; ++i) if (!strcmp(RES->p[i].name, n)) { ++RES->p[i].n; return; }
        if (RES->np < MAXP) { strncpy(RES->p[RES->np].name, n, 39); RES->p[RES->np++].n = 1; }
    }
    void state(std::uint64_t h) { mixh(R.stateHash, h); }
    void races(bool on) { R.raceOn = on; }
    quiet::quiet() : saved{ 0 } { ++tl_fw; }
    quiet::~quiet() { --tl_fw; }
    no_sched::no_sched() { if (tl_self) ++tl_self->nosched; }
    no_sched::~no_sched() { if (tl_self) --tl_self->nosched; }
    std::uint64_t live_blocks() { return A.live; }
    std::uint64_t live_bytes() { return A.liveBytes; }
    alloc_faults::alloc_faults(unsigned p) : saved{ tl_self->allocFaultPermille } { tl_self->allocFaultPermille = p; }
    alloc_faults::~alloc_faults() { tl_self->allocFaultPermille = saved; }
    void alloc_fail_at(std::int64_t n) { tl_self->allocFailAt = n; tl_self->allocFailFired = false; }
    bool alloc_fail_fired() { bool f = tl_self->allocFailFired; return f; }
    bool is_heap(void const* p) { return (u64)p - ARENA_BASE < ARENA_SIZE; }
    bool is_freed(void const* p) { return is_heap(p) && HS[((u64)p - ARENA_BASE) / 8] == 0xFD; }
    struct Scn { char const* n; scenario_fn f; };
    static Scn g_scn[64]; static int g_nscn;
    registrar::registrar(char const* n, scenario_fn f) { g_scn[g_nscn++] = { n, f }; }
}

// ==================================================================== driver
namespace simi
{
    static sim::scenario_fn g_fn;
    static void* scenario_main(void*)
    {
        bool ended = false; (void)ended;
        try { g_fn(); }
        catch (...) { ++tl_fw; char const* w = "unknown exception"; try { throw; } catch (std::exception& e) { w = e.what(); } catch (...) {} snprintf(RES->msg, 1000, "exception escaped the scenario: %s", w); finish(2, "exception"); }
        ++tl_fw; finish(1, "");
        return nullptr;
    }
    static void on_signal(int s, siginfo_t* si, void*)
    {
        if (!R.finished && RES->status == 0)
        {
            ++tl_fw;
            if (s == SIGXCPU || s == SIGALRM || s == SIGVTALRM || s == SIGPROF) { describe_stuck("hang", "processor time limit reached without a scheduling point"); }
            violation(s == SIGFPE ? "fpe" : "crash", "signal %d at address %s", s, si->si_addr < (void*)65536 ? "near null" : "wild");
        }
        raw(SYS_exit_group, 3);
    }
    struct Trace { bool bySeed = false; u64 seed; Vec<u64> w; Vec<Ev> e; struct F0 { char k[24]; u64 idx, val; }; Vec<F0> f; };
    static void init_run(u64 seed, Trace* tr)
    {
        R = Run{}; R.seed = seed; R.reuseIds = ((seed * 0xD1342543DE82EF95ull) >> 63) != 0; Rng s{ seed * 0x9E3779B97F4A7C15ull + 0x1234567 }; R.rs.s = s.next(); R.rf.s = s.next(); R.rw.s = s.next();
        R.now = 1000 * sim::sec; R.rtOffset = 1700000000ll * sim::sec; R.nextDeadline = INT64_MAX; R.timeLimit = R.now + 3600 * 24 * sim::sec; R.stepLimit = 3000000;
        R.faultsOn = true; R.raceOn = true; R.logFd = -1;
        static i64 const ticks[] = { 1, 10, 100, 1000 }; R.tick = ticks[R.rs.below(4)];
        static unsigned const cpus[] = { 1, 2, 3, 4 }; R.ncpu = cpus[R.rs.below(4)];
        static int const mw[] = { 1, 2, 8, 32 }; R.memw = mw[R.rs.below(4)];
        u64 m = R.rs.below(10); R.mode = m < 6 ? M_RANDOM : m < 9 ? M_PCT : M_BURST;
        static int const q[] = { 64, 128, 320, 1000, 4000 }; R.quantum = q[R.rs.below(5)]; if (R.mode == M_BURST) R.quantum = 30000;
        static unsigned const qn[] = { 0, 4, 64, 100000 }; R.quarantine = qn[R.rs.below(4)];
        R.npct = 1 + (int)R.rs.below(4); static u64 const len[] = { 300, 1500, 6000, 30000 }; u64 L = len[R.rs.below(4)];
        for (int i = 0; i < R.npct; ++i) R.pctPoint[i] = 1 + R.rs.below(L);
        for (int i = 0; i < R.npct; ++i) for (int j = i + 1; j < R.npct; ++j) if (R.pctPoint[j] > R.pctPoint[i]) { u64 x = R.pctPoint[i]; R.pctPoint[i] = R.pctPoint[j]; R.pctPoint[j] = x; }
        R.prioLow = 1000; refill();
        if (tr)
        {
            R.replay = true; R.wlReplay = true; R.wl = tr->w; R.ev = tr->e; R.credit = INT64_MAX / 2;
            for (u32 i = 0; i < tr->f.n; ++i) { Kind* k = nullptr; for (int j = 0; j < R.nk; ++j) if (!strcmp(R.kinds[j].name, tr->f[i].k)) k = &R.kinds[j]; if (!k) { k = &R.kinds[R.nk++]; memcpy(k->name, tr->f[i].k, 24); } FEv e{ (int)(k - R.kinds), tr->f[i].idx, tr->f[i].val }; k->rep.push(e); R.fev.push(e); }
        }
    }
    // body of the forked child
    static void child(u64 seed, Trace* tr, char const* dump, char const* logp, unsigned cpuSec)
    {
        ++tl_fw;
        init_run(seed, tr); R.dump = dump;
        if (logp) R.logFd = (int)raw(SYS_open, (long)logp, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (!getenv("SIM_VERBOSE")) { long dn = raw(SYS_open, (long)"/dev/null", O_RDWR, 0); raw(SYS_dup2, dn, 1); raw(SYS_dup2, dn, 2); raw(SYS_close, dn); }
        rlimit rl{ cpuSec, cpuSec + 5 }; setrlimit(RLIMIT_CPU, &rl);
        rlimit core{ 0, 0 }; setrlimit(RLIMIT_CORE, &core);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGXCPU }) sigaction(s, &sa, nullptr);
        if (!g_keyMade) { pthread_key_create(&g_key, thread_end); g_keyMade = true; }
        Thr* t = new_thr(scenario_main, nullptr);
        if (int e = spawn(t)) tool_error("spawn: %d", e);
        R.cur = 0;
        g_on = true;
        --tl_fw;
        give(t);
        for (;;) futex_wait(&R.doneFutex, 0);
    }
    struct Agg
    {
        u64 runs, ok, viol, known, skips, tool, steps, switches, events, simNs, threads, faults;
        int nk; struct { char name[24]; u64 fired, asked, runsEnabled, runsFired; } k[MAXK];
        int np; struct { char name[40]; u64 n, runs; } p[MAXP];
        int nv; struct { u64 seed; char cls[64]; char msg[1200]; } v[16];
        int nsk; char sk[8][120];
        u64 nh; // hashes
    };
    constexpr u64 MAXH = 1u << 20;
    struct Shared { volatile int stop; Agg agg[64]; };
}
static u64 mono_real() { timespec t; raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return (u64)t.tv_sec * 1000000000ull + (u64)t.tv_nsec; }
static bool load_trace(char const* path, Trace& t, char* scn)
{
    FILE* f = fopen(path, "r"); if (!f) return false; static char line[1 << 16];
    while (fgets(line, sizeof line, f))
    {
        unsigned long long a, b; char k[64]; char c; unsigned g;
        if (sscanf(line, "scenario %63s", k) == 1) strcpy(scn, k);
        else if (sscanf(line, "seed %llu", &a) == 1) t.seed = a;
        else if (!strncmp(line, "mode seed", 9)) t.bySeed = true;
        else if (sscanf(line, "W %llu", &a) == 1) t.w.push(a);
        else if (sscanf(line, "F %63s %llu %llu", k, &a, &b) == 3) { Trace::F0 x{}; strncpy(x.k, k, 23); x.idx = a; x.val = b; t.f.push(x); }
        else if (sscanf(line, "E %llu %c %u", &a, &c, &g) == 3) t.e.push(Ev{ a, (u32)c, g });
    }
    fclose(f); return true;
}
static void jstr(FILE* o, char const* s) { fputc('"', o); for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }
static int run_child(u64 seed, Trace* tr, char const* dump, char const* logp, unsigned cpu)
{
    memset((void*)RES, 0, sizeof *RES);
    int pid = fork();
    if (pid == 0) { child(seed, tr, dump, logp, cpu); raw(SYS_exit_group, 0); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (RES->status == 0)
    {
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { RES->status = 2; strcpy(RES->cls, "hang"); strcpy(RES->msg, "processor time limit reached"); }
        else if (WIFSIGNALED(st)) { RES->status = 2; strcpy(RES->cls, "crash"); snprintf(RES->msg, 200, "killed by signal %d", WTERMSIG(st)); }
        else { RES->status = 2; strcpy(RES->cls, "exit"); snprintf(RES->msg, 200, "process exited (status %d) inside the run", WEXITSTATUS(st)); }
        RES->hash = 1;
    }
    return RES->status;
}
static void print_result(FILE* o)
{
    fprintf(o, "{\"status\":%d,\"class\":", RES->status); jstr(o, RES->cls); fprintf(o, ",\"message\":"); jstr(o, RES->msg);
    fprintf(o, ",\"hash\":\"%016llx\",\"sched_hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"events\":%llu,\"sim_ns\":%llu,\"threads\":%d,\"faults\":%llu}\n", (unsigned long long)RES->hash, (unsigned long long)RES->schedHash, (unsigned long long)RES->steps, (unsigned long long)RES->switches, (unsigned long long)RES->schedEvents, (unsigned long long)RES->simNs, RES->threads, (unsigned long long)RES->faultsFired);
}
static int cmp64(void const* a, void const* b) { u64 x = *(u64*)a, y = *(u64*)b; return x < y ? -1 : x > y; }
// qsort in glibc allocates for big arrays; fine outside the simulation
int main(int argc, char** argv)
{
    if (!getenv("SIM_REEXEC")) { int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }

    ++tl_fw; // nothing here touches the application arena
    char const* scn = ""; u64 base = 1, count = 1000, stride = 0; int jobs = 1; double secs = 0; char const* outp = nullptr; char const* dump = nullptr; char const* logp = nullptr; char const* rep = nullptr; char const* known[64]; int nknown = 0; unsigned cpu = 60; char const* mode = "run"; char const* hashes = nullptr; int pin0 = 0; bool stopv = true;
    char const* batch = nullptr;
    for (int i = 1; i < argc; ++i)
    {
        auto is = [&](char const* n) { return !strcmp(argv[i], n) && i + 1 < argc; };
        if (is("--scenario")) scn = argv[++i]; else if (is("--seed")) base = strtoull(argv[++i], nullptr, 10); else if (is("--count")) count = strtoull(argv[++i], nullptr, 10); else if (is("--jobs")) jobs = atoi(argv[++i]); else if (is("--seconds")) secs = atof(argv[++i]);
        else if (is("--out")) outp = argv[++i]; else if (is("--dump")) dump = argv[++i]; else if (is("--log")) logp = argv[++i]; else if (is("--replay")) { rep = argv[++i]; mode = "replay"; } else if (is("--known")) { if (nknown < 64) known[nknown++] = argv[++i]; } else if (is("--cpu")) cpu = (unsigned)atoi(argv[++i]); else if (is("--mode")) mode = argv[++i]; else if (is("--hashes")) hashes = argv[++i]; else if (is("--pin")) pin0 = atoi(argv[++i]); else if (is("--keep-going")) stopv = atoi(argv[++i]) == 0; else if (is("--batch")) { batch = argv[++i]; mode = "batch"; }
    }
    (void)stride;
    mem_init();
    RES = (Result*)raw_mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
    if (!strcmp(mode, "list")) { for (int i = 0; i < sim::g_nscn; ++i) printf("%s\n", sim::g_scn[i].n); return 0; }
    static Trace tr; static char rscn[64]; 
    if (rep) { if (!load_trace(rep, tr, rscn)) { fprintf(stderr, "cannot read %s\n", rep); return 2; } scn = rscn; base = tr.seed; }
    g_scenario = scn;
    for (int i = 0; i < sim::g_nscn; ++i) if (!strcmp(sim::g_scn[i].n, scn)) g_fn = sim::g_scn[i].f;
    if (!g_fn) { fprintf(stderr, "no scenario %s\n", scn); return 2; }
    signal(SIGPIPE, SIG_IGN);
    auto pin = [](int c) { cpu_set_t cs; CPU_ZERO(&cs); long n = sysconf(_SC_NPROCESSORS_CONF); CPU_SET((unsigned)(c % (n > 0 ? n : 1)), &cs); if (sched_setaffinity(0, sizeof cs, &cs)) {} };
    if (!strcmp(mode, "one") || !strcmp(mode, "replay"))
    {
        pin(pin0);
        if (!strcmp(mode, "one") && count > 1 && count != 1000)
        {
            // determinism probe: run [base, base+count) and print one hash per seed
            for (u64 i = 0; i < count; ++i) { run_child(base + i, nullptr, nullptr, nullptr, cpu); printf("%llu %016llx %d %s\n", (unsigned long long)(base + i), (unsigned long long)RES->hash, RES->status, RES->cls); }
            return 0;
        }
        run_child(base, rep && !tr.bySeed ? &tr : nullptr, dump, logp, cpu); print_result(stdout); return RES->status == 2 ? 1 : RES->status == 1 || RES->status == 3 ? 0 : 2;
    }
    if (!strcmp(mode, "batch"))
    {
        // reads replay file names on stdin, prints one result line each (minimiser back end)
        pin(pin0); static char line[4096];
        while (fgets(line, sizeof line, stdin)) { line[strcspn(line, "\n")] = 0; Trace t{}; char s2[64]; if (!load_trace(line, t, s2)) { printf("{}\n"); fflush(stdout); continue; } run_child(t.seed, t.bySeed ? nullptr : &t, dump, nullptr, cpu); print_result(stdout); fflush(stdout); if (t.w.d) fw_free(t.w.d); if (t.e.d) fw_free(t.e.d); if (t.f.d) fw_free(t.f.d); }
        return 0;
    }
    Shared* sh = (Shared*)raw_mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
    u64* hs = (u64*)raw_mmap(0, 64 * MAXH * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE);
    u64 t0 = mono_real(), tend = secs > 0 ? t0 + (u64)(secs * 1e9) : ~0ull;
    if (jobs > 60) jobs = 60;
    int pids[64];
    for (int j = 0; j < jobs; ++j)
    {
        pids[j] = fork();
        if (pids[j]) continue;
        pin(j + pin0);
        RES = (Result*)raw_mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
        Agg& g = sh->agg[j];
        for (u64 i = (u64)j; i < count && mono_real() < tend && !sh->stop; i += (u64)jobs)
        {
            run_child(base + i, nullptr, nullptr, nullptr, cpu);
            ++g.runs; g.steps += RES->steps; g.switches += RES->switches; g.events += RES->schedEvents; g.simNs += RES->simNs; g.threads += (u64)RES->threads; g.faults += RES->faultsFired;
            if (RES->status == 1) ++g.ok;
            else if (RES->status == 3) { ++g.skips; bool have = false; for (int q = 0; q < g.nsk; ++q) have |= !strncmp(g.sk[q], RES->msg, 100); if (!have && g.nsk < 8) strncpy(g.sk[g.nsk++], RES->msg, 110); }
            else if (RES->status == 4) { ++g.tool; if (g.nv < 16) { g.v[g.nv].seed = base + i; strcpy(g.v[g.nv].cls, "tool-error"); strncpy(g.v[g.nv].msg, RES->msg, 1190); ++g.nv; } sh->stop = 1; }
            else if (RES->status == 2)
            {
                static char key[8000]; snprintf(key, sizeof key, "%s: %s", RES->cls, RES->msg); bool kn = false; for (int q = 0; q < nknown; ++q) kn |= strstr(key, known[q]) != nullptr;
                if (kn) ++g.known; else { ++g.viol; if (g.nv < 16) { g.v[g.nv].seed = base + i; strcpy(g.v[g.nv].cls, RES->cls); strncpy(g.v[g.nv].msg, RES->msg, 1190); ++g.nv; } if (stopv) sh->stop = 1; }
            }
            if (g.nh < MAXH) { hs[(u64)j * MAXH + g.nh++] = RES->schedHash ^ (RES->stateHash * 0x9E3779B97F4A7C15ull) ^ (RES->hash >> 1); }
            for (int a = 0; a < RES->nk; ++a) { int b = 0; for (; b < g.nk; ++b) if (!strcmp(g.k[b].name, RES->k[a].name)) break; if (b == g.nk && g.nk < MAXK) { memcpy(g.k[g.nk++].name, RES->k[a].name, 24); } if (b < MAXK) { g.k[b].fired += RES->k[a].fired; g.k[b].asked += RES->k[a].asked; g.k[b].runsEnabled += (u64)RES->k[a].enabled; g.k[b].runsFired += RES->k[a].fired > 0; } }
            for (int a = 0; a < RES->np; ++a) { int b = 0; for (; b < g.np; ++b) if (!strcmp(g.p[b].name, RES->p[a].name)) break; if (b == g.np && g.np < MAXP) { memcpy(g.p[g.np++].name, RES->p[a].name, 40); } if (b < MAXP) { g.p[b].n += RES->p[a].n; g.p[b].runs++; } }
        }
        raw(SYS_exit_group, 0);
    }
    bool bad = false;
    for (int j = 0; j < jobs; ++j) { int st; waitpid(pids[j], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    double wall = (double)(mono_real() - t0) / 1e9;
    static Agg T; u64 nh = 0;
    u64* all = (u64*)raw_mmap(0, 64 * MAXH * 8);
    for (int j = 0; j < jobs; ++j)
    {
        Agg& g = sh->agg[j]; T.runs += g.runs; T.ok += g.ok; T.viol += g.viol; T.known += g.known; T.skips += g.skips; T.tool += g.tool; T.steps += g.steps; T.switches += g.switches; T.events += g.events; T.simNs += g.simNs; T.threads += g.threads; T.faults += g.faults;
        for (u64 i = 0; i < g.nh; ++i) all[nh++] = hs[(u64)j * MAXH + i];
        for (int a = 0; a < g.nk; ++a) { int b = 0; for (; b < T.nk; ++b) if (!strcmp(T.k[b].name, g.k[a].name)) break; if (b == T.nk) { memcpy(T.k[T.nk++].name, g.k[a].name, 24); } T.k[b].fired += g.k[a].fired; T.k[b].asked += g.k[a].asked; T.k[b].runsEnabled += g.k[a].runsEnabled; T.k[b].runsFired += g.k[a].runsFired; }
        for (int a = 0; a < g.np; ++a) { int b = 0; for (; b < T.np; ++b) if (!strcmp(T.p[b].name, g.p[a].name)) break; if (b == T.np) { memcpy(T.p[T.np++].name, g.p[a].name, 40); } T.p[b].n += g.p[a].n; T.p[b].runs += g.p[a].runs; }
        for (int a = 0; a < g.nv && T.nv < 16; ++a) T.v[T.nv++] = g.v[a];
        for (int a = 0; a < g.nsk && T.nsk < 8; ++a) strcpy(T.sk[T.nsk++], g.sk[a]);
    }
    qsort(all, nh, 8, cmp64); u64 dist = 0; for (u64 i = 0; i < nh; ++i) if (!i || all[i] != all[i - 1]) ++dist;
    if (hashes) { FILE* h = fopen(hashes, "w"); for (u64 i = 0; i < nh; ++i) fprintf(h, "%016llx\n", (unsigned long long)all[i]); fclose(h); }
    FILE* o = outp ? fopen(outp, "w") : stdout; if (!o) return 2;
    fprintf(o, "{\"scenario\":"); jstr(o, scn);
    fprintf(o, ",\"runs\":%llu,\"ok\":%llu,\"violations\":%llu,\"known\":%llu,\"skips\":%llu,\"tool_errors\":%llu,\"steps\":%llu,\"switches\":%llu,\"sched_events\":%llu,\"sim_ns\":%llu,\"threads\":%llu,\"faults\":%llu,\"distinct\":%llu,\"wall\":%.3f,\"worker_failure\":%s,\n\"fault_kinds\":{", (unsigned long long)T.runs, (unsigned long long)T.ok, (unsigned long long)T.viol, (unsigned long long)T.known, (unsigned long long)T.skips, (unsigned long long)T.tool, (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.events, (unsigned long long)T.simNs, (unsigned long long)T.threads, (unsigned long long)T.faults, (unsigned long long)dist, wall, bad ? "true" : "false");
    for (int i = 0; i < T.nk; ++i) { fprintf(o, "%s", i ? "," : ""); jstr(o, T.k[i].name); fprintf(o, ":{\"fired\":%llu,\"asked\":%llu,\"runs_enabled\":%llu,\"runs_fired\":%llu}", (unsigned long long)T.k[i].fired, (unsigned long long)T.k[i].asked, (unsigned long long)T.k[i].runsEnabled, (unsigned long long)T.k[i].runsFired); }
    fprintf(o, "},\n\"probes\":{"); for (int i = 0; i < T.np; ++i) { fprintf(o, "%s", i ? "," : ""); jstr(o, T.p[i].name); fprintf(o, ":{\"count\":%llu,\"runs\":%llu}", (unsigned long long)T.p[i].n, (unsigned long long)T.p[i].runs); }
    fprintf(o, "},\n\"skip_reasons\":["); for (int i = 0; i < T.nsk; ++i) { fprintf(o, "%s", i ? "," : ""); jstr(o, T.sk[i]); }
    fprintf(o, "],\n\"found\":["); for (int i = 0; i < T.nv; ++i) { fprintf(o, "%s{\"seed\":%llu,\"class\":", i ? "," : "", (unsigned long long)T.v[i].seed); jstr(o, T.v[i].cls); fprintf(o, ",\"message\":"); jstr(o, T.v[i].msg); fprintf(o, "}"); }
    fprintf(o, "]}\n"); if (outp) fclose(o);
    return T.viol ? 1 : (T.tool || bad) ? 2 : 0;
}
