// simrt internals shared by simrt.cpp, simio.cpp (and nothing else).
#pragma once
#include "sim.h"
#include <cstring>
#include <pthread.h>
#include <sys/types.h>
#include <sys/uio.h>

namespace simi
{
    using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;
    constexpr int MAXT = 64;
    constexpr u64 ARENA_BASE = 0x100000000000ull, ARENA_SIZE = 1ull << 31;
    constexpr u64 FW_BASE = 0x110000000000ull, FW_SIZE = 1ull << 31;
    constexpr u64 STK_BASE = 0x120000000000ull, STK_ONE = 1ull << 19, STK_SIZE = STK_ONE * (MAXT + 2);

    enum { T_RUN = 0, T_BLOCKED = 1, T_DONE = 2 };
    enum { W_NONE = 0, W_SIGNAL = 1, W_TIMEOUT = 2, W_SPURIOUS = 3 };
    enum { B_NONE, B_MUTEX, B_COND, B_FUTEX, B_JOIN, B_SLEEP, B_ONCE, B_RW, B_IO };

    struct VC { u32 c[MAXT]; void clear() { memset(c, 0, sizeof c); } void join(VC const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

    struct Thr
    {
        int id, slot; int state; volatile int go; pthread_t real;
        int bkind; void* bobj; i64 deadline; int reason;
        void* (*fn)(void*); void* arg; void* ret; bool detached, joined; int keyPass;
        int prio; u64 startSeq;
        unsigned allocFaultPermille; i64 allocFailAt; bool allocFailFired, threadFaults;
        int nosched;
        VC vc, acqPend, relFence, joinvc; bool hasAcq, hasRel;
        u32 stk[256]; int depth;
        u64 runlen;
    };
    extern __thread int tl_fw;
    extern __thread Thr* tl_self;
    extern bool g_on;

    struct Fw { Fw() { ++tl_fw; } ~Fw() { --tl_fw; } };
    inline bool active() { return g_on && tl_self && !tl_fw; }

    Thr* self();
    i64 now();
    void sync_point();                                  // scheduling point with sync weight
    int block(int kind, void* obj, i64 deadline);       // returns wake reason
    void wake(Thr* t, int reason);
    int wake_obj(int kind, void* obj, int n);           // -> number woken
    void hb_release(void* addr, bool join);             // clock into sync var
    void hb_acquire(void* addr);
    void check_heap(void const* p, u64 n, bool write, u32 pc);
    void* fw_alloc(u64 n);
    void fw_free(void*);
    void tool_error(char const* fmt, ...);
    i64 realtime_offset();
    bool net_owns(int fd); int net_close(int fd); ssize_t net_read(int fd, void* b, size_t n); ssize_t net_write(int fd, void const* b, size_t n); ssize_t net_writev(int fd, struct iovec const* v, int c);

    template <typename T> struct Vec // minimal vector in framework memory
    {
        T* d = nullptr; u32 n = 0, cap = 0;
        void push(T const& v) { if (n == cap) grow(); d[n++] = v; }
        void grow() { u32 nc = cap ? cap * 2 : 16; T* nd = (T*)fw_alloc(nc * sizeof(T)); if (n) memcpy((void*)nd, (void*)d, n * sizeof(T)); if (d) fw_free(d); d = nd; cap = nc; }
        T& operator[](u32 i) { return d[i]; }
        void erase(u32 i) { for (u32 k = i + 1; k < n; ++k) d[k - 1] = d[k]; --n; }
    };
    struct Map // u64 -> void*, open addressing
    {
        u64* k = nullptr; void** v = nullptr; u32 cap = 0, n = 0;
        static u64 h(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return x ^ (x >> 29); }
        void* get(u64 key) { if (!cap) return nullptr; for (u32 i = (u32)h(key) & (cap - 1);; i = (i + 1) & (cap - 1)) { if (k[i] == key) return v[i]; if (!k[i]) return nullptr; } }
        void put(u64 key, void* val)
        {
            if (!cap || n * 2 >= cap) rehash();
            for (u32 i = (u32)h(key) & (cap - 1);; i = (i + 1) & (cap - 1)) { if (k[i] == key) { v[i] = val; return; } if (!k[i]) { k[i] = key; v[i] = val; ++n; return; } }
        }
        void rehash()
        {
            u32 oc = cap; u64* ok = k; void** ov = v; cap = oc ? oc * 2 : 256; n = 0;
            k = (u64*)fw_alloc(cap * 8); v = (void**)fw_alloc(cap * 8); memset(k, 0, cap * 8);
            for (u32 i = 0; i < oc; ++i) if (ok[i]) put(ok[i], ov[i]);
            if (ok) { fw_free(ok); fw_free(ov); }
        }
    };
}
