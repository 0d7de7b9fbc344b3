// File helpers.
#pragma once
#include "poolc.h"
#include <rpp/files.h>
#include <rpp/asyncio.h>

// Sizes around every boundary a transfer loop may care about.
static inline u64 file_size() {
    if(sim_chance(1, 60)) return (1ull << (17 + sim_work(4))) - 1 + sim_work(3);
    if(sim_chance(1, 60)) return 20000 + sim_work(400000);
    switch(sim_work(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2 + sim_work(30);
    case 3: return 4095 + sim_work(3);
    case 4: return 65535 + sim_work(3);
    case 5: return 100 + sim_work(5000);
    case 6: return 8191 + sim_work(3);
    default: return sim_work(20000);
    }
}
UNSEEN static inline u8 file_byte(u64 seed, u64 i) {
    u64 x = (i + 1) * 0x9e3779b97f4a7c15ull + seed * 0xbf58476d1ce4e5b9ull;
    x ^= x >> 29;
    x *= 0x94d049bb133111ebull;
    return static_cast<u8>(x >> 56);
}
// Content nobody else has: byte i of version `seed`.
struct Content {
    u8* data;
    u64 n, seed;
    Content(u64 n, u64 seed) : n(n), seed(seed) {
        data = static_cast<u8*>(Mhidden::alloc(n ? n : 1)); // (may be refused: no oracle section)
        fill();
    }
    UNSEEN void fill() {
        Sim_Atomic a;
        sim_touch(data, n, 1);
        for(u64 i = 0; i < n; i++) data[i] = file_byte(seed, i);
    }
    Content(const Content&) = delete;
    ~Content() {
        Mhidden::free(data);
    }
};
UNSEEN static inline void expect_bytes(const u8* p, u64 n, u64 want, u64 seed, const char* cls, const char* how) {
    Sim_Atomic a;
    if(n != want) sim_violation(cls, "%s: %llu bytes, the file has %llu", how, (ull)n, (ull)want);
    sim_touch(p, n, 0);
    for(u64 i = 0; i < n; i++)
        if(p[i] != file_byte(seed, i)) sim_violation(cls, "%s: byte %llu of %llu is %02x, should be %02x", how, (ull)i, (ull)n, p[i], file_byte(seed, i));
}
// Content of gigabytes: zero but for a few places. Only those exist in memory.
struct Huge {
    u8* data;
    u64 n, seed;
    static u64 size(bool more) {
        static const u64 around[] = {0x7fffffffull, 0x80000000ull, 0x7ffff000ull, 0xffffffffull, 0xfffff000ull, 0xc0000000ull};
        static const u64 beyond[] = {0x100000000ull, 0x100001000ull, 0x140000000ull, 0x180000000ull};
        if(more) return beyond[sim_work(4)] + sim_work(100);
        return around[sim_work(6)] - sim_work(sim_chance(1, 2) ? 3 : 5000);
    }
    Huge(u64 n, u64 seed) : n(n), seed(seed) {
        data = static_cast<u8*>(Mhidden::alloc(n));
        mark();
    }
    UNSEEN void mark() {
        Sim_Atomic a;
        for(u64 at = 0; at < n; at += at < 0x200 ? 1 : 0x0ffffff1) data[at] = file_byte(seed, at);
        for(u64 k = 1; k < 40; k++) data[n - k] = file_byte(seed, n - k);
    }
    UNSEEN static void expect(const u8* p, u64 n, u64 want, u64 seed, const char* how) {
        Sim_Atomic a;
        if(n != want) sim_violation("wrong-contents", "%s: %llu bytes of %llu", how, (ull)n, (ull)want);
        auto at = [&](u64 i, u8 v) {
            if(p[i] != v) sim_violation("wrong-contents", "%s: byte %llu of %llu is %02x, should be %02x", how, (ull)i, (ull)n, p[i], v);
        };
        for(u64 i = 0; i < n; i += i < 0x200 ? 1 : 0x0ffffff1) {
            at(i, file_byte(seed, i));
            if(i >= 0x200 && i + 1 < n - 40) at(i + 1, 0);
        }
        for(u64 i = 0x1000; i < n - 40; i += 0x3fffff) at(i, i < 0x200 ? p[i] : 0);
        for(u64 k = 1; k < 40; k++) at(n - k, file_byte(seed, n - k));
    }
    Huge(const Huge&) = delete;
    ~Huge() {
        Mhidden::free(data);
    }
};
// A path as part of a longer text, or in memory that ends where it ends.
struct Spelled {
    u8* p;
    u64 n = 0;
    explicit Spelled(const char* path) {
        while(path[n]) n++;
        u64 extra = sim_work(3);
        p = static_cast<u8*>(Mhidden::alloc(n + extra));
        for(u64 i = 0; i < n; i++) p[i] = static_cast<u8>(path[i]);
        for(u64 i = 0; i < extra; i++) p[n + i] = 'x';
    }
    Spelled(const Spelled&) = delete;
    ~Spelled() {
        Mhidden::free(p);
    }
    operator String_View() const {
        return String_View{p, n};
    }
};
// Some files lie deep in the tree.
constexpr u64 PATH = 760;
static inline void name_file(char* out, const char* dir, const char* name, u64 i, bool deep) {
    u64 n = 0;
    while(dir[n]) out[n] = dir[n], n++;
    if(deep) {
        u64 levels = 1 + sim_work(3);
        for(u64 l = 0; l < levels; l++) {
            out[n++] = '/';
            u64 k = 1 + sim_work(200);
            for(u64 c = 0; c < k; c++) out[n++] = static_cast<char>('a' + (c + l + i) % 26);
            out[n] = 0;
            sim_fs_mkdir(out);
        }
    }
    out[n++] = '/';
    while(*name) out[n++] = *name++;
    out[n++] = static_cast<char>('0' + i);
    out[n] = 0;
}
static inline bool hard_fault_since(u64 mark) {
    u64 n = 0;
    for(int f : {F_EIO_READ, F_EIO_WRITE, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL, F_STAT_FAIL, F_SEEK_FAIL, F_MALLOC_FAIL}) n += sim_fault_count(f);
    return n != mark;
}
static inline u64 hard_faults() {
    u64 n = 0;
    for(int f : {F_EIO_READ, F_EIO_WRITE, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL, F_STAT_FAIL, F_SEEK_FAIL, F_MALLOC_FAIL}) n += sim_fault_count(f);
    return n;
}
static inline void warm_files() {
    warm_up();
    sim_nopreempt(1);
    warm_allocator<Files::Alloc>();
    sim_nopreempt(-1);
    // This thread's region and the logger's state get their final size.
    (void)Files::last_write_time("/nowhere/at/all/with/a/longer/name/than/any/used/in/the/scenario"_v);
    (void)Files::read("/nowhere/at/all/with/a/longer/name/than/any/used/in/the/scenario"_v);
}
