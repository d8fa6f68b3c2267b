// Runtime behind -fsanitize=thread: every instrumented memory access of the code under test is a scheduling point of the
// simulator, and a happens-before race detector watches them. The real ThreadSanitizer runtime is not linked.
// Nothing here allocates: the heap of a run is that of the code under test.
#include "sim_internal.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
namespace {

typedef uint32_t VC[MAX_THREADS];
VC g_vc[MAX_THREADS];

// synchronisation objects: open addressing
constexpr size_t SYNC = 1 << 14;
struct Sync
{
    const void* key;
    VC vc;
};
Sync g_sync[SYNC];

constexpr size_t CELLS = 1 << 17;
struct Access
{
    uint32_t clk;
    uint8_t tid;
    uint8_t mask;
    uint8_t write;
    uint8_t used;
    const void* pc;
};
struct Cell
{
    uintptr_t key;
    Access a[4];
};
Cell g_cells[CELLS];
bool g_races = false;
uint64_t g_accesses = 0;

inline size_t hash_addr(uintptr_t k) { return (k * 0x9E3779B97F4A7C15ull) >> 40; }

Sync* sync_of(const void* k)
{
    size_t h = hash_addr(reinterpret_cast<uintptr_t>(k)) & (SYNC - 1);
    for (size_t i = 0; i < 64; ++i, h = (h + 1) & (SYNC - 1))
    {
        if (g_sync[h].key == k)
            return &g_sync[h];
        if (g_sync[h].key == nullptr)
        {
            g_sync[h].key = k;
            return &g_sync[h];
        }
    }
    return nullptr;
}
// reused addresses only add order: a missed race, never a false one
void release(const void* k)
{
    if (!t_self)
        return;
    Sync* s = sync_of(k);
    if (!s)
    {
        g_races = false; // table full: stop looking rather than report nonsense
        return;
    }
    uint32_t* me = g_vc[t_self->id];
    for (int i = 0; i < MAX_THREADS; ++i)
        s->vc[i] = std::max(s->vc[i], me[i]);
    ++me[t_self->id];
}
void acquire(const void* k)
{
    if (!t_self)
        return;
    Sync* s = sync_of(k);
    if (!s)
    {
        g_races = false;
        return;
    }
    uint32_t* me = g_vc[t_self->id];
    for (int i = 0; i < MAX_THREADS; ++i)
        me[i] = std::max(me[i], s->vc[i]);
}
void thread_start(int parent, int child)
{
    // the clock of a reused id goes on
    const uint32_t own = std::max(g_vc[child][child], 0u) + 1;
    memcpy(g_vc[child], g_vc[parent], sizeof(VC));
    g_vc[child][child] = std::max(own, g_vc[child][child] + 1);
    ++g_vc[parent][parent];
}
void thread_join(int joiner, int child)
{
    for (int i = 0; i < MAX_THREADS; ++i)
        g_vc[joiner][i] = std::max(g_vc[joiner][i], g_vc[child][i]);
}

// ---- names of code addresses, only when a race is reported
void name_of(const void* pc, char* out, size_t n)
{
    snprintf(out, n, "?");
    Dl_info di;
    if (!dladdr(pc, &di))
        return;
    static char exe[512];
    const ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (l <= 0)
        return;
    exe[l] = 0;
    const int fd = open(exe, O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st))
        return;
    const char* m = static_cast<const char*>(mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
    close(fd);
    if (m == MAP_FAILED)
        return;
    const auto* eh = reinterpret_cast<const Elf64_Ehdr*>(m);
    const auto* sh = reinterpret_cast<const Elf64_Shdr*>(m + eh->e_shoff);
    const uintptr_t rel = reinterpret_cast<uintptr_t>(pc) - reinterpret_cast<uintptr_t>(di.dli_fbase);
    for (int i = 0; i < eh->e_shnum; ++i)
        if (sh[i].sh_type == SHT_SYMTAB)
        {
            const auto* sy = reinterpret_cast<const Elf64_Sym*>(m + sh[i].sh_offset);
            const char* str = m + sh[sh[i].sh_link].sh_offset;
            for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
                if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && rel >= sy[k].st_value && rel < sy[k].st_value + sy[k].st_size)
                {
                    int status = 0;
                    char* d = abi::__cxa_demangle(str + sy[k].st_name, nullptr, nullptr, &status);
                    const char* name = d ? d : str + sy[k].st_name;
                    // without arguments, template arguments and enclosing namespaces
                    std::string s, full(name);
                    if (full.size() > 6 && full.compare(full.size() - 6, 6, " const") == 0)
                        full.resize(full.size() - 6);
                    int depth = 0;
                    for (size_t c = 0; c < full.size(); ++c)
                    {
                        const char ch = full[c];
                        if (ch == '<' || ch == '(')
                            ++depth;
                        else if (ch == '>' || ch == ')')
                            --depth;
                        else if (depth == 0 && ch == ' ')
                            s.clear();
                        else if (depth == 0)
                            s += ch;
                        if (full.compare(c, 7, "{lambda") == 0 && depth == 0)
                        {
                            s.back() = 'l';
                            s += "ambda";
                            break;
                        }
                    }
                    const std::string ns = "rgbd_slam::";
                    if (s.compare(0, ns.size(), ns) == 0)
                        s = s.substr(ns.size());
                    snprintf(out, n, "%s", s.c_str());
                    return;
                }
        }
}

void report(const Access& old, const void* pc, bool write, uintptr_t addr)
{
    char a[400], b[400], cls[96];
    name_of(old.pc, a, sizeof a);
    name_of(pc, b, sizeof b);
    const bool swap = strcmp(a, b) > 0;
    // the end of a name says most
    auto tail = [](const char* n) { return strlen(n) > 44 ? n + strlen(n) - 44 : n; };
    snprintf(cls, sizeof cls, "race:%s|%s", tail(swap ? b : a), tail(swap ? a : b));
    for (char* c = cls; *c; ++c)
        if (*c == ' ' || *c == ',')
            *c = '_';
    char msg[1000];
    snprintf(msg, sizeof msg, "unordered accesses to the same memory: a %s in %s by thread %d, then a %s in %s by thread %d",
             old.write ? "write" : "read", a, old.tid, write ? "write" : "read", b, t_self->id);
    if (getenv("SIM_RACE_ADDRESSES"))
        snprintf(msg + strlen(msg), sizeof msg - strlen(msg), " [memory %lx, stack near %p, code %p and %p]", static_cast<unsigned long>(addr), static_cast<void*>(cls), old.pc, pc);
    fail(cls, msg);
}

void check(uintptr_t addr, unsigned size, bool write, const void* pc)
{
    while (size)
    {
        const uintptr_t k = addr >> 3;
        const unsigned off = addr & 7, n = std::min(size, 8 - off);
        const uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << off);
        Cell& c = g_cells[hash_addr(k) & (CELLS - 1)];
        if (c.key != k)
        {
            memset(&c, 0, sizeof c);
            c.key = k;
        }
        const uint32_t* me = g_vc[t_self->id];
        int slot = -1;
        for (int i = 0; i < 4; ++i)
        {
            Access& a = c.a[i];
            if (!a.used)
            {
                if (slot < 0)
                    slot = i;
                continue;
            }
            if (a.tid == t_self->id)
            {
                if ((a.mask & ~mask) == 0 && (write || !a.write))
                    slot = i; // superseded
                continue;
            }
            if ((a.mask & mask) && (write || a.write) && a.clk > me[a.tid])
            {
                const Access old = a;
                a.used = 0;
                report(old, pc, write, addr);
            }
        }
        if (slot < 0)
            slot = static_cast<int>(g_accesses & 3);
        c.a[slot] = {me[t_self->id], static_cast<uint8_t>(t_self->id), mask, static_cast<uint8_t>(write), 1, pc};
        addr += n;
        size -= n;
    }
}

inline void access(const void* p, unsigned size, bool write, const void* pc)
{
    if (__builtin_expect(g_multi, 0) && t_self && g_active)
    {
        ++g_accesses;
        yield_fast("memory");
        if (g_races)
            check(reinterpret_cast<uintptr_t>(p), size, write, pc);
    }
}

void forget(void* p, size_t n)
{
    if (!g_races || !g_multi || !p)
        return;
    const uintptr_t b = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
    if (e - b > CELLS * 2)
    {
        for (Cell& c: g_cells)
            if (c.key >= b && c.key < e)
                c.key = 0;
        return;
    }
    for (uintptr_t k = b; k < e; ++k)
    {
        Cell& c = g_cells[hash_addr(k) & (CELLS - 1)];
        if (c.key == k)
            c.key = 0;
    }
}

struct Init
{
    Init()
    {
        g_memoryYields = true;
        hb_release = release;
        hb_acquire = acquire;
        hb_thread_start = thread_start;
        hb_thread_join = thread_join;
        hb_forget = forget;
        for (int i = 0; i < MAX_THREADS; ++i)
            g_vc[i][i] = 1;
    }
} g_init;

} // namespace

void races_enable(bool on) { g_races = on; }
uint64_t memory_accesses() { return g_accesses; }

} // namespace sim

using namespace sim;

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);

void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    forget(p, n);
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    forget(p, a * b);
    return p;
}
void* realloc(void* o, size_t n)
{
    void* p = __libc_realloc(o, n);
    if (p != o)
        forget(p, n);
    return p;
}
void* aligned_alloc(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    forget(p, n);
    return p;
}
void* memalign(size_t a, size_t n) { return aligned_alloc(a, n); }
int posix_memalign(void** out, size_t a, size_t n)
{
    *out = aligned_alloc(a, n);
    return *out ? 0 : 12;
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); }                                  \
    void __tsan_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }                                  \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); }                        \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }                        \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); }                         \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, __builtin_return_address(0)); }
// the same value is rewritten by every constructor of a hierarchy: no race is reported on it
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}

static bool acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before(const void* p, int mo)
{
    if (!g_multi || !t_self || !g_active)
        return;
    yield_fast("atomic");
    if (acq(mo))
        acquire(p);
}
static void after(const void* p, int mo)
{
    if (g_multi && t_self && g_active && rel(mo))
        release(p);
}
#define ATOMIC(n, T)                                                                                                   \
    T __tsan_atomic##n##_load(const volatile T* p, int mo)                                                             \
    {                                                                                                                  \
        before((const void*)p, mo);                                                                                    \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##n##_store(volatile T* p, T v, int mo)                                                          \
    {                                                                                                                  \
        before((const void*)p, __ATOMIC_RELAXED);                                                                      \
        after((const void*)p, mo);                                                                                     \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo)                                                          \
    {                                                                                                                  \
        before((const void*)p, mo);                                                                                    \
        after((const void*)p, mo);                                                                                     \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int)                              \
    {                                                                                                                  \
        before((const void*)p, mo);                                                                                    \
        after((const void*)p, mo);                                                                                     \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f)                              \
    {                                                                                                                  \
        return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, f);                                             \
    }                                                                                                                  \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f)                                  \
    {                                                                                                                  \
        __tsan_atomic##n##_compare_exchange_strong(p, &e, v, mo, f);                                                   \
        return e;                                                                                                      \
    }
#define FETCH(n, T, op)                                                                                                \
    T __tsan_atomic##n##_fetch_##op(volatile T* p, T v, int mo)                                                        \
    {                                                                                                                  \
        before((const void*)p, mo);                                                                                    \
        after((const void*)p, mo);                                                                                     \
        return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                                                            \
    }
#define ALL(n, T) ATOMIC(n, T) FETCH(n, T, add) FETCH(n, T, sub) FETCH(n, T, and) FETCH(n, T, or) FETCH(n, T, xor) FETCH(n, T, nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
