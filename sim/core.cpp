// PRNG, hashing, the simulated allocator with its fault injector, the print
// sink and the simulated clock.
#include "sim.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <deque>
#include "SuiteSparse_config.h"

extern "C" void __asan_poison_memory_region (void const volatile *, size_t) ;
extern "C" void __asan_unpoison_memory_region (void const volatile *, size_t) ;
extern "C" int __sanitizer_install_malloc_and_free_hooks (
    void (*)(const volatile void *, size_t), void (*)(const volatile void *)) ;

u64 mix (u64 a, u64 b)
{
    u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull ;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull ;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull ;
    return z ^ (z >> 31) ;
}
u64 hstr (const std::string &s)
{
    u64 h = 0xcbf29ce484222325ull ;
    for (unsigned char c : s) { h ^= c ; h *= 0x100000001b3ull ; }
    return h ;
}
void Hash::add (const Z &z)
{
    h = mix (h, (u64) (z.sign () + 2)) ;
    const auto &b = z.backend () ;
    for (unsigned i = 0 ; i < b.size () ; i++) h = mix (h, (u64) b.limbs () [i]) ;
}
void Hash::add (const Q &q)
{
    add (Z (boost::multiprecision::numerator (q))) ;
    add (Z (boost::multiprecision::denominator (q))) ;
}

//------------------------------------------------------------------------------
// simulated allocator
//------------------------------------------------------------------------------
static char *const BASE = (char *) 0x300000000000ull ;
static const size_t SPACE = (size_t) 2 << 30 ;
static const size_t HUGE_REQ = (size_t) 128 << 20 ;
static const size_t RZ = 32 ;          // redzone on each side
// What lies around blocks, in released blocks and (fill 257) in fresh ones: read
// as a GMP number it is three limbs at an address no access survives, so that
// even code the sanitizer does not see cannot take it for a value (or ask for
// an absurd amount of memory because of it, which would look like a refusal).
static inline unsigned char junk (long off, unsigned char c)
{
    switch (off & 15) { case 0: return 4 ; case 4: return 3 ; case 1: case 2: case 3: case 5: case 6: case 7: return 0 ; default: return c ; }
}
static void junk_fill (char *u, long from, long to, unsigned char c) { for (long k = from ; k < to ; k++) u [k] = (char) junk (k, c) ; }
struct Blk { size_t size, cap ; u64 id ; int set ; int step ; } ;
static std::unordered_map<char *, Blk> *live, *freed ;
static std::map<size_t, std::deque<char *>> *freelist ;
static char *brk_ ;
static Env env ;
static Rng erng ;
static u64 next_id ;
static i64 nlive, nops, setops [10] ;
static Fault flt ;
static bool flt_on ;
static i64 flt_req, flt_fired, flt_live_bytes, flt_growth ;
static Rng frng ;
bool g_arena_exhausted ;
int g_in_lib ;
u64 g_libc_allocs ;
static int in_cb ;

struct Cb { Cb () { in_cb++ ; } ~Cb () { in_cb-- ; } } ;

void arena_start (const Env &e)
{
    void *p = mmap (BASE, SPACE, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) ;
    if (p != BASE) { fprintf (stderr, "sim: cannot reserve the arena\n") ; _exit (77) ; }
    live = new std::unordered_map<char *, Blk> ;
    freed = new std::unordered_map<char *, Blk> ;
    freelist = new std::map<size_t, std::deque<char *>> ;
    brk_ = BASE + 4096 ;
    env = e ;
    erng = Rng (e.seed) ;
    next_id = 1 ; nlive = nops = 0 ;
    flt_on = false ;
    g_arena_exhausted = false ;
}
void fault_on (const Fault &f)
{
    flt = f ; flt_on = true ; flt_req = flt_fired = flt_live_bytes = flt_growth = 0 ;
    frng = Rng (f.seed) ;
}
void fault_off () { flt_on = false ; }
i64 fault_fired () { return flt_fired ; }
i64 fault_requests () { return flt_req ; }
i64 arena_live () { return nlive ; }
i64 arena_ops () { return nops ; }
static u64 given ;
u64 arena_bytes () { return given ; }
i64 arena_set_ops (int set) { return setops [set] ; }
bool arena_is_live (const void *p) { return live->count ((char *) p) > 0 ; }
size_t arena_size (const void *p) { auto it = live->find ((char *) p) ; return it == live->end () ? 0 : it->second.size ; }

std::string arena_live_desc ()
{
    std::map<u64, std::pair<size_t, int>> m ;
    for (auto &kv : *live) if (kv.second.set != 9) m [kv.second.id] = {kv.second.size, kv.second.step} ;
    std::string s ; int c = 0 ;
    for (auto &kv : m)
    {
        if (++c > 4) break ;
        char b [100] ;
        snprintf (b, sizeof b, " [block #%llu of %zu bytes from step %d]", (unsigned long long) kv.first, kv.second.first, kv.second.second) ;
        s += b ;
    }
    return s ;
}

// the fault decision for one request
static bool refuse (size_t size, bool is_realloc, bool grows)
{
    if (!flt_on) return false ;
    flt_req++ ;
    bool r = false ; int c = 0 ;
    switch (flt.mode)
    {
        case 1: r = (flt_req == flt.k) ; c = CT_FAULT_SINGLE ; break ;
        case 2: r = (flt_req >= flt.k) ; c = CT_FAULT_PERSIST ; break ;
        case 3: r = frng.chance ((int) flt.pm) ; c = CT_FAULT_PROB ; break ;
        case 4: r = (flt_live_bytes + (i64) size > flt.pm) ; c = CT_FAULT_BUDGET ; break ;
        case 5: r = ((i64) size >= flt.pm) ; c = CT_FAULT_SIZE ; break ;
        case 6: if (is_realloc && grows) { flt_growth++ ; r = (flt_growth == flt.k) ; } c = CT_FAULT_REALLOC ; break ;
        case 7: r = is_realloc ; c = CT_FAULT_ALLREALLOC ; break ;
        case 8: r = (flt_req >= flt.k && flt_req < flt.k + flt.w) ; c = CT_FAULT_BURST ; break ;
    }
    if (r)
    {
        flt_fired++ ; ct (c) ;
        R->fault_hash = mix (R->fault_hash, mix ((u64) size, (u64) g_step * 16 + flt.mode)) ;
        logh (0xFA17 + (u64) size * 16) ;
    }
    return r ;
}

static char *take (size_t size, int set)
{
    given += size ;
    size_t cap = (size + 15) & ~(size_t) 15 ; if (cap == 0) cap = 16 ;
    char *u = nullptr ;
    if (env.reuse)
    {
        auto it = freelist->find (cap) ;
        if (it != freelist->end () && !it->second.empty ())
        {
            auto &d = it->second ;
            size_t ix = env.reuse == 1 ? d.size () - 1 : env.reuse == 3 ? 0 : (size_t) erng.below ((i64) d.size ()) ;
            if (env.reuse == 1 || d.size () > 3 || env.reuse == 2)
            {
                u = d [ix] ; d.erase (d.begin () + (long) ix) ;
                freed->erase (u) ; ct (CT_REUSED) ;
            }
        }
    }
    if (!u)
    {
        size_t extra = env.pad ? 16 * (size_t) erng.below (env.pad) : 0 ;
        if (brk_ + RZ + cap + RZ + extra > BASE + SPACE) { g_arena_exhausted = true ; return nullptr ; }
        u = brk_ + RZ + extra ;
        __asan_unpoison_memory_region (brk_, extra + RZ + cap + RZ) ;
        brk_ = u + cap ;
    }
    else
    {
        __asan_unpoison_memory_region (u - RZ, RZ + cap + RZ) ;
    }
    junk_fill (u, -(long) RZ, 0, 0xC7) ;
    junk_fill (u, (long) size, (long) (cap + RZ), 0xC9) ;
    if (u + cap == brk_) brk_ += RZ ;
    (*live) [u] = Blk {size, cap, next_id++, set, g_step} ;
    if (set != 9) nlive++ ;
    if (env.fill < 256) memset (u, env.fill, size) ;
    else if (env.fill == 257) junk_fill (u, 0, (long) size, 0xCB) ;
    else for (size_t i = 0 ; i < size ; i += 8)
    {
        u64 v = erng.next () ; memcpy (u + i, &v, size - i < 8 ? size - i : 8) ;
    }
    __asan_poison_memory_region (u - RZ, RZ) ;
    __asan_poison_memory_region (u + size, cap - size + RZ) ;
    return u ;
}

static void give (char *u, int set, const char *what)
{
    auto it = live->find (u) ;
    if (it == live->end ())
    {
        if (freed->count (u)) fail (K_BADFREE, what, "block #%llu released twice", (unsigned long long) (*freed) [u].id) ;
        else fail (K_BADFREE, what, "release of a pointer that was never handed out") ;
        return ;
    }
    Blk b = it->second ;
    if (b.set != set)
        fail (K_BADFREE, what, "block #%llu released through another allocator (%d) than it came from (%d)", (unsigned long long) b.id, set, b.set) ;
    __asan_unpoison_memory_region (u - RZ, RZ + b.cap + RZ) ;
    for (size_t i = 0 ; i < RZ ; i++)
        if ((unsigned char) u [-(long) i - 1] != junk (-(long) i - 1, 0xC7)) { fail (K_BADFREE, what, "memory before block #%llu (%zu bytes) was overwritten", (unsigned long long) b.id, b.size) ; break ; }
    for (size_t i = b.size ; i < b.cap + RZ ; i++)
        if ((unsigned char) u [i] != junk ((long) i, 0xC9)) { fail (K_BADFREE, what, "memory after block #%llu (%zu bytes) was overwritten", (unsigned long long) b.id, b.size) ; break ; }
    junk_fill (u, 0, (long) b.cap, 0xDD) ;
    __asan_poison_memory_region (u - RZ, RZ + b.cap + RZ) ;
    live->erase (it) ;
    if (b.set != 9) nlive-- ;
    (*freed) [u] = b ;
    (*freelist) [b.cap].push_back (u) ;
}

static void tick (u64 kind, size_t size)
{
    nops++ ; ct (CT_ALLOCS) ;
    logh (kind * 0x100000001ull + size) ;
    if (nops > 2000000) { fail (K_HANG, "allocator", "more than 2000000 allocator calls in one run") ; finish_child () ; }
}
static bool too_big (size_t n)
{
    if (n >= HUGE_REQ) { ct (CT_FAULT_HUGE) ; if (flt_on) { flt_req++ ; flt_fired++ ; } return true ; }
    return false ;
}

static void *do_malloc (size_t n, int set)
{
    Cb cb ; setops [set]++ ; tick (1, n) ;
    if (too_big (n) || refuse (n, false, false)) return nullptr ;
    flt_live_bytes += (i64) n ;
    return take (n, set) ;
}
static void *do_calloc (size_t a, size_t b, int set)
{
    Cb cb ; setops [set]++ ;
    if (b && a > SIZE_MAX / b) { tick (2, SIZE_MAX) ; if (flt_on) { flt_req++ ; flt_fired++ ; } return nullptr ; }
    size_t n = a * b ; tick (2, n) ;
    if (too_big (n) || refuse (n, false, false)) return nullptr ;
    flt_live_bytes += (i64) n ;
    char *p = take (n, set) ;
    if (p) memset (p, 0, n) ;
    return p ;
}
static void do_free (void *p, int set)
{
    Cb cb ; if (!p) return ;
    setops [set]++ ; tick (3, 0) ;
    auto it = live->find ((char *) p) ;
    if (it != live->end ()) flt_live_bytes -= (i64) it->second.size ;
    give ((char *) p, set, "free") ;
}
static void *do_realloc (void *p, size_t n, int set)
{
    if (!p) return do_malloc (n, set) ;
    Cb cb ; setops [set]++ ; tick (4, n) ;
    auto it = live->find ((char *) p) ;
    if (it == live->end ())
    {
        fail (K_BADFREE, "realloc", "resize of a pointer that is not a live block") ;
        return nullptr ;
    }
    Blk b = it->second ;
    if (too_big (n) || refuse (n, true, n > b.size)) return nullptr ;
    flt_live_bytes += (i64) n - (i64) b.size ;
    bool mv = env.move == 1 || (env.move == 2 && erng.chance (500)) ;
    if (!mv && n <= b.cap && b.set == set)
    {
        char *u = (char *) p ;
        __asan_unpoison_memory_region (u, b.cap + RZ) ;
        if (n > b.size) memset (u + b.size, env.fill < 256 ? env.fill : 0x5A, n - b.size) ;
        junk_fill (u, (long) n, (long) (b.cap + RZ), 0xC9) ;
        __asan_poison_memory_region (u + n, b.cap - n + RZ) ;
        it->second.size = n ;
        return p ;
    }
    char *q = take (n, set) ;
    if (!q) return nullptr ;
    ct (CT_MOVED) ;
    memcpy (q, p, n < b.size ? n : b.size) ;
    give ((char *) p, set, "realloc") ;
    return q ;
}
extern "C" {
void *simA_malloc (size_t n) { return do_malloc (n, 0) ; }
void *simA_calloc (size_t a, size_t b) { return do_calloc (a, b, 0) ; }
void *simA_realloc (void *p, size_t n) { return do_realloc (p, n, 0) ; }
void simA_free (void *p) { do_free (p, 0) ; }
void *simB_malloc (size_t n) { return do_malloc (n, 1) ; }
void *simB_calloc (size_t a, size_t b) { return do_calloc (a, b, 1) ; }
void *simB_realloc (void *p, size_t n) { return do_realloc (p, n, 1) ; }
void simB_free (void *p) { do_free (p, 1) ; }
void *simC_calloc (size_t a, size_t b) { return do_calloc (a, b, 2) ; }
void simC_free (void *p) { do_free (p, 2) ; }
}
void *sim_set_malloc (int set, size_t n) { return do_malloc (n, set) ; }
void *sim_set_calloc (int set, size_t a, size_t b) { return do_calloc (a, b, set) ; }
void *sim_set_realloc (int set, void *p, size_t n) { return do_realloc (p, n, set) ; }
void sim_set_free (int set, void *p) { do_free (p, set) ; }
i64 arena_sweep (int set, const std::set<const void *> &keep)
{
    Cb cb ; std::map<u64, char *> todo ;         // in the order the blocks were handed out
    for (auto &kv : *live) if (kv.second.set == set && !keep.count (kv.first)) todo [kv.second.id] = kv.first ;
    for (auto &t : todo) { flt_live_bytes -= (i64) (*live) [t.second].size ; give (t.second, set, "sweep") ; }
    return (i64) todo.size () ;
}
void *client_alloc (size_t n) { Cb cb ; return take (n ? n : 1, 9) ; }
void client_free (void *p) { Cb cb ; if (p) give ((char *) p, 9, "client") ; }

static void mhook (const volatile void *, size_t) { if (g_in_lib && !in_cb) g_libc_allocs++ ; }
static void fhook (const volatile void *) { }
void install_hooks () { __sanitizer_install_malloc_and_free_hooks (mhook, fhook) ; }

//------------------------------------------------------------------------------
// print sink
//------------------------------------------------------------------------------
i64 g_sink_calls ; u64 g_sink_hash ; std::string g_sink_text ;
static int sink_mode ; static Rng sink_rng ;
int sim_printf (const char *fmt, ...)
{
    Cb cb ;
    char buf [4096] ;
    va_list ap ; va_start (ap, fmt) ;
    int n = vsnprintf (buf, sizeof buf, fmt, ap) ;
    va_end (ap) ;
    g_sink_calls++ ;
    g_sink_hash = mix (g_sink_hash, hstr (buf)) ;
    if (g_sink_text.size () < 20000) g_sink_text += buf ;
    if (sink_mode == 2 && sink_rng.chance (500)) { ct (CT_SINK_ERR) ; return -1 ; }
    return n ;
}
void sink_install (int mode, u64 seed)
{
    sink_mode = mode ; sink_rng = Rng (seed) ;
    SuiteSparse_config.printf_func = mode == 1 ? nullptr : sim_printf ;
}

//------------------------------------------------------------------------------
// simulated clock: the linker redirects clock_gettime of the code under test
//------------------------------------------------------------------------------
i64 g_clock_sec, g_clock_nsec, g_clock_reads ;
bool g_clock_simulated ;
void clock_advance (u64 ns)
{
    g_clock_sec += (i64) (ns / 1000000000ull) ; g_clock_nsec += (i64) (ns % 1000000000ull) ;
    if (g_clock_nsec >= 1000000000) { g_clock_nsec -= 1000000000 ; g_clock_sec++ ; }
    R->sim_ns += ns ;
}
extern "C" int __real_clock_gettime (clockid_t, struct timespec *) ;
extern "C" int __wrap_clock_gettime (clockid_t id, struct timespec *t)
{
    if (!g_clock_simulated) return __real_clock_gettime (id, t) ;
    g_clock_reads++ ;
    if (id == CLOCK_REALTIME)
    {
        // the wall clock is skewed and may have been set back
        t->tv_sec = 1600000000 - (g_clock_reads % 7) * 3600 ; t->tv_nsec = 5 ;
        return 0 ;
    }
    t->tv_sec = g_clock_sec ; t->tv_nsec = g_clock_nsec ;
    return 0 ;
}
extern "C" int __wrap_gettimeofday (struct timeval *tv, void *)
{
    g_clock_reads++ ; tv->tv_sec = 1600000000 - (g_clock_reads % 7) * 3600 ; tv->tv_usec = 5 ; return 0 ;
}
extern "C" time_t __wrap_time (time_t *p)
{
    time_t t = 1600000000 - (++g_clock_reads % 7) * 3600 ; if (p) *p = t ; return t ;
}
