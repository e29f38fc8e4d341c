// Deterministic simulation of SLIP_LU / AMD / COLAMD / SuiteSparse_config.
// Shared declarations: PRNG, simulated allocator, plans, violations, exact numbers.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>
#include <boost/multiprecision/cpp_int.hpp>

typedef uint64_t u64;
typedef int64_t i64;
typedef boost::multiprecision::cpp_int Z;
typedef boost::multiprecision::cpp_rational Q;

//--- PRNG ---------------------------------------------------------------------
struct Rng
{
    u64 s;
    explicit Rng (u64 seed = 0) : s (seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next () ; }
    u64 next ()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull) ;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull ;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull ;
        return z ^ (z >> 31) ;
    }
    i64 below (i64 n) { return n <= 1 ? 0 : (i64) (next () % (u64) n) ; }
    i64 range (i64 a, i64 b) { return a + below (b - a + 1) ; }
    bool chance (int permille) { return below (1000) < permille ; }
    template<class T> T pick (std::initializer_list<T> l) { return *(l.begin () + below ((i64) l.size ())) ; }
} ;
u64 mix (u64 a, u64 b) ;
u64 hstr (const std::string &s) ;
struct Hash
{
    u64 h = 0xcbf29ce484222325ull ;
    void add (u64 v) { h = mix (h, v) ; }
    void add (const std::string &s) { h = mix (h, hstr (s)) ; }
    void add (const Z &z) ;
    void add (const Q &q) ;
} ;

//--- plans --------------------------------------------------------------------
// A plan is the complete schedule of one run: one "cfg" record and a list of
// steps.  Every step is executed by one simulated client; the order of the
// steps is the interleaving.  A plan is a pure function of one seed.
struct Rec
{
    std::string op ;
    std::map<std::string, i64> f ;
    i64 get (const char *k, i64 d = 0) const { auto it = f.find (k) ; return it == f.end () ? d : it->second ; }
    Rec &set (const char *k, i64 v) { f [k] = v ; return *this ; }
} ;
struct Plan { Rec cfg ; std::vector<Rec> steps ; } ;
Plan make_plan (const std::string &prop, u64 seed, int variant) ;
std::string plan_text (const Plan &p) ;
bool plan_parse (const std::string &t, Plan &p) ;

//--- violations ---------------------------------------------------------------
enum Kind { K_VALUE, K_STATUS, K_FSTATUS, K_HANDLE, K_INPUT, K_RETRY, K_LEAK,
    K_BADFREE, K_BYPASS, K_CRASH, K_HANG, K_OUTPUT, K_DIGEST, K_LIFE, K_FACTOR,
    K_PIVOT, K_PERM, K_VERDICT, K_MEM, K_CLOCK, K_NKINDS } ;
extern const char *kind_name [] ;
u64 prop_mask (const std::string &prop) ;

struct Result     // in memory shared with the parent
{
    int done ;              // 1: run finished (with or without violation)
    int kind ;              // -1: none
    char cls [96] ;         // violation class
    char msg [700] ;
    int step, attempt ;     // where
    u64 log_hash ;
    u64 cov_hash ;
    u64 fault_hash ;        // signature of the fault points reached
    int ndig ;
    u64 dig [400] ;
    int inconclusive ;
    u64 sim_ns ;            // simulated time covered
    u64 counters [64] ;
} ;
enum { CT_STEPS, CT_CALLS, CT_ALLOCS, CT_FAULT_SINGLE, CT_FAULT_PERSIST, CT_FAULT_PROB,
    CT_FAULT_BUDGET, CT_FAULT_SIZE, CT_FAULT_REALLOC, CT_FAULT_ALLREALLOC, CT_FAULT_BURST,
    CT_FAULT_HUGE, CT_CALLS_FAULTED, CT_OOM_RET, CT_OK_DESPITE, CT_SINGULAR, CT_MOVED,
    CT_REUSED, CT_SESSIONS, CT_IO_EOF, CT_IO_ERR, CT_IO_SHORT, CT_IO_FLIP, CT_SINK_ERR,
    CT_CORRUPT_VAL, CT_CORRUPT_IDX, CT_CORRUPT_PERM, CT_CLOCK_JUMP, CT_GROWTH, CT_CANCEL,
    CT_JUMBLED, CT_GARBAGE, CT_REJECTED, CT_INVALID_IN, CT_RETRIES, CT_REUSE_FACT, CT_PANIC,
    CT_SOLVES, CT_COPIES, CT_FACTORS, CT_ORDERINGS, CT_WRAPPERS, CT_MEXCALLS, CT_MEXERR, CT_MEXOOM, CT_DENSEROWS, CT_APPS, CT_APP_REFUSED, CT_APP_NOFILE, CT_REPORTS, CT_NCT } ;
extern const char *ct_name [] ;
extern Result *R ;
extern u64 g_mask ;
extern int g_step, g_attempt ;
inline void ct (int c, u64 n = 1) { R->counters [c] += n ; }
void logh (u64 v) ;            // add to the run's event log hash
// report a violation; returns only if this kind is outside the property's mask
void fail (Kind k, const char *where, const char *fmt, ...) __attribute__ ((format (printf, 3, 4))) ;
[[noreturn]] void finish_child () ;

//--- simulated allocator --------------------------------------------------------
struct Env            // behaviour of the simulated memory, print sink and clock
{
    int fill = 0 ;    // contents of fresh memory: 0..255 a byte, 256 random
    int reuse = 0 ;   // 0 never reuse an address, 1 LIFO, 2 random, 3 FIFO
    int move = 1 ;    // realloc: 0 in place if possible, 1 always moves, 2 random
    int pad = 0 ;     // random extra space between blocks
    int sink = 0 ;    // printf_func: 0 counting, 1 NULL, 2 returns errors
    u64 seed = 1 ;
} ;
struct Fault
{
    int mode = 0 ;    // 1 single k, 2 from k on, 3 random, 4 budget, 5 size, 6 kth growth realloc,
                      // 7 every realloc, 8 burst of w from k
    i64 k = 0, w = 0 ;
    u64 seed = 0 ;
    i64 pm = 0 ;      // permille, budget bytes, or size
} ;
void arena_start (const Env &e) ;
void fault_on (const Fault &f) ;
void fault_off () ;
i64 fault_fired () ;           // # of refusals since fault_on
i64 fault_requests () ;        // # of allocation requests since fault_on
i64 arena_live () ;            // # of live blocks
std::string arena_live_desc () ;
u64 arena_bytes () ;           // bytes given out so far, as requested
i64 arena_ops () ;             // total # of allocator calls
i64 arena_set_ops (int set) ;  // ... through one set of functions
bool arena_is_live (const void *p) ;
size_t arena_size (const void *p) ;
extern bool g_arena_exhausted ;
extern "C" {
void *simA_malloc (size_t) ; void *simA_calloc (size_t, size_t) ; void *simA_realloc (void *, size_t) ; void simA_free (void *) ;
void *simB_malloc (size_t) ; void *simB_calloc (size_t, size_t) ; void *simB_realloc (void *, size_t) ; void simB_free (void *) ;
void *simC_calloc (size_t, size_t) ; void simC_free (void *) ;
}
void *sim_set_malloc (int set, size_t n) ; void *sim_set_calloc (int set, size_t a, size_t b) ;   // further sets of functions
void *sim_set_realloc (int set, void *p, size_t n) ; void sim_set_free (int set, void *p) ;
i64 arena_sweep (int set, const std::set<const void *> &keep) ;   // releases what is left of a set; # of blocks
void *client_alloc (size_t n) ;     // memory owned by the simulated client (not counted, not faulted)
void client_free (void *p) ;
extern int g_in_lib ;               // inside a call into the code under test
extern u64 g_libc_allocs ;          // libc allocations made by the code under test
void install_hooks () ;
int sim_printf (const char *fmt, ...) ;
extern i64 g_sink_calls ;
extern u64 g_sink_hash ;
extern std::string g_sink_text ;
void sink_install (int mode, u64 seed) ;

//--- simulated clock ---------------------------------------------------------------
extern i64 g_clock_sec, g_clock_nsec ;
void clock_advance (u64 ns) ;
extern i64 g_clock_reads ;
extern bool g_clock_simulated ;

#endif
