// The simulated clients: state, helpers and the attempt driver.
#ifndef OPS_H
#define OPS_H
#include "num.h"
extern "C" {
#include "amd.h"
#include "colamd.h"
}
#define LIB(x) (lib_enter (), lib_leave (x))
inline void lib_enter () { g_in_lib++ ; R->counters [CT_CALLS]++ ; }
template<class T> inline T lib_leave (T v) { g_in_lib-- ; return v ; }
#define LIBV(x) do { lib_enter () ; x ; g_in_lib-- ; } while (0)

// a SLIP_matrix as the oracle sees it
struct Ent { i64 i, j ; Q v ; } ;
struct View
{
    int kind = 0, type = 0 ; i64 m = 0, n = 0 ;
    Q scale = 1 ;                 // stored scale
    std::vector<Ent> e ;          // stored values (not divided by scale)
    Q val (const Ent &x) const { return type == SLIP_MPZ ? Q (x.v / scale) : x.v ; }
} ;
// reads every stored entry; checks that the object is well formed on the way
View mat_view (const SLIP_matrix *A, const char *who) ;
// digest of everything a caller can see in a matrix (not addresses)
u64 mat_digest (const SLIP_matrix *A) ;
void chkmem (const void *p, size_t n, const char *who) ;   // readable, live memory

// memory lent to the library by a client
struct Lent { std::vector<void *> blocks ; u64 digest = 0 ; } ;
struct Mat { SLIP_matrix *A = nullptr ; View v ; int shallow = 0 ; Lent lent ; u64 dg = 0 ; } ;
struct Spec { int kind, type ; i64 m, n ; std::vector<Ent> e ; Q scale = 1 ; int sh = 0 ; i64 extra = 0 ; int prec = 128 ; bool dup = false ; } ;
// builds a library matrix holding the given stored values
void build_mat (Mat &M, const Spec &s) ;
u64 lent_digest (const Mat &M) ;
void check_lent (const Mat &M, const char *who) ;
void drop_mat (Mat &M) ;

struct Opt { SLIP_options *o = nullptr ; SLIP_options v ; } ;
void make_opt (Opt &O, const Rec &s) ;
void drop_opt (Opt &O) ;
int opt_prec (const Opt &O) ;
u64 opt_digest (const Opt &O) ;

struct Sys
{
    bool live = false, haveS = false, haveF = false, sing = false ;
    int n = 0 ; ZV a ; Mat A ; Z det ;
    Rec spec ;
    SLIP_LU_analysis *S = nullptr ;
    SLIP_matrix *L = nullptr, *U = nullptr, *rhos = nullptr ; int64_t *pinv = nullptr ;
} ;
struct Client { Sys sys [2] ; Mat mat [3] ; } ;
extern Client g_cl [4] ;
extern bool g_no_faults ;
extern int g_sink_mode ;

// one library call under the attempt driver
struct Call
{
    const char *name ;
    std::function<void ()> prep ;              // set up the targets of one attempt (no faults)
    std::function<int ()> run ;                // the call; returns its status
    std::function<bool ()> empty ;             // all outputs empty (NULL)?
    std::function<void ()> drop ;              // release the outputs
    std::function<u64 ()> in ;                 // digest of all inputs
    std::function<u64 ()> out ;                // digest of the outputs of a completed call
    std::function<bool (int)> ok ;             // is this status right when memory is available?
    std::function<void (int)> verify ;         // check the outputs of a completed call
    bool bypass_ok = false ;                   // uses libc facilities (streams, qsort, printf)
    int pr = 0 ;                               // print level
    bool oom_ok_nonempty = false ;
    bool modest = false ;                      // its work needs no block of absurd size

    Kind vkind = K_STATUS ;                    // kind reported for a wrong status
} ;
// runs the call under the step's faults; returns the status of the final,
// fault-free attempt, whose outputs are left in place
int drive (const Rec &s, Call &c) ;
// handles are passed in holding a marker, so that a call that leaves its output
// untouched is noticed; refusing the arguments outright may leave it alone
template<class T> inline T *marker () { return (T *) 0x8 ; }
template<class T> inline void settle (T *&p, int st)
{
    if (p == marker<T> () && (st == SLIP_INCORRECT_INPUT || st == SLIP_PANIC)) p = nullptr ;
}
template<class T> inline bool real (T *p) { return p && p != marker<T> () ; }
std::string st_name (int st) ;

void step_mat (const Rec &s) ;
void step_gmp (const Rec &s) ;
void step_sys (const Rec &s) ;
void step_life (const Rec &s) ;
void step_ord (const Rec &s) ;
void step_ana (const Rec &s) ;
void step_mem (const Rec &s) ;
void step_read (const Rec &s) ;
void step_clk (const Rec &s) ;
void step_mex (const Rec &s) ;
// generated systems (stored integers, column major) and their exact solution
struct Gen { int n = 0 ; ZV a ; std::vector<char> pat ; Q scale = 1 ; } ;
Gen gen_sys (const Rec &s, u64 vseed, int bits) ;
std::vector<Q> solve_exact (const ZV &a, const ZV &b, int n, int nrhs) ;
void sys_free_all (Sys &Y) ;
void step_digest (u64 d) ;
bool expand_ok (const Q &x, const Q &got, bool fp, int prec) ;
bool is_perm (const i64 *q, i64 n) ;
// patterns shared by the ordering operations
struct Pat { i64 m, n ; std::vector<i64> p, i ; bool jumbled = false, dup = false ; } ;
Pat make_pat (const Rec &s, i64 m, i64 n) ;
// simulated input streams, and what the text of one says (fn 0 triplet integers, 1 triplet reals, 2 dense)
struct Stream { std::string data ; size_t at = 0 ; size_t err = SIZE_MAX ; size_t chunk = 0 ; } ;
ssize_t st_read (void *c, char *b, size_t n) ;
struct Parsed { bool ok = false ; i64 m = 0, n = 0, nz = 0 ; std::vector<Ent> e ; bool odd = false, endless = false ; } ;
Parsed parse (const std::string &t, int fn) ;
void step_app (const Rec &s) ;
// current session
extern int g_set ; extern bool g_session ;
void session_begin (int set, bool expert) ;
void session_end (const char *where) ;
#endif
