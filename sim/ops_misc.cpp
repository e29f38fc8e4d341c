// Sessions, orderings, analysis of raw patterns, memory primitives, readers, timers.
#include "ops.h"
#include "SuiteSparse_config.h"
#include <math.h>
#include <algorithm>
extern "C" {
SLIP_info SLIP_tripread (SLIP_matrix **, FILE *, SLIP_options *) ;
SLIP_info SLIP_tripread_double (SLIP_matrix **, FILE *, SLIP_options *) ;
SLIP_info SLIP_read_dense (SLIP_matrix **, FILE *, SLIP_options *) ;
}

//------------------------------------------------------------------------------
// sessions
//------------------------------------------------------------------------------
int g_set ; bool g_session ;
static void set_funcs (int set)
{
    SuiteSparse_config.malloc_func = set ? simB_malloc : simA_malloc ;
    SuiteSparse_config.calloc_func = set ? simB_calloc : simA_calloc ;
    SuiteSparse_config.realloc_func = set ? simB_realloc : simA_realloc ;
    SuiteSparse_config.free_func = set ? simB_free : simA_free ;
}
static bool funcs_are (int set)
{
    return SuiteSparse_config.malloc_func == (set ? simB_malloc : simA_malloc) && SuiteSparse_config.calloc_func == (set ? simB_calloc : simA_calloc)
        && SuiteSparse_config.realloc_func == (set ? simB_realloc : simA_realloc) && SuiteSparse_config.free_func == (set ? simB_free : simA_free) ;
}
void session_begin (int set, bool expert)
{
    int st ;
    if (expert) st = set ? LIB (SLIP_initialize_expert (simB_malloc, simB_calloc, simB_realloc, simB_free)) : LIB (SLIP_initialize_expert (simA_malloc, simA_calloc, simA_realloc, simA_free)) ;
    else { set_funcs (set) ; st = LIB (SLIP_initialize ()) ; }
    if (st != SLIP_OK) fail (K_LIFE, expert ? "initialize_expert" : "initialize", "returned %s", st_name (st).c_str ()) ;
    if (!funcs_are (set)) fail (K_LIFE, expert ? "initialize_expert" : "initialize", "the wrong allocation functions are installed") ;
    g_set = set ; g_session = true ; ct (CT_SESSIONS) ;
}
void session_end (const char *where)
{
    int st = LIB (SLIP_finalize ()) ;
    if (st != SLIP_OK) fail (K_LIFE, "finalize", "returned %s", st_name (st).c_str ()) ;
    g_session = false ;
    if (arena_live () != 0) fail (K_LEAK, "finalize", "%ld block(s) still allocated %s:%s", (long) arena_live (), where, arena_live_desc ().c_str ()) ;
}
static void drop_everything ()
{
    for (auto &c : g_cl) { for (auto &y : c.sys) sys_free_all (y) ; for (auto &m : c.mat) drop_mat (m) ; }
}

// every public call, outside a session
static void probe_outside (Rng &r, const Mat &A, const Mat &B, SLIP_LU_analysis *S, SLIP_matrix *L, SLIP_matrix *U, SLIP_matrix *rhos, int64_t *pinv, SLIP_options *o)
{
    const i64 ops0 = arena_ops () ; const u64 la = g_libc_allocs ;
    std::vector<int> order ; for (int k = 0 ; k < 17 ; k++) order.push_back (k) ;
    for (size_t k = order.size () ; k > 1 ; k--) std::swap (order [k-1], order [(size_t) r.below ((i64) k)]) ;
    const u64 d0 = mat_digest (A.A) ^ mat_digest (B.A) * 3 ;
    for (int k : order)
    {
        SLIP_matrix *X = (SLIP_matrix *) 0x18, *X2 = X, *X3 = X ; int64_t *P = (int64_t *) 0x18 ; SLIP_LU_analysis *T = (SLIP_LU_analysis *) 0x18 ;
        int st = SLIP_PANIC ; const char *nm = "" ; bool odd = false ; std::string w ;
        switch (k)
        {
            case 0: nm = "matrix_allocate" ; st = LIB (SLIP_matrix_allocate (&X, SLIP_CSC, SLIP_MPZ, 2, 2, 2, false, true, o)) ; break ;
            case 1: { nm = "matrix_free" ; SLIP_matrix *Y = A.A ; st = LIB (SLIP_matrix_free (&Y, o)) ; odd = Y != A.A ; break ; }
            case 2: nm = "matrix_nnz" ; { i64 z = LIB (SLIP_matrix_nnz (A.A, o)) ; odd = z != -1 ; } break ;
            case 3: nm = "matrix_copy" ; st = LIB (SLIP_matrix_copy (&X, SLIP_DENSE, SLIP_MPQ, A.A, o)) ; break ;
            case 4: nm = "matrix_check" ; st = LIB (SLIP_matrix_check (A.A, o)) ; break ;
            case 5: { nm = "LU_analysis_free" ; SLIP_LU_analysis *Y = S ; st = LIB (SLIP_LU_analysis_free (&Y, o)) ; odd = Y != S ; break ; }
            case 6: nm = "calloc" ; odd = LIB (SLIP_calloc (3, 8)) != nullptr ; break ;
            case 7: nm = "malloc" ; odd = LIB (SLIP_malloc (24)) != nullptr ; break ;
            case 8: nm = "free" ; LIBV (SLIP_free (pinv)) ; odd = !arena_is_live (pinv) ; break ;
            case 9: { nm = "realloc" ; bool ok = true ; void *q = LIB (SLIP_realloc (50, 2, 8, pinv, &ok)) ; odd = ok || q != pinv ; break ; }
            case 10: nm = "finalize" ; st = LIB (SLIP_finalize ()) ; break ;
            case 11: nm = "backslash" ; st = LIB (SLIP_backslash (&X, SLIP_MPQ, A.A, B.A, o)) ; break ;
            case 12: nm = "LU_analyze" ; st = LIB (SLIP_LU_analyze (&T, A.A, o)) ; break ;
            case 13: nm = "LU_factorize" ; st = LIB (SLIP_LU_factorize (&X, &X2, &X3, &P, A.A, S, o)) ; break ;
            case 14: nm = "LU_solve" ; st = LIB (SLIP_LU_solve (&X, B.A, A.A, L, U, rhos, S, pinv, o)) ; break ;
            case 15: nm = "create_default_options" ; odd = LIB (SLIP_create_default_options ()) != nullptr ; break ;
            case 16: { nm = "realloc" ; bool ok = true ; void *q = LIB (SLIP_realloc (5, 0, 8, nullptr, &ok)) ; odd = ok || q ; break ; }
        }
        ct (CT_PANIC) ;
        if (st != SLIP_PANIC) fail (K_LIFE, nm, "outside a session it returned %s", st_name (st).c_str ()) ;
        if (odd) fail (K_LIFE, nm, "outside a session it did not refuse") ;
        if (X != (SLIP_matrix *) 0x18 || X2 != X || X3 != X || P != (int64_t *) 0x18 || T != (SLIP_LU_analysis *) 0x18) fail (K_LIFE, nm, "outside a session it changed an output argument") ;
        if (arena_ops () != ops0) { fail (K_LIFE, nm, "outside a session it called the allocator") ; return ; }
        if (g_libc_allocs != la) { fail (K_LIFE, nm, "outside a session it allocated memory") ; return ; }
    }
    if ((mat_digest (A.A) ^ mat_digest (B.A) * 3) != d0) fail (K_LIFE, "probe", "outside a session an argument was modified") ;
}
void step_life (const Rec &s)
{
    Rng r ((u64) s.get ("seed")) ; const int lo = (int) s.get ("lo") ;
    drop_everything () ;
    // objects to call with
    Mat A, B ; Spec a, b ; Opt O ; Rec ro ; make_opt (O, ro) ;
    a.kind = SLIP_CSC ; a.type = SLIP_MPZ ; a.m = a.n = 2 ; a.e = { {0, 0, Q (2)}, {1, 0, Q (1)}, {0, 1, Q (1)}, {1, 1, Q (3)} } ;
    b.kind = SLIP_DENSE ; b.type = SLIP_MPZ ; b.m = 2 ; b.n = 1 ; b.e = { {0, 0, Q (5)}, {1, 0, Q (7)} } ;
    build_mat (A, a) ; build_mat (B, b) ;
    SLIP_LU_analysis *S = nullptr ; SLIP_matrix *L = nullptr, *U = nullptr, *rh = nullptr ; int64_t *pinv = nullptr ;
    if (LIB (SLIP_LU_analyze (&S, A.A, O.o)) != SLIP_OK || LIB (SLIP_LU_factorize (&L, &U, &rh, &pinv, A.A, S, O.o)) != SLIP_OK) { fail (K_STATUS, "life", "a 2-by-2 system cannot be factorized") ; finish_child () ; }
    // initializing again is refused
    if (lo & 1)
    {
        int st = lo & 2 ? LIB (SLIP_initialize ()) : g_set ? LIB (SLIP_initialize_expert (simA_malloc, simA_calloc, simA_realloc, simA_free)) : LIB (SLIP_initialize_expert (simB_malloc, simB_calloc, simB_realloc, simB_free)) ;
        if (st != SLIP_PANIC) fail (K_LIFE, "initialize", "initializing twice returned %s", st_name (st).c_str ()) ;
        if (!funcs_are (g_set)) { fail (K_LIFE, "initialize", "initializing twice replaced the allocation functions") ; set_funcs (g_set) ; }
    }
    int st = LIB (SLIP_finalize ()) ; g_session = false ;
    if (st != SLIP_OK) fail (K_LIFE, "finalize", "returned %s", st_name (st).c_str ()) ;
    probe_outside (r, A, B, S, L, U, rh, pinv, O.o) ;
    if (lo & 4) probe_outside (r, A, B, S, L, U, rh, pinv, O.o) ;
    // the same allocator again: the objects are still usable
    session_begin (g_set, (lo & 8) != 0) ;
    {
        SLIP_matrix *X = nullptr ;
        st = LIB (SLIP_LU_solve (&X, B.A, A.A, L, U, rh, S, pinv, O.o)) ;
        if (st != SLIP_OK || !X || q_raw (X->x.mpq [0]) != Q (8, 5) || q_raw (X->x.mpq [1]) != Q (9, 5)) fail (K_LIFE, "LU_solve", "after a restart the solution is wrong (%s)", st_name (st).c_str ()) ;
        if (X) LIBV (SLIP_matrix_free (&X, nullptr)) ;
    }
    (void) LIB (SLIP_LU_analysis_free (&S, nullptr)) ; (void) LIB (SLIP_matrix_free (&L, nullptr)) ; (void) LIB (SLIP_matrix_free (&U, nullptr)) ;
    (void) LIB (SLIP_matrix_free (&rh, nullptr)) ; LIBV (SLIP_free (pinv)) ;
    drop_mat (A) ; drop_mat (B) ; drop_opt (O) ;
    session_end ("at a shutdown in the middle of the history") ;
    if (lo & 16) { st = LIB (SLIP_finalize ()) ; if (st != SLIP_PANIC) fail (K_LIFE, "finalize", "shutting down twice returned %s", st_name (st).c_str ()) ; }
    if (lo & 32) { session_begin ((int) r.below (2), r.chance (500)) ; session_end ("after an empty session") ; }
    session_begin ((int) s.get ("set") & 1, s.get ("expert") != 0) ;
    step_digest (1) ;
}

//------------------------------------------------------------------------------
// orderings
//------------------------------------------------------------------------------
Pat make_pat (const Rec &s, i64 m, i64 n)
{
    Rng r ((u64) s.get ("seed")) ; Pat P ; P.m = m ; P.n = n ; const int shape = (int) s.get ("shape"), dens = (int) s.get ("dens", 250) ;
    std::vector<std::vector<char>> on ((size_t) n, std::vector<char> ((size_t) m, 0)) ;
    std::vector<char> drow ((size_t) m, 0), dcol ((size_t) n, 0) ;
    if (shape == 7) { for (auto &c : drow) c = r.chance (80) ; for (auto &c : dcol) c = r.chance (80) ; }
    for (i64 j = 0 ; j < n ; j++) for (i64 i = 0 ; i < m ; i++)
    {
        bool b = r.chance (dens) ;
        switch (shape)
        {
            case 1: b = i == j ; break ;
            case 2: b = b && (i / 4 == j / 4) ; break ;
            case 3: b = i == j || i == m - 1 || j == n - 1 ; break ;
            case 4: b = std::llabs (i - j) <= 1 + dens / 200 ; break ;
            case 5: if (i < j && i < n && j < m) b = on [(size_t) i] [(size_t) j] ; break ;
            case 6: b = b && r.chance (200) ; break ;
            case 7: b = (b && r.chance (300)) || drow [(size_t) i] || dcol [(size_t) j] ; break ;
            case 8: b = (r.chance (60) || i == j) ; break ;
        }
        on [(size_t) j] [(size_t) i] = b ;
    }
    if (shape == 5) for (i64 j = 0 ; j < n ; j++) for (i64 i = 0 ; i < std::min (m, n) ; i++) if (i < n && j < m && i > j) { if (i < n && j < m && j < n && i < m) on [(size_t) i] [(size_t) j] = on [(size_t) j] [(size_t) i] ; }
    P.p.push_back (0) ;
    const bool jum = s.get ("jum") != 0 ;
    for (i64 j = 0 ; j < n ; j++)
    {
        std::vector<i64> c ; for (i64 i = 0 ; i < m ; i++) if (on [(size_t) j] [(size_t) i]) c.push_back (i) ;
        if (jum && r.chance (500)) for (size_t k = c.size () ; k > 1 ; k--) std::swap (c [k-1], c [(size_t) r.below ((i64) k)]) ;
        if (jum && !c.empty () && r.chance (200)) c.insert (c.begin () + r.below ((i64) c.size () + 1), c [(size_t) r.below ((i64) c.size ())]) ;
        for (size_t k = 0 ; k < c.size () ; k++) { if (k && c [k] <= c [k-1]) P.jumbled = true ; P.i.push_back (c [k]) ; }
        std::vector<i64> t = c ; std::sort (t.begin (), t.end ()) ; for (size_t k = 1 ; k < t.size () ; k++) if (t [k] == t [k-1]) P.dup = true ;
        P.p.push_back ((i64) P.i.size ()) ;
    }
    return P ;
}
template<class I> struct Arr { I *p ; size_t n ; explicit Arr (size_t k) : p ((I *) client_alloc (k * sizeof (I))), n (k) { if (k) memset (p, 0x6B, k * sizeof (I)) ; } ~Arr () { client_free (p) ; } I &operator[] (size_t k) { return p [k] ; }
    Arr (const Arr &) = delete ; u64 dig () const { u64 h = 3 ; for (size_t k = 0 ; k < n ; k++) h = mix (h, (u64) (i64) p [k]) ; return h ; } } ;
static int amd_call (int n, const int *p, const int *i, int *P, double *c, double *inf) { return amd_order (n, p, i, P, c, inf) ; }
static int amd_call (i64 n, const i64 *p, const i64 *i, i64 *P, double *c, double *inf) { return (int) amd_l_order (n, (const SuiteSparse_long *) p, (const SuiteSparse_long *) i, (SuiteSparse_long *) P, c, inf) ; }
static int col_call (int m, int n, int alen, int *A, int *p, double *k, int *st) { return colamd (m, n, alen, A, p, k, st) ; }
static int col_call (i64 m, i64 n, i64 alen, i64 *A, i64 *p, double *k, i64 *st) { return (int) colamd_l (m, n, alen, (SuiteSparse_long *) A, (SuiteSparse_long *) p, k, (SuiteSparse_long *) st) ; }
static int sym_call (int n, int *A, int *p, int *P, double *k, int *st) { return symamd (n, A, p, P, k, st, simC_calloc, simC_free) ; }
static int sym_call (i64 n, i64 *A, i64 *p, i64 *P, double *k, i64 *st) { return (int) symamd_l (n, (SuiteSparse_long *) A, (SuiteSparse_long *) p, (SuiteSparse_long *) P, k, (SuiteSparse_long *) st, simC_calloc, simC_free) ; }
static void report_call (int *st, bool sym) { if (sym) symamd_report (st) ; else colamd_report (st) ; }
static void report_call (i64 *st, bool sym) { if (sym) symamd_l_report ((SuiteSparse_long *) st) ; else colamd_l_report ((SuiteSparse_long *) st) ; }

template<class I> static void amd_step (const Rec &s, std::vector<i64> &perm, std::vector<double> &info, int &status, bool faults)
{
    Rng r (mix ((u64) s.get ("seed"), 31)) ;
    i64 n = std::max<i64> (0, s.get ("n")) ; Pat P = make_pat (s, n, n) ;
    int bad = (int) s.get ("bad") ; i64 nz = (i64) P.i.size () ;
    Arr<I> p ((size_t) n + 1), idx ((size_t) std::max<i64> (nz, 1)), out ((size_t) std::max<i64> (n, 1)) ;
    for (i64 k = 0 ; k <= n ; k++) p [(size_t) k] = (I) P.p [(size_t) k] ;
    for (i64 k = 0 ; k < nz ; k++) idx [(size_t) k] = (I) P.i [(size_t) k] ;
    I nn = (I) n ; const I *pp = p.p, *pi = idx.p ; I *po = out.p ; bool inv = false ;
    switch (bad)
    {
        case 1: nn = -1 - (I) r.below (3) ; inv = true ; break ;
        case 2: pp = nullptr ; inv = true ; break ;
        case 3: pi = nullptr ; inv = true ; break ;
        case 4: po = nullptr ; inv = true ; break ;
        case 5: if (n > 0) { p [0] = 1 ; inv = true ; } break ;
        case 6: if (n > 1 && nz > 0) { i64 j = r.range (1, n - 1) ; if (P.p [(size_t) j] > 0 && P.p [(size_t) j] == P.p [(size_t) j + 1]) { p [(size_t) j + 1] = (I) (P.p [(size_t) j] - 1) ; inv = true ; if (j + 1 == n) { /* fewer entries: the last pointer */ } } else if (P.p [(size_t) j] > 0) { p [(size_t) j] = (I) -1 ; inv = true ; } } break ;
        case 7: if (nz) { idx [(size_t) r.below (nz)] = -1 - (I) r.below (2) ; inv = true ; } break ;
        case 8: if (nz) { idx [(size_t) r.below (nz)] = (I) (n + r.below (3)) ; inv = true ; } break ;
        case 9: if (n > 0) { p [(size_t) n] = -1 - (I) r.below (3) ; inv = true ; } break ;
        case 10: if (n > 1) { p [(size_t) r.range (1, n - 1)] = (I) (nz + 1 + r.below (4)) ; inv = true ; } break ;
        case 11: if (nz) { idx [(size_t) r.below (nz)] = (I) 1 << (sizeof (I) * 8 - 2) ; inv = true ; } break ;
    }
    if (n == 0 && (bad >= 5 || bad == 0)) inv = false ;
    Arr<double> ctl_ (AMD_CONTROL), inf_ (AMD_INFO) ; double *ctl = ctl_.p, *inf = inf_.p, *pc = ctl ;
    memset (ctl, 0, AMD_CONTROL * sizeof *ctl) ;
    if (sizeof (I) == 4) LIBV (amd_defaults (ctl)) ; else LIBV (amd_l_defaults (ctl)) ;
    switch (s.get ("knob")) { case 0: pc = nullptr ; break ; case 1: break ; case 2: ctl [AMD_DENSE] = -1 ; break ; case 3: ctl [AMD_DENSE] = 1 ; break ; case 4: ctl [AMD_DENSE] = 0 ; break ; default: ctl [AMD_DENSE] = 2.5 ; }
    if (s.get ("aggr")) ctl [AMD_AGGRESSIVE] = s.get ("aggr") == 1 ? 0 : 1 ;
    if (inv) ct (CT_INVALID_IN) ;
    if (P.jumbled) ct (CT_JUMBLED) ;
    const bool wantinfo = r.chance (850) ;
    Call c ; c.name = sizeof (I) == 4 ? "amd_order" : "amd_l_order" ;
    const i64 live0 = arena_live () ; u64 bytes0 = 0 ;
    c.prep = [&] { bytes0 = arena_bytes () ; for (int k = 0 ; k < AMD_INFO ; k++) inf [k] = -77 ; for (i64 k = 0 ; k < n ; k++) out [(size_t) k] = -5 ; } ;
    c.run = [&] { int st = amd_call (nn, pp, pi, po, pc, wantinfo ? inf : nullptr) ; if (wantinfo && inf [AMD_STATUS] != st) fail (K_STATUS, c.name, "Info says status %g, the call returned %d", inf [AMD_STATUS], st) ; return st ; } ;
    c.empty = [] { return true ; } ; c.drop = [] { } ;
    c.in = [&] { if (arena_live () != live0) fail (K_LEAK, c.name, "%ld block(s) still allocated after it returned:%s", (long) (arena_live () - live0), arena_live_desc ().c_str ()) ; return mix (p.dig (), idx.dig ()) ; } ;
    c.out = [&] { Hash h ; for (i64 k = 0 ; k < n ; k++) h.add ((u64) (i64) out [(size_t) k]) ; if (wantinfo) for (int k = 0 ; k < AMD_INFO ; k++) { u64 b ; memcpy (&b, &inf [k], 8) ; h.add (b) ; } return h.h ; } ;
    const int want = inv ? AMD_INVALID : n > 0 && P.jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK ;
    c.ok = [&] (int st) { return st == want ; } ;
    c.verify = [&] (int st)
    {
        if (st < 0) return ;
        std::vector<i64> q ; for (i64 k = 0 ; k < n ; k++) q.push_back ((i64) out [(size_t) k]) ;
        if (!is_perm (q.data (), n)) { fail (K_PERM, c.name, "the result is not a permutation of %ld indices", (long) n) ; return ; }
        if (wantinfo && n > 0)
        {
            std::vector<char> m ((size_t) (n * n), 0) ; i64 cnt = 0, diag = 0, both = 0, aat = 0 ;
            for (i64 j = 0 ; j < n ; j++) for (i64 k = P.p [(size_t) j] ; k < P.p [(size_t) j + 1] ; k++) { char &x = m [(size_t) (P.i [(size_t) k] + j * n)] ; if (!x) { cnt++ ; if (P.i [(size_t) k] == j) diag++ ; } x = 1 ; }
            for (i64 j = 0 ; j < n ; j++) for (i64 i = 0 ; i < j ; i++) { int x = m [(size_t) (i + j * n)] + m [(size_t) (j + i * n)] ; if (x == 2) both++ ; if (x) aat += 2 ; }
            double sym = cnt == diag ? 1 : (2.0 * (double) both) / (double) (cnt - diag) ;
            auto eq = [&] (int k, double v, const char *w) { if (inf [k] != v) fail (K_STATUS, c.name, "Info reports %s %g, it is %g", w, inf [k], v) ; } ;
            eq (AMD_N, (double) n, "dimension") ;
            if (const double used = (double) (arena_bytes () - bytes0) ; !(inf [AMD_MEMORY] >= used && inf [AMD_MEMORY] <= used + 64)) fail (K_STATUS, c.name, "Info reports %g bytes of memory, it requested %g", inf [AMD_MEMORY], used) ;
            if (!P.dup || inf [AMD_NZ] != (double) nz) eq (AMD_NZ, (double) cnt, "entries") ;
            eq (AMD_NZDIAG, (double) diag, "diagonal entries") ; eq (AMD_NZ_A_PLUS_AT, (double) aat, "entries of the combined pattern") ;
            if (fabs (inf [AMD_SYMMETRY] - sym) > 1e-12) eq (AMD_SYMMETRY, sym, "symmetry") ;
            // rows with more off-diagonal entries than the documented limit are ordered last
            {
                const double alpha = !pc ? 10.0 : ctl [AMD_DENSE] ;
                double lim = alpha < 0 ? (double) (n - 2) : std::max (16.0, floor (alpha * sqrt ((double) n))) ; lim = std::min (lim, (double) n) ;
                std::vector<char> de ((size_t) n, 0) ; i64 nde = 0 ;
                for (i64 j = 0 ; j < n ; j++) { i64 d = 0 ; for (i64 i = 0 ; i < n ; i++) if (i != j && (m [(size_t) (i + j * n)] || m [(size_t) (j + i * n)])) d++ ; de [(size_t) j] = d > 0 && (double) d > lim ; nde += de [(size_t) j] ; }
                if (alpha >= 0)
                {
                    eq (AMD_NDENSE, (double) nde, "dense rows") ;
                    for (i64 k = 0 ; k < n ; k++) if ((de [(size_t) q [(size_t) k]] != 0) != (k >= n - nde)) { fail (K_PERM, c.name, "the dense rows are not ordered last") ; break ; }
                    if (nde) ct (CT_DENSEROWS) ;
                }
            }
            // symbolic factorization of the permuted pattern: the counts Info reports are upper bounds of it (no row removed as dense)
            if (inf [AMD_NDENSE] == 0)
            {
                std::vector<std::vector<char>> g ((size_t) n, std::vector<char> ((size_t) n, 0)) ;
                for (i64 a = 0 ; a < n ; a++) for (i64 b = 0 ; b < n ; b++) if (a != b && m [(size_t) (q [(size_t) a] + q [(size_t) b] * n)]) g [(size_t) a] [(size_t) b] = g [(size_t) b] [(size_t) a] = 1 ;
                i64 lnz = 0, dmax = 0 ; double lu = 0, ldl = 0 ;
                for (i64 a = 0 ; a < n ; a++)
                {
                    std::vector<i64> nb ; for (i64 b = a + 1 ; b < n ; b++) if (g [(size_t) a] [(size_t) b]) nb.push_back (b) ;
                    for (i64 x : nb) for (i64 y : nb) if (x != y) g [(size_t) x] [(size_t) y] = 1 ;
                    const double c = (double) nb.size () ; lnz += (i64) nb.size () ; dmax = std::max (dmax, 1 + (i64) nb.size ()) ; lu += c * c ; ldl += c * (c + 1) / 2 ;
                }
                auto ge = [&] (int k, double v, const char *w) { if (!(inf [k] >= v)) fail (K_STATUS, c.name, "Info reports %s at most %g, the factorization with this ordering has %g", w, inf [k], v) ; } ;
                ge (AMD_LNZ, (double) lnz, "entries of L") ; ge (AMD_NDIV, (double) lnz, "divisions") ; ge (AMD_NMULTSUBS_LU, lu, "multiplications (LU)") ; ge (AMD_NMULTSUBS_LDL, ldl, "multiplications (LDL')") ; ge (AMD_DMAX, (double) dmax, "entries in a column of L") ;
            }
        }
        ct (CT_ORDERINGS) ;
    } ;
    Rec s2 = s ; if (!faults) s2.f.erase ("nf") ;
    status = drive (s2, c) ;
    perm.clear () ; info.clear () ;
    if (status >= 0) for (i64 k = 0 ; k < n ; k++) perm.push_back ((i64) out [(size_t) k]) ;
    if (wantinfo && inf [AMD_NCMPA] > 0 && n > 0) ct (CT_GARBAGE) ;
    if (status >= 0 && wantinfo && n > 0) for (int k = 0 ; k < AMD_INFO ; k++) if (k != AMD_MEMORY) info.push_back (inf [k]) ;
    if (s.get ("pr") && wantinfo && status >= 0) { if (sizeof (I) == 4) { LIBV (amd_control (pc)) ; LIBV (amd_info (inf)) ; } else { LIBV (amd_l_control (pc)) ; LIBV (amd_l_info (inf)) ; } }
}
// the report of an ordering names its status, with the items the statistics hold for it, and no other one
template<class I> static std::string report_body (I *st, bool sym)
{
    const size_t at = g_sink_text.size () ;
    LIBV (report_call (st, sym)) ;
    std::string t = g_sink_text.substr (std::min (at, g_sink_text.size ())) ;
    size_t k = t.find (st [COLAMD_STATUS] >= 0 ? "OK" : "ERROR") ;
    if (k == std::string::npos) return "" ;
    k += st [COLAMD_STATUS] >= 0 ? 2 : 5 ;
    while (k < t.size () && !isalnum ((unsigned char) t [k])) k++ ;
    while (!t.empty () && isspace ((unsigned char) t.back ())) t.pop_back () ;
    return k < t.size () ? t.substr (k) : "" ;
}
template<class I> static void check_report (I *st, bool sym, const char *who)
{
    const std::string keep = g_sink_text ; g_sink_text.clear () ;
    const int v = (int) st [COLAMD_STATUS] ;
    const std::string body = report_body (st, sym) ;
    if (!body.empty ())
    {
        std::vector<int> items ;
        switch (v)
        {
            case COLAMD_OK_BUT_JUMBLED: items = { COLAMD_INFO1, COLAMD_INFO2, COLAMD_INFO3, COLAMD_DENSE_ROW, COLAMD_DENSE_COL, COLAMD_DEFRAG_COUNT } ; break ;
            case COLAMD_OK: items = { COLAMD_DENSE_ROW, COLAMD_DENSE_COL, COLAMD_DEFRAG_COUNT } ; break ;
            case COLAMD_ERROR_nrow_negative: case COLAMD_ERROR_ncol_negative: case COLAMD_ERROR_nnz_negative: case COLAMD_ERROR_p0_nonzero: items = { COLAMD_INFO1 } ; break ;
            case COLAMD_ERROR_A_too_small: case COLAMD_ERROR_col_length_negative: case COLAMD_ERROR_row_index_out_of_bounds: items = { COLAMD_INFO1, COLAMD_INFO2 } ; break ;
        }
        std::multiset<long> have ;
        for (const char *t = body.c_str () ; *t ; )
        {
            if (isdigit ((unsigned char) *t) || (*t == '-' && isdigit ((unsigned char) t [1]))) { char *e ; have.insert (strtol (t, &e, 10)) ; t = e ; } else t++ ;
        }
        for (int k : items)
        {
            auto f = have.find ((long) st [k]) ;
            if (f == have.end ()) { fail (K_STATUS, who, "the report of status %d does not contain %ld, item %d of the statistics", v, (long) st [k], k) ; break ; }
            have.erase (f) ;
        }
        if (v < 0)
        {
            I o [COLAMD_STATS] ; memcpy (o, st, sizeof o) ;
            for (int e : { COLAMD_ERROR_A_not_present, COLAMD_ERROR_p_not_present, COLAMD_ERROR_nrow_negative, COLAMD_ERROR_ncol_negative, COLAMD_ERROR_nnz_negative, COLAMD_ERROR_p0_nonzero,
                           COLAMD_ERROR_A_too_small, COLAMD_ERROR_col_length_negative, COLAMD_ERROR_row_index_out_of_bounds, COLAMD_ERROR_out_of_memory })
            {
                if (e == v) continue ;
                o [COLAMD_STATUS] = e ;
                g_sink_text.clear () ; const std::string other = report_body (o, sym) ;
                if (!other.empty () && body.find (other) != std::string::npos) { fail (K_STATUS, who, "the report of status %d is also that of status %d", v, e) ; break ; }
            }
        }
        ct (CT_REPORTS) ;
    }
    g_sink_text = keep ;
}
template<class I> static void col_step (const Rec &s, bool sym, std::vector<i64> &perm, int &status, bool faults)
{
    Rng r (mix ((u64) s.get ("seed"), 32)) ;
    i64 n = std::max<i64> (0, s.get ("n")), m = sym ? n : (s.get ("m") ? s.get ("m") : n) ;
    if (m < 0) m = n ;
    Pat P = make_pat (s, m, n) ;
    int bad = (int) s.get ("bad") ; const i64 nz = (i64) P.i.size () ;
    const i64 need = 2 * nz + 6 * (n + 1) + 4 * (m + 1) + n ;
    i64 alen = need + s.get ("slack") ;
    if (s.get ("slack") == 5) { i64 rec = sizeof (I) == 4 ? (i64) LIB (colamd_recommended ((int) nz, (int) m, (int) n)) : (i64) LIB (colamd_l_recommended (nz, m, n)) ; if (rec < need) fail (K_STATUS, "colamd_recommended", "returned %ld, %ld are needed", (long) rec, (long) need) ; else alen = rec ; }
    if (!sym && bad == 7) alen = need - 1 - r.below (need / 2 + 1) ;
    Arr<I> pin ((size_t) n + 1), idx ((size_t) std::max<i64> (nz, 1)) ;
    for (i64 k = 0 ; k <= n ; k++) pin [(size_t) k] = (I) P.p [(size_t) k] ;
    for (i64 k = 0 ; k < nz ; k++) idx [(size_t) k] = (I) P.i [(size_t) k] ;
    const size_t room = sym ? (size_t) std::max<i64> (nz, 1) : (size_t) std::max<i64> (alen, std::max<i64> (nz, 1)) ;
    Arr<I> A (room), p ((size_t) n + 1), out ((size_t) n + 1) ;
    Arr<I> st_ (COLAMD_STATS) ; I *st = st_.p ; I mm = (I) m, nn = (I) n ; int want = P.jumbled ? COLAMD_OK_BUT_JUMBLED : COLAMD_OK ;
    bool nullA = false, nullp = false, nullst = false ;
    switch (bad)
    {
        case 1: nullA = true ; want = COLAMD_ERROR_A_not_present ; break ;
        case 2: nullp = true ; want = COLAMD_ERROR_p_not_present ; break ;
        case 3: if (!sym) { mm = -1 ; want = COLAMD_ERROR_nrow_negative ; } break ;
        case 4: nn = -1 ; want = COLAMD_ERROR_ncol_negative ; break ;
        case 5: pin [(size_t) n] = -1 - (I) r.below (3) ; want = COLAMD_ERROR_nnz_negative ; break ;
        case 6: pin [0] = 1 ; if (n == 0 || nz >= 0) want = COLAMD_ERROR_p0_nonzero ; break ;
        case 7: if (!sym) want = COLAMD_ERROR_A_too_small ; break ;
        case 8: if (n > 1) { i64 j = r.range (1, n - 1) ; pin [(size_t) j] = r.chance (500) ? (I) (nz + 1 + r.below (3)) : (I) -1 ; want = COLAMD_ERROR_col_length_negative ; } break ;
        case 9: case 10: if (nz) { i64 k = r.below (nz) ; idx [(size_t) k] = bad == 9 ? (I) -1 - (I) r.below (2) : (I) (m + r.below (3)) ; want = COLAMD_ERROR_row_index_out_of_bounds ; } break ;
        case 11: nullst = true ; want = 0 ; break ;
    }
    const bool isbad = want < 0 || nullst ;
    // what the statistics must say about the first error, or about jumbled columns
    i64 inf [3] = { -1, -1, -1 } ; int ninf = 0 ;
    switch (want)
    {
        case COLAMD_ERROR_nrow_negative: inf [0] = (i64) mm ; ninf = 1 ; break ;
        case COLAMD_ERROR_ncol_negative: inf [0] = (i64) nn ; ninf = 1 ; break ;
        case COLAMD_ERROR_nnz_negative: inf [0] = (i64) pin [(size_t) n] ; ninf = 1 ; break ;
        case COLAMD_ERROR_p0_nonzero: inf [0] = (i64) pin [0] ; ninf = 1 ; break ;
        case COLAMD_ERROR_A_too_small: inf [0] = alen + 1 ; inf [1] = alen ; ninf = -2 ; break ;
        case COLAMD_ERROR_col_length_negative: for (i64 j = n - 1 ; j >= 0 ; j--) if (pin [(size_t) j + 1] < pin [(size_t) j]) { inf [0] = j ; inf [1] = (i64) pin [(size_t) j + 1] - (i64) pin [(size_t) j] ; } ninf = 2 ; break ;
        case COLAMD_ERROR_row_index_out_of_bounds: for (i64 j = 0 ; j < n ; j++) for (i64 k = P.p [(size_t) j] ; k < P.p [(size_t) j + 1] ; k++) if (idx [(size_t) k] < 0 || idx [(size_t) k] >= (I) m) { inf [0] = j ; inf [1] = (i64) idx [(size_t) k] ; } inf [2] = m ; ninf = 3 ; break ;
        case COLAMD_OK_BUT_JUMBLED:
            inf [2] = 0 ; ninf = 3 ;
            for (i64 j = 0 ; j < n ; j++) for (i64 k = P.p [(size_t) j] + 1 ; k < P.p [(size_t) j + 1] ; k++)
            {
                bool odd = idx [(size_t) k] <= idx [(size_t) k - 1] ; for (i64 l = P.p [(size_t) j] ; l < k ; l++) odd = odd || idx [(size_t) l] == idx [(size_t) k] ;
                if (odd) { inf [0] = j ; inf [1] = (i64) idx [(size_t) k] ; inf [2]++ ; }
            }
            break ;
    }
    if (isbad) ct (CT_INVALID_IN) ;
    if (P.jumbled) ct (CT_JUMBLED) ;
    Arr<double> kn_ (COLAMD_KNOBS) ; double *kn = kn_.p, *pk = kn ; memset (kn, 0, COLAMD_KNOBS * sizeof *kn) ;
    if (sizeof (I) == 4) LIBV (colamd_set_defaults (kn)) ; else LIBV (colamd_l_set_defaults (kn)) ;
    switch (s.get ("knob")) { case 0: pk = nullptr ; break ; case 1: break ; case 2: kn [COLAMD_DENSE_ROW] = kn [COLAMD_DENSE_COL] = -1 ; break ; case 3: kn [COLAMD_DENSE_ROW] = 0.5 ; break ; case 4: kn [COLAMD_DENSE_COL] = 1 ; break ; default: kn [COLAMD_DENSE_ROW] = 0 ; }
    if (s.get ("aggr")) kn [COLAMD_AGGRESSIVE] = s.get ("aggr") == 1 ? 0 : 1 ;
    const i64 live0 = arena_live () ;
    i64 others = 0 ;
    int garb = (int) s.get ("garb") ;
    Call c ; c.name = sym ? (sizeof (I) == 4 ? "symamd" : "symamd_l") : (sizeof (I) == 4 ? "colamd" : "colamd_l") ;
    c.prep = [&]
    {
        for (size_t k = 0 ; k < A.n ; k++) { if (k < (size_t) nz) A [k] = idx [k] ; else memset (&A [k], garb, sizeof (I)) ; }
        for (i64 k = 0 ; k <= n ; k++) { p [(size_t) k] = pin [(size_t) k] ; out [(size_t) k] = (I) -9 ; }
        memset (st, garb, COLAMD_STATS * sizeof *st) ;
        others = arena_set_ops (0) + arena_set_ops (1) ;
    } ;
    c.run = [&] () -> int
    {
        int ok = sym ? sym_call (nn, nullA ? nullptr : A.p, nullp ? nullptr : p.p, out.p, pk, nullst ? nullptr : st)
                     : col_call (mm, nn, (I) alen, nullA ? nullptr : A.p, nullp ? nullptr : p.p, pk, nullst ? nullptr : st) ;
        if (nullst) return ok == 0 ? 0 : 555 ;
        int v = (int) st [COLAMD_STATUS] ;
        if ((ok != 0) != (v >= 0)) return 700 + v ;
        return v == COLAMD_ERROR_out_of_memory ? (int) SLIP_OUT_OF_MEMORY : v < 0 ? 100 - v : v ;
    } ;
    c.empty = [] { return true ; } ; c.drop = [] { } ;
    c.in = [&]
    {
        if (arena_live () != live0) fail (K_LEAK, c.name, "%ld block(s) still allocated after it returned:%s", (long) (arena_live () - live0), arena_live_desc ().c_str ()) ;
        u64 h = 1 ;
        if (sym) { for (i64 k = 0 ; k < nz ; k++) if (A [(size_t) k] != idx [(size_t) k] && A [(size_t) k] != (I) 0x6B6B6B6B6B6B6B6Bll) h = 2 ; for (i64 k = 0 ; k <= n ; k++) if (p [(size_t) k] != pin [(size_t) k] && p [(size_t) k] != (I) 0x6B6B6B6B6B6B6B6Bll) h = 2 ; }
        return h ;
    } ;
    auto result = [&] (i64 k) { return sym ? (i64) out [(size_t) k] : (i64) p [(size_t) k] ; } ;
    c.out = [&] { Hash h ; for (i64 k = 0 ; k < n ; k++) h.add ((u64) result (k)) ; for (int k = 0 ; k < COLAMD_STATS ; k++) h.add ((u64) (i64) st [k]) ; return h.h ; } ;
    const int wst = want < 0 ? 100 - want : want ;
    c.ok = [&] (int v) { return v == wst ; } ;
    c.verify = [&] (int v)
    {
        if (arena_set_ops (0) + arena_set_ops (1) != others) fail (K_BYPASS, c.name, "used an allocator it was not given") ;
        if (nullst) return ;
        if (ninf < 0 ? (i64) st [COLAMD_INFO1] <= alen || (i64) st [COLAMD_INFO2] != alen : false) fail (K_STATUS, c.name, "the workspace has %ld entries, the statistics say %ld are needed and %ld are there", (long) alen, (long) st [COLAMD_INFO1], (long) st [COLAMD_INFO2]) ;
        for (int k = 0 ; k < ninf ; k++) if ((i64) st [COLAMD_INFO1 + k] != inf [k]) fail (K_STATUS, c.name, "status %d: item %d of the statistics is %ld, it should be %ld", want, k + 1, (long) st [COLAMD_INFO1 + k], (long) inf [k]) ;
        if (v > 1) return ;
        std::vector<i64> q ; for (i64 k = 0 ; k < n ; k++) q.push_back (result (k)) ;
        if (!is_perm (q.data (), n)) { fail (K_PERM, c.name, "the result is not a permutation of the %ld columns", (long) n) ; return ; }
        // the rows and columns ignored are the dense and the empty ones, by the documented limits, and these columns come last
        if (!sym || n > 2)
        {
            const double kr = pk ? kn [COLAMD_DENSE_ROW] : 10.0, kc = pk ? kn [COLAMD_DENSE_COL] : 10.0 ;
            std::vector<std::set<i64>> col ((size_t) n) ; i64 rows = m ;
            if (sym) rows = 0 ;
            for (i64 j = 0 ; j < n ; j++)
            {
                std::set<i64> seen ;
                for (i64 k = P.p [(size_t) j] ; k < P.p [(size_t) j + 1] ; k++)
                {
                    const i64 i = P.i [(size_t) k] ;
                    if (!sym) col [(size_t) j].insert (i) ; else if (i > j && seen.insert (i).second) { col [(size_t) i].insert (rows) ; col [(size_t) j].insert (rows) ; rows++ ; }
                }
            }
            auto lim = [] (double a, i64 d) { return std::max (16.0, a * sqrt ((double) d)) ; } ;
            // symamd: its limit is documented for the n rows; the number of entries it uses can be smaller
            double lc = sym ? lim (kr, n) : kc < 0 ? (double) (m - 1) : lim (kc, std::min (m, n)), lc2 = sym ? lim (kr, std::min (rows, n)) : lc ;
            const double lr = sym ? 1e300 : kr < 0 ? (double) (n - 1) : lim (kr, n) ;
            std::vector<i64> rd ((size_t) rows, 0) ; std::vector<char> kc_ ((size_t) n, 0), kr_ ((size_t) rows, 0) ; bool unsure = sym && kr < 0 ; i64 nec = 0, ner = 0, dn = 0 ;
            for (i64 j = 0 ; j < n ; j++)
            {
                const double d = (double) col [(size_t) j].size () ;
                if (d > 0 && (d > lc) != (d > lc2)) unsure = true ;
                kc_ [(size_t) j] = d == 0 || d > lc ; if (d > lc) dn++ ;
                if (!kc_ [(size_t) j]) for (i64 i : col [(size_t) j]) rd [(size_t) i]++ ;
            }
            for (i64 i = 0 ; i < rows ; i++) { kr_ [(size_t) i] = rd [(size_t) i] == 0 || (double) rd [(size_t) i] > lr ; if ((double) rd [(size_t) i] > lr) dn++ ; ner += kr_ [(size_t) i] ; }
            for (i64 j = 0 ; j < n ; j++)
            {
                if (!kc_ [(size_t) j]) { bool all = true ; for (i64 i : col [(size_t) j]) all = all && kr_ [(size_t) i] ; kc_ [(size_t) j] = all ; }
                nec += kc_ [(size_t) j] ;
            }
            if (!unsure)
            {
                if ((i64) st [COLAMD_DENSE_COL] != nec) fail (K_STATUS, c.name, "the statistics report %ld dense or empty columns, there are %ld", (long) st [COLAMD_DENSE_COL], (long) nec) ;
                if ((i64) st [COLAMD_DENSE_ROW] != (sym ? nec : ner)) fail (K_STATUS, c.name, "the statistics report %ld dense or empty rows, there are %ld", (long) st [COLAMD_DENSE_ROW], (long) (sym ? nec : ner)) ;
                for (i64 k = 0 ; k < n ; k++) if ((kc_ [(size_t) q [(size_t) k]] != 0) != (k >= n - nec)) { fail (K_PERM, c.name, "the dense and empty columns are not ordered last") ; break ; }
                if (dn) ct (CT_DENSEROWS) ;
            }
        }
        ct (CT_ORDERINGS) ;
        if (st [COLAMD_DEFRAG_COUNT] > 0) ct (CT_GARBAGE) ;
    } ;
    Rec s2 = s ; if (!faults) s2.f.erase ("nf") ;
    // the order of the errors the plan can combine is not specified
    status = drive (s2, c) ;
    perm.clear () ;
    if (!isbad && status >= 0 && status <= 1)
    {
        for (i64 k = 0 ; k < n ; k++) perm.push_back (result (k)) ;
        // the same input over other garbage
        garb = (garb * 7 + 91) & 255 ; c.prep () ; int v = LIB (c.run ()) ;
        std::vector<i64> q ; for (i64 k = 0 ; k < n ; k++) q.push_back (result (k)) ;
        if (v != status || q != perm) fail (K_PERM, c.name, "the ordering depends on what the workspace contained before") ;
    }
    if (s.get ("pr") && !nullst) check_report (st, sym, c.name) ;
}
void step_ord (const Rec &s)
{
    std::vector<i64> a, b ; int sa = 0, sb = 0 ;
    const bool lng = s.get ("lng") != 0 ;
    if (s.op == "amd")
    {
        std::vector<double> ia, ib ;
        if (lng) { amd_step<i64> (s, a, ia, sa, true) ; amd_step<int> (s, b, ib, sb, false) ; } else { amd_step<int> (s, a, ia, sa, true) ; amd_step<i64> (s, b, ib, sb, false) ; }
        if (sa != sb || a != b || (!ia.empty () && !ib.empty () && ia != ib)) fail (K_PERM, "amd_order", "the 32-bit and 64-bit versions disagree (status %d and %d)", sa, sb) ;
    }
    else
    {
        bool sym = s.op == "sym" ;
        if (lng) { col_step<i64> (s, sym, a, sa, true) ; col_step<int> (s, sym, b, sb, false) ; } else { col_step<int> (s, sym, a, sa, true) ; col_step<i64> (s, sym, b, sb, false) ; }
        if (sa != sb || a != b) fail (K_PERM, sym ? "symamd" : "colamd", "the 32-bit and 64-bit versions disagree (status %d and %d)", sa, sb) ;
    }
}

//------------------------------------------------------------------------------
// analysis of any square pattern
//------------------------------------------------------------------------------
void step_ana (const Rec &s)
{
    Rng r (mix ((u64) s.get ("seed"), 33)) ;
    const i64 n = std::max<i64> (0, s.get ("n")) ; int bad = (int) s.get ("bad") ;
    Rec sp = s ; if (bad != 8) sp.set ("jum", 0) ;
    Pat P = make_pat (sp, bad == 3 ? n + 1 : n, n) ;
    if (bad != 8 && s.get ("jum")) for (i64 j = 0 ; j < n ; j++) for (i64 k = P.p [(size_t) j + 1] ; k > P.p [(size_t) j] + 1 ; k--) std::swap (P.i [(size_t) k - 1], P.i [(size_t) (P.p [(size_t) j] + r.below (k - P.p [(size_t) j]))]) ;
    Spec g ; g.kind = bad == 5 ? (r.chance (500) ? SLIP_TRIPLET : SLIP_DENSE) : SLIP_CSC ; g.type = (int) s.get ("type") % 5 ; g.m = P.m ; g.n = n ;
    if (g.kind == SLIP_DENSE) { for (i64 j = 0 ; j < g.n ; j++) for (i64 i = 0 ; i < g.m ; i++) g.e.push_back (Ent {i, j, Q (Z (r.range (-9, 9)))}) ; }
    else for (i64 j = 0 ; j < n ; j++) for (i64 k = P.p [(size_t) j] ; k < P.p [(size_t) j + 1] ; k++) g.e.push_back (Ent {P.i [(size_t) k], j, Q (Z (r.range (1, 9)))}) ;
    g.extra = r.below (4) ; g.dup = bad == 8 ;
    Mat M ; build_mat (M, g) ;
    Opt O ; make_opt (O, s) ;
    bool inv = false, maybe = bad == 8 && P.dup, nul = false ; const bool ident = O.v.order == SLIP_NO_ORDERING ;
    const i64 nz = (i64) P.i.size () ;
    std::vector<i64> sv_p, sv_i ; const bool csc = g.kind == SLIP_CSC ;
    if (csc) { sv_p.assign (M.A->p, M.A->p + n + 1) ; sv_i.assign (M.A->i, M.A->i + nz) ; }
    switch (bad)
    {
        case 1: if (nz) { M.A->i [r.below (nz)] = -1 - r.below (3) ; inv = !ident ; maybe = ident ; } break ;
        case 2: if (nz) { M.A->i [r.below (nz)] = n + r.below (3) ; inv = !ident ; maybe = ident ; } break ;
        case 3: case 5: inv = true ; break ;
        case 4: nul = inv = true ; break ;
        case 6: if (n > 0 && csc) { M.A->p [0] = 1 ; inv = !ident ; maybe = ident ; } break ;
        case 7: if (n > 1 && csc) { i64 j = r.range (1, n - 1) ; M.A->p [j] = r.chance (500) ? nz + 1 + r.below (3) : -1 ; inv = !ident ; maybe = ident ; } break ;
    }
    if (inv) ct (CT_INVALID_IN) ;
    SLIP_LU_analysis *S = nullptr ;
    Call c ; c.name = "LU_analyze" ; c.pr = O.v.print_level ;
    c.run = [&] { S = marker<SLIP_LU_analysis> () ; int st = SLIP_LU_analyze (&S, nul ? nullptr : M.A, O.o) ; settle (S, st) ; return st ; } ;
    c.empty = [&] { return S == nullptr ; } ;
    c.drop = [&] { if (real (S)) LIBV (SLIP_LU_analysis_free (&S, nullptr)) ; S = nullptr ; } ;
    auto raw = [&] { u64 h = opt_digest (O) ; if (!csc) return mix (h, mat_digest (M.A)) ; for (i64 k = 0 ; k <= n ; k++) h = mix (h, (u64) M.A->p [k]) ; for (i64 k = 0 ; k < nz ; k++) h = mix (h, (u64) M.A->i [k]) ; return h ; } ;
    c.in = raw ;
    c.out = [&] { Hash h ; if (real (S)) { for (i64 k = 0 ; k < n ; k++) h.add ((u64) S->q [k]) ; h.add ((u64) S->lnz) ; h.add ((u64) S->unz) ; } return h.h ; } ;
    c.ok = [&] (int st) { if (maybe) return st == SLIP_OK || st == SLIP_INCORRECT_INPUT ; return st == (inv ? SLIP_INCORRECT_INPUT : SLIP_OK) ; } ;
    c.verify = [&] (int st)
    {
        if (st != SLIP_OK) return ;
        if (!real (S)) { fail (K_HANDLE, "LU_analyze", "success without a result") ; return ; }
        chkmem (S, sizeof *S, "LU_analyze") ; chkmem (S->q, 8 * (size_t) n, "LU_analyze") ;
        if (!is_perm (S->q, n)) fail (K_PERM, "LU_analyze", "reported success with an ordering that is not a permutation (ordering choice %d)", (int) O.v.order) ;
        if (n > 0 && !maybe && (S->lnz <= 0 || S->unz <= 0)) fail (K_PERM, "LU_analyze", "size estimates %ld and %ld", (long) S->lnz, (long) S->unz) ;
        ct (CT_ORDERINGS) ;
    } ;
    int st = drive (s, c) ;
    if (csc) { std::copy (sv_p.begin (), sv_p.end (), M.A->p) ; std::copy (sv_i.begin (), sv_i.end (), M.A->i) ; }
    // the estimates let a factorization of this matrix succeed
    if (st == SLIP_OK && real (S) && !maybe && !inv && g.type == SLIP_MPZ && n > 0 && n <= 14)
    {
        ZV a ((size_t) (n * n), Z (0)) ; for (auto &e : g.e) a [(size_t) (e.i + e.j * n)] = qnum (e.v) ;
        const bool sing = det_bareiss (a, (int) n) == 0 ;
        SLIP_matrix *L = nullptr, *U = nullptr, *rh = nullptr ; int64_t *pinv = nullptr ;
        int f = LIB (SLIP_LU_factorize (&L, &U, &rh, &pinv, M.A, S, O.o)) ;
        if (f != (sing ? SLIP_SINGULAR : SLIP_OK)) fail (K_STATUS, "LU_factorize", "with this analysis it returned %s", st_name (f).c_str ()) ;
        if (f == SLIP_OK) { LIBV (SLIP_matrix_free (&L, nullptr)) ; LIBV (SLIP_matrix_free (&U, nullptr)) ; LIBV (SLIP_matrix_free (&rh, nullptr)) ; LIBV (SLIP_free (pinv)) ; }
    }
    c.drop () ;
    drop_opt (O) ; drop_mat (M) ;
}

//------------------------------------------------------------------------------
// memory primitives
//------------------------------------------------------------------------------
void step_mem (const Rec &s)
{
    Rng r ((u64) s.get ("seed")) ; const bool suite = s.get ("layer") != 0 ; const int len = (int) s.get ("len", 5) ;
    const bool faults = s.get ("nf") > 0 && !g_no_faults ;
    struct B { unsigned char *p ; size_t items, size ; unsigned char tag ; } ;
    std::vector<B> bl ; const char *nm = "" ;
    auto fill = [&] (B &b) { size_t n = b.items * b.size ; for (size_t k = 0 ; k < n ; k++) b.p [k] = (unsigned char) (b.tag + k * 7) ; } ;
    auto same = [&] (const B &b, size_t n) { for (size_t k = 0 ; k < n ; k++) if (b.p [k] != (unsigned char) (b.tag + k * 7)) return false ; return true ; } ;
    auto sizes = [&] (size_t &it, size_t &sz)
    {
        it = (size_t) (r.chance (100) ? 0 : r.chance (800) ? r.range (1, 60) : r.range (1, 3000)) ; sz = (size_t) r.pick ({1, 2, 4, 8, 16, 24, 0}) ;
    } ;
    auto overflow = [&] (size_t &it, size_t &sz)
    {
        switch (r.below (8)) { case 6: sz = ((size_t) 1 << 61) + (size_t) r.range (0, 12) ; it = 8 ; break ; case 7: it = ((size_t) 1 << 61) + (size_t) r.range (0, 12) ; sz = (size_t) r.pick ({8, 24, 16}) ; break ;
            case 0: it = SIZE_MAX ; sz = 2 ; break ; case 1: it = (size_t) 1 << 61 ; sz = 8 ; break ; case 2: it = ((size_t) 1 << 61) + 3 ; sz = 8 ; break ;
            case 3: it = SIZE_MAX / 8 + 2 ; sz = 8 ; break ; case 4: it = (size_t) 1 << 32 ; sz = (size_t) 1 << 32 ; break ; default: it = ((size_t) 1 << 60) + (size_t) r.below (5) ; sz = 16 ; }
    } ;
    auto live = [&] (const void *p, size_t n) { if (!arena_is_live (p)) { fail (K_MEM, nm, "returned a pointer that is not a block of the installed allocator") ; return false ; } if (arena_size (p) < n) { fail (K_MEM, nm, "returned a block of %zu bytes where %zu were asked for", arena_size (p), n) ; return false ; } return true ; } ;
    auto one = [&] { Fault f ; if (faults && r.chance (350)) { f.mode = 1 ; f.k = 1 ; } fault_on (f) ; return f.mode != 0 ; } ;
    Hash h ;
    if (suite && r.chance (150))
    {
        // SuiteSparse_start installs the standard functions, finish does not need any; both leave the blocks of the caller alone
        const auto keep = SuiteSparse_config ;
        nm = "SuiteSparse_start" ; const i64 o = arena_ops () ;
        LIBV (SuiteSparse_start ()) ;
        if (!SuiteSparse_config.malloc_func || !SuiteSparse_config.calloc_func || !SuiteSparse_config.realloc_func || !SuiteSparse_config.free_func || !SuiteSparse_config.hypot_func || !SuiteSparse_config.divcomplex_func) fail (K_MEM, nm, "a function is missing") ;
        else
        {
            size_t it = (size_t) r.range (1, 60), sz = (size_t) r.range (1, 24) ; int ok = 0 ;
            unsigned char *p = (unsigned char *) LIB (SuiteSparse_calloc (it, sz)), *q = (unsigned char *) LIB (SuiteSparse_malloc (it, sz)) ;
            if (!p || !q) fail (K_MEM, nm, "the standard functions give no memory") ;
            else
            {
                for (size_t k = 0 ; k < it * sz ; k++) { if (p [k]) { fail (K_MEM, nm, "calloc: byte %zu is not zero", k) ; break ; } q [k] = (unsigned char) k ; }
                q = (unsigned char *) LIB (SuiteSparse_realloc (2 * it, it, sz, q, &ok)) ;
                if (!ok || !q) fail (K_MEM, nm, "realloc fails") ; else for (size_t k = 0 ; k < it * sz ; k++) if (q [k] != (unsigned char) k) { fail (K_MEM, nm, "realloc lost the contents") ; break ; }
            }
            (void) LIB (SuiteSparse_free (p)) ; (void) LIB (SuiteSparse_free (q)) ;
            if (arena_ops () != o) fail (K_MEM, nm, "the functions installed before are still in use") ;
        }
        SuiteSparse_config = keep ;
        LIBV (SuiteSparse_finish ()) ;
        int v [3] = {-1, -1, -1}, w = LIB (SuiteSparse_version (v)), w0 = LIB (SuiteSparse_version (nullptr)) ;
        if (w != SUITESPARSE_VERSION || w0 != w || v [0] != SUITESPARSE_MAIN_VERSION || v [1] != SUITESPARSE_SUB_VERSION || v [2] != SUITESPARSE_SUBSUB_VERSION) fail (K_MEM, "SuiteSparse_version", "reports version %d (%d.%d.%d)", w, v [0], v [1], v [2]) ;
    }
    for (int t = 0 ; t < len ; t++)
    {
        size_t it, sz ; sizes (it, sz) ; const size_t n1 = std::max<size_t> (it, 1) * std::max<size_t> (sz, 1) ;
        const int op = (int) r.below (8) ; bool refused = false ;
        if (op <= 1)           // allocate
        {
            const bool cal = op == 1, over = r.chance (120) ; size_t oi = it, os = sz ; if (over) overflow (oi, os) ;
            if (over && !suite && !cal) { oi = 1 ; os = (size_t) 1 << 62 ; }
            nm = suite ? (cal ? "SuiteSparse_calloc" : "SuiteSparse_malloc") : (cal ? "SLIP_calloc" : "SLIP_malloc") ;
            one () ;
            unsigned char *p = (unsigned char *) (suite ? (cal ? LIB (SuiteSparse_calloc (oi, os)) : LIB (SuiteSparse_malloc (oi, os))) : (cal ? LIB (SLIP_calloc (oi, os)) : LIB (SLIP_malloc (oi * os)))) ;
            refused = fault_fired () > 0 ; fault_off () ;
            if (over) { if (p) { fail (K_MEM, nm, "returned a block for an impossible size (%zu items of %zu bytes)", oi, os) ; bl.push_back (B {p, 0, 1, 0}) ; } continue ; }
            if (refused) { if (p) fail (K_MEM, nm, "returned a block although memory was refused") ; continue ; }
            if (!p) { fail (K_MEM, nm, "returned nothing although memory was available") ; continue ; }
            const size_t want = suite || cal ? n1 : std::max<size_t> (it * sz, 1) ;
            if (!live (p, want)) continue ;
            if (cal) for (size_t k = 0 ; k < n1 ; k++) if (p [k]) { fail (K_MEM, nm, "byte %zu is not zero", k) ; break ; }
            B b {p, suite || cal ? std::max<size_t> (it, 1) : 1, suite || cal ? std::max<size_t> (sz, 1) : want, (unsigned char) r.below (256)} ;
            fill (b) ; bl.push_back (b) ; h.add (want) ;
        }
        else if (op <= 5)      // resize
        {
            nm = suite ? "SuiteSparse_realloc" : "SLIP_realloc" ;
            const bool fresh = bl.empty () || r.chance (100) ; B nb {nullptr, 0, std::max<size_t> (sz, 1), (unsigned char) r.below (256)} ; size_t ix = 0 ;
            if (!fresh) { ix = (size_t) r.below ((i64) bl.size ()) ; nb = bl [ix] ; }
            const bool over = r.chance (80) ;
            size_t ni ; switch (r.below (5)) { case 0: ni = nb.items ; break ; case 1: ni = nb.items / 2 ; break ; case 2: ni = nb.items * 2 + 1 ; break ; case 3: ni = 0 ; break ; default: ni = (size_t) r.range (1, 200) ; }
            if (over) ni = (SIZE_MAX >> 1) / (nb.size > 1 ? nb.size / 2 : 1) - (size_t) r.below (3) ;
            if (over && nb.size < 4) continue ;
            const size_t eff = std::max<size_t> (ni, 1) ;
            one () ; bool ok = fresh ; int oki = fresh ; unsigned char *q ;
            if (suite) { q = (unsigned char *) LIB (SuiteSparse_realloc (ni, nb.items, nb.size, nb.p, &oki)) ; ok = oki != 0 ; }
            else q = (unsigned char *) LIB (SLIP_realloc ((i64) ni, (i64) nb.items, nb.size, nb.p, &ok)) ;
            refused = fault_fired () > 0 ; fault_off () ;
            if (over)
            {
                if (ok) fail (K_MEM, nm, "claims to have grown a block to an impossible size") ;
                if (q != nb.p) fail (K_MEM, nm, "a failed growth returned another pointer") ;
                if (nb.p && (!arena_is_live (nb.p) || !same (nb, nb.items * nb.size))) fail (K_MEM, nm, "a failed growth lost the old block") ;
                continue ;
            }
            const bool grows = nb.p == nullptr || eff > nb.items ;
            if (refused && grows)
            {
                if (ok) fail (K_MEM, nm, "claims success although the growth was refused") ;
                if (q != nb.p) fail (K_MEM, nm, "a refused growth returned another pointer") ;
                if (nb.p && (!live (nb.p, nb.items * nb.size) || !same (nb, nb.items * nb.size))) fail (K_MEM, nm, "a refused growth changed the old block") ;
                continue ;
            }
            if (!ok) { fail (K_MEM, nm, grows ? "reports failure although memory was available" : "reports failure for a request that does not grow") ; if (!fresh && q != nb.p) bl.erase (bl.begin () + (long) ix) ; continue ; }
            if (!q || !live (q, eff * nb.size)) { if (!fresh) bl.erase (bl.begin () + (long) ix) ; continue ; }
            if (nb.p && q != nb.p && arena_is_live (nb.p)) fail (K_MEM, nm, "the old block was not released") ;
            B t2 = nb ; t2.p = q ;
            if (nb.p && !same (t2, std::min (eff, nb.items) * nb.size)) fail (K_MEM, nm, "contents were lost in a resize from %zu to %zu items", nb.items, eff) ;
            t2.items = eff ; fill (t2) ; h.add (eff) ;
            if (fresh) bl.push_back (t2) ; else bl [ix] = t2 ;
        }
        else if (op == 6 && !bl.empty ())
        {
            nm = suite ? "SuiteSparse_free" : "SLIP_free" ;
            size_t ix = (size_t) r.below ((i64) bl.size ()) ; void *p = bl [ix].p ;
            if (suite) { if (LIB (SuiteSparse_free (p))) fail (K_MEM, nm, "does not return null") ; } else LIBV (SLIP_free (p)) ;
            if (arena_is_live (p)) fail (K_MEM, nm, "the block was not released") ;
            bl.erase (bl.begin () + (long) ix) ;
        }
        else
        {
            nm = suite ? "SuiteSparse_free" : "SLIP_free" ; const i64 o = arena_ops () ;
            if (suite) (void) LIB (SuiteSparse_free (nullptr)) ; else LIBV (SLIP_free (nullptr)) ;
            if (arena_live () < 0 || arena_ops () > o + 1) fail (K_MEM, nm, "releasing null did something") ;
        }
        for (auto &b : bl) if (!arena_is_live (b.p) || !same (b, b.items * b.size)) { fail (K_MEM, nm, "another block was changed") ; break ; }
    }
    for (auto &b : bl) { if (suite) (void) LIB (SuiteSparse_free (b.p)) ; else LIBV (SLIP_free (b.p)) ; }
    step_digest (h.h) ;
}

//------------------------------------------------------------------------------
// readers on simulated streams
//------------------------------------------------------------------------------
ssize_t st_read (void *c, char *b, size_t n)
{
    Stream *s = (Stream *) c ;
    if (s->at >= s->err) { errno = EIO ; return -1 ; }
    size_t end = std::min (s->data.size (), s->err) ; size_t k = std::min (n, end - s->at) ;
    if (s->chunk && k > s->chunk) { k = s->chunk ; ct (CT_IO_SHORT) ; }
    memcpy (b, s->data.data () + s->at, k) ; s->at += k ;
    return (ssize_t) k ;
}
// what the text says, read the way the documentation describes the format
struct Scan
{
    const std::string &t ; size_t p = 0 ; explicit Scan (const std::string &x) : t (x) { }
    void ws () { while (p < t.size () && isspace ((unsigned char) t [p])) p++ ; }
    bool integer (Z &z)
    {
        ws () ; bool neg = false ; if (p < t.size () && (t [p] == '-' || t [p] == '+')) { neg = t [p] == '-' ; p++ ; }
        size_t a = p ; while (p < t.size () && isdigit ((unsigned char) t [p])) p++ ;
        if (p == a) return false ;
        size_t b = a ; while (b + 1 < p && t [b] == '0') b++ ;
        z = Z (t.substr (b, p - b)) ; if (neg) z = -z ; return true ;
    }
    bool num (double &d)
    {
        ws () ; if (p >= t.size ()) return false ;
        char c = t [p] ; if (!(isdigit ((unsigned char) c) || c == '-' || c == '+' || c == '.')) return false ;
        char *e ; d = strtod (t.c_str () + p, &e) ; size_t q = (size_t) (e - t.c_str ()) ; if (q == p) return false ; p = q ;
        // an exponent without digits is read as if it were absent
        if (p < t.size () && (t [p] == 'e' || t [p] == 'E')) { p++ ; if (p < t.size () && (t [p] == '-' || t [p] == '+')) p++ ; }
        return true ;
    }
} ;
static i64 sat (const Z &z) { return z > Z (INT64_MAX) ? INT64_MAX : z < Z (INT64_MIN) ? INT64_MIN : (i64) z ; }
Parsed parse (const std::string &t, int fn)
{
    Parsed P ; Scan s (t) ; Z a, b, c ;
    if (fn <= 1)
    {
        if (!s.integer (a) || !s.integer (b) || !s.integer (c)) return P ;
        P.m = sat (a) ; P.n = sat (b) ; P.nz = sat (c) ;
        if (P.m < 0 || P.n < 0 || P.nz < 0 || P.nz > 100000 || P.m > 5000000 || P.n > 5000000) return P ;
        std::map<std::pair<i64,i64>, int> seen ;
        for (i64 k = 0 ; k < P.nz ; k++)
        {
            if (!s.integer (a) || !s.integer (b)) return P ;
            Ent e {sat (a) - 1, sat (b) - 1, Q (0)} ;
            if (fn == 0) { if (!s.integer (c)) return P ; e.v = Q (c) ; }
            else { double d ; if (!s.num (d) || !isfinite (d)) return P ; e.v = d_raw (d) ; }
            if (e.i < 0 || e.j < 0 || e.i >= P.m || e.j >= P.n) return P ;
            if (seen [{e.i, e.j}]++) P.odd = true ;
            P.e.push_back (e) ;
        }
        P.ok = true ; return P ;
    }
    if (!s.integer (a) || !s.integer (b)) return P ;
    P.m = sat (a) ; P.n = sat (b) ;
    P.endless = P.n == 0 && P.m > 5000000 ;      // no entries, but a header that asks for billions of empty rows
    if (P.m < 0 || P.n < 0 || (P.n > 0 && P.m > 100000 / P.n)) return P ;
    for (i64 i = 0 ; P.n > 0 && i < P.m ; i++) for (i64 j = 0 ; j < P.n ; j++) { if (!s.integer (c)) return P ; P.e.push_back (Ent {i, j, Q (c)}) ; }
    P.ok = true ; return P ;
}
void step_read (const Rec &s)
{
    Rng r ((u64) s.get ("seed")) ; const int fn = (int) s.get ("fn") % 4, io = (int) s.get ("io") ; i64 m = std::max<i64> (1, s.get ("m")), n = std::max<i64> (1, s.get ("n")) ;
    const int bits = (int) s.get ("bits", 10) ;
    if (fn == 3 && r.chance (250))
    {
        // fields that are skipped, sets of characters and several numbers in one call
        Stream S ; const int fm = (int) r.below (5) ; const bool alt = r.chance (500) ; const int k = fm == 4 ? 1 : (int) r.range (1, 4) ; std::vector<Z> want ; auto num = [&] { want.push_back (rand_z (r, bits)) ; return want.back ().str () ; } ;
        for (int t = 0 ; t < k ; t++)
            switch (fm)
            {
                case 0: S.data += std::to_string (r.range (-99, 99)) + " " + num () + " " ; S.data += num () + "\n" ; break ;
                case 4: for (int l = 0 ; l < 36 ; l++) S.data += num () + "\n" ; break ;
                case 1: S.data += " ab]" + num () + " " ; S.data += num () + "\n" ; break ;
                case 2: S.data += "7 " + num () + " %" ; S.data += num () + "\n" ; break ;
                default: S.data += num () + "/" ; S.data += (want.push_back (Z (1) + abs (rand_z (r, bits))), want.back ().str ()) + " x" + num () + "\n" ; break ;
            }
        S.chunk = (size_t) s.get ("chunk") ; bool cut = false ;
        if (io == 1 && !g_no_faults) { const size_t l = S.data.size () ; S.data.resize ((size_t) s.get ("iop") % (l + 1)) ; cut = S.data.size () < l ; ct (CT_IO_EOF) ; }
        if (io == 2 && !g_no_faults) { S.err = (size_t) s.get ("iop") % (S.data.size () + 1) ; cut = true ; ct (CT_IO_ERR) ; }
        const int per = fm == 4 ? 1 : fm == 3 ? 3 : 2, ny = fm == 4 ? 36 : 1 ; __mpq_struct q ; memset (&q, 0, sizeof q) ; __mpz_struct y [36] ; memset (y, 0, sizeof y) ; FILE *f = nullptr ; char buf [32] ; int small = 0 ;
        Call c ; c.name = "gmp_fscanf" ; c.bypass_ok = true ; int got = 0 ; bool wrong = false ;
        c.prep = [&] { S.at = 0 ; cookie_io_functions_t io4 = { st_read, nullptr, nullptr, nullptr } ; f = fopencookie (&S, "r", io4) ; memset (&q, 0, sizeof q) ; memset (y, 0, sizeof y) ; (void) LIB (SLIP_mpq_init (&q)) ; for (int l = 0 ; l < ny ; l++) (void) LIB (SLIP_mpz_init (y + l)) ; got = 0 ; wrong = false ; } ;
        c.run = [&] () -> int
        {
            for (int t = 0 ; t < k + 1 ; t++)
            {
                int nc = -1, st = 0 ;
                switch (fm)
                {
                    case 0: st = SLIP_gmp_fscanf (f, alt ? "%*Zd%Zd%Zd%n" : "%*d%Zd%Zd%n", &q._mp_num, y, &nc) ; break ;
                    case 1: st = alt ? SLIP_gmp_fscanf (f, "%*[^]%d]]%Zd%Zd%n", &q._mp_num, y, &nc) : SLIP_gmp_fscanf (f, "%7[^]x]]%Zd%Zd%n", buf, &q._mp_num, y, &nc) ; break ;
                    case 2: st = SLIP_gmp_fscanf (f, "%d%Zd %%%Zd%n", &small, &q._mp_num, y, &nc) ; break ;
                    case 3: st = SLIP_gmp_fscanf (f, "%Qd x%Zd%n", &q, y, &nc) ; break ;
                    default:
                    {
#define F6 "%Zd%Zd%Zd%Zd%Zd%Zd"
#define Y6(o) y + o, y + o + 1, y + o + 2, y + o + 3, y + o + 4, y + o + 5
                        st = SLIP_gmp_fscanf (f, F6 F6 F6 F6 F6 F6 "%n", Y6 (0), Y6 (6), Y6 (12), Y6 (18), Y6 (24), Y6 (30), &nc) ; break ;
                    }
                }
                if (st == SLIP_OUT_OF_MEMORY) return st ;
                if (st != SLIP_OK || nc < 0) { if (t < k && !cut) wrong = true ; return SLIP_OK ; }
                if (t >= k) { wrong = true ; return SLIP_OK ; }
                const size_t at = (size_t) (t * per) ;
                bool good = fm == 4 || z_raw (&q._mp_num) == want [at] ; if (fm == 4) for (int l = 0 ; l < ny ; l++) good = good && z_raw (y + l) == want [(size_t) l] ;
                good = good && (fm != 3 || z_raw (&q._mp_den) == want [at + 1]) && (per == 1 || (fm == 2 && small != 7 ? false : z_raw (y) == want [at + (size_t) per - 1])) ;
                if (!good && !cut) wrong = true ;
                got++ ;
            }
            return SLIP_OK ;
        } ;
        c.empty = [] { return true ; } ;
        c.drop = [&] { if (f) { fclose (f) ; f = nullptr ; } if (q._mp_num._mp_d) LIBV (mpz_clear (&q._mp_num)) ; if (q._mp_den._mp_d) LIBV (mpz_clear (&q._mp_den)) ; for (int l = 0 ; l < ny ; l++) if (y [l]._mp_d) LIBV (mpz_clear (y + l)) ; memset (&q, 0, sizeof q) ; memset (y, 0, sizeof y) ; } ;
        c.in = [] { return 1 ; } ; c.out = [&] { return (u64) got ; } ;
        c.ok = [] (int st) { return st == SLIP_OK ; } ;
        c.verify = [&] (int) { if (wrong || (!cut && got != k)) fail (K_VALUE, "gmp_fscanf", "read %d of %d groups of numbers%s", got, k, wrong ? ", with a wrong value or an error" : "") ; } ;
        drive (s, c) ; c.drop () ;
        return ;
    }
    if (fn == 3)
    {
        // plain numbers through the guarded scanner: integers (fm 0 and 1) or fractions
        Stream S ; const int fm = (int) r.below (4) % 3 ; const bool frac = fm == 2 ; int k = (int) r.range (1, 4) ;
        for (int t = 0 ; t < k ; t++) { S.data += rand_z (r, bits).str () ; if (frac && r.chance (700)) S.data += "/" + (Z (1) + abs (rand_z (r, bits))).str () ; S.data += r.chance (500) ? "\n" : "  " ; }
        if (r.chance (300)) S.data.resize (S.data.find_last_not_of (" \n") + 1) ;
        S.chunk = (size_t) s.get ("chunk") ;
        if (io == 1 && !g_no_faults) { S.data.resize ((size_t) s.get ("iop") % (S.data.size () + 1)) ; ct (CT_IO_EOF) ; }
        if (io == 2 && !g_no_faults) { S.err = (size_t) s.get ("iop") % (S.data.size () + 1) ; ct (CT_IO_ERR) ; }
        __mpq_struct q ; memset (&q, 0, sizeof q) ; mpz_ptr z = &q._mp_num ; FILE *f = nullptr ;
        const std::string eff = S.data.substr (0, S.err == SIZE_MAX ? S.data.size () : S.err) ;
        // what the text received says; "gone" if nothing but blanks follows the last number
        Scan sc (eff) ; std::vector<std::pair<Z,Z>> want ; bool gone = false ;
        while ((int) want.size () <= k)
        {
            sc.ws () ; if (sc.p >= eff.size ()) { gone = true ; break ; }
            Z t, d = 1 ; if (!sc.integer (t)) break ;
            if (frac && sc.p < eff.size () && eff [sc.p] == '/') { sc.p++ ; if (sc.p >= eff.size () || !sc.integer (d)) break ; }
            want.push_back ({t, d}) ;
        }
        Call c ; c.name = "gmp_fscanf" ; c.bypass_ok = true ; int got = 0 ; bool wrong = false, silent = false ;
        c.prep = [&] { S.at = 0 ; cookie_io_functions_t io4 = { st_read, nullptr, nullptr, nullptr } ; f = fopencookie (&S, "r", io4) ; memset (&q, 0, sizeof q) ; (void) LIB (SLIP_mpq_init (&q)) ; got = 0 ; wrong = silent = false ; } ;
        c.run = [&] () -> int
        {
            for (int t = 0 ; t < k + 1 ; t++)
            {
                int nc = -1 ;
                int st = frac ? SLIP_gmp_fscanf (f, "%Qd%n", &q, &nc) : fm == 0 ? SLIP_gmp_fscanf (f, "%Zd%n", z, &nc) : SLIP_gmp_fscanf (f, "%Zd", z) ;
                if (st == SLIP_OUT_OF_MEMORY) return st ;
                const bool more = t < (int) want.size () ;
                if (st != SLIP_OK) { if (more) wrong = true ; return SLIP_OK ; }
                if (!more) { if (gone) silent = true ; else if (fm != 1 && nc >= 0) wrong = true ; return SLIP_OK ; }
                if (fm != 1 && nc < 0) { wrong = true ; return SLIP_OK ; }
                if (z_raw (z) != want [(size_t) t].first || (frac && z_raw (&q._mp_den) != want [(size_t) t].second)) wrong = true ;
                got++ ;
            }
            return SLIP_OK ;
        } ;
        c.empty = [] { return true ; } ;
        c.drop = [&] { if (f) { fclose (f) ; f = nullptr ; } if (q._mp_num._mp_d) LIBV (mpz_clear (&q._mp_num)) ; if (q._mp_den._mp_d) LIBV (mpz_clear (&q._mp_den)) ; memset (&q, 0, sizeof q) ; } ;
        c.in = [] { return 1 ; } ; c.out = [&] { return (u64) got ; } ;
        c.ok = [] (int st) { return st == SLIP_OK ; } ;
        c.verify = [&] (int)
        {
            if (silent) fail (K_VALUE, "gmp_fscanf", "reported success at the end of a stream with nothing left to read") ;
            else if (wrong || got != (int) want.size ()) fail (K_VALUE, "gmp_fscanf", "read %d of %d numbers%s", got, (int) want.size (), wrong ? ", with a wrong value or an error" : "") ;
        } ;
        drive (s, c) ; c.drop () ;
        return ;
    }
    // text of a matrix
    Stream S ; std::vector<Ent> es ;
    auto val = [&] { if (fn != 1) return rand_z (r, bits).str () ; char b [64] ; switch (r.below (3)) { case 0: snprintf (b, sizeof b, "%ld", (long) r.range (-999, 999)) ; break ; case 1: snprintf (b, sizeof b, "%.3f", (double) r.range (-99999, 99999) / 1000) ; break ; default: snprintf (b, sizeof b, "%.10e", (double) r.range (-99999, 99999) / 7) ; } return std::string (b) ; } ;
    if (fn <= 1)
    {
        std::vector<std::string> lines ;
        for (i64 j = 0 ; j < n ; j++) for (i64 i = 0 ; i < m ; i++) if (r.chance (500) || (i == 0 && j == 0)) lines.push_back (std::to_string (i + 1) + " " + std::to_string (j + 1) + " " + val ()) ;
        for (size_t k = lines.size () ; k > 1 ; k--) std::swap (lines [k-1], lines [(size_t) r.below ((i64) k)]) ;
        S.data = std::to_string (m) + " " + std::to_string (n) + " " + std::to_string (lines.size ()) + "\n" ;
        for (auto &l : lines) S.data += l + "\n" ;
    }
    else
    {
        S.data = std::to_string (m) + " " + std::to_string (n) + "\n" ;
        for (i64 i = 0 ; i < m ; i++) { for (i64 j = 0 ; j < n ; j++) S.data += val () + " " ; S.data += "\n" ; }
    }
    bool faulty = false ; const size_t at = (size_t) ((double) s.get ("iop") / 1000 * (double) S.data.size ()) % S.data.size () ;
    S.chunk = (size_t) s.get ("chunk") ;
    if (!g_no_faults) switch (io)
    {
        case 1: S.data.resize (at) ; faulty = true ; ct (CT_IO_EOF) ; break ;
        case 2: S.err = at ; faulty = true ; ct (CT_IO_ERR) ; break ;
        case 3: { static const char alt [] = "0123456789- \n.xe" ; S.data [at] = alt [r.below (16)] ; faulty = true ; ct (CT_IO_FLIP) ; break ; }
        case 4: S.data [at] = (char) (S.data [at] ^ (1 << r.below (7))) ; if (S.data [at] == 0) S.data [at] = '1' ; faulty = true ; ct (CT_IO_FLIP) ; break ;
        case 5: S.data.erase (at, 1 + (size_t) r.below (3)) ; faulty = true ; ct (CT_IO_FLIP) ; break ;
    }
    const std::string eff = S.data.substr (0, S.err == SIZE_MAX ? S.data.size () : S.err) ;
    const Parsed P = parse (eff, fn) ;
    if (P.endless) return ;
    Opt O ; make_opt (O, s) ;
    FILE *f = nullptr ; SLIP_matrix *X = nullptr ;
    Call c ; c.name = fn == 0 ? "tripread" : fn == 1 ? "tripread_double" : "read_dense" ; c.bypass_ok = true ;
    c.prep = [&] { S.at = 0 ; X = nullptr ; cookie_io_functions_t io4 = { st_read, nullptr, nullptr, nullptr } ; f = fopencookie (&S, "r", io4) ; } ;
    c.run = [&] { int st = fn == 0 ? SLIP_tripread (&X, f, O.o) : fn == 1 ? SLIP_tripread_double (&X, f, O.o) : SLIP_read_dense (&X, f, O.o) ; return st ; } ;
    c.empty = [&] { return X == nullptr ; } ;
    c.drop = [&] { if (f) { fclose (f) ; f = nullptr ; } if (real (X)) LIBV (SLIP_matrix_free (&X, nullptr)) ; X = nullptr ; } ;
    c.in = [&] { return opt_digest (O) ; } ;
    c.out = [&] { return real (X) ? mat_digest (X) : 0 ; } ;
    c.ok = [&] (int st) { if (st == SLIP_OK) return true ; if (!faulty) return false ; return st == SLIP_INCORRECT_INPUT || st == SLIP_OUT_OF_MEMORY ; } ;
    c.verify = [&] (int st)
    {
        if (st != SLIP_OK) return ;
        if (!real (X)) { fail (K_HANDLE, c.name, "success without a result") ; return ; }
        if (!P.ok) { fail (K_VALUE, c.name, "reported a matrix as read although the stream was cut or damaged: it says \"%s\"", eff.size () > 120 ? ("..." + eff.substr (eff.size () - 120)).c_str () : eff.c_str ()) ; return ; }
        if (P.odd) return ;
        View v = mat_view (X, c.name) ;
        if (v.m != P.m || v.n != P.n || v.type != SLIP_MPZ || v.kind != (fn == 2 ? SLIP_DENSE : SLIP_CSC)) { fail (K_VALUE, c.name, "the matrix read has the wrong size or kind") ; return ; }
        std::map<std::pair<i64,i64>, Q> g ; for (auto &e : v.e) g [{e.i, e.j}] = v.val (e) ;
        if (v.e.size () != P.e.size ()) { fail (K_VALUE, c.name, "the text has %zu entries, the matrix %zu", P.e.size (), v.e.size ()) ; return ; }
        for (auto &e : P.e)
        {
            auto it = g.find ({e.i, e.j}) ;
            if (it == g.end () || (fn == 1 ? !expand_ok (e.v, it->second, true, opt_prec (O)) : it->second != e.v))
            { fail (K_VALUE, c.name, "entry (%ld,%ld) is %s in the text and %s in the matrix", (long) e.i, (long) e.j, qs (e.v).c_str (), it == g.end () ? "missing" : qs (it->second).c_str ()) ; return ; }
        }
        ct (CT_COPIES) ;
    } ;
    drive (s, c) ;
    c.drop () ; drop_opt (O) ;
}

//------------------------------------------------------------------------------
// timers on the simulated clock
//------------------------------------------------------------------------------
void step_clk (const Rec &s)
{
    Rng r ((u64) s.get ("seed")) ; const int nt = (int) std::max<i64> (1, s.get ("nt", 1)) ;
    g_clock_simulated = true ;
    g_clock_sec = r.chance (500) ? r.range (0, 3) : r.range (0, 1500000000) ; g_clock_nsec = r.pick ({0, 1, 999999999, 500000000, 123456789}) ;
    struct T { double t [2] ; i64 sec, nsec ; double last ; i64 lasts, lastn ; } ; std::vector<T> ts ((size_t) nt) ; std::vector<char> on ((size_t) nt, 0) ;
    Hash h ;
    for (int k = 0 ; k < s.get ("len", 5) ; k++)
    {
        size_t i = (size_t) r.below (nt) ; T &t = ts [i] ;
        switch (r.below (4))
        {
            case 0: if (on [i] && r.chance (500)) break ; LIBV (SuiteSparse_tic (t.t)) ; t.sec = g_clock_sec ; t.nsec = g_clock_nsec ; t.last = -1 ; on [i] = 1 ; break ;
            case 1: case 2:
            {
                if (!on [i]) break ;
                double a = t.t [0], b = t.t [1] ;
                double e = LIB (SuiteSparse_toc (t.t)) ;
                if (a != t.t [0] || b != t.t [1]) fail (K_CLOCK, "toc", "reading the timer changed it") ;
                Q want = Q (Z (g_clock_sec - t.sec)) + Q (Z (g_clock_nsec - t.nsec), Z (1000000000)) ;
                if (want < Q (9000000) && (!isfinite (e) || abs (Q (d_raw (e) - want)) > Q (Z (1), Z (1000000000)))) fail (K_CLOCK, "toc", "%.12g seconds reported, %s elapsed", e, qs (want).c_str ()) ;
                if (e < 0) fail (K_CLOCK, "toc", "negative time %.12g", e) ;
                if (t.last >= 0 && e < t.last) fail (K_CLOCK, "toc", "went backwards from %.12g to %.12g", t.last, e) ;
                t.last = e ; u64 bb ; memcpy (&bb, &e, 8) ; h.add (bb) ;
                break ;
            }
            case 3:
            {
                double e = LIB (SuiteSparse_time ()) ; Q want = Q (Z (g_clock_sec)) + Q (Z (g_clock_nsec), Z (1000000000)) ;
                if (!isfinite (e) || abs (Q (d_raw (e) - want)) > Q (Z (1), Z (1000000000)) + want * q2 (-52)) fail (K_CLOCK, "time", "%.12g reported, the clock says %s", e, qs (want).c_str ()) ;
                break ;
            }
        }
        u64 d ; switch (r.below (6)) { case 0: d = 0 ; break ; case 1: d = (u64) r.range (1, 10) ; break ; case 2: d = (u64) r.range (1, 2000000000) ; break ; case 3: d = (u64) r.range (1, 100) * 1000000000ull ; break ; case 4: d = (u64) r.range (0, 1000000) * 1000000000ull + 999999999ull ; ct (CT_CLOCK_JUMP) ; break ; default: d = (u64) r.range (1, 999999999) ; }
        clock_advance (d) ;
    }
    g_clock_simulated = false ;
    step_digest (h.h) ;
}
