// Client objects, the attempt driver and the run's beginning and end.
#include "ops.h"
#include <unistd.h>
#include <math.h>
extern "C" void *__asan_region_is_poisoned (void *, size_t) ;
Client g_cl [4] ;
bool g_no_faults ;
int g_sink_mode ;

std::string st_name (int st)
{
    static const char *nm [] = { "SLIP_OK", "SLIP_OUT_OF_MEMORY", "SLIP_SINGULAR", "SLIP_INCORRECT_INPUT", "SLIP_INCORRECT", "SLIP_PANIC" } ;
    if (st <= 0 && st >= -5) return nm [-st] ;
    return "status " + std::to_string (st) ;
}
void chkmem (const void *p, size_t n, const char *who)
{
    if (n == 0) return ;
    if (p == nullptr) { fail (K_CRASH, who, "a missing array is referenced") ; finish_child () ; }
    if (__asan_region_is_poisoned ((void *) p, n)) { fail (K_CRASH, who, "a reference to released or out-of-bounds memory is left behind") ; finish_child () ; }
}
static Z zget (const mpz_t x, const char *who)
{
    if (x->_mp_size != 0) chkmem (x->_mp_d, 8 * (size_t) labs (x->_mp_size), who) ;
    return z_raw (x) ;
}
static Q qget (const mpq_t x, const char *who)
{
    zget (&x->_mp_num, who) ; zget (&x->_mp_den, who) ;
    return q_raw (x) ;
}
static Q xget (const SLIP_matrix *A, i64 k, const char *who)
{
    switch (A->type)
    {
        case SLIP_MPZ: return Q (zget (A->x.mpz [k], who)) ;
        case SLIP_MPQ:
            if (A->x.mpq [k]->_mp_den._mp_size <= 0) { fail (K_VALUE, who, "a rational entry has no positive denominator") ; return 0 ; }
            return qget (A->x.mpq [k], who) ;
        case SLIP_MPFR:
            if (A->x.mpfr [k]->_mpfr_d) chkmem (A->x.mpfr [k]->_mpfr_d, 8 * (size_t) ((A->x.mpfr [k]->_mpfr_prec + 63) / 64), who) ;
            else { fail (K_VALUE, who, "a multiple-precision entry is not initialised") ; return 0 ; }
            if (!fr_finite (A->x.mpfr [k])) return 0 ;
            return fr_raw (A->x.mpfr [k]) ;
        case SLIP_INT64: return Q (Z (A->x.int64 [k])) ;
        default: return isfinite (A->x.fp64 [k]) ? d_raw (A->x.fp64 [k]) : Q (0) ;
    }
}
static size_t xsize (int type)
{
    return type == SLIP_MPZ ? sizeof (mpz_t) : type == SLIP_MPQ ? sizeof (mpq_t) : type == SLIP_MPFR ? sizeof (mpfr_t) : 8 ;
}
View mat_view (const SLIP_matrix *A, const char *who)
{
    View v ;
    chkmem (A, sizeof *A, who) ;
    v.kind = A->kind ; v.type = A->type ; v.m = A->m ; v.n = A->n ;
    v.scale = qget (A->scale, who) ;
    if (v.scale == 0) { fail (K_VALUE, who, "the scale factor is zero") ; v.scale = 1 ; }
    if (v.kind < 0 || v.kind > 2 || v.type < 0 || v.type > 4 || v.m < 0 || v.n < 0 || A->nzmax < 0)
    { fail (K_VALUE, who, "malformed matrix header (kind %d type %d %ld-by-%ld nzmax %ld)", v.kind, v.type, (long) v.m, (long) v.n, (long) A->nzmax) ; return v ; }
    i64 nz = 0 ;
    if (v.kind == SLIP_CSC)
    {
        chkmem (A->p, 8 * (size_t) (v.n + 1), who) ;
        nz = A->p [v.n] ;
        bool bad = A->p [0] != 0 ;
        for (i64 j = 0 ; j < v.n ; j++) if (A->p [j+1] < A->p [j]) bad = true ;
        if (bad || nz < 0 || nz > A->nzmax) { fail (K_VALUE, who, "bad column pointers (nz %ld, nzmax %ld)", (long) nz, (long) A->nzmax) ; return v ; }
    }
    else if (v.kind == SLIP_TRIPLET)
    {
        nz = A->nz ;
        if (nz < 0 || nz > A->nzmax) { fail (K_VALUE, who, "entry count %ld with room for %ld", (long) nz, (long) A->nzmax) ; return v ; }
    }
    else nz = v.m * v.n ;
    if (nz == 0) return v ;
    chkmem (v.type == SLIP_MPZ ? (void *) A->x.mpz : (void *) A->x.fp64, (size_t) nz * xsize (v.type), who) ;
    if (v.kind != SLIP_DENSE) chkmem (A->i, 8 * (size_t) nz, who) ;
    if (v.kind == SLIP_TRIPLET) chkmem (A->j, 8 * (size_t) nz, who) ;
    const bool small = v.m < 4096 && v.n < 4096 ;
    std::vector<char> seen (small ? (size_t) (v.m * v.n) : 0, 0) ; std::set<std::pair<i64,i64>> far ;
    i64 j = 0 ;
    for (i64 k = 0 ; k < nz ; k++)
    {
        Ent e ;
        if (v.kind == SLIP_CSC) { while (k >= A->p [j+1]) j++ ; e.i = A->i [k] ; e.j = j ; }
        else if (v.kind == SLIP_TRIPLET) { e.i = A->i [k] ; e.j = A->j [k] ; }
        else { e.i = k % v.m ; e.j = k / v.m ; }
        if (e.i < 0 || e.i >= v.m || e.j < 0 || e.j >= v.n) { fail (K_VALUE, who, "entry %ld has index (%ld,%ld) in a %ld-by-%ld matrix", (long) k, (long) e.i, (long) e.j, (long) v.m, (long) v.n) ; continue ; }
        if (small ? seen [(size_t) (e.i + e.j * v.m)]++ != 0 : !far.insert ({e.i, e.j}).second) { fail (K_VALUE, who, "entry (%ld,%ld) is stored twice", (long) e.i, (long) e.j) ; }
        e.v = xget (A, k, who) ;
        v.e.push_back (e) ;
    }
    return v ;
}
static void hash_arr (Hash &h, const i64 *a, i64 n, const char *who)
{
    if (!a) { h.add ((u64) 0x77) ; return ; }
    chkmem (a, 8 * (size_t) n, who) ;
    for (i64 k = 0 ; k < n ; k++) h.add ((u64) a [k]) ;
}
u64 mat_digest (const SLIP_matrix *A)
{
    Hash h ; const char *who = "input" ;
    if (!A) return 1 ;
    chkmem (A, sizeof *A, who) ;
    h.add ((u64) A->m) ; h.add ((u64) A->n) ; h.add ((u64) A->nzmax) ; h.add ((u64) A->nz) ; h.add ((u64) A->kind) ; h.add ((u64) A->type) ;
    h.add ((u64) (A->p_shallow + 2 * A->i_shallow + 4 * A->j_shallow + 8 * A->x_shallow)) ;
    h.add (qget (A->scale, who)) ;
    if (A->kind == SLIP_CSC && !A->p) return h.h ;
    i64 nz = A->kind == SLIP_CSC ? A->p [A->n] : A->kind == SLIP_TRIPLET ? A->nz : A->m * A->n ;
    if (A->kind == SLIP_CSC) hash_arr (h, A->p, A->n + 1, who) ;
    if (nz < 0 || nz > A->nzmax) return h.h ;
    if (A->kind != SLIP_DENSE) hash_arr (h, A->i, nz, who) ;
    if (A->kind == SLIP_TRIPLET) hash_arr (h, A->j, nz, who) ;
    for (i64 k = 0 ; k < nz ; k++)
    {
        if (A->type == SLIP_MPFR) { h.add ((u64) A->x.mpfr [k]->_mpfr_exp) ; h.add ((u64) A->x.mpfr [k]->_mpfr_prec) ; }
        if (A->type == SLIP_FP64 && !isfinite (A->x.fp64 [k])) { u64 b ; memcpy (&b, &A->x.fp64 [k], 8) ; h.add (b) ; continue ; }
        h.add (xget (A, k, who)) ;
    }
    return h.h ;
}

//------------------------------------------------------------------------------
// building matrices
//------------------------------------------------------------------------------
// numbers in borrowed arrays use limbs owned by the client
static mp_limb_t *lend_limbs (Lent &l, const Z &v, size_t room)
{
    RoZ t (v) ;
    size_t n = t.l.size () + room ;
    mp_limb_t *d = (mp_limb_t *) client_alloc (8 * n) ;
    memset (d, 0x5A, 8 * n) ; memcpy (d, t.l.data (), 8 * t.l.size ()) ;
    l.blocks.push_back (d) ;
    return d ;
}
static void lend_z (Lent &l, mpz_t x, const Z &v)
{
    RoZ t (v) ;
    x->_mp_d = lend_limbs (l, v, 1) ; x->_mp_size = t.z->_mp_size ; x->_mp_alloc = (int) t.l.size () + 1 ;
}
void build_mat (Mat &M, const Spec &s)
{
    i64 nz = (i64) s.e.size () ;
    SLIP_options o ; memset (&o, 0, sizeof o) ;
    o.pivot = SLIP_TOL_SMALLEST ; o.order = SLIP_COLAMD ; o.tol = 1 ; o.prec = s.prec ; o.round = MPFR_RNDN ;
    SLIP_matrix *A = nullptr ;
    int sh = s.sh ;
    i64 room = nz + s.extra ;
    int st = LIB (SLIP_matrix_allocate (&A, (SLIP_kind) s.kind, (SLIP_type) s.type, s.m, s.n, room, sh != 0, true, &o)) ;
    if (st != SLIP_OK || !A) { fail (K_STATUS, "matrix_allocate", "returned %s with memory available", st_name (st).c_str ()) ; finish_child () ; }
    M.shallow = sh ;
    i64 cap = s.kind == SLIP_DENSE ? s.m * s.n : room ; if (cap < 1) cap = 1 ;
    if (A->nzmax != cap) { fail (K_VALUE, "matrix_allocate", "nzmax is %ld, expected %ld", (long) A->nzmax, (long) cap) ; finish_child () ; }
    if (sh)
    {
        auto arr = [&] (bool lent, size_t bytes) -> void *
        {
            void *p ;
            if (lent) { p = client_alloc (bytes) ; memset (p, 0, bytes) ; M.lent.blocks.push_back (p) ; }
            else p = LIB (SLIP_calloc (bytes, 1)) ;
            return p ;
        } ;
        if (s.kind == SLIP_CSC) { A->p = (i64 *) arr (sh & 1, 8 * (size_t) (s.n + 1)) ; A->p_shallow = (sh & 1) != 0 ; }
        if (s.kind != SLIP_DENSE) { A->i = (i64 *) arr (sh & 2, 8 * (size_t) cap) ; A->i_shallow = (sh & 2) != 0 ; }
        if (s.kind == SLIP_TRIPLET) { A->j = (i64 *) arr (sh & 4, 8 * (size_t) cap) ; A->j_shallow = (sh & 4) != 0 ; }
        void *x = arr (sh & 8, (size_t) cap * xsize (s.type)) ;
        A->x_shallow = (sh & 8) != 0 ;
        A->x.mpz = (mpz_t *) x ;
        if (!(sh & 8)) for (i64 k = 0 ; k < cap ; k++)
        {
            if (s.type == SLIP_MPZ) (void) LIB (SLIP_mpz_init (A->x.mpz [k])) ;
            if (s.type == SLIP_MPQ) (void) LIB (SLIP_mpq_init (A->x.mpq [k])) ;
            if (s.type == SLIP_MPFR) (void) LIB (SLIP_mpfr_init2 (A->x.mpfr [k], (u64) s.prec)) ;
        }
    }
    bool xl = sh & 8 ;
    if (s.kind == SLIP_TRIPLET) A->nz = nz ;
    for (i64 k = 0 ; k < cap ; k++)
    {
        // entries of borrowed arrays beyond the used part are zero numbers
        const bool used = k < nz ;
        Q v = used ? s.e [(size_t) k].v : Q (0) ;
        i64 at = k ;
        if (used && s.kind == SLIP_DENSE) at = s.e [(size_t) k].i + s.e [(size_t) k].j * s.m ;
        if (!used && s.kind == SLIP_DENSE) break ;
        if (used && s.kind != SLIP_DENSE) A->i [k] = s.e [(size_t) k].i ;
        if (used && s.kind == SLIP_TRIPLET) A->j [k] = s.e [(size_t) k].j ;
        if (used && s.kind == SLIP_CSC) A->p [s.e [(size_t) k].j + 1]++ ;
        if (!used && !xl) break ;
        switch (s.type)
        {
            case SLIP_MPZ: if (xl) lend_z (M.lent, A->x.mpz [at], qnum (v)) ; else { lib_enter () ; put_z (A->x.mpz [at], qnum (v)) ; g_in_lib-- ; } break ;
            case SLIP_MPQ: if (xl) { lend_z (M.lent, &A->x.mpq [at]->_mp_num, qnum (v)) ; lend_z (M.lent, &A->x.mpq [at]->_mp_den, qden (v)) ; }
                           else { lib_enter () ; put_q (A->x.mpq [at], v) ; g_in_lib-- ; } break ;
            case SLIP_MPFR:
                if (xl)
                {
                    // a dyadic value with at most prec bits, stored by hand
                    mpfr_t &f = A->x.mpfr [at] ; size_t nl = (size_t) (s.prec + 63) / 64 ;
                    mp_limb_t *d = (mp_limb_t *) client_alloc (8 * nl + 8) ; M.lent.blocks.push_back (d) ; memset (d, 0, 8 * nl + 8) ;
                    f->_mpfr_d = d + 1 ; f->_mpfr_prec = s.prec ; f->_mpfr_sign = v < 0 ? -1 : 1 ;
                    if (v == 0) f->_mpfr_exp = __MPFR_EXP_ZERO ;
                    else
                    {
                        long e = flog2 (v) + 1 ; Z num = abs (qnum (v)) ; num >>= boost::multiprecision::lsb (num) ; Z m = num ;
                        long sft = (long) (64 * nl) - bitlen (num) ; m <<= (unsigned) sft ;
                        RoZ t (m) ; memcpy (d + 1, t.l.data (), 8 * nl) ; f->_mpfr_exp = e ;
                    }
                }
                else { lib_enter () ; put_fr (A->x.mpfr [at], v) ; g_in_lib-- ; }
                break ;
            case SLIP_INT64: A->x.int64 [at] = (i64) qnum (v) ; break ;
            case SLIP_FP64:
            {
                // the generator only makes exactly representable values
                long e = v == 0 ? 0 : flog2 (v) - 52 ; if (e < -1074) e = -1074 ;
                Q t = e >= 0 ? Q (v / pow2 ((unsigned) e)) : Q (v * pow2 ((unsigned) -e)) ;
                A->x.fp64 [at] = ldexp ((double) (i64) qnum (t), (int) e) ;
                break ;
            }
        }
    }
    if (s.kind == SLIP_CSC) for (i64 j = 0 ; j < s.n ; j++) A->p [j+1] += A->p [j] ;
    if (s.type == SLIP_MPZ && s.scale != 1) { lib_enter () ; put_q (A->scale, s.scale) ; g_in_lib-- ; }
    M.A = A ;
    M.v.kind = s.kind ; M.v.type = s.type ; M.v.m = s.m ; M.v.n = s.n ; M.v.scale = s.type == SLIP_MPZ ? s.scale : Q (1) ;
    M.v.e = s.e ;
    if (s.kind == SLIP_DENSE) M.v = mat_view (A, "built matrix") ;
    if (s.type == SLIP_MPFR && !xl && !s.dup) M.v = mat_view (A, "built matrix") ;     // rounded to its precision
    M.dg = mat_digest (A) ;
    M.lent.digest = lent_digest (M) ;
}
u64 lent_digest (const Mat &M)
{
    u64 h = 7 ;
    for (void *b : M.lent.blocks)
    {
        size_t n = arena_size (b) ; h = mix (h, n) ;
        for (size_t k = 0 ; k + 8 <= n ; k += 8) { u64 v ; memcpy (&v, (char *) b + k, 8) ; h = mix (h, v) ; }
    }
    return h ;
}
void check_lent (const Mat &M, const char *who)
{
    for (void *b : M.lent.blocks) if (!arena_is_live (b)) { fail (K_BADFREE, who, "an array borrowed from the caller was released") ; return ; }
    // pointers into client memory differ between environments, so this digest is only compared within a run
    if (!M.lent.blocks.empty () && lent_digest (M) != M.lent.digest) fail (K_INPUT, who, "an array borrowed from the caller was written to") ;
}
void drop_mat (Mat &M)
{
    if (M.A)
    {
        int st = LIB (SLIP_matrix_free (&M.A, nullptr)) ;
        if (st != SLIP_OK || M.A) fail (K_STATUS, "matrix_free", "returned %s", st_name (st).c_str ()) ;
        M.A = nullptr ;
    }
    check_lent (M, "matrix_free") ;
    for (void *b : M.lent.blocks) client_free (b) ;
    M = Mat () ;
}

//------------------------------------------------------------------------------
// options
//------------------------------------------------------------------------------
void make_opt (Opt &O, const Rec &s)
{
    static const double tols [] = { 1.0, 0.1, 0.5, 0.25, 0.9, 0.0, 1e-3, 3.0 } ;
    static const mpfr_rnd_t rnds [] = { MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA } ;
    SLIP_options v ; memset (&v, 0, sizeof v) ;
    v.pivot = SLIP_TOL_SMALLEST ; v.order = SLIP_COLAMD ; v.tol = 1 ; v.prec = 128 ; v.round = MPFR_RNDN ;
    if (s.get ("noopt")) { O.v = v ; O.o = nullptr ; return ; }
    v.pivot = (SLIP_pivot) s.get ("piv", SLIP_TOL_SMALLEST) ; v.order = (SLIP_col_order) s.get ("ord", SLIP_COLAMD) ;
    v.tol = tols [s.get ("tol") & 7] ; v.print_level = (int) s.get ("pr") ; v.prec = (int32_t) s.get ("prec", 128) ;
    v.round = rnds [s.get ("rnd") % 5] ; v.check = s.get ("chk") != 0 ;
    O.v = v ;
    O.o = (SLIP_options *) client_alloc (sizeof v) ; memcpy (O.o, &v, sizeof v) ;
}
void drop_opt (Opt &O)
{
    if (O.o) { if (memcmp (O.o, &O.v, sizeof O.v)) fail (K_INPUT, "options", "the options were modified") ; client_free (O.o) ; }
    O.o = nullptr ;
}
int opt_prec (const Opt &O) { return O.v.prec ; }
u64 opt_digest (const Opt &O)
{
    if (!O.o) return 3 ;
    u64 h = 5 ; const unsigned char *b = (const unsigned char *) O.o ;
    for (size_t k = 0 ; k < sizeof (SLIP_options) ; k++) h = mix (h, b [k]) ;
    return h ;
}

//------------------------------------------------------------------------------
// the attempt driver
//------------------------------------------------------------------------------
static long out_grown ()      // bytes written to the process's own output streams
{
    static long last ;
    fflush (stdout) ;
    long at = (long) lseek (1, 0, SEEK_END) ;
    long d = at - last ; last = at ; return d ;
}
int drive (const Rec &s, Call &c)
{
    const u64 in0 = c.in () ;
    i64 N = 0, fired = 0 ;
    auto attempt = [&] (const Fault &f, int no) -> int
    {
        g_attempt = no ; R->attempt = no ;
        if (c.prep) c.prep () ;
        const i64 sk = g_sink_calls ; const u64 la = g_libc_allocs ;
        fault_on (f) ;
        int st = lib_leave ((lib_enter (), c.run ())) ;
        fired = fault_fired () ; i64 req = fault_requests () ;
        fault_off () ;
        if (f.mode == 0) N = req ;
        if (f.mode == 0 && fired && c.modest) { fail (K_STATUS, c.name, "asked for a block of at least 128 MB and returned %s", st_name (st).c_str ()) ; fail (c.vkind, c.name, "asked for a block of at least 128 MB and returned %s", st_name (st).c_str ()) ; }
        if (g_arena_exhausted) { R->inconclusive = 1 ; finish_child () ; }
        if (!c.bypass_ok && g_libc_allocs != la) fail (K_BYPASS, c.name, "%llu blocks were obtained from the C library", (unsigned long long) (g_libc_allocs - la)) ;
        if (c.pr <= 0 && g_sink_calls != sk) fail (K_OUTPUT, c.name, "printed at print level %d", c.pr) ;
        if (out_grown () > 0 && !c.bypass_ok) fail (K_OUTPUT, c.name, "wrote to the process's standard output instead of the print function") ;
        if (c.in () != in0) fail (K_INPUT, c.name, "an input was changed by a call that returned %s%s", st_name (st).c_str (), fired ? " after a refused allocation" : "") ;
        logh ((u64) (st + 100)) ;
        if (fired) ct (CT_CALLS_FAULTED) ;
        return st ;
    } ;
    auto clean = [&] (int st, const char *which)
    {
        if (fired && st == SLIP_OUT_OF_MEMORY) return ;      // a request no allocator could satisfy
        if (!c.ok (st)) { fail (c.vkind, c.name, "%s call returned %s", which, st_name (st).c_str ()) ; }
        else c.verify (st) ;
        if (st != SLIP_OK && !c.empty ()) fail (K_HANDLE, c.name, "returned %s but left an output behind", st_name (st).c_str ()) ;
    } ;
    const int nf = g_no_faults ? 0 : (int) s.get ("nf") ;
    u64 pd = 0 ; int pst = 0 ; bool probed = false ;
    if (!g_no_faults && s.get ("probe") && nf > 0)
    {
        pst = attempt (Fault (), 0) ;
        clean (pst, "a") ;
        pd = c.out () ; probed = true ;
        c.drop () ;
    }
    bool failed_before = false ;
    for (int i = 0 ; i < nf ; i++)
    {
        Rng fr (mix ((u64) s.get ("fs"), (u64) i * 77 + 1)) ;
        Fault f ; f.mode = (int) s.get ("fm", 1) ; f.seed = fr.next () ;
        i64 lim = probed ? N : (i64) 1 << fr.range (1, 10) ;
        f.k = 1 + fr.below (lim < 1 ? 1 : lim) ;
        if (s.get ("fk")) f.k = s.get ("fk") + i ;
        if (f.mode == 6) f.k = 1 + fr.below (5) ;
        f.w = fr.range (2, 8) ;
        f.pm = f.mode == 3 ? fr.pick ({3, 20, 100, 400}) : f.mode == 4 ? (i64) 1 << fr.range (3, 14) : (i64) 8 << fr.range (0, 8) ;
        int st = attempt (f, i + 1) ;
        if (!fired) clean (st, "a") ;
        else if (st == SLIP_OUT_OF_MEMORY)
        {
            ct (CT_OOM_RET) ; failed_before = true ;
            if (!c.empty ()) fail (K_HANDLE, c.name, "returned SLIP_OUT_OF_MEMORY but left an output behind") ;
        }
        else if (c.ok (st))
        {
            ct (CT_OK_DESPITE) ;
            c.verify (st) ;
            if (st != SLIP_OK && !c.empty ()) fail (K_HANDLE, c.name, "returned %s but left an output behind", st_name (st).c_str ()) ;
        }
        else
        {
            fail (K_FSTATUS, c.name, "returned %s after a refused allocation", st_name (st).c_str ()) ;
            if (!c.empty ()) fail (K_HANDLE, c.name, "returned %s after a refused allocation but left an output behind", st_name (st).c_str ()) ;
        }
        c.drop () ;
    }
    if (failed_before) ct (CT_RETRIES) ;
    int st = attempt (Fault (), 99) ;
    clean (st, failed_before ? "the retried" : "a") ;
    u64 d = c.out () ;
    if (probed && (st != pst || d != pd)) fail (K_RETRY, c.name, "repeating the call gives %s where the first, undisturbed call gave %s (or other values)", st_name (st).c_str (), st_name (pst).c_str ()) ;
    step_digest (mix ((u64) (st + 50), d)) ;
    g_attempt = -1 ; R->attempt = -1 ;
    return st ;
}
