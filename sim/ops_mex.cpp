// A simulated MATLAB: the host of the MEX file.  It owns the arrays handed in,
// ends the MEX file's call when an error is raised or memory is refused (MATLAB
// does not return from either), and then releases everything the call had
// obtained from MATLAB's allocator and not returned, as MATLAB does.  What the
// MEX file keeps in its own variables survives.
#include "ops.h"
#include "mexstub/mex.h"
#include <math.h>
#include <setjmp.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
extern "C" { void mexFunction (int, mxArray *[], int, const mxArray *[]) __attribute__ ((weak)) ; }

struct mxArray_tag
{
    mxClassID cls = mxDOUBLE_CLASS ; bool cplx = false, sparse = false ;
    size_t m = 0, n = 0 ;
    void *pr = nullptr ; mwIndex *jc = nullptr, *ir = nullptr ; size_t nzmax = 0 ;
    std::string str ;
    std::vector<std::string> names ; std::vector<mxArray *> kids ;
    bool host = false ;                 // owned by the host, not by the call
} ;
static const int SET = 3 ;
static jmp_buf host_jmp ; static bool in_mex ;
static std::string err_msg ; static bool err_oom ;
static i64 printed ;
static std::set<const void *> persistent ;
static std::vector<mxArray *> arrays ;

[[noreturn]] static void terminate (const std::string &msg, bool oom)
{
    err_msg = msg ; err_oom = oom ;
    if (!in_mex) { fail (K_CRASH, "mex", "a MATLAB error was raised outside a call: %s", msg.c_str ()) ; finish_child () ; }
    longjmp (host_jmp, 1) ;
}
static mxArray *new_array (mxClassID c, size_t m, size_t n)
{
    mxArray *a = new mxArray ; a->cls = c ; a->m = m ; a->n = n ; arrays.push_back (a) ; return a ;
}
static void *got (void *p) { if (!p) terminate ("Out of memory.", true) ; return p ; }

extern "C" {
void *mxMalloc (size_t n) { return got (sim_set_malloc (SET, n ? n : 1)) ; }
void *mxCalloc (size_t n, size_t s) { return got (sim_set_calloc (SET, n ? n : 1, s ? s : 1)) ; }
void *mxRealloc (void *p, size_t n) { return got (sim_set_realloc (SET, p, n ? n : 1)) ; }
void mxFree (void *p) { persistent.erase (p) ; sim_set_free (SET, p) ; }
size_t mxGetM (const mxArray *a) { return a->m ; }
size_t mxGetN (const mxArray *a) { return a->n ; }
size_t mxGetNumberOfElements (const mxArray *a) { return a->m * a->n ; }
mwSize mxGetNumberOfDimensions (const mxArray *) { return 2 ; }
void mxSetM (mxArray *a, mwSize m) { a->m = m ; }
void mxSetN (mxArray *a, mwSize n) { a->n = n ; }
mwIndex *mxGetJc (const mxArray *a) { return a->sparse ? a->jc : nullptr ; }
mwIndex *mxGetIr (const mxArray *a) { return a->sparse ? a->ir : nullptr ; }
mwSize mxGetNzmax (const mxArray *a) { return a->nzmax ; }
mxDouble *mxGetDoubles (const mxArray *a) { return a->cls == mxDOUBLE_CLASS && !a->cplx ? (double *) a->pr : nullptr ; }
int mxSetDoubles (mxArray *a, mxDouble *x) { if (a->cls != mxDOUBLE_CLASS || a->cplx) return 0 ; a->pr = x ; return 1 ; }
double *mxGetPr (const mxArray *a) { return mxGetDoubles (a) ; }
void mxSetPr (mxArray *a, double *x) { mxSetDoubles (a, x) ; }
void *mxGetData (const mxArray *a) { return a->pr ; }
double mxGetScalar (const mxArray *a)
{
    if (a->cls == mxCHAR_CLASS) return a->str.empty () ? 0 : (double) (unsigned char) a->str [0] ;
    if (a->m * a->n == 0 || !a->pr || a->cls != mxDOUBLE_CLASS) return 0 ;
    return *(double *) a->pr ;
}
mxClassID mxGetClassID (const mxArray *a) { return a->cls ; }
bool mxIsEmpty (const mxArray *a) { return a->m == 0 || a->n == 0 ; }
bool mxIsStruct (const mxArray *a) { return a->cls == mxSTRUCT_CLASS ; }
bool mxIsCell (const mxArray *a) { return a->cls == mxCELL_CLASS ; }
bool mxIsChar (const mxArray *a) { return a->cls == mxCHAR_CLASS ; }
bool mxIsDouble (const mxArray *a) { return a->cls == mxDOUBLE_CLASS ; }
bool mxIsLogical (const mxArray *a) { return a->cls == mxLOGICAL_CLASS ; }
bool mxIsNumeric (const mxArray *a) { return a->cls >= mxDOUBLE_CLASS ; }
bool mxIsComplex (const mxArray *a) { return a->cplx ; }
bool mxIsSparse (const mxArray *a) { return a->sparse ; }
bool mxIsScalar (const mxArray *a) { return a->m == 1 && a->n == 1 ; }
bool mxIsInf (double x) { return isinf (x) ; }
bool mxIsNaN (double x) { return isnan (x) ; }
bool mxIsFinite (double x) { return isfinite (x) ; }
double mxGetInf (void) { return INFINITY ; }
double mxGetNaN (void) { return NAN ; }
double mxGetEps (void) { return 0x1p-52 ; }
int mxGetFieldNumber (const mxArray *a, const char *name)
{
    if (a->cls == mxSTRUCT_CLASS) for (size_t k = 0 ; k < a->names.size () ; k++) if (a->names [k] == name) return (int) k ;
    return -1 ;
}
mxArray *mxGetFieldByNumber (const mxArray *a, mwIndex k, int f)
{
    return a->cls == mxSTRUCT_CLASS && k == 0 && f >= 0 && f < (int) a->kids.size () ? a->kids [(size_t) f] : nullptr ;
}
mxArray *mxGetField (const mxArray *a, mwIndex k, const char *name) { return mxGetFieldByNumber (a, k, mxGetFieldNumber (a, name)) ; }
int mxGetNumberOfFields (const mxArray *a) { return (int) a->names.size () ; }
int mxGetString (const mxArray *a, char *buf, mwSize len)
{
    if (a->cls != mxCHAR_CLASS || len == 0) return 1 ;
    size_t n = std::min (a->str.size (), (size_t) len - 1) ;
    memcpy (buf, a->str.data (), n) ; buf [n] = 0 ;
    return n < a->str.size () ;
}
char *mxArrayToString (const mxArray *a)
{
    if (a->cls != mxCHAR_CLASS) return nullptr ;
    char *s = (char *) mxMalloc (a->str.size () + 1) ; memcpy (s, a->str.c_str (), a->str.size () + 1) ; return s ;
}
mxArray *mxCreateDoubleMatrix (mwSize m, mwSize n, mxComplexity c)
{
    mxArray *a = new_array (mxDOUBLE_CLASS, m, n) ; a->cplx = c == mxCOMPLEX ;
    if (m && n) a->pr = mxCalloc (m * n, c == mxCOMPLEX ? 16 : 8) ;
    return a ;
}
mxArray *mxCreateUninitNumericMatrix (size_t m, size_t n, mxClassID id, mxComplexity c)
{
    mxArray *a = new_array (id, m, n) ; a->cplx = c == mxCOMPLEX ;
    if (m && n) a->pr = mxMalloc (m * n * (c == mxCOMPLEX ? 16 : 8)) ;
    return a ;
}
mxArray *mxCreateDoubleScalar (double x) { mxArray *a = mxCreateDoubleMatrix (1, 1, mxREAL) ; *(double *) a->pr = x ; return a ; }
mxArray *mxCreateCellMatrix (mwSize m, mwSize n)
{
    mxArray *a = new_array (mxCELL_CLASS, m, n) ;
    mxFree (mxMalloc (8 * (m * n + 1))) ;                  // so that it can be refused
    a->kids.assign (m * n, nullptr) ; return a ;
}
mxArray *mxCreateString (const char *s)
{
    chkmem (s, 1, "mxCreateString") ;
    mxFree (mxMalloc (strlen (s) + 1)) ;
    mxArray *a = new_array (mxCHAR_CLASS, 1, strlen (s)) ; a->str = s ; return a ;
}
void mxSetCell (mxArray *a, mwIndex k, mxArray *v)
{
    if (a->cls != mxCELL_CLASS || k >= a->kids.size ()) { fail (K_CRASH, "mxSetCell", "cell %zu of %zu", (size_t) k, a->kids.size ()) ; return ; }
    a->kids [k] = v ;
}
mxArray *mxGetCell (const mxArray *a, mwIndex k) { return a->cls == mxCELL_CLASS && k < a->kids.size () ? a->kids [k] : nullptr ; }
void mxDestroyArray (mxArray *a)
{
    if (!a) return ;
    if (a->host) { fail (K_BADFREE, "mxDestroyArray", "an input argument was destroyed") ; return ; }
    for (mxArray *k : a->kids) mxDestroyArray (k) ;
    if (a->pr) mxFree (a->pr) ;
    arrays.erase (std::find (arrays.begin (), arrays.end (), a)) ; delete a ;
}
int mexPrintf (const char *fmt, ...)
{
    char buf [2000] ; va_list ap ; va_start (ap, fmt) ; int n = vsnprintf (buf, sizeof buf, fmt, ap) ; va_end (ap) ;
    printed++ ; logh (hstr (buf)) ; return n ;
}
void mexErrMsgTxt (const char *msg) { terminate (msg ? msg : "", false) ; }
void mexErrMsgIdAndTxt (const char *, const char *fmt, ...)
{
    char buf [1000] ; va_list ap ; va_start (ap, fmt) ; vsnprintf (buf, sizeof buf, fmt, ap) ; va_end (ap) ;
    terminate (buf, false) ;
}
void mexWarnMsgTxt (const char *) { printed++ ; }
void mexWarnMsgIdAndTxt (const char *, const char *, ...) { printed++ ; }
void mexMakeMemoryPersistent (void *p) { persistent.insert (p) ; }
void mexMakeArrayPersistent (mxArray *a) { a->host = true ; if (a->pr) persistent.insert (a->pr) ; }
int mexAtExit (void (*) (void)) { return 0 ; }
void mexLock (void) { } void mexUnlock (void) { } bool mexIsLocked (void) { return false ; }
const char *mexFunctionName (void) { return "SLIP_mex_soln" ; }
}

//------------------------------------------------------------------------------
// the caller's side
//------------------------------------------------------------------------------
struct Args
{
    std::vector<std::unique_ptr<mxArray>> own ; std::vector<void *> mem ;
    mxArray *mk (mxClassID c, size_t m, size_t n)
    {
        own.emplace_back (new mxArray) ; mxArray *a = own.back ().get () ; a->cls = c ; a->m = m ; a->n = n ; a->host = true ; return a ;
    }
    void *get (size_t n) { mem.push_back (client_alloc (n)) ; return mem.back () ; }
    mxArray *num (double x) { mxArray *a = mk (mxDOUBLE_CLASS, 1, 1) ; a->pr = get (8) ; *(double *) a->pr = x ; return a ; }
    mxArray *str (const std::string &s) { mxArray *a = mk (mxCHAR_CLASS, 1, s.size ()) ; a->str = s ; return a ; }
    u64 digest () const
    {
        Hash h ;
        for (void *p : mem) { size_t n = arena_size (p) ; if (!arena_is_live (p)) return 1 ; for (size_t k = 0 ; k < n ; k++) h.add ((u64) ((unsigned char *) p) [k]) ; }
        for (auto &a : own) { h.add ((u64) a->m) ; h.add ((u64) a->n) ; h.add ((u64) (a->pr != nullptr)) ; h.add ((u64) a->kids.size ()) ; }
        return h.h ;
    }
    ~Args () { for (void *p : mem) client_free (p) ; }
} ;
struct Outcome { bool err = false, oom = false ; std::string msg ; mxArray *x = nullptr ; i64 req = 0, printed = 0 ; } ;
static mxArray *pargout_ [4] ;

static Outcome call_mex (int nargout, int nargin, const mxArray **in, const Fault &f)
{
    Outcome o ;
    for (auto &p : pargout_) p = nullptr ;
    printed = 0 ; err_oom = false ; err_msg.clear () ;
    ct (CT_MEXCALLS) ; ct (CT_CALLS) ;
    fault_on (f) ;
    in_mex = true ;
    if (setjmp (host_jmp) == 0) mexFunction (nargout, pargout_, nargin, in) ;
    else { o.err = true ; o.oom = err_oom ; o.msg = err_msg ; }
    in_mex = false ;
    o.req = fault_requests () ; fault_off () ; o.printed = printed ;
    if (g_arena_exhausted) { R->inconclusive = 1 ; finish_child () ; }
    logh (o.err ? hstr (o.msg) : 17) ;
    o.x = o.err ? nullptr : pargout_ [0] ;
    return o ;
}
// MATLAB's cleanup: what the call obtained and did not return is released
static void cleanup (mxArray *keep)
{
    std::set<const void *> k (persistent) ; std::set<mxArray *> ka ;
    std::function<void (mxArray *)> walk = [&] (mxArray *a) { if (!a) return ; ka.insert (a) ; if (a->pr) k.insert (a->pr) ; for (auto *c : a->kids) walk (c) ; } ;
    walk (keep) ;
    arena_sweep (SET, k) ;
    std::vector<mxArray *> rest ;
    for (mxArray *a : arrays) if (ka.count (a)) rest.push_back (a) ; else delete a ;
    arrays = rest ;
}
static bool is_ours (mxArray *a) { return std::find (arrays.begin (), arrays.end (), a) != arrays.end () ; }

// the library must not stay initialised: its lists live in memory MATLAB has released
static void check_shut (const char *where, const char *when)
{
    int st = SLIP_initialize_expert (simA_malloc, simA_calloc, simA_realloc, simA_free) ;
    if (st == SLIP_OK) { SLIP_finalize () ; return ; }
    fail (K_LIFE, where, "after %s the library is left initialized with its lists in memory MATLAB has released", when) ;
    finish_child () ;
}
static double mkval (Rng &r, const Z &v, int mode)
{
    double d = v.convert_to<double> () ;
    switch (mode)
    {
        case 0: case 1: return d ;
        case 2: return d / (double) (1 << r.below (7)) ;
        case 3: return ldexp (d, (int) r.range (40, 70)) ;
        case 4: return d / 10 ;
        case 5: return r.chance (300) ? (v < 0 ? -1 : 1) * r.pick ({0x1p63, 0x1p63 - 1024, 0x1p62, 0x1p64, 0x1p53, 9007199254740993.0}) : d ;
        case 7: return r.chance (600) ? d : d + r.pick ({0x1p-31, 1e-10, -3e-12, 0x1p-40, 1e-7}) ;     // nearly an integer
        default: return d * r.pick ({1.0, 1e-5, 3.3, 1e10, 0.3}) ;
    }
}
static bool exact_mode (int m) { return m != 4 && m < 6 ; }

void step_mex (const Rec &s)
{
    const char *nm = "mex" ;
    if (!&mexFunction) { fprintf (stderr, "sim: built without the MATLAB interface\n") ; _exit (77) ; }
    if (g_session) session_end ("before a MATLAB session") ;
    Rng r (mix ((u64) s.get ("bseed"), 3)) ;
    const int bad = (int) s.get ("bad"), va = (int) s.get ("va"), vb = (int) s.get ("vb"), nrhs = (int) std::max<i64> (1, s.get ("nrhs", 1)) ;
    Gen g = gen_sys (s, (u64) s.get ("seed"), (int) std::min<i64> (53, s.get ("bits", 3))) ;
    const int n = g.n ; if (n < 1) return ;
    Args P ;
    // A, by columns with ascending rows and without explicit zeros
    std::vector<double> av ((size_t) (n * n), 0), bv ((size_t) (n * nrhs), 0) ;
    std::vector<double> ratio ((size_t) n, 1) ;
    for (int k = 0 ; k < n * n ; k++) if (g.a [(size_t) k] != 0) av [(size_t) k] = mkval (r, g.a [(size_t) k], va) ;
    if (va == 2 || va == 3 || va == 4 || va == 6)
    {
        // keep dependent columns dependent: one factor for the whole matrix
        Rng q (mix ((u64) s.get ("bseed"), 4)) ; double f = mkval (q, Z (1), va) ;
        if (s.get ("seed") & 1) for (int k = 0 ; k < n * n ; k++) av [(size_t) k] = g.a [(size_t) k].convert_to<double> () * f ;
    }
    for (auto &v : bv) v = mkval (r, r.chance (200) ? Z (0) : rand_z (r, (int) r.range (1, 30)), vb) ;
    size_t nz = 0 ; for (double v : av) nz += v != 0 ;
    mxArray *A = P.mk (mxDOUBLE_CLASS, (size_t) n, (size_t) n) ; A->sparse = true ; A->nzmax = nz + (size_t) (s.get ("bseed") % 3) + (nz == 0) ;
    A->jc = (mwIndex *) P.get (8 * (size_t) (n + 1)) ; A->ir = (mwIndex *) P.get (8 * A->nzmax) ; double *ax = (double *) P.get (8 * A->nzmax) ; A->pr = ax ;
    for (size_t k = 0 ; k < A->nzmax ; k++) { A->ir [k] = 0 ; ax [k] = 0 ; }
    size_t c = 0 ;
    for (int j = 0 ; j < n ; j++) { A->jc [j] = c ; for (int i = 0 ; i < n ; i++) if (av [(size_t) (i + j * n)] != 0) { A->ir [c] = (size_t) i ; ax [c++] = av [(size_t) (i + j * n)] ; } }
    A->jc [n] = c ;
    mxArray *b = P.mk (mxDOUBLE_CLASS, (size_t) n, (size_t) nrhs) ; double *bx = (double *) P.get (8 * (size_t) (n * nrhs)) ; b->pr = bx ;
    memcpy (bx, bv.data (), 8 * bv.size ()) ;
    mxArray *op = P.mk (mxSTRUCT_CLASS, 1, 1) ;
    auto fld = [&] (const char *k, mxArray *v) { for (size_t i = 0 ; i < op->names.size () ; i++) if (op->names [i] == k) { op->kids [i] = v ; return ; } op->names.push_back (k) ; op->kids.push_back (v) ; } ;
    static const char *ords [] = { "none", "colamd", "amd" }, *pivs [] = { "smallest", "diagonal", "first", "tol smallest", "tol largest", "largest" }, *sols [] = { "double", "vpa", "char" } ;
    static const double tols [] = { 0.1, 1, 0.5, 1e-6 } ;
    int sol = 0, pr = 0 ;
    if (s.get ("ord", -1) >= 0) fld ("order", P.str (ords [s.get ("ord") % 3])) ;
    if (s.get ("piv", -1) >= 0) fld ("pivot", P.str (pivs [s.get ("piv") % 6])) ;
    if (s.get ("tol", -1) >= 0) fld ("tol", P.num (tols [s.get ("tol") & 3])) ;
    if (s.get ("sol", -1) >= 0) { sol = (int) (s.get ("sol") % 3) ; fld ("solution", P.str (sols [sol])) ; }
    if (s.get ("dig", -1) >= 0) fld ("digits", P.num (s.get ("dig") == 1 ? 2 : s.get ("dig") == 2 ? 0x1p29 : 50)) ;
    if (s.get ("pr", -1) >= 0) { static const double ps [] = { 0, 1, 2, 3, -4, 7.9 } ; double p = ps [s.get ("pr") % 6] ; pr = p < 1 ? 0 : p > 3 ? 3 : (int) p ; fld ("print", P.num (p)) ; }
    // a name that is nearly one of the documented ones
    auto near = [&] (const char *const *t, int k)
    {
        for (;;)
        {
            std::string w = t [r.below (k)] ; size_t at = (size_t) r.below ((i64) w.size ()) ;
            switch (r.below (6)) { case 0: w += r.pick ({'x', ' ', 's'}) ; break ; case 1: w.pop_back () ; break ; case 2: w [at] = (char) (w [at] == ' ' ? '_' : w [at] - 32) ; break ; case 3: w = " " + w ; break ; case 4: w.erase (at, 1) ; break ; default: w = w + w ; }
            bool hit = false ; for (int i = 0 ; i < k ; i++) hit |= w == t [i] ;
            if (!hit) return w ;
        }
    } ;
    const mxArray *in [4] = { A, b, op, op } ;
    int nin = s.get ("narg") == 2 && bad == 0 ? 2 : 3, nout = (int) (s.get ("bseed") & 1) ;
    if (nin == 2) { sol = 0 ; pr = 0 ; }
    if (nin == 3 && bad == 0 && s.get ("bseed") % 23 == 0)
    {
        // options that are absent: an empty array, or not a struct
        mxArray *e = P.mk (mxDOUBLE_CLASS, 0, 0) ; in [2] = e ; sol = 0 ; pr = 0 ;
    }
    bool exact = exact_mode (va) && exact_mode (vb) ;
    switch (bad)
    {
        case 1: nin = 1 ; break ;           case 2: nin = 4 ; break ;           case 3: nout = 2 ; break ;
        case 4: A->cplx = true ; break ;    case 5: b->cplx = true ; break ;
        case 6: A->sparse = false ; break ; case 7: b->sparse = true ; b->jc = A->jc ; b->ir = A->ir ; break ;
        case 8: A->m = (size_t) n + 1 ; break ;
        case 9: b->m = (size_t) n + 1 ; { double *t = (double *) P.get (8 * (size_t) ((n + 1) * nrhs)) ; for (int k = 0 ; k < (n + 1) * nrhs ; k++) t [k] = 1 ; b->pr = t ; } break ;
        case 10: case 11: if (nz) { size_t k = (size_t) r.below ((i64) nz) ; ax [k] = bad == 10 ? (r.chance (500) ? INFINITY : -INFINITY) : NAN ; } else nin = 1 ; break ;
        case 12: case 13: { i64 k = r.below (n * nrhs) ; bx [k] = bad == 12 ? (r.chance (500) ? INFINITY : -INFINITY) : NAN ; break ; }
        case 14: A->cls = mxLOGICAL_CLASS ; break ; case 15: b->cls = mxINT8_CLASS ; break ;
        case 16: fld ("order", P.str (near (ords, 3))) ; break ;          case 17: fld ("order", P.num (1)) ; break ;
        case 18: fld ("pivot", P.str (r.chance (200) ? "tol" : near (pivs, 6))) ; break ;             case 19: fld ("pivot", P.num (2)) ; break ;
        case 20: case 21: case 22: case 23: fld ("pivot", P.str (pivs [3 + r.below (2)])) ; fld ("tol", P.num (bad == 20 ? 0.0 : bad == 21 ? -1.0 : bad == 22 ? 1.5 : (double) NAN)) ; break ;
        case 24: fld ("solution", P.str (r.chance (300) ? "exact" : near (sols, 3))) ; break ;        case 25: fld ("solution", P.num (3)) ; break ;
        case 26: fld ("digits", P.num (1)) ; break ;                case 27: fld ("digits", P.num (2.5)) ; break ;
        case 28: fld ("digits", P.num (NAN)) ; break ;              case 29: fld ("digits", P.num (0x1p30)) ; break ;
        case 30: fld ("order", P.str (std::string (300, 'a'))) ; break ;
    }
    // the expected answer
    std::vector<Q> xe ; bool sing = false, known = bad == 0 ;
    if (known && exact)
    {
        long sa = 0, sb = 0 ;
        for (double v : av) sa = std::max (sa, (long) bitlen (qden (d_raw (v)))) ;
        for (double v : bv) sb = std::max (sb, (long) bitlen (qden (d_raw (v)))) ;
        ZV a ((size_t) (n * n)), bb ((size_t) (n * nrhs)) ;
        for (int k = 0 ; k < n * n ; k++) a [(size_t) k] = qnum (d_raw (av [(size_t) k]) * q2 (sa)) ;
        for (int k = 0 ; k < n * nrhs ; k++) bb [(size_t) k] = qnum (d_raw (bv [(size_t) k]) * q2 (sb)) ;
        sing = det_bareiss (a, n) == 0 ;
        if (!sing) { xe = solve_exact (a, bb, n, nrhs) ; for (auto &q : xe) q = q * q2 (sa - sb) ; }
    }
    else if (known)
    {
        // the library itself on the same data
        if (SLIP_initialize_expert (simA_malloc, simA_calloc, simA_realloc, simA_free) != SLIP_OK) { fail (K_LIFE, nm, "the library cannot be initialized") ; return ; }
        SLIP_matrix *M = nullptr, *Z1 = nullptr, *B = nullptr, *B1 = nullptr, *X = nullptr ; SLIP_options *o = SLIP_create_default_options () ;
        int st = SLIP_matrix_allocate (&M, SLIP_CSC, SLIP_FP64, n, n, (i64) nz, false, true, o) ;
        if (st == 0) { for (int j = 0 ; j <= n ; j++) M->p [j] = (i64) A->jc [j] ; for (size_t k = 0 ; k < nz ; k++) { M->i [k] = (i64) A->ir [k] ; M->x.fp64 [k] = ax [k] ; } st = SLIP_matrix_copy (&Z1, SLIP_CSC, SLIP_MPZ, M, o) ; }
        if (st == 0) st = SLIP_matrix_allocate (&B, SLIP_DENSE, SLIP_FP64, n, nrhs, n * nrhs, false, true, o) ;
        if (st == 0) { memcpy (B->x.fp64, bx, 8 * bv.size ()) ; st = SLIP_matrix_copy (&B1, SLIP_DENSE, SLIP_MPZ, B, o) ; }
        if (st == 0) st = SLIP_backslash (&X, SLIP_MPQ, Z1, B1, o) ;
        if (st == 0) for (int k = 0 ; k < n * nrhs ; k++) xe.push_back (q_raw (X->x.mpq [k])) ;
        else if (st == SLIP_SINGULAR) sing = true ;
        else known = false ;
        for (SLIP_matrix **p : {&M, &Z1, &B, &B1, &X}) if (*p) SLIP_matrix_free (p, o) ;
        SLIP_free (o) ; SLIP_finalize () ;
    }
    const u64 in0 = P.digest () ;
    i64 N = 0 ;
    auto judge = [&] (Outcome &o)
    {
        if (P.digest () != in0) fail (K_INPUT, nm, "an argument of the MATLAB function was changed") ;
        if (pr == 0 && bad == 0 && o.printed) fail (K_OUTPUT, nm, "printed without being asked to") ;
        if (o.oom) { fail (K_STATUS, nm, "ran out of memory without a refusal") ; return ; }
        if (o.err)
        {
            ct (CT_MEXERR) ;
            if (bad) { if (o.msg.empty ()) fail (K_STATUS, nm, "an error without a message for invalid input (kind %d)", bad) ; ct (CT_INVALID_IN) ; return ; }
            if (!known) return ;
            if (!sing) fail (K_STATUS, nm, "raised the error '%s' for a valid nonsingular system", o.msg.c_str ()) ;
            else if (o.msg.find ("singular") == std::string::npos) fail (K_STATUS, nm, "raised the error '%s' for a singular matrix", o.msg.c_str ()) ;
            return ;
        }
        if (bad) { fail (K_STATUS, nm, "accepted invalid input (kind %d)", bad) ; return ; }
        if (!known) return ;
        if (sing) { fail (K_STATUS, nm, "returned a result for a singular matrix") ; return ; }
        mxArray *x = o.x ;
        if (!x || !is_ours (x)) { fail (K_VALUE, nm, "returned no result") ; return ; }
        if (x->m != (size_t) n || x->n != (size_t) nrhs) { fail (K_VALUE, nm, "the result is %zu-by-%zu", x->m, x->n) ; return ; }
        if (sol == 0)
        {
            if (x->cls != mxDOUBLE_CLASS || x->cplx || x->sparse) { fail (K_VALUE, nm, "the result is not a full real matrix") ; return ; }
            if (!arena_is_live (x->pr) || arena_size (x->pr) < 8 * (size_t) (n * nrhs)) { fail (K_BADFREE, nm, "the result does not own its values") ; return ; }
            for (int k = 0 ; k < n * nrhs ; k++)
            {
                double d = ((double *) x->pr) [k] ;
                if (xe [(size_t) k] != 0 && flog2 (xe [(size_t) k]) >= 1023) continue ;
                if (!isfinite (d) || !within_ulp (d_raw (d), xe [(size_t) k], 53, -1074)) { fail (K_VALUE, nm, "x(%d) is %.17g, the exact solution is %s", k, d, qs (xe [(size_t) k]).c_str ()) ; return ; }
            }
        }
        else
        {
            if (x->cls != mxCELL_CLASS || x->kids.size () != (size_t) (n * nrhs)) { fail (K_VALUE, nm, "the result is not a cell array of the right size") ; return ; }
            for (int k = 0 ; k < n * nrhs ; k++)
            {
                mxArray *e = x->kids [(size_t) k] ;
                if (!e || !is_ours (e) || e->cls != mxCHAR_CLASS) { fail (K_VALUE, nm, "cell %d does not hold a string", k) ; return ; }
                Z d = qden (xe [(size_t) k]) ; std::string want = qnum (xe [(size_t) k]).str () + (d == 1 ? "" : "/" + d.str ()) ;
                if (e->str != want) { fail (K_VALUE, nm, "cell %d holds '%.60s', the exact solution is '%.60s'", k, e->str.c_str (), want.c_str ()) ; return ; }
            }
        }
        ct (CT_SOLVES) ;
    } ;
    auto finish = [&] (Outcome &o, const char *where, const char *when)
    {
        cleanup (o.x) ;            // the result lives on in the workspace
        check_shut (where, when) ;
        u64 d = o.err ? hstr (o.msg) : 5 ;
        if (o.x && o.x->cls == mxDOUBLE_CLASS && o.x->pr) for (int k = 0 ; k < n * nrhs ; k++) { u64 v ; memcpy (&v, (double *) o.x->pr + k, 8) ; d = mix (d, v) ; }
        cleanup (nullptr) ;        // the result is cleared
        return d ;
    } ;
    g_attempt = 0 ;
    Outcome o = call_mex (nout, nin, in, Fault ()) ; N = o.req ;
    judge (o) ; u64 d0 = finish (o, nm, o.err ? "an error" : "a successful call") ;
    if (s.get ("oom") && N > 0)
    {
        Rng fr ((u64) s.get ("fs") + 9) ; Fault f ; f.mode = s.get ("oom") == 1 ? 1 : 2 ; f.k = fr.range (1, N) ; f.seed = (u64) s.get ("fs") ;
        g_attempt = 1 ;
        Outcome q = call_mex (nout, nin, in, f) ;
        if (!q.err) fail (K_STATUS, nm, "a refused allocation did not end the call") ;
        if (q.oom) ct (CT_MEXOOM) ;
        if (P.digest () != in0) fail (K_INPUT, nm, "an argument of the MATLAB function was changed") ;
        finish (q, "mex_oom", "a call cut short by a refused allocation") ;
        g_attempt = 2 ;
        Outcome z = call_mex (nout, nin, in, Fault ()) ; judge (z) ;
        if (finish (z, nm, "a call after one cut short") != d0) fail (K_VALUE, nm, "the same call gives another result after one that was cut short") ;
    }
    step_digest (d0) ;
}
