// The command-line programs (SLIPLU, example, example2), run whole: their main
// functions are called inside the simulation, with simulated files, arguments,
// random numbers and processor clock.
#include "ops.h"
#include <unistd.h>
#include <errno.h>
#include <time.h>
extern "C" {
#include "demos.h"
}
extern "C" {
int app_SLIPLU (int argc, char *argv []) __attribute__ ((weak)) ;
int app_example2 (int argc, char *argv []) __attribute__ ((weak)) ;
int app_example (void) __attribute__ ((weak)) ;
}

//------------------------------------------------------------------------------
// what a program sees of its surroundings
//------------------------------------------------------------------------------
static bool app_on ;                       // a program is running
static std::string app_text ;              // what it wrote to its output and error streams
static std::vector<std::string> app_opened ;
static std::map<std::string, Stream> app_files ;      // name -> contents
static std::set<FILE *> app_streams ;
static Rng app_rng ; static i64 app_rand_span ; static clock_t app_now ;
static void put (const char *t) { if (app_text.size () < 60000) app_text += t ; }
extern "C" {
int app_vfprintf (FILE *f, const char *fmt, va_list ap)
{
    if (!app_on) return vfprintf (f, fmt, ap) ;
    char b [4096] ; int n = vsnprintf (b, sizeof b, fmt, ap) ; put (b) ; return n ;
}
int app_vprintf (const char *fmt, va_list ap) { return app_vfprintf (stdout, fmt, ap) ; }
int app_printf (const char *fmt, ...) { va_list ap ; va_start (ap, fmt) ; int n = app_vfprintf (stdout, fmt, ap) ; va_end (ap) ; return n ; }
int app_fprintf (FILE *f, const char *fmt, ...) { va_list ap ; va_start (ap, fmt) ; int n = app_vfprintf (f, fmt, ap) ; va_end (ap) ; return n ; }
int app_puts (const char *t) { return app_printf ("%s\n", t) ; }
int app_fputs (const char *t, FILE *f) { return app_fprintf (f, "%s", t) ; }
int app_putchar (int c) { return app_printf ("%c", c) < 0 ? EOF : c ; }
int app_fputc (int c, FILE *f) { return app_fprintf (f, "%c", c) < 0 ? EOF : c ; }
void app_perror (const char *t) { const int e = errno ; app_printf ("%s: %s\n", t, strerror (e)) ; }
FILE *app_fopen (const char *name, const char *)
{
    app_opened.push_back (name ? name : "(null)") ;
    auto it = name ? app_files.find (name) : app_files.end () ;
    if (it == app_files.end ()) { errno = ENOENT ; ct (CT_APP_NOFILE) ; return nullptr ; }
    it->second.at = 0 ;
    cookie_io_functions_t io = { st_read, nullptr, nullptr, nullptr } ;
    FILE *f = fopencookie (&it->second, "r", io) ;
    app_streams.insert (f) ; return f ;
}
int app_fclose (FILE *f)
{
    if (f && !app_streams.erase (f)) { fail (K_LIFE, "fclose", "a stream that is not open is closed") ; return EOF ; }
    return f ? fclose (f) : EOF ;
}
int app_rand (void) { return (int) app_rng.below (app_rand_span) ; }
void app_srand (unsigned) { }
clock_t app_clock (void) { app_now += (clock_t) app_rng.below (1000000) ; return app_now ; }
}

//------------------------------------------------------------------------------
// one run of a program
//------------------------------------------------------------------------------
// what the arguments of SLIPLU mean, from its documentation
struct Cmd { bool refused = false, help = false, vague = false ; int piv = SLIP_TOL_SMALLEST, ord = SLIP_COLAMD, pr = 0 ; double tol = 1 ; std::string mat = "../ExampleMats/10teams_mat.txt", rhs = "../ExampleMats/10teams_v.txt" ; } ;
static Cmd read_args (const std::vector<std::string> &a)
{
    Cmd c ;
    for (size_t i = 1 ; i < a.size () ; i++)
    {
        const std::string &o = a [i] ;
        auto next = [&] (std::string &v) { if (i + 1 >= a.size ()) return false ; v = a [++i] ; return true ; } ;
        std::string v ;
        if (o == "help") c.help = true ;
        else if (o == "p" || o == "piv") { if (!next (v)) { c.refused = true ; break ; } int k = atoi (v.c_str ()) ; c.piv = k < 0 || k > 5 ? SLIP_SMALLEST : k ; }
        else if (o == "q" || o == "col") { if (!next (v)) { c.refused = true ; break ; } int k = atoi (v.c_str ()) ; c.ord = k < 0 || k > 2 ? SLIP_COLAMD : k ; }
        else if (o == "t" || o == "tol") { if (!next (v)) { c.refused = true ; break ; } double t = atof (v.c_str ()) ; if (t < 0) { c.refused = true ; break ; } if (t == 0) c.vague = true ; c.tol = t ; }
        else if (o == "o" || o == "out") { if (!next (v)) { c.refused = true ; break ; } c.pr = atoi (v.c_str ()) ; }
        else if (o == "f" || o == "file") { if (!next (c.mat) || !next (c.rhs)) { c.refused = true ; break ; } }
        else { c.refused = true ; break ; }
    }
    return c ;
}
static std::string file_of (Rng &r, const Gen &g, int nrhs, bool rhs, const Rec &s)
{
    const int n = g.n ; std::string t ;
    if (rhs)
    {
        i64 m = n ; if (s.get ("mis") == 1) m = n + (r.chance (500) || n == 1 ? 1 : -1) ;
        t = std::to_string (m) + " " + std::to_string (nrhs) + "\n" ;
        for (i64 i = 0 ; i < m ; i++) { for (int j = 0 ; j < nrhs ; j++) t += (r.chance (150) ? Z (0) : rand_z (r, (int) r.range (1, 40))).str () + " " ; t += "\n" ; }
        return t ;
    }
    i64 m = n ; if (s.get ("mis") == 2) m = n + 1 ;
    std::vector<std::string> ls ;
    for (int j = 0 ; j < n ; j++) for (int i = 0 ; i < n ; i++) if (g.pat [(size_t) (i + j * n)]) ls.push_back (std::to_string (i + 1) + " " + std::to_string (j + 1) + " " + g.a [(size_t) (i + j * n)].str ()) ;
    if (s.get ("jum")) for (size_t k = ls.size () ; k > 1 ; k--) std::swap (ls [k-1], ls [(size_t) r.below ((i64) k)]) ;
    t = std::to_string (m) + " " + std::to_string (n) + " " + std::to_string (ls.size ()) + "\n" ;
    for (auto &l : ls) t += l + "\n" ;
    return t ;
}
static bool damage (Stream &S, Rng &r, int io)
{
    if (g_no_faults || io == 0 || S.data.empty ()) return false ;
    const size_t at = (size_t) r.below ((i64) S.data.size ()) ;
    switch (io)
    {
        case 1: S.data.resize (at) ; ct (CT_IO_EOF) ; break ;
        case 2: S.err = at ; ct (CT_IO_ERR) ; break ;
        case 3: { static const char alt [] = "0123456789- \n.xe" ; S.data [at] = alt [r.below (16)] ; ct (CT_IO_FLIP) ; break ; }
        default: S.data.erase (at, 1 + (size_t) r.below (3)) ; ct (CT_IO_FLIP) ;
    }
    return true ;
}
void step_app (const Rec &s)
{
    if (!&app_SLIPLU || !&app_example || !&app_example2) { fprintf (stderr, "sim: built without the command-line programs\n") ; _exit (77) ; }
    if (g_session) session_end ("before a program is run") ;
    const int prog = (int) s.get ("prog") % 3 ; static const char *names [] = { "SLIPLU", "example2", "example" } ; const char *nm = names [prog] ;
    Rng r (mix ((u64) s.get ("argseed"), 11)) ;
    const int nrhs = (int) std::max<i64> (1, s.get ("nrhs", 1)) ;
    Gen g = gen_sys (s, (u64) s.get ("seed"), (int) s.get ("bits", 3)) ; if (g.n < 1) return ;
    // arguments
    std::vector<std::string> a = { nm } ; bool named = false ;
    if (prog == 0)
    {
        const int bad = (int) s.get ("bad") ; std::vector<std::vector<std::string>> parts ;
        auto w = [&] (const char *x, const char *y) { return std::string (r.chance (500) ? x : y) ; } ;
        if (s.get ("piv", -1) >= -1 && r.chance (700)) parts.push_back ({ w ("p", "piv"), std::to_string (bad == 1 ? r.pick ({-1, 6, 7, 100}) : r.below (6)) }) ;
        if (r.chance (700)) parts.push_back ({ w ("q", "col"), std::to_string (bad == 2 ? r.pick ({-1, 3, 4, 100}) : r.below (3)) }) ;
        if (r.chance (600)) parts.push_back ({ w ("t", "tol"), bad == 3 ? std::string (r.pick ({"-1", "-0.5", "-1e-9"})) : std::string (r.pick ({"0.1", "1", "1e-10", "0.5", "0.25", "2", "1.0", "3e-1"})) }) ;
        if (r.chance (500)) parts.push_back ({ w ("o", "out"), std::to_string (r.below (3)) }) ;
        if (r.chance (800)) { parts.push_back ({ w ("f", "file"), "mat.txt", "rhs.txt" }) ; named = true ; }
        if (r.chance (100) && !parts.empty ()) parts.push_back ({ w ("p", "piv"), std::to_string (r.below (6)) }) ;       // the last one counts
        if (bad == 4) parts.push_back ({ r.pick ({"x", "-h", "P", "pp", "", "help2", "c"}) }) ;
        if (bad == 5) parts.push_back ({ "help" }) ;
        for (size_t k = parts.size () ; k > 1 ; k--) std::swap (parts [k-1], parts [(size_t) r.below ((i64) k)]) ;
        if (bad == 6) { static const char *o [] = { "p", "q", "t", "o", "f", "piv", "col", "tol", "out", "file" } ; parts.push_back ({ o [r.below (10)] }) ; if (r.chance (300) && parts.back () [0] [0] == 'f') parts.back ().push_back ("mat.txt") ; }
        for (auto &p : parts) for (auto &x : p) a.push_back (x) ;
    }
    else if (prog == 1 && r.chance (800)) { a.push_back ("mat.txt") ; if (r.chance (900)) { a.push_back ("rhs.txt") ; named = true ; } }
    Cmd C ; if (prog == 0) C = read_args (a) ; else if (prog == 1 && named) { C.mat = "mat.txt" ; C.rhs = "rhs.txt" ; }
    // files: the ones asked for, and others with different contents under the default names
    Stream M, B ; M.data = file_of (r, g, nrhs, false, s) ; B.data = file_of (r, g, nrhs, true, s) ;
    M.chunk = B.chunk = (size_t) s.get ("chunk") ;
    const bool fm = damage (M, r, (int) s.get ("io1")), fb = damage (B, r, (int) s.get ("io2")) ;
    const int miss = g_no_faults ? 0 : (int) s.get ("miss") ;
    app_files.clear () ;
    if (named) { app_files ["../ExampleMats/10teams_mat.txt"].data = "1 1 1\n1 1 1\n" ; app_files ["../ExampleMats/10teams_v.txt"].data = "1 1\n1\n" ; }
    if (!(miss & 1)) app_files [C.mat] = M ;
    if (!(miss & 2)) app_files [C.rhs] = B ;
    // what must come of it
    enum { PASS, FAIL, SINGULAR, EITHER } want = PASS ;
    if (prog == 2) want = s.get ("span") ? EITHER : PASS ;
    else if (C.refused || C.help || miss) want = FAIL ;
    else
    {
        auto eff = [] (const Stream &S) { return S.data.substr (0, S.err == SIZE_MAX ? S.data.size () : S.err) ; } ;
        Parsed A = parse (eff (M), 0), D = parse (eff (B), 2) ;
        if (D.endless) { app_files.clear () ; return ; }
        if (!A.ok || A.nz == 0) want = FAIL ;      // (a matrix without entries has no solution, whatever the reader says of it)
        else if (A.odd || A.n < 1 || A.m < 1 || A.n > 40) want = EITHER ;
        else if (!D.ok) want = FAIL ;
        else if (D.m < 1 || D.n < 1) want = EITHER ;
        else if (A.n != D.m || A.m != A.n) want = FAIL ;
        else
        {
            ZV x ((size_t) (A.n * A.n), Z (0)) ; for (auto &e : A.e) x [(size_t) (e.i + e.j * A.n)] = qnum (e.v) ;
            if (det_bareiss (x, (int) A.n) == 0) want = SINGULAR ;
        }
        // data that was damaged and still reads well may be refused, never misread
        if (want != FAIL && (M.err != SIZE_MAX || B.err != SIZE_MAX)) want = EITHER ;
        if (C.vague && want != FAIL) want = EITHER ;
    }
    (void) fm ; (void) fb ;
    // the factorization the options ask for, through the library itself
    i64 nnz = -1 ;
    if (prog == 0 && want == PASS)
    {
        session_begin (g_set, true) ;
        SLIP_matrix *A = nullptr, *L = nullptr, *U = nullptr, *rh = nullptr ; int64_t *pinv = nullptr ; SLIP_LU_analysis *S = nullptr ;
        SLIP_options o ; memset (&o, 0, sizeof o) ; o.pivot = (SLIP_pivot) C.piv ; o.order = (SLIP_col_order) C.ord ; o.tol = C.tol ; o.prec = 128 ; o.round = MPFR_RNDN ;
        Stream T = M ; cookie_io_functions_t io = { st_read, nullptr, nullptr, nullptr } ; FILE *f = fopencookie (&T, "r", io) ;
        if (LIB (SLIP_tripread (&A, f, &o)) == SLIP_OK && LIB (SLIP_LU_analyze (&S, A, &o)) == SLIP_OK && LIB (SLIP_LU_factorize (&L, &U, &rh, &pinv, A, S, &o)) == SLIP_OK)
            nnz = L->p [L->n] + U->p [U->n] - L->m ;
        fclose (f) ;
        (void) LIB (SLIP_matrix_free (&A, &o)) ; (void) LIB (SLIP_matrix_free (&L, &o)) ; (void) LIB (SLIP_matrix_free (&U, &o)) ; (void) LIB (SLIP_matrix_free (&rh, &o)) ;
        LIBV (SLIP_free (pinv)) ; (void) LIB (SLIP_LU_analysis_free (&S, &o)) ;
        session_end ("after a reference factorization") ;
    }
    std::vector<char *> av ; for (auto &x : a) av.push_back ((char *) x.c_str ()) ; av.push_back (nullptr) ;
    enum { ST_REFUSED = 950, ST_SILENT = 951 } ; int code = 0 ;
    Call c ; c.name = nm ; c.bypass_ok = true ; c.pr = 3 ;
    c.prep = [&] { app_text.clear () ; app_opened.clear () ; app_rng = Rng ((u64) s.get ("argseed")) ; app_rand_span = prog == 2 && s.get ("span") ? s.get ("span") : (i64) 1 << 31 ; app_now = (clock_t) app_rng.below (1000000000) ; } ;
    c.run = [&] () -> int
    {
        app_on = true ;
        if (prog == 0) (void) app_SLIPLU ((int) a.size (), av.data ()) ; else if (prog == 1) (void) app_example2 ((int) a.size (), av.data ()) ; else (void) app_example () ;
        app_on = false ; ct (CT_APPS) ;
        code = 0 ; size_t at = app_text.find ("Error: ") ; if (at != std::string::npos) code = atoi (app_text.c_str () + at + 7) ;
        if (app_text.find ("all tests passed") != std::string::npos) return SLIP_OK ;
        ct (CT_APP_REFUSED) ;
        if (fault_fired () && (code == SLIP_OUT_OF_MEMORY || app_text.find ("MEMORY") != std::string::npos)) return SLIP_OUT_OF_MEMORY ;
        return app_text.empty () ? ST_SILENT : ST_REFUSED ;
    } ;
    c.empty = [] { return true ; } ;
    c.drop = [&]
    {
        // what a program leaves behind
        for (FILE *f : app_streams) fclose (f) ;
        app_streams.clear () ;
        int st = LIB (SLIP_finalize ()) ;
        if (st != SLIP_PANIC) fail (K_LIFE, nm, "the program ended without shutting the library down") ;
        if (arena_live () != 0) fail (K_LEAK, nm, "%ld block(s) still allocated at the end of the program:%s", (long) arena_live (), arena_live_desc ().c_str ()) ;
    } ;
    c.in = [] { return 1 ; } ;
    c.out = [&] { return hstr (app_text) ; } ;
    c.ok = [&] (int st) { if (want == EITHER) return st == SLIP_OK || st == ST_REFUSED ; return want == PASS ? st == SLIP_OK : st == ST_REFUSED ; } ;
    c.verify = [&] (int st)
    {
        if (want == SINGULAR && code != SLIP_SINGULAR) fail (K_STATUS, nm, "a singular system is reported with code %d", code) ;
        if (prog != 2)
        {
            std::vector<std::string> ex = { C.mat, C.rhs } ; if (C.refused || C.help) ex.clear () ;
            for (size_t k = 0 ; k < app_opened.size () ; k++) if (k >= ex.size () || app_opened [k] != ex [k]) { fail (K_VALUE, nm, "reads \"%s\"", app_opened [k].c_str ()) ; return ; }
            if (st == SLIP_OK && app_opened.size () != 2) fail (K_VALUE, nm, "reports success without reading both files") ;
        }
        if (prog == 0 && C.help && !C.refused && app_text.find ("help") == std::string::npos && app_text.find ("followed by") == std::string::npos) fail (K_VALUE, nm, "asked for help, it does not explain its usage") ;
        if (st != SLIP_OK || prog != 0 || want != PASS) return ;
        size_t at = app_text.find ("Number of L+U nonzeros:") ;
        i64 got = at == std::string::npos ? -1 : atol (app_text.c_str () + at + 23) ;
        if (got != nnz) { fail (K_VALUE, nm, "reports %ld entries in the factors; pivoting %d, ordering %d and tolerance %g give %ld", (long) got, C.piv, C.ord, C.tol, (long) nnz) ; return ; }
        if (C.pr > 0)
        {
            static const char *on [] = { "No ordering", "the COLAMD ordering", "the AMD ordering" }, *pn [] = { "the smallest pivot", "the diagonal pivot", "the first nonzero pivot", "the diagonal small tolerance pivot", "the diagonal large tolerance pivot", "the largest pivot" } ;
            char tb [80] ; snprintf (tb, sizeof tb, "Tolerance used: %lf", C.tol) ;
            if (app_text.find (on [C.ord]) == std::string::npos || app_text.find (pn [C.piv]) == std::string::npos || ((C.piv == 3 || C.piv == 4) && app_text.find (tb) == std::string::npos))
                fail (K_VALUE, nm, "the options it prints are not the ones given") ;
        }
    } ;
    drive (s, c) ; c.drop () ;
    app_files.clear () ; app_text.clear () ;
}
