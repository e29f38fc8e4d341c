// Running plans: one forked child per execution, batches of seeds, replay and
// minimisation.
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <set>

extern "C" void __asan_set_error_report_callback (void (*)(const char *)) ;
extern "C" const char *__asan_default_options ()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:handle_sigfpe=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:symbolize=0:max_uar_stack_size_log=16:quarantine_size_mb=8:malloc_context_size=0:print_summary=0" ;
}
extern "C" int __real_clock_gettime (clockid_t, struct timespec *) ;
static double now_s ()
{
    struct timespec t ; __real_clock_gettime (CLOCK_MONOTONIC, &t) ;
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec ;
}

Result *R ;
u64 g_mask ;
int g_step = -1, g_attempt = -1 ;
static bool in_child ;
static char cur_op [32] = "start" ;

//--- edge coverage of the code under test -------------------------------------------
static struct { unsigned char *a, *b ; } covs [256] ; static int ncov ; static size_t cov_n ;
extern "C" void __sanitizer_cov_8bit_counters_init (char *start, char *stop)
{
    for (int k = 0 ; k < ncov ; k++) if (covs [k].a == (unsigned char *) start) return ;
    if (ncov < 256) { covs [ncov].a = (unsigned char *) start ; covs [ncov++].b = (unsigned char *) stop ; cov_n += (size_t) (stop - start) ; }
}
extern "C" void __sanitizer_cov_pcs_init (const uintptr_t *, const uintptr_t *) { }
static unsigned char *cov_all ;     // shared: edges reached by any run of this worker

//--- violations -------------------------------------------------------------------------
void logh (u64 v) { R->log_hash = mix (R->log_hash, v) ; }
void finish_child ()
{
    u64 h = 1 ; size_t at = 0 ;
    for (int k = 0 ; k < ncov ; k++) for (unsigned char *c = covs [k].a ; c < covs [k].b ; c++, at++) if (*c)
    {
        unsigned char b = *c == 1 ? 1 : *c == 2 ? 2 : *c < 4 ? 3 : *c < 8 ? 4 : *c < 32 ? 5 : *c < 128 ? 6 : 7 ;
        h = mix (h, at * 8 + b) ;
        if (cov_all) cov_all [at] = 1 ;
    }
    R->cov_hash = h ;
    R->done = 1 ;
    _exit (0) ;
}
void fail (Kind k, const char *where, const char *fmt, ...)
{
    logh (0xBAD00 + (u64) k) ;
    if (!((g_mask >> k) & 1)) return ;
    if (R->kind >= 0) return ;
    char msg [600] ;
    va_list ap ; va_start (ap, fmt) ; vsnprintf (msg, sizeof msg, fmt, ap) ; va_end (ap) ;
    snprintf (R->cls, sizeof R->cls, "%s %s", kind_name [k], where) ;
    snprintf (R->msg, sizeof R->msg, "step %d (%s)%s%s: %s: %s", g_step, cur_op, g_attempt >= 0 ? ", attempt " : "", g_attempt >= 0 ? std::to_string (g_attempt).c_str () : "", where, msg) ;
    R->step = g_step ; R->kind = k ;
    finish_child () ;
}
void step_digest (u64 d)
{
    int s = g_step < 0 ? 0 : g_step >= 399 ? 399 : g_step ;
    R->dig [s] = mix (R->dig [s], d) ;
    if (s + 1 > R->ndig) R->ndig = s + 1 ;
    logh (d) ;
}
static void asan_report (const char *txt)
{
    if (!in_child) return ;
    const char *e = strstr (txt, "AddressSanitizer: ") ;
    std::string t = e ? e + 18 : txt ;
    size_t sp = t.find_first_of (" \n") ;
    std::string type = t.substr (0, sp) ;
    snprintf (R->cls, sizeof R->cls, "CRASH %s in %s", type.c_str (), cur_op) ;
    snprintf (R->msg, sizeof R->msg, "step %d (%s), attempt %d: crash (%s) inside the code under test: %.300s", g_step, cur_op, g_attempt, type.c_str (), t.c_str ()) ;
    for (char *c = R->msg ; *c ; c++) if (*c == '\n') *c = ' ' ;
    R->step = g_step ; R->kind = K_CRASH ;
}

//--- one execution -------------------------------------------------------------------------
struct Pass { int only = -1 ; bool no_faults = false, env2 = false ; int sink = -1 ; } ;
static int g_memfd = -1 ;
static void exec_pass (const Plan &p, const Pass &ps)
{
    const Rec &c = p.cfg ; std::string pre = ps.env2 ? "e2" : "" ;
    auto f = [&] (const char *nm, i64 d) { auto it = c.f.find (pre + nm) ; return it == c.f.end () ? d : it->second ; } ;
    Env e ; e.fill = (int) f ("fill", 0) ; e.reuse = (int) f ("reuse", 0) ; e.move = (int) f ("move", 1) ; e.pad = (int) f ("pad", 0) ;
    e.seed = mix ((u64) c.get ("seed"), ps.env2 ? 2 : 1) ;
    g_no_faults = ps.no_faults ;
    g_sink_mode = ps.sink >= 0 ? ps.sink : (int) c.get ("sink") ;
    e.sink = g_sink_mode ;
    install_hooks () ;
    arena_start (e) ;
    sink_install (g_sink_mode, e.seed + 5) ;
    session_begin ((int) c.get ("set") & 1, true) ;
    for (size_t k = 0 ; k < p.steps.size () ; k++)
    {
        const Rec &s = p.steps [k] ;
        if (ps.only >= 0 && s.get ("c") != ps.only) continue ;
        g_step = (int) k ; g_attempt = -1 ; R->attempt = -1 ;
        snprintf (cur_op, sizeof cur_op, "%s", s.op.c_str ()) ;
        ct (CT_STEPS) ; logh (hstr (s.op)) ;
        const std::string &o = s.op ;
        if (o.rfind ("mat_", 0) == 0 || o == "alloc" || o == "optnew") step_mat (s) ;
        else if (o == "gmp") step_gmp (s) ;
        else if (o.rfind ("sys_", 0) == 0 || o == "back") step_sys (s) ;
        else if (o == "life") step_life (s) ;
        else if (o == "amd" || o == "col" || o == "sym") step_ord (s) ;
        else if (o == "ana") step_ana (s) ;
        else if (o == "mem") step_mem (s) ;
        else if (o == "read") step_read (s) ;
        else if (o == "clk") step_clk (s) ;
        else if (o == "mex") step_mex (s) ;
        else if (o == "app") step_app (s) ;
        else { fprintf (stderr, "sim: unknown step %s\n", o.c_str ()) ; _exit (77) ; }
    }
    g_step = (int) p.steps.size () ; g_attempt = -1 ; snprintf (cur_op, sizeof cur_op, "end") ;
    for (auto &cl : g_cl) { for (auto &y : cl.sys) sys_free_all (y) ; for (auto &m : cl.mat) drop_mat (m) ; }
    if (g_session) session_end ("at the end of the run") ;
    else if (arena_live () != 0) fail (K_LEAK, "finalize", "%ld block(s) still allocated at the end of the run:%s", (long) arena_live (), arena_live_desc ().c_str ()) ;
}
static void run_pass (const Plan &p, const Pass &ps, Result *res)
{
    memset ((void *) res, 0, sizeof *res) ; res->kind = -1 ; res->step = -1 ;
    R = res ;
    fflush (nullptr) ;
    pid_t pid = _Fork () ; // without the sanitizer's fork handlers, which touch a thousand pages
    if (pid < 0) { perror ("fork") ; exit (3) ; }
    if (pid == 0)
    {
        in_child = true ;
        struct rlimit rl = { 15, 17 } ; setrlimit (RLIMIT_CPU, &rl) ;
        struct rlimit rc = { 0, 0 } ; setrlimit (RLIMIT_CORE, &rc) ;
        if (g_memfd >= 0) { if (ftruncate (g_memfd, 0)) { } lseek (g_memfd, 0, SEEK_SET) ; dup2 (g_memfd, 1) ; dup2 (g_memfd, 2) ; }
        __asan_set_error_report_callback (asan_report) ;
        exec_pass (p, ps) ;
        finish_child () ;
    }
    int st ; while (waitpid (pid, &st, 0) < 0 && errno == EINTR) { }
    if (res->done) return ;
    if (WIFSIGNALED (st) && (WTERMSIG (st) == SIGXCPU || (WTERMSIG (st) == SIGKILL && res->kind < 0)))
    {
        if (WTERMSIG (st) == SIGKILL)
        {
            // the memory guard or the hard CPU limit: only the latter is a hang
            struct rusage ru ; getrusage (RUSAGE_CHILDREN, &ru) ; res->inconclusive = 3 ; return ;
        }
        res->kind = K_HANG ; snprintf (res->cls, sizeof res->cls, "HANG") ; snprintf (res->msg, sizeof res->msg, "the call did not return within 15 s of CPU time") ;
        res->log_hash = 0x48414e47 ;      // where the limit struck is not part of the result
    }
    else if (WIFEXITED (st) && WEXITSTATUS (st) == 77) { fprintf (stderr, "sim: internal error in child\n") ; exit (3) ; }
    else if (res->kind < 0)
    {
        res->kind = K_CRASH ;
        if (WIFSIGNALED (st)) { snprintf (res->cls, sizeof res->cls, "CRASH signal %d", WTERMSIG (st)) ; snprintf (res->msg, sizeof res->msg, "the process was ended by signal %d (%s)", WTERMSIG (st), strsignal (WTERMSIG (st))) ; }
        else { snprintf (res->cls, sizeof res->cls, "CRASH exit %d", WEXITSTATUS (st)) ; snprintf (res->msg, sizeof res->msg, "the process exited with status %d in the middle of a call", WEXITSTATUS (st)) ; }
    }
    res->done = 1 ;
}
static Result *sh_a, *sh_b ;
// all passes a property needs; the result of the first violating pass, or of pass 1
static Result run_plan (const std::string &prop, const Plan &p)
{
    g_mask = prop_mask (prop) ;
    run_pass (p, Pass (), sh_a) ;
    Result r = *sh_a ;
    if (r.kind >= 0 || r.inconclusive) return r ;
    auto add = [&] ()
    {
        for (int k = 0 ; k < CT_NCT ; k++) r.counters [k] += sh_b->counters [k] ;
        r.log_hash = mix (r.log_hash, sh_b->log_hash) ; r.cov_hash = mix (r.cov_hash, sh_b->cov_hash) ; r.sim_ns += sh_b->sim_ns ;
        if (sh_b->inconclusive) { r.inconclusive = sh_b->inconclusive ; return false ; }
        if (sh_b->kind >= 0) { r.kind = sh_b->kind ; memcpy (r.cls, sh_b->cls, sizeof r.cls) ; memcpy (r.msg, sh_b->msg, sizeof r.msg) ; r.step = sh_b->step ; return false ; }
        return true ;
    } ;
    auto compare = [&] (Kind k, int only, const char *what)
    {
        for (size_t i = 0 ; i < p.steps.size () && i < 399 ; i++)
        {
            if (only >= 0 && p.steps [i].get ("c") != only) continue ;
            if (sh_a->dig [i] == sh_b->dig [i]) continue ;
            r.kind = k ; r.step = (int) i ;
            snprintf (r.cls, sizeof r.cls, "%s %s", kind_name [k], p.steps [i].op.c_str ()) ;
            snprintf (r.msg, sizeof r.msg, "step %zu (%s): its results differ when the same calls are run again %s", i, p.steps [i].op.c_str (), what) ;
            return false ;
        }
        return true ;
    } ;
    if (prop == "C12")
    {
        Pass q ; q.no_faults = true ; q.env2 = true ;
        run_pass (p, q, sh_b) ;
        if (!add () || !compare (K_DIGEST, -1, "without failures and with an allocator that fills, reuses and moves memory differently")) return r ;
        std::set<i64> cl ; for (auto &s : p.steps) cl.insert (s.get ("c")) ;
        if (cl.size () > 1) for (i64 c : cl)
        {
            Pass s ; s.only = (int) c ; s.env2 = (c & 1) != 0 ;
            run_pass (p, s, sh_b) ;
            if (!add () || !compare (K_DIGEST, (int) c, "by this client alone")) return r ;
        }
    }
    if (prop == "C21")
    {
        Pass q ; int s = (int) p.cfg.get ("sink") ; q.sink = s == 0 ? 1 + (int) (p.cfg.get ("seed") & 1) : 0 ;
        run_pass (p, q, sh_b) ;
        if (!add () || !compare (K_OUTPUT, -1, q.sink == 1 ? "without a print function" : q.sink == 2 ? "with a print function that reports errors" : "with a working print function")) return r ;
    }
    return r ;
}
static std::string esc (const char *s)
{
    std::string o ;
    for (; *s ; s++) { unsigned char c = (unsigned char) *s ; if (c == '"' || c == '\\') { o += '\\' ; o += (char) c ; } else if (c < 32 || c > 126) { char b [8] ; snprintf (b, sizeof b, "\\u%04x", c) ; o += b ; } else o += (char) c ; }
    return o ;
}
static std::string res_json (const Result &r)
{
    char b [200] ; std::string o = "{\"kind\": " ;
    o += r.kind < 0 ? "null" : std::string ("\"") + kind_name [r.kind] + "\"" ;
    o += ", \"cls\": \"" + esc (r.cls) + "\", \"msg\": \"" + esc (r.msg) + "\"" ;
    snprintf (b, sizeof b, ", \"step\": %d, \"inconclusive\": %d, \"log\": \"%016llx\", \"cov\": \"%016llx\"}", r.step, r.inconclusive, (unsigned long long) r.log_hash, (unsigned long long) r.cov_hash) ;
    return o + b ;
}

//--- minimisation ------------------------------------------------------------------------------
static Plan minimise (const std::string &prop, Plan p, const std::string &cls, int budget, double wall)
{
    const double t0 = now_s () ; int used = 0 ;
    auto bad = [&] (const Plan &q) { if (used >= budget || now_s () - t0 > wall) return false ; used++ ; Result r = run_plan (prop, q) ; return r.kind >= 0 && cls == r.cls ; } ;
    for (bool more = true ; more && used < budget ; )
    {
        more = false ;
        for (size_t w = p.steps.size () ; w >= 1 ; w = w == 1 ? 0 : w / 2)
            for (size_t at = 0 ; at + w <= p.steps.size () ; )
            {
                Plan q = p ; q.steps.erase (q.steps.begin () + (long) at, q.steps.begin () + (long) (at + w)) ;
                if (bad (q)) { p = q ; more = true ; } else at++ ;
            }
        for (int k = -1 ; k < (int) p.steps.size () ; k++)
        {
            std::vector<std::string> keys ;
            for (auto &kv : (k < 0 ? p.cfg : p.steps [(size_t) k]).f) if (kv.first != "variant" && kv.first != "seed" && kv.first != "fs") keys.push_back (kv.first) ;
            for (auto &key : keys)
            {
                auto rec = [&] (Plan &q) -> Rec & { return k < 0 ? q.cfg : q.steps [(size_t) k] ; } ;
                i64 v = rec (p).f [key] ;
                if (v != 0) { Plan q = p ; rec (q).f [key] = 0 ; if (bad (q)) { p = q ; more = true ; continue ; } }
                if (v > 1 && key != "bseed")
                {
                    Plan q = p ; rec (q).f [key] = 1 ; if (bad (q)) { p = q ; more = true ; continue ; }
                    i64 lo = 1, hi = v ;          // smallest failing value above lo, heuristically
                    if (v <= 100000) while (hi - lo > 1) { Plan z = p ; i64 mid = (lo + hi) / 2 ; rec (z).f [key] = mid ; if (bad (z)) { p = z ; hi = mid ; more = true ; } else lo = mid ; }
                }
            }
        }
    }
    return p ;
}

static std::string slurp (const char *f) { std::ifstream i (f) ; std::ostringstream o ; o << i.rdbuf () ; return o.str () ; }
static void wr (const std::string &f, const std::string &t) { std::ofstream o (f) ; o << t ; }

int main (int argc, char **argv)
{
    if (!getenv ("SIM_ASLR_OFF"))
    {
        // best effort: a fixed address layout makes even wild pointers repeatable
        int cur = personality (0xffffffff) ;
        if (cur >= 0 && !(cur & ADDR_NO_RANDOMIZE) && personality ((unsigned long) cur | ADDR_NO_RANDOMIZE) >= 0)
        { setenv ("SIM_ASLR_OFF", "1", 1) ; execv ("/proc/self/exe", argv) ; }
    }
    auto shm = [] (size_t n) { void *p = mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) ; if (p == MAP_FAILED) { perror ("mmap") ; exit (3) ; } return p ; } ;
    sh_a = (Result *) shm (sizeof (Result)) ; sh_b = (Result *) shm (sizeof (Result)) ;
    R = sh_a ;
    cov_all = (unsigned char *) shm (cov_n + 16) ;
    if (!getenv ("SIM_SHOW")) g_memfd = (int) syscall (SYS_memfd_create, "simout", 0) ;
    std::string mode = argc > 1 ? argv [1] : "" ;
    if (mode == "--plan" && argc >= 4)             // --plan PROP FILE
    {
        Plan p ; if (!plan_parse (slurp (argv [3]), p)) { fprintf (stderr, "bad plan\n") ; return 3 ; }
        Result r = run_plan (argv [2], p) ;
        printf ("%s\n", res_json (r).c_str ()) ;
        return r.kind >= 0 ? 1 : 0 ;
    }
    if (mode == "--show" && argc >= 5)             // --show PROP SEED VARIANT
    {
        printf ("%s", plan_text (make_plan (argv [2], strtoull (argv [3], nullptr, 10), atoi (argv [4]))).c_str ()) ;
        return 0 ;
    }
    if (mode == "--min" && argc >= 6)              // --min PROP FILE OUT WALL
    {
        Plan p ; if (!plan_parse (slurp (argv [3]), p)) return 3 ;
        Result r = run_plan (argv [2], p) ;
        if (r.kind < 0) { printf ("%s\n", res_json (r).c_str ()) ; return 3 ; }
        Plan q = minimise (argv [2], p, r.cls, 4000, atof (argv [5])) ;
        Result z = run_plan (argv [2], q) ;
        wr (argv [4], plan_text (q)) ;
        printf ("%s\n", res_json (z).c_str ()) ;
        return z.kind >= 0 ? 1 : 3 ;
    }
    if (mode == "--batch" && argc >= 9)            // --batch PROP BASE FIRST STRIDE COUNT VARIANT OUTPREFIX [WALL] [KNOWN...]
    {
        std::string prop = argv [2] ; u64 base = strtoull (argv [3], nullptr, 10) ;
        i64 first = atoll (argv [4]), stride = atoll (argv [5]), count = atoll (argv [6]) ; int variant = atoi (argv [7]) ; std::string out = argv [8] ;
        double wall = argc > 9 ? atof (argv [9]) : 1e9 ;
        std::set<std::string> known ; for (int k = 10 ; k < argc ; k++) known.insert (argv [k]) ;
        const double t0 = now_s () ;
        u64 tot [CT_NCT] = {0}, simns = 0 ; std::set<u64> covs_, faults_, logs_ ; i64 runs = 0, incon = 0, nontriv = 0, twice = 0, mismatch = 0, knownhits = 0 ;
        std::string viol, samples ; int nviol = 0, nrep = 0, nsamp = 0 ; bool stopped = false ;
        for (i64 i = first ; i < count ; i += stride)
        {
            if (now_s () - t0 > wall) { stopped = true ; break ; }
            u64 seed = mix (base, (u64) i) >> 1 ;
            Plan p = make_plan (prop, seed, variant) ;
            Result r = run_plan (prop, p) ;
            runs++ ;
            if (r.inconclusive) { incon++ ; continue ; }
            for (int k = 0 ; k < CT_NCT ; k++) tot [k] += r.counters [k] ;
            simns += r.sim_ns ;
            covs_.insert (r.cov_hash) ; logs_.insert (r.log_hash) ; if (r.fault_hash) faults_.insert (r.fault_hash) ;
            // non-trivial: at least one step called into the code under test
            if (r.counters [CT_STEPS] && r.counters [CT_CALLS] > 2) nontriv++ ;
            if (nsamp < 2 && r.counters [CT_CALLS] > 5) { nsamp++ ; samples += std::string (samples.empty () ? "" : ", ") + "{\"seed\": " + std::to_string (seed) + ", \"plan\": \"" + esc (plan_text (p).c_str ()) + "\"}" ; }
            const bool again = r.kind >= 0 || i % 64 == 0 ;
            if (r.kind >= 0 && known.count (r.cls)) { knownhits++ ; continue ; }
            bool same = true ;
            if (again)
            {
                Result q = run_plan (prop, p) ; twice++ ;
                same = q.log_hash == r.log_hash && q.kind == r.kind && !strcmp (q.cls, r.cls) ;
                // only just within the limit of CPU time, or only just not: says nothing
                if (!same && (!strcmp (q.cls, "HANG") || !strcmp (r.cls, "HANG"))) { incon++ ; continue ; }
                if (!same) { mismatch++ ; if (getenv ("SIM_DEBUG")) fprintf (stderr, "mismatch seed %llu: %s / %s\n", (unsigned long long) seed, res_json (r).c_str (), res_json (q).c_str ()) ; }
            }
            if (r.kind >= 0)
            {
                std::string f = out + ".v" + std::to_string (nviol) + ".plan" ;
                wr (f, plan_text (p)) ;
                viol += std::string (viol.empty () ? "" : ", ") + "{\"index\": " + std::to_string (i) + ", \"seed\": " + std::to_string (seed) + ", \"repeatable\": " + (same ? "true" : "false") + ", \"plan\": \"" + esc (f.c_str ()) + "\", \"result\": " + res_json (r) + "}" ;
                if (same) nrep++ ;
                if (++nviol >= 40 || (nrep && !getenv ("SIM_MANY"))) { stopped = true ; break ; }
            }
        }
        size_t edges = 0 ; for (size_t k = 0 ; k < cov_n ; k++) edges += cov_all [k] != 0 ;
        std::ofstream o (out + ".json") ;
        o << "{\"runs\": " << runs << ", \"nontrivial\": " << nontriv << ", \"inconclusive\": " << incon << ", \"repeated\": " << twice << ", \"mismatches\": " << mismatch << ", \"known_hits\": " << knownhits
          << ", \"edges_total\": " << cov_n << ", \"edges\": " << edges << ", \"sim_ns\": " << simns << ", \"stopped\": " << (stopped ? "true" : "false") << ", \"wall\": " << now_s () - t0 << ", \"counters\": {" ;
        for (int k = 0 ; k < CT_NCT ; k++) o << (k ? ", " : "") << "\"" << ct_name [k] << "\": " << tot [k] ;
        o << "}, \"violations\": [" << viol << "], \"samples\": [" << samples << "]" ;
        auto dump = [&] (const char *nm, const std::set<u64> &s) { o << ", \"" << nm << "\": [" ; bool f = true ; for (u64 v : s) { o << (f ? "" : ",") << v ; f = false ; } o << "]" ; } ;
        dump ("cov", covs_) ; dump ("faults", faults_) ; dump ("logs", logs_) ;
        o << "}\n" ;
        std::ofstream c (out + ".cov", std::ios::binary) ; c.write ((const char *) cov_all, (long) cov_n) ;
        return nviol ? 1 : 0 ;
    }
    fprintf (stderr, "usage: simrun --plan PROP FILE | --show PROP SEED VARIANT | --min PROP FILE OUT WALL | --batch ...\n") ;
    return 3 ;
}
