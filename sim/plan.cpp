// Plans: text form, and the seeded generator ("swarm" style: every run draws
// its own environment, clients, operation mix, sizes and fault kinds).
#include "sim.h"
#include <sstream>
std::string plan_text (const Plan &p)
{
    std::ostringstream o ;
    auto rec = [&] (const Rec &r) { o << r.op ; for (auto &kv : r.f) o << " " << kv.first << "=" << kv.second ; o << "\n" ; } ;
    rec (p.cfg) ;
    for (auto &s : p.steps) rec (s) ;
    return o.str () ;
}
bool plan_parse (const std::string &t, Plan &p)
{
    std::istringstream in (t) ; std::string line ; bool first = true ;
    p = Plan () ;
    while (std::getline (in, line))
    {
        if (line.empty () || line [0] == '#') continue ;
        std::istringstream l (line) ; Rec r ; std::string tok ;
        l >> r.op ;
        while (l >> tok)
        {
            size_t e = tok.find ('=') ; if (e == std::string::npos) return false ;
            r.f [tok.substr (0, e)] = strtoll (tok.c_str () + e + 1, nullptr, 10) ;
        }
        if (first) { if (r.op != "cfg") return false ; p.cfg = r ; first = false ; }
        else p.steps.push_back (r) ;
    }
    return !first ;
}

const char *kind_name [] = { "VALUE", "STATUS", "FSTATUS", "HANDLE", "INPUT", "RETRY", "LEAK",
    "BADFREE", "BYPASS", "CRASH", "HANG", "OUTPUT", "DIGEST", "LIFE", "FACTOR", "PIVOT", "PERM", "VERDICT", "MEM", "CLOCK" } ;
const char *ct_name [] = { "steps", "library_calls", "allocator_calls", "refuse_single", "refuse_from_point_on", "refuse_random",
    "refuse_over_budget", "refuse_by_size", "refuse_kth_growth", "refuse_every_resize", "refuse_burst", "refuse_huge",
    "calls_with_a_refusal", "calls_returning_out_of_memory", "calls_succeeding_despite_refusal", "calls_returning_singular",
    "resizes_that_moved", "addresses_reused", "sessions", "stream_eof", "stream_error", "stream_short_read", "stream_flipped_byte",
    "print_sink_errors", "flipped_stored_value", "flipped_stored_index", "swapped_stored_permutation", "clock_jumps",
    "factor_storage_growths", "late_cancellations", "jumbled_patterns", "ordering_garbage_collections", "rejected_corruptions",
    "invalid_inputs", "retries_after_failure", "factor_reuses", "refused_outside_session",
    "solves_verified", "copies_verified", "factorizations_verified", "orderings_verified", "guarded_calls_verified",
    "matlab_calls", "matlab_errors_raised", "matlab_calls_cut_short_by_refused_memory", "orderings_with_dense_rows",
    "programs_run", "programs_ended_with_an_error", "files_that_cannot_be_opened", "reports_read" } ;
static_assert (sizeof ct_name / sizeof *ct_name == CT_NCT, "counter names") ;

static u64 M (std::initializer_list<int> l) { u64 m = 0 ; for (int k : l) m |= 1ull << k ; return m ; }
u64 prop_mask (const std::string &p)
{
    u64 crash = M ({K_CRASH, K_HANG}) ;
    if (p == "C01") return crash | M ({K_VALUE, K_STATUS, K_FSTATUS, K_HANDLE}) ;
    if (p == "C02") return crash | M ({K_STATUS, K_HANDLE, K_LEAK, K_FSTATUS}) ;
    if (p == "C03") return crash | M ({K_FACTOR, K_STATUS, K_FSTATUS, K_BADFREE}) ;
    if (p == "C04") return crash | M ({K_PIVOT}) ;
    if (p == "C05") return crash | M ({K_FSTATUS, K_HANDLE, K_VALUE, K_FACTOR, K_PERM, K_BADFREE}) ;
    if (p == "C06") return crash | M ({K_INPUT, K_RETRY}) ;
    if (p == "C07") return crash | M ({K_LEAK, K_BADFREE, K_BYPASS}) ;
    if (p == "C08") return crash | M ({K_LIFE, K_LEAK, K_BADFREE, K_STATUS, K_FSTATUS, K_VALUE, K_BYPASS}) ;
    if (p == "C09") return crash | M ({K_VALUE, K_STATUS, K_HANDLE, K_FSTATUS}) ;
    if (p == "C10") return crash | M ({K_VALUE, K_STATUS, K_FSTATUS}) ;
    if (p == "C11") return crash | M ({K_VERDICT, K_INPUT, K_STATUS, K_FSTATUS, K_BADFREE}) ;
    if (p == "C12") return crash | M ({K_DIGEST}) ;
    if (p == "C13") return crash | M ({K_INPUT, K_BADFREE, K_VALUE, K_LEAK}) ;
    if (p == "C14") return crash | M ({K_VALUE, K_STATUS, K_FSTATUS, K_INPUT, K_LEAK, K_BADFREE, K_RETRY}) ;
    if (p == "C15" || p == "C16") return crash | M ({K_PERM, K_STATUS, K_FSTATUS, K_INPUT, K_LEAK, K_BADFREE, K_RETRY, K_HANDLE, K_BYPASS}) ;
    if (p == "C17") return crash | M ({K_PERM, K_STATUS, K_FSTATUS, K_HANDLE, K_VALUE}) ;
    if (p == "C18") return crash | M ({K_MEM, K_BADFREE, K_LEAK}) ;
    if (p == "C19") return crash | M ({K_VERDICT, K_STATUS, K_HANDLE, K_VALUE}) ;
    if (p == "C20") return crash | M ({K_VALUE, K_STATUS, K_FSTATUS, K_LEAK, K_BADFREE, K_HANDLE}) ;
    if (p == "C21") return crash | M ({K_OUTPUT, K_STATUS, K_FSTATUS, K_VALUE, K_LEAK}) ;
    if (p == "C22") return crash | M ({K_CLOCK}) ;
    if (p == "C23") return crash | M ({K_VALUE, K_INPUT, K_STATUS, K_FACTOR, K_BADFREE}) ;
    if (p == "C26") return crash | M ({K_STATUS, K_FSTATUS, K_HANDLE, K_INPUT, K_LEAK, K_BADFREE, K_VALUE}) ;
    if (p == "C27") return crash | M ({K_VALUE, K_STATUS, K_FSTATUS, K_LIFE, K_LEAK, K_BADFREE, K_RETRY}) ;
    if (p == "C25") return crash | M ({K_VALUE, K_STATUS, K_LIFE, K_INPUT, K_OUTPUT, K_BADFREE, K_LEAK}) ;
    return ~0ull ;
}

//------------------------------------------------------------------------------
// generator
//------------------------------------------------------------------------------
static void faults (Rec &s, Rng &r, int permille, const std::vector<int> &kinds)
{
    s.set ("probe", r.chance (700)) ;
    if (!r.chance (permille)) return ;
    s.set ("nf", r.chance (600) ? 1 : r.range (2, 5)) ;
    s.set ("fm", kinds [(size_t) r.below ((i64) kinds.size ())]) ;
    s.set ("fs", r.below (1000000)) ;
}
static void env_fields (Rec &c, Rng &r, const char *pre)
{
    auto nm = [&] (const char *x) { return std::string (pre) + x ; } ;
    c.f [nm ("fill")] = r.pick ({0, 255, 165, 256, 257, 1}) ;
    c.f [nm ("reuse")] = r.pick ({0, 1, 1, 2, 3}) ;
    c.f [nm ("move")] = r.pick ({0, 1, 1, 2}) ;
    c.f [nm ("pad")] = r.pick ({0, 0, 5}) ;
}
static void sys_new (Rec &s, Rng &r, i64 maxn)
{
    s.op = "sys_new" ;
    i64 n = r.chance (500) ? r.range (1, 6) : r.range (1, maxn) ;
    s.set ("n", n).set ("kind", r.below (10)).set ("bits", r.chance (700) ? r.range (1, 5) : r.chance (700) ? r.range (6, 70) : r.range (60, 260)) ;
    s.set ("dens", r.pick ({150, 300, 500, 800, 1000})).set ("seed", r.below (1000000000)) ;
    s.set ("sc", r.chance (350) ? r.range (1, 5) : 0).set ("sh", r.chance (300) ? r.range (1, 7) : 0).set ("jum", r.chance (300)).set ("ez", r.chance (150)) ;
    // now and then a system far larger than the others, with few small entries
    if (maxn > 8 && r.chance (5)) s.set ("n", r.range (25, 90)).set ("bits", r.range (1, 4)).set ("dens", r.pick ({20, 40, 80, 150})) ;
}
static void opts (Rec &s, Rng &r)
{
    s.set ("piv", r.below (6)).set ("ord", r.below (3)).set ("tol", r.below (8)).set ("prec", r.pick ({128, 128, 64, 53, 24, 200, 300, 2}))
     .set ("rnd", r.below (5)).set ("pr", r.chance (800) ? 0 : r.range (1, 3)).set ("chk", r.chance (250)).set ("noopt", r.chance (80)) ;
}
static void mat_new (Rec &s, Rng &r, int fixtype)
{
    s.op = "mat_new" ;
    bool empty = r.chance (40) ;
    s.set ("kind", r.below (3)).set ("type", fixtype >= 0 ? fixtype : r.below (5)).set ("m", empty ? r.below (2) : r.range (1, 7)).set ("n", empty ? r.below (2) : r.range (1, 7))
     .set ("dens", r.pick ({0, 150, 400, 700, 1000})).set ("seed", r.below (1000000000)).set ("vals", r.below (9)).set ("sc", r.chance (400) ? r.range (1, 5) : 0)
     .set ("sh", r.chance (300) ? r.range (1, 15) : 0).set ("extra", r.chance (300) ? r.range (1, 4) : 0).set ("prec", r.pick ({128, 128, 53, 64, 24, 200, 10})) ;
    if (r.chance (40)) s.set ("huge", r.range (1, 3)).set ("kind", 1).set ("m", r.range (2, 7)).set ("n", r.range (2, 7)) ;
}
// one quantity of the step far outside its usual range
static void stretch (Rec &s, Rng &r)
{
    const std::string &o = s.op ;
    auto has = [&] (const char *k) { return s.f.count (k) != 0 ; } ;
    if (o == "amd" || o == "col" || o == "sym") { s.set ("n", r.range (260, 600)) ; if (o == "col" && r.chance (500)) s.set ("m", r.range (260, 600)) ; s.set ("dens", r.pick ({5, 20, 60, 300})) ; }
    else if (o == "ana") { s.set ("n", r.range (60, 200)).set ("dens", r.pick ({5, 20, 60})) ; }
    else if (o == "mat_new")
    {
        if (s.f.count ("huge")) return ;
        const i64 lo = r.range (1, 6), hi = r.chance (700) ? r.range (33, 140) : r.range (250, 600) ; const int sh = (int) r.below (4) ;
        if (sh == 0) s.set ("m", lo).set ("n", hi) ;
        else if (sh == 1) s.set ("m", hi).set ("n", lo) ;
        else { if (r.chance (600)) s.set ("m", r.range (8, 40)) ; if (r.chance (600)) s.set ("n", r.range (8, 40)) ; }
        if (sh < 2 && r.chance (500)) s.set ("dens", r.pick ({5, 10, 20, 50})) ;
    }
    else if (o == "mat_copy") s.set ("prec", r.pick ({1, 3, 600, 1500, 5000})) ;
    else if (o == "gmp") s.set ("bits", r.range (900, 12000)) ;
    else if (o == "mem") s.set ("len", r.range (40, 200)) ;
    else if (o == "clk") s.set ("len", r.range (60, 400)) ;
    else if (o == "read") s.set ("m", r.range (7, 30)).set ("n", r.range (7, 30)) ;
    else if (has ("nrhs") && r.chance (500)) s.set ("nrhs", r.range (5, 20)) ;
    else if (has ("bits") && s.get ("n", 0) <= 8) s.set ("bits", r.range (300, 3000)) ;
    else if (has ("prec")) s.set ("prec", r.pick ({1, 3, 600, 1500, 5000})) ;
}
struct Mix { const char *op ; int w ; } ;

Plan make_plan (const std::string &prop, u64 seed, int variant)
{
    Rng r (mix (seed, hstr (prop))) ;
    Plan p ;
    p.cfg.op = "cfg" ;
    p.cfg.set ("variant", variant).set ("seed", (i64) (seed & 0x7fffffff)) ;
    env_fields (p.cfg, r, "") ;
    env_fields (p.cfg, r, "e2") ;
    p.cfg.set ("sink", r.pick ({0, 0, 0, 1, 2})) ;
    // swarm: this run's fault kinds and rate
    std::vector<int> kinds ;
    for (int k = 1 ; k <= 8 ; k++) if (r.chance (500)) kinds.push_back (k) ;
    if (kinds.empty () || r.chance (500)) { kinds.push_back (1) ; kinds.push_back (2) ; }
    int frate = (int) r.pick ({0, 200, 500, 800, 1000}) ;
    int nclients = (int) r.range (1, 3) ;
    int len = (int) r.range (3, 14) ; if (r.chance (10)) len = (int) r.range (25, 60) ;
    i64 maxn = r.chance (700) ? 9 : 24 ;
    std::vector<Mix> mixv ;
    if (prop == "C01") mixv = {{"sys", 60}, {"back", 25}, {"mat", 8}, {"gmp", 5}, {"life", 2}} ;
    else if (prop == "C02") { mixv = {{"sys", 45}, {"back", 45}, {"gmp", 5}, {"life", 3}} ; }
    else if (prop == "C03") { mixv = {{"sys", 85}, {"back", 5}, {"mat", 5}, {"gmp", 5}} ; if (r.chance (400)) maxn = 30 ; }
    else if (prop == "C04") mixv = {{"sys", 90}, {"gmp", 5}, {"mat", 5}} ;
    else if (prop == "C05" || prop == "C06" || prop == "C07")
    { mixv = {{"sys", 28}, {"back", 12}, {"mat", 24}, {"gmp", 11}, {"alloc", 5}, {"ord", 4}, {"ana", 6}, {"chk", 3}, {"read", 4}, {"bad", 4}, {"life", 4}, {"opt", 2}} ; frate = (int) r.pick ({300, 700, 1000, 1000}) ; maxn = r.chance (800) ? 6 : 14 ; }
    else if (prop == "C08") { mixv = {{"life", 40}, {"sys", 15}, {"mat", 20}, {"gmp", 15}, {"back", 10}} ; maxn = 5 ; }
    else if (prop == "C09") mixv = {{"mat", 88}, {"alloc", 4}, {"sys", 4}, {"gmp", 4}} ;
    else if (prop == "C10") mixv = {{"matx", 90}, {"gmp", 5}, {"mat", 5}} ;
    else if (prop == "C11") mixv = {{"chk", 80}, {"mat", 15}, {"gmp", 5}} ;
    else if (prop == "C12") { mixv = {{"sys", 35}, {"back", 15}, {"mat", 25}, {"gmp", 8}, {"ord", 15}, {"chk", 2}} ; nclients = (int) r.range (1, 3) ; }
    else if (prop == "C13") mixv = {{"mat", 60}, {"sys", 25}, {"back", 15}} ;
    else if (prop == "C14") { mixv = {{"gmp", 90}, {"mat", 5}, {"sys", 5}} ; len = (int) r.range (4, 24) ; frate = (int) r.pick ({0, 500, 1000}) ; }
    else if (prop == "C15") { mixv = {{"amd", 100}} ; }
    else if (prop == "C16") { mixv = {{"col", 60}, {"sym", 40}} ; }
    else if (prop == "C17") { mixv = {{"ana", 80}, {"sys", 20}} ; frate = (int) r.pick ({0, 700, 1000}) ; }
    else if (prop == "C18") { mixv = {{"mem", 90}, {"life", 10}} ; }
    else if (prop == "C19") { mixv = {{"sys", 45}, {"corr", 55}} ; }
    else if (prop == "C20") { mixv = {{"read", 100}} ; frate = (int) r.pick ({0, 0, 500}) ; }
    else if (prop == "C21") { mixv = {{"sys", 30}, {"back", 15}, {"mat", 15}, {"chk", 25}, {"ord", 15}} ; }
    else if (prop == "C22") { mixv = {{"clk", 100}} ; }
    else if (prop == "C25") { mixv = {{"mex", 100}} ; len = (int) r.range (1, 7) ; maxn = r.chance (800) ? 6 : 14 ; }
    else if (prop == "C27") { mixv = {{"app", 100}} ; len = (int) r.range (1, 5) ; maxn = r.chance (800) ? 6 : 12 ; frate = (int) r.pick ({0, 300, 800}) ; }
    else if (prop == "C26") { mixv = {{"sys", 40}, {"bad", 50}, {"back", 5}, {"mat", 5}} ; maxn = 7 ; frate = (int) r.pick ({0, 300, 800}) ; }
    else if (prop == "C23") { mixv = {{"sys", 90}, {"back", 5}, {"mat", 5}} ; len = (int) r.range (8, 20) ; maxn = 7 ; }
    else mixv = {{"sys", 1}, {"mat", 1}} ;
    int tot = 0 ; for (auto &m : mixv) tot += m.w ;
    // per client: which systems/matrices the generator believes exist (only a
    // bias: a step whose precondition does not hold is a no-op)
    struct Cl { int sysst [2] = {0, 0} ; int nm = 0 ; } cl [4] ;
    for (int i = 0 ; i < len ; i++)
    {
        Rec s ; int c = (int) r.below (nclients) ;
        Cl &C = cl [c] ;
        int w = (int) r.below (tot) ; size_t mi = 0 ;
        while (w >= mixv [mi].w) { w -= mixv [mi].w ; mi++ ; }
        std::string op = mixv [mi].op ;
        if (op == "sys")
        {
            int t = (int) r.below (prop == "C23" ? 2 : 2) ; int &st = C.sysst [t] ;
            i64 pick = r.below (100) ;
            if (st == 0) { sys_new (s, r, maxn) ; st = 1 ; }
            else if (st == 1) { s.op = "sys_ana" ; opts (s, r) ; st = 2 ; }
            else if (st == 2) { s.op = "sys_fac" ; opts (s, r) ; st = 3 ; }
            else if (pick < 55) { s.op = "sys_sol" ; opts (s, r) ; s.set ("nrhs", r.chance (600) ? 1 : r.range (1, 4)).set ("bseed", r.below (1000000000)).set ("bk", r.below (5)).set ("bsc", r.chance (300) ? r.range (1, 5) : 0) ; }
            else if (pick < 70) { s.op = "sys_reval" ; s.set ("seed", r.below (1000000000)).set ("bits", r.range (1, 40)) ; st = 2 ; }
            else if (pick < 80) { s.op = "sys_fac" ; opts (s, r) ; }
            else if (pick < 88) { s.op = "sys_free" ; s.set ("what", r.below (3)) ; st = 0 ; }
            else { sys_new (s, r, maxn) ; st = 1 ; }
            s.set ("t", t) ;
            faults (s, r, frate, kinds) ;
        }
        else if (op == "back")
        {
            sys_new (s, r, maxn) ; s.op = "back" ; opts (s, r) ;
            s.set ("nrhs", r.chance (700) ? 1 : r.range (1, 3)).set ("bseed", r.below (1000000000)).set ("bk", r.below (5)).set ("bsc", r.chance (300) ? r.range (1, 5) : 0).set ("xt", r.below (3)) ;
            faults (s, r, frate, kinds) ;
        }
        else if (op == "mat" || op == "matx")
        {
            bool x = op == "matx" ;
            if (C.nm == 0 || r.chance (250)) { mat_new (s, r, x && r.chance (850) ? (int) r.pick ({1, 2, 4}) : -1) ; s.set ("t", r.below (3)) ; C.nm++ ; }
            else if (r.chance (870))
            {
                s.op = "mat_copy" ; s.set ("t", r.below (3)).set ("ck", r.below (3)).set ("ctype", x && r.chance (800) ? 0 : r.below (5)).set ("to", r.chance (500) ? r.below (3) : -1)
                    .set ("prec", r.pick ({128, 128, 53, 64, 24, 200, 10})).set ("rnd", r.below (5)).set ("noopt", r.chance (80)) ;
            }
            else { s.op = r.chance (600) ? "mat_chk" : "mat_free" ; s.set ("t", r.below (3)).set ("pr", r.below (4)) ; }
            faults (s, r, frate, kinds) ;
        }
        else if (op == "chk")
        {
            if (C.nm == 0 || r.chance (350)) { mat_new (s, r, -1) ; s.set ("t", r.below (3)) ; C.nm++ ; }
            else { s.op = "mat_chk" ; s.set ("t", r.below (3)).set ("pr", r.below (4)).set ("cor", r.chance (600) ? r.range (1, 16) : 0).set ("cs", r.below (1000000)).set ("prec", r.pick ({128, 53, 10})) ; faults (s, r, frate / 2, kinds) ; }
        }
        else if (op == "gmp") { s.op = "gmp" ; s.set ("fn", r.below (60)).set ("seed", r.below (1000000000)).set ("bits", r.chance (600) ? r.range (0, 70) : r.range (60, 900)).set ("alias", r.below (5)) ; faults (s, r, frate, kinds) ; }
        else if (op == "alloc") { s.op = "alloc" ; s.set ("kind", r.range (-1, 3)).set ("type", r.range (-1, 5)).set ("m", r.range (-1, 9)).set ("n", r.range (-1, 9)).set ("nz", r.range (-2, 30)).set ("sh", r.chance (250)).set ("init", r.chance (700)).set ("big", r.chance (60)) ; if (r.chance (850)) { if (s.get ("kind") < 0 || s.get ("kind") > 2) s.set ("kind", r.below (3)) ; if (s.get ("type") < 0 || s.get ("type") > 4) s.set ("type", r.below (5)) ; } faults (s, r, frate, kinds) ; }
        else if (op == "opt") { s.op = "optnew" ; faults (s, r, frate, kinds) ; }
        else if (op == "life") { s.op = "life" ; s.set ("lo", r.below (64)).set ("set", r.below (2)).set ("expert", r.chance (600)).set ("seed", r.below (1000000)) ; }
        else if (op == "ord" || op == "amd" || op == "col" || op == "sym" )
        {
            s.op = op == "ord" ? r.pick ({"amd", "col", "sym"}) : op ;
            bool big = r.chance (150) ;
            s.set ("n", r.chance (40) ? 0 : big ? r.range (30, 260) : r.range (1, 22)).set ("m", r.chance (500) ? 0 : big ? r.range (1, 260) : r.range (1, 22)).set ("dens", r.pick ({30, 100, 250, 500, 900})).set ("shape", r.below (9))
             .set ("seed", r.below (1000000000)).set ("lng", r.below (2)).set ("jum", r.chance (300)).set ("knob", r.below (6)).set ("aggr", r.below (3)).set ("bad", r.chance (120) ? r.range (1, 12) : 0).set ("slack", r.pick ({0, 0, 1, 5, 50, 1000})).set ("pr", r.chance (150)).set ("garb", r.below (256)) ;
            faults (s, r, frate, kinds) ;
        }
        else if (op == "ana")
        {
            s.op = "ana" ; bool big = r.chance (100) ;
            s.set ("n", r.chance (30) ? 0 : big ? r.range (20, 120) : r.range (1, 14)).set ("type", r.below (5)).set ("dens", r.pick ({30, 100, 250, 500, 900})).set ("shape", r.below (9)).set ("seed", r.below (1000000000)).set ("jum", r.chance (300)).set ("bad", r.chance (200) ? r.range (1, 8) : 0) ;
            opts (s, r) ; faults (s, r, frate, kinds) ;
        }
        else if (op == "mem") { s.op = "mem" ; s.set ("seed", r.below (1000000000)).set ("len", r.range (2, 30)).set ("layer", r.below (2)) ; faults (s, r, frate, kinds) ; }
        else if (op == "corr")
        {
            s.op = "sys_corr" ; s.set ("t", r.below (2)).set ("what", r.below (7)).set ("cs", r.below (1000000)).set ("nrhs", r.chance (500) ? 1 : r.range (1, 4)).set ("bseed", r.below (1000000000)).set ("bk", r.below (5)).set ("bsc", r.chance (300) ? r.range (1, 5) : 0) ;
            faults (s, r, frate / 2, kinds) ;
        }
        else if (op == "bad")
        {
            if (r.chance (600)) for (int t = 0 ; t < 2 ; t++) if (C.sysst [t] > 0) { s.set ("t", t) ; if (r.chance (500)) break ; }
            s.op = "sys_bad" ; opts (s, r) ; s.set ("fn", r.chance (750) ? r.below (5) : r.range (5, 9)).set ("cs", r.below (1000000)).set ("nrhs", r.range (1, 3)).set ("bseed", r.below (1000000000)).set ("bk", r.below (5)).set ("bsc", 0) ;
            faults (s, r, frate, kinds) ;
        }
        else if (op == "read") { s.op = "read" ; s.set ("fn", r.below (4)).set ("seed", r.below (1000000000)).set ("m", r.range (1, 6)).set ("n", r.range (1, 6)).set ("bits", r.chance (600) ? r.range (1, 20) : r.chance (900) ? r.range (20, 130) : r.range (130, 12000)).set ("io", r.below (7)).set ("iop", r.below (1000)).set ("chunk", r.pick ({0, 1, 2, 3, 7, 64})) ; faults (s, r, frate, kinds) ; }
        else if (op == "mex")
        {
            sys_new (s, r, maxn) ; s.op = "mex" ;
            s.f.erase ("sc") ; s.f.erase ("sh") ; s.f.erase ("jum") ; s.f.erase ("ez") ;
            if (s.get ("bits") > 70) s.set ("bits", r.range (1, 53)) ;
            s.set ("va", r.below (8)).set ("vb", r.below (8)).set ("nrhs", r.chance (600) ? 1 : r.range (1, 3)).set ("bseed", r.below (1000000000))
             .set ("ord", r.range (-1, 2)).set ("piv", r.range (-1, 5)).set ("tol", r.range (-1, 3)).set ("sol", r.range (-1, 2)).set ("dig", r.range (-1, 2)).set ("pr", r.chance (700) ? -1 : r.range (0, 5))
             .set ("narg", r.chance (850) ? 3 : 2).set ("bad", r.chance (300) ? r.range (1, 30) : 0) ;
            if (r.chance (30)) s.set ("oom", r.range (1, 2)).set ("fs", r.below (1000000)) ;
        }
        else if (op == "app")
        {
            sys_new (s, r, maxn) ; s.op = "app" ; s.f.erase ("sc") ; s.f.erase ("sh") ; s.f.erase ("ez") ;
            const int prog = r.chance (40) ? 2 : r.chance (250) ? 1 : 0 ; const bool f = r.chance (350) ;
            s.set ("prog", prog).set ("argseed", r.below (1000000000)).set ("nrhs", r.chance (700) ? 1 : r.range (1, 3)).set ("bad", r.chance (200) ? r.range (1, 6) : 0).set ("chunk", r.pick ({0, 1, 3, 7, 64}))
             .set ("io1", f && r.chance (500) ? r.range (1, 4) : 0).set ("io2", f && r.chance (500) ? r.range (1, 4) : 0).set ("miss", r.chance (60) ? r.range (1, 3) : 0).set ("mis", r.chance (60) ? r.range (1, 2) : 0).set ("span", prog == 2 && r.chance (300) ? r.range (1, 3) : 0) ;
            faults (s, r, frate, kinds) ;
        }
        else if (op == "clk") { s.op = "clk" ; s.set ("seed", r.below (1000000000)).set ("len", r.range (2, 40)).set ("nt", r.range (1, 4)) ; }
        if (s.op.empty ()) continue ;
        if (r.chance (prop == "C11" && s.op == "mat_new" ? 120 : prop == "C09" && s.op == "mat_new" ? 40 : 15)) stretch (s, r) ;
        s.set ("c", c) ;
        p.steps.push_back (s) ;
    }
    return p ;
}
