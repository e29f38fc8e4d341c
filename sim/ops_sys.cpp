// Linear systems: analysis, factorization, solve, one-shot solve, damage.
#include "ops.h"
extern "C" {
#include "demos.h"
}
#include <math.h>
#include <algorithm>

//------------------------------------------------------------------------------
// generating systems
//------------------------------------------------------------------------------
static Q scale_of (i64 k, Rng &r)
{
    static const int sn [] = { 1, 2, 1, 1000, 7, -5 }, sd [] = { 1, 1, 3, 1, 12, 1 } ;
    k %= 6 ; if (k < 0) k = 0 ;
    if (k == 5 && r.chance (500)) return Q (abs (rand_z (r, 80)) + 1, 7) ;
    return Q (Z (sn [k]), Z (sd [k])) ;
}
Gen gen_sys (const Rec &s, u64 vseed, int bits)
{
    Gen g ; Rng r ((u64) s.get ("seed")), rv (mix (vseed, 99)) ;
    const int n = g.n = (int) std::max<i64> (0, s.get ("n")) ; const int kind = (int) s.get ("kind") ; const int dens = (int) s.get ("dens", 300) ;
    g.a.assign ((size_t) (n * n), Z (0)) ; g.pat.assign ((size_t) (n * n), 0) ;
    auto P = [&] (int i, int j) -> char & { return g.pat [(size_t) (i + j * n)] ; } ;
    std::vector<int> pr (n), pc (n) ; for (int i = 0 ; i < n ; i++) pr [i] = pc [i] = i ;
    for (int k = n ; k > 1 ; k--) { std::swap (pr [k-1], pr [r.below (k)]) ; std::swap (pc [k-1], pc [r.below (k)]) ; }
    for (int j = 0 ; j < n ; j++) for (int i = 0 ; i < n ; i++)
    {
        bool on = r.chance (dens) ;
        switch (kind)
        {
            case 0: on = on || i == j ; break ;
            case 1: on = true ; break ;
            case 2: on = (on && i != j) || pr [i] == j ; if (n > 1 && i == j && pr [i] != j) on = false ; break ;
            case 5: on = on && j > n / 2 ? true : (on && i < n / 2) ; break ;                    // a zero block
            case 6: on = (on || i == j) && i >= j ; break ;
            case 7: on = pr [i] == pc [j] || (on && pr [i] > pc [j]) ; break ;
            case 8: on = i == j || i == n - 1 || j == n - 1 ; break ;
            default: on = on || i == j ;
        }
        if (on) P (i, j) = 1 ;
    }
    if (kind == 4 && n > 0) { int z = (int) r.below (n) ; bool row = r.chance (500) ; for (int i = 0 ; i < n ; i++) (row ? P (z, i) : P (i, z)) = 0 ; }
    int c1 = 0, c2 = 0 ;
    if (kind == 3 && n > 1) { c1 = (int) r.below (n) ; c2 = (c1 + 1 + (int) r.below (n - 1)) % n ; for (int i = 0 ; i < n ; i++) P (i, c2) = P (i, c1) ; }
    for (int j = 0 ; j < n ; j++) for (int i = 0 ; i < n ; i++) if (P (i, j))
    {
        Z v ; do v = rand_z (rv, bits < 1 ? 1 : bits) ; while (v == 0) ;
        if (kind == 9) v = abs (v) * (rv.chance (850) ? -1 : 1) ;
        g.a [(size_t) (i + j * n)] = v ;
    }
    if (kind == 3 && n > 1) { Z f = rv.range (1, 3) * (rv.chance (500) ? 1 : -1) ; for (int i = 0 ; i < n ; i++) g.a [(size_t) (i + c2 * n)] = f * g.a [(size_t) (i + c1 * n)] ; }
    if (kind == 9 && n > 2 && r.chance (500))
    {
        // a row that is the sum of two others: singular without any visible structure
        for (int j = 0 ; j < n ; j++) { g.a [(size_t) (2 + j * n)] = g.a [(size_t) (j * n)] + g.a [(size_t) (1 + j * n)] ; P (2, j) = P (0, j) || P (1, j) ; }
    }
    g.scale = scale_of (s.get ("sc"), r) ;
    return g ;
}
static Spec spec_of (const Rec &s, const Gen &g)
{
    Spec sp ; sp.kind = SLIP_CSC ; sp.type = SLIP_MPZ ; sp.m = sp.n = g.n ; sp.scale = g.scale ;
    Rng r (mix ((u64) s.get ("seed"), 5)) ;
    for (int j = 0 ; j < g.n ; j++)
    {
        std::vector<int> rows ;
        for (int i = 0 ; i < g.n ; i++) if (g.pat [(size_t) (i + j * g.n)] || (s.get ("ez") && r.chance (150))) rows.push_back (i) ;
        if (s.get ("jum")) for (size_t k = rows.size () ; k > 1 ; k--) std::swap (rows [k-1], rows [(size_t) r.below ((i64) k)]) ;
        for (int i : rows) sp.e.push_back (Ent {i, j, Q (g.a [(size_t) (i + j * g.n)])}) ;
    }
    i64 sh = s.get ("sh") ; sp.sh = (int) ((sh & 1) | (sh & 2) | ((sh & 4) << 1)) ;      // p, i, x
    sp.extra = (s.get ("seed") & 3) == 0 ? 3 : 0 ;
    return sp ;
}
struct Rhs { Mat M ; ZV b ; Q scale = 1 ; int nrhs = 1 ; bool wrongdim = false ; } ;
static void make_rhs (Rhs &B, const Rec &s, const ZV &a, int n, bool allow_bad)
{
    Rng r ((u64) s.get ("bseed")) ;
    B.nrhs = (int) std::max<i64> (1, s.get ("nrhs", 1)) ;
    if (allow_bad && s.get ("bseed") % 53 == 0) B.nrhs = 0 ;
    const int bk = (int) s.get ("bk") ;
    i64 m = n ;
    if (allow_bad && s.get ("bseed") % 29 == 0) { m = n + (s.get ("bseed") & 1 ? 1 : -1) ; if (m < 0) m = n + 1 ; B.wrongdim = true ; }
    B.b.assign ((size_t) (m * B.nrhs), Z (0)) ;
    for (int c = 0 ; c < B.nrhs ; c++)
    {
        ZV x ((size_t) n) ; for (auto &v : x) v = r.range (-20, 20) ;
        i64 u = r.below (m) ;
        for (i64 i = 0 ; i < m ; i++)
        {
            Z v ;
            switch (bk)
            {
                case 0: v = r.range (-9, 9) ; break ;
                case 1: v = r.chance (200) ? Z (r.range (1, 3)) : Z (0) ; break ;
                case 2: v = rand_z (r, 150) ; break ;
                case 3: if (i < n) for (int j = 0 ; j < n ; j++) v += a [(size_t) (i + j * n)] * x [(size_t) j] ; break ;
                default: v = i == u ? 1 : 0 ;
            }
            B.b [(size_t) (i + c * m)] = v ;
        }
    }
    B.scale = scale_of (s.get ("bsc"), r) ;
    Spec sp ; sp.kind = SLIP_DENSE ; sp.type = SLIP_MPZ ; sp.m = m ; sp.n = B.nrhs ; sp.scale = B.scale ;
    for (int c = 0 ; c < B.nrhs ; c++) for (i64 i = 0 ; i < m ; i++) sp.e.push_back (Ent {i, c, Q (B.b [(size_t) (i + c * m)])}) ;
    if (s.get ("bseed") % 5 == 0) sp.sh = 8 ;
    build_mat (B.M, sp) ;
}

// exact solution of a*x = b (stored integers), n-by-nrhs, det != 0
std::vector<Q> solve_exact (const ZV &a, const ZV &b, int n, int nrhs)
{
    const int w = n + nrhs ; ZV t ((size_t) (n * w)) ;
    auto T = [&] (int i, int j) -> Z & { return t [(size_t) (i + j * n)] ; } ;
    for (int j = 0 ; j < n ; j++) for (int i = 0 ; i < n ; i++) T (i, j) = a [(size_t) (i + j * n)] ;
    for (int j = 0 ; j < nrhs ; j++) for (int i = 0 ; i < n ; i++) T (i, n + j) = b [(size_t) (i + j * n)] ;
    Z prev = 1 ;
    for (int k = 0 ; k < n ; k++)
    {
        int p = k ; while (p < n && T (p, k) == 0) p++ ;
        if (p == n) return {} ;
        if (p != k) for (int j = 0 ; j < w ; j++) swap (T (p, j), T (k, j)) ;
        for (int i = 0 ; i < n ; i++) if (i != k)
        {
            for (int j = 0 ; j < w ; j++) if (j != k)
            {
                Z v = T (k, k) * T (i, j) - T (i, k) * T (k, j) ;
                if (prev != 1) v /= prev ;
                T (i, j) = v ;
            }
        }
        for (int i = 0 ; i < n ; i++) if (i != k) T (i, k) = 0 ;
        prev = T (k, k) ;
    }
    // fraction-free Gauss-Jordan leaves prev on the whole diagonal (rows above were scaled along)
    std::vector<Q> x ((size_t) (n * nrhs)) ;
    for (int j = 0 ; j < nrhs ; j++) for (int i = 0 ; i < n ; i++) x [(size_t) (i + j * n)] = Q (T (i, n + j), n ? T (i, i) : Z (1)) ;
    return x ;
}

//------------------------------------------------------------------------------
// verification
//------------------------------------------------------------------------------
// does X (rational, n-by-nrhs) solve the system exactly?
static bool solves (const SLIP_matrix *X, const ZV &a, const Q &sa, const Rhs &B, int n, std::string &why, const char *who)
{
    View v = mat_view (X, who) ;
    if (v.kind != SLIP_DENSE || v.type != SLIP_MPQ || v.m != n || v.n != B.nrhs) { why = "the result is not a rational matrix of the right size" ; return false ; }
    for (int c = 0 ; c < B.nrhs ; c++)
    {
        // a common denominator makes the check integer arithmetic
        Z den = 1 ;
        std::vector<Q> y ((size_t) n) ;
        for (int j = 0 ; j < n ; j++) { y [(size_t) j] = v.e [(size_t) (j + c * n)].v * B.scale / sa ; den = boost::multiprecision::lcm (den, qden (y [(size_t) j])) ; }
        ZV yi ((size_t) n) ;
        for (int j = 0 ; j < n ; j++) yi [(size_t) j] = qnum (y [(size_t) j]) * (den / qden (y [(size_t) j])) ;
        for (int i = 0 ; i < n ; i++)
        {
            Z t = 0 ;
            for (int j = 0 ; j < n ; j++) if (a [(size_t) (i + j * n)] != 0) t += a [(size_t) (i + j * n)] * yi [(size_t) j] ;
            if (t != B.b [(size_t) (i + c * n)] * den) { why = "equation " + std::to_string (i) + " of right-hand side " + std::to_string (c) + " is not satisfied" ; return false ; }
        }
    }
    for (int k = 0 ; k < n * B.nrhs ; k++) if (!q_canonical (X->x.mpq [k])) { why = "entry " + std::to_string (k) + " is not a reduced fraction" ; return false ; }
    return true ;
}

bool is_perm (const i64 *q, i64 n)
{
    std::vector<char> s ((size_t) n, 0) ;
    for (i64 k = 0 ; k < n ; k++) { if (q [k] < 0 || q [k] >= n || s [(size_t) q [k]]) return false ; s [(size_t) q [k]] = 1 ; }
    return true ;
}
static u64 ana_digest (const SLIP_LU_analysis *S, int n)
{
    if (!S) return 2 ;
    Hash h ; h.add ((u64) S->lnz) ; h.add ((u64) S->unz) ;
    for (int k = 0 ; k < n ; k++) h.add ((u64) S->q [k]) ;
    return h.h ;
}
static u64 arr_digest (const i64 *p, int n) { Hash h ; if (p) for (int k = 0 ; k < n ; k++) h.add ((u64) p [k]) ; return h.h ; }

static void verify_factor (const ZV &a, int n, const i64 *q, const SLIP_matrix *L, const SLIP_matrix *U, const SLIP_matrix *rhos, const i64 *pinv, const Opt &O)
{
    const char *nm = "LU_factorize" ;
    chkmem (pinv, 8 * (size_t) n, nm) ;
    View l = mat_view (L, nm), u = mat_view (U, nm), rh = mat_view (rhos, nm) ;
    auto shape = [&] (const View &v, int kind, i64 m, i64 k, const char *w) { if (v.kind != kind || v.type != SLIP_MPZ || v.m != m || v.n != k) fail (K_FACTOR, nm, "%s is not an integer matrix of the right kind and size", w) ; } ;
    shape (l, SLIP_CSC, n, n, "L") ; shape (u, SLIP_CSC, n, n, "U") ; shape (rh, SLIP_DENSE, n, 1, "rhos") ;
    if (!is_perm (pinv, n)) { fail (K_FACTOR, nm, "the row permutation is not a permutation") ; fail (K_PIVOT, nm, "the row permutation is not a permutation") ; return ; }
    if (!is_perm (q, n)) return ;
    if (l.n != n || u.n != n || rh.m != n) return ;
    auto dense = [&] (const View &v) { ZV d ((size_t) (n * n), Z (0)) ; for (auto &e : v.e) d [(size_t) (e.i + e.j * n)] = qnum (e.v) ; return d ; } ;
    ZV Ld = dense (l), Ud = dense (u) ;
    auto at = [n] (int i, int j) { return (size_t) (i + j * n) ; } ;
    // fraction-free elimination of P A Q in the order the factorization chose
    ZV m ((size_t) (n * n)) ;
    for (int k = 0 ; k < n ; k++) for (int i = 0 ; i < n ; i++) m [at ((int) pinv [i], k)] = a [at (i, (int) q [k])] ;
    // the eliminated columns below the diagonal are what the pivot rule sees
    Z prev = 1 ;
    // the rows in their current order: rows change places as pivots are chosen
    std::vector<int> rowat ((size_t) n), where ((size_t) n), prow ((size_t) n) ;
    for (int r = 0 ; r < n ; r++) { rowat [(size_t) r] = where [(size_t) r] = r ; prow [(size_t) pinv [r]] = r ; }
    for (int k = 0 ; k < n ; k++)
    {
        int firstnz = -1 ;          // the first eligible nonzero in the current order
        for (int p = k ; p < n && firstnz < 0 ; p++) if (m [at ((int) pinv [rowat [(size_t) p]], k)] != 0) firstnz = rowat [(size_t) p] ;
        const int chosen = prow [(size_t) k] ;
        { int p = where [(size_t) chosen], o = rowat [(size_t) k] ; rowat [(size_t) k] = chosen ; where [(size_t) chosen] = k ; rowat [(size_t) p] = o ; where [(size_t) o] = p ; }
        if (m [at (k, k)] == 0) { fail (K_FACTOR, nm, "pivot %d is zero", k) ; fail (K_PIVOT, nm, "pivot %d is zero", k) ; return ; }
        const Z &piv = m [at (k, k)] ;
        // the rule
        {
            Z mn, mx ; bool first = true ;
            for (int i = k ; i < n ; i++) if (m [at (i, k)] != 0)
            {
                Z v = abs (m [at (i, k)]) ;
                if (first || v < mn) mn = v ;
                if (first || v > mx) mx = v ;
                first = false ;
            }
            const int drow = (int) pinv [q [k]] ;           // where the diagonal entry went
            const bool dok = drow >= k && m [at (drow, k)] != 0 ;
            const Z dv = dok ? Z (abs (m [at (drow, k)])) : Z (0) ;
            const bool isd = dok && drow == k ;
            const Z pv = abs (piv) ; const Q tol = d_raw (O.v.tol) ;
            bool ok = true ; const char *want = "" ;
            switch (O.v.pivot)
            {
                case SLIP_SMALLEST: ok = pv == mn ; want = "the smallest" ; break ;
                case SLIP_LARGEST: ok = pv == mx ; want = "the largest" ; break ;
                case SLIP_FIRST_NONZERO: ok = chosen == firstnz ; want = "the first nonzero of the column" ; break ;
                case SLIP_DIAGONAL: ok = dok ? isd : pv == mn ; want = dok ? "the diagonal" : "the smallest (zero diagonal)" ; break ;
                case SLIP_TOL_LARGEST: if (dok && Q (dv, mx) >= tol) { ok = isd ; want = "the diagonal (ratio to the largest reaches the tolerance)" ; } else { ok = pv == mx ; want = "the largest" ; } break ;
                default: if (dok && Q (mn, dv) >= tol) { ok = isd ; want = "the diagonal (ratio to the smallest reaches the tolerance)" ; } else { ok = pv == mn ; want = "the smallest" ; }
            }
            if (!ok) fail (K_PIVOT, nm, "rule %d, step %d: chose %s where %s was due (smallest %s, largest %s, diagonal %s)", (int) O.v.pivot, k, zs (piv).c_str (), want, zs (mn).c_str (), zs (mx).c_str (), zs (dv).c_str ()) ;
        }
        if (qnum (rh.e [(size_t) k].v) != piv) fail (K_FACTOR, nm, "pivot %d is %s, the minor is %s", k, qs (rh.e [(size_t) k].v).c_str (), zs (piv).c_str ()) ;
        for (int i = k ; i < n ; i++) if (Ld [at (i, k)] != m [at (i, k)]) { fail (K_FACTOR, nm, "L(%d,%d) is %s, the minor is %s", i, k, zs (Ld [at (i, k)]).c_str (), zs (m [at (i, k)]).c_str ()) ; break ; }
        for (int j = k ; j < n ; j++) if (Ud [at (k, j)] != m [at (k, j)]) { fail (K_FACTOR, nm, "U(%d,%d) is %s, the minor is %s", k, j, zs (Ud [at (k, j)]).c_str (), zs (m [at (k, j)]).c_str ()) ; break ; }
        for (int j = k + 1 ; j < n ; j++) for (int i = k + 1 ; i < n ; i++)
        {
            Z v = m [at (i, j)] * piv - m [at (i, k)] * m [at (k, j)] ;
            if (prev != 1) v /= prev ;
            m [at (i, j)] = v ;
        }
        prev = m [at (k, k)] ;
    }
    for (auto &e : l.e) if (e.i < e.j) { fail (K_FACTOR, nm, "L has an entry (%ld,%ld) above its diagonal", (long) e.i, (long) e.j) ; break ; }
    for (auto &e : u.e) if (e.i > e.j) { fail (K_FACTOR, nm, "U has an entry (%ld,%ld) below its diagonal", (long) e.i, (long) e.j) ; break ; }
    // both diagonals are stored
    for (const View *v : {&l, &u}) { int c = 0 ; for (auto &e : v->e) c += e.i == e.j ; if (c != n) fail (K_FACTOR, nm, "a diagonal has %d of %d entries", c, n) ; }
    ct (CT_FACTORS) ;
}

//------------------------------------------------------------------------------
// steps
//------------------------------------------------------------------------------
static void free_F (Sys &Y)
{
    for (SLIP_matrix **p : {&Y.L, &Y.U, &Y.rhos}) if (*p) { int st = LIB (SLIP_matrix_free (p, nullptr)) ; if (st || *p) fail (K_STATUS, "matrix_free", "returned %s", st_name (st).c_str ()) ; }
    if (Y.pinv) { LIBV (SLIP_free (Y.pinv)) ; Y.pinv = nullptr ; }
    Y.haveF = false ;
}
static void free_S (Sys &Y)
{
    if (Y.S) { int st = LIB (SLIP_LU_analysis_free (&Y.S, nullptr)) ; if (st || Y.S) fail (K_STATUS, "LU_analysis_free", "returned %s", st_name (st).c_str ()) ; }
    Y.S = nullptr ; Y.haveS = false ;
}
void sys_free_all (Sys &Y)
{
    free_F (Y) ; free_S (Y) ; drop_mat (Y.A) ; Y = Sys () ;
}
static void build_sys (Sys &Y, const Rec &s, u64 vseed, int bits)
{
    Gen g = gen_sys (s, vseed, bits) ;
    Y.n = g.n ; Y.a = g.a ; Y.det = det_bareiss (g.a, g.n) ; Y.sing = Y.det == 0 ; Y.spec = s ; Y.live = true ;
    build_mat (Y.A, spec_of (s, g)) ;
}
static u64 sys_in (const Sys &Y, const Opt &O)
{
    if (Y.A.shallow) check_lent (Y.A, "system") ;
    u64 h = mix (mat_digest (Y.A.A), opt_digest (O)) ;
    h = mix (h, ana_digest (Y.S, Y.n)) ;
    if (Y.haveF) { h = mix (h, mat_digest (Y.L)) ; h = mix (h, mat_digest (Y.U)) ; h = mix (h, mat_digest (Y.rhos)) ; h = mix (h, arr_digest (Y.pinv, Y.n)) ; }
    return h ;
}
static void do_ana (const Rec &s, Sys &Y)
{
    free_F (Y) ; free_S (Y) ;
    Opt O ; make_opt (O, s) ;
    SLIP_LU_analysis *S = nullptr ;
    Call c ; c.name = "LU_analyze" ; c.pr = O.v.print_level ; c.modest = true ;
    c.run = [&] { S = marker<SLIP_LU_analysis> () ; int st = SLIP_LU_analyze (&S, Y.A.A, O.o) ; settle (S, st) ; return st ; } ;
    c.empty = [&] { return S == nullptr ; } ;
    c.drop = [&] { if (real (S)) LIBV (SLIP_LU_analysis_free (&S, nullptr)) ; S = nullptr ; } ;
    c.in = [&] { return sys_in (Y, O) ; } ;
    c.out = [&] { return real (S) ? ana_digest (S, Y.n) : 0 ; } ;
    c.ok = [&] (int st) { return st == SLIP_OK || (Y.n == 0 && st == SLIP_INCORRECT_INPUT) ; } ;
    c.verify = [&] (int st)
    {
        if (st != SLIP_OK) return ;
        if (!real (S)) { fail (K_HANDLE, "LU_analyze", "success without a result") ; return ; }
        chkmem (S, sizeof *S, "LU_analyze") ; chkmem (S->q, 8 * (size_t) Y.n, "LU_analyze") ;
        if (!is_perm (S->q, Y.n)) fail (K_PERM, "LU_analyze", "the column ordering is not a permutation") ;
        if (Y.n > 0 && (S->lnz <= 0 || S->unz <= 0)) fail (K_PERM, "LU_analyze", "size estimates %ld and %ld", (long) S->lnz, (long) S->unz) ;
        if (O.v.order == SLIP_NO_ORDERING) for (int k = 0 ; k < Y.n ; k++) if (S->q [k] != k) { fail (K_PERM, "LU_analyze", "columns were reordered although no ordering was asked for") ; break ; }
        ct (CT_ORDERINGS) ;
    } ;
    int st = drive (s, c) ;
    drop_opt (O) ;
    if (st == SLIP_OK && real (S) && is_perm (S->q, Y.n)) { Y.S = S ; Y.haveS = true ; } else c.drop () ;
}
static void do_fac (const Rec &s, Sys &Y)
{
    free_F (Y) ;
    Opt O ; make_opt (O, s) ;
    SLIP_matrix *L = nullptr, *U = nullptr, *rh = nullptr ; int64_t *pinv = nullptr ;
    Call c ; c.name = "LU_factorize" ; c.pr = O.v.print_level ; c.modest = true ;
    c.run = [&]
    {
        L = U = rh = marker<SLIP_matrix> () ; pinv = marker<int64_t> () ;
        int st = SLIP_LU_factorize (&L, &U, &rh, &pinv, Y.A.A, Y.S, O.o) ;
        settle (L, st) ; settle (U, st) ; settle (rh, st) ; settle (pinv, st) ; return st ;
    } ;
    c.empty = [&] { return !L && !U && !rh && !pinv ; } ;
    c.drop = [&]
    {
        if (real (L)) LIBV (SLIP_matrix_free (&L, nullptr)) ;
        if (real (U)) LIBV (SLIP_matrix_free (&U, nullptr)) ;
        if (real (rh)) LIBV (SLIP_matrix_free (&rh, nullptr)) ;
        if (real (pinv)) LIBV (SLIP_free (pinv)) ;
        L = U = rh = nullptr ; pinv = nullptr ;
    } ;
    c.in = [&] { return sys_in (Y, O) ; } ;
    c.out = [&] { u64 h = 0 ; if (real (L) && real (U) && real (rh) && real (pinv)) { h = mix (mat_digest (L), mat_digest (U)) ; h = mix (h, mat_digest (rh)) ; h = mix (h, arr_digest (pinv, Y.n)) ; } return h ; } ;
    c.ok = [&] (int st) { return st == (Y.sing ? SLIP_SINGULAR : SLIP_OK) || (Y.n == 0 && st == SLIP_INCORRECT_INPUT) ; } ;
    c.verify = [&] (int st)
    {
        if (st == SLIP_SINGULAR) { ct (CT_SINGULAR) ; return ; }
        if (st != SLIP_OK) return ;
        if (!real (L) || !real (U) || !real (rh) || !real (pinv)) { fail (K_HANDLE, "LU_factorize", "success without all its results") ; return ; }
        if (L->nzmax > Y.S->lnz || U->nzmax > Y.S->unz) ct (CT_GROWTH) ;
        verify_factor (Y.a, Y.n, Y.S->q, L, U, rh, pinv, O) ;
    } ;
    int st = drive (s, c) ;
    drop_opt (O) ;
    if (st == SLIP_OK && real (L) && real (U) && real (rh) && real (pinv)) { Y.L = L ; Y.U = U ; Y.rhos = rh ; Y.pinv = pinv ; Y.haveF = true ; } else c.drop () ;
}
// what: the kind to report for a wrong answer
static void do_sol (const Rec &s, Sys &Y, Rhs &B, const Opt &O, Kind kind, bool damaged)
{
    SLIP_matrix *X = nullptr ;
    Call c ; c.name = "LU_solve" ; c.pr = O.v.print_level ; c.modest = !damaged ; c.vkind = damaged || O.v.check ? K_VERDICT : K_STATUS ;
    if (!damaged && c.vkind == K_VERDICT && !(g_mask >> K_VERDICT & 1)) c.vkind = K_STATUS ;
    c.run = [&] { X = marker<SLIP_matrix> () ; int st = SLIP_LU_solve (&X, B.M.A, Y.A.A, Y.L, Y.U, Y.rhos, Y.S, Y.pinv, O.o) ; settle (X, st) ; return st ; } ;
    c.empty = [&] { return X == nullptr ; } ;
    c.drop = [&] { if (real (X)) LIBV (SLIP_matrix_free (&X, nullptr)) ; X = nullptr ; } ;
    c.in = [&] { if (B.M.shallow) check_lent (B.M, "LU_solve") ; return mix (sys_in (Y, O), mat_digest (B.M.A)) ; } ;
    c.out = [&] { return real (X) ? mat_digest (X) : 0 ; } ;
    c.ok = [&] (int st) { if (B.wrongdim) return st == SLIP_INCORRECT_INPUT ; if (damaged) return st != SLIP_PANIC && st != SLIP_OUT_OF_MEMORY ; return st == SLIP_OK || (Y.n == 0 && st == SLIP_INCORRECT_INPUT) ; } ;
    c.verify = [&] (int st)
    {
        if (st != SLIP_OK) { if (damaged) ct (CT_REJECTED) ; return ; }
        if (!real (X)) { fail (K_HANDLE, "LU_solve", "success without a result") ; return ; }
        std::string why ;
        if (!solves (X, Y.a, Y.A.v.scale, B, Y.n, why, "LU_solve")) fail (kind, "LU_solve", "reported success but %s%s", why.c_str (), damaged ? " (the factors had been damaged and checking was on)" : "") ;
        ct (CT_SOLVES) ;
    } ;
    drive (s, c) ;
    c.drop () ;
}
static void sys_sol (const Rec &s, Sys &Y)
{
    Rhs B ; make_rhs (B, s, Y.a, Y.n, true) ;
    Opt O ; make_opt (O, s) ;
    if (B.wrongdim) ct (CT_INVALID_IN) ;
    do_sol (s, Y, B, O, K_VALUE, false) ;
    ct (CT_REUSE_FACT) ;
    drop_opt (O) ; drop_mat (B.M) ;
}
static void sys_corr (const Rec &s, Sys &Y)
{
    if (Y.n < 1) return ;
    Rng r ((u64) s.get ("cs") + 3) ;
    Rec so = s ; so.set ("chk", 1) ; so.set ("pr", s.get ("cs") % 7 == 0 ? 1 + s.get ("cs") / 7 % 3 : 0) ;
    Opt O ; make_opt (O, so) ;
    Rec sb = s ; Rhs B ; make_rhs (B, sb, Y.a, Y.n, false) ;
    const int n = Y.n ; int what = (int) s.get ("what") ;
    i64 lnz = Y.L->p [n], unz = Y.U->p [n] ;
    auto edit = [&] (mpz_t x, bool may_zero)
    {
        Z old = z_raw (x), v ;
        switch (r.below (5)) { case 0: v = old + 1 ; break ; case 1: v = -old ; break ; case 2: v = old - r.range (1, 1000) ; break ; case 3: v = may_zero ? Z (0) : Z (old * 3) ; break ;
            default: v = old ^ 1 ; { Z t = abs (old) ; boost::multiprecision::bit_flip (t, (unsigned) r.below (std::max (1L, bitlen (old)))) ; v = old < 0 ? Z (-t) : t ; } }
        if (v == 0 && !may_zero) v = old + (old > 0 ? 1 : -1) ;
        if (v == old) v = old + (old >= 0 ? 1 : -1) ;
        lib_enter () ; put_z (x, v) ; g_in_lib-- ; ct (CT_CORRUPT_VAL) ;
        return old ;
    } ;
    auto is_diag = [&] (const SLIP_matrix *M, i64 k) { i64 j = 0 ; while (M->p [j+1] <= k) j++ ; return M->i [k] == j ; } ;
    std::function<void ()> undo ;
    auto rest = [&] (mpz_t x, const Z &old) { mpz_ptr p = x ; undo = [p, old] { lib_enter () ; put_z (p, old) ; g_in_lib-- ; } ; } ;
    switch (what)
    {
        case 0: case 5: { i64 k = r.below (lnz) ; Z o = edit (Y.L->x.mpz [k], !is_diag (Y.L, k)) ; rest (Y.L->x.mpz [k], o) ; break ; }
        case 1: case 6: { i64 k = r.below (unz) ; Z o = edit (Y.U->x.mpz [k], !is_diag (Y.U, k)) ; rest (Y.U->x.mpz [k], o) ; break ; }
        case 2: { i64 k = r.chance (400) ? n - 1 : r.below (n) ; Z o = edit (Y.rhos->x.mpz [k], false) ; rest (Y.rhos->x.mpz [k], o) ; break ; }
        case 3: case 4:
        {
            if (n < 2) break ;
            i64 *p = what == 3 ? Y.pinv : Y.S->q ;
            i64 a = r.below (n), b = (a + 1 + r.below (n - 1)) % n ; std::swap (p [a], p [b]) ; ct (CT_CORRUPT_PERM) ;
            undo = [p, a, b] { std::swap (p [a], p [b]) ; } ;
            break ;
        }
    }
    if (undo)
    {
        do_sol (s, Y, B, O, K_VERDICT, true) ;
        undo () ;
    }
    Rec s2 = s ; s2.f.erase ("nf") ;
    do_sol (s2, Y, B, O, K_VERDICT, false) ;
    drop_opt (O) ; drop_mat (B.M) ;
}
static void back (const Rec &s)
{
    Sys Y ; Rec sp = s ;
    if (s.get ("seed") % 41 == 0) sp.set ("n", 0) ;
    build_sys (Y, sp, (u64) s.get ("seed"), (int) s.get ("bits", 3)) ;
    Rhs B ; make_rhs (B, s, Y.a, Y.n, true) ;
    Opt O ; make_opt (O, s) ;
    int type = s.get ("xt") == 0 ? SLIP_MPQ : s.get ("xt") == 1 ? SLIP_MPFR : SLIP_FP64 ; bool badtype = false ;
    if (s.get ("bseed") % 31 == 0) { type = s.get ("bseed") & 1 ? SLIP_INT64 : SLIP_MPZ ; badtype = true ; }
    std::vector<Q> xe ; bool have = false ;
    SLIP_matrix *X = nullptr ;
    Call c ; c.name = "backslash" ; c.pr = O.v.print_level ; c.modest = true ;
    c.run = [&] { X = marker<SLIP_matrix> () ; int st = SLIP_backslash (&X, (SLIP_type) type, Y.A.A, B.M.A, O.o) ; settle (X, st) ; return st ; } ;
    c.empty = [&] { return X == nullptr ; } ;
    c.drop = [&] { if (real (X)) LIBV (SLIP_matrix_free (&X, nullptr)) ; X = nullptr ; } ;
    c.in = [&] { if (B.M.shallow) check_lent (B.M, "backslash") ; return mix (sys_in (Y, O), mat_digest (B.M.A)) ; } ;
    c.out = [&] { return real (X) ? mat_digest (X) : 0 ; } ;
    c.ok = [&] (int st)
    {
        if (badtype) return st == SLIP_INCORRECT_INPUT ;
        if (B.wrongdim) return st == SLIP_INCORRECT_INPUT || (Y.sing && st == SLIP_SINGULAR) ;
        if (Y.n == 0) return st == SLIP_OK || st == SLIP_INCORRECT_INPUT ;
        return st == (Y.sing ? SLIP_SINGULAR : SLIP_OK) ;
    } ;
    if (badtype || B.wrongdim) ct (CT_INVALID_IN) ;
    c.verify = [&] (int st)
    {
        const char *nm = "backslash" ;
        if (st == SLIP_SINGULAR) { ct (CT_SINGULAR) ; return ; }
        if (st != SLIP_OK) return ;
        if (!real (X)) { fail (K_HANDLE, nm, "success without a result") ; return ; }
        std::string why ;
        if (type == SLIP_MPQ) { if (!solves (X, Y.a, Y.A.v.scale, B, Y.n, why, nm)) fail (K_VALUE, nm, "reported success but %s", why.c_str ()) ; }
        else
        {
            View v = mat_view (X, nm) ;
            if (v.kind != SLIP_DENSE || v.type != type || v.m != Y.n || v.n != B.nrhs) { fail (K_VALUE, nm, "the result has the wrong type or size") ; return ; }
            if (!have) { xe = solve_exact (Y.a, B.b, Y.n, B.nrhs) ; for (auto &q : xe) q = q * Y.A.v.scale / B.scale ; have = true ; }
            const int prec = type == SLIP_FP64 ? 53 : opt_prec (O) ;
            for (size_t k = 0 ; k < xe.size () ; k++)
            {
                if (type == SLIP_FP64 && xe [k] != 0 && flog2 (xe [k]) >= 1023) continue ;
                bool fin = type == SLIP_FP64 ? isfinite (X->x.fp64 [k]) : fr_finite (X->x.mpfr [k]) ;
                if (!fin || (type == SLIP_MPFR ? v.e [k].v != round_prec (xe [k], prec, (int) O.v.round) : !within_ulp (v.e [k].v, xe [k], prec, -1074)))
                { fail (K_VALUE, nm, "entry %d of the result is %s, the exact solution is %s", (int) k, qs (v.e [k].v).c_str (), qs (xe [k]).c_str ()) ; break ; }
                if (type == SLIP_MPFR && X->x.mpfr [k]->_mpfr_prec != prec) { fail (K_VALUE, nm, "the result has precision %ld, not %d", (long) X->x.mpfr [k]->_mpfr_prec, prec) ; break ; }
            }
        }
        ct (CT_SOLVES) ;
    } ;
    drive (s, c) ;
    c.drop () ;
    drop_opt (O) ; drop_mat (B.M) ; sys_free_all (Y) ;
}
//------------------------------------------------------------------------------
// calls with arguments that cannot be used, in the middle of any history
//------------------------------------------------------------------------------
extern "C" { SLIP_info SLIP_tripread (SLIP_matrix **, FILE *, SLIP_options *) ; SLIP_info SLIP_tripread_double (SLIP_matrix **, FILE *, SLIP_options *) ; SLIP_info SLIP_read_dense (SLIP_matrix **, FILE *, SLIP_options *) ; }
static void sys_bad (const Rec &s, Sys &Y)
{
    Rng r ((u64) s.get ("cs") + 9) ;
    const int n = Y.n ; if (n < 1) return ;
    int fn = (int) s.get ("fn") ;
    if (fn == 2 && !Y.haveF) fn = 1 ;
    if (fn == 1 && !Y.haveS) fn = 0 ;
    Opt O ; make_opt (O, s) ;
    Rec sb = s ; if (sb.get ("bseed") % 29 == 0) sb.set ("bseed", sb.get ("bseed") + 1) ;
    Rhs B ; make_rhs (B, sb, Y.a, n, false) ;
    // header copies of the arguments, to be altered; what they point to stays valid
    SLIP_matrix hA = *Y.A.A, hb = *B.M.A, hL, hU, hr ; memset (&hL, 0, sizeof hL) ; hU = hr = hL ;
    if (Y.haveF) { hL = *Y.L ; hU = *Y.U ; hr = *Y.rhos ; }
    const SLIP_matrix *A = Y.A.A, *b = B.M.A, *L = Y.L, *U = Y.U, *rh = Y.rhos ; const SLIP_LU_analysis *S = Y.S ; const int64_t *pinv = Y.pinv ;
    int nullh = -1, type = SLIP_MPQ, ck = SLIP_CSC, ct_ = SLIP_MPZ ;
    char what [120] = "" ;
    // one way to make a matrix argument unusable
    auto spoil = [&] (const char *nm, SLIP_matrix &h, const SLIP_matrix *&p, bool types, bool dims, bool ptr)
    {
        std::vector<int> w = { 0, 1, 3 } ; if (types) { w.push_back (2) ; w.push_back (4) ; } if (dims) for (int k : {5, 7, 8}) w.push_back (k) ; /* a column more would make the header lie about the length of its arrays */ if (ptr) w.push_back (9) ;
        int v = w [(size_t) r.below ((i64) w.size ())] ; p = &h ;
        static const char *nmv [] = { "is NULL", "has the wrong kind", "has the wrong type", "has an undefined kind", "has an undefined type", "has a row more", "has a column more", "has a row less", "has a column less", "has no column pointers" } ;
        switch (v)
        {
            case 0: p = nullptr ; break ;
            case 1: h.kind = (SLIP_kind) ((h.kind + 1 + r.below (2)) % 3) ; break ;
            case 2: h.type = (SLIP_type) ((h.type + 1 + r.below (4)) % 5) ; break ;
            case 3: h.kind = (SLIP_kind) (r.chance (500) ? 3 : -1) ; break ;
            case 4: h.type = (SLIP_type) (r.chance (500) ? 5 : -1) ; break ;
            case 5: h.m++ ; break ; case 6: h.n++ ; break ; case 7: h.m-- ; break ; case 8: h.n-- ; break ;
            case 9: h.p = nullptr ; break ;
        }
        snprintf (what, sizeof what, "%s %s", nm, nmv [v]) ;
    } ;
    auto hand = [&] (int k) { nullh = (int) r.below (k) ; snprintf (what, sizeof what, "result handle %d is NULL", nullh) ; } ;
    SLIP_matrix *X [3] ; int64_t *pv ; SLIP_LU_analysis *T ;
    Call c ; c.pr = O.v.print_level ; c.modest = true ;
    int wantok = SLIP_INCORRECT_INPUT ;
    auto H = [&] (int k) { return nullh == k ? nullptr : &X [k] ; } ;
    i64 q = 0 ;
    switch (fn)
    {
        case 0:
            c.name = "LU_analyze" ;
            if (r.chance (200)) hand (1) ; else spoil ("A", hA, A, false, true, true) ;
            c.run = [&] { return SLIP_LU_analyze (nullh == 0 ? nullptr : &T, A, O.o) ; } ;
            break ;
        case 1:
            c.name = "LU_factorize" ;
            if (r.chance (300)) hand (4) ; else if (r.chance (200)) { S = nullptr ; snprintf (what, sizeof what, "S is NULL") ; } else spoil ("A", hA, A, true, true, true) ;
            c.run = [&] { return SLIP_LU_factorize (H (0), H (1), H (2), nullh == 3 ? nullptr : &pv, A, S, O.o) ; } ;
            break ;
        case 2:
            c.name = "LU_solve" ;
            switch (r.below (11))
            {
                case 0: hand (1) ; break ;
                case 1: S = nullptr ; snprintf (what, sizeof what, "S is NULL") ; break ;
                case 2: pinv = nullptr ; snprintf (what, sizeof what, "pinv is NULL") ; break ;
                case 3: case 4: { i64 d = r.chance (500) ? 1 : -1 ; if (r.chance (500)) { spoil ("b", hb, b, true, false, false) ; break ; } hb.m += d ; b = &hb ; snprintf (what, sizeof what, "b has %ld rows", (long) hb.m) ; break ; }
                case 5: spoil ("A", hA, A, true, true, false) ; break ;
                case 6: spoil ("L", hL, L, true, true, false) ; break ;
                case 7: spoil ("U", hU, U, true, true, false) ; break ;
                case 8: { if (r.chance (500)) { spoil ("rhos", hr, rh, true, false, false) ; break ; } hr.m += r.chance (500) ? 1 : -1 ; rh = &hr ; snprintf (what, sizeof what, "rhos has %ld rows", (long) hr.m) ; break ; }
                case 9: { i64 d = -1 ; hL.n += d ; hU.m += d ; L = &hL ; U = &hU ; snprintf (what, sizeof what, "L has %ld columns and U as many rows", (long) hL.n) ; break ; }
                default: { i64 d = -1 ; hA.n += d ; hA.m += d ; A = &hA ; snprintf (what, sizeof what, "A has dimension %ld, the factors %d", (long) hA.m, n) ; break ; }
            }
            c.run = [&] { return SLIP_LU_solve (H (0), b, A, L, U, rh, S, pinv, O.o) ; } ;
            break ;
        case 3:
            c.name = "backslash" ;
            switch (r.below (4))
            {
                case 0: hand (1) ; break ;
                case 1: type = (int) r.pick ({(int) SLIP_MPZ, (int) SLIP_INT64, -1, 5}) ; snprintf (what, sizeof what, "the type of the result is %d", type) ; break ;
                case 2: spoil ("A", hA, A, true, true, true) ; break ;
                default: spoil ("b", hb, b, true, false, false) ;
            }
            c.run = [&] { return SLIP_backslash (H (0), (SLIP_type) type, A, b, O.o) ; } ;
            break ;
        case 4:
            c.name = "matrix_copy" ;
            ck = (int) r.below (3) ; ct_ = (int) r.below (5) ;
            switch (r.below (5))
            {
                case 0: hand (1) ; break ;
                case 1: ck = r.chance (500) ? -1 : 3 ; snprintf (what, sizeof what, "the kind of the copy is %d", ck) ; break ;
                case 2: ct_ = r.chance (500) ? -1 : 5 ; snprintf (what, sizeof what, "the type of the copy is %d", ct_) ; break ;
                default: A = &hA ; switch (r.below (4)) { case 0: A = nullptr ; break ; case 1: hA.kind = (SLIP_kind) (r.chance (500) ? 3 : -1) ; break ; case 2: hA.type = (SLIP_type) (r.chance (500) ? 5 : -1) ; break ; default: hA.p = nullptr ; }
                    snprintf (what, sizeof what, "the source is NULL, of an undefined kind or type, or without column pointers") ;
            }
            c.run = [&] { return SLIP_matrix_copy (H (0), (SLIP_kind) ck, (SLIP_type) ct_, (SLIP_matrix *) A, O.o) ; } ;
            break ;
        case 5:
            c.name = "matrix_nnz" ; wantok = SLIP_OK ;
            switch (r.below (5)) { case 0: A = nullptr ; break ; case 1: hA.kind = (SLIP_kind) (r.chance (500) ? 3 : -1) ; A = &hA ; break ; case 2: hA.p = nullptr ; A = &hA ; break ; case 3: hA.n = -1 ; A = &hA ; break ; default: hb.m = -1 ; A = &hb ; }
            snprintf (what, sizeof what, "the matrix is not one") ;
            c.run = [&] { q = SLIP_matrix_nnz (A, O.o) ; return q == -1 ? SLIP_OK : SLIP_PANIC ; } ;
            break ;
        case 6:
            c.name = "release of nothing" ; wantok = SLIP_OK ; snprintf (what, sizeof what, "there is nothing to release") ;
            q = r.below (5) ;
            c.run = [&] () -> int
            {
                SLIP_matrix *N = nullptr ; SLIP_LU_analysis *NS = nullptr ;
                switch (q) { case 0: return SLIP_matrix_free (nullptr, O.o) ; case 1: return SLIP_matrix_free (&N, O.o) ; case 2: return SLIP_LU_analysis_free (nullptr, O.o) ; case 3: return SLIP_LU_analysis_free (&NS, O.o) ; default: SLIP_free (nullptr) ; return SLIP_OK ; }
            } ;
            break ;
        case 7:
            c.name = "matrix_allocate" ; nullh = 0 ; snprintf (what, sizeof what, "result handle is NULL") ;
            ck = (int) r.below (3) ; ct_ = (int) r.below (5) ; q = r.below (2) ;
            c.run = [&] { return SLIP_matrix_allocate (nullptr, (SLIP_kind) ck, (SLIP_type) ct_, n, n, n, q != 0, true, O.o) ; } ;
            break ;
        case 9:
            c.name = "reader" ; nullh = 0 ; q = r.below (6) ; c.bypass_ok = true ;
            snprintf (what, sizeof what, q < 3 ? "result handle is NULL" : "stream is NULL") ;
            c.run = [&] () -> int
            {
                SLIP_matrix **h = q < 3 ? nullptr : &X [0] ; FILE *f = q < 3 ? stdin : nullptr ;
                return q % 3 == 0 ? SLIP_tripread (h, f, O.o) : q % 3 == 1 ? SLIP_tripread_double (h, f, O.o) : SLIP_read_dense (h, f, O.o) ;
            } ;
            break ;
        default:
            c.name = "matrix_check" ; A = nullptr ; snprintf (what, sizeof what, "A is NULL") ; c.bypass_ok = true ;
            c.run = [&] { return SLIP_matrix_check (A, O.o) ; } ;
    }
    const SLIP_matrix cA = hA, cb = hb, cL = hL, cU = hU, cr = hr ;
    c.prep = [&] { for (auto &x : X) x = marker<SLIP_matrix> () ; pv = marker<int64_t> () ; T = marker<SLIP_LU_analysis> () ; } ;
    auto tidy = [&] { for (auto &x : X) settle (x, SLIP_INCORRECT_INPUT) ; settle (pv, SLIP_INCORRECT_INPUT) ; settle (T, SLIP_INCORRECT_INPUT) ; } ;
    c.empty = [&] { tidy () ; return !X [0] && !X [1] && !X [2] && !pv && !T ; } ;
    c.drop = [&] { tidy () ; for (auto &x : X) if (x) LIBV (SLIP_matrix_free (&x, nullptr)) ; if (pv) LIBV (SLIP_free (pv)) ; if (T) LIBV (SLIP_LU_analysis_free (&T, nullptr)) ; pv = nullptr ; T = nullptr ; } ;
    const i64 live0 = arena_live () ;
    c.in = [&]
    {
        if (memcmp (&cA, &hA, sizeof cA) || memcmp (&cb, &hb, sizeof cb) || memcmp (&cL, &hL, sizeof cL) || memcmp (&cU, &hU, sizeof cU) || memcmp (&cr, &hr, sizeof cr)) fail (K_INPUT, c.name, "the header of an argument it refused was changed (%s)", what) ;
        return mix (sys_in (Y, O), mat_digest (B.M.A)) ;
    } ;
    c.out = [&] { return 0 ; } ;
    c.ok = [&] (int st) { return st == wantok ; } ;
    c.verify = [&] (int) { if (arena_live () != live0) fail (K_LEAK, c.name, "a refused call (%s) left %ld block(s) behind", what, (long) (arena_live () - live0)) ; } ;
    ct (CT_INVALID_IN) ;
    drive (s, c) ;
    c.drop () ;
    if (Y.haveF && r.chance (500)) { Rec s2 = s ; s2.f.erase ("nf") ; do_sol (s2, Y, B, O, K_VALUE, false) ; }
    drop_opt (O) ; drop_mat (B.M) ;
}
void step_sys (const Rec &s)
{
    if (s.op == "back") { back (s) ; return ; }
    Sys &Y = g_cl [s.get ("c") & 3].sys [s.get ("t") & 1] ;
    if (s.op == "sys_new") { sys_free_all (Y) ; Rec z = s ; if (s.get ("seed") % 101 == 0) z.set ("n", 0) ; build_sys (Y, z, (u64) s.get ("seed"), (int) s.get ("bits", 3)) ; step_digest (mat_digest (Y.A.A)) ; return ; }
    if (!Y.live) return ;
    if (s.op == "sys_ana") do_ana (s, Y) ;
    else if (s.op == "sys_fac") { if (Y.haveS) do_fac (s, Y) ; }
    else if (s.op == "sys_sol") { if (Y.haveF) sys_sol (s, Y) ; }
    else if (s.op == "sys_bad") sys_bad (s, Y) ;
    else if (s.op == "sys_corr") { if (Y.haveF) sys_corr (s, Y) ; }
    else if (s.op == "sys_reval")
    {
        free_F (Y) ; drop_mat (Y.A) ;
        Rec sp = Y.spec ; build_sys (Y, sp, (u64) s.get ("seed"), (int) s.get ("bits", 5)) ;
    }
    else if (s.op == "sys_free") { i64 w = s.get ("what") ; if (w == 0) free_F (Y) ; else if (w == 1) { free_F (Y) ; free_S (Y) ; } else sys_free_all (Y) ; }
}
