// Matrix operations: build, copy (all kinds and types), check, allocate, free.
#include "ops.h"
#include <sstream>
#include <math.h>
static Q trunc_bits (const Q &q, int p)      // round towards zero to p significant bits
{
    if (q == 0 || fits_bits (q, p)) return q ;
    long e = flog2 (q) + 1 - p ;
    Q t = e >= 0 ? Q (q / pow2 ((unsigned) e)) : Q (q * pow2 ((unsigned) -e)) ;
    Z n = qnum (t) / qden (t) ;
    return e >= 0 ? Q (Z (n << (unsigned) e)) : Q (n, pow2 ((unsigned) -e)) ;
}
static Q gen_val (Rng &r, int type, int vals, int prec)
{
    if (vals == 0) return 0 ;
    if (vals != 3 && r.chance (60)) return 0 ;
    auto small = [&] { return Q (Z (r.range (-9, 9))) ; } ;
    if (vals == 8 || r.chance (15))
    {
        // the edges of the machine types: 2^k and its neighbours among integers, doubles and halves
        const int k = (int) r.pick ({63, 63, 63, 62, 53, 53, 52, 31, 32, 64}) ;
        Q q = Q (pow2 ((unsigned) k)), d = 0 ;
        switch (r.below (5)) { case 0: break ; case 1: d = Q (1) ; break ; case 2: d = k > 52 ? Q (pow2 ((unsigned) (k - 53))) * r.range (1, 3) : Q (1) ; break ; case 3: d = k > 52 ? Q (pow2 ((unsigned) (k - 52))) * r.range (1, 60) : Q (2) ; break ; case 4: d = type == SLIP_MPZ || type == SLIP_INT64 ? Q (r.range (1, 5000)) : Q (Z (r.range (1, 7)), Z (2)) ; break ; }
        if (qden (d) != 1 && (type == SLIP_MPZ || type == SLIP_INT64)) d = 1 ;
        q = r.chance (650) ? Q (q - d) : Q (q + d) ;
        if (r.chance (500)) q = -q ;
        if (type == SLIP_INT64 && (q >= Q (pow2 (63)) || q < Q (-pow2 (63)))) q = q < 0 ? Q (-pow2 (63)) : Q (pow2 (63) - 1) ;
        if (type == SLIP_MPFR) q = trunc_bits (q, prec) ;
        if (type == SLIP_FP64) q = trunc_bits (q, 53) ;
        return q ;
    }
    switch (type)
    {
        case SLIP_MPZ: case SLIP_INT64:
        {
            Z z ;
            if (vals == 1) z = r.range (-9, 9) ;
            else if (vals == 2) z = rand_z (r, 62) ;
            else if (vals == 3) z = r.range (1, 3) ;
            else if (vals == 4) z = rand_z (r, type == SLIP_MPZ ? 300 : 63) ;
            else if (vals == 5) z = Z (r.range (-5, 5)) * 1000 ;
            else if (vals == 6) z = type == SLIP_MPZ ? rand_z (r, (int) r.range (1, 140)) : Z (r.chance (500) ? INT64_MIN : INT64_MAX) ;
            else z = rand_z (r, (int) r.range (1, 54)) ;
            return Q (z) ;
        }
        case SLIP_MPQ:
        {
            if (vals == 1) return small () ;
            Z d = vals == 2 ? Z (r.range (1, 12)) : vals == 3 ? Z (7) : vals == 4 ? Z (abs (rand_z (r, 90)) + 1) : vals == 5 ? pow2 ((unsigned) r.below (40)) : Z (r.range (1, 1000)) ;
            Z n = vals == 4 ? rand_z (r, 120) : vals == 6 ? rand_z (r, 64) : vals == 7 ? Z (rand_z (r, 40) * d) : Z (r.range (-99, 99)) ;
            return Q (n, d) ;
        }
        case SLIP_MPFR: case SLIP_FP64:
        {
            int p = type == SLIP_FP64 ? 53 : prec ;
            Q q ;
            if (vals == 1) q = small () ;
            else if (vals == 2) q = Q (Z (r.range (-999, 999)), pow2 ((unsigned) r.below (10))) ;
            else if (vals == 3) q = Q (Z (r.range (1, 99)), Z (10)) ;
            else if (vals == 4) { int e = (int) r.range (-250, 250) ; q = Q (rand_z (r, 53)) ; if (e >= 0) q *= pow2 ((unsigned) e) ; else q /= pow2 ((unsigned) -e) ; }
            else if (vals == 5) q = Q (rand_z (r, (int) r.range (1, 66))) ;
            else if (vals == 6) { q = Q (rand_z (r, (int) r.range (1, 52)), Z (1)) ; q /= pow2 (type == SLIP_FP64 ? 1074 : 900) ; if (r.chance (500)) q *= pow2 (1900) ; }
            else if (vals == 7) q = Q (Z (r.range (-99999, 99999)), Z (1000)) ;
            else q = Q (rand_z (r, p), pow2 ((unsigned) r.below (60))) ;
            if (qnum (q) == 0) return 0 ;      // (boost leaves 0/d behind, which is not == 0)
            q = trunc_bits (q, p) ;
            if (type == SLIP_FP64 && q != 0)
            {
                if (flog2 (q) > 1022) q = Q (1) ;
                if (flog2 (q) < -1022) q = Q (qnum (Q (q * pow2 (1074))) / qden (Q (q * pow2 (1074))), pow2 (1074)) ;
            }
            return q ;
        }
    }
    return 0 ;
}
static void mat_new (const Rec &s, Mat &M)
{
    drop_mat (M) ;
    Rng r ((u64) s.get ("seed")) ;
    Spec sp ; sp.kind = (int) s.get ("kind") ; sp.type = (int) s.get ("type") ; sp.m = s.get ("m") ; sp.n = s.get ("n") ;
    sp.prec = (int) s.get ("prec", 128) ; sp.extra = s.get ("extra") ;
    if (sp.prec < 2) sp.prec = 2 ;
    if (sp.m < 0 || sp.n < 0 || sp.kind < 0 || sp.kind > 2 || sp.type < 0 || sp.type > 4) return ;
    int vals = (int) s.get ("vals") ;
    for (i64 j = 0 ; j < sp.n ; j++)
    {
        std::vector<i64> rows ;
        for (i64 i = 0 ; i < sp.m ; i++)
            if (sp.kind == SLIP_DENSE || r.chance ((int) s.get ("dens", 500))) rows.push_back (i) ;
        if (sp.kind != SLIP_DENSE && r.chance (400)) for (size_t k = rows.size () ; k > 1 ; k--) std::swap (rows [k-1], rows [(size_t) r.below ((i64) k)]) ;
        for (i64 i : rows)
        {
            bool z = sp.kind == SLIP_DENSE && !r.chance ((int) s.get ("dens", 500)) ;
            Ent e {i, j, z ? Q (0) : gen_val (r, sp.type, vals, sp.prec)} ;
            sp.e.push_back (e) ;
        }
    }
    // a triplet matrix far larger than memory: few entries, indices that differ only in their high bits
    if (int hg = (int) s.get ("huge") ; hg && sp.kind == SLIP_TRIPLET && sp.m > 0 && sp.n > 0)
    {
        auto far = [&] (i64 &dim)
        {
            std::vector<i64> at ; const i64 d0 = dim ;
            for (i64 k = 0 ; k < d0 ; k++)
                at.push_back (k == 0 ? r.below (3) : r.chance (500) ? at [(size_t) r.below ((i64) at.size ())] + ((i64) 1 << r.pick ({8, 16, 31, 32, 33, 40, 55})) * r.range (1, 3) : at.back () + r.range (1, 1000000000)) ;
            std::sort (at.begin (), at.end ()) ;
            for (size_t k = 1 ; k < at.size () ; k++) if (at [k] <= at [k-1]) at [k] = at [k-1] + 1 ;
            dim = at.back () + 1 + (r.chance (500) ? 0 : r.below ((i64) 1 << 50)) ;
            if (dim < (i64) 1 << 25) dim += (i64) 1 << 25 ;      // an array of this size is refused, never filled
            return at ;
        } ;
        std::vector<i64> R, K ;
        if (hg & 1) R = far (sp.m) ;
        if (hg & 2) K = far (sp.n) ;
        for (Ent &e : sp.e) { if (hg & 1) e.i = R [(size_t) e.i] ; if (hg & 2) e.j = K [(size_t) e.j] ; }
    }
    if (sp.kind == SLIP_TRIPLET && r.chance (600)) for (size_t k = sp.e.size () ; k > 1 ; k--) std::swap (sp.e [k-1], sp.e [(size_t) r.below ((i64) k)]) ;
    if (sp.type == SLIP_MPZ)
    {
        static const int sn [] = { 1, 2, 1, 1000, 7, -5 }, sd [] = { 1, 1, 3, 1, 12, 1 } ;
        i64 k = s.get ("sc") % 6 ; sp.scale = Q (Z (sn [k]), Z (sd [k])) ;
        if (k == 5 && r.chance (500)) sp.scale = Q (abs (rand_z (r, 80)) + 1, 7) ;
    }
    sp.sh = (int) s.get ("sh") ;
    build_mat (M, sp) ;
    step_digest (M.dg) ;
}

// C11's oracle: the bound on |stored/scale - x| for the documented expansions
bool expand_ok (const Q &x, const Q &got, bool fp, int prec)
{
    if (x == got) return true ;
    if (fp)
    {
        // x * 10^17 in prec-bit arithmetic (twice rounded), then rounded to an integer
        const Q e17 = Q (Z ("100000000000000000")) ;
        if (prec >= 53 && qden (Q (x * e17)) == 1 && fits_bits (Q (x * e17), prec)) return false ;
        return abs (Q (got - x)) <= Q (1) / e17 + abs (x) * Q (Z (4), pow2 ((unsigned) prec)) ;
    }
    Q s = Q (pow2 ((unsigned) prec)) ;
    if (fits_bits (x, prec) && qden (Q (x * s)) == 1) return false ;
    return abs (Q (got - x)) <= Q (1) / s + abs (x) * Q (Z (4), pow2 ((unsigned) prec)) ;
}
static const char *kname [] = { "csc", "triplet", "dense" }, *tname [] = { "mpz", "mpq", "mpfr", "int64", "fp64" } ;

static void verify_copy (const View &a, const SLIP_matrix *C, int ck, int ctype, const Opt &O, const char *nm)
{
    View v = mat_view (C, nm) ;
    const int prec = opt_prec (O) ;
    if (v.kind != ck || v.type != ctype || v.m != a.m || v.n != a.n)
    { fail (K_VALUE, nm, "result is a %ld-by-%ld matrix of kind %d and type %d", (long) v.m, (long) v.n, v.kind, v.type) ; return ; }
    if ((C->p && C->p_shallow) || (C->i && C->i_shallow) || (C->j && C->j_shallow) || C->x_shallow) fail (K_VALUE, nm, "the copy borrows its arrays") ;
    if (ctype != SLIP_MPZ && v.scale != 1) fail (K_VALUE, nm, "scale factor %s recorded for non-integer data", qs (v.scale).c_str ()) ;
    if (ctype == SLIP_MPFR) for (i64 k = 0 ; k < (i64) v.e.size () ; k++)
        if (C->x.mpfr [k]->_mpfr_prec != prec) { fail (K_VALUE, nm, "entry has precision %ld, option says %d", (long) C->x.mpfr [k]->_mpfr_prec, prec) ; break ; }
    std::map<std::pair<i64,i64>, Q> src ;
    std::map<std::pair<i64,i64>, char> in ;
    for (auto &e : a.e) src [{e.j, e.i}] = a.val (e) ;
    // pattern
    bool drop = a.kind == SLIP_DENSE ;
    for (size_t k = 0 ; k < v.e.size () ; k++)
    {
        auto &e = v.e [k] ; in [{e.j, e.i}] = 1 ;
        if (!drop && ck != SLIP_DENSE && !src.count ({e.j, e.i})) fail (K_VALUE, nm, "entry (%ld,%ld) is not in the source", (long) e.i, (long) e.j) ;
        if (ctype == SLIP_FP64 || ctype == SLIP_MPFR)
        {
            bool fin = ctype == SLIP_FP64 ? isfinite (C->x.fp64 [k]) : fr_finite (C->x.mpfr [k]) ;
            auto it = src.find ({e.j, e.i}) ;
            if (!fin && !(it != src.end () && it->second != 0 && flog2 (it->second) >= (ctype == SLIP_FP64 ? 1023 : 1 << 30)))
            { fail (K_VALUE, nm, "entry (%ld,%ld) is not a finite number", (long) e.i, (long) e.j) ; }
            if (!fin) in [{e.j, e.i}] = 2 ;
        }
    }
    if (ck != SLIP_DENSE && !drop) for (auto &kv : src)
        if (!in.count (kv.first)) fail (K_VALUE, nm, "entry (%ld,%ld) is missing", (long) kv.first.second, (long) kv.first.first) ;
    // values
    std::map<std::pair<i64,i64>, Q> got ;
    for (auto &e : v.e) got [{e.j, e.i}] = v.val (e) ;
    auto chk = [&] (const std::pair<i64,i64> &at, const Q &x, const Q &g)
    {
        bool ok = true ; const char *why = "differs" ;
        if (in.count (at) && in [at] == 2) return ;
        switch (ctype)
        {
            case SLIP_MPQ: ok = x == g ; break ;
            case SLIP_MPZ:
                if (a.type == SLIP_FP64) ok = expand_ok (x, g, true, prec) ;
                else if (a.type == SLIP_MPFR) ok = expand_ok (x, g, false, prec) ;
                else ok = x == g ;
                break ;
            case SLIP_MPFR: ok = g == round_prec (x, prec, (int) O.v.round) ; why = "is not rounded as the option says" ; break ;
            case SLIP_FP64:
                if (a.type == SLIP_MPFR && x != 0 && flog2 (x) < 1023)
                {
                    const long e = flog2 (x) + 1 - 53 ;
                    ok = g == round_mult (x, e < -1074 ? -1074 : e, (int) O.v.round) ; why = "is not rounded as the option says" ; break ;
                }
                if (x != 0 && flog2 (x) >= 1023) break ;
                if (fits_bits (x, 53) && (x == 0 || qden (Q (x * pow2 (1074))) == 1)) ok = x == g ;
                else ok = within_ulp (g, x, 53, -1074) ;
                break ;
            case SLIP_INT64:
            {
                Q lim = Q (pow2 (63)) ;
                bool viad = a.type == SLIP_MPQ || (a.type == SLIP_MPZ && a.scale != 1) ;
                if (x >= lim || x < -lim)
                {
                    // out of range: fractions and floats saturate
                    if (a.type != SLIP_MPZ) { Q w = x > 0 ? Q (lim - 1) : Q (-lim) ; ok = g == w ; why = "did not saturate" ; }
                    break ;
                }
                if (viad) { long e = x == 0 ? 0 : flog2 (x) + 1 - 53 ; Q t = e > 0 ? Q (pow2 ((unsigned) e)) : Q (1) ; ok = abs (Q (g - x)) <= t ; if (qden (x) == 1 && e <= 0) ok = x == g ; }
                else if (qden (x) == 1) ok = x == g ;
                else if (a.type == SLIP_MPFR) { Q w = round_mult (x, 0, (int) O.v.round) ; if (w >= lim) w = lim - 1 ; ok = w == g ; why = "is not rounded as the option says" ; }
                else ok = abs (Q (g - x)) < 1 ;
                break ;
            }
        }
        if (!ok) fail (K_VALUE, nm, "entry (%ld,%ld) %s: source %s, copy %s (%s %s to %s %s)", (long) at.second, (long) at.first, why, qs (x).c_str (), qs (g).c_str (), kname [a.kind], tname [a.type], kname [ck], tname [ctype]) ;
    } ;
    for (auto &kv : src) { auto it = got.find (kv.first) ; chk (kv.first, kv.second, it == got.end () ? Q (0) : it->second) ; }
    for (auto &kv : got) if (!src.count (kv.first)) chk (kv.first, Q (0), kv.second) ;
    ct (CT_COPIES) ;
}

static void mat_copy (const Rec &s, Client &C)
{
    Mat &M = C.mat [s.get ("t") % 3] ;
    if (!M.A) return ;
    Opt O ; make_opt (O, s) ;
    const int ck = (int) s.get ("ck") % 3, ctype = (int) s.get ("ctype") % 5 ;
    SLIP_matrix *X = nullptr ;
    Call c ;
    std::string nm = std::string ("matrix_copy(") + kname [M.v.kind] + "->" + kname [ck] + ")" ;
    c.name = "matrix_copy" ; c.modest = M.v.m < 100000 && M.v.n < 100000 && M.v.m * M.v.n < 1000000 ;
    c.run = [&] { X = marker<SLIP_matrix> () ; int st = SLIP_matrix_copy (&X, (SLIP_kind) ck, (SLIP_type) ctype, M.A, O.o) ; settle (X, st) ; return st ; } ;
    c.empty = [&] { return X == nullptr ; } ;
    c.drop = [&] { if (real (X)) LIBV (SLIP_matrix_free (&X, nullptr)) ; X = nullptr ; } ;
    c.in = [&] { if (M.shallow) check_lent (M, "matrix_copy") ; return mix (mat_digest (M.A), opt_digest (O)) ; } ;
    c.out = [&] { return real (X) ? mat_digest (X) : 0 ; } ;
    // a matrix of huge dimensions may not fit into the target storage
    const bool room = ck == SLIP_TRIPLET || (M.v.n < 1000000 && (ck == SLIP_CSC || M.v.m < 1000000)) ;
    c.ok = [&] (int st) { return st == SLIP_OK || (!room && (st == SLIP_OUT_OF_MEMORY || st == SLIP_INCORRECT_INPUT)) ; } ;
    c.verify = [&] (int st) { if (st != SLIP_OK) return ; if (!real (X)) { fail (K_HANDLE, "matrix_copy", "success without a result") ; return ; } verify_copy (M.v, X, ck, ctype, O, nm.c_str ()) ; } ;
    c.pr = 0 ;
    int st = drive (s, c) ;
    drop_opt (O) ;
    i64 to = s.get ("to", -1) ;
    // a number too large for the target is not a matrix to go on with
    bool fin = true ;
    if (st == SLIP_OK && real (X) && (ctype == SLIP_FP64 || ctype == SLIP_MPFR))
    {
        i64 nz = X->kind == SLIP_CSC ? X->p [X->n] : X->kind == SLIP_TRIPLET ? X->nz : X->m * X->n ;
        for (i64 k = 0 ; k < nz && k < X->nzmax ; k++) if (ctype == SLIP_FP64 ? !isfinite (X->x.fp64 [k]) : !fr_finite (X->x.mpfr [k])) fin = false ;
    }
    if (st == SLIP_OK && real (X) && to >= 0 && fin)
    {
        Mat N ; N.A = X ; N.v = mat_view (X, "copy") ; N.dg = mat_digest (X) ;
        Mat &D = C.mat [to % 3] ;
        drop_mat (D) ; D = N ;
    }
    else c.drop () ;
}

//------------------------------------------------------------------------------
// the checker, on intact and on damaged matrices
//------------------------------------------------------------------------------
static bool corrupt (SLIP_matrix *A, const View &v, int cor, Rng &r, std::function<void ()> &undo, bool &index)
{
    i64 nz = (i64) v.e.size () ;
    index = false ;
    auto set = [&] (i64 &x, i64 val) { i64 old = x ; i64 *px = &x ; undo = [px, old] { *px = old ; } ; x = val ; return true ; } ;
    switch (cor)
    {
        case 1: if (v.kind != SLIP_CSC || v.n < 1) return false ; return set (A->p [0], r.pick ({1, 2, -1, 1000000})) ;
        case 2: if (v.kind != SLIP_CSC || v.n < 2) return false ;
                { i64 j = r.range (1, v.n - 1) ; return A->p [j] > 0 ? set (A->p [j], r.chance (500) ? nz + 1 + r.below (5) : (A->p [j-1] > 0 ? A->p [j-1] - 1 : -1 - r.below (3))) : set (A->p [j], nz + 1 + r.below (5)) ; }
        case 3: if (v.kind == SLIP_CSC) return set (A->p [v.n], -1 - r.below (4)) ;
                if (v.kind == SLIP_TRIPLET) return set (A->nz, -1 - r.below (4)) ;
                return false ;
        case 4: if (v.kind != SLIP_CSC || v.n < 2 || nz < 1) return false ;
                { // two neighbouring column pointers exchanged
                  for (i64 j = 1 ; j + 1 <= v.n ; j++) if (A->p [j] < A->p [j+1] && j + 1 < v.n) { i64 a = A->p [j], b = A->p [j+1] ; i64 *p = A->p ; undo = [p, j, a, b] { p [j] = a ; p [j+1] = b ; } ; p [j] = b ; p [j+1] = a ; return true ; }
                  return false ; }
        case 5: case 6: if (v.kind == SLIP_DENSE || nz < 1) return false ;
                { i64 k = r.below (nz) ; index = true ; return set (A->i [k], cor == 5 ? -1 - r.below (3) * 1000 : v.m + r.below (3) * 100000) ; }
        case 7: if (v.kind == SLIP_DENSE || nz < 2) return false ;
                if (v.kind == SLIP_CSC)
                {
                    for (i64 j = 0 ; j < v.n ; j++) if (A->p [j+1] - A->p [j] >= 2) { i64 a = A->p [j] + r.below (A->p [j+1] - A->p [j]), b = A->p [j] ; if (a == b) b++ ; return set (A->i [a], A->i [b]) ; }
                    return false ;
                }
                { i64 a = r.below (nz), b = (a + 1 + r.below (nz - 1)) % nz ; i64 oi = A->i [a], oj = A->j [a] ; i64 *pi = &A->i [a], *pj = &A->j [a] ; undo = [pi, pj, oi, oj] { *pi = oi ; *pj = oj ; } ; *pi = A->i [b] ; *pj = A->j [b] ; return true ; }
        case 8: if (v.kind == SLIP_DENSE) return false ; { i64 *o = A->i ; undo = [A, o] { A->i = o ; } ; A->i = nullptr ; return true ; }
        case 9: if (v.kind == SLIP_DENSE) return false ;
                if (v.kind == SLIP_CSC) { i64 *o = A->p ; undo = [A, o] { A->p = o ; } ; A->p = nullptr ; return true ; }
                { i64 *o = A->j ; undo = [A, o] { A->j = o ; } ; A->j = nullptr ; return true ; }
        case 10: { mpz_t *o = A->x.mpz ; undo = [A, o] { A->x.mpz = o ; } ; A->x.mpz = nullptr ; return true ; }
        case 11: return set (A->m, -1 - r.below (9)) ;
        case 12: return set (A->n, -1 - r.below (9)) ;
        case 13: return set (A->nzmax, -1 - r.below (9)) ;
        case 14: { SLIP_type o = A->type ; undo = [A, o] { A->type = o ; } ; int bad = r.chance (500) ? -1 : 5 + (int) r.below (90) ; memcpy (&A->type, &bad, sizeof bad) ; return true ; }
        case 15: { SLIP_kind o = A->kind ; undo = [A, o] { A->kind = o ; } ; int bad = r.chance (500) ? -1 : 3 + (int) r.below (90) ; memcpy (&A->kind, &bad, sizeof bad) ; return true ; }
        case 16: if (v.kind == SLIP_CSC) return v.n > 0 ? set (A->p [v.n], A->nzmax + 1 + r.below (1000)) : false ;
                 if (v.kind == SLIP_TRIPLET)
                 {
                    if (r.chance (500) && nz > 0) { i64 k = r.below (nz) ; index = true ; return set (A->j [k], r.chance (500) ? v.n : -1) ; }
                    return set (A->nz, A->nzmax + 1 + r.below (1000)) ;
                 }
                 return v.n > 0 ? set (A->m, v.m + A->nzmax / v.n + 1 + r.below (9)) : false ;
    }
    return false ;
}
static u64 chk_digest (const SLIP_matrix *A, const View &v)
{
    // like mat_digest, but with the sizes the matrix had before it was damaged
    u64 h = 11 ; const unsigned char *b = (const unsigned char *) A ;
    for (size_t k = 0 ; k < offsetof (SLIP_matrix, scale) ; k++) h = mix (h, b [k]) ;
    i64 nz = (i64) v.e.size () ;
    if (A->p && v.kind == SLIP_CSC) for (i64 k = 0 ; k <= v.n ; k++) h = mix (h, (u64) A->p [k]) ;
    if (A->i && v.kind != SLIP_DENSE) for (i64 k = 0 ; k < nz ; k++) h = mix (h, (u64) A->i [k]) ;
    if (A->j && v.kind == SLIP_TRIPLET) for (i64 k = 0 ; k < nz ; k++) h = mix (h, (u64) A->j [k]) ;
    return h ;
}
static void mat_chk (const Rec &s, Client &C)
{
    Mat &M = C.mat [s.get ("t") % 3] ;
    if (!M.A) return ;
    Opt O ; make_opt (O, s) ;
    Rng r ((u64) s.get ("cs") + 17) ;
    std::function<void ()> undo ; bool index = false ;
    int cor = (int) s.get ("cor") ; bool bad = false ;
    if (cor && !M.shallow) { bad = corrupt (M.A, M.v, cor, r, undo, index) ; }
    if (bad) { ct (CT_REJECTED) ; if (index) ct (CT_CORRUPT_IDX) ; }
    Call c ; c.name = "matrix_check" ; c.bypass_ok = true ; c.pr = O.v.print_level ;
    i64 printed = 0 ; std::string text ; bool fired = false ;
    c.run = [&]
    {
        const i64 sk = g_sink_calls ; std::string keep ; keep.swap (g_sink_text) ;
        const int st = (int) SLIP_matrix_check (M.A, O.o) ;
        printed = g_sink_calls - sk ; text.swap (g_sink_text) ; g_sink_text.swap (keep) ; fired = fault_fired () > 0 ;
        return st ;
    } ;
    c.empty = [] { return true ; } ; c.drop = [] { } ;
    c.in = [&] { if (M.shallow) check_lent (M, "matrix_check") ; return mix (bad ? chk_digest (M.A, M.v) : mat_digest (M.A), opt_digest (O)) ; } ;
    c.out = [] { return 0 ; } ;
    c.vkind = K_VERDICT ;
    // (the checker of a CSC matrix needs memory of the size of its row dimension)
    c.ok = [&] (int st) { return st == (bad ? SLIP_INCORRECT_INPUT : SLIP_OK) || (st == SLIP_OUT_OF_MEMORY && M.v.m > 1000000) ; } ;
    c.verify = [&] (int st)
    {
        // what the print levels mean: 1 errors only, 2 also a short description, 3 everything
        if (g_sink_mode == 1 || fired || c.pr < 1) return ;
        if (st == SLIP_OK && c.pr == 1 && printed) fail (K_OUTPUT, c.name, "printed about a valid matrix at print level 1 (errors only)") ;
        if (st == SLIP_INCORRECT_INPUT && !printed) fail (K_OUTPUT, c.name, "rejected a matrix at print level %d without a message", c.pr) ;
        if (st == SLIP_OK && c.pr > 1 && !printed) fail (K_OUTPUT, c.name, "printed nothing at print level %d", c.pr) ;
        if (st == SLIP_OK && c.pr == 3 && (M.v.type == SLIP_MPZ || M.v.type == SLIP_MPQ || M.v.type == SLIP_INT64) && text.size () < 20000)
        {
            std::vector<std::string> tok ; std::istringstream is (text) ; for (std::string t ; is >> t ; ) tok.push_back (t) ;
            size_t at = 0 ;
            auto next = [&] (const std::string &w) { while (at < tok.size () && tok [at] != w) at++ ; return at < tok.size () ? (at++, true) : false ; } ;
            for (const Ent &e : M.v.e)
                if (!next (std::to_string (e.i)) || !next (e.v.str ())) { fail (K_OUTPUT, c.name, "entry (%ld,%ld) is not printed at print level 3", (long) e.i, (long) e.j) ; break ; }
            ct (CT_REPORTS) ;
        }
    } ;
    drive (s, c) ;
    if (undo) undo () ;
    if (mat_digest (M.A) != M.dg) fail (K_INPUT, "matrix_check", "the matrix was modified") ;
    drop_opt (O) ;
}

static void alloc_step (const Rec &s)
{
    Opt O ; make_opt (O, s) ;
    int kind = (int) s.get ("kind"), type = (int) s.get ("type") ; i64 m = s.get ("m"), n = s.get ("n"), nz = s.get ("nz") ;
    bool sh = s.get ("sh") != 0, init = s.get ("init") != 0, big = s.get ("big") != 0, overflow = false ;
    if (big)
    {
        sh = false ;
        if (s.get ("nz") & 1) { m = (i64) 3037000500LL ; n = m + 5 ; overflow = kind == SLIP_DENSE ; if (kind != SLIP_DENSE) { m = 3 ; n = 3 ; nz = (i64) 1 << 60 ; } }
        else { nz = (i64) 1 << (25 + (s.get ("nz") & 30)) ; if (kind == SLIP_DENSE) { m = 1 << 20 ; n = 1 << 14 ; } }
    }
    bool valid = kind >= 0 && kind <= 2 && type >= 0 && type <= 4 && m >= 0 && n >= 0 ;
    SLIP_matrix *X = nullptr ;
    Call c ; c.name = "matrix_allocate" ; c.modest = !big ;
    c.run = [&] { X = marker<SLIP_matrix> () ; int st = SLIP_matrix_allocate (&X, (SLIP_kind) kind, (SLIP_type) type, m, n, nz, sh, init, O.o) ; settle (X, st) ; return st ; } ;
    c.empty = [&] { return X == nullptr ; } ;
    c.drop = [&] { if (real (X)) LIBV (SLIP_matrix_free (&X, nullptr)) ; X = nullptr ; } ;
    c.in = [&] { return opt_digest (O) ; } ;
    c.out = [&] { return real (X) ? mix ((u64) X->m, mix ((u64) X->n, mix ((u64) X->nzmax, (u64) (X->kind * 8 + (int) X->type)))) : 0 ; } ;
    c.ok = [&] (int st) { return overflow ? st == SLIP_OUT_OF_MEMORY || st == SLIP_INCORRECT_INPUT : st == (valid ? SLIP_OK : SLIP_INCORRECT_INPUT) ; } ;
    c.verify = [&] (int st)
    {
        if (st != SLIP_OK) return ;
        if (!real (X)) { fail (K_HANDLE, "matrix_allocate", "success without a result") ; return ; }
        chkmem (X, sizeof *X, "matrix_allocate") ;
        i64 cap = kind == SLIP_DENSE ? m * n : nz ; if (cap < 1) cap = 1 ;
        if (X->m != m || X->n != n || (int) X->kind != kind || (int) X->type != type || X->nzmax != cap || (kind == SLIP_TRIPLET && X->nz != 0))
        { fail (K_VALUE, "matrix_allocate", "header %ld-by-%ld kind %d type %d nzmax %ld nz %ld", (long) X->m, (long) X->n, (int) X->kind, (int) X->type, (long) X->nzmax, (long) X->nz) ; return ; }
        if (q_raw (X->scale) != 1) fail (K_VALUE, "matrix_allocate", "scale is not 1") ;
        if (sh)
        {
            if (X->p || X->i || X->j || X->x.mpz || !X->p_shallow || !X->i_shallow || !X->j_shallow || !X->x_shallow) fail (K_VALUE, "matrix_allocate", "a shallow matrix has arrays of its own") ;
            return ;
        }
        if (X->p_shallow || X->i_shallow || X->j_shallow || X->x_shallow) fail (K_VALUE, "matrix_allocate", "a matrix of its own is marked as borrowing") ;
        auto zero = [&] (i64 *a, i64 k, bool want, const char *w)
        {
            if (!want) { if (a) fail (K_VALUE, "matrix_allocate", "array %s should be absent", w) ; return ; }
            chkmem (a, 8 * (size_t) k, "matrix_allocate") ;
            for (i64 t = 0 ; t < k ; t++) if (a [t]) { fail (K_VALUE, "matrix_allocate", "array %s is not zero", w) ; return ; }
        } ;
        zero (X->p, n + 1, kind == SLIP_CSC, "p") ; zero (X->i, cap, kind != SLIP_DENSE, "i") ; zero (X->j, cap, kind == SLIP_TRIPLET, "j") ;
        size_t xs = type == SLIP_MPZ ? sizeof (mpz_t) : type == SLIP_MPQ ? sizeof (mpq_t) : type == SLIP_MPFR ? sizeof (mpfr_t) : 8 ;
        chkmem (X->x.mpz, xs * (size_t) cap, "matrix_allocate") ;
        for (i64 t = 0 ; t < cap ; t++)
        {
            bool z = true ;
            if (type == SLIP_INT64) z = X->x.int64 [t] == 0 ;
            if (type == SLIP_FP64) z = X->x.fp64 [t] == 0 ;
            if (type == SLIP_MPZ && init) z = X->x.mpz [t]->_mp_size == 0 ;
            if (type == SLIP_MPQ && init) z = X->x.mpq [t]->_mp_num._mp_size == 0 && z_raw (&X->x.mpq [t]->_mp_den) == 1 ;
            if (type == SLIP_MPFR && init) z = X->x.mpfr [t]->_mpfr_prec == opt_prec (O) && X->x.mpfr [t]->_mpfr_d ;
            if (!z) { fail (K_VALUE, "matrix_allocate", "entry %ld is not an initialised zero", (long) t) ; break ; }
        }
    } ;
    if (!valid) ct (CT_INVALID_IN) ;
    drive (s, c) ;
    c.drop () ;
    drop_opt (O) ;
}
static void optnew (const Rec &s)
{
    SLIP_options *o = nullptr ;
    Call c ; c.name = "create_default_options" ;
    c.run = [&] { o = SLIP_create_default_options () ; return o ? (int) SLIP_OK : (int) SLIP_OUT_OF_MEMORY ; } ;
    c.empty = [&] { return o == nullptr ; } ;
    c.drop = [&] { if (o) { LIBV (SLIP_free (o)) ; o = nullptr ; } } ;
    c.in = [] { return 0 ; } ;
    c.out = [&] { return o ? mix ((u64) o->pivot * 16 + (u64) o->order, (u64) o->prec) : 0 ; } ;
    c.ok = [] (int st) { return st == SLIP_OK ; } ;
    c.verify = [&] (int)
    {
        chkmem (o, sizeof *o, "create_default_options") ;
        if (o->pivot != SLIP_TOL_SMALLEST || o->order != SLIP_COLAMD || o->tol != 1 || o->print_level != 0 || o->prec != 128 || o->round != MPFR_RNDN || o->check)
            fail (K_VALUE, "create_default_options", "not the documented defaults") ;
    } ;
    drive (s, c) ;
    c.drop () ;
}

void step_mat (const Rec &s)
{
    Client &C = g_cl [s.get ("c") & 3] ;
    if (s.op == "mat_new") mat_new (s, C.mat [s.get ("t") % 3]) ;
    else if (s.op == "mat_copy") mat_copy (s, C) ;
    else if (s.op == "mat_chk") mat_chk (s, C) ;
    else if (s.op == "mat_free") drop_mat (C.mat [s.get ("t") % 3]) ;
    else if (s.op == "alloc") alloc_step (s) ;
    else if (s.op == "optnew") optnew (s) ;
}
