// The guarded multiple-precision functions, against exact arithmetic.
#include "ops.h"
#include <math.h>
static const mpfr_rnd_t rnds [] = { MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA } ;
static void zclear (mpz_t x) { if (x->_mp_d) LIBV (mpz_clear (x)) ; x->_mp_d = nullptr ; x->_mp_size = x->_mp_alloc = 0 ; }
static void qclear (mpq_t x) { zclear (&x->_mp_num) ; zclear (&x->_mp_den) ; }
static void fclear (mpfr_t x) { if (x->_mpfr_d) LIBV (mpfr_clear (x)) ; x->_mpfr_d = nullptr ; }
static double to_d (const Q &v)      // v is representable
{
    if (v == 0) return 0 ;
    long e = flog2 (v) - 52 ; if (e < -1074) e = -1074 ;
    return ldexp ((double) (i64) qnum (Q (v / q2 (e))), (int) e) ;
}
static int sg (const Z &z) { return z.sign () ; }
static int sgq (const Q &q) { return q.sign () ; }
static int sgi (long v) { return v > 0 ? 1 : v < 0 ? -1 : 0 ; }

void step_gmp (const Rec &s)
{
    Rng r ((u64) s.get ("seed")) ;
    const int bits = (int) s.get ("bits"), fn = (int) s.get ("fn") % 60 ;
    const int alias = (int) s.get ("alias") ;
    // values of target (0) and operands (1, 2)
    Z zv [3] ; Q qv [3], fv [3] ; long fp [3] ; double d ; u64 u1, u2 ; i64 si ;
    for (int k = 0 ; k < 3 ; k++)
    {
        zv [k] = r.chance (100) ? Z (0) : r.chance (100) ? Z (r.range (-3, 3)) : rand_z (r, k == 0 ? (int) r.range (0, bits) : bits) ;
        Z den = r.chance (300) ? Z (1) : Z (abs (rand_z (r, 1 + (int) r.range (0, bits))) + 1) ;
        qv [k] = Q (rand_z (r, bits), den) ;
        if (r.chance (80)) qv [k] = 0 ;
        fp [k] = r.pick ({2, 24, 53, 64, 65, 113, 128, 200, 500}) ;
        Q t = Q (rand_z (r, 1 + bits)) ; long e = r.range (-80, 40) ; t *= q2 (e) ;
        fv [k] = round_prec (t, fp [k], 1) ;
        if (r.chance (80)) fv [k] = 0 ;
    }
    d = to_d (round_prec (Q (rand_z (r, 53)) * q2 (r.range (-100, 60)), 53, 1)) ;
    if (r.chance (150)) d = (double) r.range (-4, 4) ;
    u1 = r.chance (300) ? (u64) r.below (10) : r.chance (300) ? UINT64_MAX - (u64) r.below (3) : r.next () ;
    u2 = r.chance (300) ? (u64) r.below (10) : r.next () ;
    si = r.chance (300) ? r.range (-5, 5) : r.chance (200) ? INT64_MIN : r.chance (200) ? INT64_MAX : (i64) r.next () ;
    const int rm = (int) r.below (5) ; const mpfr_rnd_t rnd = rnds [rm] ;
    int tinit = (int) r.below (3) ;       // target: 0 freshly initialised, else holding a value
    Z mult = abs (rand_z (r, bits)) + 1 ;

    // indices of the objects used as x (target), y and z
    int yi = 1, zi = 2 ;
    switch (alias) { case 1: yi = 0 ; break ; case 2: zi = 0 ; break ; case 3: zi = 1 ; break ; case 4: yi = zi = 0 ; break ; }
    if (alias != 0 && alias != 3) tinit = 1 ;
    // preconditions of the operations
    if (fn == 10) { if (zv [zi] == 0) zv [zi] = 7 ; if (yi != zi) zv [yi] = zv [zi] * mult ; }
    if (fn == 32 && qv [zi] == 0) qv [zi] = Q (3, 7) ;
    if (fn == 49 && d == 0) d = 2.5 ;
    if (fn == 23 || fn == 24 || fn == 34) if (u2 == 0) u2 = 1 ;
    if (fn == 34 && qv [1] == 0 && r.chance (500)) qv [1] = 1 ;
    if (fn == 26) { zv [1] = abs (zv [1]) ; if (zv [1] == 0) zv [1] = 5 ; }
    if (fn == 18 && r.chance (200)) zv [1] = 0 ;
    if (fn == 50) { u1 %= r.pick ({3, 11, 1001, 70000}) ; u2 %= 60 ; }
    if (tinit == 0) { zv [0] = 0 ; qv [0] = 0 ; }

    mpz_t z [3] ; mpq_t q [3] ; mpfr_t f [3] ;
    for (int k = 0 ; k < 3 ; k++) { memset (z [k], 0, sizeof (mpz_t)) ; memset (q [k], 0, sizeof (mpq_t)) ; memset (f [k], 0, sizeof (mpfr_t)) ; }
    const int tk = fn <= 18 || fn == 27 || fn == 43 || fn == 56 || fn == 58 || fn == 59 ? 0 : fn <= 36 || fn == 44 ? 1 : fn <= 51 ? 2 : 3 ;   // target kind
    auto mk = [&] (int k)
    {
        bool uz = k > 0 || tk == 0, uq = k > 0 || tk == 1, uf = k > 0 || tk == 2 ;
        bool ini = k == 0 && (fn == 0 || fn == 1 || fn == 19 || fn == 37) ;
        if (ini) return ;
        if (uz) { (void) LIB (SLIP_mpz_init (z [k])) ; if (k || tinit) { lib_enter () ; put_z (z [k], zv [k]) ; g_in_lib-- ; } }
        if (uq) { (void) LIB (SLIP_mpq_init (q [k])) ; if (k || tinit) { lib_enter () ; put_q (q [k], qv [k]) ; g_in_lib-- ; } }
        if (uf) { (void) LIB (SLIP_mpfr_init2 (f [k], (u64) fp [k])) ; lib_enter () ; put_fr (f [k], fv [k]) ; g_in_lib-- ; }
    } ;
    mk (1) ; mk (2) ;
    char *str = nullptr ; FILE *fpn = nullptr ; std::string txt ;
    int ri = 12345 ; double rd = -1 ; i64 rs = -77 ; size_t rz = 0 ;
    Call c ; c.name = "guarded arithmetic" ;
    std::string nm = "guarded function #" + std::to_string (fn) ;
    static const char *names [] = { "mpz_init", "mpz_init2", "mpz_set", "mpz_set_ui", "mpz_set_si", "mpz_get_d", "mpz_get_si", "mpz_set_q", "mpz_mul", "mpz_submul",
        "mpz_divexact", "mpz_gcd", "mpz_lcm", "mpz_abs", "mpz_cmp", "mpz_cmpabs", "mpz_cmp_ui", "mpz_sgn", "mpz_sizeinbase", "mpq_init", "mpq_set", "mpq_set_z",
        "mpq_set_d", "mpq_set_ui", "mpq_set_si", "mpq_set_num", "mpq_set_den", "mpq_get_den", "mpq_get_d", "mpq_abs", "mpq_add", "mpq_mul", "mpq_div", "mpq_cmp",
        "mpq_cmp_ui", "mpq_sgn", "mpq_equal", "mpfr_init2", "mpfr_set", "mpfr_set_d", "mpfr_set_si", "mpfr_set_q", "mpfr_set_z", "mpfr_get_z", "mpfr_get_q",
        "mpfr_get_d", "mpfr_get_si", "mpfr_mul", "mpfr_mul_d", "mpfr_div_d", "mpfr_ui_pow_ui", "mpfr_sgn", "mpfr_free_cache", "mpfr_asprintf", "mpfr_asprintf",
        "mpfr_asprintf", "gmp_fscanf", "mpfr_asprintf", "mpz_submul", "mpz_mul" } ;
    c.name = names [fn] ;
    c.prep = [&]
    {
        mk (0) ; ri = 12345 ; rd = -1 ; rs = -77 ; rz = 0 ;
        if (fn == 56) { txt = "  " + zv [1].str () + " " + zv [2].str () + "\n" ; fpn = fmemopen ((void *) txt.data (), txt.size (), "r") ; }
    } ;
    auto X = [&] { return z [0] ; } ;
    c.run = [&] () -> int
    {
        mpz_ptr y = z [yi], w = z [zi] ; mpq_ptr qy = q [yi], qw = q [zi] ; mpfr_ptr fy = f [yi], fw = f [zi] ;
        // operands of read-only functions are never the (possibly absent) target
        mpz_ptr zy = z [1], zw = z [alias == 3 ? 1 : 2] ; mpq_ptr ky = q [1], kw = q [alias == 3 ? 1 : 2] ; mpfr_ptr hy = f [1] ;
        switch (fn)
        {
            case 0: return SLIP_mpz_init (X ()) ;
            case 1: return SLIP_mpz_init2 (X (), (size_t) bits) ;
            case 2: return SLIP_mpz_set (X (), y) ;
            case 3: return SLIP_mpz_set_ui (X (), u1) ;
            case 4: return SLIP_mpz_set_si (X (), si) ;
            case 5: return SLIP_mpz_get_d (&rd, zy) ;
            case 6: return SLIP_mpz_get_si (&rs, zy) ;
            case 7: return SLIP_mpz_set_q (X (), ky) ;
            case 8: case 59: return SLIP_mpz_mul (X (), y, w) ;
            case 9: case 58: return SLIP_mpz_submul (X (), y, w) ;
            case 10: return SLIP_mpz_divexact (X (), y, w) ;
            case 11: return SLIP_mpz_gcd (X (), y, w) ;
            case 12: return SLIP_mpz_lcm (X (), y, w) ;
            case 13: return SLIP_mpz_abs (X (), y) ;
            case 14: return SLIP_mpz_cmp (&ri, zy, zw) ;
            case 15: return SLIP_mpz_cmpabs (&ri, zy, zw) ;
            case 16: return SLIP_mpz_cmp_ui (&ri, zy, u1) ;
            case 17: return SLIP_mpz_sgn (&ri, zy) ;
            case 18: return SLIP_mpz_sizeinbase (&rz, zy, 2 + (i64) (u1 % 35)) ;
            case 19: return SLIP_mpq_init (q [0]) ;
            case 20: return SLIP_mpq_set (q [0], qy) ;
            case 21: return SLIP_mpq_set_z (q [0], zy) ;
            case 22: return SLIP_mpq_set_d (q [0], d) ;
            case 23: return SLIP_mpq_set_ui (q [0], u1, u2) ;
            case 24: return SLIP_mpq_set_si (q [0], si, u2) ;
            case 25: return SLIP_mpq_set_num (q [0], zy) ;
            case 26: return SLIP_mpq_set_den (q [0], zy) ;
            case 27: return SLIP_mpq_get_den (z [0], ky) ;
            case 28: return SLIP_mpq_get_d (&rd, ky) ;
            case 29: return SLIP_mpq_abs (q [0], qy) ;
            case 30: return SLIP_mpq_add (q [0], qy, qw) ;
            case 31: return SLIP_mpq_mul (q [0], qy, qw) ;
            case 32: return SLIP_mpq_div (q [0], qy, qw) ;
            case 33: return SLIP_mpq_cmp (&ri, ky, kw) ;
            case 34: return SLIP_mpq_cmp_ui (&ri, ky, u1, u2) ;
            case 35: return SLIP_mpq_sgn (&ri, ky) ;
            case 36: return SLIP_mpq_equal (&ri, ky, kw) ;
            case 37: return SLIP_mpfr_init2 (f [0], (u64) fp [0]) ;
            case 38: return SLIP_mpfr_set (f [0], fy, rnd) ;
            case 39: return SLIP_mpfr_set_d (f [0], d, rnd) ;
            case 40: return SLIP_mpfr_set_si (f [0], si, rnd) ;
            case 41: return SLIP_mpfr_set_q (f [0], ky, rnd) ;
            case 42: return SLIP_mpfr_set_z (f [0], zy, rnd) ;
            case 43: return SLIP_mpfr_get_z (z [0], hy, rnd) ;
            case 44: return SLIP_mpfr_get_q (q [0], hy, rnd) ;
            case 45: return SLIP_mpfr_get_d (&rd, hy, rnd) ;
            case 46: return SLIP_mpfr_get_si (&rs, hy, rnd) ;
            case 47: return SLIP_mpfr_mul (f [0], fy, fw, rnd) ;
            case 48: return SLIP_mpfr_mul_d (f [0], fy, d, rnd) ;
            case 49: return SLIP_mpfr_div_d (f [0], fy, d, rnd) ;
            case 50: return SLIP_mpfr_ui_pow_ui (f [0], u1, u2, rnd) ;
            case 51: return SLIP_mpfr_sgn (&ri, hy) ;
            case 52: return SLIP_mpfr_free_cache () ;
            case 53: return SLIP_mpfr_asprintf (&str, "%Zd|%d", zy, (int) (u1 & 0xffff)) ;
            case 54: return SLIP_mpfr_asprintf (&str, "%Qd;", ky) ;
            case 55: return SLIP_mpfr_asprintf (&str, "%.*Re", (int) (u1 % 60), hy) ;
            case 57: return SLIP_mpfr_asprintf (&str, "%s:%Zd", "x", zw) ;
            case 56: return SLIP_gmp_fscanf (fpn, "%Zd", z [0]) ;
        }
        return SLIP_OK ;
    } ;
    auto dig_t = [&] () -> u64
    {
        Hash h ;
        if (tk == 0 && z [0]->_mp_d) { h.add (z_raw (z [0])) ; }
        if (tk == 1 && q [0]->_mp_num._mp_d && q [0]->_mp_den._mp_d) { h.add (z_raw (&q [0]->_mp_num)) ; h.add (z_raw (&q [0]->_mp_den)) ; }
        if (tk == 2 && f [0]->_mpfr_d) { h.add ((u64) f [0]->_mpfr_prec) ; if (fr_finite (f [0])) h.add (fr_raw (f [0])) ; }
        if (tk == 3 && str) h.add (std::string (str)) ;
        h.add ((u64) sgi (ri)) ; h.add ((u64) rs) ; h.add ((u64) rz) ; u64 b ; memcpy (&b, &rd, 8) ; h.add (b) ;
        return h.h ;
    } ;
    c.empty = [] { return true ; } ;
    c.drop = [&]
    {
        if (tk == 0) zclear (z [0]) ;
        if (tk == 1) qclear (q [0]) ;
        if (tk == 2) fclear (f [0]) ;
        if (str) { (void) LIB (SLIP_mpfr_free_str (str)) ; str = nullptr ; }
        if (fpn) { fclose (fpn) ; fpn = nullptr ; }
    } ;
    c.in = [&] { Hash h ; for (int k = 1 ; k < 3 ; k++) { h.add (z_raw (z [k])) ; h.add (z_raw (&q [k]->_mp_num)) ; h.add (z_raw (&q [k]->_mp_den)) ; h.add (fr_raw (f [k])) ; h.add ((u64) f [k]->_mpfr_prec) ; } return h.h ; } ;
    c.out = dig_t ;
    c.ok = [&] (int st) { return st == SLIP_OK ; } ;
    c.bypass_ok = (fn >= 53) ;
    c.verify = [&] (int)
    {
        const Z &a = zv [yi], &b = zv [zi] ; const Q &qa = qv [yi], &qb = qv [zi] ; const Q &fa = fv [yi], &fb = fv [zi] ;
        const Z &ra = zv [1], &rb = zv [alias == 3 ? 1 : 2] ; const Q &rqa = qv [1], &rqb = qv [alias == 3 ? 1 : 2] ; const Q &rfa = fv [1] ;
        auto bad = [&] (const std::string &w, const std::string &g) { fail (K_VALUE, c.name, "gives %s, exact result is %s (alias %d)", g.c_str (), w.c_str (), alias) ; } ;
        auto wz = [&] (const Z &w) { Z g = z_raw (z [0]) ; if (g != w) bad (zs (w), zs (g)) ; if (z [0]->_mp_alloc < labs (z [0]->_mp_size)) bad ("a size within its space", "more") ; } ;
        auto wq = [&] (const Q &w, bool canon = true) { if (q [0]->_mp_den._mp_size <= 0) { bad (qs (w), "no denominator") ; return ; } Q g = q_raw (q [0]) ; if (g != w) bad (qs (w), qs (g)) ; if (canon && !q_canonical (q [0])) bad ("a reduced fraction", qs (g)) ; } ;
        auto wf = [&] (const Q &w) { if (!fr_finite (f [0])) { bad (qs (w), "not a number") ; return ; } Q g = fr_raw (f [0]), e = round_prec (w, fp [0], rm) ; if (g != e) bad (qs (e), qs (g)) ; if (f [0]->_mpfr_prec != fp [0]) bad ("an unchanged precision", "another") ; } ;
        auto wi = [&] (int w) { if (sgi (ri) != w) bad (std::to_string (w), std::to_string (ri)) ; } ;
        auto wd = [&] (const Q &x, int mode)
        {
            Q e = x ; if (x != 0) { long k = flog2 (x) - 52 ; if (k < -1074) k = -1074 ; if (flog2 (x) >= 1022) return ; e = round_mult (x, k, mode) ; }
            if (!isfinite (rd) || d_raw (rd) != e) bad (qs (e), std::to_string (rd)) ;
        } ;
        switch (fn)
        {
            case 0: case 1: wz (0) ; break ;
            case 2: wz (a) ; break ;
            case 3: wz (Z (u1)) ; break ;
            case 4: wz (Z (si)) ; break ;
            case 5: wd (Q (ra), 1) ; break ;
            case 6: if (ra >= Z (INT64_MIN) && ra <= Z (INT64_MAX) && Z (rs) != ra) bad (zs (ra), std::to_string (rs)) ; break ;
            case 7: wz (qnum (rqa) / qden (rqa)) ; break ;
            case 8: case 59: wz (a * b) ; break ;
            case 9: case 58: wz (zv [0] - a * b) ; break ;
            case 10: wz (a / b) ; break ;
            case 11: wz (boost::multiprecision::gcd (a, b)) ; break ;
            case 12: wz (a == 0 || b == 0 ? Z (0) : Z (abs (Z (a / boost::multiprecision::gcd (a, b) * b)))) ; break ;
            case 13: wz (abs (a)) ; break ;
            case 14: wi (sg (Z (ra - rb))) ; break ;
            case 15: wi (sg (Z (abs (ra) - abs (rb)))) ; break ;
            case 16: wi (sg (Z (ra - Z (u1)))) ; break ;
            case 17: wi (sg (ra)) ; break ;
            case 18:
            {
                long base = 2 + (long) (u1 % 35) ; long dg = 0 ; Z t = abs (ra) ; while (t != 0) { t /= base ; dg++ ; } if (!dg) dg = 1 ;
                bool p2 = (base & (base - 1)) == 0 ;
                if ((long) rz != dg && (p2 || (long) rz != dg + 1)) bad (std::to_string (dg), std::to_string (rz)) ;
                break ;
            }
            case 19: wq (0) ; break ;
            case 20: wq (qa) ; break ;
            case 21: wq (Q (ra)) ; break ;
            case 22: wq (d_raw (d)) ; break ;
            case 23: wq (Q (Z (u1), Z (u2)), false) ; break ;
            case 24: wq (Q (Z (si), Z (u2)), false) ; break ;
            case 25: wq (Q (ra, qden (qv [0])), false) ; break ;
            case 26: wq (Q (qnum (qv [0]), ra), false) ; break ;
            case 27: wz (qden (rqa)) ; break ;
            case 28: wd (rqa, 1) ; break ;
            case 29: wq (abs (qa)) ; break ;
            case 30: wq (qa + qb) ; break ;
            case 31: wq (qa * qb) ; break ;
            case 32: wq (qa / qb) ; break ;
            case 33: wi (sgq (Q (rqa - rqb))) ; break ;
            case 34: wi (sgq (Q (rqa - Q (Z (u1), Z (u2))))) ; break ;
            case 35: wi (sgq (rqa)) ; break ;
            case 36: if ((ri != 0) != (rqa == rqb)) bad (rqa == rqb ? "equal" : "different", std::to_string (ri)) ; break ;
            case 37: if (f [0]->_mpfr_prec != fp [0] || !f [0]->_mpfr_d) bad ("the requested precision", "another") ; break ;
            case 38: wf (fa) ; break ;
            case 39: wf (d_raw (d)) ; break ;
            case 40: wf (Q (Z (si))) ; break ;
            case 41: wf (rqa) ; break ;
            case 42: wf (Q (ra)) ; break ;
            case 43: wz (qnum (round_mult (rfa, 0, rm))) ; break ;
            case 44: wq (rfa) ; break ;
            case 45: wd (rfa, rm) ; break ;
            case 46:
            {
                Z w = qnum (round_mult (rfa, 0, rm)) ;
                if (w > Z (INT64_MAX)) w = INT64_MAX ;
                if (w < Z (INT64_MIN)) w = INT64_MIN ;
                if (Z (rs) != w) bad (zs (w), std::to_string (rs)) ;
                break ;
            }
            case 47: wf (fa * fb) ; break ;
            case 48: wf (fa * d_raw (d)) ; break ;
            case 49: wf (fa / d_raw (d)) ; break ;
            case 50: wf (Q (Z (boost::multiprecision::pow (Z (u1), (unsigned) u2)))) ; break ;
            case 51: wi (sgq (rfa)) ; break ;
            case 53: case 54: case 55: case 57:
            {
                if (!str) { bad ("a string", "nothing") ; break ; }
                size_t n = arena_size (str) ; if (n == 0 || memchr (str, 0, n) == nullptr) { bad ("a terminated string in the library's memory", "something else") ; break ; }
                std::string w ;
                if (fn == 53) w = ra.str () + "|" + std::to_string ((int) (u1 & 0xffff)) ;
                if (fn == 54) { w = qnum (rqa).str () ; if (qden (rqa) != 1) w += "/" + qden (rqa).str () ; w += ";" ; }
                if (fn == 57) w = "x:" + rb.str () ;
                if (fn != 55 && w != str) bad (w, str) ;
                if (fn == 55)
                {
                    // the printed decimal is within one unit of its last digit
                    int dg = (int) (u1 % 60) ; long ex = 0 ; std::string t = str ; size_t ep = t.find ('e') ;
                    if (ep == std::string::npos) { bad ("an exponent", t) ; break ; }
                    ex = atol (t.c_str () + ep + 1) ; std::string m = t.substr (0, ep) ; bool neg = m [0] == '-' ; if (neg) m = m.substr (1) ;
                    size_t pt = m.find ('.') ; if (pt != std::string::npos) m.erase (pt, 1) ;
                    Q g = Q (Z (m)) ; long sh = ex - dg ; Q p10 = Q (Z (boost::multiprecision::pow (Z (10), (unsigned) labs (sh)))) ;
                    if (sh < 0) p10 = 1 / p10 ;
                    g *= p10 ; if (neg) g = -g ;
                    if (abs (Q (g - rfa)) > p10) bad (qs (rfa), t) ;
                }
                break ;
            }
            case 56: wz (ra) ; break ;
        }
        ct (CT_WRAPPERS) ;
    } ;
    drive (s, c) ;
    c.drop () ;
    for (int k = 1 ; k < 3 ; k++) { zclear (z [k]) ; qclear (q [k]) ; fclear (f [k]) ; }
}
