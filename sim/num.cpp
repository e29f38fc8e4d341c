#include "num.h"
using boost::multiprecision::numerator ;
using boost::multiprecision::denominator ;

static Z from_limbs (const mp_limb_t *p, long n)
{
    Z z ;
    if (n > 0) boost::multiprecision::import_bits (z, p, p + n, 64, false) ;
    return z ;
}
Z z_raw (const mpz_t x)
{
    long n = x->_mp_size ; Z z = from_limbs (x->_mp_d, n < 0 ? -n : n) ;
    return n < 0 ? Z (-z) : z ;
}
Q make_q (const Z &n, const Z &d) { return d == 0 ? Q (0) : Q (n, d) ; }
Q q_raw (const mpq_t x)
{
    Z n = z_raw (&x->_mp_num), d = z_raw (&x->_mp_den) ;
    if (d < 0) { n = -n ; d = -d ; }
    return make_q (n, d) ;
}
bool q_canonical (const mpq_t x)
{
    Z n = z_raw (&x->_mp_num), d = z_raw (&x->_mp_den) ;
    return d > 0 && boost::multiprecision::gcd (n, d) == 1 ;
}
Z pow2 (unsigned e) { Z z = 1 ; z <<= e ; return z ; }
bool fr_finite (const mpfr_t x)
{
    return x->_mpfr_exp != __MPFR_EXP_NAN && x->_mpfr_exp != __MPFR_EXP_INF ;
}
Q fr_raw (const mpfr_t x)
{
    if (x->_mpfr_exp == __MPFR_EXP_ZERO || !fr_finite (x)) return Q (0) ;
    long n = (x->_mpfr_prec + 63) / 64 ;
    Z m = from_limbs (x->_mpfr_d, n) ;
    long e = x->_mpfr_exp - 64 * n ;
    if (x->_mpfr_sign < 0) m = -m ;
    if (e >= 0) return Q (Z (m << (unsigned) e)) ;
    return Q (m, pow2 ((unsigned) -e)) ;
}
Q d_raw (double d)
{
    if (d == 0) return Q (0) ;
    int e ; double f = frexp (d, &e) ;
    i64 m = (i64) ldexp (f, 53) ; e -= 53 ;
    if (e >= 0) return Q (Z (Z (m) << (unsigned) e)) ;
    return Q (Z (m), pow2 ((unsigned) -e)) ;
}
long bitlen (const Z &z) { return z == 0 ? 0 : (long) boost::multiprecision::msb (abs (z)) + 1 ; }
static Q qpow2 (long e) { return e >= 0 ? Q (pow2 ((unsigned) e)) : Q (Z (1), pow2 ((unsigned) -e)) ; }
long flog2 (const Q &q0)
{
    Q q = abs (q0) ;
    long e = bitlen (numerator (q)) - bitlen (denominator (q)) ;   // within 1
    while (qpow2 (e) > q) e-- ;
    while (qpow2 (e + 1) <= q) e++ ;
    return e ;
}
bool within_ulp (const Q &v, const Q &q, long p, long emin)
{
    if (v == q) return true ;
    if (q == 0) return false ;
    long e = flog2 (q) + 1 - p ;
    if (e < emin) e = emin ;
    return abs (v - q) <= qpow2 (e) ;
}
bool fits_bits (const Q &q, long p)
{
    if (q == 0 || numerator (q) == 0) return true ;
    Z d = denominator (q) ;
    if ((d & (d - 1)) != 0) return false ;
    Z n = abs (Z (numerator (q))) ;
    return bitlen (n) - (long) boost::multiprecision::lsb (n) <= p ;
}
std::string zs (const Z &z) { std::string s = z.str () ; return s.size () > 60 ? s.substr (0, 28) + ".." + s.substr (s.size () - 28) : s ; }
std::string qs (const Q &q)
{
    std::string s = zs (numerator (q)) ;
    if (denominator (q) != 1) s += "/" + zs (denominator (q)) ;
    return s ;
}
Z rand_z (Rng &r, int bits, bool neg)
{
    Z z = 0 ;
    if (bits <= 0) return z ;
    for (int b = 0 ; b < bits ; b += 32) { z <<= 32 ; z += (u64) (r.next () & 0xffffffffull) ; }
    z &= pow2 ((unsigned) bits) - 1 ;
    if (r.chance (60)) z = pow2 ((unsigned) bits) - 1 ;
    if (r.chance (40)) z = pow2 ((unsigned) bits - 1) ;
    if (neg && r.chance (500)) z = -z ;
    return z ;
}
RoZ::RoZ (const Z &v)
{
    Z a = abs (v) ;
    boost::multiprecision::export_bits (a, std::back_inserter (l), 64, false) ;
    while (!l.empty () && l.back () == 0) l.pop_back () ;
    if (l.empty ()) l.push_back (0) ;
    long n = (v == 0) ? 0 : (long) l.size () ;
    z->_mp_alloc = 0 ; z->_mp_size = (int) (v < 0 ? -n : n) ; z->_mp_d = l.data () ;
}
RoQ::RoQ (const Q &v) : n (numerator (v)), d (denominator (v))
{
    q->_mp_num = *n.z ; q->_mp_den = *d.z ;
}
void put_z (mpz_t x, const Z &v)
{
    RoZ t (v) ;
    SLIP_info i = SLIP_mpz_set (x, t.z) ;
    if (i != SLIP_OK || z_raw (x) != v) fail (K_VALUE, "mpz_set", "setting an integer failed (status %d)", i) ;
}
void put_q (mpq_t x, const Q &v)
{
    RoQ t (v) ;
    SLIP_info i = SLIP_mpq_set (x, t.q) ;
    if (i != SLIP_OK || q_raw (x) != v) fail (K_VALUE, "mpq_set", "setting a rational failed (status %d)", i) ;
}
void put_fr (mpfr_t x, const Q &v)
{
    RoQ t (v) ;
    SLIP_info i = SLIP_mpfr_set_q (x, t.q, MPFR_RNDN) ;
    if (i != SLIP_OK || !within_ulp (fr_raw (x), v, x->_mpfr_prec, -100000)) fail (K_VALUE, "mpfr_set_q", "setting a float failed (status %d)", i) ;
}
Z det_bareiss (ZV a, int n)
{
    Z prev = 1 ; int sign = 1 ;
    for (int k = 0 ; k < n ; k++)
    {
        int p = -1 ;
        for (int i = k ; i < n ; i++) if (a [i + k * n] != 0) { p = i ; break ; }
        if (p < 0) return 0 ;
        if (p != k) { for (int j = 0 ; j < n ; j++) swap (a [p + j * n], a [k + j * n]) ; sign = -sign ; }
        for (int j = k + 1 ; j < n ; j++)
            for (int i = k + 1 ; i < n ; i++)
            {
                a [i + j * n] = a [i + j * n] * a [k + k * n] - a [i + k * n] * a [k + j * n] ;
                if (prev != 1) a [i + j * n] /= prev ;
            }
        prev = a [k + k * n] ;
    }
    return n == 0 ? Z (1) : (sign < 0 ? Z (-prev) : prev) ;
}

Q q2 (long e) { return qpow2 (e) ; }
Z floor_z (const Q &q)
{
    Z n = qnum (q), d = qden (q) ; Z t = n / d ;
    if (n < 0 && t * d != n) t -= 1 ;
    return t ;
}
Q round_mult (const Q &q, long e, int mode)
{
    Q u = qpow2 (e) ; Q t = q / u ;
    Z f = floor_z (t) ; Q fr = t - Q (f) ;
    if (fr == 0) return q ;
    bool up = false ;
    switch (mode)
    {
        case 0: up = fr > Q (1, 2) || (fr == Q (1, 2) && (f & 1) != 0) ; break ;
        case 1: up = q < 0 ; break ;
        case 2: up = true ; break ;
        case 3: up = false ; break ;
        case 4: up = q > 0 ; break ;
    }
    if (up) f += 1 ;
    return Q (f) * u ;
}
Q round_prec (const Q &q, long p, int mode)
{
    if (q == 0) return q ;
    return round_mult (q, flog2 (q) + 1 - p, mode) ;
}
