// Exact numbers: reading and writing GMP/MPFR objects by their raw fields, so
// that the oracle never calls the libraries whose allocator is simulated.
#ifndef NUM_H
#define NUM_H
#include "sim.h"
#include <iosfwd>
#include <gmp.h>
#include <mpfr.h>
extern "C" {
#include "SLIP_LU.h"
}
Z z_raw (const mpz_t x) ;
Q q_raw (const mpq_t x) ;          // also accepts non-canonical fractions
bool q_canonical (const mpq_t x) ;
bool fr_finite (const mpfr_t x) ;
Q fr_raw (const mpfr_t x) ;        // exact value of a finite mpfr
Q d_raw (double d) ;               // exact value of a finite double
Q make_q (const Z &n, const Z &d) ;
Z pow2 (unsigned e) ;
inline Z qnum (const Q &q) { return Z (boost::multiprecision::numerator (q)) ; }
inline Z qden (const Q &q) { return Z (boost::multiprecision::denominator (q)) ; }
// |v - q| <= 1 unit in the last place of a format with p significant bits,
// minimum exponent emin (value 2^emin is the smallest positive number)
bool within_ulp (const Q &v, const Q &q, long p, long emin) ;
bool fits_bits (const Q &q, long p) ;    // q is a dyadic number with <= p significant bits
long bitlen (const Z &z) ;
long flog2 (const Q &q) ;                // floor (log2 |q|), q != 0
std::string zs (const Z &z) ;
std::string qs (const Q &q) ;
Z rand_z (Rng &r, int bits, bool neg = true) ;

// temporaries with read-only GMP view of an exact number
struct RoZ { std::vector<mp_limb_t> l ; mpz_t z ; explicit RoZ (const Z &v) ; } ;
struct RoQ { RoZ n, d ; mpq_t q ; explicit RoQ (const Q &v) ; } ;
// set library objects through the guarded functions (no faults active)
void put_z (mpz_t x, const Z &v) ;
void put_q (mpq_t x, const Q &v) ;
void put_fr (mpfr_t x, const Q &v) ;

// dense exact matrices
typedef std::vector<Z> ZV ;
Z det_bareiss (ZV a, int n) ;         // a is column major n*n
Z floor_z (const Q &q) ;
// q rounded to a multiple of 2^e, mode 0 nearest-even, 1 zero, 2 up, 3 down, 4 away
Q round_mult (const Q &q, long e, int mode) ;
Q round_prec (const Q &q, long p, int mode) ;
Q q2 (long e) ;
#endif
