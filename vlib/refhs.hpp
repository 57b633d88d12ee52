// Reference hard-sphere functions from the spherical Bessel recurrences (not the closed forms),
// in quadruple precision.
#ifndef REFHS_HPP
#define REFHS_HPP
#include <quadmath.h>
namespace ref {
inline __float128 piq() { static const __float128 v = 4 * atanq( 1 ); return v; }
struct HardSphere { double P, S, phi; };      // phi is defined modulo pi
inline HardSphere hardSphere( int L, double rho ) {
  __float128 r = rho, P = r, S = 0, phi = r;
  for ( int l = 1; l <= L; ++l ) {
    __float128 d = l - S, n = d * d + P * P;
    phi -= atan2q( P, d );
    __float128 Pn = r * r * P / n, Sn = r * r * d / n - l;
    P = Pn; S = Sn;
  }
  // reduced modulo pi in quadruple precision, so that large arguments keep their accuracy
  phi = phi - piq() * floorq( phi / piq() + 0.5 );
  return { double( P ), double( S ), double( phi ) };
}
// distance of two angles modulo pi
inline double angle( double a, double b ) {
  __float128 d = (__float128)a - (__float128)b; d -= piq() * floorq( d / piq() + 0.5 );
  return double( fabsq( d ) );
}
}
#endif
