// Reference Coulomb wave functions in extended precision, by a method unrelated to the one under
// test: Steed's continued fractions beyond the turning point, Taylor integration of the l = 0
// irregular solution inwards, upward recurrence of G in l, CF1 for F'/F and the Wronskian for F.
#ifndef REFCOUL_HPP
#define REFCOUL_HPP
#include <bits/stdc++.h>
namespace ref {
typedef long double LD;
struct Coulomb { LD F, dF, G, dG; };
inline LD cf1( int l, LD rho, LD eta ) {           // F_l'/F_l, modified Lentz
  const LD tiny = 1e-4000L;
  auto S = [&]( LD k ) { return k / rho + eta / k; };
  auto R2 = [&]( LD k ) { return 1 + eta * eta / ( k * k ); };
  LD k = l + 1, f = S( k ); if ( f == 0 ) f = tiny;
  LD C = f, D = 0;
  for ( long it = 0; it < 2000000; ++it, k += 1 ) {
    LD a = -R2( k ), b = S( k ) + S( k + 1 );
    D = b + a * D; if ( D == 0 ) D = tiny;
    C = b + a / C; if ( C == 0 ) C = tiny;
    D = 1 / D; LD d = C * D; f *= d;
    if ( fabsl( d - 1 ) < 2e-19L ) break;
  }
  return f;
}
inline bool cf2( LD rho, LD eta, LD& p, LD& q ) {  // l = 0: p + iq
  typedef std::complex< LD > Z;
  const Z I( 0, 1 );
  Z a = I * eta, b = Z( 1, 0 ) + I * eta;          // -l + i eta, l + 1 + i eta
  Z bb = 2.L * ( Z( rho - eta, 0 ) + I );
  Z D = 1.L / bb, aa = a * b, del = aa * D, h = del;
  for ( long n = 1; n < 200000; ++n ) {
    aa = ( a + LD( n ) ) * ( b + LD( n ) ); bb += 2.L * I;
    D = 1.L / ( aa * D + bb );
    del *= ( bb * D - 1.L ); h += del;
    if ( std::abs( del ) < 1e-20L * std::abs( h ) ) {
      Z z = I * ( 1 - eta / rho ) + I * h / rho; p = z.real(); q = z.imag(); return true; }
  }
  return false;
}
inline bool coulomb( int l, double rho_, double eta_, Coulomb& out ) {
  LD rho = rho_, eta = eta_, R = std::max( rho, 2 * eta + 12 ), p, q;
  if ( !cf2( R, eta, p, q ) || !( q > 0 ) ) return false;
  LD f = cf1( 0, R, eta );
  LD gam = ( f - p ) / q;
  LD F = 1 / sqrtl( q * ( gam * gam + 1 ) ), G = gam * F, dG = ( p * gam - q ) * F;
  // Taylor steps inwards
  LD x = R, g = G, d = dG;
  while ( x > rho ) {
    LD h = std::min( { LD( 0.5 ), x / 4, x - rho } ); bool last = h == x - rho;
    LD a[70]; a[0] = g; a[1] = d;
    LD u = 0, du = 0, hp = 1; LD hh = -h;
    for ( int k = 0; k < 66; ++k )
      a[k+2] = ( ( 2 * eta - x ) * a[k] - ( k ? a[k-1] : 0 ) - LD( k + 1 ) * k * a[k+1] ) / ( x * LD( k + 2 ) * ( k + 1 ) );
    for ( int k = 0; k < 67; ++k ) { u += a[k] * hp; du += ( k + 1 ) * a[k+1] * hp; hp *= hh; }
    g = u; d = du; x = last ? rho : x - h;
  }
  LD g0 = g, g1 = ( ( 1 / rho + eta ) * g - d ) / sqrtl( 1 + eta * eta );
  for ( int j = 1; j <= l; ++j ) {
    LD J = j, g2 = ( ( 2 * J + 1 ) * ( eta + J * ( J + 1 ) / rho ) * g1 - ( J + 1 ) * sqrtl( J * J + eta * eta ) * g0 ) / ( J * sqrtl( ( J + 1 ) * ( J + 1 ) + eta * eta ) );
    g0 = g1; g1 = g2;
  }
  out.G = g0;
  LD L1 = l + 1;
  out.dG = ( ( L1 / rho + eta / L1 ) * g0 ) - sqrtl( L1 * L1 + eta * eta ) / L1 * g1;
  LD fl = cf1( l, rho, eta );
  out.F = 1 / ( fl * out.G - out.dG ); out.dF = fl * out.F;
  return std::isfinite( out.F ) && std::isfinite( out.G );
}
}
#endif
