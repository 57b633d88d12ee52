// Expected cross sections of a set of spin groups (reference and tolerance per reaction).
#ifndef REFXS_HPP
#define REFXS_HPP
#include "refrm.hpp"
namespace model {
struct Expect { std::map< std::string, ld > v, t; };
inline ld tolerance( const Group& g, const Result& ref, int c, int d, double E ) {
  auto rho = [&] ( int q ) -> ld { return g.ch[q].type == NEUTRON || g.ch[q].type == CHARGED ? ref.kin[q].k * g.ch[q].rF( E ) : 0; };
  ld x = rho( c ) + rho( d );
  return 2 * ref.tolT( c, d ) + 2e-15L * ( 8 + x + ref.wphase ) + 3e-15L * ref.amp * ( std::abs( ref.T[c][d] ) + fabsl( sinl( ref.kin[c].phi ) ) );
}
inline void addXs( const Group& g, const Result& ref, double E, Expect& out ) {
  int n = int( g.ch.size() );
  for ( int a = 0; a < n; ++a ) if ( g.ch[a].pair == 0 ) {
    ld f = PI / ( ref.kin[a].k * ref.kin[a].k ) * ref.kin[a].g, tc = 0;
    for ( int b = 0; b < n; ++b ) {
      ld s = ref.sigma[a][b], e = tolerance( g, ref, a, b, E ); auto id = reactionID( g, g.ch[b] );
      out.v[id] += f * s; out.t[id] += f * ( 2 * sqrtl( s ) * e + e * e + 1e-14L * ref.amp * s );
      ld u = std::abs( cld( a == b ? 1 : 0 ) + cld( 0, 2 ) * ref.T[a][b] ); tc += 2 * u * e + e * e;
    }
    out.v[ captureID( g ) ] += f * ref.sigma[a][n]; out.t[ captureID( g ) ] += f * ( tc + 4e-15L * ref.amp );
  }
}
inline bool conditioned( const Group& g, const Result& ref ) {
  if ( !( ref.amp < 1e7L ) ) return false;
  for ( size_t a = 0; a < g.ch.size(); ++a ) {
    if ( !( ref.kin[a].P >= 0 ) || !std::isfinite( double( ref.kin[a].S ) ) ) return false;
    for ( size_t b = 0; b < g.ch.size(); ++b ) if ( !( ref.tolT( int( a ), int( b ) ) < 1e-6L ) ) return false;
  }
  return true;
}
}
#endif
