// Independent model of Reich-Moore R-matrix theory: plain structs that describe a spin group, and a
// reference evaluation through the level matrix in extended precision (the code under test inverts
// the channel matrix). Used by the monitors of the R-matrix interface.
#ifndef REFRM_HPP
#define REFRM_HPP
#include "vharness.hpp"
#include "refhs.hpp"

namespace model {
using ld = long double;
using cld = std::complex< long double >;

constexpr ld hbarEVs = 6.582119514e-16L, amuKg = 1.660539040e-27L, e0 = 1.6021766208e-19L,
             eps0 = 8.854187817e-12L, PI = 3.14159265358979323846264338327950288L;

struct Par { std::string id; double m, z, s; int p; };     // mass in dalton, charge in e
struct Pair { Par a, b; std::string id; };                 // id empty: a,b
enum Type { NEUTRON, PHOTON, CHARGED, FISSION };

struct Region { int law; std::vector< double > x, y; };
struct Radius {                                            // constant, lin-lin/histogram table, or regions of any law
  std::vector< Region > regions;
  double value = 0; bool table = false; int law = 2; std::vector< double > x, y;
  double at( double e ) const {
    if ( !table ) return value;
    if ( !regions.empty() ) {
      size_t q = 0; while ( q + 1 < regions.size() && e > regions[q].x.back() ) ++q;
      auto& g = regions[q]; size_t k = 0; while ( k + 2 < g.x.size() && e > g.x[k+1] ) ++k;
      if ( e == g.x[k] ) return g.y[k]; if ( e == g.x[k+1] ) return g.y[k+1];
      ld t = ( (ld)e - g.x[k] ) / ( (ld)g.x[k+1] - g.x[k] ), tl = g.law == 3 || g.law == 5 ? logl( (ld)e / g.x[k] ) / logl( (ld)g.x[k+1] / g.x[k] ) : 0;
      switch ( g.law ) {
        case 1: return g.y[k];
        case 2: return double( g.y[k] + t * ( (ld)g.y[k+1] - g.y[k] ) );
        case 3: return double( g.y[k] + tl * ( (ld)g.y[k+1] - g.y[k] ) );
        case 4: return double( g.y[k] * expl( t * logl( (ld)g.y[k+1] / g.y[k] ) ) );
        default: return double( g.y[k] * expl( tl * logl( (ld)g.y[k+1] / g.y[k] ) ) );
      }
    }
    size_t k = 0; while ( k + 2 < x.size() && e > x[k+1] ) ++k;
    if ( law == 1 ) { k = 0; while ( k + 2 < x.size() && e >= x[k+1] ) ++k; return e >= x.back() ? y.back() : y[k]; }
    ld t = ( (ld)e - x[k] ) / ( (ld)x[k+1] - x[k] ); return double( y[k] + t * ( (ld)y[k+1] - y[k] ) );
  }
};
struct Chan {
  Type type; int pair = 0; double Q = 0; int l = 0; double s = 0, J = 0; int parity = 1;
  Radius r[3]; int nr = 1;                                 // number of radii given: 1, 2 or 3
  double bc = 0; std::string id;                           // id empty: the pair's
  double rP( double e ) const { return r[0].at( e ); }
  double rS( double e ) const { return ( nr == 3 ? r[1] : r[0] ).at( e ); }
  double rF( double e ) const { return ( nr == 3 ? r[2] : nr == 2 ? r[1] : r[0] ).at( e ); }
};
struct Res { double e; std::vector< double > g; double ge = 0; };
struct Group { std::vector< Pair > pairs; std::vector< Chan > ch; std::vector< Res > res; bool constant = false; };   // pairs[0]: incident

struct Kin { ld k, eta, P, S, phi, g, Ecm; bool closed; };
// the functions of charged channels are decided by their own property: they are taken from the code
using Charged = std::function< void( const struct Group&, const struct Chan&, double, Kin& ) >;

inline std::string half( double v ) { long n = std::lround( 2 * v ); return n % 2 ? std::to_string( n ) + "/2" : std::to_string( n / 2 ); }
inline std::string pairID( const Pair& p ) { return p.id.empty() ? p.a.id + "," + p.b.id : p.id; }
inline std::string channelID( const Group& g, const Chan& c ) {
  return ( c.id.empty() ? pairID( g.pairs[ c.pair ] ) : c.id ) + "{" + std::to_string( c.l ) + "," + half( c.s ) + "," + half( c.J ) + ( c.parity > 0 ? "+" : "-" ) + "}";
}
inline std::string reactionID( const Group& g, const Chan& c ) {
  return pairID( g.pairs[0] ) + "->" + pairID( g.pairs[ c.pair ] );
}
inline std::string captureID( const Group& g ) { return pairID( g.pairs[0] ) + "->capture"; }

inline Kin kinematics( const Group& g, const Chan& c, double E, const Charged& f ) {
  Kin r{};
  auto& in = g.pairs[0]; auto& p = g.pairs[ c.pair ];
  ld ratio = (ld)in.b.m / ( (ld)in.a.m + in.b.m );
  r.Ecm = (ld)E * ratio + c.Q;
  ld mu = (ld)p.a.m * p.b.m / ( (ld)p.a.m + p.b.m );
  ld hbar = hbarEVs * e0;
  r.k = sqrtl( 2 * mu * amuKg * fabsl( r.Ecm ) * e0 ) / hbar * 1e-14L;      // per root barn
  ld zZ = (ld)p.a.z * p.b.z;
  r.eta = zZ == 0 ? 0 : zZ * e0 * e0 / ( 4 * PI * eps0 ) * mu * amuKg / ( hbar * hbar * ( r.k * 1e14L ) );
  r.g = ( 2 * (ld)c.J + 1 ) / ( 2 * (ld)p.a.s + 1 ) / ( 2 * (ld)p.b.s + 1 );
  r.closed = r.Ecm < 0;
  double xP = double( r.k * c.rP( E ) ), xS = double( r.k * c.rS( E ) ), xF = double( r.k * c.rF( E ) );
  switch ( c.type ) {
    case NEUTRON: r.P = ref::hardSphere( c.l, xP ).P; r.S = ref::hardSphere( c.l, xS ).S; r.phi = ref::hardSphere( c.l, xF ).phi; break;
    case CHARGED: f( g, c, E, r ); break;
    default: r.P = 1; r.S = 0; r.phi = 0;
  }
  return r;
}

using Mat = std::vector< std::vector< cld > >;
inline Mat inverse( Mat a ) {
  int n = int( a.size() ); Mat b( n, std::vector< cld >( n ) ); for ( int i = 0; i < n; ++i ) b[i][i] = 1;
  for ( int i = 0; i < n; ++i ) {
    int p = i; for ( int r = i + 1; r < n; ++r ) if ( std::abs( a[r][i] ) > std::abs( a[p][i] ) ) p = r;
    std::swap( a[i], a[p] ); std::swap( b[i], b[p] );
    cld d = cld( 1 ) / a[i][i];
    for ( int c = 0; c < n; ++c ) { a[i][c] *= d; b[i][c] *= d; }
    for ( int r = 0; r < n; ++r ) if ( r != i ) {
      cld q = a[r][i]; if ( q == cld( 0 ) ) continue;
      for ( int c = 0; c < n; ++c ) { a[r][c] -= q * a[i][c]; b[r][c] -= q * b[i][c]; }
    }
  }
  return b;
}
inline ld norm( const Mat& m ) { ld s = 0; for ( auto& r : m ) for ( auto& v : r ) s += std::norm( v ); return sqrtl( s ); }

struct Result {
  std::vector< Kin > kin; Mat T; std::vector< std::vector< ld > > err; ld amp = 1; ld kappa = 1, wphase = 0;   // T = P^1/2 (1-RL)^-1 R P^1/2, conditioning
  std::vector< std::vector< ld > > sigma;                          // |1-U|^2 per incident channel row; column n is capture
  ld tolT( int a, int b ) const {          // what double precision can be held to
    return 2e-15L * ( 200 * std::abs( T[a][b] ) + 2 * err[a][b] ) * amp + 1e-300L; }
};

inline Result evaluate( const Group& g, double E, const Charged& f ) {
  Result r; int n = int( g.ch.size() ), N = int( g.res.size() );
  for ( auto& c : g.ch ) {
    r.kin.push_back( kinematics( g, c, E, f ) );
    auto& k = r.kin.back();
    if ( k.Ecm != 0 ) r.amp = std::max( r.amp, ( 2 + c.l ) * ( fabsl( k.Ecm ) + 2 * fabsl( c.Q ) ) / fabsl( k.Ecm ) );
  }
  auto L = [&] ( int c ) { return cld( g.constant ? r.kin[c].S - (ld)g.ch[c].bc : 0, r.kin[c].P ); };
  auto gam = [&] ( int q, int c ) -> ld { return r.kin[c].closed ? 0 : (ld)g.res[q].g[c]; };
  // level matrix
  Mat A( N, std::vector< cld >( N ) );
  for ( int a = 0; a < N; ++a ) for ( int b = 0; b < N; ++b ) {
    cld v = 0; if ( a == b ) v = cld( (ld)g.res[a].e - (ld)E, -(ld)g.res[a].ge * g.res[a].ge );
    for ( int c = 0; c < n; ++c ) v -= gam( a, c ) * L( c ) * gam( b, c );
    A[a][b] = v;
  }
  if ( N ) A = inverse( A );
  r.T.assign( n, std::vector< cld >( n ) );
  for ( int c = 0; c < n; ++c ) for ( int d = 0; d < n; ++d ) {
    cld v = 0; for ( int a = 0; a < N; ++a ) for ( int b = 0; b < N; ++b ) v += gam( a, c ) * A[a][b] * gam( b, d );
    r.T[c][d] = v * sqrtl( r.kin[c].P ) * sqrtl( r.kin[d].P );
  }
  // rounding error bound of the channel matrix form (1 - RL)^-1 R in double precision
  Mat M( n, std::vector< cld >( n ) ); std::vector< std::vector< ld > > Ra( n, std::vector< ld >( n ) ), Ma = Ra;
  for ( int c = 0; c < n; ++c ) for ( int d = 0; d < n; ++d ) {
    cld R = 0; for ( int a = 0; a < N; ++a ) { cld t = gam( a, c ) * gam( a, d ) / cld( (ld)g.res[a].e - (ld)E, -(ld)g.res[a].ge * g.res[a].ge ); R += t; Ra[c][d] += std::abs( t ); }
    M[c][d] = cld( c == d ? 1 : 0 ) - R * L( d ); Ma[c][d] = ( c == d ? 1 : 0 ) + Ra[c][d] * std::abs( L( d ) );
  }
  Mat I = inverse( M ); r.kappa = norm( M ) * norm( I );
  ld ra = 0, ma = 0; for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) { ra += Ra[i][j] * Ra[i][j]; ma += Ma[i][j] * Ma[i][j]; }
  ld in = norm( I ), bound = ( 1 + in * sqrtl( ma ) ) * in * sqrtl( ra );
  r.err.assign( n, std::vector< ld >( n ) );
  for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) {
    r.err[i][j] = bound * sqrtl( r.kin[i].P * r.kin[j].P );
    if ( !( r.err[i][j] < 1e30L ) ) r.err[i][j] = 1e30L;
  }
  // size of the Coulomb phase that has to cancel
  for ( int c = 0; c < n; ++c ) for ( int m = 1; m <= g.ch[c].l; ++m ) if ( r.kin[c].eta > 0 ) r.wphase += std::max( m / r.kin[c].eta, (ld)2 ) + 1 / fabsl( sinl( r.kin[c].eta / m ) );
  // cross sections (the Coulomb phase drops out of |exp(2iw) delta - U|^2)
  for ( int c = 0; c < n; ++c ) {
    std::vector< ld > row; ld flux = 0;
    for ( int d = 0; d < n; ++d ) {
      cld W = ( c == d ? cld( 1 ) : cld( 0 ) ) + cld( 0, 2 ) * r.T[c][d];
      cld U = std::exp( cld( 0, -r.kin[c].phi ) ) * W * std::exp( cld( 0, -r.kin[d].phi ) );
      row.push_back( std::norm( ( c == d ? cld( 1 ) : cld( 0 ) ) - U ) ); flux += std::norm( U );
    }
    row.push_back( 1 - flux ); r.sigma.push_back( row );
  }
  return r;
}
}
#endif
