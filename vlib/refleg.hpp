// Model of the legacy resolved and unresolved parameters and their reference cross sections.
#ifndef REFLEG_HPP
#define REFLEG_HPP
#include "buildrm.hpp"
using namespace vh;
using namespace model;
using namespace build;
namespace lr = rm::legacy::resolved;
namespace lu = rm::legacy::unresolved;
using Xs = std::map< rm::ReactionID, nj::CrossSection >;

// ---- the model -------------------------------------------------------------------------------
struct LRes { double e, gn, gg, gf, gx, P, Q, S; };
struct LGroup { Group g; std::vector< LRes > res; double qx = 0; };               // g: one pair, one neutron channel
struct URes { double e, D, gn, gg, gf, gx; };
struct UGroup { Group g; std::vector< URes > res; unsigned de, dc, df, dx; };

inline const Chan& chan( const Group& g ) { return g.ch[0]; }
inline Group randomNeutron( Rng& r, const Group* like = nullptr, int maxl = 4 ) {
  Group g;
  if ( like ) { g.pairs = like->pairs; }
  else { double A = r.b( .2 ) ? r.uni( 1, 12 ) : r.uni( 12, 250 ); g.pairs.push_back( { { "n", 1.00866491582, 0, .5, 1 }, { r.pick( { std::string( "U235" ), std::string( "Fe56" ), std::string( "Rh105_e1" ) } ), A, 0, .5 * r.i( 0, 9 ), 1 }, "" } ); }
  Chan c; c.type = NEUTRON; c.pair = 0; c.l = r.i( 0, maxl ); c.s = r.pick( spins( .5, g.pairs[0].b.s ) ); c.J = r.pick( spins( c.l, c.s ) ); c.parity = r.b() ? 1 : -1;
  c.nr = r.i( 1, 3 ); for ( auto& x : c.r ) x = randomRadius( r, true );
  g.ch.push_back( c ); return g;
}
inline ld shifted( const LGroup& g, double E ) { auto& p = g.g.pairs[0]; return (ld)E + (ld)g.qx * ( (ld)p.a.m + p.b.m ) / p.b.m; }
inline LGroup randomResolved( Rng& r, const Group* like = nullptr ) {
  LGroup g; g.g = randomNeutron( r, like ); auto& c = g.g.ch[0];
  bool table = false; for ( auto& x : c.r ) table |= x.table;
  g.qx = r.b( .5 ) ? 0. : ( r.b( .85 ) ? -1 : 1 ) * r.logu( 1e-1, 1e6 );
  int n = r.b( .08 ) ? 0 : r.b( .2 ) ? 1 : r.i( 2, 8 );
  for ( int k = 0; k < n; ++k ) {
    LRes q; q.e = ( r.b( .2 ) && !table ? -1 : 1 ) * r.logu( 1e-1, 1e6 );
    if ( !g.res.empty() && r.b( .06 ) ) q.e = r.pick( g.res ).e;   // two resonances at one energy
    q.gg = r.b( .1 ) ? 0. : r.logu( 1e-3, 5 ); q.gf = r.b( .6 ) ? 0. : r.logu( 1e-4, 3 ); q.gx = r.b( .5 ) ? 0. : r.logu( 1e-4, 3 );
    if ( r.b( .03 ) ) q.gf = -q.gf;
    auto kin = kinematics( g.g, c, q.e, charged() ); q.P = double( kin.P ); q.S = double( kin.S );
    ld es = shifted( g, q.e ); q.Q = g.qx == 0. ? q.P : double( kinematics( g.g, c, double( table ? fabsl( es ) : es ), charged() ).P );
    q.gn = r.logu( 1e-5, 1e2 ); if ( q.gn > 4e6 * q.P ) q.gn = q.P * r.logu( 1e-3, 4e6 );   // the Wigner limit
    if ( r.b( .1 ) ) { q.P = r.logu( 1e-6, 1 ); q.Q = r.logu( 1e-6, 1 ); q.S = r.uni( -4, 0 ); }   // whatever the caller says
    if ( !( q.P > 1e-200 ) || !( q.Q > 1e-200 ) ) continue;
    g.res.push_back( q );
  }
  return g;
}
inline UGroup randomUnresolved( Rng& r, const Group* like = nullptr, const std::vector< double >* energies = nullptr ) {
  UGroup g; g.g = randomNeutron( r, like, 3 );
  g.de = unsigned( r.b( .05 ) ? 0 : r.i( 1, 4 ) ); g.dc = unsigned( r.i( 0, 4 ) ); g.df = unsigned( r.i( 1, 4 ) ); g.dx = unsigned( r.i( 1, 4 ) );
  bool f = r.b(), x = r.b( .4 ); if ( !f && r.b() ) g.df = 0; if ( !x && r.b() ) g.dx = 0;
  std::vector< double > e; if ( energies ) e = *energies; else { int n = r.b( .2 ) ? 2 : r.i( 2, 9 ); double v = r.logu( 1e1, 1e5 ); for ( int k = 0; k < n && v < 1e9; ++k ) { e.push_back( v ); v *= 1 + r.logu( 1e-3, 20 ); } }
  bool cst = r.b( .3 ); URes q{};
  for ( size_t k = 0; k < e.size(); ++k ) {
    if ( k == 0 || !cst ) { q.D = r.logu( 1e-1, 1e4 ); q.gn = r.b( .03 ) ? 0. : q.D * r.logu( 1e-6, 1e-3 ); q.gg = r.logu( 1e-3, 10 ); q.gf = f && !r.b( .1 ) ? r.logu( 1e-4, 5 ) : 0.; q.gx = x && !r.b( .1 ) ? r.logu( 1e-4, 5 ) : 0.; }
    q.e = e[k]; g.res.push_back( q );
  }
  return g;
}
// ---- the library's objects -------------------------------------------------------------------
template< typename F > lr::SpinGroup< F > make( const LGroup& g ) {
  std::vector< lr::Resonance > v; for ( auto& q : g.res ) v.push_back( lr::Resonance( eV( q.e ), eV( q.gn ), eV( q.gg ), eV( q.gf ), eV( q.gx ), q.P, q.Q, q.S ) );
  return lr::SpinGroup< F >( channelT< rm::Neutron >( g.g, chan( g.g ) ), lr::ResonanceTable( std::move( v ) ), eV( g.qx ) );
}
inline std::vector< lu::Resonance > resonances( const UGroup& g ) { std::vector< lu::Resonance > v; for ( auto& q : g.res ) v.push_back( lu::Resonance( eV( q.e ), eV( q.D ), reV( q.gn ), eV( q.gg ), eV( q.gf ), eV( q.gx ) ) ); return v; }
inline lu::SpinGroup make( const UGroup& g ) { return lu::SpinGroup( channelT< rm::Neutron >( g.g, chan( g.g ) ), lu::ResonanceTable( resonances( g ), lu::Degrees( g.de, g.dc, g.df, g.dx ) ) ); }
inline std::string ltext( const LGroup& g ) { std::string s = text( g.g ) + fmt( " QX=%.10g", g.qx ); for ( auto& q : g.res ) s += fmt( " {%.12g; %.8g %.8g %.8g %.8g; %.6g %.6g %.6g}", q.e, q.gn, q.gg, q.gf, q.gx, q.P, q.Q, q.S ); return s; }
inline std::string utext( const UGroup& g ) { std::string s = text( g.g ) + fmt( " dof %u %u %u %u", g.de, g.dc, g.df, g.dx ); for ( auto& q : g.res ) s += fmt( " {%.12g; D %.8g; %.8g %.8g %.8g %.8g}", q.e, q.D, q.gn, q.gg, q.gf, q.gx ); return s; }
inline std::vector< double > gridOf( const std::vector< nj::Energy >& g ) { std::vector< double > v; for ( auto& e : g ) v.push_back( e.value ); return v; }

// ---- the reference ---------------------------------------------------------------------------
struct Val { ld v = 0, t = 0; void add( ld x, ld tol ) { v += x; t += tol; } };
struct Ref { Val el, ca, fi; };
inline std::string elasticID( const Group& g ) { return pairID( g.pairs[0] ) + "->" + pairID( g.pairs[0] ); }

// Breit-Wigner cross sections of one spin group, without potential scattering
inline Ref resolvedRef( const LGroup& g, double E, bool multi ) {
  auto& c = chan( g.g ); auto k = kinematics( g.g, c, E, charged() ); Ref out; ld F = PI / ( k.k * k.k ) * k.g;
  ld es = shifted( g, E ); ld q = g.qx == 0. ? k.P : es > 0 ? kinematics( g.g, c, double( es ), charged() ).P : 0;
  ld qerr = g.qx == 0. ? 0 : es > 0 ? q * ( 2 * c.l + 2 ) * ( 2e-15L + 4e-16L * ( E + 2 * fabsl( g.qx ) ) / es ) : 0;
  ld rF = k.k * c.rF( E ), dphi = 4e-16L * ( 2 + c.l ) * rF + 1e-15L * fabsl( k.phi ), s1 = sinl( k.phi ), s2 = sinl( 2 * k.phi );
  const ld ep = 4e-15L * ( 1 + c.l );                                              // relative error of P and friends
  struct T { ld n, d, G, den, rel; }; std::vector< T > ts;
  for ( auto& x : g.res ) {
    ld gn = x.gn * k.P / x.P, G = gn + x.gg + x.gf + x.gx * q / x.Q, sh = ( x.S - k.S ) / 2 * x.gn / x.P, d = E - ( x.e + sh ), den = d * d + G * G / 4;
    // absolute errors of the ingredients in double precision
    ld dd = 4e-16L * ( fabsl( E ) + fabsl( x.e ) + fabsl( sh ) ) + 2e-14L * ( fabsl( x.S ) + fabsl( k.S ) + 1e-3L * c.l ) * fabsl( x.gn ) / x.P, dG = ep * ( fabsl( gn ) + fabsl( x.gg ) + fabsl( x.gf ) + fabsl( x.gx ) * q / x.Q ) + x.gx * qerr / x.Q;
    ld rden = ( 2 * fabsl( d ) * dd + dd * dd + fabsl( G ) * dG / 2 ) / den + 4e-15L; if ( !( rden < .05L ) ) for ( auto* v : { &out.el, &out.ca, &out.fi } ) v->t = 1e300L;   // below the resolution of double precision: not decided
    ts.push_back( { gn, d, G, den, rden } );
    ld num = gn - 2 * G * s1 * s1 + 2 * d * s2, numabs = fabsl( gn ) + 2 * fabsl( G ) * s1 * s1 + 2 * fabsl( d * s2 );
    ld dnum = ep * numabs + 2 * dG * s1 * s1 + 2 * dd * fabsl( s2 ) + dphi * ( 4 * fabsl( G * s1 ) + 4 * fabsl( d ) + 4 * dd + 4 * dphi * fabsl( G ) );
    out.el.add( F * gn * num / den, F * fabsl( gn ) / den * ( dnum + numabs * ( rden + ep ) ) + 1e-26L * F );
    out.ca.add( F * gn * x.gg / den, F * fabsl( gn * x.gg ) / den * ( rden + ep ) );
    out.fi.add( F * gn * x.gf / den, F * fabsl( gn * x.gf ) / den * ( rden + ep ) );
  }
  if ( multi ) for ( size_t i = 1; i < ts.size(); ++i ) for ( size_t j = 0; j < i; ++j ) {
    auto &a = ts[i], &b = ts[j]; ld v = F * 2 * a.n * b.n / a.den / b.den, m = a.d * b.d + a.G * b.G / 4, ma = sqrtl( a.den * b.den );
    out.el.add( v * m, fabsl( v ) * ma * 2 * ( a.rel + b.rel + ep + dphi * 0 ) + fabsl( v ) * ( sqrtl( a.den ) * b.rel * sqrtl( b.den ) + sqrtl( b.den ) * a.rel * sqrtl( a.den ) ) );
  }
  return out;
}
inline Val potential( const Group& first, int lmax, double E ) {
  auto k = kinematics( first, chan( first ), E, charged() ); ld rF = k.k * chan( first ).rF( E ); Val v;
  for ( int l = 0; l <= lmax; ++l ) { ld phi = ref::hardSphere( l, double( rF ) ).phi, s = sinl( phi ), dphi = 4e-16L * ( 2 + l ) * rF + 1e-15L * fabsl( phi ); v.add( 4 * PI / ( k.k * k.k ) * ( 2 * l + 1 ) * s * s, 4 * PI / ( k.k * k.k ) * ( 2 * l + 1 ) * ( 2 * fabsl( s ) * dphi + dphi * dphi + 4e-15L * s * s ) ); }
  return v;
}
inline double maxratio = 0;
inline void compare( const Xs& x, const Group& g, const Ref& r, double E, const std::string& key, ld slack = 4 ) {
  auto& c = ctx(); std::string t = pairID( g.pairs[0] );
  auto get = [&] ( const std::string& id ) { auto i = x.find( rm::ReactionID( id ) ); return i == x.end() ? 0. : i->second.value; };
  auto one = [&] ( const char* what, double got, const Val& w ) {
    ld tol = slack * w.t + 1e-14L * fabsl( w.v ) + 1e-290L; ld e = fabsl( got - w.v ); if ( e <= tol ) maxratio = std::max( maxratio, double( e / tol ) );
    if ( !( e <= tol ) ) c.fail( key + "-" + what, fmt( "E=%.17g %s is %.15g instead of %.15Lg (tolerance %.3Lg)", E, what, got, w.v, tol ) ); };
  one( "elastic", get( elasticID( g ) ), r.el ); one( "capture", get( t + "->capture" ), r.ca ); one( "fission", get( t + "->fission" ), r.fi );
  for ( auto& q : x ) { auto s = q.first.symbol(); if ( s != elasticID( g ) && s != t + "->capture" && s != t + "->fission" ) c.fail( key + "-reactions", "unexpected reaction " + s ); }
}
// the ten-point quadrature of MC2-II, as published and as used by NJOY
inline const double QW[10][4] = {
  { 1.1120413E-01, 3.3773418E-02, 3.3376214E-04, 1.7623788E-03 }, { 2.3546798E-01, 7.9932171E-02, 1.8506108E-02, 2.1517749E-02 }, { 2.8440987E-01, 1.2835937E-01, 1.2309946E-01, 8.0979849E-02 }, { 2.2419127E-01, 1.7652616E-01, 2.9918923E-01, 1.8797998E-01 }, { 1.0967668E-01, 2.1347043E-01, 3.3431475E-01, 3.0156335E-01 },
  { 3.0493789E-02, 2.1154965E-01, 1.7766657E-01, 2.9616091E-01 }, { 4.2930874E-03, 1.3365186E-01, 4.2695894E-02, 1.0775649E-01 }, { 2.5827047E-04, 2.2630659E-02, 4.0760575E-03, 2.5171914E-03 }, { 4.9031965E-06, 1.6313638E-05, 1.1766115E-04, 8.9630388E-10 }, { 1.4079206E-08, 2.7453830E-31, 5.0989546E-07, 0.0000000E+00 } };
inline const double QP[10][4] = {
  { 3.0013465E-03, 1.3219203E-02, 1.0004488E-03, 1.3219203E-02 }, { 7.8592886E-02, 7.2349624E-02, 2.6197629E-02, 7.2349624E-02 }, { 4.3282415E-01, 1.9089473E-01, 1.4427472E-01, 1.9089473E-01 }, { 1.3345267E+00, 3.9528842E-01, 4.4484223E-01, 3.9528842E-01 }, { 3.0481846E+00, 7.4083443E-01, 1.0160615E+00, 7.4083443E-01 },
  { 5.8263198E+00, 1.3498293E+00, 1.9421066E+00, 1.3498293E+00 }, { 9.9452656E+00, 2.5297983E+00, 3.3150885E+00, 2.5297983E+00 }, { 1.5782128E+01, 5.2384894E+00, 5.2607092E+00, 5.2384894E+00 }, { 2.3996824E+01, 1.3821772E+01, 7.9989414E+00, 1.3821772E+01 }, { 3.6216208E+01, 7.5647525E+01, 1.2072069E+01, 7.5647525E+01 } };
struct Integrals { ld el = 0, ca = 0, fi = 0, co = 0; };
inline Integrals quadrature( double gn, double gg, double gf, double gx, unsigned de, unsigned df, unsigned dx ) {
  Integrals r; int a = de ? int( de ) - 1 : 0, b = df ? int( df ) - 1 : 0, d = dx ? int( dx ) - 1 : 0;
  for ( int i = 0; i < 10; ++i ) for ( int j = 0; j < ( gf != 0. ? 10 : 1 ); ++j ) for ( int k = 0; k < ( gx != 0. ? 10 : 1 ); ++k ) {
    ld w = (ld)QW[i][a] * ( gf != 0. ? QW[j][b] : 1 ) * ( gx != 0. ? QW[k][d] : 1 ), x = QP[i][a], y = gf != 0. ? QP[j][b] : 0, z = gx != 0. ? QP[k][d] : 0, D = x * gn + gg + y * gf + z * gx;
    r.el += w * x * x / D; r.ca += w * x / D; r.fi += w * x * y / D; r.co += w * x * z / D;
  }
  return r;
}
// exact averages over chi-squared distributions: 1/D = int_0^inf exp(-D t) dt
inline Integrals exact( double gn, double gg, double gf, double gx, unsigned de, unsigned df, unsigned dx ) {
  Integrals r; ld scale = (ld)gn + gg + gf + gx, h = .1L;
  for ( int n = -40; n <= 750; ++n ) {                                    // t = exp(u - exp(-u)) / scale: double exponential rule
    ld u = n * h, t, dt; { ld e = expl( -u ); t = expl( u - e ) / scale; dt = t * ( 1 + e ) * h; }
    if ( !( t > 0 ) || !std::isfinite( double( dt ) ) ) continue;
    auto f = [&] ( double g, unsigned nu, int p ) { ld b = 1 + 2 * (ld)g * t / nu, q = nu % 2 ? sqrtl( b ) : 1, v = 1 / ( nu >= 4 ? b * b : nu >= 2 ? b * q : q ); for ( int k = 0; k < p; ++k ) v /= b; return p == 2 ? v * ( 1 + 2.L / nu ) : v; };
    ld base = expl( -(ld)gg * t ), y0 = gf != 0. ? f( gf, df, 0 ) : 1, y1 = gf != 0. ? f( gf, df, 1 ) : 0, z0 = gx != 0. ? f( gx, dx, 0 ) : 1, z1 = gx != 0. ? f( gx, dx, 1 ) : 0, x1 = f( gn, de, 1 ), x2 = f( gn, de, 2 );
    r.el += dt * base * x2 * y0 * z0; r.ca += dt * base * x1 * y0 * z0; r.fi += dt * base * x1 * y1 * z0; r.co += dt * base * x1 * y0 * z1;
  }
  return r;
}
// how far a fluctuation integral may be from the exact average: as far as the ten-point rule
inline ld allowed( ld q, ld e ) { return 1.05L * fabsl( q - e ) + 1e-6L * fabsl( e ); }
// average cross sections of one spin group, without potential scattering
inline Ref unresolvedRef( const UGroup& g, double E, bool at, size_t idx ) {
  Ref out; auto k = kinematics( g.g, chan( g.g ), E, charged() ); size_t i = 0; while ( i + 2 < g.res.size() && E > g.res[i+1].e ) ++i; ld t = at ? 0 : ( (ld)E - g.res[i].e ) / ( (ld)g.res[i+1].e - g.res[i].e ); if ( at ) i = idx; auto& a = g.res[i]; auto& b = g.res[ at ? i : i + 1 ];
  auto mix = [&] ( double x, double y ) { return double( x + t * ( (ld)y - x ) ); };
  double D = mix( a.D, b.D ), gg = mix( a.gg, b.gg ), gf = mix( a.gf, b.gf ), gx = mix( a.gx, b.gx );
  ld rho = k.k * chan( g.g ).rP( E ), gn = (ld)mix( a.gn, b.gn ) * sqrtl( E ) * g.de * k.P / rho, F = 2 * PI * PI / ( k.k * k.k ) * k.g / D, rF = k.k * chan( g.g ).rF( E ), s = sinl( k.phi ), dphi = 4e-16L * ( 2 + chan( g.g ).l ) * rF + 1e-15L * fabsl( k.phi );
  if ( gn == 0 ) return out;
  auto q = quadrature( double( gn ), gg, gf, gx, g.de, g.df, g.dx ), e = exact( double( gn ), gg, gf, gx, g.de, g.df, g.dx ); ld ep = 1e-12L;
  out.el.add( F * gn * ( gn * e.el - 2 * s * s ), F * gn * ( gn * ( allowed( q.el, e.el ) + ep * e.el ) + ep * 2 * s * s + 4 * fabsl( s ) * dphi + 2 * dphi * dphi ) / 4 );
  out.ca.add( F * gn * gg * e.ca, F * gn * gg * ( allowed( q.ca, e.ca ) + ep * e.ca ) / 4 ); out.fi.add( F * gn * gf * e.fi, F * gn * gf * ( allowed( q.fi, e.fi ) + ep * e.fi ) / 4 );
  return out;
}
#endif
