// Turns the plain model of a spin group into the library's objects, and generates random ones.
#ifndef BUILDRM_HPP
#define BUILDRM_HPP
#include "resonanceReconstruction.hpp"
#include "refrm.hpp"
namespace nj = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

namespace build {
using namespace model;
using nj::Energy; using nj::Barn;
inline nj::Energy eV( double v ) { return v * dimwits::electronVolt; }
inline nj::ReducedWidth reV( double v ) { return v * nj::rootElectronVolt; }

inline rm::Particle particle( const Par& p ) {
  return rm::Particle( rm::ParticleID( p.id ), p.m * dimwits::daltons, p.z * dimwits::constant::elementaryCharge, p.s, short( p.p ) ); }
inline rm::ParticlePair pair( const Pair& p ) {
  if ( p.id.empty() ) return rm::ParticlePair( particle( p.a ), particle( p.b ) );
  return rm::ParticlePair( particle( p.a ), particle( p.b ), rm::ParticlePairID( p.id ) );
}
inline std::variant< nj::ChannelRadius, rm::ChannelRadiusTable > radius( const Radius& r ) {
  if ( !r.table ) return nj::ChannelRadius( r.value * nj::rootBarn );
  std::vector< nj::Energy > x; std::vector< nj::ChannelRadius > y;
  for ( double v : r.x ) x.push_back( eV( v ) );
  for ( double v : r.y ) y.push_back( v * nj::rootBarn );
  using V = rm::TableVariant< nj::Energy, nj::ChannelRadius >;
  std::vector< V > t;
  if ( r.law == 1 ) t.push_back( V( rm::HistogramTable< nj::Energy, nj::ChannelRadius >( std::move( x ), std::move( y ) ) ) );
  else t.push_back( V( rm::LinLinTable< nj::Energy, nj::ChannelRadius >( std::move( x ), std::move( y ) ) ) );
  return rm::ChannelRadiusTable( rm::MultiRegionTable< nj::Energy, nj::ChannelRadius >( std::move( t ) ) );
}
inline rm::ChannelRadii radii( const Chan& c ) {
  if ( c.nr == 1 ) return rm::ChannelRadii( radius( c.r[0] ) );
  if ( c.nr == 2 ) return rm::ChannelRadii( radius( c.r[0] ), radius( c.r[1] ) );
  return rm::ChannelRadii( radius( c.r[0] ), radius( c.r[1] ), radius( c.r[2] ) );
}
template< typename T > rm::Channel< T > channelT( const Group& g, const Chan& c ) {
  rm::ChannelQuantumNumbers n( unsigned( c.l ), c.s, c.J, short( c.parity ) );
  if ( c.bc == 0. )                                           // zero is the documented default
    return c.id.empty() ? rm::Channel< T >( pair( g.pairs[0] ), pair( g.pairs[ c.pair ] ), eV( c.Q ), n, radii( c ) ) : rm::Channel< T >( pair( g.pairs[0] ), pair( g.pairs[ c.pair ] ), c.id, eV( c.Q ), n, radii( c ) );
  if ( c.id.empty() ) return rm::Channel< T >( pair( g.pairs[0] ), pair( g.pairs[ c.pair ] ), eV( c.Q ), n, radii( c ), c.bc );
  return rm::Channel< T >( pair( g.pairs[0] ), pair( g.pairs[ c.pair ] ), c.id, eV( c.Q ), n, radii( c ), c.bc );
}
// the functions of a charged channel are taken from the channel itself: they have properties of their own
inline const Charged& charged() {
  static const Charged c = [] ( const Group& g, const Chan& c, double E, Kin& k ) {
    auto x = channelT< rm::ChargedParticle >( g, c );
    k.P = x.penetrability( eV( E ) ); k.S = x.shiftFactor( eV( E ) ); k.phi = x.phaseShift( eV( E ) ); };
  return c;
}
inline rm::ParticleChannel channel( const Group& g, const Chan& c ) {
  switch ( c.type ) {
    case NEUTRON: return channelT< rm::Neutron >( g, c );
    case PHOTON: return channelT< rm::Photon >( g, c );
    case CHARGED: return channelT< rm::ChargedParticle >( g, c );
    default: return channelT< rm::Fission >( g, c );
  }
}
inline std::vector< rm::ParticleChannel > channels( const Group& g ) {
  std::vector< rm::ParticleChannel > r; for ( auto& c : g.ch ) r.push_back( channel( g, c ) ); return r; }
inline std::vector< rm::ChannelID > ids( const Group& g ) {
  std::vector< rm::ChannelID > r; for ( auto& c : g.ch ) r.push_back( channelID( g, c ) ); return r; }
inline rm::Resonance resonance( const Res& q ) {
  std::vector< nj::ReducedWidth > w; for ( double v : q.g ) w.push_back( reV( v ) );
  if ( q.ge == 0. ) return rm::Resonance( eV( q.e ), std::move( w ) );   // zero is the documented default
  return rm::Resonance( eV( q.e ), std::move( w ), reV( q.ge ) ); }
inline rm::ResonanceTable table( const Group& g ) {
  std::vector< rm::Resonance > r; for ( auto& q : g.res ) r.push_back( resonance( q ) );
  return rm::ResonanceTable( ids( g ), std::move( r ) ); }
template< typename B > rm::SpinGroup< rm::ReichMoore, B > group( const Group& g ) {
  return rm::SpinGroup< rm::ReichMoore, B >( channels( g ), table( g ) ); }

// the same data as one list of energies and widths per channel; zero widths may be left out
inline std::vector< rm::ParticleChannelData > data( const Group& g, vh::Rng& r, bool eliminated ) {
  std::vector< rm::ParticleChannelData > out;
  for ( size_t c = 0; c < g.ch.size(); ++c ) {
    std::vector< nj::Energy > e; std::vector< nj::ReducedWidth > w;
    for ( auto& q : g.res ) if ( q.g[c] != 0. || r.b( .7 ) || c == 0 ) { e.push_back( eV( q.e ) ); w.push_back( reV( q.g[c] ) ); }
    out.push_back( rm::ParticleChannelData( channel( g, g.ch[c] ), std::move( e ), std::move( w ) ) );
  }
  if ( eliminated ) {
    Chan c; c.type = PHOTON; c.J = g.ch[0].J; c.s = c.J; c.parity = g.ch[0].parity; c.id = "eliminated";
    Group h = g; h.pairs.push_back( { { "g", 0, 0, 1, 1 }, { "Ag108", 107., 47, 0, 1 }, "" } ); c.pair = int( h.pairs.size() ) - 1;
    std::vector< nj::Energy > e; std::vector< nj::ReducedWidth > w;
    for ( auto& q : g.res ) { e.push_back( eV( q.e ) ); w.push_back( reV( q.ge ) ); }
    out.insert( out.begin() + r.i( 0, int( out.size() ) ), rm::ParticleChannelData( channel( h, c ), std::move( e ), std::move( w ), true ) );
  }
  return out;
}

// ---- random spin groups ----------------------------------------------------------------------
struct Options { bool charged = true, chargedIncident = true, tables = true, capture = true, thresholds = true; int maxch = 6, maxres = 6; };

inline Radius randomRadius( vh::Rng& r, bool tables ) {
  Radius q; q.value = r.uni( .1, 1.4 );
  if ( tables && r.b( .12 ) ) {
    q.table = true; q.law = r.b( .3 ) ? 1 : 2;
    double e = 1e-12; int n = r.i( 2, 6 );
    for ( int i = 0; i < n; ++i ) { q.x.push_back( i + 1 == n ? 1e10 : e ); q.y.push_back( r.uni( .1, 1.4 ) ); e = e < 1e-6 ? r.logu( 1e-5, 10 ) : e * r.logu( 2, 1e3 ); }
  }
  return q;
}
inline std::vector< double > spins( double a, double b ) { std::vector< double > v; for ( double s = std::fabs( a - b ); s <= a + b + .1; s += 1 ) v.push_back( s ); return v; }

inline Group randomGroup( vh::Rng& r, const Options& o = Options(), double Jwanted = -1, int parity = 0, const Group* like = nullptr ) {
  Group g;
#ifdef BCONST
  g.constant = true;
#endif
  double A = r.b( .2 ) ? r.uni( 2, 8 ) : r.uni( 8, 250 ), I = .5 * r.i( 0, 9 );
  int Z = std::max( 1, int( A * .45 ) );
  Par n{ "n", 1.00866491582, 0, .5, 1 }, p{ "p", 1.00727646688, 1, .5, 1 }, al{ "he4", 4.00150617, 2, 0, 1 }, ga{ "g", 0, 0, 1, 1 };
  auto tgt = [&] ( const char* id, double m, double z, double s ) { return Par{ id, m, z, s, r.b() ? 1 : -1 }; };
  if ( like ) { g.pairs = like->pairs; }
  else {
    bool ci = o.charged && o.chargedIncident && r.b( .25 );
    g.pairs.push_back( { ci ? ( r.b() ? p : al ) : n, tgt( "Fe56", A, Z, I ), "" } );
    g.pairs.push_back( { n, tgt( "Fe56_e1", A, Z, .5 * r.i( 0, 8 ) ), ci ? "" : "" } );
    g.pairs.push_back( { p, tgt( ci ? "Co56" : "Mn56", A, Z > 1 ? Z - 1 : 1, .5 * r.i( 0, 8 ) ), "" } );
    g.pairs.push_back( { al, tgt( "Cr53", std::max( 1., A - 3 ), std::max( 1, Z - 2 ), .5 * r.i( 0, 8 ) ), "" } );
    g.pairs.push_back( { { "g", 0, 0, 1, 1 }, tgt( "Fe57", A + 1, Z, .5 * r.i( 0, 8 ) ), "" } );
    g.pairs.push_back( { g.pairs[0].a, g.pairs[0].b, "fission" } );
    for ( auto& q : g.pairs ) if ( q.a.id == "g" ) q.a.id = "photon";
  }
  I = g.pairs[0].b.s; double ia = g.pairs[0].a.s;
  bool ci = g.pairs[0].a.z > 0;
  // an incident channel fixes J
  Chan in; in.type = ci ? CHARGED : NEUTRON; in.pair = 0; in.Q = 0; in.l = r.i( 0, ci ? 6 : 4 );
  for ( int t = 0; t < 200; ++t ) {
    in.l = r.i( 0, ci ? 6 : 4 ); in.s = r.pick( spins( ia, I ) ); in.J = r.pick( spins( in.l, in.s ) );
    if ( Jwanted < 0 || in.J == Jwanted ) break;
    if ( t == 199 ) { in.s = spins( ia, I ).back(); in.l = 0; in.J = in.s; }
  }
  g.ch.clear();
  in.parity = parity ? parity : r.b() ? 1 : -1;
  auto setRadii = [&] ( Chan& c ) { c.nr = r.i( 1, 3 ); for ( auto& x : c.r ) x = randomRadius( r, o.tables ); c.bc = r.b( .3 ) ? 0. : r.uni( -4, 1 ); };
  setRadii( in ); g.ch.push_back( in );
  int want = r.b( .25 ) ? 1 : r.i( 1, o.maxch );
  std::set< std::string > seen{ channelID( g, in ) };
  for ( int t = 0; t < 60 && int( g.ch.size() ) < want; ++t ) {
    Chan c; c.J = in.J; c.parity = in.parity;
    c.pair = r.b( .35 ) ? 0 : r.i( 1, 5 );
    auto& q = g.pairs[ c.pair ];
    c.type = c.pair == 5 ? FISSION : c.pair == 4 ? PHOTON : q.a.z > 0 ? CHARGED : NEUTRON;
    if ( c.type == CHARGED && !o.charged ) continue;
    c.s = r.pick( spins( q.a.s, q.b.s ) );
    auto ls = spins( c.J, c.s ); std::vector< int > l; for ( double v : ls ) if ( v == std::floor( v ) && v <= ( c.type == NEUTRON ? 4 : 6 ) ) l.push_back( int( v ) );
    if ( l.empty() ) continue;
    c.l = r.pick( l );
    if ( c.type == FISSION ) { c.id = "fission" + std::to_string( r.i( 1, 4 ) ); }
    if ( c.pair == 1 && o.thresholds ) c.Q = -r.logu( 1e2, 3e6 );
    if ( c.pair == 2 || c.pair == 3 ) c.Q = o.thresholds ? r.sgn() * r.logu( 1e3, 5e6 ) : r.logu( 1e3, 5e6 );
    if ( c.pair == 4 ) c.Q = r.b() ? 0. : r.uni( 1e6, 9e6 );
    if ( like ) for ( auto& x : like->ch ) if ( x.pair == c.pair ) c.Q = x.Q;
    for ( auto& x : g.ch ) if ( x.pair == c.pair ) c.Q = x.Q;
    setRadii( c );
    if ( !seen.insert( channelID( g, c ) ).second ) continue;
    g.ch.insert( g.ch.begin() + r.i( 0, int( g.ch.size() ) ), c );
  }
  int N = r.b( .1 ) ? 0 : r.i( 1, o.maxres );
  std::set< double > used;
  for ( int k = 0; k < N; ++k ) {
    Res q; q.e = r.b( .2 ) ? -r.logu( 1e-1, 1e4 ) : r.logu( ci ? 1e4 : 1e-1, 3e6 );
    if ( !used.insert( q.e ).second ) continue;
    for ( auto& c : g.ch ) {
      double P = 1; try { P = double( kinematics( g, c, std::fabs( q.e ), charged() ).P ); } catch ( ... ) {}
      double G = r.logu( 1e-5, 1e3 ) * ( ci ? 1e2 : 1. );
      double v = r.b( .15 ) ? 0. : r.sgn() * ( P > 1e-12 && r.b( .8 ) ? std::sqrt( G / 2 / P ) : r.logu( 1e-3, 30 ) );
      if ( std::fabs( v ) > 1500. ) v = r.sgn() * r.logu( 1e-2, 1500 );     // the Wigner limit
      q.g.push_back( v );
    }
    q.ge = !o.capture || r.b( .15 ) ? 0. : r.sgn() * std::sqrt( r.logu( 1e-3, 10 ) / 2 );
    g.res.push_back( q );
  }
  return g;
}
// energies of interest for a group
inline double randomEnergy( vh::Rng& r, const std::vector< const Group* >& gs ) {
  const Group& g = *r.pick( gs ); bool ci = g.pairs[0].a.z > 0;
  double u = r.u();
  if ( u < .35 && g.res.size() ) {
    auto& q = r.pick( g.res ); double e = std::fabs( q.e ) * ( 1 + r.sgn() * r.logu( 1e-9, .3 ) );
    if ( r.b( .1 ) && q.ge != 0. ) e = std::fabs( q.e );
    return e;
  }
  if ( u < .5 ) for ( auto& c : g.ch ) if ( c.Q < 0 && r.b() ) {
    double t = -c.Q * ( g.pairs[0].a.m + g.pairs[0].b.m ) / g.pairs[0].b.m; return t * ( 1 + r.sgn() * r.logu( 1e-4, .5 ) ); }
  return ci ? r.logu( 1e4, 8e6 ) : r.logu( 1e-5, 8e6 );
}
inline std::string text( const Group& g ) {
  std::string s = vh::fmt( "%s incident %s masses %.10g %.10g;", g.constant ? "constant-B" : "shift-factor", pairID( g.pairs[0] ).c_str(), g.pairs[0].a.m, g.pairs[0].b.m );
  for ( auto& c : g.ch ) s += vh::fmt( " [%s type%d Q=%.8g nr=%d r=%.6g%s bc=%.4g]", channelID( g, c ).c_str(), int( c.type ), c.Q, c.nr, c.r[0].value, c.r[0].table ? "(table)" : "", c.bc );
  for ( auto& q : g.res ) { s += vh::fmt( " {%.12g;", q.e ); for ( double v : q.g ) s += vh::fmt( " %.8g", v ); s += vh::fmt( "; %.8g}", q.ge ); }
  return s;
}
}
#endif
