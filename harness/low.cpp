// Monitors for the code below the R-matrix machinery: hard-sphere functions, the older function
// pair, the Coulomb phase shift and the quantum number enumeration.
#include "resonanceReconstruction.hpp"
#include "vharness.hpp"
#include "refhs.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
using namespace vh;

// arguments: log-uniform over the whole range, the neighbourhood of every sign change or pole of
// the closed forms, exact small integers and simple fractions
static double pickRho( Rng& r ) {
  static const double special[] = {
    1.7320508075688772, 1.5811388300841898, 3.8729833462074170, 3.2403703492039302,
    1.5700849 , 6.5227, 1.0, 2.0, 3.0, 0.5, 4.0, 10.0, 6.0, 1e-3, 1e-8, 0.1, 0.25, 1e2, 1e3,
    1.5707963267948966, 3.141592653589793, 4.71238898038469, 4.493409457909064, 5.763459196894550,
    1.5641, 6.5316, 2.0287578381104342 };
  int k = r.i( 0, 9 );
  if ( k < 5 ) return r.logu( 1e-3, 1e2 );
  if ( k < 7 ) return r.logu( 1e-12, 1e6 );
  if ( k == 7 ) return r.logu( 1e-28, 1e-3 );
  double s = special[ r.i( 0, int( sizeof special / sizeof *special ) - 1 ) ];
  if ( k == 8 ) return r.b() ? s : std::nextafter( s, r.b() ? 0. : 1e9 );
  return s * ( 1. + r.sgn() * r.logu( 1e-15, 1e-3 ) );
}

static void checkHS( const std::string& who, int l, double rho, double P, double S, double phi ) {
  auto e = ref::hardSphere( l, rho );
  auto& c = ctx();
  if ( !near( P, e.P, 1e-11, 0., 1e-300 ) )
    c.fail( who + ":penetrability", fmt( "l=%d rho=%.17g P=%.17g exact %.17g", l, rho, P, e.P ) );
  if ( !near( S, e.S, 1e-11 ) )
    c.fail( who + ":shift-factor", fmt( "l=%d rho=%.17g S=%.17g exact %.17g", l, rho, S, e.S ) );
  if ( !( ref::angle( phi, e.phi ) <= 1e-13 * rho ) )
    c.fail( who + ":phase-shift", fmt( "l=%d rho=%.17g phi=%.17g exact %.17g (mod pi)", l, rho, phi, e.phi ) );
}

static void c01() {
  auto& c = ctx();
  cases( "neutron", 40000, [&] ( Rng& r, long ) {
    int l = r.i( 0, 4 ); double rho = pickRho( r );
    double e1 = r.b() ? 0. : r.logu( 1e-3, 1e3 ), e2 = r.uni( -5., 5. ), e3 = r.logu( 1e-9, 1e9 );
    describe( fmt( "l=%d rho=%.17g", l, rho ) );
    double P = rm::calculatePenetrability< rm::Neutron >( l, rho, e1 );
    double S = rm::calculateShiftFactor< rm::Neutron >( l, rho, e2 );
    double F = rm::calculatePhaseShift< rm::Neutron >( l, rho, e3 );
    checkHS( "neutron", l, rho, P, S, F );
    c.event( fmt( "neutron l=%d", l ), { rho, P, S, F } );
    c.sampleEvery( fmt( "neutron l=%d rho=%.9g -> P=%.9g S=%.9g phi=%.9g", l, rho, P, S, F ) );
  } );
  cases( "other-types", 2000, [&] ( Rng& r, long ) {
    unsigned l = r.b() ? r.i( 0, 6 ) : r.i( 0, 1000 ); double rho = pickRho( r ), eta = r.uni( -10, 10 );
    bool ok = rm::calculatePenetrability< rm::Photon >( l, rho, eta ) == 1.
           && rm::calculatePenetrability< rm::Fission >( l, rho, eta ) == 1.
           && rm::calculateShiftFactor< rm::Photon >( l, rho, eta ) == 0.
           && rm::calculateShiftFactor< rm::Fission >( l, rho, eta ) == 0.
           && rm::calculatePhaseShift< rm::Photon >( l, rho, eta ) == 0.
           && rm::calculatePhaseShift< rm::Fission >( l, rho, eta ) == 0.;
    if ( !ok ) c.fail( "other-types:constants", fmt( "photon/fission P,S,phi not 1,0,0 at l=%u rho=%.17g eta=%.17g", l, rho, eta ) );
    c.event( "photon/fission", { double( l ), rho, eta } );
  } );
  cases( "zero", 5, [&] ( Rng&, long k ) {
    int l = int( k % 5 );
    if ( rm::calculatePenetrability< rm::Neutron >( l, 0., 0. ) != 0. ) c.fail( "neutron:P(0)", fmt( "l=%d", l ) );
    if ( !near( rm::calculateShiftFactor< rm::Neutron >( l, 0., 0. ), -double( l ), 1e-14 ) ) c.fail( "neutron:S(0)", fmt( "l=%d", l ) );
    if ( rm::calculatePhaseShift< rm::Neutron >( l, 0., 0. ) != 0. ) c.fail( "neutron:phi(0)", fmt( "l=%d", l ) );
    c.event( "zero argument", { double( l ) } );
  } );
  cases( "unsupported-l", 300, [&] ( Rng& r, long k ) {
    unsigned l = k < 40 ? 5 + unsigned( k ) : ( r.b() ? unsigned( r.i( 5, 100000 ) ) : 0xffffffffu - unsigned( r.i( 0, 50 ) ) );
    double rho = pickRho( r );
    if ( !throws( [&]{ rm::calculatePenetrability< rm::Neutron >( l, rho, 0. ); } ) ) c.fail( "neutron:P-unsupported-l", fmt( "l=%u accepted", l ) );
    if ( !throws( [&]{ rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. ); } ) ) c.fail( "neutron:S-unsupported-l", fmt( "l=%u accepted", l ) );
    if ( !throws( [&]{ rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. ); } ) ) c.fail( "neutron:phi-unsupported-l", fmt( "l=%u accepted", l ) );
    c.event( "unsupported l rejected", { double( l ), rho } );
  } );
}

static std::array< double, 2 > psObject( int l, double rho ) {
  switch ( l ) {
    case 0: return rr::penetrationShift( rr::Integer< 0 >() )( rho );
    case 1: return rr::penetrationShift( rr::Integer< 1 >() )( rho );
    case 2: return rr::penetrationShift( rr::Integer< 2 >() )( rho );
    case 3: return rr::penetrationShift( rr::Integer< 3 >() )( rho );
    default: return rr::penetrationShift( rr::Integer< 4 >() )( rho );
  }
}

static void c02() {
  auto& c = ctx();
  cases( "open", 40000, [&] ( Rng& r, long ) {
    int l = r.i( 0, 4 ); double rho = pickRho( r );
    describe( fmt( "l=%d rho=%.17g", l, rho ) );
    auto a = psObject( l, rho ), b = rr::penetrationShift( l, rho );
    double f = rr::phaseShift( l, rho );
    checkHS( "factory", l, rho, a[0], a[1], f );
    checkHS( "function", l, rho, b[0], b[1], f );
    c.event( fmt( "open l=%d", l ), { rho, a[0], a[1], f } );
    c.sampleEvery( fmt( "older API l=%d rho=%.9g -> P=%.9g S=%.9g phi=%.9g", l, rho, b[0], b[1], f ) );
  } );
  cases( "agreement", 5000, [&] ( Rng& r, long ) {
    int l = r.i( 0, 4 ); double rho = pickRho( r );
    auto a = psObject( l, rho ), b = rr::penetrationShift( l, rho );
    double P = rm::calculatePenetrability< rm::Neutron >( l, rho, 0. ), S = rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. );
    double F = rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. ), f = rr::phaseShift( l, rho );
    if ( !near( a[0], P, 1e-11, 0., 1e-300 ) || !near( b[0], P, 1e-11, 0., 1e-300 ) || !near( a[1], S, 1e-11 ) || !near( b[1], S, 1e-11 )
         || !( ref::angle( f, F ) <= 2e-13 * rho ) )
      c.fail( "agreement", fmt( "the two implementations differ at l=%d rho=%.17g", l, rho ) );
    c.event( fmt( "two implementations l=%d", l ), { rho, P, S } );
  } );
  cases( "closed", 8000, [&] ( Rng& r, long ) {
    // a closed competitive channel is presented as a negative argument
    int l = r.i( 0, 4 ); double rho = -pickRho( r );
    auto a = psObject( l, rho ), b = rr::penetrationShift( l, rho );
    if ( a[0] != 0. || b[0] != 0. ) c.fail( "closed-penetrability", fmt( "l=%d rho=%.17g P=%.17g", l, rho, a[0] ) );
    auto e = ref::hardSphere( l, -rho );
    if ( !near( a[1], e.S, 1e-11 ) || !near( b[1], e.S, 1e-11 ) ) c.fail( "closed-shift", fmt( "l=%d rho=%.17g S=%.17g", l, rho, a[1] ) );
    c.event( fmt( "closed l=%d", l ), { rho, a[1] } );
  } );
  cases( "zero", 5, [&] ( Rng&, long k ) {
    int l = int( k % 5 ); auto a = psObject( l, 0. ), b = rr::penetrationShift( l, 0. );
    if ( a[0] != 0. || b[0] != 0. || !near( a[1], -double( l ), 1e-14 ) || !near( b[1], -double( l ), 1e-14 ) || rr::phaseShift( l, 0. ) != 0. )
      c.fail( "zero", fmt( "l=%d", l ) );
    c.event( "zero argument", { double( l ) } );
  } );
  cases( "unsupported-l", 300, [&] ( Rng& r, long k ) {
    int l = k < 40 ? 5 + int( k ) : ( r.b() ? r.i( 5, 100000 ) : -r.i( 1, 100 ) ); double rho = pickRho( r );
    if ( !throws( [&]{ rr::penetrationShift( l, rho ); } ) ) c.fail( "P-unsupported-l", fmt( "l=%d accepted", l ) );
    if ( !throws( [&]{ rr::phaseShift( l, rho ); } ) ) c.fail( "phi-unsupported-l", fmt( "l=%d accepted", l ) );
    c.event( "unsupported l rejected", { double( l ), rho } );
  } );
  cases( "unsupported-l-factory", 1, [&] ( Rng& r, long ) {
    double rho = pickRho( r );
    if ( !throws( [&]{ rr::penetrationShift( rr::Integer< 5 >() )( rho ); } ) || !throws( [&]{ rr::penetrationShift( rr::Integer< 6 >() )( rho ); } )
         || !throws( [&]{ rr::penetrationShift( rr::Integer< 17 >() )( rho ); } ) )
      c.fail( "factory-unsupported-l", "accepted" );
    c.event( "unsupported l rejected", { rho } );
  } );
}

static void c04() {
  auto& c = ctx();
  cases( "charged", 20000, [&] ( Rng& r, long k ) {
    int l = k < 64 ? int( k ) : ( r.b() ? r.i( 0, 8 ) : r.i( 0, 60 ) );
    double eta = r.b( 0.7 ) ? r.logu( 1e-3, 1e2 ) : r.logu( 1e-8, 1e6 );
    describe( fmt( "l=%d eta=%.17g", l, eta ) );
    double v = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( l, eta );
    long double at = 0, cot = 0, mag = 0; bool ill = false;
    for ( int n = 1; n <= l; ++n ) {
      long double x = (long double)eta / n; at += atanl( x );
      long double t = 1.L / tanl( x ); cot += t; mag += fabsl( t );
      long double d = fabsl( sinl( x ) * cosl( x ) );
      if ( d < 1e-6L * fmaxl( 1.L, x ) && x > 1e-3L ) ill = true;
    }
    bool good = near( v, double( at ), 1e-12, 0., 1e-15 );
    if ( l == 0 && v != 0. ) c.fail( "nonzero-for-l0", fmt( "%.17g", v ) );
    else if ( !good ) {
      if ( near( v, double( cot ), 0., 0., double( 1e-8L * ( mag + 1e-30L ) ) ) || ( ill && std::fabs( v ) > 1e3 ) )
        c.fail( "sum-of-cot(eta/n)-instead-of-atan(eta/n)", fmt( "l=%d eta=%.9g value %.12g, sum of atan %.12g", l, eta, v, double( at ) ) );
      else c.fail( "not-the-coulomb-phase-shift", fmt( "l=%d eta=%.17g value %.17g, sum of atan %.17g", l, eta, v, double( at ) ) );
    }
    c.event( l == 0 ? "charged l=0" : l < 9 ? "charged l<9" : "charged l>=9", { double( l ), eta, v } );
    c.sampleEvery( fmt( "charged l=%d eta=%.9g -> w=%.12g", l, eta, v ) );
  } );
  cases( "uncharged", 4000, [&] ( Rng& r, long ) {
    int l = r.b() ? r.i( 0, 6 ) : r.i( 0, 100 ); double eta = r.sgn() * r.logu( 1e-8, 1e6 );
    if ( rm::calculateCoulombPhaseShift< rm::Neutron >( l, eta ) != 0. || rm::calculateCoulombPhaseShift< rm::Photon >( l, eta ) != 0.
         || rm::calculateCoulombPhaseShift< rm::Fission >( l, eta ) != 0. )
      c.fail( "nonzero-for-uncharged", fmt( "l=%d eta=%.17g", l, eta ) );
    c.event( "uncharged", { double( l ), eta } );
  } );
}

static std::string half( int twice ) { return twice % 2 ? std::to_string( twice ) + "/2" : std::to_string( twice / 2 ); }

static void c05() {
  auto& c = ctx();
  const int M = c.tier == "thorough" ? 40 : 20, LM = c.tier == "thorough" ? 24 : 12;
  auto show = [] ( const std::vector< double >& v ) { std::string s = "["; for ( double x : v ) s += fmt( "%g ", x ); return s + "]"; };
  // exhaustive over spins 0, 1/2, ..., M/2 and l = 0 ... LM
  if ( c.opt.count( "full" ) && c.only < 0 ) {
    c.family = "enumerated";
    for ( int i = 0; i <= M; ++i ) for ( int I = 0; I <= M; ++I ) {
      std::vector< double > want; for ( int s = std::abs( i - I ); s <= i + I; s += 2 ) want.push_back( s / 2. );
      auto got = rm::possibleChannelSpinValues( i / 2., I / 2. );
      if ( got != want ) c.fail( "channel-spins", fmt( "i=%g I=%g got ", i / 2., I / 2. ) + show( got ) );
      c.event( "channel spin list", { double( i ), double( I ) } );
      if ( i == 1 && I == 3 ) c.sample( "i=1/2 I=3/2 -> s=" + show( got ) );
    }
    for ( int l = 0; l <= LM; ++l ) for ( int s = 0; s <= 2 * M; ++s ) {
      std::vector< double > want; for ( int J = std::abs( 2 * l - s ); J <= 2 * l + s; J += 2 ) want.push_back( J / 2. );
      auto got = rm::possibleChannelTotalAngularMomentumValues( unsigned( l ), s / 2. );
      if ( got != want ) c.fail( "total-J", fmt( "l=%d s=%g got ", l, s / 2. ) + show( got ) );
      c.event( "J list for (l,s)", { double( l ), double( s ) } );
      if ( l == 2 && s == 1 ) c.sample( "l=2 s=1/2 -> J=" + show( got ) );
    }
    for ( int l = 0; l <= LM; ++l ) for ( int i = 0; i <= M; ++i ) for ( int I = 0; I <= M; ++I ) {
      // the union over the channel spins allowed by i and I
      std::set< int > w;
      for ( int s = std::abs( i - I ); s <= i + I; s += 2 ) for ( int J = std::abs( 2 * l - s ); J <= 2 * l + s; J += 2 ) w.insert( J );
      std::vector< double > want; for ( int J : w ) want.push_back( J / 2. );
      auto got = rm::possibleChannelTotalAngularMomentumValues( unsigned( l ), i / 2., I / 2. );
      // listed finding: the enumeration starts at | |l-I| - i |, which is too high for some i >= 1
      std::vector< double > high; for ( int J = std::abs( std::abs( 2 * l - I ) - i ); J <= 2 * l + i + I; J += 2 ) high.push_back( J / 2. );
      if ( got != want && i >= 2 && got == high ) c.fail( "total-J-starts-at-||l-I|-i|-for-i>=1", fmt( "l=%d i=%g I=%g got ", l, i / 2., I / 2. ) + show( got ) );
      else if ( got != want ) c.fail( "total-J-of-target", fmt( "l=%d i=%g I=%g got ", l, i / 2., I / 2. ) + show( got ) + " want " + show( want ) );
      c.event( "J list for (l,i,I)", { double( l ), double( i ), double( I ) } );
      if ( l == 1 && i == 1 && I == 7 ) c.sample( "l=1 i=1/2 I=7/2 -> J=" + show( got ) );
    }
    for ( int l = 0; l <= LM; ++l ) for ( int s = 0; s <= M; ++s ) for ( int J = 0; J <= M + 2 * LM; ++J ) for ( int p = -1; p <= 1; p += 2 ) {
      rm::ChannelQuantumNumbers q( unsigned( l ), s / 2., J / 2., rm::Parity( p ) );
      std::string want = "{" + std::to_string( l ) + "," + half( s ) + "," + half( J ) + ( p > 0 ? "+" : "-" ) + "}";
      if ( q.toString() != want ) c.fail( "label", "got " + q.toString() + " want " + want );
      if ( q.orbitalAngularMomentum() != unsigned( l ) || q.spin() != s / 2. || q.totalAngularMomentum() != J / 2. || q.parity() != p )
        c.fail( "accessors", want );
      rm::ChannelQuantumNumbers q2( q );
      if ( q2.toString() != want ) c.fail( "copy", want );
      c.event( "labels", { double( l ), double( s ), double( J ), double( p ) } );
    }
    c.family = "";
  }
  cases( "large", 2000, [&] ( Rng& r, long ) {
    int i = r.i( 0, 400 ), I = r.i( 0, 400 ), l = r.i( 0, 200 );
    { int s = r.i( 0, 1000 ), J = r.i( 0, 1000 ), p = r.b() ? 1 : -1; rm::ChannelQuantumNumbers q( unsigned( l ), s / 2., J / 2., rm::Parity( p ) );
      std::string want = "{" + std::to_string( l ) + "," + half( s ) + "," + half( J ) + ( p > 0 ? "+" : "-" ) + "}"; if ( q.toString() != want ) c.fail( "label", "got " + q.toString() + " want " + want ); c.event( "large labels", { double( l ), double( s ), double( J ) } ); }
    auto got = rm::possibleChannelSpinValues( i / 2., I / 2. );
    bool ok = got.size() == size_t( std::min( i, I ) + 1 ) && got.front() == std::abs( i - I ) / 2. && got.back() == ( i + I ) / 2.;
    for ( size_t k = 1; k < got.size(); ++k ) ok = ok && got[k] == got[k-1] + 1.;
    if ( !ok ) c.fail( "channel-spins", fmt( "i=%g I=%g", i / 2., I / 2. ) );
    auto J = rm::possibleChannelTotalAngularMomentumValues( unsigned( l ), I / 2. );
    ok = J.size() == size_t( std::min( 2 * l, I ) + 1 ) && J.front() == std::abs( 2 * l - I ) / 2. && J.back() == l + I / 2.;
    for ( size_t k = 1; k < J.size(); ++k ) ok = ok && J[k] == J[k-1] + 1.;
    if ( !ok ) c.fail( "total-J", fmt( "l=%d s=%g", l, I / 2. ) );
    // total number of magnetic substates is conserved
    double sum = 0; for ( double s : got ) sum += 2 * s + 1;
    if ( sum != ( i + 1. ) * ( I + 1. ) ) c.fail( "substates", fmt( "i=%g I=%g", i / 2., I / 2. ) );
    sum = 0; for ( double j : J ) sum += 2 * j + 1;
    if ( sum != ( 2 * l + 1. ) * ( I + 1. ) ) c.fail( "substates-J", fmt( "l=%d s=%g", l, I / 2. ) );
    c.event( "large spins", { double( i ), double( I ), double( l ) } );
  } );
}

int main( int argc, char** argv ) {
  init( argc, argv );
  auto p = ctx().prop;
  if ( p == "C15" || p == "ALL" ) { c01(); c02(); c04(); c05(); } else if ( p == "C01" ) c01(); else if ( p == "C02" ) c02(); else if ( p == "C04" ) c04(); else if ( p == "C05" ) c05(); else return 3;
  return finish();
}
