// Monitors for the charged-particle penetrability, shift factor and phase shift.
#include "resonanceReconstruction.hpp"
#include "vharness.hpp"
#include "refhs.hpp"
#include "refcoul.hpp"
#include "basecoul.hpp"
namespace rm = njoy::resonanceReconstruction::rmatrix;
using namespace vh;

struct PSF { double P = 0, S = 0, phi = 0; bool zero = false; };
struct Err { double P = 0, S = 0, phi = 0; };
static bool exact( int l, double rho, double eta, PSF& e, double& tanphi ) {
  ref::Coulomb c; if ( !ref::coulomb( l, rho, eta, c ) ) return false;
  long double d = c.F * c.F + c.G * c.G;
  e.P = double( rho / d ); e.S = double( rho * ( c.F * c.dF + c.G * c.dG ) / d );
  e.phi = double( atanl( c.F / c.G ) ); tanphi = double( fabsl( c.F / c.G ) );
  return true;
}
static Err errors( const PSF& v, const PSF& e, double tanphi ) {
  Err r;
  r.P = std::fabs( v.P / e.P - 1. ); r.S = std::fabs( v.S - e.S ) / ( 1. + std::fabs( e.S ) );
  double a = std::fabs( std::sin( v.phi - e.phi ) );
  // relative where the phase shift is small (tunnelling), absolute elsewhere; modulo pi
  r.phi = tanphi < 1. ? ( tanphi > 1e-280 ? std::fabs( std::tan( v.phi ) / std::tan( e.phi ) - 1. ) : std::fabs( v.phi ) < 1e-270 ? 0. : 1. ) : a;
  if ( tanphi < 1. && tanphi > 1e-3 ) r.phi = a;
  return r;
}
// how accurate a value has to be: the documented envelope, and not less accurate than the method was
static PSF baseline( int l, double rho, double eta, bool& threw ) {
  PSF v; threw = false; std::complex< double > g, d;
  try { base::coulombWaveFunctions( l, rho, eta, g, d ); } catch ( ... ) { threw = true; return v; }
  double F = g.imag(), G = g.real();
  if ( F == 0. && G == 0. ) { v.zero = true; return v; }
  v.P = rho / ( F * F + G * G ); v.S = v.P * ( F * d.imag() + G * d.real() ); v.phi = std::atan2( F, G );
  return v;
}
static const char* region( double rho, double eta ) {
  if ( eta == 0. ) return "eta=0";
  if ( eta >= 15. ) return rho <= 16. ? "eta>=15 rho<=16" : rho <= 5. * eta / 3. - 5. ? "eta>=15 tunnelling" : "eta>=15 near/after turning point";
  if ( eta >= 5. ) return rho > 2.5 * eta + 7.5 ? "5<=eta<15 far" : rho > 2. * eta ? "5<=eta<15 beyond turning point" : "5<=eta<15 tunnelling";
  return rho > 2. * eta + 10. ? "eta<5 far" : "eta<5 inward";
}
static void point( int l, double rho, double eta ) {
  auto& c = ctx();
  describe( fmt( "l=%d rho=%.17g eta=%.17g", l, rho, eta ) );
  PSF e; double tp;
  if ( !exact( l, rho, eta, e, tp ) ) { c.event( "no reference", {}, false ); return; }
  if ( !( e.P > 1e-280 ) ) { c.event( "not representable", { rho, eta, double( l ) }, false ); return; }
  bool bthrew; PSF b = baseline( l, rho, eta, bthrew );
  PSF v; bool threw = false;
  try {
    v.P = rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), rho, eta );
    v.S = rm::calculateShiftFactor< rm::ChargedParticle >( unsigned( l ), rho, eta );
    v.phi = rm::calculatePhaseShift< rm::ChargedParticle >( unsigned( l ), rho, eta );
  } catch ( ... ) { threw = true; }
  std::string reg = region( rho, eta );
  if ( threw ) {
    if ( !bthrew ) c.fail( "rejected:" + reg, "an exception where a value was available" );
    c.event( "rejected", { rho, eta, double( l ) } ); return;
  }
  if ( std::isnan( v.P ) || std::isnan( v.S ) || std::isnan( v.phi ) ) { c.fail( "nan:" + reg, fmt( "P=%g S=%g phi=%g", v.P, v.S, v.phi ) ); return; }
  if ( v.P == 0. ) {
    if ( !( e.P < 1e-60 ) ) c.fail( "zero-penetrability:" + reg, fmt( "P = 0, exact %.9g", e.P ) );
    c.event( "underflow to zero", { rho, eta, double( l ) } ); return;
  }
  if ( !( v.P > 0. ) ) { c.fail( "negative-penetrability:" + reg, fmt( "P = %.9g", v.P ) ); return; }
  Err x = errors( v, e, tp );
  // envelope of the method: the step of the inward integration is fixed
  double env = rho < 0.2 ? 0.15 : 0.02;
  double limP = env, limS = env, limF = env;
  if ( !bthrew && !b.zero ) {
    Err y = errors( b, e, tp );
    limP = std::min( limP, 1.05 * y.P + 1e-6 ); limS = std::min( limS, 1.05 * y.S + 1e-6 + 1e-8 * rho ); limF = std::min( limF, 1.05 * y.phi + 1e-6 );
  }
  if ( !( x.P <= limP ) ) c.fail( "penetrability:" + reg, fmt( "P=%.12g exact %.12g (error %.2g, allowed %.2g)", v.P, e.P, x.P, limP ) );
  if ( !( x.S <= limS ) ) c.fail( "shift-factor:" + reg, fmt( "S=%.12g exact %.12g (error %.2g, allowed %.2g)", v.S, e.S, x.S, limS ) );
  if ( !( x.phi <= limF ) ) c.fail( "phase-shift:" + reg, fmt( "phi=%.12g exact %.12g mod pi (error %.2g, allowed %.2g)", v.phi, e.phi, x.phi, limF ) );
  c.event( reg, { rho, eta, double( l ), v.P, v.S, v.phi } );
  c.sampleEvery( fmt( "l=%d rho=%.6g eta=%.6g [%s] -> P=%.9g S=%.9g phi=%.9g, errors %.1e %.1e %.1e", l, rho, eta, reg.c_str(), v.P, v.S, v.phi, x.P, x.S, x.phi ) );
}

int main( int argc, char** argv ) {
  init( argc, argv );
  auto& c = ctx();
  if ( c.prop != "C03" && c.prop != "C15" && c.prop != "ALL" ) return 3;
  cases( "physical", 3000, [&] ( Rng& r, long ) {
    point( r.b( 0.8 ) ? r.i( 0, 5 ) : r.i( 6, 12 ), r.logu( 0.05, 20. ), r.logu( 0.01, 60. ) );
  } );
  cases( "wide", 1500, [&] ( Rng& r, long ) {
    point( r.b( 0.8 ) ? r.i( 0, 12 ) : r.i( 13, 60 ), r.logu( 0.02, 150. ), r.logu( 1e-4, 100. ) );
  } );
  cases( "weak", 700, [&] ( Rng& r, long ) {
    // nearly neutral: the limit of vanishing charge is approached, not cut off
    point( r.b( 0.8 ) ? r.i( 0, 6 ) : r.i( 7, 20 ), r.logu( 0.02, 60. ), r.logu( 1e-9, 3e-2 ) );
  } );
  cases( "switches", 2000, [&] ( Rng& r, long ) {
    // either side of every boundary between expansions
    double eta = r.pick( { 5., 15., 2.0, 10., 20., 0.5, 16.5, 30. } ); if ( r.b() ) eta *= 1. + r.sgn() * r.logu( 1e-15, 1e-2 ); else if ( r.b() ) eta = r.logu( 0.1, 40. );
    double rho = r.pick( { 2. * eta, 2.5 * eta + 7.5, 2. * eta + 10., 16., 5. * eta / 3. - 5., eta, 10., 1., eta + std::sqrt( eta * eta + 6. ) } );
    if ( !( rho > 0.05 ) ) rho = 0.3;
    if ( r.b( 0.8 ) ) rho *= 1. + r.sgn() * r.logu( 1e-15, 2e-2 );
    point( r.i( 0, 8 ), rho, eta );
  } );
  cases( "neutral", 1500, [&] ( Rng& r, long ) {
    int l = r.b( 0.8 ) ? r.i( 0, 4 ) : r.i( 5, 40 ); double rho = r.logu( 0.01, 40. );
    describe( fmt( "l=%d rho=%.17g eta=0", l, rho ) );
    auto e = ref::hardSphere( l, rho );
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, 0. ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, 0. ), F = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, 0. );
    if ( e.P < 1e-280 ) { c.event( "eta=0 underflow", { rho, double( l ) } ); return; }
    if ( !near( P, e.P, 1e-7 ) || !near( S, e.S, 1e-7, 1. + 0.1 * rho ) || !( ref::angle( F, e.phi ) < 1e-7 ) )
      c.fail( "neutral-limit", fmt( "l=%d rho=%.12g P=%.12g (%.12g) S=%.12g (%.12g) phi=%.12g (%.12g)", l, rho, P, e.P, S, e.S, F, e.phi ) );
    c.event( "eta=0", { rho, double( l ), P, S, F } );
  } );
  cases( "extreme", 600, [&] ( Rng& r, long ) {
    // very low energies: the Sommerfeld parameter explodes as rho vanishes; a value, zero or an
    // exception, but never anything else
    double k = r.logu( 1e-7, 1. ), eta = r.logu( 0.5, 60. ) / k, rho = k * r.logu( 0.1, 5. ); int l = r.i( 0, 6 );
    if ( eta > 1e7 ) eta = 1e7;
    describe( fmt( "l=%d rho=%.17g eta=%.17g", l, rho, eta ) );
    double P = -1; bool t = throws( [&] { P = rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), rho, eta );
      double S = rm::calculateShiftFactor< rm::ChargedParticle >( unsigned( l ), rho, eta ), F = rm::calculatePhaseShift< rm::ChargedParticle >( unsigned( l ), rho, eta );
      if ( std::isnan( S ) || std::isnan( F ) ) P = NAN; } );
    if ( !t && !( P >= 0. && P < 1e-2 ) && eta > 10. && rho < eta ) c.fail( "extreme", fmt( "P=%g", P ) );
    c.event( t ? "low energy: rejected" : P == 0. ? "low energy: zero" : "low energy: value", { rho, eta, double( l ) } );
  } );
  cases( "large-l", 200, [&] ( Rng& r, long k ) {
    unsigned l = k < 60 ? 190u + unsigned( k ) : r.b() ? unsigned( r.i( 200, 100000 ) ) : 0xffffffffu - unsigned( r.i( 0, 100 ) );
    double rho = r.logu( 0.1, 20. ), eta = r.b() ? 0. : r.logu( 0.01, 20. );
    describe( fmt( "l=%u rho=%.17g eta=%.17g", l, rho, eta ) );
    double P = -1; bool t = throws( [&] { P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ); } );
    // no double can hold G here: rejecting, or zero, are the possible answers
    if ( !t && !( P >= 0. && P < 1e-100 ) ) c.fail( "large-l", fmt( "P=%g", P ) );
    c.event( "l beyond range", { double( l ), rho, eta } );
  } );
  return finish();
}
