// Monitors for the R-matrix interface: cross sections, T matrix, kinematics, grids, validation, purity.
#include "buildrm.hpp"
#include <thread>
#include <atomic>
using namespace vh;
using namespace build;
using Xs = std::map< rm::ReactionID, nj::CrossSection >;
using Tm = std::map< rm::ReactionChannelID, std::complex< double > >;
#ifdef BCONST
using BT = rm::Constant;
#else
using BT = rm::ShiftFactor;
#endif
template< typename B > using SG = rm::SpinGroup< rm::ReichMoore, B >;
template< typename B > using CS = rm::CompoundSystem< rm::ReichMoore, B >;

static std::vector< double > gridOf( const std::vector< nj::Energy >& g ) { std::vector< double > v; for ( auto& e : g ) v.push_back( e.value ); return v; }
static double maxratio = 0;
// per-channel-pair tolerance on an element of U
static ld tolU( const Group& g, const Result& ref, int c, int d, double E ) {
  ld x = ref.kin[c].k * g.ch[c].rF( E ) + ref.kin[d].k * g.ch[d].rF( E );
  return 2 * ref.tolT( c, d ) + 2e-15L * ( 8 + x + ref.wphase ) + 3e-15L * ref.amp * ( std::abs( ref.T[c][d] ) + fabsl( sinl( ref.kin[c].phi ) ) );
}
// compares evaluated cross sections with the reference; sums over incident channels per reaction
static void compareXs( const Group& g, const Result& ref, double E, const Xs& xs, const std::string& key, ld scale = 1 ) {
  auto& c = ctx(); int n = int( g.ch.size() );
  std::map< std::string, ld > want, tol; int first = -1;
  for ( int a = 0; a < n; ++a ) if ( g.ch[a].pair == 0 ) {
    if ( first < 0 ) first = a;
    ld f = PI / ( ref.kin[first].k * ref.kin[first].k ) * ref.kin[first].g * scale;
    ld tc = 0;
    for ( int b = 0; b < n; ++b ) {
      ld s = ref.sigma[a][b], e = tolU( g, ref, a, b, E );
      auto id = reactionID( g, g.ch[b] );
      want[id] += f * s; tol[id] += f * ( 2 * sqrtl( s ) * e + e * e + 1e-14L * ref.amp * s );
      ld u = std::abs( cld( a == b ? 1 : 0 ) + cld( 0, 2 ) * ref.T[a][b] ); tc += 2 * u * e + e * e;
    }
    want[ captureID( g ) ] += f * ref.sigma[a][n]; tol[ captureID( g ) ] += f * ( tc + 4e-15L * ref.amp );
  }
  if ( xs.size() != want.size() ) c.fail( key + "-reactions", fmt( "%zu reactions instead of %zu", xs.size(), want.size() ) );
  for ( auto& w : want ) {
    auto it = xs.find( rm::ReactionID( w.first ) );
    if ( it == xs.end() ) { c.fail( key + "-reactions", "missing reaction " + w.first ); continue; }
    double v = it->second.value; ld d = fabsl( v - w.second );
    if ( !( d <= tol[ w.first ] ) ) c.fail( key, fmt( "E=%.17g %s is %.12g instead of %.12Lg (allowed %.2Lg)", E, w.first.c_str(), v, w.second, tol[ w.first ] ) );
    if ( tol[ w.first ] > 0 ) maxratio = std::max( maxratio, double( d / tol[ w.first ] ) );
  }
}
static std::string kindOf( const Group& g, const Result& ref ) {
  std::string s = g.constant ? "constant B" : "shift factor";
  bool closed = false, ch = false, ph = false, fi = false, neg = false, multi = 0; int inc = 0;
  for ( size_t a = 0; a < g.ch.size(); ++a ) { closed |= ref.kin[a].closed; ch |= g.ch[a].type == CHARGED; ph |= g.ch[a].type == PHOTON; fi |= g.ch[a].type == FISSION; inc += g.ch[a].pair == 0; }
  if ( g.res.empty() ) return s + ", no resonances";
  if ( g.ch.size() == 1 ) s += ", one channel"; else s += inc > 1 ? ", several incident channels" : ", several channels";
  if ( g.pairs[0].a.z > 0 ) s += ", charged incident"; else if ( ch ) s += ", charged exit";
  if ( ph ) s += ", photon"; if ( fi ) s += ", fission"; if ( closed ) s += ", closed channel";
  return s;
}
static bool wellConditioned( const Group& g, const Result& ref ) {
  if ( !( ref.amp < 1e7L ) ) return false;
  for ( size_t a = 0; a < g.ch.size(); ++a ) {
    if ( !( ref.kin[a].P >= 0 ) || !std::isfinite( double( ref.kin[a].S ) ) ) return false;
    for ( size_t b = 0; b < g.ch.size(); ++b ) if ( !( ref.tolT( int( a ), int( b ) ) < 1e-6L ) ) return false;
  }
  return true;
}
template< typename F > void withGroup( const Group& g, F f ) {
  auto s = group< BT >( g ); f( s ); }
template< typename B > SG< B > fromData( const Group& g, Rng& r, bool elim ) { return SG< B >( data( g, r, elim ) ); }

#if defined( P06 ) || defined( PALL )
// ---- C06 -------------------------------------------------------------------------------------
static Group sorted( Group g ) { std::sort( g.res.begin(), g.res.end(), [] ( auto& a, auto& b ) { return a.e < b.e; } ); return g; }
static void c06() {
  auto& c = ctx();
  cases( "groups", 700, [&] ( Rng& r, long ) {
    Group g = randomGroup( r ); describe( text( g ) );
    bool viaData = r.b( .3 ), elim = false;
    if ( viaData ) { for ( auto& q : g.res ) elim |= q.ge != 0.; elim |= r.b( .3 ); g = sorted( g ); describe( "channel data: " + text( g ) ); }
    auto run = [&] ( auto& s ) {
      for ( int k = 0; k < 8; ++k ) {
        double E = randomEnergy( r, { &g } );
        Result ref; try { ref = model::evaluate( g, E, charged() ); } catch ( ... ) { c.event( "no Coulomb functions", { E }, false ); continue; }
        if ( !wellConditioned( g, ref ) ) { c.event( "ill-conditioned", { E }, false ); continue; }
        Xs xs; s.evaluate( eV( E ), xs );
        compareXs( g, ref, E, xs, "cross-sections" );
        c.event( kindOf( g, ref ) + ( viaData ? ", from channel data" : "" ), { E, double( ref.sigma[0][0] ), xs.begin()->second.value } );
        c.sampleEvery( fmt( "E=%.6g %s=%.9g (reference %.9Lg) of %zu channels, %zu resonances", E, xs.begin()->first.symbol().c_str(), xs.begin()->second.value, ref.sigma[0][0], g.ch.size(), g.res.size() ) );
      }
    };
    if ( !viaData ) withGroup( g, run );
    else { auto s = fromData< BT >( g, r, elim ); run( s ); }
  } );
  // exactly at a resonance without capture width: the R matrix has a pole there, the cross section does not
  cases( "at the pole", 20, [&] ( Rng& r, long ) {
    Options o; o.capture = false; o.charged = false; o.thresholds = false; Group g = randomGroup( r, o ); g.res.clear();
    for ( int k = 0; k < r.i( 1, 3 ); ++k ) { Res q; q.e = r.logu( 1, 1e5 ); for ( auto& x : g.ch ) { (void)x; q.g.push_back( r.sgn() * r.uni( .1, 3 ) ); } g.res.push_back( q ); }
    double E = g.res[0].e; describe( text( g ) );
    auto ref = model::evaluate( g, E, charged() );
    withGroup( g, [&] ( auto& s ) {
      Xs xs; s.evaluate( eV( E ), xs ); bool finite = true; for ( auto& x : xs ) finite &= std::isfinite( x.second.value );
      if ( !finite ) c.fail( "not-finite-at-a-resonance-energy-without-eliminated-width", fmt( "E=%.17g (a point of the grid): not a number instead of %.10Lg", E, ref.sigma[0][0] ) );
    } );
    c.event( "at a resonance energy without capture", { E } );
  } );
  cases( "compound", 120, [&] ( Rng& r, long ) {
    Options o; o.maxch = 4; o.maxres = 3;
    std::vector< Group > gs{ randomGroup( r, o ) }; std::set< std::pair< double, int > > seen{ { gs[0].ch[0].J, gs[0].ch[0].parity } };
    for ( int k = 0; k < 5; ++k ) { auto g = randomGroup( r, o, -1, 0, &gs[0] ); g.constant = gs[0].constant; if ( seen.insert( { g.ch[0].J, g.ch[0].parity } ).second ) gs.push_back( g ); }
    bool viaData = r.b(); std::string d; for ( auto& g : gs ) { bool e = false; for ( auto& q : g.res ) e |= q.ge != 0.; if ( viaData ) g = sorted( g ); d += text( g ) + " | "; }
    describe( d );
    auto run = [&] ( auto& s ) {
      for ( int k = 0; k < 3; ++k ) {
        std::vector< const Group* > p; for ( auto& g : gs ) p.push_back( &g );
        double E = randomEnergy( r, p );
        // reference per group, summed
        std::map< std::string, ld > want, tol; bool ok = true;
        for ( auto& g : gs ) {
          Result ref; try { ref = model::evaluate( g, E, charged() ); } catch ( ... ) { ok = false; break; }
          if ( !wellConditioned( g, ref ) ) { ok = false; break; }
          int n = int( g.ch.size() ), first = -1;
          for ( int a = 0; a < n; ++a ) if ( g.ch[a].pair == 0 ) {
            if ( first < 0 ) first = a; ld f = PI / ( ref.kin[first].k * ref.kin[first].k ) * ref.kin[first].g, tc = 0;
            for ( int b = 0; b < n; ++b ) { ld s2 = ref.sigma[a][b], e = tolU( g, ref, a, b, E ); auto id = reactionID( g, g.ch[b] ); want[id] += f * s2; tol[id] += f * ( 2 * sqrtl( s2 ) * e + e * e + 1e-14L * ref.amp * s2 ); ld u = std::abs( cld( a == b ? 1 : 0 ) + cld( 0, 2 ) * ref.T[a][b] ); tc += 2 * u * e + e * e; }
            want[ captureID( g ) ] += f * ref.sigma[a][n]; tol[ captureID( g ) ] += f * ( tc + 4e-15L * ref.amp );
          }
        }
        if ( !ok ) { c.event( "ill-conditioned", { E }, false ); continue; }
        Xs xs; s.evaluate( eV( E ), xs );
        if ( xs.size() != want.size() ) c.fail( "compound-reactions", "wrong number of reactions" );
        for ( auto& w : want ) {
          auto it = xs.find( rm::ReactionID( w.first ) ); if ( it == xs.end() ) { c.fail( "compound-reactions", "missing " + w.first ); continue; }
          if ( !( fabsl( it->second.value - w.second ) <= tol[ w.first ] ) ) c.fail( "compound", fmt( "E=%.17g %s is %.12g instead of %.12Lg", E, w.first.c_str(), it->second.value, w.second ) );
        }
        c.event( viaData ? "compound system from channel data" : "compound system", { E, xs.begin()->second.value } );
      }
    };
    auto make = [&] ( auto tag ) {
      using B = decltype( tag );
      if ( viaData ) {
        std::vector< rm::ParticleChannelData > all;
        for ( auto& g : gs ) { bool e = false; for ( auto& q : g.res ) e |= q.ge != 0.; auto x = data( g, r, e ); all.insert( all.end(), x.begin(), x.end() ); }
        r.shuffle( all ); CS< B > s( std::move( all ) ); run( s );
      } else { std::vector< SG< B > > v; for ( auto& g : gs ) v.push_back( group< B >( g ) ); CS< B > s( std::move( v ) ); run( s ); }
    };
    make( BT() );
  } );
}
#endif
#if defined( P07 ) || defined( PALL )
// ---- C07 -------------------------------------------------------------------------------------
static void c07() {
  auto& c = ctx();
  cases( "tmatrix", 700, [&] ( Rng& r, long ) {
    Options o; o.capture = r.b( .6 ); Group g = randomGroup( r, o ); describe( text( g ) ); int n = int( g.ch.size() );
    withGroup( g, [&] ( auto& s ) {
      for ( int k = 0; k < 6; ++k ) {
        double E = randomEnergy( r, { &g } );
        Result ref; try { ref = model::evaluate( g, E, charged() ); } catch ( ... ) { continue; }
        if ( !wellConditioned( g, ref ) ) { c.event( "ill-conditioned", { E }, false ); continue; }
        Tm t; if ( k % 2 ) try { s.evaluateTMatrix( eV( randomEnergy( r, { &g } ) ), t ); } catch ( ... ) { t.clear(); }   // the elements replace those of another energy
        s.evaluateTMatrix( eV( E ), t ); Xs xs; s.evaluate( eV( E ), xs );
        if ( int( t.size() ) != n * n ) c.fail( "entries", fmt( "%zu entries for %d channels", t.size(), n ) );
        std::vector< std::vector< std::complex< double > > > T( n, std::vector< std::complex< double > >( n ) ); bool all = true;
        for ( int a = 0; a < n; ++a ) for ( int b = 0; b < n; ++b ) {
          auto it = t.find( channelID( g, g.ch[a] ) + "->" + channelID( g, g.ch[b] ) );
          if ( it == t.end() ) { c.fail( "entries", "no entry " + channelID( g, g.ch[a] ) + "->" + channelID( g, g.ch[b] ) ); all = false; } else T[a][b] = it->second;
        }
        if ( !all ) continue;
        bool noCapture = true; for ( auto& q : g.res ) noCapture &= q.ge == 0.;
        for ( int a = 0; a < n; ++a ) {
          ld unit = 0, tolu = 0;
          for ( int b = 0; b < n; ++b ) {
            ld e = ref.tolT( a, b ) + 1e-15L;
            if ( !( std::abs( cld( T[a][b] ) - cld( T[b][a] ) ) <= 2 * e ) ) c.fail( "symmetry", fmt( "E=%.17g T[%d][%d] = %.10g%+.10gi but T[%d][%d] = %.10g%+.10gi", E, a, b, T[a][b].real(), T[a][b].imag(), b, a, T[b][a].real(), T[b][a].imag() ) );
            if ( !( std::abs( cld( T[a][b] ) - ref.T[a][b] ) <= e ) ) c.fail( "value", fmt( "E=%.17g T[%d][%d] = %.10g%+.10gi instead of %.10Lg%+.10Lgi", E, a, b, T[a][b].real(), T[a][b].imag(), ref.T[a][b].real(), ref.T[a][b].imag() ) );
            if ( ( ref.kin[a].closed || ref.kin[b].closed ) && T[a][b] != 0. ) c.fail( "closed-channel", fmt( "E=%.17g T[%d][%d] of a closed channel is not zero", E, a, b ) );
            cld U = cld( a == b ) + cld( 0, 2 ) * cld( T[a][b] ); unit += std::norm( U ); tolu += ( std::abs( U ) + e ) * 5 * e;
          }
          tolu += 1e-14L * ref.amp;
          if ( unit > 1 + tolu ) c.fail( "flux-created", fmt( "E=%.17g row %d has flux %.15Lg", E, a, unit ) );
          if ( noCapture && fabsl( unit - 1 ) > tolu && !( g.constant && false ) ) c.fail( "flux-not-conserved", fmt( "E=%.17g row %d has flux %.15Lg without any capture", E, a, unit ) );
        }
        // the cross sections that follow from the observed T matrix
        Result mix = ref; mix.sigma.clear();
        for ( int a = 0; a < n; ++a ) {
          std::vector< ld > row; ld flux = 0;
          for ( int b = 0; b < n; ++b ) { cld U = std::exp( cld( 0, -ref.kin[a].phi - ref.kin[b].phi ) ) * ( cld( a == b ) + cld( 0, 2 ) * cld( T[a][b] ) ); row.push_back( std::norm( cld( a == b ) - U ) ); flux += std::norm( U ); }
          row.push_back( 1 - flux ); mix.sigma.push_back( row );
        }
        compareXs( g, mix, E, xs, "cross-sections-from-T" );
        // positivity and optical theorem
        ld total = 0, f = 0, optical = 0, tol = 0; int first = -1;
        for ( int a = 0; a < n; ++a ) if ( g.ch[a].pair == 0 ) {
          if ( first < 0 ) { first = a; f = PI / ( ref.kin[a].k * ref.kin[a].k ) * ref.kin[a].g; }
          cld U = std::exp( cld( 0, -2 * ref.kin[a].phi ) ) * ( cld( 1 ) + cld( 0, 2 ) * cld( T[a][a] ) );
          optical += 2 * f * ( 1 - U.real() ); for ( int b = 0; b < n; ++b ) tol += f * 8 * tolU( g, ref, a, b, E );
        }
        for ( auto& x : xs ) {
          total += x.second.value;
          if ( !( x.second.value >= -double( tol ) - 1e-14 * double( f ) ) ) c.fail( "negative", fmt( "E=%.17g %s = %.10g", E, x.first.symbol().c_str(), x.second.value ) );
        }
        if ( !( fabsl( total - optical ) <= tol + 1e-13L * ref.amp * f ) ) c.fail( "optical-theorem", fmt( "E=%.17g sum of cross sections %.12Lg, optical theorem %.12Lg", E, total, optical ) );
        if ( noCapture && !( std::fabs( xs[ rm::ReactionID( captureID( g ) ) ].value ) <= double( tol ) + 1e-13 * double( f * ref.amp ) ) ) c.fail( "capture-without-width", fmt( "E=%.17g capture %.6g", E, xs[ rm::ReactionID( captureID( g ) ) ].value ) );
        c.event( kindOf( g, ref ) + ( noCapture ? ", unitary" : ", absorbing" ), { E, T[0][0].real(), T[0][0].imag() } );
        c.sampleEvery( fmt( "E=%.6g %d channels T00=%.8g%+.8gi total %.8Lg optical %.8Lg", E, n, T[0][0].real(), T[0][0].imag(), total, optical ) );
      }
    } );
  } );
  cases( "compound T", 80, [&] ( Rng& r, long ) {
    Options o; o.maxch = 4; o.maxres = 3;
    std::vector< Group > gs{ randomGroup( r, o ) }; std::set< std::pair< double, int > > seen{ { gs[0].ch[0].J, gs[0].ch[0].parity } };
    for ( int k = 0; k < 4; ++k ) { auto g = randomGroup( r, o, -1, 0, &gs[0] ); g.constant = gs[0].constant; if ( seen.insert( { g.ch[0].J, g.ch[0].parity } ).second ) gs.push_back( g ); }
    auto make = [&] ( auto tag ) {
      using B = decltype( tag );
      std::vector< SG< B > > v; for ( auto& g : gs ) v.push_back( group< B >( g ) ); auto w = v; CS< B > s( std::move( v ) );
      for ( int k = 0; k < 3; ++k ) {
        std::vector< const Group* > p; for ( auto& g : gs ) p.push_back( &g ); double E = randomEnergy( r, p );
        Tm a, b; size_t n = 0; try { s.evaluateTMatrix( eV( E ), a ); } catch ( ... ) { continue; }
        for ( auto& g : w ) { Tm one; g.evaluateTMatrix( eV( E ), one ); n += one.size(); for ( auto& x : one ) b[ x.first ] = x.second; }
        if ( a.size() != n ) c.fail( "compound-entries", fmt( "%zu entries, the spin groups have %zu", a.size(), n ) );
        for ( auto& x : b ) { auto it = a.find( x.first ); if ( it == a.end() || !( it->second == x.second || ( std::isnan( x.second.real() ) ) ) ) c.fail( "compound-T", "differs from the spin groups at " + x.first ); }
        c.event( "compound system", { E, a.begin()->second.real() } );
      }
    };
    make( BT() );
  } );
}
#endif
#if defined( P08 ) || defined( PALL )
// ---- C08 -------------------------------------------------------------------------------------
static void c08() {
  auto& c = ctx();
  cases( "channels", 2500, [&] ( Rng& r, long ) {
    Options o; o.maxch = 4; o.maxres = 1; Group g = randomGroup( r, o );
    // arbitrary charges and masses too
    if ( r.b( .3 ) ) { auto& p = g.pairs[ r.i( 1, 3 ) ]; p.a.m = r.uni( .5, 20 ); p.b.m = r.uni( .5, 250 ); if ( p.a.z > 0 ) p.b.z = r.i( 1, 98 ); }
    describe( text( g ) );
    for ( auto& m : g.ch ) {
      auto ch = channel( g, m );
      std::visit( [&] ( auto& x ) {
        auto& in = g.pairs[0]; auto& p = g.pairs[ m.pair ];
        auto eq = [&] ( const char* what, double v, ld w, ld tol = 4e-15L ) { if ( !( fabsl( v - w ) <= tol * fabsl( w ) + 1e-300L ) ) c.fail( what, fmt( "%s is %.15g instead of %.15Lg", what, v, w ) ); };
        eq( "mass ratio", x.incidentParticlePair().massRatio(), (ld)in.b.m / ( (ld)in.a.m + in.b.m ) );
        eq( "reduced mass", x.particlePair().reducedMass().value, (ld)p.a.m * p.b.m / ( (ld)p.a.m + p.b.m ) );
        eq( "spin factor", x.statisticalSpinFactor(), ( 2 * (ld)m.J + 1 ) / ( ( 2 * (ld)p.a.s + 1 ) * ( 2 * (ld)p.b.s + 1 ) ) );
        if ( x.isIncidentChannel() != ( m.pair == 0 ) ) c.fail( "incident", "incident channel flag" );
        if ( x.channelID() != channelID( g, m ) ) c.fail( "channel-id", x.channelID() + " instead of " + channelID( g, m ) );
        if ( x.reactionID().symbol() != reactionID( g, m ) ) c.fail( "reaction-id", x.reactionID().symbol() + " instead of " + reactionID( g, m ) );
        if ( x.Q().value != m.Q || x.boundaryCondition() != m.bc || x.particlePair().pairID().symbol() != pairID( p ) || x.incidentParticlePair().pairID().symbol() != pairID( in ) ) c.fail( "stored", "stored data differs" );
        if ( x.quantumNumbers().orbitalAngularMomentum() != unsigned( m.l ) || x.quantumNumbers().spin() != m.s || x.quantumNumbers().totalAngularMomentum() != m.J || x.quantumNumbers().parity() != m.parity ) c.fail( "stored", "stored quantum numbers differ" );
        for ( int k = 0; k < 4; ++k ) {
          double E = r.b( .3 ) && m.Q < 0 ? -m.Q * ( in.a.m + in.b.m ) / in.b.m * ( 1 + r.sgn() * r.logu( 1e-12, .9 ) ) : r.logu( 1e-5, 2e7 );
          Kin q; try { q = kinematics( g, m, E, charged() ); } catch ( ... ) { continue; }
          ld amp = ( fabsl( q.Ecm ) + 2 * fabsl( m.Q ) ) / fabsl( q.Ecm ); if ( !( amp < 1e8L ) ) { c.event( "at threshold", { E }, false ); continue; }
          ld tk = 2e-14L * amp;
          eq( "wave number", x.waveNumber( eV( E ) ).value, q.k, tk );
          eq( "Sommerfeld parameter", x.sommerfeldParameter( eV( E ) ), q.eta, tk );
          if ( x.belowThreshold( eV( E ) ) != q.closed ) c.fail( "threshold", fmt( "E=%.17g: below threshold is %d", E, int( !q.closed ) ) );
          eq( "penetrability radius", x.radii().penetrabilityRadius( eV( E ) ).value, m.rP( E ), 1e-13L );
          eq( "shift factor radius", x.radii().shiftFactorRadius( eV( E ) ).value, m.rS( E ), 1e-13L );
          eq( "phase shift radius", x.radii().phaseShiftRadius( eV( E ) ).value, m.rF( E ), 1e-13L );
          // the functions vary as powers of rho and exponentially with eta
          ld sens = ( m.type == CHARGED ? 1e-9L * amp + tk * ( 4 * m.l + 20 * q.eta ) : tk * ( 2 * m.l + 20 ) );
          if ( m.type == CHARGED && ( sens > 1e-5L || !( q.P > 1e-200L ) ) ) { c.event( "extreme Coulomb", { E }, false ); continue; }
          double P = x.penetrability( eV( E ) ), S = x.shiftFactor( eV( E ) ), F = x.phaseShift( eV( E ) );
          bool ok = true;
          if ( m.type == CHARGED ) {
            // near a switch between expansions the functions jump by their own accuracy
            auto near2 = [&] ( double v, auto f, double rad ) { for ( double d : { 0., 1e-9, -1e-9, 1e-7, -1e-7 } ) for ( double h : { 0., 1e-9, -1e-9, 1e-7, -1e-7 } ) { double w = f( m.l, double( q.k * rad ) * ( 1 + d ), double( q.eta ) * ( 1 + h ) ); if ( std::fabs( v - w ) <= double( sens ) * std::max( std::fabs( w ), 1e-300 ) * 2 || ( std::fabs( w ) > 1e-3 && std::fabs( v - w ) < 1e-5 * ( 1 + std::fabs( w ) ) && ( d != 0. || h != 0. ) ) ) return true; } return false; };
            struct { double (*P)( int, double, double ), (*S)( int, double, double ), (*phi)( int, double, double ); } f{
              [] ( int l, double x, double e ) { return rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), x, e ); },
              [] ( int l, double x, double e ) { return rm::calculateShiftFactor< rm::ChargedParticle >( unsigned( l ), x, e ); },
              [] ( int l, double x, double e ) { return rm::calculatePhaseShift< rm::ChargedParticle >( unsigned( l ), x, e ); } };
            ok &= near2( P, f.P, m.rP( E ) ); if ( !ok ) c.fail( "charged penetrability", fmt( "E=%.17g P=%.12g instead of %.12Lg", E, P, q.P ) );
            if ( !near2( S, f.S, m.rS( E ) ) ) c.fail( "charged shift factor", fmt( "E=%.17g S=%.12g instead of %.12Lg", E, S, q.S ) );
            if ( !near2( F, f.phi, m.rF( E ) ) ) c.fail( "charged phase shift", fmt( "E=%.17g phi=%.12g instead of %.12Lg", E, F, q.phi ) );
          } else {
            ld xr = q.k * m.rF( E );
            if ( !( fabsl( P - q.P ) <= sens * q.P + 1e-300L ) ) c.fail( "penetrability", fmt( "E=%.17g P=%.12g instead of %.12Lg", E, P, q.P ) );
            if ( !( fabsl( S - q.S ) <= sens * ( fabsl( q.S ) + m.l ) ) ) c.fail( "shift factor", fmt( "E=%.17g S=%.12g instead of %.12Lg", E, S, q.S ) );
            if ( !( ref::angle( F, double( q.phi ) ) <= double( tk ) * ( 4 + double( xr ) ) ) ) c.fail( "phase shift", fmt( "E=%.17g phi=%.12g instead of %.12Lg", E, F, q.phi ) );
          }
          c.event( fmt( "%s, %d radii%s%s", m.type == NEUTRON ? "neutron" : m.type == CHARGED ? "charged" : m.type == PHOTON ? "photon" : "fission", m.nr, q.closed ? ", closed" : "", m.r[0].table ? ", table" : "" ), { E, P, S, F } );
          c.sampleEvery( fmt( "%s E=%.6g k=%.8Lg eta=%.6Lg P=%.8g S=%.8g phi=%.8g", x.channelID().c_str(), E, q.k, q.eta, P, S, F ) );
        }
      }, ch );
    }
  } );
  // a closed channel has no influence at all: the same group without it gives the same cross sections
  cases( "closed", 500, [&] ( Rng& r, long ) {
    Options o; Group g = randomGroup( r, o ); bool any = false;
    for ( auto& x : g.ch ) any |= x.Q < 0;
    if ( !any ) return;
    describe( text( g ) );
    double thr = 1e30; for ( auto& x : g.ch ) if ( x.Q < 0 ) thr = std::min( thr, -x.Q * ( g.pairs[0].a.m + g.pairs[0].b.m ) / g.pairs[0].b.m );
    for ( int k = 0; k < 4; ++k ) {
      double E = thr * ( k == 0 ? 1 - 1e-9 : r.uni( .01, .999 ) );
      Group h = g; h.ch.clear(); for ( auto& q : h.res ) q.g.clear();
      for ( size_t a = 0; a < g.ch.size(); ++a ) if ( g.ch[a].Q >= 0 ) { h.ch.push_back( g.ch[a] ); for ( size_t q = 0; q < g.res.size(); ++q ) h.res[q].g.push_back( g.res[q].g[a] ); }
      Xs x, y; std::string why;
      Result ref; try { ref = model::evaluate( h, E, charged() ); } catch ( ... ) { continue; }
      if ( !wellConditioned( h, ref ) ) continue;
      bool thrown = false;
      try { withGroup( g, [&] ( auto& s ) { s.evaluate( eV( E ), x ); } ); } catch ( const std::exception& ) { thrown = true; }
      if ( thrown ) { c.event( "rejected", { E }, false ); continue; }
      withGroup( h, [&] ( auto& s ) { s.evaluate( eV( E ), y ); } );
      for ( auto& v : x ) {
        auto it = y.find( v.first ); double w = it == y.end() ? 0. : it->second.value;
        ld f = PI / ( ref.kin[0].k * ref.kin[0].k );
        if ( it == y.end() ? v.second.value != 0. : !( std::fabs( v.second.value - w ) <= 1e-11 * double( ref.amp ) * ( std::fabs( w ) + 1e-3 * double( f ) ) + double( f ) * 1e-14 * ( double( ref.wphase ) + double( ref.kappa ) ) ) ) c.fail( "closed-channel-influence", fmt( "E=%.17g %s is %.12g with and %.12g without the closed channels", E, v.first.symbol().c_str(), v.second.value, w ) );
      }
      c.event( "closed channels removed", { E, x.begin()->second.value } );
    }
  } );
  // exactly at threshold
  cases( "at threshold", 300, [&] ( Rng& r, long ) {
    Group g; g.pairs = { { { "n", 1., 0, .5, 1 }, { "Fe56", double( r.pick( { 1, 3, 7, 15 } ) ), 26, 0, 1 }, "" } };
    g.pairs.push_back( g.pairs[0] ); g.pairs[1].b.id = "Fe56_e1";
    Chan a; a.type = NEUTRON; a.l = r.i( 0, 4 ); a.s = .5; a.J = a.l + .5; a.r[0].value = .5; Chan b = a; b.pair = 1; b.Q = -double( r.i( 1, 1000 ) ) * 1024;
    g.ch = { a, b }; g.res = { { 5e5, { 3., 2. }, .1 } };
    double E = -b.Q * ( 1 + g.pairs[0].b.m ) / g.pairs[0].b.m; if ( E * ( g.pairs[0].b.m / ( 1 + g.pairs[0].b.m ) ) != -b.Q ) return;
    describe( text( g ) ); Xs x; withGroup( g, [&] ( auto& s ) { s.evaluate( eV( E ), x ); } );
    double v = x[ rm::ReactionID( reactionID( g, b ) ) ].value;
    if ( v != 0. ) c.fail( "open-at-threshold", fmt( "E=%.17g cross section %.6g exactly at threshold", E, v ) );
    for ( auto& q : x ) if ( !std::isfinite( q.second.value ) ) c.fail( "not-finite-at-threshold", q.first.symbol() );
    c.event( "exactly at threshold", { E, b.Q, double( a.l ) } );
  } );
}
#endif
#if defined( P11 ) || defined( PALL )
// ---- C11 (R-matrix part) ---------------------------------------------------------------------
// every expected point present, every point expected; expected points come as intervals
static void checkGrid( const std::vector< double >& v, const std::vector< std::pair< ld, ld > >& want, const std::string& key ) {
  auto& c = ctx();
  for ( size_t k = 1; k < v.size(); ++k ) if ( !( v[k-1] < v[k] ) ) c.fail( key + "-order", fmt( "point %zu is %.17g after %.17g", k, v[k], v[k-1] ) );
  for ( auto& w : want ) { bool ok = false; for ( double x : v ) ok |= x >= w.first && x <= w.second; if ( !ok ) c.fail( key + "-missing", fmt( "no point in [%.17Lg,%.17Lg]", w.first, w.second ) ); }
  for ( double x : v ) { bool ok = false; for ( auto& w : want ) ok |= x >= w.first && x <= w.second; if ( !ok ) c.fail( key + "-extra", fmt( "unexpected point %.17g", x ) ); }
}
static bool expectGrid( const Group& g, std::vector< std::pair< ld, ld > >& want ) {
  for ( auto& q : g.res ) if ( q.e > 0 ) {
    ld all = 2 * (ld)q.ge * q.ge, open = all, tol = 1e-13L;
    for ( size_t a = 0; a < g.ch.size(); ++a ) {
      Kin k; try { k = kinematics( g, g.ch[a], q.e, charged() ); } catch ( ... ) { return false; }
      ld w = 2 * k.P * (ld)q.g[a] * q.g[a]; all += w; if ( !k.closed ) open += w;
      tol = std::max( tol, 2e-14L * ( 2 * g.ch[a].l + 4 ) * ( fabsl( k.Ecm ) + 2 * fabsl( g.ch[a].Q ) ) / fabsl( k.Ecm ) );
      if ( g.ch[a].type == CHARGED ) tol = std::max( tol, 1e-4L );
    }
    // a closed channel may be counted with its formal penetrability or not at all: both are accepted
    ld lo = std::min( all, open ), hi = std::max( all, open );
    auto span = [&] ( ld a, ld b ) { ld t = tol * hi + 4e-16L * q.e; want.push_back( { std::min( a, b ) - t, std::max( a, b ) + t } ); };
    want.push_back( { q.e, q.e } ); span( q.e - lo / 2, q.e - hi / 2 ); span( q.e + lo / 2, q.e + hi / 2 );
  }
  return true;
}
static void c11() {
  auto& c = ctx();
  cases( "rm grids", 600, [&] ( Rng& r, long ) {
    Options o; o.maxres = 8; o.maxch = 4; std::vector< Group > gs{ randomGroup( r, o ) }; std::set< std::pair< double, int > > seen{ { gs[0].ch[0].J, gs[0].ch[0].parity } };
    for ( int k = 0; k < 3; ++k ) { auto g = randomGroup( r, o, -1, 0, &gs[0] ); g.constant = gs[0].constant; if ( seen.insert( { g.ch[0].J, g.ch[0].parity } ).second ) gs.push_back( g ); }
    // repeated energies: across groups, within a group, and zero width resonances
    if ( gs.size() > 1 && gs[0].res.size() && gs[1].res.size() && r.b() ) gs[1].res[0].e = gs[0].res[0].e;
    if ( gs[0].res.size() > 1 && r.b( .3 ) ) { gs[0].res[1].e = gs[0].res[0].e; }
    if ( gs[0].res.size() && r.b( .2 ) ) { for ( auto& v : gs[0].res[0].g ) v = 0; gs[0].res[0].ge = 0; }
    std::string d; for ( auto& g : gs ) d += text( g ) + " | "; describe( d );
    std::vector< std::pair< ld, ld > > all; bool ok = true;
    auto make = [&] ( auto tag ) {
      using B = decltype( tag ); std::vector< SG< B > > v;
      for ( auto& g : gs ) {
        v.push_back( group< B >( g ) ); std::vector< std::pair< ld, ld > > one;
        if ( !expectGrid( g, one ) ) { ok = false; return; }
        auto grid = gridOf( v.back().grid() ); checkGrid( grid, one, "spin-group" ); all.insert( all.end(), one.begin(), one.end() );
        c.event( grid.empty() ? "empty grid" : "spin group grid", { grid.empty() ? 0. : grid[0], double( grid.size() ) }, !grid.empty() );
      }
      CS< B > s( std::move( v ) ); auto grid = gridOf( s.grid() ); checkGrid( grid, all, "compound-system" );
      c.event( "compound system grid", { grid.empty() ? 0. : grid.back(), double( grid.size() ) }, !grid.empty() );
      if ( grid.size() > 2 ) c.sampleEvery( fmt( "%zu groups, %zu points %.8g %.8g ... %.8g", gs.size(), grid.size(), grid[0], grid[1], grid.back() ) );
    };
    make( BT() );
  } );
}
#endif
#if defined( P14 ) || defined( PALL )
// ---- C14 (R-matrix part) ---------------------------------------------------------------------
template< typename F > static void mustReject( const std::string& what, F f ) {
  auto& c = ctx(); bool t = throws( f ); if ( !t ) c.fail( "accepted:" + what, "accepted although " + what );
  c.event( "rejected: " + what, { double( c.idx ), double( c.evaluations ) } );
}
template< typename F > static void mustAccept( const std::string& what, F f ) {
  auto& c = ctx(); try { f(); } catch ( ... ) { c.fail( "rejected:" + what, "rejected although consistent" ); }
  c.event( "accepted: " + what, { double( c.idx ), double( c.evaluations ) } );
}
static void c14() {
  auto& c = ctx();
  cases( "rm construction", 900, [&] ( Rng& r, long ) {
    Options o; o.maxch = 5; o.maxres = 4; Group g = randomGroup( r, o ); describe( text( g ) ); int n = int( g.ch.size() );
    auto make = [&] ( auto tag ) {
      using B = decltype( tag );
      mustAccept( "spin group", [&] {
        auto s = group< B >( g );
        // what is stored is what was given, in the order given
        auto chs = s.channels(); auto idr = s.channelIDs(); auto rx = s.reactionIDs(); auto& t = s.resonanceTable();
        if ( int( chs.size() ) != n || int( t.numberChannels() ) != n || t.numberResonances() != g.res.size() || int( rx.size() ) != n + 1 ) c.fail( "stored", "sizes differ" );
        else {
          int inc = 0;
          for ( int a = 0; a < n; ++a ) {
            if ( idr[a] != channelID( g, g.ch[a] ) || t.channels()[a] != channelID( g, g.ch[a] ) || rx[a].symbol() != reactionID( g, g.ch[a] ) ) c.fail( "stored", "identifiers differ" );
            if ( g.ch[a].pair == 0 ) { if ( std::visit( [] ( const auto& x ) { return x.channelID(); }, rm::ParticleChannel( s.incidentChannels()[ inc ] ) ) != channelID( g, g.ch[a] ) ) c.fail( "stored", "incident channels differ" ); ++inc; }
          }
          if ( inc != int( s.incidentChannels().size() ) ) c.fail( "stored", "number of incident channels" );
          if ( rx[n].symbol() != captureID( g ) ) c.fail( "stored", "capture identifier" );
          if ( s.incidentPair().pairID().symbol() != pairID( g.pairs[0] ) ) c.fail( "stored", "incident pair" );
          for ( size_t q = 0; q < g.res.size(); ++q ) {
            auto& x = t.resonances()[q]; if ( x.energy().value != g.res[q].e || x.eliminatedWidth().value != g.res[q].ge || t.energies()[q].value != g.res[q].e ) c.fail( "stored", "resonances differ" );
            for ( int a = 0; a < n; ++a ) if ( x.widths()[a].value != g.res[q].g[a] ) c.fail( "stored", "widths differ" );
          }
        }
      } );
      mustReject( "no channels", [&] { SG< B >( std::vector< rm::ParticleChannel >(), rm::ResonanceTable( {}, {} ) ); } );
      mustReject( "no channel data", [&] { SG< B >( std::vector< rm::ParticleChannelData >() ); } );
      int at = r.i( 0, n - 1 );
      { Group h = g; auto ch = channels( h ); Chan x = h.ch[at]; ch.insert( ch.begin() + r.i( 0, n ), channel( h, x ) );
        Group h2 = h; h2.ch.push_back( x ); for ( auto& q : h2.res ) q.g.push_back( 1. );
        std::vector< rm::ChannelID > id; for ( auto& q : ch ) id.push_back( std::visit( [] ( auto& y ) { return y.channelID(); }, q ) );
        std::vector< rm::Resonance > rs; for ( auto& q : h2.res ) rs.push_back( resonance( q ) );
        mustReject( "a channel occurs twice", [&] { SG< B >( std::move( ch ), rm::ResonanceTable( std::move( id ), std::move( rs ) ) ); } ); }
      if ( n > 1 ) {
        Group h = g; auto k = r.i( 0, n - 1 ); if ( r.b() ) h.ch[k].J += 1; else h.ch[k].parity = -h.ch[k].parity;
        mustReject( "channels of different J or parity", [&] { group< B >( h ); } );
        // a channel with another incident pair
        Group w = g; w.pairs[0].b.id = "Ni58"; auto ch = channels( g ); ch[k] = channel( w, w.ch[k] );
        std::vector< rm::ChannelID > id; for ( auto& q : ch ) id.push_back( std::visit( [] ( auto& y ) { return y.channelID(); }, q ) );
        std::vector< rm::Resonance > rs; for ( auto& q : g.res ) rs.push_back( resonance( q ) );
        mustReject( "channels of different incident pairs", [&] { SG< B >( std::move( ch ), rm::ResonanceTable( std::move( id ), std::move( rs ) ) ); } );
        auto t = ids( g ); int a = r.i( 0, n - 1 ), b = ( a + r.i( 1, n - 1 ) ) % n; std::swap( t[a], t[b] ); std::vector< rm::Resonance > rs2; for ( auto& q : g.res ) rs2.push_back( resonance( q ) );
        mustReject( "a table in another order", [&] { SG< B >( channels( g ), rm::ResonanceTable( std::move( t ), std::move( rs2 ) ) ); } );
      }
      { Group h = g; h.ch.clear(); for ( auto& q : h.res ) q.g.clear(); for ( int a = 0; a < n; ++a ) if ( g.ch[a].pair != 0 ) { h.ch.push_back( g.ch[a] ); for ( size_t q = 0; q < g.res.size(); ++q ) h.res[q].g.push_back( g.res[q].g[a] ); }
        if ( h.ch.size() ) mustReject( "no incident channel", [&] { group< B >( h ); } ); }
      { auto t = ids( g ); Group h = g; if ( r.b() || n == 1 ) { t.push_back( "extra{0,0,0+}" ); for ( auto& q : h.res ) q.g.push_back( 1. ); } else { t.pop_back(); for ( auto& q : h.res ) q.g.pop_back(); }
        std::vector< rm::Resonance > rs; for ( auto& q : h.res ) rs.push_back( resonance( q ) );
        mustReject( "a table of another size", [&] { SG< B >( channels( g ), rm::ResonanceTable( std::move( t ), std::move( rs ) ) ); } ); }
      { auto t = ids( g ); t[at] += "x"; std::vector< rm::Resonance > rs; for ( auto& q : g.res ) rs.push_back( resonance( q ) );
        mustReject( "a table of other channels", [&] { SG< B >( channels( g ), rm::ResonanceTable( std::move( t ), std::move( rs ) ) ); } ); }
      // compound systems
      Group g2 = randomGroup( r, o, -1, 0, &g ); g2.constant = g.constant; bool same = g2.ch[0].J == g.ch[0].J && g2.ch[0].parity == g.ch[0].parity;
      if ( !same ) mustAccept( "compound system", [&] { std::vector< SG< B > > v; v.push_back( group< B >( g ) ); v.push_back( group< B >( g2 ) ); CS< B > s( std::move( v ) ); if ( s.spinGroups().size() != 2 || s.spinGroups()[0].channelIDs()[0] != channelID( g, g.ch[0] ) || s.spinGroups()[1].channelIDs()[0] != channelID( g2, g2.ch[0] ) ) c.fail( "stored", "spin groups" ); } );
      mustReject( "two spin groups of the same J and parity", [&] { std::vector< SG< B > > v; v.push_back( group< B >( g ) ); if ( !same ) v.push_back( group< B >( g2 ) ); v.insert( v.begin() + r.i( 0, int( v.size() ) ), group< B >( g ) ); CS< B > s( std::move( v ) ); } );
      mustReject( "no spin groups", [&] { CS< B > s( std::vector< SG< B > >{} ); } );
      mustReject( "no data for a compound system", [&] { CS< B > s( std::vector< rm::ParticleChannelData >{} ); } );
      // channel data
      { auto d = data( g, r, true ); std::vector< nj::Energy > e{ eV( 1 ), eV( 2 ) }; auto ch = channel( g, g.ch[at] );
        mustReject( "energies and widths differ in number", [&] { int k = r.pick( { 0, 1, 3, 4 } ); rm::ParticleChannelData( ch, { eV( 1 ), eV( 2 ) }, std::vector< nj::ReducedWidth >( k, reV( 1 ) ) ); } );
        mustAccept( "channel data", [&] { rm::ParticleChannelData x( ch, { eV( 1 ), eV( 2 ) }, { reV( 3 ), reV( -4 ) }, true ); if ( x.energies().size() != 2 || x.widths()[1].value != -4 || !x.isEliminatedChannel() || x.channelID() != channelID( g, g.ch[at] ) || x.isIncidentChannel() != ( g.ch[at].pair == 0 ) || x.reactionID().symbol() != reactionID( g, g.ch[at] ) || x.Q().value != g.ch[at].Q ) c.fail( "stored", "channel data" ); } );
        auto d2 = d; auto extra = rm::ParticleChannelData( channel( g, [&] { Chan x = g.ch[at]; x.id = "second"; return x; }() ), {}, {}, true ); d2.insert( d2.begin() + r.i( 0, int( d2.size() ) ), extra );
        mustReject( "two eliminated channels", [&] { SG< B > s( std::move( d2 ) ); } );
        auto d3 = d; mustAccept( "spin group from channel data", [&] { SG< B > s( std::move( d3 ) ); if ( s.channels().size() != size_t( n ) ) c.fail( "stored", "channels from data" ); } );
        std::vector< rm::ParticleChannelData > only; for ( auto& x : d ) if ( x.isEliminatedChannel() ) only.push_back( x ); mustReject( "nothing but an eliminated channel", [&] { SG< B > s( std::move( only ) ); } ); }
    };
    make( BT() );
    // tables
    if ( g.res.size() ) {
      Group h = g; auto& q = h.res[ r.i( 0, int( h.res.size() ) - 1 ) ].g; q = g.res[0].g; if ( r.b() ) q.push_back( 1. ); else q.pop_back();
      mustReject( "a resonance with another number of widths", [&] { table( h ); } );
    }
    mustAccept( "resonance table", [&] { table( g ); } );
    // particles
    mustReject( "negative mass", [&] { particle( { "n", -r.logu( 1e-30, 10 ), 0, .5, 1 } ); } );
    mustReject( "negative charge", [&] { particle( { "p", 1, -r.logu( 1e-10, 10 ), .5, 1 } ); } );
    mustAccept( "particle", [&] { Par p{ "p", r.b( .2 ) ? 0. : r.uni( 0, 250 ), double( r.i( 0, 98 ) ), .5 * r.i( 0, 9 ), r.b() ? 1 : -1 }; auto x = particle( p ); if ( x.mass().value != p.m || x.spin() != p.s || x.parity() != p.p || x.particleID().symbol() != "p" || !vh::near( x.charge().value, p.z * 1.6021766208e-19, 1e-14 ) ) c.fail( "stored", "particle" ); } );
    c.sampleEvery( "spin group of " + std::to_string( n ) + " channels: consistent accepted, 15 inconsistent variants rejected" );
  } );
}
#endif
#if defined( P16 ) || defined( PALL )
// ---- C16 (R-matrix part) ---------------------------------------------------------------------
static bool identical( const Xs& a, const Xs& b ) {
  if ( a.size() != b.size() ) return false;
  for ( auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j ) { if ( !( i->first == j->first ) ) return false; if ( std::memcmp( &i->second, &j->second, sizeof( double ) ) && !( std::isnan( i->second.value ) && std::isnan( j->second.value ) ) ) return false; }
  return true;
}
static bool identicalT( const Tm& a, const Tm& b ) {
  if ( a.size() != b.size() ) return false;
  for ( auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j ) { if ( i->first != j->first ) return false; if ( !( i->second == j->second ) && !std::isnan( i->second.real() ) ) return false; }
  return true;
}
static std::vector< Group > randomSystem( Rng& r, Options o ) {
  std::vector< Group > gs{ randomGroup( r, o ) }; std::set< std::pair< double, int > > seen{ { gs[0].ch[0].J, gs[0].ch[0].parity } };
  for ( int k = 0; k < 3; ++k ) { auto g = randomGroup( r, o, -1, 0, &gs[0] ); g.constant = gs[0].constant; if ( seen.insert( { g.ch[0].J, g.ch[0].parity } ).second ) gs.push_back( g ); }
  return gs;
}
static void c16() {
  auto& c = ctx();
  cases( "rm histories", 250, [&] ( Rng& r, long ) {
    Options o; o.maxch = 4; o.maxres = 4; auto gs = randomSystem( r, o ); std::string d; for ( auto& g : gs ) d += text( g ) + " | "; describe( d );
    auto make = [&] ( auto tag ) {
      using B = decltype( tag );
      auto fresh = [&] { std::vector< SG< B > > v; for ( auto& g : gs ) v.push_back( group< B >( g ) ); return CS< B >( std::move( v ) ); };
      std::vector< const Group* > p; for ( auto& g : gs ) p.push_back( &g );
      std::vector< double > es; for ( int k = 0; k < 4; ++k ) es.push_back( randomEnergy( r, p ) );
      neighbours( r, es, 3 );
      // another system, evaluated at the same energies in between
      Options other = o; auto gs2 = r.b( .5 ) ? randomSystem( r, other ) : gs; for ( auto& g : gs2 ) for ( auto& q : g.res ) { q.e *= r.uni( .5, 2 ); for ( auto& w : q.g ) w *= r.uni( .3, 3 ); }
      std::vector< SG< B > > v2; for ( auto& g : gs2 ) v2.push_back( group< B >( g ) ); CS< B > second( std::move( v2 ) );
      // first evaluation of a fresh object, one object per energy
      std::vector< Xs > want( es.size() ); std::vector< Tm > wantT( es.size() );
      try { for ( size_t k = 0; k < es.size(); ++k ) { auto a = fresh(); a.evaluate( eV( es[k] ), want[k] ); auto b = fresh(); b.evaluateTMatrix( eV( es[k] ), wantT[k] ); } } catch ( const std::exception& ) { c.event( "no Coulomb functions", {}, false ); return; }
      auto grid0 = gridOf( fresh().grid() );
      // a history of operations on a pool of objects
      std::vector< CS< B > > pool; pool.push_back( fresh() ); long h = 0;
      for ( int step = 0; step < 14; ++step ) {
        size_t i = size_t( r.i( 0, int( pool.size() ) - 1 ) ), k = size_t( r.i( 0, int( es.size() ) - 1 ) ); int op = r.i( 0, 8 ); h = h * 9 + op;
        if ( op == 8 ) { try { Xs x; second.evaluate( eV( es[k] ), x ); Tm t; second.evaluateTMatrix( eV( es[k] ), t ); } catch ( const std::exception& ) {} Xs y; pool[i].evaluate( eV( es[k] ), y ); if ( !identical( y, want[k] ) ) c.fail( "history-other", fmt( "step %d: cross sections at E=%.17g change when another object is evaluated before", step, es[k] ) ); }
        else if ( op <= 2 ) { Xs x; pool[i].evaluate( eV( es[k] ), x ); if ( !identical( x, want[k] ) ) c.fail( "history", fmt( "step %d: cross sections at E=%.17g differ from those of a fresh object", step, es[k] ) ); }
        else if ( op == 3 ) { Tm x; if ( step % 2 ) x = wantT[ size_t( step ) % es.size() ]; pool[i].evaluateTMatrix( eV( es[k] ), x ); if ( !identicalT( x, wantT[k] ) ) c.fail( "history-T", fmt( "step %d: T matrix at E=%.17g differs from that of a fresh object", step, es[k] ) ); }
        else if ( op == 4 ) { if ( gridOf( pool[i].grid() ) != grid0 ) c.fail( "history-grid", "grid changed" ); }
        else if ( op == 5 && pool.size() < 4 ) { CS< B > copy( pool[i] ); pool.push_back( copy ); }
        else if ( op == 6 ) { CS< B > moved( std::move( pool[i] ) ); pool[i] = std::move( moved ); }
        else if ( op == 7 ) {  // accumulation on top of what is there
          Xs x, base; for ( auto& w : want[k] ) base[ w.first ] = r.uni( 0, 10 ) * dimwits::barn; base[ rm::ReactionID( "other->thing" ) ] = 3.5 * dimwits::barn; x = base; pool[i].evaluate( eV( es[k] ), x );
          if ( x.size() != want[k].size() + 1 || x[ rm::ReactionID( "other->thing" ) ].value != 3.5 ) c.fail( "accumulation", "other entries changed" );
          for ( auto& w : want[k] ) { double a = x[ w.first ].value, b = base[ w.first ].value + w.second.value; if ( !( std::fabs( a - b ) <= 1e-13 * ( std::fabs( b ) + 10 + std::fabs( w.second.value ) * 10 ) ) && std::isfinite( b ) ) c.fail( "accumulation", fmt( "E=%.17g %s is %.15g instead of %.15g", es[k], w.first.symbol().c_str(), a, b ) ); }
        }
      }
      c.event( "history of operations", { double( h ), es[0] } );
      // order of groups, channels and resonances
      {
        auto hs = gs; r.shuffle( hs );
        for ( auto& g : hs ) {
          r.shuffle( g.res ); std::vector< int > perm; for ( size_t a = 0; a < g.ch.size(); ++a ) perm.push_back( int( a ) ); r.shuffle( perm );
          auto old = g; for ( size_t a = 0; a < perm.size(); ++a ) { g.ch[a] = old.ch[ perm[a] ]; for ( size_t q = 0; q < g.res.size(); ++q ) g.res[q].g[a] = old.res[q].g[ perm[a] ]; }
        }
        std::vector< SG< B > > v; for ( auto& g : hs ) v.push_back( group< B >( g ) ); CS< B > s( std::move( v ) );
        for ( size_t k = 0; k < es.size(); ++k ) {
          Xs x; s.evaluate( eV( es[k] ), x ); ld tol = 0; bool ok = true;
          for ( auto& g : gs ) { Result ref; try { ref = model::evaluate( g, es[k], charged() ); } catch ( ... ) { ok = false; break; } ok &= wellConditioned( g, ref ); for ( size_t a = 0; a < g.ch.size(); ++a ) if ( g.ch[a].pair == 0 ) for ( size_t b = 0; b < g.ch.size(); ++b ) tol += PI / ( ref.kin[a].k * ref.kin[a].k ) * ref.kin[a].g * 8 * tolU( g, ref, int( a ), int( b ), es[k] ); }
          if ( !ok ) continue;
          if ( x.size() != want[k].size() ) c.fail( "order", "reactions depend on the order" );
          for ( auto& w : want[k] ) if ( !( std::fabs( x[ w.first ].value - w.second.value ) <= double( tol ) ) ) c.fail( "order", fmt( "E=%.17g %s is %.14g or %.14g depending on the order of the components", es[k], w.first.symbol().c_str(), w.second.value, x[ w.first ].value ) );
          c.event( "order of components", { es[k], x.begin()->second.value } );
        }
      }
      // sum of spin groups
      for ( size_t k = 0; k < es.size(); ++k ) {
        Xs sum; for ( auto& g : gs ) { Xs one; auto s = group< B >( g ); s.evaluate( eV( es[k] ), one ); for ( auto& q : one ) sum[ q.first ] = sum[ q.first ] + q.second; }
        if ( sum.size() != want[k].size() ) c.fail( "sum", "reactions" );
        for ( auto& w : want[k] ) if ( std::isfinite( w.second.value ) ) {
          double scale = 0; for ( auto& g : gs ) { ld kk = kinematics( g, [&] { for ( auto& x : g.ch ) if ( x.pair == 0 ) return x; return g.ch[0]; }(), es[k], charged() ).k; scale += double( PI / ( kk * kk ) ) * 40; }
          for ( auto& q : want[k] ) scale += std::fabs( q.second.value );
          if ( !( std::fabs( sum[ w.first ].value - w.second.value ) <= 1e-13 * scale ) ) c.fail( "sum", fmt( "E=%.17g %s is %.15g, the spin groups sum to %.15g", es[k], w.first.symbol().c_str(), w.second.value, sum[ w.first ].value ) ); }
        c.event( "sum of spin groups", { es[k], want[k].begin()->second.value } );
      }
    };
    make( BT() );
  } );
}
static void c16threads() {
  auto& c = ctx();
  cases( "rm threads", 40, [&] ( Rng& r, long ) {
    Options o; o.maxch = 4; o.maxres = 4; auto gs = randomSystem( r, o ); std::string d; for ( auto& g : gs ) d += text( g ) + " | "; describe( d );
    auto make = [&] ( auto tag ) {
      using B = decltype( tag );
      std::vector< SG< B > > v; for ( auto& g : gs ) v.push_back( group< B >( g ) ); CS< B > s( std::move( v ) );
      std::vector< const Group* > p; for ( auto& g : gs ) p.push_back( &g );
      std::vector< double > es; for ( int k = 0; k < 6; ++k ) es.push_back( randomEnergy( r, p ) );
      std::vector< Xs > want( es.size() ); std::vector< Tm > wantT( es.size() );
      try { for ( size_t k = 0; k < es.size(); ++k ) { s.evaluate( eV( es[k] ), want[k] ); s.evaluateTMatrix( eV( es[k] ), wantT[k] ); } } catch ( ... ) { return; }
      auto grid0 = gridOf( s.grid() );
      const CS< B >& shared = s; std::atomic< int > bad{ 0 }, ready{ 0 }; std::vector< std::thread > th; const int T = 4;
      for ( int t = 0; t < T; ++t ) th.emplace_back( [&, t] {
        ++ready; while ( ready < T ) std::this_thread::yield();
        CS< B > own( shared );                                    // copies of one object, used concurrently
        for ( int pass = 0; pass < 2; ++pass ) for ( size_t k = 0; k < es.size(); ++k ) {
          size_t q = ( k + size_t( t ) ) % es.size(); Xs x; own.evaluate( eV( es[q] ), x ); if ( !identical( x, want[q] ) ) ++bad;
          Tm y; own.evaluateTMatrix( eV( es[q] ), y ); if ( !identicalT( y, wantT[q] ) ) ++bad;
          if ( gridOf( shared.grid() ) != grid0 ) ++bad;
        }
      } );
      for ( auto& t : th ) t.join();
      if ( bad ) c.fail( "threads", fmt( "%d results differ between threads", bad.load() ) );
      c.event( "four threads, own copies", { es[0], want[0].begin()->second.value } );
      c.sampleEvery( fmt( "4 threads x %zu energies x 2 passes: bit-identical", es.size() ) );
    };
    make( BT() );
  } );
}

#endif
#ifdef PALL
// objects with extreme parameters at extreme energies: a value or an exception
static void c15() {
  auto& c = ctx();
  cases( "hostile objects", 1500, [&] ( Rng& r, long ) {
    Options o; o.maxch = 4; o.maxres = 4; auto gs = randomSystem( r, o );
    for ( int k = r.i( 0, 3 ); k > 0; --k ) {
      auto& g = gs[ size_t( r.i( 0, int( gs.size() ) - 1 ) ) ]; auto& h = g.ch[ size_t( r.i( 0, int( g.ch.size() ) - 1 ) ) ];
      switch ( r.i( 0, 7 ) ) {
        case 0: if ( !g.res.empty() ) g.res[ size_t( r.i( 0, int( g.res.size() ) - 1 ) ) ].e = hostileValue( r ); break;
        case 1: if ( !g.res.empty() ) { auto& q = g.res[ size_t( r.i( 0, int( g.res.size() ) - 1 ) ) ]; q.g[ size_t( r.i( 0, int( q.g.size() ) - 1 ) ) ] = hostileValue( r ); } break;
        case 2: if ( !g.res.empty() ) g.res[ size_t( r.i( 0, int( g.res.size() ) - 1 ) ) ].ge = hostileValue( r ); break;
        case 3: h.bc = hostileValue( r ); break; case 4: h.Q = hostileValue( r ); break; case 5: h.l = r.i( 0, 12 ); break;
        case 6: h.r[0] = Radius(); h.r[0].value = hostileValue( r ); break; default: h.J = r.i( 0, 40 ) * .5; for ( auto& q : g.ch ) q.J = h.J; }
    }
    std::string d; for ( auto& g : gs ) d += text( g ) + " | "; describe( d ); bool accepted = false; double n = 0, thrown = 0;
    try {
      std::vector< SG< BT > > v; for ( auto& g : gs ) v.push_back( group< BT >( g ) ); CS< BT > s( std::move( v ) ); accepted = true; CS< BT > t( s );
      for ( int k = 0; k < 6; ++k ) { double E = hostileEnergy( r ); try { Xs x; t.evaluate( eV( E ), x ); n += double( x.size() ); Tm y; t.evaluateTMatrix( eV( E ), y ); n += double( y.size() ); } catch ( const std::exception& ) { ++thrown; } }
      try { n += double( gridOf( t.grid() ).size() ); } catch ( const std::exception& ) { ++thrown; }
      CS< BT > u( std::move( t ) ); try { Xs x; u.evaluate( eV( 1. ), x ); n += double( x.size() ); } catch ( const std::exception& ) { ++thrown; }
    } catch ( const std::exception& ) {}
    c.event( accepted ? "hostile objects, accepted" : "hostile objects, rejected", { n, thrown, gs[0].ch[0].r[0].value } );
  } );
}
#endif
#define RUN( n, ... ) if ( p == "C" #n || p == "C15" || p == "ALL" ) { __VA_ARGS__; known = true; }
int main( int argc, char** argv ) {
  init( argc, argv ); auto p = ctx().prop; bool known = false;
#if defined( P06 ) || defined( PALL )
  RUN( 06, c06() )
#endif
#if defined( P07 ) || defined( PALL )
  RUN( 07, c07() )
#endif
#if defined( P08 ) || defined( PALL )
  RUN( 08, c08() )
#endif
#if defined( P11 ) || defined( PALL )
  RUN( 11, c11() )
#endif
#if defined( P14 ) || defined( PALL )
  RUN( 14, c14() )
#endif
#if defined( P16 ) || defined( PALL )
  RUN( 16, if ( ctx().opt.count( "threads" ) ) c16threads(); else c16() )
#endif
#ifdef PALL
  if ( p == "C15" ) c15();
#endif
  if ( !known ) return 3;
  if ( ctx().opt.count( "ratio" ) ) std::fprintf( stderr, "max error/tolerance %g\n", maxratio );
  return finish();
}
