// Monitors of the legacy resolved (SLBW, MLBW) and unresolved objects: C09, C10 and the legacy part
// of C11, C14 and C16.
#include "refleg.hpp"
#include <thread>
#include <atomic>
static double energyFor( Rng& r, const LGroup& g ) {
  bool table = false; for ( auto& x : chan( g.g ).r ) table |= x.table;
  if ( g.res.size() && r.b( .6 ) ) { auto& q = r.pick( g.res ); double e = std::fabs( q.e ), w = q.gn + q.gg + std::fabs( q.gf ) + q.gx; double s = r.b( .2 ) ? e : r.b() ? std::fabs( e + r.uni( -3, 3 ) * w ) : e * ( 1 + r.sgn() * r.logu( 1e-9, .3 ) ); if ( s > 0 ) return s; }
  if ( g.qx < 0 && r.b( .5 ) ) { double t = -g.qx * ( g.g.pairs[0].a.m + g.g.pairs[0].b.m ) / g.g.pairs[0].b.m; return t * ( 1 + r.sgn() * r.logu( 1e-3, .9 ) ); }
  return r.logu( 1e-5, 3e6 );
}

using SLBW = rm::SingleLevelBreitWigner; using MLBW = rm::MultiLevelBreitWigner;
#if defined( P09 ) || defined( PALL )
// ---- C09 -------------------------------------------------------------------------------------
template< typename F > static void c09one( Rng& r, const std::vector< LGroup >& gs, bool multi ) {
  auto& c = ctx(); const char* name = multi ? "multi level" : "single level";
  auto& g = gs[0]; auto s = make< F >( g );
  for ( int k = 0; k < 5; ++k ) {
    double E = energyFor( r, g ); Xs x; s.evaluate( eV( E ), x ); compare( x, g.g, resolvedRef( g, E, multi ), E, "spin-group", 100 );
    bool xs = false; for ( auto& q : g.res ) xs |= q.gx != 0.;
    bool closed = xs && shifted( g, E ) <= 0;
    c.event( fmt( "%s, %s%s", name, g.res.empty() ? "no resonances" : g.res.size() == 1 ? "one resonance" : "several resonances", closed ? ", competition closed" : xs && g.qx ? ", competition open" : "" ), { E, x.begin()->second.value }, !g.res.empty() );
    c.event( fmt( "l=%d", chan( g.g ).l ), { E }, false );
    c.sampleEvery( fmt( "%s l=%d J=%g: %zu resonances, E=%.8g: elastic %.8g b (without potential scattering)", name, chan( g.g ).l, chan( g.g ).J, g.res.size(), E, x.begin()->second.value ) );
  }
  std::vector< lr::SpinGroup< F > > v; int lmax = 0; for ( auto& q : gs ) { v.push_back( make< F >( q ) ); lmax = std::max( lmax, chan( q.g ).l ); }
  lr::CompoundSystem< F > cs( std::move( v ) );
  for ( int k = 0; k < 4; ++k ) {
    double E = energyFor( r, r.pick( gs ) ); Xs x; cs.evaluate( eV( E ), x ); Ref sum;
    for ( auto& q : gs ) { Ref one = resolvedRef( q, E, multi ); sum.el.add( one.el.v, one.el.t ); sum.ca.add( one.ca.v, one.ca.t ); sum.fi.add( one.fi.v, one.fi.t ); }
    Val p = potential( gs[0].g, lmax, E ); sum.el.add( p.v, p.t ); compare( x, g.g, sum, E, "compound-system", 100 );
    c.event( fmt( "%s compound system, lmax=%d", name, lmax ), { E, x.begin()->second.value } );
  }
}
static void c09() {
  auto& c = ctx();
  cases( "breit wigner", 1500, [&] ( Rng& r, long ) {
    std::vector< LGroup > gs{ randomResolved( r ) }; std::set< std::pair< int, double > > seen{ { chan( gs[0].g ).l, chan( gs[0].g ).J } };
    for ( int k = r.i( 0, 3 ); k > 0; --k ) { auto q = randomResolved( r, &gs[0].g ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) gs.push_back( q ); }
    std::string d; for ( auto& q : gs ) d += ltext( q ) + " | "; describe( d );
    c09one< SLBW >( r, gs, false ); c09one< MLBW >( r, gs, true );
    if ( gs[0].res.size() <= 1 ) {
      auto a = make< SLBW >( gs[0] ); auto b = make< MLBW >( gs[0] ); double E = energyFor( r, gs[0] ); Xs x, y; a.evaluate( eV( E ), x ); b.evaluate( eV( E ), y ); bool same = x.size() == y.size();
      if ( same ) for ( auto& q : x ) same &= vh::near( q.second.value, y[ q.first ].value, 1e-13 );
      if ( !same ) c.fail( "one-resonance", fmt( "E=%.17g: single and multi level differ for one resonance", E ) );
      c.event( "both formalisms, one resonance", { E, x.begin()->second.value } );
    }
    // the resonance object itself
    for ( auto& g : gs ) for ( auto& q : g.res ) {
      lr::Resonance x( eV( q.e ), eV( q.gn ), eV( q.gg ), eV( q.gf ), eV( q.gx ), q.P, q.Q, q.S ); double p = r.logu( 1e-3, 10 ), qq = r.b( .2 ) ? 0. : r.logu( 1e-3, 10 ), s = r.uni( -4, 0 );
      bool ok = x.energy().value == q.e && x.elastic().value == q.gn && x.capture().value == q.gg && x.fission().value == q.gf && x.competition().value == q.gx && x.penetrability() == q.P && x.shiftfactor() == q.S
        && vh::near( x.total().value, double( (ld)q.gn + q.gg + q.gf + q.gx ), 1e-14, q.gn + q.gg + std::fabs( q.gf ) + q.gx ) && vh::near( x.elastic( p ).value, q.gn * ( p / q.P ), 1e-14 ) && vh::near( x.competition( qq ).value, q.gx * ( qq / q.Q ), 1e-14 )
        && vh::near( x.total( p, qq ).value, q.gn * p / q.P + q.gg + q.gf + q.gx * qq / q.Q, 1e-14, q.gn * p / q.P + q.gg + std::fabs( q.gf ) + q.gx * qq / q.Q ) && vh::near( x.energyPrime( s ).value, double( q.e + ( (ld)q.S - s ) / 2 * q.gn / q.P ), 1e-14, std::fabs( q.e ) + 4 * q.gn / q.P );
      if ( !ok ) c.fail( "resonance", "a resonance's widths or shifted energy" );
      c.event( "resonance widths", { q.e, p }, false );
    }
  } );
}
#endif

#if defined( P10 ) || defined( PALL )
// ---- C10 -------------------------------------------------------------------------------------
static void c10() {
  auto& c = ctx();
  cases( "fluctuation integrals", 800, [&] ( Rng& r, long ) {
    unsigned de = unsigned( r.i( 1, 4 ) ), df = unsigned( r.i( 1, 4 ) ), dx = unsigned( r.i( 1, 4 ) ); double s = r.logu( 1e-3, 10 ), gn = s * r.logu( 1e-4, 1e3 ), gg = r.b( .05 ) ? 0. : s, gf = r.b( .4 ) ? 0. : s * r.logu( 1e-3, 1e2 ), gx = r.b( .5 ) ? 0. : s * r.logu( 1e-3, 1e2 );
    if ( gf == 0. && r.b( .4 ) ) df = 0; if ( gx == 0. && r.b( .4 ) ) dx = 0; unsigned dc = unsigned( r.i( 0, 4 ) );
    describe( fmt( "widths %.10g %.10g %.10g %.10g dof %u %u %u %u", gn, gg, gf, gx, de, dc, df, dx ) );
    auto got = lu::calculateFluctuationIntegrals( lu::Widths( eV( gn ), eV( gg ), eV( gf ), eV( gx ) ), lu::Degrees( de, dc, df, dx ) );
    auto q = quadrature( gn, gg, gf, gx, de, df, dx ), e = exact( gn, gg, gf, gx, de, df, dx );
    auto one = [&] ( const char* what, double g, ld qv, ld ev ) { if ( !( fabsl( g - ev ) <= allowed( qv, ev ) ) ) c.fail( std::string( "integral-" ) + what, fmt( "%s integral is %.12g, the average is %.12Lg (ten-point rule %.12Lg)", what, g, ev, qv ) ); };
    one( "elastic", got.elastic.value, q.el, e.el ); one( "capture", got.capture.value, q.ca, e.ca ); one( "fission", got.fission.value, q.fi, e.fi ); one( "competition", got.competition.value, q.co, e.co );
    // the averages of the fractions of the total width sum to 1
    c.event( fmt( "integrals, %s%s", gf != 0. ? "fission " : "", gx != 0. ? "competition" : "" ), { gn, gg, gf, gx, double( de ) } ); c.event( fmt( "degrees of freedom %u,%u,%u", de, gf != 0. ? df : 0, gx != 0. ? dx : 0 ), {}, false );
    c.sampleEvery( c.desc + fmt( ": elastic %.8g (exact %.8Lg)", got.elastic.value, e.el ) );
  } );
  // a sanity check of the reference itself: the fractions of the total width have averages that sum to one
  cases( "reference", 50, [&] ( Rng& r, long ) {
    double gn = r.logu( 1e-2, 10 ), gg = r.logu( 1e-2, 10 ), gf = r.logu( 1e-2, 10 ), gx = r.logu( 1e-2, 10 ); unsigned a = unsigned( r.i( 1, 4 ) ), b = unsigned( r.i( 1, 4 ) ), d = unsigned( r.i( 1, 4 ) );
    auto e = exact( gn, gg, gf, gx, a, b, d ); ld s = gn * e.el + gg * e.ca + gf * e.fi + gx * e.co; if ( !( fabsl( s - 1 ) < 1e-9L ) ) { std::fprintf( stderr, "reference integrals are wrong: %.12Lg\n", s ); std::exit( 4 ); } } );
  cases( "unresolved", 700, [&] ( Rng& r, long ) {
    std::vector< UGroup > gs{ randomUnresolved( r ) }; std::set< std::pair< int, double > > seen{ { chan( gs[0].g ).l, chan( gs[0].g ).J } }; std::vector< double > en; for ( auto& q : gs[0].res ) en.push_back( q.e );
    for ( int k = r.i( 0, 3 ); k > 0; --k ) { auto q = randomUnresolved( r, &gs[0].g, &en ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) gs.push_back( q ); }
    std::string d; for ( auto& q : gs ) d += utext( q ) + " | "; describe( d );
    std::vector< lu::SpinGroup > v; int lmax = 0; for ( auto& q : gs ) { v.push_back( make( q ) ); lmax = std::max( lmax, chan( q.g ).l ); }
    auto s = make( gs[0] ); lu::CompoundSystem cs( std::move( v ) );
    for ( int k = 0; k < 6; ++k ) {
      size_t idx = size_t( r.i( 0, int( en.size() ) - 1 ) ); bool at = k < 2; double E = at ? en[idx] : r.b() && idx + 1 < en.size() ? en[idx] + ( en[idx+1] - en[idx] ) * r.u() : r.uni( en[0], en.back() );
      if ( !at ) for ( double e : en ) at |= e == E; if ( at ) for ( size_t q = 0; q < en.size(); ++q ) if ( en[q] == E ) idx = q;
      Xs x; s.evaluate( eV( E ), x ); auto ref = unresolvedRef( gs[0], E, at, idx ); compare( x, gs[0].g, ref, E, "spin-group" );
      c.event( fmt( "%s, %s%s%s", at ? "at a tabulated energy" : "between energies", gs[0].res[0].gf != 0. ? "fission " : "", gs[0].res[0].gx != 0. ? "competition " : "", gs[0].de == 0 ? "no elastic" : "" ), { E, x.begin()->second.value } );
      Ref sum; for ( auto& q : gs ) { auto one = unresolvedRef( q, E, at, idx ); sum.el.add( one.el.v, one.el.t ); sum.ca.add( one.ca.v, one.ca.t ); sum.fi.add( one.fi.v, one.fi.t ); }
      Val p = potential( gs[0].g, lmax, E ); sum.el.add( p.v, p.t ); Xs y; cs.evaluate( eV( E ), y ); compare( y, gs[0].g, sum, E, "compound-system" ); c.event( fmt( "compound system, lmax=%d", lmax ), { E, y.begin()->second.value } );
      auto par = s.resonanceTable()( eV( E ) );
      if ( at ) { auto& q = gs[0].res[idx]; if ( par.energy().value != E || !vh::near( par.levelSpacing().value, q.D, 1e-14 ) || !vh::near( par.elastic().value, q.gn, 1e-14 ) || !vh::near( par.capture().value, q.gg, 1e-14 ) || !vh::near( par.fission().value, q.gf, 1e-14 ) || !vh::near( par.competition().value, q.gx, 1e-14 ) ) c.fail( "tabulated", fmt( "E=%.17g: the parameters at a tabulated energy are not the tabulated ones", E ) ); }
      c.sampleEvery( fmt( "l=%d J=%g dof %u,%u,%u E=%.8g: elastic %.8g capture %.8Lg b", chan( gs[0].g ).l, chan( gs[0].g ).J, gs[0].de, gs[0].df, gs[0].dx, E, x.begin()->second.value, ref.ca.v ) );
    }
    // outside the table there are no parameters
    for ( double E : { en[0] * ( 1 - r.logu( 1e-12, .5 ) ), en.back() * ( 1 + r.logu( 1e-12, .5 ) ) } ) { Xs x; if ( !throws( [&] { s.evaluate( eV( E ), x ); } ) ) { bool fin = true; for ( auto& q : x ) fin &= std::isfinite( q.second.value ); if ( !fin ) c.fail( "outside", "not finite outside the table" ); } c.event( "outside the table", {}, false ); }
  } );
}
#endif

#if defined( P11 ) || defined( PALL )
// ---- C11 (legacy part) -----------------------------------------------------------------------
static void checkGrid( const std::vector< double >& v, const std::vector< std::pair< ld, ld > >& want, const std::string& key ) {
  auto& c = ctx();
  for ( size_t k = 1; k < v.size(); ++k ) if ( !( v[k-1] < v[k] ) ) c.fail( key + "-order", fmt( "point %zu is %.17g after %.17g", k, v[k], v[k-1] ) );
  for ( auto& w : want ) { bool ok = false; for ( double x : v ) ok |= x >= w.first && x <= w.second; if ( !ok ) c.fail( key + "-missing", fmt( "no point in [%.17Lg,%.17Lg]", w.first, w.second ) ); }
  for ( double x : v ) { bool ok = false; for ( auto& w : want ) ok |= x >= w.first && x <= w.second; if ( !ok ) c.fail( key + "-extra", fmt( "unexpected point %.17g", x ) ); }
}
template< typename F > static void c11resolved( const std::vector< LGroup >& gs ) {
  auto& c = ctx(); std::vector< std::pair< ld, ld > > all; std::vector< lr::SpinGroup< F > > v;
  for ( auto& g : gs ) {
    std::vector< std::pair< ld, ld > > one; for ( auto& q : g.res ) if ( q.e > 0 ) { ld G = (ld)q.gn + q.gg + q.gf + q.gx, t = 4e-16L * ( q.e + q.gn + q.gg + fabsl( q.gf ) + q.gx ); one.push_back( { q.e, q.e } ); for ( ld s : { -.5L, .5L } ) one.push_back( { q.e + s * G - t, q.e + s * G + t } ); }
    v.push_back( make< F >( g ) ); auto x = gridOf( v.back().grid() ); checkGrid( x, one, "resolved-group" ); all.insert( all.end(), one.begin(), one.end() );
    c.event( x.empty() ? "empty legacy grid" : "legacy spin group grid", { x.empty() ? 0. : x[0], double( x.size() ) }, !x.empty() );
  }
  lr::CompoundSystem< F > cs( std::move( v ) ); auto x = gridOf( cs.grid() ); checkGrid( x, all, "resolved-system" ); c.event( "legacy compound system grid", { x.empty() ? 0. : x.back(), double( x.size() ) }, !x.empty() );
}
static void c11() {
  auto& c = ctx();
  cases( "resolved grids", 1500, [&] ( Rng& r, long ) {
    std::vector< LGroup > gs{ randomResolved( r ) }; std::set< std::pair< int, double > > seen{ { chan( gs[0].g ).l, chan( gs[0].g ).J } };
    for ( int k = r.i( 0, 3 ); k > 0; --k ) { auto q = randomResolved( r, &gs[0].g ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) gs.push_back( q ); }
    if ( gs[0].res.size() > 1 && r.b( .3 ) ) gs[0].res[1].e = gs[0].res[0].e; if ( gs.size() > 1 && gs[0].res.size() && gs[1].res.size() && r.b() ) { gs[1].res[0].e = gs[0].res[0].e; if ( r.b() ) gs[1].res[0] = gs[0].res[0]; }
    if ( gs[0].res.size() && r.b( .2 ) ) { auto& q = gs[0].res[0]; q.gn = q.gg = q.gf = q.gx = 0.; }
    std::string d; for ( auto& q : gs ) d += ltext( q ) + " | "; describe( d ); c11resolved< SLBW >( gs ); c11resolved< MLBW >( gs );
  } );
  static const double P13[] = { 1.0, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 7.2, 8.5 };
  cases( "unresolved grids", 6000, [&] ( Rng& r, long ) {
    ctx().cpuLimit = 20; int kind = r.i( 0, 5 );
    std::vector< double > en; int n = r.i( 2, 7 ); int dec = kind == 4 ? r.i( -20, -1 ) : r.i( 1, 5 );
    if ( kind <= 2 ) { double v = r.logu( 1e1, 1e5 ); for ( int k = 0; k < n; ++k ) { en.push_back( v ); v *= 1 + ( kind == 0 ? r.logu( 1e-3, 20 ) : kind == 1 ? r.uni( .2, .3 ) : r.logu( 1e-1, 1e4 ) ); } }
    else if ( kind <= 4 ) { std::set< double > s; while ( int( s.size() ) < n ) { double p = P13[ r.i( 0, 12 ) ], v = r.b() ? p * std::pow( 10., dec + r.i( 0, 2 ) ) : std::stod( fmt( "%ge%d", p, dec + r.i( 0, 2 ) ) ); int j = r.i( -1, 1 ); for ( int q = 0; q < 1 && j; ++q ) v = std::nextafter( v, j > 0 ? 1e300 : 0. ); s.insert( v ); } en.assign( s.begin(), s.end() ); }
    else { double v = std::pow( 10., dec ) * P13[ r.i( 0, 12 ) ]; en.push_back( v ); for ( int k = 1; k < n; ++k ) { v = v * 1.25; if ( r.b() ) v = std::nextafter( v, r.b() ? 1e300 : 0. ); en.push_back( v ); } }
    std::string d = "energies"; for ( double e : en ) d += fmt( " %.17g", e ); describe( d );
    auto g = randomUnresolved( r, nullptr, &en ); std::vector< UGroup > gs{ g };
    if ( r.b( .4 ) ) { std::vector< double > e2; for ( double e : en ) if ( r.b( .6 ) ) e2.push_back( e ); e2.push_back( en.back() * r.uni( 1.1, 3 ) ); if ( e2.size() > 1 ) { auto h = randomUnresolved( r, &g.g, &e2 ); h.g.ch[0].l = ( g.g.ch[0].l + 1 ) % 4; gs.push_back( h ); if ( r.b() ) std::swap( gs[0], gs[1] ); for ( double e : e2 ) en.push_back( e ); } }
    std::sort( en.begin(), en.end() ); en.erase( std::unique( en.begin(), en.end() ), en.end() );
    std::vector< lu::SpinGroup > v; for ( auto& q : gs ) v.push_back( make( q ) ); lu::CompoundSystem cs( std::move( v ) ); auto x = gridOf( cs.grid() );
    for ( size_t k = 1; k < x.size(); ++k ) { if ( !( x[k-1] < x[k] ) ) c.fail( "unresolved-order", fmt( "point %zu is %.17g after %.17g", k, x[k], x[k-1] ) ); if ( !( x[k] <= x[k-1] * 1.25 * ( 1 + 1e-14 ) ) ) c.fail( "unresolved-gap", fmt( "points %.17g and %.17g", x[k-1], x[k] ) ); }
    for ( double e : en ) if ( !std::binary_search( x.begin(), x.end(), e ) ) c.fail( "unresolved-missing", fmt( "tabulated energy %.17g is not in the grid", e ) );
    size_t ins = 0;
    for ( size_t k = 0; k < x.size(); ++k ) if ( !std::binary_search( en.begin(), en.end(), x[k] ) ) {
      ++ins; double ex = std::pow( 10., std::floor( std::log10( x[k] ) + 1e-9 ) ), m = x[k] / ex; bool std13 = false; for ( double p : P13 ) std13 |= vh::near( m, p, 1e-13 );
      if ( !std13 || x[k] < en.front() || x[k] > en.back() ) c.fail( "unresolved-extra", fmt( "point %.17g is neither tabulated nor a standard energy in between", x[k] ) );
      auto hi = std::upper_bound( en.begin(), en.end(), x[k] ); if ( hi != en.begin() && hi != en.end() && *hi <= *( hi - 1 ) * 1.25 * ( 1 - 1e-14 ) ) c.fail( "unresolved-extra", fmt( "point %.17g was inserted between %.17g and %.17g", x[k], *( hi - 1 ), *hi ) );
    }
    c.event( ins ? "unresolved grid with inserted points" : "unresolved grid, nothing to insert", { x.front(), x.back(), double( x.size() ) } ); c.sampleEvery( d + fmt( ": %zu points, %zu inserted", x.size(), ins ) );
  } );
}
#endif

#if defined( P14 ) || defined( PALL )
// ---- C14 (legacy part) -----------------------------------------------------------------------
template< typename F > static void mustReject( const std::string& what, F f ) { auto& c = ctx(); if ( !throws( f ) ) c.fail( "accepted:" + what, "accepted although " + what ); c.event( "rejected: " + what, { double( c.idx ), double( c.evaluations ) } ); }
template< typename F > static void mustAccept( const std::string& what, F f ) { auto& c = ctx(); try { f(); } catch ( ... ) { c.fail( "rejected:" + what, "rejected although consistent" ); } c.event( "accepted: " + what, { double( c.idx ), double( c.evaluations ) } ); }
template< typename S, typename C, typename M > static void systems( Rng& r, std::vector< M > gs, std::function< S( const M& ) > mk, const char* name ) {
  auto& c = ctx();
  auto build = [&] ( const std::vector< M >& v ) { std::vector< S > s; for ( auto& g : v ) s.push_back( mk( g ) ); return C( std::move( s ) ); };
  mustAccept( std::string( name ) + " system", [&] { auto s = build( gs ); if ( s.spinGroups().size() != gs.size() ) c.fail( "stored", "number of spin groups" ); for ( size_t k = 0; k < gs.size(); ++k ) { auto x = s.spinGroups()[ long( k ) ]; if ( int( x.orbitalAngularMomentum() ) != chan( gs[k].g ).l || x.totalAngularMomentum() != chan( gs[k].g ).J || x.resonanceTable().numberResonances() != gs[k].res.size() || x.incidentChannel().channelID() != channelID( gs[k].g, chan( gs[k].g ) ) ) c.fail( "stored", "spin group" ); } } );
  mustReject( std::string( name ) + ": no spin groups", [&] { build( {} ); } );
  auto dup = gs; auto x = r.pick( gs ); x.g.ch[0].s += r.b() ? 1 : 0; x.g.ch[0].parity *= r.b() ? 1 : -1; if ( !x.res.empty() && r.b() ) { for ( auto& q : x.res ) q.gg *= 2; } dup.insert( dup.begin() + r.i( 0, int( dup.size() ) ), x );
  mustReject( std::string( name ) + ": an l,J twice", [&] { build( dup ); } );
}
static void c14() {
  auto& c = ctx();
  cases( "data", 400, [&] ( Rng& r, long ) {
    // per-reaction data combine reaction by reaction
    double x[4], y[4]; for ( int k = 0; k < 4; ++k ) { x[k] = r.b( .3 ) ? 0. : r.sgn() * r.logu( 1e-6, 1e6 ); y[k] = r.b( .3 ) ? 0. : r.sgn() * r.logu( 1e-6, 1e6 ); }
    using D = rm::legacy::Data< nj::Width >; auto eq = [&] ( const D& d, const double* w, const char* what ) { if ( d.elastic.value != w[0] || d.capture.value != w[1] || d.fission.value != w[2] || d.competition.value != w[3] ) c.fail( "data", fmt( "%s gives %g %g %g %g", what, d.elastic.value, d.capture.value, d.fission.value, d.competition.value ) ); };
    describe( fmt( "%g %g %g %g and %g %g %g %g", x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3] ) );
    D a( eV( x[0] ), eV( x[1] ), eV( x[2] ), eV( x[3] ) ), b( eV( y[0] ), eV( y[1] ), eV( y[2] ), eV( y[3] ) ); double sum[4], dif[4]; for ( int k = 0; k < 4; ++k ) { sum[k] = x[k] + y[k]; dif[k] = x[k] - y[k]; }
    eq( a, x, "construction" ); eq( a + b, sum, "+" ); eq( a - b, dif, "-" ); D p( a ); p += b; eq( p, sum, "+=" ); D m( a ); m -= b; eq( m, dif, "-=" ); eq( b, y, "the other operand" );
    if ( a.hasElastic() != ( x[0] != 0. ) || a.hasCapture() != ( x[1] != 0. ) || a.hasFission() != ( x[2] != 0. ) || a.hasCompetition() != ( x[3] != 0. ) ) c.fail( "data", "has... does not say whether the value differs from zero" );
    c.event( "data arithmetic", { x[0], x[1], y[0], y[1] } );
  } );
  cases( "legacy construction", 1200, [&] ( Rng& r, long ) {
    std::vector< LGroup > gs{ randomResolved( r ) }; std::set< std::pair< int, double > > seen{ { chan( gs[0].g ).l, chan( gs[0].g ).J } };
    for ( int k = r.i( 0, 4 ); k > 0; --k ) { auto q = randomResolved( r, &gs[0].g ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) gs.push_back( q ); }
    std::string d; for ( auto& q : gs ) d += ltext( q ) + " | "; describe( d );
    systems< lr::SpinGroup< SLBW >, lr::CompoundSystem< SLBW >, LGroup >( r, gs, [] ( const LGroup& g ) { return make< SLBW >( g ); }, "single level" );
    systems< lr::SpinGroup< MLBW >, lr::CompoundSystem< MLBW >, LGroup >( r, gs, [] ( const LGroup& g ) { return make< MLBW >( g ); }, "multi level" );
    auto u = randomUnresolved( r ); std::vector< double > en; for ( auto& q : u.res ) en.push_back( q.e ); std::vector< UGroup > us{ u }; seen = { { chan( u.g ).l, chan( u.g ).J } };
    for ( int k = r.i( 0, 4 ); k > 0; --k ) { auto q = randomUnresolved( r, &u.g, &en ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) us.push_back( q ); }
    d = ""; for ( auto& q : us ) d += utext( q ) + " | "; describe( d );
    systems< lu::SpinGroup, lu::CompoundSystem, UGroup >( r, us, [] ( const UGroup& g ) { return make( g ); }, "unresolved" );
    mustAccept( "unresolved table", [&] { lu::ResonanceTable t( resonances( u ), lu::Degrees( u.de, u.dc, u.df, u.dx ) ); bool ok = t.numberResonances() == u.res.size() && t.degreesOfFreedom().elastic == u.de && t.degreesOfFreedom().capture == u.dc && t.degreesOfFreedom().fission == u.df && t.degreesOfFreedom().competition == u.dx;
      for ( size_t k = 0; ok && k < u.res.size(); ++k ) { auto& x = t.resonances()[k]; auto& q = u.res[k]; ok = x.energy().value == q.e && x.levelSpacing().value == q.D && x.elastic().value == q.gn && x.capture().value == q.gg && x.fission().value == q.gf && x.competition().value == q.gx && t.energies()[ long( k ) ].value == q.e; } if ( !ok ) c.fail( "stored", "unresolved table" ); } );
    unsigned dof[4] = { u.de, u.dc, u.df, u.dx }; dof[ r.i( 0, 3 ) ] = unsigned( r.b( .3 ) ? 4000000000u : 5 + unsigned( r.i( 0, 20 ) ) );
    mustReject( "more than four degrees of freedom", [&] { lu::ResonanceTable t( resonances( u ), lu::Degrees( dof[0], dof[1], dof[2], dof[3] ) ); } );
    auto one = u; one.res.resize( size_t( r.i( 0, 1 ) ) ); mustReject( "fewer than two energies", [&] { lu::ResonanceTable t( resonances( one ), lu::Degrees( u.de, u.dc, u.df, u.dx ) ); } );
    c.sampleEvery( fmt( "%zu resolved and %zu unresolved spin groups: consistent accepted, inconsistent variants rejected", gs.size(), us.size() ) );
  } );
}
#endif

#if defined( P16 ) || defined( PALL )
// ---- C16 (legacy part) -----------------------------------------------------------------------
static bool identical( const Xs& a, const Xs& b ) {
  if ( a.size() != b.size() ) return false;
  for ( auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j ) { if ( !( i->first == j->first ) ) return false; if ( std::memcmp( &i->second, &j->second, sizeof( double ) ) && !( std::isnan( i->second.value ) && std::isnan( j->second.value ) ) ) return false; }
  return true;
}
// cross sections of the same physics computed in another order
static void closeTo( const Xs& a, const Xs& b, double extra, const std::string& key, double E ) {
  auto& c = ctx(); double scale = extra; for ( auto& q : a ) scale += std::fabs( q.second.value );
  if ( a.size() != b.size() ) c.fail( key, fmt( "E=%.17g: %zu and %zu reactions", E, a.size(), b.size() ) );
  for ( auto& q : a ) { auto i = b.find( q.first ); if ( i == b.end() || !( std::fabs( q.second.value - i->second.value ) <= 1e-12 * scale ) ) c.fail( key, fmt( "E=%.17g %s is %.15g or %.15g", E, q.first.symbol().c_str(), q.second.value, i == b.end() ? 0. : i->second.value ) ); }
}
template< typename S, typename C, typename M > static void history( Rng& r, const std::vector< M >& gs, std::function< S( const M& ) > mk, const std::vector< double >& es, const char* name, bool threads ) {
  auto& c = ctx();
  auto build = [&] ( const std::vector< M >& v ) { std::vector< S > s; for ( auto& g : v ) s.push_back( mk( g ) ); return C( std::move( s ) ); };
  std::vector< Xs > want( es.size() ); for ( size_t k = 0; k < es.size(); ++k ) { auto a = build( gs ); a.evaluate( eV( es[k] ), want[k] ); }
  auto grid0 = gridOf( build( gs ).grid() );
  if ( threads ) {
    C shared = build( gs ); std::atomic< int > bad{ 0 }, ready{ 0 }; std::vector< std::thread > th; const int T = 4; const C& cs = shared;
    for ( int t = 0; t < T; ++t ) th.emplace_back( [&, t] { ++ready; while ( ready < T ) std::this_thread::yield(); C own( cs ); for ( int pass = 0; pass < 2; ++pass ) for ( size_t k = 0; k < es.size(); ++k ) { size_t q = ( k + size_t( t ) ) % es.size(); Xs x; own.evaluate( eV( es[q] ), x ); if ( !identical( x, want[q] ) ) ++bad; if ( gridOf( cs.grid() ) != grid0 ) ++bad; } } );
    for ( auto& t : th ) t.join(); if ( bad ) c.fail( "threads", fmt( "%d results differ between threads", bad.load() ) );
    c.event( std::string( "four threads, " ) + name, { es[0], want[0].begin()->second.value } ); return;
  }
  std::vector< C > pool; pool.push_back( build( gs ) ); long h = 0;
  for ( int step = 0; step < 14; ++step ) {
    size_t i = size_t( r.i( 0, int( pool.size() ) - 1 ) ), k = size_t( r.i( 0, int( es.size() ) - 1 ) ); int op = r.i( 0, 7 ); h = h * 8 + op;
    if ( op <= 3 ) { Xs x; pool[i].evaluate( eV( es[k] ), x ); if ( !identical( x, want[k] ) ) c.fail( std::string( "history-" ) + name, fmt( "step %d: cross sections at E=%.17g differ from those of a fresh object", step, es[k] ) ); }
    else if ( op == 4 ) { if ( gridOf( pool[i].grid() ) != grid0 ) c.fail( "history-grid", "grid changed" ); }
    else if ( op == 5 && pool.size() < 4 ) { C copy( pool[i] ); pool.push_back( copy ); }
    else if ( op == 6 ) { C moved( std::move( pool[i] ) ); pool[i] = std::move( moved ); }
    else if ( op == 7 ) {
      Xs x, base; for ( auto& w : want[k] ) base[ w.first ] = r.uni( 0, 10 ) * dimwits::barn; base[ rm::ReactionID( "other->thing" ) ] = 3.5 * dimwits::barn; x = base; pool[i].evaluate( eV( es[k] ), x );
      if ( x.size() != want[k].size() + 1 || x[ rm::ReactionID( "other->thing" ) ].value != 3.5 ) c.fail( "accumulation", "other entries changed" );
      double scale = 10; for ( auto& w : want[k] ) scale += 10 * std::fabs( w.second.value );
      for ( auto& w : want[k] ) { double a = x[ w.first ].value, b = base[ w.first ].value + w.second.value; auto p = gs[0].g.pairs[0]; if ( !( std::fabs( a - b ) <= 1e-12 * scale ) && std::isfinite( b ) ) c.fail( "accumulation", fmt( "E=%.17g %s is %.15g instead of %.15g", es[k], w.first.symbol().c_str(), a, b ) ); }
    }
  }
  c.event( std::string( "history, " ) + name, { double( h ), es[0] } );
  // order of the resonances; order of the groups behind the first (whose radius sets the potential scattering)
  auto hs = gs; if ( hs.size() > 2 ) { std::vector< M > tail( hs.begin() + 1, hs.end() ); r.shuffle( tail ); std::copy( tail.begin(), tail.end(), hs.begin() + 1 ); }
  if constexpr ( std::is_same< M, LGroup >::value ) for ( auto& g : hs ) r.shuffle( g.res );
  auto o = build( hs );
  for ( size_t k = 0; k < es.size(); ++k ) {
    Xs x; o.evaluate( eV( es[k] ), x ); auto kin = kinematics( gs[0].g, chan( gs[0].g ), es[k], charged() ); double extra = double( 4 * PI / ( kin.k * kin.k ) );
    closeTo( want[k], x, extra * 60, std::string( "order-" ) + name, es[k] ); c.event( std::string( "order, " ) + name, { es[k], x.begin()->second.value } );
    Xs sum; int lmax = 0; for ( auto& g : gs ) { Xs one; auto s = mk( g ); s.evaluate( eV( es[k] ), one ); for ( auto& q : one ) sum[ q.first ] = sum[ q.first ] + q.second; lmax = std::max( lmax, chan( g.g ).l ); }
    auto& el = sum[ rm::ReactionID( elasticID( gs[0].g ) ) ]; el = el + double( potential( gs[0].g, lmax, es[k] ).v ) * dimwits::barn;
    closeTo( want[k], sum, extra * 60, std::string( "sum-" ) + name, es[k] ); c.event( std::string( "sum of spin groups, " ) + name, { es[k], x.begin()->second.value } );
  }
}
static void c16( bool threads ) {
  auto& c = ctx();
  cases( threads ? "legacy threads" : "legacy histories", threads ? 60 : 500, [&] ( Rng& r, long ) {
    std::vector< LGroup > gs{ randomResolved( r ) }; std::set< std::pair< int, double > > seen{ { chan( gs[0].g ).l, chan( gs[0].g ).J } };
    for ( int k = r.i( 0, 3 ); k > 0; --k ) { auto q = randomResolved( r, &gs[0].g ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) gs.push_back( q ); }
    std::string d; for ( auto& q : gs ) d += ltext( q ) + " | "; describe( d );
    std::vector< double > es; for ( int k = 0; k < 5; ++k ) es.push_back( energyFor( r, r.pick( gs ) ) );
    neighbours( r, es, 3 );
    history< lr::SpinGroup< SLBW >, lr::CompoundSystem< SLBW >, LGroup >( r, gs, [] ( const LGroup& g ) { return make< SLBW >( g ); }, es, "single level", threads );
    history< lr::SpinGroup< MLBW >, lr::CompoundSystem< MLBW >, LGroup >( r, gs, [] ( const LGroup& g ) { return make< MLBW >( g ); }, es, "multi level", threads );
    auto u = randomUnresolved( r ); std::vector< double > en; for ( auto& q : u.res ) en.push_back( q.e ); std::vector< UGroup > us{ u }; seen = { { chan( u.g ).l, chan( u.g ).J } };
    for ( int k = r.i( 0, 3 ); k > 0; --k ) { auto q = randomUnresolved( r, &u.g, &en ); if ( seen.insert( { chan( q.g ).l, chan( q.g ).J } ).second ) us.push_back( q ); }
    d = ""; for ( auto& q : us ) d += utext( q ) + " | "; describe( d );
    es.clear(); for ( int k = 0; k < 5; ++k ) es.push_back( r.b( .3 ) ? r.pick( en ) : r.uni( en[0], en.back() ) );
    neighbours( r, es, 3, en[0], en.back() );
    history< lu::SpinGroup, lu::CompoundSystem, UGroup >( r, us, [] ( const UGroup& g ) { return make( g ); }, es, "unresolved", threads );
    c.sampleEvery( "histories of 14 operations on single level, multi level and unresolved systems" );
  } );
}
#endif

#ifdef PALL
// objects with extreme parameters at extreme energies: a value or an exception
template< typename System, typename Model, typename Make > static void hostile( Rng& r, const std::vector< Model >& gs, Make&& mk, const char* name ) {
  auto& c = ctx(); bool accepted = false; double n = 0, thrown = 0;
  try {
    std::vector< decltype( mk( gs[0] ) ) > v; for ( auto& g : gs ) v.push_back( mk( g ) ); System s( std::move( v ) ); accepted = true; System t( s );
    for ( int k = 0; k < 6; ++k ) { double E = hostileEnergy( r ); try { Xs x; t.evaluate( eV( E ), x ); n += double( x.size() ); } catch ( const std::exception& ) { ++thrown; } }
    try { n += double( gridOf( t.grid() ).size() ); } catch ( const std::exception& ) { ++thrown; }
    System u( std::move( t ) ); try { Xs x; u.evaluate( eV( 1. ), x ); n += double( x.size() ); } catch ( const std::exception& ) { ++thrown; }
  } catch ( const std::exception& ) {}
  c.event( std::string( "hostile objects, " ) + name + ( accepted ? ", accepted" : ", rejected" ), { n, thrown, r.u() } );
}
static void c15() {
  cases( "hostile legacy", 1500, [&] ( Rng& r, long ) {
    std::vector< LGroup > gs{ randomResolved( r ) }; for ( int k = r.i( 0, 3 ); k > 0; --k ) gs.push_back( randomResolved( r, &gs[0].g ) );
    auto u = randomUnresolved( r ); std::vector< double > en; for ( auto& q : u.res ) en.push_back( q.e ); std::vector< UGroup > us{ u }; for ( int k = r.i( 0, 3 ); k > 0; --k ) us.push_back( randomUnresolved( r, &u.g, &en ) );
    for ( int k = r.i( 0, 3 ); k > 0; --k ) {
      auto& g = gs[ size_t( r.i( 0, int( gs.size() ) - 1 ) ) ]; auto& w = us[ size_t( r.i( 0, int( us.size() ) - 1 ) ) ];
      switch ( r.i( 0, 4 ) ) {
        case 0: g.qx = hostileValue( r ); break; case 1: g.g.ch[0].l = r.i( 0, 9 ); w.g.ch[0].l = r.i( 0, 9 ); break; case 2: g.g.ch[0].r[0] = Radius(); g.g.ch[0].r[0].value = hostileValue( r ); w.g.ch[0].r[0] = Radius(); w.g.ch[0].r[0].value = hostileValue( r ); break;
        case 3: if ( !w.res.empty() ) { auto& q = w.res[ size_t( r.i( 0, int( w.res.size() ) - 1 ) ) ]; double* f[] = { &q.e, &q.D, &q.gn, &q.gg, &q.gf, &q.gx }; *f[ r.i( 0, 5 ) ] = hostileValue( r ); } if ( r.b( .3 ) ) { unsigned* d[] = { &w.de, &w.dc, &w.df, &w.dx }; *d[ r.i( 0, 3 ) ] = unsigned( r.i( 0, 9 ) ); } break;
        default: if ( !g.res.empty() ) { auto& q = g.res[ size_t( r.i( 0, int( g.res.size() ) - 1 ) ) ]; double* f[] = { &q.e, &q.gn, &q.gg, &q.gf, &q.gx, &q.P, &q.Q, &q.S }; *f[ r.i( 0, 7 ) ] = hostileValue( r ); } }
    }
    std::string d; for ( auto& q : gs ) d += ltext( q ) + " | "; for ( auto& q : us ) d += utext( q ) + " | "; describe( d );
    hostile< lr::CompoundSystem< SLBW > >( r, gs, [] ( const LGroup& g ) { return make< SLBW >( g ); }, "single level" );
    hostile< lr::CompoundSystem< MLBW > >( r, gs, [] ( const LGroup& g ) { return make< MLBW >( g ); }, "multi level" );
    hostile< lu::CompoundSystem >( r, us, [] ( const UGroup& g ) { return make( g ); }, "unresolved" );
  } );
}
#endif
#define RUN( n, ... ) if ( p == "C" #n || p == "C15" || p == "ALL" ) { __VA_ARGS__; known = true; }
int main( int argc, char** argv ) {
  init( argc, argv ); auto p = ctx().prop; bool known = false;
#if defined( P09 ) || defined( PALL )
  RUN( 09, c09() )
#endif
#if defined( P10 ) || defined( PALL )
  RUN( 10, c10() )
#endif
#if defined( P11 ) || defined( PALL )
  RUN( 11, c11() )
#endif
#if defined( P14 ) || defined( PALL )
  RUN( 14, c14() )
#endif
#if defined( P16 ) || defined( PALL )
  RUN( 16, c16( ctx().opt.count( "threads" ) ) )
#endif
#ifdef PALL
  if ( p == "C15" ) c15();
#endif
  if ( !known ) return 3;
  if ( ctx().opt.count( "ratio" ) ) std::fprintf( stderr, "max error/tolerance %g\n", maxratio );
  return finish();
}
