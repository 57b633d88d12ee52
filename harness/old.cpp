// Monitor of the older interfaces (C17): breitWigner::singleLevel, breitWigner::multiLevel, reichMoore.
#include "resonanceReconstruction.hpp"
#include "refrm.hpp"
using namespace vh; using namespace model;
namespace nj = njoy::resonanceReconstruction;
namespace mt = njoy::ENDFtk::mt151;
namespace bw = nj::breitWigner;

enum Kind { SLBW, MLBW, RMOORE };
static const char* names[] = { "SLBW", "MLBW", "Reich-Moore" };
struct Row { double e, aj, gn, gg, f1, f2, gx; };
struct LV { int l; double awri, qx = 0, apl = 0; int lrx = 0; std::vector< Row > rows; };
struct Data { Kind kind; double I, ap, el, eh; int nro = 0, naps = 0; Radius table; std::vector< LV > lv; };

using Eval = std::function< std::array< double, 3 >( double ) >;
struct Keep {
  template< typename T > Eval operator()( T&& t ) const {
    auto p = std::make_shared< std::decay_t< T > >( std::move( t ) );
    return [p] ( double e ) { auto x = ( *p )( e * dimwits::electronVolts ); return std::array< double, 3 >{ { x.elastic.value, x.capture.value, x.fission.value } }; };
  }
};
static mt::ResonanceRange range( const Data& d ) {
  mt::ResonanceRange rr; rr.el = d.el; rr.eh = d.eh; rr.lru = 1; rr.nro = d.nro; rr.naps = d.naps; rr.lrf = int( d.kind ) + 1;
  if ( d.table.table ) {
    std::vector< long > bounds, laws; std::vector< double > x, y;
    for ( auto& g : d.table.regions ) { size_t k0 = 0; if ( !x.empty() && y.back() == g.y[0] ) k0 = 1; for ( size_t k = k0; k < g.x.size(); ++k ) { x.push_back( g.x[k] ); y.push_back( g.y[k] ); } bounds.push_back( long( x.size() ) ); laws.push_back( g.law ); }
    rr.radius.emplace( std::move( bounds ), std::move( laws ), std::move( x ), std::move( y ) );
  }
  if ( d.kind == RMOORE ) {
    mt::ReichMoore p; p.spi = d.I; p.ap = d.ap; p.nlsc = 0;
    for ( auto& l : d.lv ) { mt::ReichMooreLValue v; v.l = l.l; v.awri = l.awri; v.apl = l.apl; for ( auto& r : l.rows ) v.rows.push_back( { r.e, r.aj, r.gn, r.gg, r.f1, r.f2 } ); p.lvalues.push_back( v ); p.nlsc = std::max( p.nlsc, l.l + 1 ); }
    rr.par = p;
  } else {
    auto fill = [&] ( auto p ) { p.spi = d.I; p.ap = d.ap; for ( auto& l : d.lv ) { mt::BreitWignerLValue v; v.l = l.l; v.awri = l.awri; v.qx = l.qx; v.lrx = l.lrx; for ( auto& r : l.rows ) v.rows.push_back( { r.e, r.aj, r.gn + r.gg + r.f1 + r.gx, r.gn, r.gg, r.f1 } ); p.lvalues.push_back( v ); } rr.par = p; };
    if ( d.kind == SLBW ) fill( mt::SingleLevelBreitWigner() ); else fill( mt::MultiLevelBreitWigner() );
  }
  return rr;
}
static Eval apply( Kind k, const mt::ResonanceRange& rr ) {
  switch ( k ) { case SLBW: return bw::singleLevel::Apply{}( rr, Keep{} ); case MLBW: return bw::multiLevel::Apply{}( rr, Keep{} ); default: return nj::reichMoore::Apply{}( rr, Keep{} ); }
}
// ---- the reference ---------------------------------------------------------------------------
struct Noise { Rng* r = nullptr; ld rel( ld x, ld e = 4e-15L ) { return r ? x * ( 1 + e * ( 2 * r->u() - 1 ) ) : x; } ld abs( ld x, ld e ) { return r ? x + e * ( 2 * r->u() - 1 ) : x; } };
struct Ref { ld v[3] = { 0, 0, 0 }, scale = 0, cond = 0; };
static std::vector< double > spinList( double a, double b ) { std::vector< double > v; for ( double s = std::fabs( a - b ); s <= a + b + .1; s += 1 ) v.push_back( s ); return v; }
static std::set< double > possibleJ( double I, int l ) { std::set< double > v; for ( double s : spinList( I, .5 ) ) for ( double j : spinList( s, l ) ) v.insert( j ); return v; }
// the library's sqrt(2 m_n) / hbar (checked against an independent value below), the rest independently
static ld waveNumber( double awri, ld E ) { static const ld c = 2.L * nj::neutronWaveNumber( 1. )( 1. * dimwits::electronVolts ).value; return c * awri / ( awri + 1.L ) * sqrtl( fabsl( E ) ); }

static Ref reference( const Data& d, double E0, Rng* rng ) {
  Noise n{ rng }; Ref out; const double awri = d.lv.front().awri; const ld E = n.rel( E0, 4e-16L );
  auto k = [&] ( ld e ) { return n.rel( waveNumber( awri, e ) ); };
  ld formula = .123L * cbrtl( 1.00866491582L * awri ) + .08L;
  // penetrability and phase radii
  auto radP = [&] ( const LV& l, ld e ) -> ld {
    e = fabsl( e );
    if ( d.kind == RMOORE && l.apl != 0. && ( ( d.nro == 0 && d.naps == 1 ) || ( d.nro == 1 && d.naps == 2 ) ) ) return l.apl;
    if ( d.naps == 0 ) return formula; if ( d.nro == 1 && d.naps == 1 ) return d.table.at( double( e ) ); return d.ap; };
  auto radF = [&] ( const LV& l, ld e ) -> ld {
    if ( d.kind == RMOORE && l.apl != 0. && d.nro == 0 ) return l.apl;
    return d.nro == 1 ? (ld)d.table.at( double( e ) ) : (ld)d.ap; };
  const ld kk = k( E ); ld F = PI / ( kk * kk );
  struct Kin { ld P, S; }; auto kin = [&] ( const LV& l, ld e ) { ld rho = n.rel( k( e ) * radP( l, e ) ); auto h = ref::hardSphere( l.l, double( rho ) ); return Kin{ n.rel( h.P, 4e-15L * ( 1 + l.l ) ), n.rel( h.S, 4e-15L * ( 1 + l.l ) ) }; };
  for ( auto& l : d.lv ) {
    Kin at = kin( l, E ); ld rF = k( E ) * radF( l, E0 ); ld phi = n.abs( ref::hardSphere( l.l, double( n.rel( rF ) ) ).phi, 4e-16L * ( 2 + l.l ) * rF ), s = sinl( phi ), s2 = sinl( 2 * phi );
    ld off = l.lrx ? (ld)l.qx * ( l.awri + 1.L ) / l.awri : 0, Qe = 0; if ( l.lrx && E + off > 0 ) Qe = kin( l, n.abs( E + off, 4e-16L * ( fabsl( E ) + 2 * fabsl( off ) ) ) ).P;
    if ( d.kind != RMOORE ) {
      if ( d.kind == SLBW ) { out.v[0] += F * 4 * ( 2 * l.l + 1 ) * s * s; out.scale += F * 4 * ( 2 * l.l + 1 ) * s * s; }
      std::map< double, cld > U; std::map< double, ld > mag; for ( double J : possibleJ( d.I, l.l ) ) { U[J] = 0; mag[J] = 0; }
      for ( auto& r : l.rows ) {
        Kin res = kin( l, r.e ); ld g = ( 2 * std::fabs( r.aj ) + 1 ) / ( 2 * ( 2 * d.I + 1 ) ), gn = n.rel( r.gn ) * at.P / res.P;
        double gt = r.gn + r.gg + r.f1 + r.gx, gx = gt - ( r.gn + r.gg + r.f1 ); ld G = gn + n.rel( r.gg ) + n.rel( r.f1 ); if ( l.lrx ) { Kin q = kin( l, n.abs( r.e + off, 4e-16L * ( fabsl( r.e ) + 2 * fabsl( off ) ) ) ); G += n.rel( gx ) * Qe / q.P; }
        ld dd = E - ( n.rel( r.e, 4e-16L ) + r.gn / res.P * ( res.S - at.S ) / 2 ), den = dd * dd + G * G / 4;
        ld a = F * g * gn / den;
        if ( d.kind == SLBW ) { out.v[0] += a * ( gn - 2 * G * s * s + 2 * dd * s2 ); out.scale += a * ( gn + 2 * G * s * s + 2 * fabsl( dd * s2 ) ); }
        else { double J = std::fabs( r.aj ); U[J] += gn / cld( -dd, -G / 2 ); mag[J] += gn / sqrtl( den ); }
        out.v[1] += a * r.gg; out.v[2] += a * r.f1; out.scale += a * ( r.gg + r.f1 );
      }
      if ( d.kind == MLBW ) {
        ld sum = 0; for ( auto& u : U ) { ld g = ( 2 * u.first + 1 ) / ( 2 * ( 2 * d.I + 1 ) ); sum += g; cld w = cld( 1 ) - cld( cosl( 2 * phi ), -s2 ) * ( cld( 1 ) + cld( 0, 1 ) * u.second ); out.v[0] += F * g * norm( w ); out.scale += F * g * ( 4 * s * s + mag[u.first] * mag[u.first] + 2 * fabsl( s2 ) * mag[u.first] ); }
        ld D = 2 * l.l + 1 - sum; out.v[0] += F * 4 * D * s * s; out.scale += F * 4 * fabsl( D ) * s * s;
      }
    } else {
      std::map< double, std::vector< const Row* > > groups; for ( auto& r : l.rows ) groups[ r.aj ].push_back( &r ); ld gs = 0;
      for ( auto& q : groups ) {
        ld g = ( 2 * std::fabs( q.first ) + 1 ) / ( 2 * ( 2 * d.I + 1 ) ); gs += g; cld M[3][6] = {}; ld big = 1;
        for ( auto* r : q.second ) {
          ld P = kin( l, r->e ).P, w[3] = { sqrtl( n.rel( r->gn ) * at.P / P ), ( r->f1 < 0 ? -1 : 1 ) * sqrtl( fabsl( n.rel( r->f1 ) ) ), ( r->f2 < 0 ? -1 : 1 ) * sqrtl( fabsl( n.rel( r->f2 ) ) ) };
          cld den( n.rel( r->gg ), 2 * ( n.rel( r->e, 4e-16L ) - E ) );
          for ( int a = 0; a < 3; ++a ) for ( int b = 0; b < 3; ++b ) { cld t = w[a] * w[b] / den; M[a][b] += t; big = std::max( big, abs( t ) ); }
        }
        for ( int a = 0; a < 3; ++a ) { M[a][a] += cld( 1 ); M[a][ a + 3 ] = 1; }
        ld det = 1; for ( int c = 0; c < 3; ++c ) { int p = c; for ( int a = c + 1; a < 3; ++a ) if ( abs( M[a][c] ) > abs( M[p][c] ) ) p = a; if ( p != c ) std::swap_ranges( M[p], M[p] + 6, M[c] ); det *= abs( M[c][c] ); cld iv = cld( 1 ) / M[c][c]; for ( int b = 0; b < 6; ++b ) M[c][b] *= iv; for ( int a = 0; a < 3; ++a ) if ( a != c ) { cld f = M[a][c]; for ( int b = 0; b < 6; ++b ) M[a][b] -= f * M[c][b]; } }
        cld ph( cosl( 2 * phi ), -s2 ), u00 = ph * ( 2.L * M[0][3] - cld( 1 ) ), u01 = ph * 2.L * M[0][4], u02 = ph * 2.L * M[0][5];
        ld el = norm( cld( 1 ) - u00 ), fi = norm( u01 ) + norm( u02 ), tot = 2 * ( 1 - u00.real() );
        out.v[0] += F * g * el; out.v[2] += F * g * fi; out.v[1] += F * g * ( tot - el - fi ); out.scale += F * g * ( fabsl( tot ) + el + fi + 1 );
        ld inv = abs( M[0][3] ) + abs( M[0][4] ) + abs( M[0][5] ); out.cond += F * g * 1e-15L * ( big * big / det + inv * big * big * big / det ) * 8;
      }
      out.v[0] += F * ( 2 * l.l + 1 - gs ) * 4 * s * s; out.scale += F * ( 2 * l.l + 1 ) * ( 4 * s * s );
    }
  }
  return out;
}
static std::string text( const Data& d ) {
  std::string s = fmt( "%s I=%g AP=%.10g NRO=%d NAPS=%d", names[d.kind], d.I, d.ap, d.nro, d.naps );
  for ( auto& g : d.table.regions ) { s += fmt( " (law %d", g.law ); for ( size_t k = 0; k < g.x.size(); ++k ) s += fmt( " %.8g:%.8g", g.x[k], g.y[k] ); s += ")"; }
  for ( auto& l : d.lv ) { s += fmt( " l=%d AWRI=%.10g QX=%.8g LRX=%d APL=%.8g", l.l, l.awri, l.qx, l.lrx, l.apl ); for ( auto& r : l.rows ) s += fmt( " {%.12g %g %.8g %.8g %.8g %.8g %.8g}", r.e, r.aj, r.gn, r.gg, r.f1, r.f2, r.gx ); }
  return s;
}
static Data randomData( Rng& r, Kind kind ) {
  Data d; d.kind = kind; static const double aw[] = { 233.0248, 55.45443, 27.737, 105.987, 236.9986, .9991673, 15.8575, 103.99 };
  double awri = aw[ r.i( 0, 7 ) ] * r.uni( .999, 1.001 ); d.I = .5 * r.i( 0, r.b( .3 ) ? 9 : 3 ); d.ap = r.uni( .1, 1.3 ); d.el = r.b( .4 ) ? 1e-5 : r.logu( 1e-5, 1e4 ); d.eh = d.el * r.logu( 3, 1e6 ); if ( d.eh < 10 ) d.eh = r.logu( 10, 1e5 );
  d.nro = r.b( .4 ); d.naps = r.i( 0, d.nro ? 2 : 1 );
  if ( d.nro ) {
    d.table.table = true; int nreg = r.b( .6 ) ? 1 : r.i( 2, 3 ); double e = 1e-13, y = 0;
    for ( int q = 0; q < nreg; ++q ) { Region g; g.law = r.i( 1, 5 ); int n = r.i( 2, 4 ); for ( int k = 0; k < n; ++k ) { if ( k == 0 && q ) { g.x.push_back( e ); g.y.push_back( r.b( .7 ) ? y : r.uni( .2, 1.3 ) ); continue; } if ( k || q ) e = ( k + 1 == n && q + 1 == nreg ) ? 1e20 : e * r.logu( 3, 2e3 ); y = r.uni( .2, 1.3 ); g.x.push_back( e ); g.y.push_back( y ); } d.table.regions.push_back( g ); y = g.y.back(); e = g.x.back(); }
  }
  int nls = r.b( .4 ) ? 1 : r.i( 2, 5 ); bool fissile = r.b( .5 );
  for ( int l = 0; l < nls; ++l ) {
    if ( kind == RMOORE && l + 1 < nls && r.b( .1 ) ) continue;
    LV v; v.l = l; v.awri = awri;
    if ( kind != RMOORE ) { v.lrx = r.b( .4 ); v.qx = v.lrx || r.b( .1 ) ? ( r.b( .85 ) ? -1 : 1 ) * r.logu( 1e-1, 1e6 ) : 0.; }
    else v.apl = r.b( .5 ) ? 0. : r.b( .3 ) ? d.ap : r.uni( .1, 1.3 );
    auto set = possibleJ( d.I, l ); std::vector< double > Js( set.begin(), set.end() ); r.shuffle( Js ); Js.resize( size_t( r.i( 1, std::min( 3, int( Js.size() ) ) ) ) );
    for ( double J : Js ) {
      int ways = 0; for ( double s : spinList( d.I, .5 ) ) for ( double j : spinList( s, l ) ) ways += j == J; std::vector< double > aj{ J > 0 && r.b( .15 ) ? -J : J }; if ( kind == RMOORE && ways == 2 && J > 0 && r.b() ) aj = { J, -J };
      bool f1 = fissile && r.b( .8 ), f2 = kind == RMOORE && fissile && r.b( .6 );
      for ( double a : aj ) for ( int n = r.b( .3 ) ? 1 : r.i( 1, 5 ); n > 0; --n ) {
        Row q{}; q.aj = a; q.e = r.b( .25 ) ? -r.logu( 1e-1, 1e4 ) : r.b( .15 ) ? d.eh * r.uni( 1, 3 ) : r.logu( std::max( d.el, 1e-1 ), d.eh ); q.gg = r.b( .06 ) ? 0. : r.logu( 1e-3, 5 );
        if ( f1 && !r.b( .2 ) ) q.f1 = ( kind == RMOORE ? r.sgn() : 1 ) * r.logu( 1e-4, 3 ); if ( f2 && !r.b( .2 ) ) q.f2 = r.sgn() * r.logu( 1e-4, 3 ); if ( kind != RMOORE && r.b() ) q.gx = r.logu( 1e-4, 3 );
        ld off = v.lrx ? (ld)v.qx * ( awri + 1.L ) / awri : 0; if ( v.lrx && fabsl( q.e + off ) < 1e-7L * fabsl( off ) ) continue;
        auto P = [&] ( ld e ) { return ref::hardSphere( l, double( waveNumber( awri, e ) * .1L ) ).P; }; double p = P( q.e ); if ( !( p > 1e-60 ) || ( v.lrx && !( P( q.e + off ) > 1e-60 ) ) ) continue;
        q.gn = r.logu( 1e-5, 1e2 ); if ( q.gn > 4e6 * p ) q.gn = p * r.logu( 1e-3, 4e6 ); if ( q.gx != 0. && q.gx < 1e-9 * ( q.gn + q.gg + q.f1 ) ) q.gx = 0;
        v.rows.push_back( q );
      }
    }
    r.shuffle( v.rows ); if ( r.b( .05 ) ) v.rows.clear();
    d.lv.push_back( v );
  }
  return d;
}
static double maxratio = 0;
static void check( Rng& r, const Data& d, const Eval& f, double E ) {
  auto& c = ctx(); auto got = f( E ); Ref w = reference( d, E, nullptr ); ld spread[3] = { 0, 0, 0 };
  for ( int k = 0; k < 6; ++k ) { Ref q = reference( d, E, &r ); for ( int i = 0; i < 3; ++i ) spread[i] = std::max( spread[i], fabsl( q.v[i] - w.v[i] ) ); }
  bool decided = true;
  for ( int i = 0; i < 3; ++i ) {
    ld tol = 6 * spread[i] + 4e-14L * w.scale + w.cond; if ( !( tol < .01L * w.scale ) ) { decided = false; continue; }
    ld e = fabsl( got[ size_t( i ) ] - w.v[i] ); if ( e <= tol ) maxratio = std::max( maxratio, double( e / tol ) );
    if ( !( e <= tol ) ) c.fail( fmt( "old-%s-%s", names[d.kind], i == 0 ? "elastic" : i == 1 ? "capture" : "fission" ), fmt( "E=%.17g component %d is %.15g instead of %.15Lg (tolerance %.3Lg)", E, i, got[ size_t( i ) ], w.v[i], tol ) );
  }
  bool comp = false, apl = false, fis = false, both = false, neg = false; for ( auto& l : d.lv ) { comp |= l.lrx; apl |= l.apl != 0.; std::set< double > js; for ( auto& x : l.rows ) { fis |= x.f1 != 0. || x.f2 != 0.; neg |= x.e < 0; both |= js.count( -x.aj ) > 0; js.insert( x.aj ); } }
  if ( !decided ) { c.event( "not decided (below the resolution of double precision)", { E }, false ); return; }
  c.event( fmt( "%s, NRO=%d NAPS=%d%s%s%s", names[d.kind], d.nro, d.naps, apl ? ", l-dependent radius" : "", comp ? ", competition" : "", fis ? ", fission" : "" ), { E, got[0], got[1], got[2] } );
  if ( both ) c.event( "both channel spins of a J", { E, got[0] } ); if ( neg ) c.event( fmt( "bound levels%s", d.nro ? ", radius table" : "" ), { E, got[0] } );
  if ( comp ) for ( auto& l : d.lv ) if ( l.lrx ) c.event( E + l.qx * ( l.awri + 1 ) / l.awri > 0 ? "competition open" : "competition closed", { E, got[0], double( l.l ) } );
  auto again = f( E ); if ( std::memcmp( &again, &got, sizeof got ) ) c.fail( "old-not-repeatable", fmt( "E=%.17g a second evaluation differs", E ) );
  c.sampleEvery( fmt( "E=%.9g elastic %.9g capture %.9g fission %.9g | ", E, got[0], got[1], got[2] ) + c.desc.substr( 0, 160 ) );
}
static double pickEnergy( Rng& r, const Data& d ) {
  double u = r.u(); auto& l = d.lv[ size_t( r.i( 0, int( d.lv.size() ) - 1 ) ) ];
  if ( u < .5 && !l.rows.empty() ) { auto& q = r.pick( l.rows ); double e = std::fabs( q.e ) + r.sgn() * r.logu( 1e-3, 30 ) * ( q.gg + q.gn + std::fabs( q.f1 ) ); if ( e > 1e-5 ) return e; }
  if ( u < .6 && l.lrx ) return std::max( 1e-5, std::fabs( l.qx ) * r.uni( .5, 2 ) );
  if ( u < .7 ) return r.logu( 1e-5, 1e-1 ); return r.logu( d.el, d.eh );
}
int main( int argc, char** argv ) {
  init( argc, argv ); auto& c = ctx();
  for ( int k = 0; k < 3; ++k ) cases( names[k], 900, [&] ( Rng& r, long ) {
    Data d = randomData( r, Kind( k ) ); describe( text( d ) ); auto rr = range( d ); Eval f = apply( d.kind, rr );   // the radius table refers to the range
    for ( int n = 8; n > 0; --n ) check( r, d, f, pickEnergy( r, d ) ); } );
  cases( "wave number", 300, [&] ( Rng& r, long ) {
    double A = r.logu( .9, 260 ), E = r.sgn() * r.logu( 1e-5, 2e7 ), k = nj::neutronWaveNumber( A )( E * dimwits::electronVolts ).value; ld w = 2.196807122623e-3L * A / ( A + 1.L ) * sqrtl( fabsl( E ) );
    describe( fmt( "AWRI=%.10g E=%.17g", A, E ) ); if ( !( fabsl( k - w ) <= 2e-6L * w ) ) c.fail( "old-wave-number", fmt( "k is %.12g instead of %.12Lg", k, w ) ); c.event( "wave number", { A, E, k } );
    double a = nj::channelRadius( A )( E * dimwits::electronVolts ).value; ld b = .123L * cbrtl( 1.00866491582L * A ) + .08L; if ( !( fabsl( a - b ) <= 1e-13L * b ) ) c.fail( "old-channel-radius", fmt( "radius is %.15g instead of %.15Lg", a, b ) ); c.event( "channel radius", { A, a } ); } );
  cases( "rejected", 300, [&] ( Rng& r, long k ) {
    Data d = randomData( r, Kind( r.i( 0, 2 ) ) ); const char* what = "";
    auto must = [&] ( Kind as, const mt::ResonanceRange& rr ) { describe( std::string( what ) + " " + text( d ) ); c.event( std::string( "rejected: " ) + what, { double( k ), d.ap } ); if ( !throws( [&] { apply( as, rr ); } ) ) c.fail( std::string( "old-accepted-" ) + what, "accepted" ); };
    switch ( k % 5 ) {
      case 0: what = "another formalism"; must( Kind( ( d.kind + r.i( 1, 2 ) ) % 3 ), range( d ) ); break;
      case 1: what = "unknown radius option"; d.naps = d.nro ? r.pick( { 3, 4, -1 } ) : r.pick( { 2, 3, -1 } ); must( d.kind, range( d ) ); break;
      case 2: what = "l beyond 4"; d.lv.back().l = r.i( 5, 9 ); must( d.kind, range( d ) ); break;
      case 3: what = "missing radius table"; d.nro = 1; d.naps = r.i( 0, 2 ); d.table = Radius(); must( d.kind, range( d ) ); break;
      case 4: what = "unknown interpolation law"; { d.nro = 1; d.naps = r.i( 0, 2 ); d.table = Radius(); d.table.table = true; Region g; g.law = r.pick( { 0, 6, 11 } ); g.x = { 1e-13, 1e20 }; g.y = { .5, .6 }; d.table.regions.push_back( g ); } must( d.kind, range( d ) ); break;
    } } );
  if ( c.prop == "C15" ) cases( "hostile old", 2000, [&] ( Rng& r, long ) {
    Data d = randomData( r, Kind( r.i( 0, 2 ) ) );
    for ( int k = r.i( 1, 3 ); k > 0; --k ) {
      auto& l = d.lv[ size_t( r.i( 0, int( d.lv.size() ) - 1 ) ) ];
      switch ( r.i( 0, 8 ) ) {
        case 0: d.ap = hostileValue( r ); break; case 1: d.naps = r.i( -1, 3 ); break; case 2: d.nro = r.i( 0, 1 ); break; case 3: l.awri = hostileValue( r ); break; case 4: l.qx = hostileValue( r ); l.lrx = 1; break; case 5: l.l = r.i( 0, 6 ); break; case 6: l.rows.clear(); break; case 7: d.I = r.i( 0, 20 ) * .5; break;
        default: if ( !l.rows.empty() ) { auto& q = l.rows[ size_t( r.i( 0, int( l.rows.size() ) - 1 ) ) ]; double* f[] = { &q.e, &q.gn, &q.gg, &q.f1, &q.f2, &q.gx, &q.aj }; int n = r.i( 0, 6 ); *f[n] = n == 6 ? r.sgn() * r.i( 0, 20 ) * .5 : hostileValue( r ); } }
    }
    describe( text( d ) ); bool accepted = false; double n = 0;
    try { auto rr = range( d ); Eval f = apply( d.kind, rr ); accepted = true; for ( int k = 0; k < 5; ++k ) { try { n += std::isfinite( f( hostileEnergy( r ) )[0] ); } catch ( const std::exception& ) { n += 100; } } } catch ( const std::exception& ) {}
    c.event( std::string( "hostile old, " ) + names[ d.kind ] + ( accepted ? ", accepted" : ", rejected" ), { n, d.ap } );
  } );
  c.sample( fmt( "largest error / tolerance of the passing comparisons: %.3g", maxratio ) );
  return finish();
}
