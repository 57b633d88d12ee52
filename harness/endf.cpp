// Monitors of the reconstruction from ENDF data: C12 (dispatch, range, radii), C13 (conversion of the
// parameters), C11 (grid of the reconstructed range) and hostile data for C15.
#include "refleg.hpp"
#include "refxs.hpp"
namespace mt = njoy::ENDFtk::mt151;

struct Data {
  mt::ResonanceRange rr; std::string kind, in = "n", tgt; double nm = 1.00866491582, awri = 0, I = 0, ap = 0;
  Radius table; bool multi = false; size_t index = 0;
  std::vector< LGroup > bw; std::vector< UGroup > ur; std::vector< Group > rmg; std::string text;
  bool shape() const { return !bw.empty(); }
};
static rm::Reconstructor convert( const Data& d ) {
  return rm::fromENDF( d.rr, d.nm * dimwits::daltons, dimwits::constant::elementaryCharge, rm::ParticleID( d.in ), rm::ParticleID( d.tgt ) ); }

// ---- generators ------------------------------------------------------------------------------
static bool radiusEmphasis = false;
static void randomTable( Rng& r, Data& d ) {
  int nreg = r.b( .6 ) ? 1 : r.i( 2, 3 ); std::vector< long > bounds, laws; std::vector< double > x, y;
  double e = 1e-13; d.table = Radius(); d.table.table = true;
  for ( int k = 0; k < nreg; ++k ) {
    int n = r.i( 2, 4 ), law = r.i( 1, 5 ); Region g; g.law = law;
    if ( k ) { g.x.push_back( x.back() ); if ( r.b( .3 ) ) { x.push_back( x.back() ); y.push_back( r.uni( .2, 1.3 ) ); } g.y.push_back( y.back() ); }
    for ( int q = k ? 1 : 0; q < n; ++q ) { double v = k + 1 == nreg && q + 1 == n ? 1e20 : e; x.push_back( v ); y.push_back( r.uni( .2, 1.3 ) ); g.x.push_back( v ); g.y.push_back( y.back() ); e = e < 1e-6 ? r.logu( 1e-4, 1e2 ) : e * r.logu( 1.5, 50 ); }
    bounds.push_back( long( x.size() ) ); laws.push_back( law ); d.table.regions.push_back( g );
  }
  d.rr.radius.emplace( std::move( bounds ), std::move( laws ), std::move( x ), std::move( y ) );
}
static double massRadius( const Data& d, double awri ) { return double( .123L * cbrtl( (ld)awri * d.nm ) + .08L ); }
static void setRadii( Chan& c, const Data& d, double ap, double awri ) {
  Radius f, a; f.value = massRadius( d, awri ); a.value = ap; c.nr = 1;
  if ( d.table.table ) switch ( d.rr.naps ) { case 0: c.nr = 2; c.r[0] = f; c.r[1] = d.table; break; case 1: c.r[0] = d.table; break; default: c.nr = 2; c.r[0] = a; c.r[1] = d.table; }
  else if ( d.rr.naps == 0 ) { c.nr = 2; c.r[0] = f; c.r[1] = a; } else c.r[0] = a;
}
static Data randomHeader( Rng& r ) {
  Data d; struct T { const char* id; double awri; }; static const T ts[] = { { "U235", 233.0248 }, { "Fe56", 55.45443 }, { "Si28", 27.737 }, { "Ag107", 105.987 }, { "Pu239", 236.9986 }, { "H1", .9991673 }, { "O16", 15.85751 }, { "Rh105_e1", 104.005 } };
  auto& t = ts[ r.i( 0, 7 ) ]; d.tgt = t.id; d.awri = t.awri * r.uni( .999, 1.001 ); d.I = .5 * r.i( 0, r.b( .3 ) ? 9 : 3 ); d.ap = r.uni( .1, 1.3 ); if ( r.b( .3 ) ) d.nm = 1.008664;
  d.rr.el = r.b( .4 ) ? 1e-5 : r.logu( 1e-5, 1e4 ); d.rr.eh = d.rr.el * r.logu( 3, 1e6 ); if ( d.rr.eh < 10 ) d.rr.eh = r.logu( 10, 1e5 );
  d.rr.naps = r.i( 0, 1 ); if ( r.b( radiusEmphasis ? .6 : .15 ) ) { d.rr.nro = 1; d.rr.naps = r.i( 0, 2 ); randomTable( r, d ); }
  return d;
}
static double resonanceEnergy( Rng& r, const Data& d ) {
  double u = r.u(); if ( u < .2 ) return -r.logu( 1e-1, 1e4 ); if ( u < .3 ) return d.rr.eh * r.uni( 1, 3 ); return r.logu( std::max( d.rr.el, 1e-1 ), d.rr.eh ); }
// the channel spins that give l,J with a neutron and target spin I, and the one the sign of AJ selects
static std::vector< double > channelSpins( double I, int l, double J ) { std::vector< double > v; for ( double s : spins( .5, I ) ) for ( double j : spins( l, s ) ) if ( j == J ) v.push_back( s ); return v; }
static std::vector< double > possibleJ( double I, int l ) { std::set< double > s; for ( double x : spins( .5, I ) ) for ( double j : spins( l, x ) ) s.insert( j ); return std::vector< double >( s.begin(), s.end() ); }
static Pair neutronPair( const Data& d, double awri ) { return { { "n", d.nm, 0, .5, 1 }, { d.tgt, awri * d.nm, 0, d.I, 1 }, "" }; }
static int sign( int l ) { return l % 2 ? -1 : 1; }

template< typename BW > static BW randomBW( Rng& r, Data& d ) {
  BW bw; bw.spi = d.I; bw.ap = d.ap; int nls = r.b( .4 ) ? 1 : r.i( 2, 5 );
  for ( int l = 0; l < nls; ++l ) {
    mt::BreitWignerLValue lv; lv.l = l; lv.awri = d.awri; lv.lrx = r.b( .4 ); lv.qx = lv.lrx || r.b( .1 ) ? ( r.b( .85 ) ? -1 : 1 ) * r.logu( 1e-1, 1e6 ) : 0.;
    auto Js = possibleJ( d.I, l ); r.shuffle( Js ); Js.resize( size_t( r.i( 1, std::min( 3, int( Js.size() ) ) ) ) );
    std::vector< std::pair< double, LRes > > rows;
    for ( double J : Js ) {
      double aj = J > 0 && r.b( .1 ) ? -J : J; auto ss = channelSpins( d.I, l, J ); LGroup g; g.qx = lv.qx; g.g.pairs.push_back( neutronPair( d, lv.awri ) );
      Chan c; c.type = NEUTRON; c.l = l; c.J = J; c.s = aj < 0 ? ss.front() : ss.back(); c.parity = sign( l ); setRadii( c, d, d.ap, lv.awri ); g.g.ch.push_back( c );
      for ( int n = r.b( .3 ) ? 1 : r.i( 1, 5 ); n > 0; --n ) {
        LRes q{}; q.e = resonanceEnergy( r, d ); q.gg = r.b( .1 ) ? 0. : r.logu( 1e-3, 5 ); q.gf = r.b( .6 ) ? 0. : r.logu( 1e-4, 3 ); double gx = r.b( .5 ) ? 0. : r.logu( 1e-4, 3 );
        auto k = kinematics( g.g, c, std::fabs( q.e ), charged() ); q.P = double( k.P ); q.S = double( k.S ); ld es = shifted( g, q.e ); q.Q = lv.lrx ? double( kinematics( g.g, c, double( fabsl( es ) ), charged() ).P ) : q.P;
        q.gn = r.logu( 1e-5, 1e2 ); if ( q.gn > 4e6 * q.P ) q.gn = q.P * r.logu( 1e-3, 4e6 );
        if ( !( q.P > 1e-100 ) || !( q.Q > 1e-100 ) || ( lv.lrx && fabsl( es ) < 1e-7L * std::fabs( g.qx ) ) ) continue;
        double gt = q.gn + q.gg + q.gf + gx; q.gx = lv.lrx ? gt - ( q.gn + q.gg + q.gf ) : 0.; if ( lv.lrx && std::fabs( q.gx ) < 1e-9 * gt ) { gt = q.gn + q.gg + q.gf; q.gx = gt - ( q.gn + q.gg + q.gf ); }
        g.res.push_back( q ); lv.rows.push_back( { q.e, aj, gt, q.gn, q.gg, q.gf } );
      }
      if ( !g.res.empty() ) d.bw.push_back( g );
    }
    for ( int k = int( lv.rows.size() ) - 1; k > 0; --k ) std::swap( lv.rows[ size_t( k ) ], lv.rows[ size_t( r.i( 0, k ) ) ] );
    bw.lvalues.push_back( lv );
  }
  for ( auto& lv : bw.lvalues ) { d.text += fmt( " l=%d AWRI=%.10g QX=%.10g LRX=%d", lv.l, lv.awri, lv.qx, lv.lrx ); for ( auto& w : lv.rows ) d.text += fmt( " {%.12g %g %.8g %.8g %.8g %.8g}", w[0], w[1], w[2], w[3], w[4], w[5] ); }
  return bw;
}
static Data randomBreitWigner( Rng& r ) {
  for (;;) {
    Data d = randomHeader( r ); d.multi = r.b(); d.rr.lru = 1; d.rr.lrf = d.multi ? 2 : 1; d.kind = d.multi ? "MLBW" : "SLBW"; d.index = d.multi ? 1 : 0;
    if ( d.multi ) d.rr.par = randomBW< mt::MultiLevelBreitWigner >( r, d ); else d.rr.par = randomBW< mt::SingleLevelBreitWigner >( r, d );
    if ( !d.bw.empty() ) return d;
  }
}
enum { DEGENERATE = 1, BOTHSPINSFISSION = 2 };
static Data randomReichMoore( Rng& r, int special = 0 ) {
  Data d = randomHeader( r ); d.rr.lru = 1; d.rr.lrf = 3; d.kind = "Reich-Moore"; d.index = 2;
  if ( special & BOTHSPINSFISSION ) d.I = .5 * r.i( 1, 7 );
  mt::ReichMoore x; x.spi = d.I; x.ap = d.ap; int nls = special & BOTHSPINSFISSION ? 2 : r.b( .4 ) ? 1 : r.i( 2, 4 ); x.nlsc = r.i( nls, 5 );
  std::map< std::pair< double, int >, Group > groups; std::vector< double > radius( size_t( x.nlsc ), d.ap );
  struct Row { double e, aj, gn, gg, fa, fb; int l; }; std::map< int, std::vector< Row > > rows; bool fissile = r.b( .35 ) || special & BOTHSPINSFISSION; std::set< double > used; std::vector< int > ls;
  for ( int l = 0; l < nls; ++l ) {
    if ( nls > 1 && l + 1 < nls && r.b( .06 ) && !special ) continue;
    ls.push_back( l ); double apl = r.b( .5 ) ? 0. : r.b( .5 ) ? d.ap : r.uni( .1, 1.3 ); mt::ReichMooreLValue lv; lv.l = l; lv.awri = d.awri; lv.apl = apl; radius[ size_t( l ) ] = apl != 0. ? apl : d.ap; x.lvalues.push_back( lv );
  }
  auto chanFor = [&] ( int l, double s, double J ) { Chan c; c.type = NEUTRON; c.l = l; c.s = s; c.J = J; c.parity = sign( l ); setRadii( c, d, radius[ size_t( l ) ], d.awri ); return c; };
  auto at = [&] ( double J, int p ) -> Group& { auto& g = groups[ { J, p } ]; if ( g.pairs.empty() ) { g.pairs.push_back( neutronPair( d, d.awri ) ); g.pairs.push_back( { g.pairs[0].a, g.pairs[0].b, "fission" } ); } return g; };
  // every l, s, J up to the limit of convergence has a channel
  for ( int l = 0; l < x.nlsc; ++l ) for ( double s : spins( .5, d.I ) ) for ( double J : spins( l, s ) ) at( J, sign( l ) ).ch.push_back( chanFor( l, s, J ) );
  for ( auto& lv : x.lvalues ) {
    int l = lv.l; if ( r.b( .08 ) && !special ) continue;                                      // an l without resonances
    auto Js = possibleJ( d.I, l ); r.shuffle( Js ); Js.resize( size_t( r.i( 1, std::min( 3, int( Js.size() ) ) ) ) );
    if ( special & BOTHSPINSFISSION && l == 1 ) { Js.clear(); for ( double J : possibleJ( d.I, 1 ) ) if ( channelSpins( d.I, 1, J ).size() == 2 ) { Js.push_back( J ); break; } }
    for ( double J : Js ) {
      auto ss = channelSpins( d.I, l, J ); std::vector< double > aj{ J }; if ( ss.size() == 2 && J > 0 ) { int k = r.i( 0, 2 ); if ( k == 0 ) aj = { -J }; if ( k == 1 ) aj = { J, -J }; if ( special & BOTHSPINSFISSION && l == 1 ) aj = { J, -J }; } else if ( r.b( .1 ) ) aj = { -J };
      for ( double a : aj ) {
        double s = ss.size() == 1 ? ss[0] : a < 0 ? ss.front() : ss.back(); Group& g = at( J, sign( l ) ); size_t el = 0; while ( g.ch[el].l != l || g.ch[el].s != s ) ++el;
        bool f = fissile && ( aj.size() == 1 || special & BOTHSPINSFISSION ), fa = f && r.b( .8 ), fb = f && r.b( .6 ); if ( special & BOTHSPINSFISSION && l == 1 ) fa = true; long f1 = -1, f2 = -1;
        if ( fa || fb ) { Chan c; c.type = FISSION; c.pair = 1; c.l = l; c.s = 0; c.J = J; c.parity = sign( l ); setRadii( c, d, radius[ size_t( l ) ], d.awri ); c.id = "fission1"; ( fa ? f1 : f2 ) = long( g.ch.size() ); g.ch.push_back( c ); if ( fa && fb ) { c.id = "fission2"; f2 = long( g.ch.size() ); g.ch.push_back( c ); } for ( auto& q : g.res ) q.g.resize( g.ch.size() ); }
        for ( int n = r.i( 1, 4 ); n > 0; --n ) {
          Row w{}; w.e = resonanceEnergy( r, d ); if ( special & DEGENERATE && !g.res.empty() && r.b( .7 ) ) w.e = g.res[0].e; else if ( !used.insert( w.e ).second ) continue;
          w.aj = a; w.l = l; w.gg = r.b( .1 ) ? 0. : r.logu( 1e-3, 5 ) * ( r.b( .05 ) ? -1 : 1 ); ld P = kinematics( g, g.ch[el], std::fabs( w.e ), charged() ).P; w.gn = r.logu( 1e-5, 1e2 ); if ( w.gn > 4e6L * P ) w.gn = double( P * r.logu( 1e-3, 4e6 ) ); if ( r.b( .1 ) ) w.gn = -w.gn; if ( r.b( .04 ) ) w.gn = 0.;
          if ( !( P > 1e-100L ) ) continue;
          if ( fa ) w.fa = r.b( .2 ) ? 0. : r.sgn() * r.logu( 1e-4, 3 ); if ( fb ) w.fb = r.b( .2 ) ? 0. : r.sgn() * r.logu( 1e-4, 3 );
          Res q; q.e = w.e; q.g.assign( g.ch.size(), 0. ); auto red = [] ( double G, ld P ) { return double( ( G < 0 ? -1 : 1 ) * sqrtl( fabsl( (ld)G ) / 2 / P ) ); };
          q.g[el] = red( w.gn, P ); if ( f1 >= 0 ) q.g[ size_t( f1 ) ] = red( w.fa, 1 ); if ( f2 >= 0 ) q.g[ size_t( f2 ) ] = red( w.fb, 1 ); q.ge = red( w.gg, 1 ); g.res.push_back( q );
          lv.rows.push_back( { w.e, w.aj, w.gn, w.gg, w.fa, w.fb } );
        }
      }
    }
    for ( int k = int( lv.rows.size() ) - 1; k > 0; --k ) std::swap( lv.rows[ size_t( k ) ], lv.rows[ size_t( r.i( 0, k ) ) ] );
  }
  // fission channels whose widths are all zero are not there
  for ( auto& p : groups ) { Group& g = p.second; for ( auto& q : g.res ) q.g.resize( g.ch.size() ); d.rmg.push_back( g ); }
  for ( auto& lv : x.lvalues ) { d.text += fmt( " l=%d AWRI=%.10g APL=%.6g", lv.l, lv.awri, lv.apl ); for ( auto& w : lv.rows ) d.text += fmt( " {%.12g %g %.8g %.8g %.8g %.8g}", w[0], w[1], w[2], w[3], w[4], w[5] ); }
  d.text += fmt( " NLSC=%d", x.nlsc ); d.rr.par = x; return d;
}
enum { MIXEDSHIFT = 1 };
static Data randomLimited( Rng& r, int special = 0 ) {
  Data d = randomHeader( r ); d.table = Radius(); d.rr.radius.reset(); d.rr.nro = 0; d.rr.lru = 1; d.rr.lrf = 7; d.kind = "R-matrix limited"; d.nm = r.b() ? 1.00866491582 : 1.008664;
  if ( d.tgt == "H1" ) { d.tgt = "Fe56"; d.awri = 55.45443; } if ( d.tgt == "Rh105_e1" ) { d.tgt = "Ag107"; d.awri = 105.987; }
  mt::RMatrixLimited x; x.ifg = r.i( 0, 1 ); bool shift = r.b(), chargedIn = r.b( .2 ); d.index = shift ? 3 : 2; d.rr.el = chargedIn ? r.logu( 1e4, 1e5 ) : d.rr.el; if ( chargedIn ) { d.in = "p"; d.rr.eh = d.rr.el * r.logu( 3, 50 ); }
  d.rr.el = std::min( d.rr.el, 1e5 ); d.rr.eh = std::min( d.rr.eh, 3e7 );   // the Coulomb functions are rejected beyond (C03)
  int Z = d.tgt == "U235" ? 92 : d.tgt == "Fe56" ? 26 : d.tgt == "Si28" ? 14 : d.tgt == "Ag107" ? 47 : d.tgt == "Pu239" ? 94 : 8, A = std::atoi( d.tgt.c_str() + ( std::isalpha( d.tgt[1] ) ? 2 : 1 ) );
  static const std::map< int, std::string > el{ { 7, "N" }, { 8, "O" }, { 9, "F" }, { 6, "C" }, { 5, "B" }, { 12, "Mg" }, { 13, "Al" }, { 14, "Si" }, { 15, "P" }, { 24, "Cr" }, { 25, "Mn" }, { 26, "Fe" }, { 27, "Co" }, { 45, "Rh" }, { 46, "Pd" }, { 47, "Ag" }, { 48, "Cd" }, { 90, "Th" }, { 91, "Pa" }, { 92, "U" }, { 93, "Np" }, { 94, "Pu" }, { 95, "Am" } };
  int zi = chargedIn ? 1 : 0; auto nucl = [&] ( int z, int a, int level ) { return el.at( z ) + std::to_string( a ) + ( level ? "_e" + std::to_string( level ) : "" ); };
  struct P { int mt; double ma, mb, za, zb, ia, ib, q; int pa, pb; std::string a, b, id; }; std::vector< P > ps; auto par = [&] { return r.b() ? 1 : -1; }; double half = chargedIn ? .5 : .5;
  ps.push_back( { 2, chargedIn ? .99862 : 1., d.awri, double( zi ), r.b() || chargedIn ? double( Z ) : 0., half, d.I, 0., 1, par(), d.in, d.tgt, "" } );
  auto halfInt = [&] ( double parityOf ) { (void)parityOf; return .5 * r.i( 0, 6 ); };
  if ( r.b( .85 ) ) ps.push_back( { 102, 0., d.awri + 1, 0., r.b() ? double( Z + zi ) : 0., 1., halfInt( 0 ), r.b() ? 0. : r.logu( 1e6, 9e6 ), 1, par(), "photon", nucl( Z + zi, A + 1, 0 ), "" } );
  if ( r.b( .35 ) ) { bool zero = r.b( .4 ); ps.push_back( { 18, zero ? 0. : 1., zero ? 0. : d.awri, 0., 0., 0., 0., 0., 1, par(), d.in, d.tgt, "fission" } ); }
  for ( int lev = 1; lev <= 2; ++lev ) if ( r.b( .3 ) ) { int m = chargedIn ? 600 + lev : 50 + lev; ps.push_back( { m, chargedIn ? .99862 : 1., d.awri, double( zi ), double( Z ), .5, halfInt( 0 ), -r.logu( 1e2, 1e6 ), 1, par(), d.in, nucl( Z, A, lev ), "" } ); }
  if ( r.b( .4 ) && !chargedIn ) { int lev = r.i( 0, 2 ); ps.push_back( { lev ? 600 + lev : ( r.b() ? 103 : 600 ), .99862, d.awri, 1., double( Z - 1 ), .5, halfInt( 0 ), r.sgn() * r.logu( 1e3, 4e6 ), 1, par(), "p", nucl( Z - 1, A, lev ), "" } ); }
  if ( r.b( .3 ) ) { int lev = r.i( 0, 1 ); ps.push_back( { lev ? 800 + lev : ( r.b() ? 107 : 800 ), 3.9671, d.awri - 3, 2., double( Z - 2 + zi ), 0., halfInt( 0 ), r.sgn() * r.logu( 1e3, 4e6 ), 1, par(), "he4", nucl( Z - 2 + zi, A - 3, lev ), "" } ); }
  r.shuffle( ps ); size_t inc = 0; while ( ps[inc].mt != 2 ) ++inc; std::vector< Pair > mp; std::vector< int > where( ps.size() );
  auto model = [&] ( const P& p ) { return Pair{ { p.a, p.ma * d.nm, p.za, std::fabs( p.ia ), p.pa }, { p.b, p.mb * d.nm, p.zb, std::fabs( p.ib ), p.pb }, p.id }; };
  mp.push_back( model( ps[inc] ) ); where[inc] = 0; for ( size_t k = 0; k < ps.size(); ++k ) if ( k != inc ) { where[k] = int( mp.size() ); mp.push_back( model( ps[k] ) ); }
  for ( auto& p : ps ) { bool massive = p.mt != 102 && p.mt != 18; int shf = massive && shift ? 1 : 0; if ( special & MIXEDSHIFT && massive && p.mt != 2 ) shf = 1 - shf; x.pairs.add( p.ma, p.mb, p.za, p.zb, p.pa < 0 && p.ia > 0 ? -p.ia : p.ia, p.pb < 0 && p.ib > 0 ? -p.ib : p.ib, p.q, massive ? 1 : 0, shf, p.mt, p.ia == 0 && !( p.pa > 0 && r.b( .3 ) ) ? p.pa : 0, p.ib == 0 && !( p.pb > 0 && r.b( .3 ) ) ? p.pb : 0 ); }
  std::set< std::pair< double, int > > seen; double off = std::fmod( half + d.I, 1. );
  for ( int n = r.i( 1, 4 ); n > 0; --n ) {
    double J = off + r.i( 0, 4 ); int pi = par(); if ( !seen.insert( { J, pi } ).second ) continue;
    mt::RMatrixLimited::SpinGroup sg; Group g; g.pairs = mp; g.constant = shift; sg.ch.aj = pi < 0 ? -J : J; sg.ch.pj = J == 0. ? ( pi > 0 && r.b( .3 ) ? 0 : pi ) : 0;   /* a parity that is not given is positive */ if ( J == 0. ) sg.ch.aj = 0.;
    std::set< std::string > ids; std::vector< size_t > order; for ( size_t k = 0; k < ps.size(); ++k ) for ( int q = ps[k].mt == 2 ? r.i( 1, 3 ) : ps[k].mt == 102 ? ( r.b( .9 ) ? 1 : 2 ) : r.i( 0, 2 ); q > 0; --q ) order.push_back( k );
    r.shuffle( order ); std::vector< int > eliminated; std::vector< long > toModel; bool gone = false;
    for ( size_t k : order ) {
      auto& p = ps[k]; Chan c; c.pair = where[k]; c.Q = p.q; c.J = J; c.parity = pi; c.l = r.i( 0, 3 ); if ( p.mt == 2 ) { auto v = spins( p.ia, p.ib ); c.s = r.pick( v ); } else c.s = .5 * r.i( 0, 6 );
      c.type = p.mt == 102 ? PHOTON : p.mt == 18 ? FISSION : p.za > 0 ? CHARGED : NEUTRON; double apt = r.uni( .1, 1.3 ), ape = r.b() ? apt : r.uni( .1, 1.3 ); c.nr = 2; c.r[0].value = apt; c.r[1].value = ape; c.bc = shift && p.mt != 102 && p.mt != 18 ? r.uni( -3, 1 ) : 0.;
      if ( special & MIXEDSHIFT ) c.bc = 0.;
      if ( !ids.insert( channelID( g, c ) ).second ) continue;
      bool out = p.mt == 102 && !gone; if ( out ) gone = true; eliminated.push_back( out ); toModel.push_back( out ? -1 : long( g.ch.size() ) ); if ( !out ) g.ch.push_back( c );
      sg.ch.add( int( k ) + 1, unsigned( c.l ), c.s, c.bc, ape, apt ); if ( out ) toModel.back() = -1; 
    }
    int nres = r.b( .12 ) ? 0 : r.i( 1, 5 ); std::set< double > used; std::vector< char > off2( g.ch.size(), 0 ); for ( auto& v : off2 ) v = r.b( .12 );
    for ( ; nres > 0; --nres ) {
      double e = chargedIn ? r.logu( d.rr.el, d.rr.eh ) : resonanceEnergy( r, d ); if ( !used.insert( e ).second ) continue; Res q; q.e = e; q.g.assign( g.ch.size(), 0. ); std::vector< double > row;
      for ( size_t k = 0; k < toModel.size(); ++k ) {
        double v = r.b( .15 ) ? 0. : r.sgn() * r.logu( 1e-3, 30 ), w = 0;
        if ( toModel[k] < 0 ) { v = r.b( .1 ) ? 0. : r.sgn() * r.logu( 3e-2, 2 ); w = x.ifg ? v : ( v < 0 ? -1 : 1 ) * 2 * v * v; q.ge = x.ifg ? v : double( ( w < 0 ? -1 : 1 ) * sqrtl( fabsl( (ld)w ) / 2 ) ); }
        else { auto& c = g.ch[ size_t( toModel[k] ) ]; if ( off2[ size_t( toModel[k] ) ] ) v = 0.; ld P = 1; if ( c.type == NEUTRON || c.type == CHARGED ) { P = 0; try { P = kinematics( g, c, e, charged() ).P; } catch ( ... ) {} } if ( !x.ifg && !( P > 1e-60L ) ) v = 0.; w = x.ifg ? v : double( ( v < 0 ? -1 : 1 ) * 2 * P * v * v ); q.g[ size_t( toModel[k] ) ] = x.ifg ? v : v == 0. ? 0. : double( ( w < 0 ? -1 : 1 ) * sqrtl( fabsl( (ld)w ) / 2 / P ) ); }
        row.push_back( w );
      }
      sg.par.er.push_back( e ); sg.par.gam.push_back( row ); g.res.push_back( q );
    }
    x.groups.push_back( sg ); d.rmg.push_back( g );
  }
  for ( size_t k = 0; k < ps.size(); ++k ) d.text += fmt( " pair%zu MT%d Q=%.8g", k + 1, ps[k].mt, ps[k].q ); d.text += fmt( " IFG=%d SHF=%d", x.ifg, int( shift ) );
  for ( size_t k = 0; k < x.groups.size(); ++k ) { auto& s = x.groups[k]; d.text += fmt( " [AJ=%g PJ=%g PPI", s.ch.aj, s.ch.pj ); for ( int p : s.ch.ppi ) d.text += fmt( " %d", p ); d.text += "] " + text( d.rmg[k] ); }
  d.rr.par = x; return d;
}
static Data randomUnresolvedData( Rng& r ) {
  Data d = randomHeader( r ); d.rr.lru = 2; d.index = 4; d.rr.el = r.logu( 1e1, 1e5 ); d.rr.eh = d.rr.el * r.logu( 1.5, 100 ); int which = r.i( 0, 2 ); d.rr.lrf = which == 2 ? 2 : 1;
  std::vector< double > es{ d.rr.el }; int ne = which == 0 ? 2 : r.i( 2, 8 ); for ( int k = 1; k + 1 < ne; ++k ) es.push_back( r.uni( d.rr.el, d.rr.eh ) ); es.push_back( d.rr.eh ); std::sort( es.begin(), es.end() );
  int nls = r.i( 1, 4 ); bool fission = r.b(), comp = r.b( .4 ); d.kind = which == 0 ? "unresolved A" : which == 1 ? "unresolved B" : "unresolved C";
  mt::UnresolvedEnergyIndependent a; mt::UnresolvedEnergyDependentFissionWidths b; mt::UnresolvedEnergyDependent c; a.spi = b.spi = c.spi = d.I; a.ap = b.ap = c.ap = d.ap; b.es = es;
  for ( int l = 0; l < nls; ++l ) {
    auto Js = possibleJ( d.I, l ); r.shuffle( Js ); Js.resize( size_t( r.i( 1, std::min( 3, int( Js.size() ) ) ) ) ); decltype( a )::LValue la; decltype( b )::LValue lb; decltype( c )::LValue lc; la.l = lb.l = lc.l = l; la.awri = lb.awri = lc.awri = d.awri;
    for ( double J : Js ) {
      UGroup g; g.g.pairs.push_back( neutronPair( d, d.awri ) ); Chan ch; ch.type = NEUTRON; ch.l = l; ch.s = .5; ch.J = J; ch.parity = sign( l ); setRadii( ch, d, d.ap, d.awri ); g.g.ch.push_back( ch );
      g.de = unsigned( r.i( 1, 2 ) ); g.df = unsigned( r.i( 1, 4 ) ); g.dx = unsigned( which == 1 ? 0 : r.i( 1, 4 ) ); g.dc = which == 1 ? 0u : unsigned( r.i( 0, 4 ) );
      bool f = fission, xx = comp && which != 1; URes q{}; q.D = r.logu( 1e-1, 1e4 ); q.gn = q.D * r.logu( 1e-6, 1e-3 ); q.gg = r.logu( 1e-3, 10 ); q.gf = f ? r.logu( 1e-4, 5 ) : 0.; q.gx = xx ? r.logu( 1e-4, 5 ) : 0.;
      std::vector< double > own = es; if ( which == 2 && r.b( .4 ) ) { own = { d.rr.el }; for ( int k = r.i( 0, 4 ); k > 0; --k ) own.push_back( r.uni( d.rr.el, d.rr.eh ) ); own.push_back( d.rr.eh ); std::sort( own.begin(), own.end() ); }
      for ( size_t k = 0; k < own.size(); ++k ) { if ( k && which == 1 && f ) q.gf = r.b( .1 ) ? 0. : r.logu( 1e-4, 5 ); if ( k && which == 2 ) { q.D = r.logu( 1e-1, 1e4 ); q.gn = q.D * r.logu( 1e-6, 1e-3 ); q.gg = r.logu( 1e-3, 10 ); if ( f ) q.gf = r.logu( 1e-4, 5 ); if ( xx ) q.gx = r.logu( 1e-4, 5 ); } q.e = own[k]; g.res.push_back( q ); }
      auto& z = g.res[0];
      if ( which == 0 ) la.rows.push_back( { z.D, J, double( g.de ), z.gn, z.gg, z.gf, z.gx, double( g.dx ), double( g.dc ), double( g.df ) } );
      if ( which == 1 ) { decltype( b )::JValue j; j.d = z.D; j.aj = J; j.amun = g.de; j.amuf = g.df; j.gn = z.gn; j.gg = z.gg; for ( auto& w : g.res ) j.gf.push_back( w.gf ); lb.js.push_back( j ); }
      if ( which == 2 ) { decltype( c )::JValue j; j.aj = J; j.amux = g.dx; j.amun = g.de; j.amug = g.dc; j.amuf = g.df; for ( auto& w : g.res ) { j.es.push_back( w.e ); j.d.push_back( w.D ); j.gx.push_back( w.gx ); j.gn0.push_back( w.gn ); j.gg.push_back( w.gg ); j.gf.push_back( w.gf ); } lc.js.push_back( j ); }
      d.text += " | " + utext( g ); d.ur.push_back( g );
    }
    a.lvalues.push_back( la ); b.lvalues.push_back( lb ); c.lvalues.push_back( lc );
  }
  if ( which == 0 ) d.rr.par = a; if ( which == 1 ) d.rr.par = b; if ( which == 2 ) d.rr.par = c; return d;
}
static std::string head( const Data& d ) {
  std::string s = fmt( "%s %s+%s I=%g AP=%.6g mn=%.10g AWRI=%.8g EL=%.10g EH=%.10g LRU=%d LRF=%d NRO=%d NAPS=%d", d.kind.c_str(), d.in.c_str(), d.tgt.c_str(), d.I, d.ap, d.nm, d.awri, d.rr.el, d.rr.eh, d.rr.lru, d.rr.lrf, d.rr.nro, d.rr.naps );
  for ( auto& g : d.table.regions ) { s += fmt( " radius law %d", g.law ); for ( size_t k = 0; k < g.x.size(); ++k ) s += fmt( " (%.6g,%.6g)", g.x[k], g.y[k] ); }
  return s + d.text;
}

// ---- the monitor -----------------------------------------------------------------------------
static double energyIn( Rng& r, const Data& d ) {
  std::vector< double > es; for ( auto& g : d.bw ) for ( auto& q : g.res ) es.push_back( std::fabs( q.e ) ); for ( auto& g : d.rmg ) { for ( auto& q : g.res ) es.push_back( std::fabs( q.e ) ); for ( auto& c : g.ch ) if ( c.Q < 0 ) es.push_back( -c.Q * ( g.pairs[0].a.m + g.pairs[0].b.m ) / g.pairs[0].b.m ); }
  for ( auto& g : d.ur ) for ( auto& q : g.res ) es.push_back( q.e );
  double lo = std::max( d.rr.el, 1e-5 ), e = 0; if ( es.size() && r.b( .6 ) ) e = r.pick( es ) * ( 1 + r.sgn() * r.logu( 1e-7, .3 ) ); if ( !( e > d.rr.el && e < d.rr.eh ) ) e = r.logu( lo, d.rr.eh ); if ( e < d.rr.el ) e = d.rr.el; if ( e > d.rr.eh ) e = d.rr.eh; return e;
}
// compares the cross sections at E with those computed from the parameters; false: not decided in double precision
static bool compareAt( const Data& d, const Xs& x, double E, const std::string& key ) {
  auto& c = ctx();
  if ( !d.bw.empty() || !d.ur.empty() ) {
    Ref sum; int lmax = 0; const Group& first = d.bw.empty() ? d.ur[0].g : d.bw[0].g; auto add = [&] ( const Ref& o ) { sum.el.add( o.el.v, o.el.t ); sum.ca.add( o.ca.v, o.ca.t ); sum.fi.add( o.fi.v, o.fi.t ); };
    for ( auto& g : d.bw ) { lmax = std::max( lmax, chan( g.g ).l ); add( resolvedRef( g, E, d.multi ) ); }
    for ( auto& g : d.ur ) { lmax = std::max( lmax, chan( g.g ).l ); size_t idx = 0; bool at = false; for ( size_t k = 0; k < g.res.size(); ++k ) if ( g.res[k].e == E ) { at = true; idx = k; } add( unresolvedRef( g, E, at, idx ) ); }
    Val p = potential( first, lmax, E ); sum.el.add( p.v, p.t ); compare( x, first, sum, E, key, d.bw.empty() ? 4 : 100 ); return sum.el.t < 1e200L;
  }
  Expect want; bool ok = true;
  for ( auto& g : d.rmg ) { auto ref = evaluate( g, E, charged() ); if ( !conditioned( g, ref ) ) { ok = false; break; } addXs( g, ref, E, want ); }
  if ( !ok ) return false;
  for ( auto& w : want.v ) {
    auto i = x.find( rm::ReactionID( w.first ) ); double v = i == x.end() ? 0. : i->second.value; ld t = 20 * want.t[ w.first ] + 1e-300L, e = fabsl( v - w.second );
    if ( e <= t ) maxratio = std::max( maxratio, double( e / t ) ); else c.fail( key, fmt( "E=%.17g %s is %.12g%s instead of %.12Lg (allowed %.2Lg)", E, w.first.c_str(), v, i == x.end() ? " (missing)" : "", w.second, t ) );
  }
  for ( auto& q : x ) if ( !want.v.count( q.first.symbol() ) && q.second.value != 0. ) c.fail( key + "-reactions", "unexpected reaction " + q.first.symbol() );
  return true;
}
static std::multiset< std::string > observedChannels( rm::Reconstructor& q ) {
  std::multiset< std::string > ids; auto fill = [&] ( auto& s ) {
    using S = std::decay_t< decltype( s ) >; if constexpr ( std::is_same_v< S, rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > > || std::is_same_v< S, rm::CompoundSystem< rm::ReichMoore, rm::Constant > > ) { for ( auto&& g : s.spinGroups() ) for ( auto&& id : g.channelIDs() ) ids.insert( std::string( id ) ); }
    else for ( auto&& g : s.spinGroups() ) ids.insert( std::string( g.incidentChannel().channelID() ) ); };
  std::visit( fill, q.compoundSystem() ); return ids;
}
// what a converted channel says about itself, against the records it comes from
template< typename C > static void checkChannel( const Data& d, const C& ch, const Group& g, const Chan& m ) {
  auto& c = ctx(); std::string s; bool limited = d.kind == "R-matrix limited"; double E = std::sqrt( d.rr.el > 0 ? d.rr.el * d.rr.eh : 1e-5 * d.rr.eh );
  auto same = [&] ( const char* what, double got, ld want, ld tol ) { if ( !( fabsl( got - want ) <= tol * fabsl( want ) ) ) s += fmt( " %s is %.12g instead of %.12Lg;", what, got, want ); };
  auto& n = ch.quantumNumbers(); same( "l", n.orbitalAngularMomentum(), m.l, 0 ); same( "s", n.spin(), m.s, 0 ); same( "J", n.totalAngularMomentum(), m.J, 0 ); same( "parity", n.parity(), m.parity, 0 );
  same( "Q", ch.Q().value, m.Q, 1e-12L ); if ( g.constant && m.type != PHOTON && m.type != FISSION ) same( "boundary condition", ch.boundaryCondition(), m.bc, 1e-12L );
  auto pair = [&] ( const rm::ParticlePair& x, const Pair& y, const char* what ) {
    same( what, x.particle().mass().value, y.a.m, 1e-9L ); same( what, x.residual().mass().value, y.b.m, 1e-9L ); same( what, x.particle().spin(), y.a.s, 0 ); same( what, x.residual().spin(), y.b.s, 0 );
    same( what, x.particle().charge().value / dimwits::constant::elementaryCharge.value, y.a.z, 1e-9L ); if ( limited ) { same( what, x.residual().charge().value / dimwits::constant::elementaryCharge.value, y.b.z, 1e-9L ); same( what, x.particle().parity(), y.a.p, 0 ); same( what, x.residual().parity(), y.b.p, 0 ); }
    if ( x.pairID().symbol() != pairID( y ) ) s += " " + x.pairID().symbol() + " instead of " + pairID( y ) + ";"; };
  pair( ch.incidentParticlePair(), g.pairs[0], "incident pair" ); if ( m.type == NEUTRON || m.type == CHARGED ) { pair( ch.particlePair(), g.pairs[ m.pair ], "pair" );
    same( "radius for P", ch.radii().penetrabilityRadius( eV( E ) ).value, m.rP( E ), 1e-9L ); same( "radius for S", ch.radii().shiftFactorRadius( eV( E ) ).value, m.rS( E ), 1e-9L ); same( "radius for phi", ch.radii().phaseShiftRadius( eV( E ) ).value, m.rF( E ), 1e-9L ); }
  if ( ch.reactionID().symbol() != reactionID( g, m ) ) s += " reaction " + ch.reactionID().symbol() + " instead of " + reactionID( g, m ) + ";";
  if ( !s.empty() ) c.fail( "channel-data", std::string( ch.channelID() ) + s ); c.event( "channel of " + d.kind, { E, m.r[0].value, double( m.l ), m.J } );
}
static void checkChannelData( const Data& d, rm::Reconstructor& q ) {
  std::map< std::string, std::pair< const Group*, const Chan* > > want; auto put = [&] ( const Group& g, const Chan& c ) { want[ channelID( g, c ) ] = { &g, &c }; };
  for ( auto& g : d.bw ) put( g.g, chan( g.g ) ); for ( auto& g : d.ur ) put( g.g, chan( g.g ) ); for ( auto& g : d.rmg ) for ( auto& c : g.ch ) put( g, c );
  auto one = [&] ( const auto& ch ) { auto i = want.find( std::string( ch.channelID() ) ); if ( i != want.end() ) checkChannel( d, ch, *i->second.first, *i->second.second ); };
  std::visit( [&] ( auto& s ) { using S = std::decay_t< decltype( s ) >; if constexpr ( std::is_same_v< S, rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > > || std::is_same_v< S, rm::CompoundSystem< rm::ReichMoore, rm::Constant > > ) { for ( auto&& g : s.spinGroups() ) for ( auto&& v : g.channels() ) std::visit( one, v ); }
    else for ( auto&& g : s.spinGroups() ) one( g.incidentChannel() ); }, q.compoundSystem() );
}
static void checkChannels( const Data& d, rm::Reconstructor& q ) {
  auto& c = ctx(); std::multiset< std::string > want, optional;
  for ( auto& g : d.bw ) want.insert( channelID( g.g, chan( g.g ) ) ); for ( auto& g : d.ur ) want.insert( channelID( g.g, chan( g.g ) ) );
  for ( auto& g : d.rmg ) for ( size_t k = 0; k < g.ch.size(); ++k ) { bool used = g.ch[k].pair == 0; for ( auto& x : g.res ) used |= x.g[k] != 0.; auto id = channelID( g, g.ch[k] ); ( used ? want : optional ).insert( id ); }
  auto got = observedChannels( q ); std::string s;
  for ( auto& id : want ) if ( got.count( id ) != want.count( id ) ) s += fmt( " %s occurs %zu times instead of %zu;", id.c_str(), got.count( id ), want.count( id ) );
  for ( auto& id : got ) if ( !want.count( id ) && !optional.count( id ) ) { s += " unexpected " + id + ";"; }
  if ( d.kind == "Reich-Moore" ) { bool only2 = false; for ( auto& id : got ) only2 |= id.compare( 0, 8, "fission2" ) == 0; if ( only2 || !s.empty() ) { std::string t; for ( auto& id : want ) if ( id.compare( 0, 7, "fission" ) && got.count( id ) != want.count( id ) ) t += " " + id; for ( auto& id : got ) if ( id.compare( 0, 7, "fission" ) && !want.count( id ) ) t += " unexpected " + id; s = t; } }   // which of two fission labels is used is of no consequence
  if ( !s.empty() ) c.fail( "channels", s );
}
// the parameters a converted group holds, against the records: the widths of every channel at every resonance
static void checkTables( const Data& d, rm::Reconstructor& q ) {
  auto& c = ctx(); using List = std::vector< std::vector< double > >; std::map< std::string, List > want, got; std::set< std::string > skip;
  auto label = [] ( const std::string& id ) { return id.compare( 0, 7, "fission" ) ? id : "fission" + id.substr( id.find( '{' ) ); };   // the labels of two fission channels are of no consequence
  for ( auto& g : d.rmg ) {
    std::set< double > es; std::string J = half( g.ch[0].J ) + ( g.ch[0].parity > 0 ? "+" : "-" ); for ( auto& x : g.res ) if ( !es.insert( x.e ).second ) skip.insert( J );
    for ( auto& x : g.res ) { for ( size_t k = 0; k < g.ch.size(); ++k ) if ( x.g[k] != 0. ) want[ label( channelID( g, g.ch[k] ) ) ].push_back( { x.e, x.g[k] } ); if ( x.ge != 0. ) want[ "eliminated " + J ].push_back( { x.e, x.ge } ); }
  }
  for ( auto& g : d.bw ) for ( auto& x : g.res ) want[ channelID( g.g, chan( g.g ) ) ].push_back( { x.e, x.gn, x.gg, x.gf, x.gx, x.P, x.S } );
  for ( auto& g : d.ur ) for ( auto& x : g.res ) want[ channelID( g.g, chan( g.g ) ) ].push_back( { x.e, x.D, x.gn, x.gg, x.gf, x.gx } );
  std::visit( [&] ( auto& s ) { using S = std::decay_t< decltype( s ) >;
    for ( auto&& g : s.spinGroups() ) {
      if constexpr ( std::is_same_v< S, rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > > || std::is_same_v< S, rm::CompoundSystem< rm::ReichMoore, rm::Constant > > ) {
        std::vector< std::string > ids; for ( auto&& id : g.resonanceTable().channels() ) ids.push_back( id ); auto J = ids[0].substr( ids[0].rfind( ',' ) + 1 ); J.pop_back();
        for ( auto&& x : g.resonanceTable().resonances() ) { size_t k = 0; for ( auto&& w : x.widths() ) { if ( k < ids.size() && w.value != 0. ) got[ label( ids[k] ) ].push_back( { x.energy().value, w.value } ); ++k; } if ( x.eliminatedWidth().value != 0. ) got[ "eliminated " + J ].push_back( { x.energy().value, x.eliminatedWidth().value } ); }
      } else {
        auto& list = got[ std::string( g.incidentChannel().channelID() ) ];
        for ( auto&& x : g.resonanceTable().resonances() ) {
          if constexpr ( std::is_same_v< S, rm::legacy::unresolved::CompoundSystem > ) list.push_back( { x.energy().value, x.levelSpacing().value, x.elastic().value, x.capture().value, x.fission().value, x.competition().value } );
          else list.push_back( { x.energy().value, x.elastic().value, x.capture().value, x.fission().value, x.competition().value, x.penetrability(), x.shiftfactor() } ); }
      }
    } }, q.compoundSystem() );
  for ( auto* m : { &want, &got } ) for ( auto& p : *m ) std::sort( p.second.begin(), p.second.end() );
  std::set< std::string > ids; for ( auto* m : { &want, &got } ) for ( auto& p : *m ) ids.insert( p.first );
  for ( auto& id : ids ) {
    bool dropped = false; for ( auto& J : skip ) dropped |= id == "eliminated " + J || id.find( "," + J + "}" ) != std::string::npos; if ( dropped ) continue;
    auto& a = want[id]; auto& b = got[id]; if ( a.size() != b.size() ) { c.fail( "parameters", fmt( "%s holds %zu resonances instead of %zu", id.c_str(), b.size(), a.size() ) ); continue; }
    for ( size_t k = 0; k < a.size(); ++k ) { double width = 0; if ( !d.bw.empty() ) for ( int j = 1; j < 5; ++j ) width += std::fabs( a[k][ size_t( j ) ] );
      for ( size_t j = 0; j < a[k].size(); ++j ) { double x = a[k][j], y = b[k][j], t = j ? 1e-8 * std::fabs( x ) + 1e-12 * width : 0.; if ( !( std::fabs( x - y ) <= t ) ) c.fail( "parameters", fmt( "%s at %.12g: value %zu is %.12g instead of %.12g", id.c_str(), a[k][0], j, y, x ) ); } }
    if ( !a.empty() ) c.event( "parameters of " + d.kind, { a[0][0], a[0][1] } );
  }
}
static void checkRange( Rng& r, const Data& d, rm::Reconstructor& q ) {
  auto& c = ctx(); double el = d.rr.el, eh = d.rr.eh;
  if ( q.lowerEnergy().value != el || q.upperEnergy().value != eh ) c.fail( "limits", fmt( "limits are %.17g and %.17g", q.lowerEnergy().value, q.upperEnergy().value ) );
  if ( q.isResolved() != ( d.index < 4 ) || q.isUnresolved() != ( d.index == 4 ) ) c.fail( "resolved", "resolved or unresolved" );
  if ( q.compoundSystem().index() != d.index ) c.fail( "formalism", fmt( "formalism %zu instead of %zu", q.compoundSystem().index(), d.index ) );
  for ( double E : { el * ( 1 - r.logu( 1e-12, .9 ) ), std::nextafter( el, 0. ), std::nextafter( eh, 1e300 ), eh * ( 1 + r.logu( 1e-12, 10 ) ) } ) { auto x = q( eV( E ) ); if ( !x.empty() ) c.fail( "outside", fmt( "E=%.17g is outside the range and gave %zu cross sections", E, x.size() ) ); c.event( d.kind + ", outside the range", { E }, true ); }
  for ( double E : { el, eh } ) { auto x = q( eV( E ) ); if ( x.empty() ) c.fail( "limit", fmt( "no cross sections at the limit E=%.17g", E ) ); else if ( compareAt( d, x, E, "at-limit" ) ) c.event( d.kind + ", at a limit", { E, x.begin()->second.value } ); }
}
static void checkGridOf( const Data& d, rm::Reconstructor& q ) {
  auto& c = ctx(); auto all = std::visit( [] ( auto& s ) { return gridOf( s.grid() ); }, q.compoundSystem() ); std::vector< double > want; for ( double e : all ) if ( e >= d.rr.el && e <= d.rr.eh ) want.push_back( e );
  auto got = gridOf( q.grid() ); if ( got != want ) c.fail( "grid", fmt( "%zu points instead of the %zu inside the range", got.size(), want.size() ) );
  for ( size_t k = 0; k < got.size(); ++k ) { if ( got[k] < d.rr.el || got[k] > d.rr.eh ) c.fail( "grid-range", fmt( "%.17g is outside the range", got[k] ) ); if ( k && !( got[k-1] < got[k] ) ) c.fail( "grid-order", fmt( "%.17g after %.17g", got[k], got[k-1] ) ); }
  auto has = [&] ( double e ) { return std::binary_search( got.begin(), got.end(), e ); }; auto need = [&] ( double e ) { if ( e > 0 && e >= d.rr.el && e <= d.rr.eh && !has( e ) ) c.fail( "grid-missing", fmt( "%.17g is not in the grid", e ) ); };
  for ( auto& g : d.bw ) for ( auto& x : g.res ) need( x.e ); for ( auto& g : d.ur ) for ( auto& x : g.res ) need( x.e );
  for ( auto& g : d.rmg ) for ( auto& x : g.res ) { bool any = x.ge != 0.; for ( double v : x.g ) any |= v != 0.; if ( any ) need( x.e ); }
  c.event( "range grid, " + d.kind + ( all.size() > want.size() ? ", points removed" : "" ), { double( got.size() ), d.rr.eh }, !got.empty() );
}
static Data randomData( Rng& r ) { int k = r.i( 0, 9 ); return k < 3 ? randomBreitWigner( r ) : k < 6 ? randomReichMoore( r ) : k < 8 ? randomLimited( r ) : randomUnresolvedData( r ); }
static std::string radiusClass( const Data& d ) { return d.kind == "R-matrix limited" ? "" : fmt( ", NRO=%d NAPS=%d", d.rr.nro, d.rr.naps ); }
static void checkData( Rng& r, const Data& d, const std::string& key, int n, bool structure ) {
  auto& c = ctx(); describe( head( d ) ); auto q = convert( d ); if ( structure ) { checkChannels( d, q ); checkTables( d, q ); } if ( structure || radiusEmphasis ) checkChannelData( d, q );
  for ( int k = 0; k < n; ++k ) { double E = energyIn( r, d ); auto x = q( eV( E ) ); if ( x.empty() ) { c.fail( "inside", fmt( "no cross sections at E=%.17g", E ) ); continue; } bool ok = compareAt( d, x, E, key ); c.event( d.kind + ( radiusEmphasis ? radiusClass( d ) : "" ) + ( ok ? "" : ", not decided" ), { E, x.begin()->second.value }, ok ); c.sampleEvery( fmt( "%s %s: E=%.8g: %s %.8g b", d.kind.c_str(), d.tgt.c_str(), E, x.begin()->first.symbol().c_str(), x.begin()->second.value ) ); }
}

#if defined( P12 ) || defined( PALL )
static void c12() {
  auto& c = ctx(); radiusEmphasis = true;
  cases( "range", 1200, [&] ( Rng& r, long ) { Data d = randomData( r ); checkData( r, d, "cross-section", 4, false ); auto q = convert( d ); checkRange( r, d, q ); for ( auto& g : d.table.regions ) c.event( fmt( "radius law %d", g.law ), { d.rr.eh, g.y[0] } ); } );
  cases( "dispatch", 3000, [&] ( Rng& r, long ) {
    Data d = randomData( r ); int good = d.rr.lru; d.rr.lru = r.b( .6 ) ? d.rr.lru : r.i( -1, 4 ); int lrf = d.rr.lrf; d.rr.lrf = r.b( .5 ) ? lrf : r.i( 0, 9 ); bool special = r.b( .1 ); if ( special ) { d.rr.par = mt::SpecialCase{ d.I, d.ap }; d.kind = "special case"; }
    int krm = 3, naps = d.rr.naps; if ( auto* p = std::get_if< mt::RMatrixLimited >( &d.rr.par ) ) { krm = p->krm = r.b( .5 ) ? 3 : r.i( 0, 6 ); } if ( d.rr.nro && d.kind != "R-matrix limited" && r.b( .2 ) ) naps = d.rr.naps = r.i( 3, 6 ); bool badlaw = false;
    if ( d.rr.radius && r.b( .1 ) ) { badlaw = true; d.rr.radius->laws_[ size_t( r.i( 0, int( d.rr.radius->laws_.size() ) - 1 ) ) ] = r.pick( { 0l, 6l, 7l, -1l, 21l } ); }
    describe( head( d ) + fmt( " KRM=%d law%s", krm, badlaw ? " unsupported" : "" ) );
    bool supported = !special && good == d.rr.lru && ( d.rr.lru == 2 || d.rr.lrf == lrf ) && krm == 3 && naps <= 2 && !badlaw; if ( d.rr.lru == 2 && good == 2 && d.rr.lrf != lrf ) return;      // the representation of unresolved data is implied by the data
    std::string what = fmt( "LRU=%d LRF=%d %s", d.rr.lru, d.rr.lrf, d.kind.c_str() );
    if ( supported ) { auto q = convert( d ); if ( q.compoundSystem().index() != d.index ) c.fail( "dispatch", fmt( "formalism %zu instead of %zu", q.compoundSystem().index(), d.index ) ); c.event( "dispatched " + d.kind, { d.rr.el, d.rr.eh } ); }
    else { if ( !throws( [&] { convert( d ); } ) ) c.fail( "not-rejected", what + fmt( " KRM=%d NAPS=%d was not rejected", krm, naps ) ); c.event( krm != 3 && d.rr.lru == 1 && d.rr.lrf == 7 ? "rejected formalism" : naps > 2 ? "rejected radius option" : badlaw ? "rejected interpolation law" : special ? "rejected special case" : "rejected type or representation", { double( d.rr.lru ), double( d.rr.lrf ), double( krm ), d.rr.el } ); }
  } );
}
#endif
#if defined( P11 ) || defined( PALL )
static void c11() { cases( "range grids", 2500, [&] ( Rng& r, long ) { Data d = randomData( r ); describe( head( d ) ); auto q = convert( d ); checkGridOf( d, q ); } ); }
#endif
#if defined( P16 ) || defined( PALL )
static bool same( const std::map< rm::ReactionID, nj::CrossSection >& a, const std::map< rm::ReactionID, nj::CrossSection >& b ) {
  if ( a.size() != b.size() ) return false;
  for ( auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j ) if ( i->first != j->first || std::memcmp( &i->second, &j->second, sizeof i->second ) ) return false;
  return true;
}
static void c16() {
  auto& c = ctx();
  cases( "reconstructor histories", 500, [&] ( Rng& r, long ) {
    Data d = randomData( r ); describe( head( d ) ); auto first = convert( d ); Data d2 = randomData( r ); auto second = convert( d2 );
    std::vector< double > es; for ( int k = 0; k < 4; ++k ) es.push_back( energyIn( r, d ) ); neighbours( r, es, 3, d.rr.el, d.rr.eh ); es.push_back( d.rr.eh * 1.5 ); es.push_back( d.rr.el ); es.push_back( d.rr.eh );
    std::vector< std::map< rm::ReactionID, nj::CrossSection > > want; std::vector< int > thrown;
    for ( double e : es ) { auto q = convert( d ); try { want.push_back( q( eV( e ) ) ); thrown.push_back( 0 ); } catch ( const std::exception& ) { want.push_back( {} ); thrown.push_back( 1 ); } }
    auto gridOf = [] ( const rm::Reconstructor& q ) { std::vector< double > g; for ( auto& e : q.grid() ) g.push_back( e.value ); return g; };
    auto grid0 = gridOf( convert( d ) ); std::vector< rm::Reconstructor > pool{ first }; long h = 0;
    for ( int step = 0; step < 16; ++step ) {
      size_t i = size_t( r.i( 0, int( pool.size() ) - 1 ) ), k = size_t( r.i( 0, int( es.size() ) - 1 ) ); int op = r.i( 0, 8 ); h = h * 9 + op;
      if ( op == 4 ) { try { second( eV( es[k] ) ); } catch ( const std::exception& ) {} }
      if ( op <= 4 ) { int t = 0; std::map< rm::ReactionID, nj::CrossSection > x; try { x = pool[i]( eV( es[k] ) ); } catch ( const std::exception& ) { t = 1; } if ( t != thrown[k] || ( !t && !same( x, want[k] ) ) ) c.fail( "history-reconstructor", fmt( "step %d: the result at E=%.17g differs from that of a fresh object", step, es[k] ) ); }
      else if ( op == 5 ) { if ( gridOf( pool[i] ) != grid0 ) c.fail( "history-grid", "grid changed" ); }
      else if ( op == 6 && pool.size() < 4 ) { rm::Reconstructor copy( pool[i] ); pool.push_back( copy ); }
      else if ( op == 7 ) { rm::Reconstructor moved( std::move( pool[i] ) ); pool[i] = std::move( moved ); }
      else if ( op == 8 ) { auto q = pool[i]; q( eV( es[0] ) ); rm::Reconstructor assigned = second; assigned = q; int t = 0; std::map< rm::ReactionID, nj::CrossSection > x; try { x = assigned( eV( es[k] ) ); } catch ( const std::exception& ) { t = 1; } if ( t != thrown[k] || ( !t && !same( x, want[k] ) ) || assigned.lowerEnergy().value != d.rr.el || assigned.upperEnergy().value != d.rr.eh || assigned.isResolved() != first.isResolved() ) c.fail( "history-assigned", fmt( "step %d: the result of an assigned object at E=%.17g differs from that of a fresh object", step, es[k] ) ); }
    }
    c.event( "history, reconstructor, " + d.kind, { double( h ), es[0] } );
  } );
}
#endif
#if defined( P13 ) || defined( PALL )
static void c13() {
  auto& c = ctx();
  cases( "breit wigner", 700, [&] ( Rng& r, long ) { checkData( r, randomBreitWigner( r ), "breit-wigner", 5, true ); } );
  cases( "reich moore", 900, [&] ( Rng& r, long ) { checkData( r, randomReichMoore( r ), "reich-moore", 5, true ); } );
  cases( "limited", 900, [&] ( Rng& r, long ) { checkData( r, randomLimited( r ), "limited", 5, true ); } );
  cases( "unresolved", 500, [&] ( Rng& r, long ) { checkData( r, randomUnresolvedData( r ), "unresolved", 4, true ); } );
  // potential scattering of Reich-Moore data far from any resonance width: all l up to the limit
  cases( "potential scattering", 400, [&] ( Rng& r, long ) {
    Data d = randomReichMoore( r ); auto& x = std::get< mt::ReichMoore >( d.rr.par ); for ( auto& lv : x.lvalues ) lv.rows.clear(); for ( auto& g : d.rmg ) g.res.clear(); describe( head( d ) ); auto q = convert( d );
    for ( int k = 0; k < 3; ++k ) {
      double E = energyIn( r, d ); auto xs = q( eV( E ) ); std::map< int, double > rad; for ( auto& g : d.rmg ) for ( auto& ch : g.ch ) if ( ch.type == NEUTRON ) rad[ ch.l ] = ch.rF( E ); auto kin = kinematics( d.rmg[0], d.rmg[0].ch[0], E, charged() ); ld want = 0, tol = 0;
      for ( auto& p : rad ) { ld rho = kin.k * p.second, phi = ref::hardSphere( p.first, double( rho ) ).phi, s = sinl( phi ), e = 2e-14L * ( 1 + p.first + rho ); want += 4 * PI / ( kin.k * kin.k ) * ( 2 * p.first + 1 ) * s * s; tol += 4 * PI / ( kin.k * kin.k ) * ( 2 * p.first + 1 ) * ( 2 * fabsl( s ) * e + e * e ); }
      auto i = xs.find( rm::ReactionID( "n," + d.tgt + "->n," + d.tgt ) ); if ( i == xs.end() || !( fabsl( i->second.value - want ) <= tol ) ) c.fail( "potential-scattering", fmt( "E=%.17g: elastic is %.12g, 4pi/k^2 sum (2l+1) sin^2 phi is %.12Lg", E, i == xs.end() ? -1. : i->second.value, want ) );
      c.event( fmt( "potential scattering, NLSC=%d", x.nlsc ), { E, double( want ) } );
    } } );
  cases( "degenerate energies", 60, [&] ( Rng& r, long ) { Data d = randomReichMoore( r, DEGENERATE ); checkData( r, d, "degenerate-energies", 4, false ); } );
  cases( "both spins with fission", 60, [&] ( Rng& r, long ) { Data d = randomReichMoore( r, BOTHSPINSFISSION ); describe( head( d ) ); try { checkData( r, d, "both-spins-fission", 4, false ); } catch ( const std::exception& ) { c.fail( "both-spins-fission", "rejected" ); } } );
  cases( "mixed shift factor flags", 60, [&] ( Rng& r, long ) { Data d = randomLimited( r, MIXEDSHIFT ); bool mixed = false; auto& x = std::get< mt::RMatrixLimited >( d.rr.par ); for ( size_t k = 0; k < x.pairs.mt.size(); ++k ) mixed |= x.pairs.mt[k] != 2 && x.pairs.mt[k] != 18 && x.pairs.mt[k] != 102; if ( !mixed ) return; describe( head( d ) ); if ( !throws( [&] { convert( d ); } ) ) c.fail( "mixed-shift-flags", "shift factor flags that differ between particle pairs were neither honoured nor rejected" ); } );
}
#endif

int main( int argc, char** argv ) {
  init( argc, argv ); auto& c = ctx(); bool all = c.prop == "C15" || c.prop == "ALL"; (void)all;
#if defined( P11 ) || defined( PALL )
  if ( all || c.prop == "C11" ) c11();
#endif
#if defined( P12 ) || defined( PALL )
  if ( all || c.prop == "C12" ) c12();
#endif
#if defined( P13 ) || defined( PALL )
  if ( all || c.prop == "C13" ) c13();
#endif
#if defined( P16 ) || defined( PALL )
  if ( all || c.prop == "C16" ) c16();
#endif
  std::fprintf( stderr, "maxratio %.3g\n", maxratio );
  return finish();
}
