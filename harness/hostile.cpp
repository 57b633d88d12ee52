// Hostile but structurally valid ENDF data for C15: every mutation either converts and evaluates or throws.
#define main endf_main
#include "endf.cpp"

// running out of memory is an exception to the caller (the sanitizers and valgrind end the program instead)
void* operator new( size_t n ) { void* p = n > ( size_t( 1 ) << 30 ) ? nullptr : std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void* operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete[]( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, size_t ) noexcept { std::free( p ); }
void operator delete[]( void* p, size_t ) noexcept { std::free( p ); }
#undef main

static double weird( Rng& r ) {
  switch ( r.i( 0, 11 ) ) { case 0: case 1: return 0.; case 2: return -1.; case 3: return 1e300; case 4: return -1e300; case 5: return 4.9e-324; case 6: return -r.logu( 1e-6, 1e6 ); case 7: return 1e-300; case 8: return r.logu( 1e-20, 1e20 ); case 9: return 1e20; case 10: return -0.; default: return r.uni( -5, 5 ); } }
static double weirdSpin( Rng& r ) { switch ( r.i( 0, 6 ) ) { case 0: return 0.; case 1: return -.5; case 2: return r.i( 0, 40 ) * .5; case 3: return -r.i( 0, 40 ) * .5; case 4: return r.uni( -5, 5 ); case 5: return 50.; default: return .25; } }
static int weirdInt( Rng& r, int lo, int hi ) { return r.i( lo, hi ); }
static double weirdEnergy( Rng& r, const Data& d ) {
  switch ( r.i( 0, 13 ) ) { case 0: return 0.; case 1: return -1.; case 2: return -0.; case 3: return std::nan( "" ); case 4: return INFINITY; case 5: return -INFINITY; case 6: return 1e300; case 7: return 4.9e-324; case 8: return d.rr.el; case 9: return d.rr.eh; default: return energyIn( r, d ); } }
template< typename V > static size_t any( Rng& r, const V& v ) { return size_t( r.i( 0, int( v.size() ) - 1 ) ); }

struct Mutator {
  Rng& r; std::string what;
  template< typename L > void lvalue( std::vector< L >& v ) {
    switch ( r.i( 0, 5 ) ) {
      case 0: if ( !v.empty() ) { v = { v[ any( r, v ) ] }; what += " one l"; } return;                 // NLS is at least one
      case 1: if ( !v.empty() ) { v[ any( r, v ) ].l = weirdInt( r, 0, r.b() ? 6 : 40 ); what += " l"; } return;
      case 2: if ( !v.empty() ) { v[ any( r, v ) ].awri = r.b() ? weird( r ) : r.logu( 1e-3, 1e3 ); what += " AWRI"; } return;
      case 3: if ( !v.empty() ) { v.push_back( v[ any( r, v ) ] ); what += " repeated l"; } return;
      case 4: r.shuffle( v ); what += " shuffled l values"; return;
      default: if ( v.size() > 1 ) { v.erase( v.begin() + long( any( r, v ) ) ); what += " removed l"; } return;
    } }
  template< typename R > void rows( std::vector< R >& v, std::initializer_list< size_t > spins ) {
    switch ( r.i( 0, 5 ) ) {
      case 0: v.clear(); what += " no rows"; return;
      case 1: if ( !v.empty() ) { v.push_back( v[ any( r, v ) ] ); what += " repeated row"; } return;
      case 2: if ( !v.empty() ) for ( size_t s : spins ) { v[ any( r, v ) ][s] = weirdSpin( r ); what += " spin"; } return;
      case 3: if ( !v.empty() ) { auto& w = v[ any( r, v ) ]; for ( size_t k = 0; k < w.size(); ++k ) if ( std::find( spins.begin(), spins.end(), k ) == spins.end() ) w[k] = 0.; what += " zero row"; } return;
      default: if ( !v.empty() ) { auto& w = v[ any( r, v ) ]; size_t k = any( r, w ); w[k] = std::find( spins.begin(), spins.end(), k ) == spins.end() ? weird( r ) : weirdSpin( r ); what += fmt( " value %zu", k ); } return;
    } }
  template< typename P > void common( P& p ) { switch ( r.i( 0, 2 ) ) { case 0: p.spi = weirdSpin( r ); what += " SPI"; break; case 1: p.ap = weird( r ); what += " AP"; break; default: lvalue( p.lvalues ); } }
  void operator()( mt::SpecialCase& ) {}
  template< int n > void operator()( mt::BreitWigner< n >& p ) {
    if ( r.b( .3 ) || p.lvalues.empty() ) return common( p ); auto& l = p.lvalues[ any( r, p.lvalues ) ];
    switch ( r.i( 0, 3 ) ) { case 0: l.lrx = r.i( 0, 2 ); what += " LRX"; break; case 1: l.qx = weird( r ); what += " QX"; break; default: rows( l.rows, { 1 } ); } }
  void operator()( mt::ReichMoore& p ) {
    if ( r.b( .3 ) || p.lvalues.empty() ) return common( p ); auto& l = p.lvalues[ any( r, p.lvalues ) ];
    switch ( r.i( 0, 4 ) ) { case 0: l.apl = weird( r ); what += " APL"; break; case 1: p.nlsc = r.i( 0, 12 ); what += " NLSC"; break; default: rows( l.rows, { 1 } ); } }
  void operator()( mt::RMatrixLimited& p ) {
    if ( r.b( .4 ) ) { auto& q = p.pairs; if ( q.ma.empty() ) return; size_t k = any( r, q.ma );
      switch ( r.i( 0, 9 ) ) {
        case 0: q.mt[k] = r.pick( { 2, 16, 18, 51, 102, 103, 107, 600, 649, 800, 849, 999, 0, -5, 50, 91 } ); what += " MT"; break; case 1: q.shf[k] = r.i( -1, 2 ); what += " SHF"; break; case 2: q.pnt[k] = r.i( -1, 2 ); what += " PNT"; break;
        case 3: q.q[k] = weird( r ); what += " Q"; break; case 4: ( r.b() ? q.ma : q.mb )[k] = weird( r ); what += " mass"; break; case 5: ( r.b() ? q.za : q.zb )[k] = r.b() ? weird( r ) : r.i( 0, 100 ); what += " charge"; break;
        case 6: ( r.b() ? q.ia : q.ib )[k] = weirdSpin( r ); what += " pair spin"; break; case 7: ( r.b() ? q.pa : q.pb )[k] = r.i( -2, 2 ); what += " parity"; break; case 8: p.ifg = r.i( -1, 2 ); what += " IFG"; break; default: p.krm = r.i( 0, 5 ); what += " KRM"; break; }
      return; }
    if ( p.groups.empty() ) return; auto& g = p.groups[ any( r, p.groups ) ];
    switch ( r.i( 0, 9 ) ) {
      case 0: p.groups.push_back( g ); what += " repeated group"; break; case 1: p.groups.clear(); what += " no groups"; break; case 2: g.ch.aj = weirdSpin( r ); what += " AJ"; break; case 3: g.ch.pj = r.pick( { 0., 1., -1., 2., .5 } ); what += " PJ"; break;
      case 4: if ( !g.ch.l.empty() ) { g.ch.l[ any( r, g.ch.l ) ] = unsigned( r.i( 0, r.b() ? 6 : 60 ) ); what += " channel l"; } break;
      case 5: if ( !g.ch.l.empty() ) { size_t k = any( r, g.ch.l ); ( r.b( .3 ) ? g.ch.bnd : r.b() ? g.ch.ape : g.ch.apt )[k] = weird( r ); what += " channel value"; } break;
      case 6: if ( !g.ch.l.empty() ) { g.ch.sch[ any( r, g.ch.l ) ] = weirdSpin( r ); what += " channel spin"; } break;
      case 7: if ( !g.par.er.empty() ) { size_t k = any( r, g.par.er ); if ( r.b( .4 ) || g.par.gam[k].empty() ) g.par.er[k] = r.b() ? weird( r ) : r.pick( g.par.er ); else g.par.gam[k][ any( r, g.par.gam[k] ) ] = weird( r ); what += " resonance"; } break;
      case 8: if ( !g.par.er.empty() ) { size_t k = any( r, g.par.er ); for ( auto& v : g.par.gam[k] ) v = 0.; what += " zero widths"; } break;
      default: if ( !g.ch.l.empty() && !p.pairs.ma.empty() ) { g.ch.ppi[ any( r, g.ch.ppi ) ] = r.b( .6 ) ? r.i( 1, int( p.pairs.ma.size() ) ) : r.pick( { 0, -1, int( p.pairs.ma.size() ) + 1, 1000000 } ); what += " PPI"; } break;
    } }
  void operator()( mt::UnresolvedEnergyIndependent& p ) { if ( r.b( .3 ) || p.lvalues.empty() ) return common( p ); rows( p.lvalues[ any( r, p.lvalues ) ].rows, { 1 } ); if ( r.b( .3 ) ) for ( auto& l : p.lvalues ) for ( auto& w : l.rows ) w[ r.pick( { size_t( 2 ), size_t( 7 ), size_t( 8 ), size_t( 9 ) } ) ] = r.i( -1, 7 ); }
  void energies( std::vector< double >& e ) { switch ( r.i( 0, 4 ) ) { case 0: r.shuffle( e ); what += " shuffled energies"; break; case 1: if ( !e.empty() ) e[ any( r, e ) ] = weird( r ); what += " energy"; break; case 2: if ( e.size() > 1 ) e[1] = e[0]; what += " repeated energy"; break; default: break; } }
  void operator()( mt::UnresolvedEnergyDependentFissionWidths& p ) {
    if ( r.b( .3 ) || p.lvalues.empty() ) return common( p ); if ( r.b( .3 ) ) { energies( p.es ); return; } if ( r.b( .15 ) ) { p.es.resize( 1 ); for ( auto& l : p.lvalues ) for ( auto& j : l.js ) j.gf.resize( 1 ); what += " one energy"; return; }
    auto& l = p.lvalues[ any( r, p.lvalues ) ]; if ( l.js.empty() || r.b( .1 ) ) { l.js.clear(); what += " no J"; return; } auto& j = l.js[ any( r, l.js ) ];
    switch ( r.i( 0, 6 ) ) { case 0: j.d = weird( r ); break; case 1: j.aj = weirdSpin( r ); break; case 2: j.amun = r.b() ? r.i( -1, 7 ) : weird( r ); break; case 3: j.amuf = r.b() ? r.i( -1, 7 ) : weird( r ); break; case 4: j.gn = weird( r ); break; case 5: j.gg = weird( r ); break; default: if ( !j.gf.empty() ) j.gf[ any( r, j.gf ) ] = weird( r ); } what += " J value"; }
  void operator()( mt::UnresolvedEnergyDependent& p ) {
    if ( r.b( .3 ) || p.lvalues.empty() ) return common( p ); auto& l = p.lvalues[ any( r, p.lvalues ) ]; if ( l.js.empty() || r.b( .1 ) ) { l.js.clear(); what += " no J"; return; } auto& j = l.js[ any( r, l.js ) ];
    switch ( r.i( 0, 7 ) ) { case 0: energies( j.es ); return; case 1: j.aj = weirdSpin( r ); break; case 2: j.amun = r.b() ? r.i( -1, 7 ) : weird( r ); break; case 3: j.amuf = r.b() ? r.i( -1, 7 ) : weird( r ); break; case 4: j.amux = r.b() ? r.i( -1, 7 ) : weird( r ); break; case 5: if ( !j.d.empty() ) j.d[ any( r, j.d ) ] = weird( r ); break;
      case 6: { size_t n = size_t( r.i( 0, 1 ) ); j.es.resize( n ); j.d.resize( n ); j.gx.resize( n ); j.gn0.resize( n ); j.gg.resize( n ); j.gf.resize( n ); break; } default: if ( !j.gn0.empty() ) ( r.b() ? j.gn0 : r.b() ? j.gg : r.b() ? j.gf : j.gx )[ any( r, j.gn0 ) ] = weird( r ); } what += " J value"; }
};
static void mutateRange( Rng& r, Data& d, std::string& what ) {
  switch ( r.i( 0, 6 ) ) {
    case 0: d.rr.naps = r.i( -1, 4 ); what += " NAPS"; break; case 1: d.rr.nro = r.i( 0, 2 ); what += " NRO"; break; case 2: d.rr.el = weird( r ); what += " EL"; break; case 3: d.rr.eh = weird( r ); what += " EH"; break;
    case 4: d.rr.lru = r.i( 0, 3 ); d.rr.lrf = r.i( 0, 8 ); what += " LRU/LRF"; break;
    default: { int n = r.i( 1, 5 ); std::vector< double > x, y; double e = 1e-6; for ( int k = 0; k < n; ++k ) { x.push_back( r.b( .8 ) ? e : weird( r ) ); y.push_back( r.b( .8 ) ? r.uni( .1, 1 ) : weird( r ) ); e *= r.logu( 1, 1e4 ); } if ( n > 1 && r.b( .3 ) ) x[1] = x[0]; std::vector< long > b, laws; if ( n > 3 && r.b() ) b.push_back( 2 ); b.push_back( n ); for ( size_t k = 0; k < b.size(); ++k ) laws.push_back( r.i( 0, 7 ) ); try { d.rr.radius.emplace( std::move( b ), std::move( laws ), std::move( x ), std::move( y ) ); d.rr.nro = 1; } catch ( ... ) {} what += " radius table"; }
  } }
int main( int argc, char** argv ) {
  init( argc, argv ); auto& c = ctx(); c.cpuLimit *= 3;
  cases( "hostile data", 4000, [&] ( Rng& r, long ) {
    Data d = randomData( r ); Mutator m{ r, {} }; for ( int k = r.b( .6 ) ? 1 : r.i( 2, 4 ); k > 0; --k ) if ( r.b( .75 ) ) std::visit( m, d.rr.par ); else mutateRange( r, d, m.what );
    d.text.clear();
    describe( d.kind + m.what + fmt( " NRO=%d NAPS=%d EL=%g EH=%g case", int( d.rr.nro ), int( d.rr.naps ), d.rr.el, d.rr.eh ) );
    std::string first = m.what.substr( 0, m.what.find( ' ', 1 ) ); bool accepted = false; size_t results = 0, thrown = 0;
    try {
      auto q = convert( d ); accepted = true; auto copy = q;
      for ( int k = 0; k < 5; ++k ) { double E = weirdEnergy( r, d ); try { auto x = copy( eV( E ) ); results += x.size(); } catch ( const std::exception& ) { ++thrown; } }
      try { results += q.grid().size(); } catch ( const std::exception& ) { ++thrown; }
      { auto other = std::move( copy ); copy = q; try { results += other( eV( energyIn( r, d ) ) ).size(); } catch ( const std::exception& ) { ++thrown; } }
    } catch ( const std::exception& ) {}
    c.event( fmt( "%s, %s", d.kind.c_str(), accepted ? "accepted" : "rejected" ), { double( results ), double( thrown ), d.ap } ); c.event( "mutation of" + first, { d.ap, double( results ) } );
    c.sampleEvery( d.kind + m.what + ( accepted ? fmt( ": converted, %zu values, %zu exceptions", results, thrown ) : std::string( ": rejected" ) ) );
  } );
  return finish();
}
