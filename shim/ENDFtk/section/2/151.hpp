// Stand-in for njoy/ENDFtk (not available offline): the resonance parameter section MF2 MT151 of ENDF-6,
// as data that can be filled in directly or read from ENDF text.
#ifndef VERIF_SHIM_ENDFTK_151
#define VERIF_SHIM_ENDFTK_151
#include <array>
#include <cctype>
#include <cstdlib>
#include <optional>
#include <stdexcept>
#include <string>
#include <utility>
#include <variant>
#include <vector>
#include "Log.hpp"

namespace njoy {
namespace ENDFtk {

// ---------------------------------------------------------------- records
namespace record {
  struct Cont { double c1 = 0, c2 = 0; long l1 = 0, l2 = 0, n1 = 0, n2 = 0; };
  struct List { Cont head; std::vector< double > v; };
  struct Tab1 { Cont head; std::vector< long > bounds, laws; std::vector< double > x, y; };

  inline double number( const std::string& field ) {
    std::string s;
    for ( char c : field ) {
      if ( c == ' ' || c == '\t' || c == '\r' ) continue;
      if ( c == 'D' || c == 'd' ) c = 'e';
      if ( ( c == '+' || c == '-' ) && !s.empty() && s.back() != 'e' && s.back() != 'E' ) s += 'e';
      s += c;
    }
    return s.empty() ? 0. : std::strtod( s.c_str(), nullptr );
  }
  template< typename It > std::string line( It& it, const It& end, long& n ) {
    if ( it == end ) throw std::runtime_error( "ENDF text ended early" );
    std::string s;
    while ( it != end && *it != '\n' ) s += *it++;
    if ( it != end ) ++it;
    ++n;
    s.resize( 80, ' ' );
    return s;
  }
  template< typename It > Cont cont( It& it, const It& end, long& n ) {
    const auto s = line( it, end, n );
    auto f = [&]( int i ) { return number( s.substr( 11 * i, 11 ) ); };
    return { f( 0 ), f( 1 ), long( f( 2 ) ), long( f( 3 ) ), long( f( 4 ) ), long( f( 5 ) ) };
  }
  template< typename It > std::vector< double > values( It& it, const It& end, long& n, std::size_t count ) {
    std::vector< double > v;
    while ( v.size() < count ) {
      const auto s = line( it, end, n );
      for ( int i = 0; i < 6 && v.size() < count; ++i ) v.push_back( number( s.substr( 11 * i, 11 ) ) );
    }
    return v;
  }
  template< typename It > List list( It& it, const It& end, long& n ) {
    List l; l.head = cont( it, end, n );
    l.v = values( it, end, n, l.head.n1 );
    return l;
  }
  template< typename It > Tab1 tab1( It& it, const It& end, long& n ) {
    Tab1 t; t.head = cont( it, end, n );
    auto b = values( it, end, n, 2 * t.head.n1 );
    for ( std::size_t i = 0; i < b.size(); i += 2 ) { t.bounds.push_back( b[i] ); t.laws.push_back( b[i+1] ); }
    auto p = values( it, end, n, 2 * t.head.n2 );
    for ( std::size_t i = 0; i < p.size(); i += 2 ) { t.x.push_back( p[i] ); t.y.push_back( p[i+1] ); }
    return t;
  }
}

struct HeadRecord {
  record::Cont c;
  HeadRecord() = default;
  template< typename It > HeadRecord( It& it, const It& end, long& n ) : c( record::cont( it, end, n ) ) {}
};
using HEAD = HeadRecord;

#define VERIF_ALIAS( type, name, value ) type name() const { return value; }
#define VERIF_ALIAS2( type, a, b, value ) type a() const { return value; } type b() const { return value; }

// ---------------------------------------------------------------- data
namespace mt151 {

struct ScatteringRadius {
  std::vector< long > bounds_, laws_;
  std::vector< double > x_, y_;
  ScatteringRadius( std::vector< long >&& b, std::vector< long >&& l,
                    std::vector< double >&& x, std::vector< double >&& y ) :
    bounds_( std::move( b ) ), laws_( std::move( l ) ), x_( std::move( x ) ), y_( std::move( y ) ) {
    std::size_t first = 0;
    for ( auto last : bounds_ ) {
      if ( last < 1 || std::size_t( last ) > x_.size() || first >= std::size_t( last ) )
        throw std::runtime_error( "ENDFtk shim: bad interpolation regions" );
      regions_.emplace_back( std::vector< double >( x_.begin() + first, x_.begin() + last ),
                             std::vector< double >( y_.begin() + first, y_.begin() + last ) );
      first = last - 1;
      // two equal abscissae at the boundary: the next region starts at the second
      if ( std::size_t( last ) < x_.size() && x_[ last ] == x_[ last - 1 ] ) first = last;
    }
  }
  using Region = std::pair< std::vector< double >, std::vector< double > >;
  std::vector< Region > regions_;
  const std::vector< Region >& regions() const { return regions_; }
  // lvalues, so that they can be used in range pipelines
  const std::vector< long >& interpolants() const { return laws_; }
  const std::vector< long >& boundaries() const { return bounds_; }
};

// Breit-Wigner: rows ER AJ GT GN GG GF
struct BreitWignerLValue {
  double awri = 0, qx = 0; int l = 0, lrx = 0;
  std::vector< std::array< double, 6 > > rows;

  template< typename Range > struct Resonance {
    Range row; 
    VERIF_ALIAS2( double, ER, resonanceEnergy, row[0] )
    VERIF_ALIAS2( double, AJ, spin, row[1] )
    VERIF_ALIAS2( double, GT, totalWidth, row[2] )
    VERIF_ALIAS2( double, GN, neutronWidth, row[3] )
    VERIF_ALIAS2( double, GG, gammaWidth, row[4] )
    VERIF_ALIAS2( double, GF, fissionWidth, row[5] )
    VERIF_ALIAS2( double, GX, competitiveWidth, row[2] - ( row[3] + row[4] + row[5] ) )
  };
  VERIF_ALIAS2( double, AWRI, atomicWeightRatio, awri )
  VERIF_ALIAS2( double, QX, QValue, qx )
  VERIF_ALIAS2( int, L, orbitalMomentum, l )
  VERIF_ALIAS2( int, LRX, competitiveWidthFlag, lrx )
  VERIF_ALIAS2( int, NRS, numberResonances, rows.size() )
  std::vector< Resonance< std::array< double, 6 > > > resonances() const {
    std::vector< Resonance< std::array< double, 6 > > > r;
    for ( auto& row : rows ) r.push_back( { row } );
    return r;
  }
  std::vector< double > spinValues() const {
    std::vector< double > v; for ( auto& r : rows ) v.push_back( r[1] ); return v;
  }
};

// Reich-Moore: rows ER AJ GN GG GFA GFB
struct ReichMooreLValue {
  double awri = 0, apl = 0; int l = 0;
  std::vector< std::array< double, 6 > > rows;

  template< typename Range > struct Resonance {
    Range row;
    VERIF_ALIAS2( double, ER, resonanceEnergy, row[0] )
    VERIF_ALIAS2( double, AJ, spin, row[1] )
    VERIF_ALIAS2( double, GN, neutronWidth, row[2] )
    VERIF_ALIAS2( double, GG, gammaWidth, row[3] )
    VERIF_ALIAS2( double, GFA, firstFissionWidth, row[4] )
    VERIF_ALIAS2( double, GFB, secondFissionWidth, row[5] )
  };
  VERIF_ALIAS2( double, AWRI, atomicWeightRatio, awri )
  VERIF_ALIAS2( double, APL, lDependentScatteringRadius, apl )
  VERIF_ALIAS2( int, L, orbitalMomentum, l )
  VERIF_ALIAS2( int, NRS, numberResonances, rows.size() )
  std::vector< Resonance< std::array< double, 6 > > > resonances() const {
    std::vector< Resonance< std::array< double, 6 > > > r;
    for ( auto& row : rows ) r.push_back( { row } );
    return r;
  }
  std::vector< double > spinValues() const {
    std::vector< double > v; for ( auto& r : rows ) v.push_back( r[1] ); return v;
  }
};

struct SpecialCase { double spi = 0, ap = 0; };

template< int which > struct BreitWigner {
  using LValue = BreitWignerLValue;
  struct LState { struct Resonance; };     // named, never used, by an uninstantiated overload
  double spi = 0, ap = 0; int lad = 0;
  std::vector< LValue > lvalues;
  VERIF_ALIAS2( double, SPI, spin, spi )
  VERIF_ALIAS2( double, AP, scatteringRadius, ap )
  VERIF_ALIAS2( int, NLS, numberLValues, lvalues.size() )
  const std::vector< LValue >& lValues() const { return lvalues; }
};
using SingleLevelBreitWigner = BreitWigner< 1 >;
using MultiLevelBreitWigner = BreitWigner< 2 >;

struct ReichMoore {
  using LValue = ReichMooreLValue;
  double spi = 0, ap = 0; int lad = 0, nlsc = 0;
  std::vector< LValue > lvalues;
  VERIF_ALIAS2( double, SPI, spin, spi )
  VERIF_ALIAS2( double, AP, scatteringRadius, ap )
  VERIF_ALIAS2( int, NLS, numberLValues, lvalues.size() )
  VERIF_ALIAS2( int, NLSC, numberLValuesForConvergence, nlsc )
  VERIF_ALIAS2( int, LAD, angularDistributionFlag, lad )
  const std::vector< LValue >& lValues() const { return lvalues; }
};

struct RMatrixLimited {
  struct ParticlePairs {
    std::vector< double > ma, mb, za, zb, ia, ib, q;
    std::vector< int > pnt, shf, mt, pa, pb;
    void add( double mA, double mB, double zA, double zB, double iA, double iB, double Q,
              int PNT, int SHF, int MT, int PA, int PB ) {
      ma.push_back( mA ); mb.push_back( mB ); za.push_back( zA ); zb.push_back( zB );
      ia.push_back( iA ); ib.push_back( iB ); q.push_back( Q ); pnt.push_back( PNT );
      shf.push_back( SHF ); mt.push_back( MT ); pa.push_back( PA ); pb.push_back( PB );
    }
    const auto& massParticleA() const { return ma; }    const auto& MA() const { return ma; }
    const auto& massParticleB() const { return mb; }    const auto& MB() const { return mb; }
    const auto& chargeParticleA() const { return za; }  const auto& ZA() const { return za; }
    const auto& chargeParticleB() const { return zb; }  const auto& ZB() const { return zb; }
    const auto& spinParticleA() const { return ia; }    const auto& IA() const { return ia; }
    const auto& spinParticleB() const { return ib; }    const auto& IB() const { return ib; }
    const auto& parityParticleA() const { return pa; }  const auto& PA() const { return pa; }
    const auto& parityParticleB() const { return pb; }  const auto& PB() const { return pb; }
    const auto& Q() const { return q; }                 const auto& MT() const { return mt; }
    const auto& penetrabilityFlag() const { return pnt; }   const auto& PNT() const { return pnt; }
    const auto& shiftFactorFlag() const { return shf; }     const auto& SHF() const { return shf; }
    int NPP() const { return ma.size(); }
    int numberParticlePairs() const { return ma.size(); }
  };
  struct ResonanceChannels {
    double aj = 0, pj = 0;
    std::vector< int > ppi; std::vector< unsigned int > l;
    std::vector< double > sch, bnd, ape, apt;
    void add( int PPI, unsigned int L, double SCH, double BND, double APE, double APT ) {
      ppi.push_back( PPI ); l.push_back( L ); sch.push_back( SCH ); bnd.push_back( BND );
      ape.push_back( APE ); apt.push_back( APT );
    }
    VERIF_ALIAS2( double, AJ, spin, aj )
    VERIF_ALIAS2( double, PJ, parity, pj )
    VERIF_ALIAS2( int, NCH, numberChannels, ppi.size() )
    const auto& particlePairNumbers() const { return ppi; }      const auto& PPI() const { return ppi; }
    const auto& orbitalMomentumValues() const { return l; }      const auto& L() const { return l; }
    const auto& channelSpinValues() const { return sch; }        const auto& SCH() const { return sch; }
    const auto& boundaryConditionValues() const { return bnd; }  const auto& BND() const { return bnd; }
    const auto& trueChannelRadii() const { return apt; }         const auto& APT() const { return apt; }
    const auto& effectiveChannelRadii() const { return ape; }    const auto& APE() const { return ape; }
  };
  struct ResonanceParameters {
    std::vector< double > er; std::vector< std::vector< double > > gam;
    VERIF_ALIAS2( int, NRS, numberResonances, er.size() )
    const auto& resonanceEnergies() const { return er; }    const auto& ER() const { return er; }
    const auto& resonanceParameters() const { return gam; } const auto& GAM() const { return gam; }
  };
  struct SpinGroup {
    ResonanceChannels ch; ResonanceParameters par;
    const ResonanceChannels& channels() const { return ch; }
    const ResonanceParameters& parameters() const { return par; }
  };
  int ifg = 0, krm = 3, krl = 0;
  ParticlePairs pairs;
  std::vector< SpinGroup > groups;
  VERIF_ALIAS2( int, IFG, reducedWidths, ifg )
  VERIF_ALIAS2( int, KRM, formalism, krm )
  VERIF_ALIAS2( int, KRL, relativisticKinematics, krl )
  VERIF_ALIAS2( int, NJS, numberSpinGroups, groups.size() )
  const ParticlePairs& particlePairs() const { return pairs; }
  const std::vector< SpinGroup >& spinGroups() const { return groups; }
};

// unresolved, case A: row D AJ AMUN GN GG (fission width zero without fission)
struct UnresolvedEnergyIndependent {
  template< typename Range > struct JValue {
    Range row;     // D AJ AMUN GN GG GF GX AMUX AMUG AMUF
    VERIF_ALIAS2( double, D, averageLevelSpacing, row[0] )
    VERIF_ALIAS2( double, AJ, spin, row[1] )
    VERIF_ALIAS2( double, AMUN, neutronWidthDegreesFreedom, row[2] )
    VERIF_ALIAS2( double, GN, averageNeutronWidth, row[3] )
    VERIF_ALIAS2( double, GG, averageGammaWidth, row[4] )
    VERIF_ALIAS2( double, GF, averageFissionWidth, row[5] )
    VERIF_ALIAS2( double, GX, averageCompetitiveWidth, row[6] )
    VERIF_ALIAS2( double, AMUX, competitiveWidthDegreesFreedom, row[7] )
    VERIF_ALIAS2( double, AMUG, gammaWidthDegreesFreedom, row[8] )
    VERIF_ALIAS2( double, AMUF, fissionWidthDegreesFreedom, row[9] )
  };
  struct LValue {
    double awri = 0; int l = 0;
    std::vector< std::array< double, 10 > > rows;
    VERIF_ALIAS2( double, AWRI, atomicWeightRatio, awri )
    VERIF_ALIAS2( int, L, orbitalMomentum, l )
    VERIF_ALIAS2( int, NJS, numberSpinValues, rows.size() )
    std::vector< JValue< std::array< double, 10 > > > jValues() const {
      std::vector< JValue< std::array< double, 10 > > > r;
      for ( auto& row : rows ) r.push_back( { row } );
      return r;
    }
  };
  double spi = 0, ap = 0; int lssf = 0;
  std::vector< LValue > lvalues;
  VERIF_ALIAS2( double, SPI, spin, spi )
  VERIF_ALIAS2( double, AP, scatteringRadius, ap )
  VERIF_ALIAS2( int, NLS, numberLValues, lvalues.size() )
  const std::vector< LValue >& lValues() const { return lvalues; }
};

// case B: energy dependent fission widths
struct UnresolvedEnergyDependentFissionWidths {
  struct JValue {
    double d = 0, aj = 0, amun = 0, amuf = 0, gn = 0, gg = 0;
    std::vector< double > gf;
    VERIF_ALIAS2( double, D, averageLevelSpacing, d )
    VERIF_ALIAS2( double, AJ, spin, aj )
    VERIF_ALIAS2( double, AMUN, neutronWidthDegreesFreedom, amun )
    VERIF_ALIAS2( double, AMUF, fissionWidthDegreesFreedom, amuf )
    VERIF_ALIAS2( double, AMUX, competitiveWidthDegreesFreedom, 0. )
    VERIF_ALIAS2( double, AMUG, gammaWidthDegreesFreedom, 0. )
    VERIF_ALIAS2( double, GN, averageNeutronWidth, gn )
    VERIF_ALIAS2( double, GG, averageGammaWidth, gg )
    VERIF_ALIAS2( double, GX, averageCompetitiveWidth, 0. )
    const std::vector< double >& averageFissionWidths() const { return gf; }
  };
  struct LValue {
    double awri = 0; int l = 0;
    std::vector< JValue > js;
    VERIF_ALIAS2( double, AWRI, atomicWeightRatio, awri )
    VERIF_ALIAS2( int, L, orbitalMomentum, l )
    VERIF_ALIAS2( int, NJS, numberSpinValues, js.size() )
    const std::vector< JValue >& jValues() const { return js; }
  };
  double spi = 0, ap = 0; int lssf = 0;
  std::vector< double > es;
  std::vector< LValue > lvalues;
  VERIF_ALIAS2( double, SPI, spin, spi )
  VERIF_ALIAS2( double, AP, scatteringRadius, ap )
  VERIF_ALIAS2( int, NLS, numberLValues, lvalues.size() )
  const std::vector< double >& energies() const { return es; }
  const std::vector< LValue >& lValues() const { return lvalues; }
};

// case C: everything energy dependent
struct UnresolvedEnergyDependent {
  struct JValue {
    double aj = 0, amux = 0, amun = 0, amug = 0, amuf = 0; int intlaw = 2;
    std::vector< double > es, d, gx, gn0, gg, gf;
    VERIF_ALIAS2( double, AJ, spin, aj )
    VERIF_ALIAS2( double, AMUN, neutronWidthDegreesFreedom, amun )
    VERIF_ALIAS2( double, AMUF, fissionWidthDegreesFreedom, amuf )
    VERIF_ALIAS2( double, AMUX, competitiveWidthDegreesFreedom, amux )
    VERIF_ALIAS2( double, AMUG, gammaWidthDegreesFreedom, amug )
    VERIF_ALIAS2( int, INT, interpolation, intlaw )
    const std::vector< double >& energies() const { return es; }
    const std::vector< double >& averageLevelSpacings() const { return d; }
    const std::vector< double >& averageNeutronWidths() const { return gn0; }
    const std::vector< double >& averageGammaWidths() const { return gg; }
    const std::vector< double >& averageFissionWidths() const { return gf; }
    const std::vector< double >& averageCompetitiveWidths() const { return gx; }
  };
  struct LValue {
    double awri = 0; int l = 0;
    std::vector< JValue > js;
    VERIF_ALIAS2( double, AWRI, atomicWeightRatio, awri )
    VERIF_ALIAS2( int, L, orbitalMomentum, l )
    VERIF_ALIAS2( int, NJS, numberSpinValues, js.size() )
    const std::vector< JValue >& jValues() const { return js; }
  };
  double spi = 0, ap = 0; int lssf = 0;
  std::vector< LValue > lvalues;
  VERIF_ALIAS2( double, SPI, spin, spi )
  VERIF_ALIAS2( double, AP, scatteringRadius, ap )
  VERIF_ALIAS2( int, NLS, numberLValues, lvalues.size() )
  const std::vector< LValue >& lValues() const { return lvalues; }
};

struct ResonanceRange {
  // the alternatives in the order of ENDFtk: the unresolved ones are 5, 6 and 7
  using Parameters = std::variant< SpecialCase, SingleLevelBreitWigner, MultiLevelBreitWigner, ReichMoore,
                                   RMatrixLimited, UnresolvedEnergyIndependent,
                                   UnresolvedEnergyDependentFissionWidths, UnresolvedEnergyDependent >;
  double el = 0, eh = 0; int lru = 0, lrf = 0, nro = 0, naps = 0;
  std::optional< ScatteringRadius > radius;
  Parameters par;
  VERIF_ALIAS2( double, EL, lowerEnergy, el )
  VERIF_ALIAS2( double, EH, upperEnergy, eh )
  VERIF_ALIAS2( int, LRU, type, lru )
  VERIF_ALIAS2( int, LRF, representation, lrf )
  VERIF_ALIAS2( int, NRO, energyDependentScatteringRadius, nro )
  VERIF_ALIAS2( int, NAPS, scatteringRadiusCalculationOption, naps )
  const std::optional< ScatteringRadius >& scatteringRadius() const { return radius; }
  const Parameters& parameters() const { return par; }
};

struct Isotope {
  double zai = 0, abn = 0; int lfw = 0;
  std::vector< ResonanceRange > ranges;
  const std::vector< ResonanceRange >& resonanceRanges() const { return ranges; }
};

// ---------------------------------------------------------------- reading ENDF text
namespace read {
  using namespace record;
  template< typename It, typename BW > BW breitWigner( It& it, const It& end, long& n ) {
    BW bw;
    auto c = cont( it, end, n );
    bw.spi = c.c1; bw.ap = c.c2; bw.lad = c.l1;
    for ( long i = 0; i < c.n1; ++i ) {
      auto l = list( it, end, n );
      typename BW::LValue lv;
      lv.awri = l.head.c1; lv.qx = l.head.c2; lv.l = l.head.l1; lv.lrx = l.head.l2;
      for ( std::size_t k = 0; k + 5 < l.v.size(); k += 6 )
        lv.rows.push_back( { l.v[k], l.v[k+1], l.v[k+2], l.v[k+3], l.v[k+4], l.v[k+5] } );
      bw.lvalues.push_back( lv );
    }
    return bw;
  }
  template< typename It > ReichMoore reichMoore( It& it, const It& end, long& n ) {
    ReichMoore rm;
    auto c = cont( it, end, n );
    rm.spi = c.c1; rm.ap = c.c2; rm.lad = c.l1; rm.nlsc = c.n2;
    for ( long i = 0; i < c.n1; ++i ) {
      auto l = list( it, end, n );
      ReichMooreLValue lv;
      lv.awri = l.head.c1; lv.apl = l.head.c2; lv.l = l.head.l1;
      for ( std::size_t k = 0; k + 5 < l.v.size(); k += 6 )
        lv.rows.push_back( { l.v[k], l.v[k+1], l.v[k+2], l.v[k+3], l.v[k+4], l.v[k+5] } );
      rm.lvalues.push_back( lv );
    }
    return rm;
  }
  template< typename It > RMatrixLimited limited( It& it, const It& end, long& n ) {
    RMatrixLimited r;
    auto c = cont( it, end, n );
    r.ifg = c.l1; r.krm = c.l2; r.krl = c.n2;
    auto p = list( it, end, n );
    for ( long i = 0; i < p.head.l1; ++i ) {
      auto v = [&]( int k ) { return p.v[ 12 * i + k ]; };
      r.pairs.add( v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10), v(11) );
    }
    for ( long g = 0; g < c.n1; ++g ) {
      RMatrixLimited::SpinGroup s;
      auto ch = list( it, end, n );
      s.ch.aj = ch.head.c1; s.ch.pj = ch.head.c2;
      const long nch = ch.head.n2;
      for ( long i = 0; i < nch; ++i ) {
        auto v = [&]( int k ) { return ch.v[ 6 * i + k ]; };
        s.ch.add( v(0), v(1), v(2), v(3), v(4), v(5) );
      }
      auto res = list( it, end, n );
      const long nrs = res.head.l2;
      const long stride = 6 * ( ( nch + 1 + 5 ) / 6 );
      for ( long i = 0; i < nrs; ++i ) {
        s.par.er.push_back( res.v.at( stride * i ) );
        s.par.gam.emplace_back( res.v.begin() + stride * i + 1, res.v.begin() + stride * i + 1 + nch );
      }
      r.groups.push_back( s );
    }
    return r;
  }
  template< typename It > ResonanceRange range( It& it, const It& end, long& n, int lfw ) {
    ResonanceRange r;
    auto c = cont( it, end, n );
    r.el = c.c1; r.eh = c.c2; r.lru = c.l1; r.lrf = c.l2; r.nro = c.n1; r.naps = c.n2;
    if ( r.nro ) {
      auto t = tab1( it, end, n );
      r.radius.emplace( std::move( t.bounds ), std::move( t.laws ), std::move( t.x ), std::move( t.y ) );
    }
    if ( r.lru == 0 ) { auto s = cont( it, end, n ); r.par = SpecialCase{ s.c1, s.c2 }; }
    else if ( r.lru == 1 ) {
      switch ( r.lrf ) {
        case 1: r.par = breitWigner< It, SingleLevelBreitWigner >( it, end, n ); break;
        case 2: r.par = breitWigner< It, MultiLevelBreitWigner >( it, end, n ); break;
        case 3: r.par = reichMoore( it, end, n ); break;
        case 7: r.par = limited( it, end, n ); break;
        default: throw std::runtime_error( "ENDFtk shim: LRF" );
      }
    }
    else if ( r.lrf == 2 ) {
      UnresolvedEnergyDependent u;
      auto h = cont( it, end, n );
      u.spi = h.c1; u.ap = h.c2; u.lssf = h.l1;
      for ( long i = 0; i < h.n1; ++i ) {
        auto lc = cont( it, end, n );
        UnresolvedEnergyDependent::LValue lv;
        lv.awri = lc.c1; lv.l = lc.l1;
        for ( long j = 0; j < lc.n1; ++j ) {
          auto l = list( it, end, n );
          UnresolvedEnergyDependent::JValue jv;
          jv.aj = l.head.c1; jv.intlaw = l.head.l1;
          jv.amux = l.v[2]; jv.amun = l.v[3]; jv.amug = l.v[4]; jv.amuf = l.v[5];
          for ( std::size_t k = 6; k + 5 < l.v.size(); k += 6 ) {
            jv.es.push_back( l.v[k] ); jv.d.push_back( l.v[k+1] ); jv.gx.push_back( l.v[k+2] );
            jv.gn0.push_back( l.v[k+3] ); jv.gg.push_back( l.v[k+4] ); jv.gf.push_back( l.v[k+5] );
          }
          lv.js.push_back( jv );
        }
        u.lvalues.push_back( lv );
      }
      r.par = u;
    }
    else if ( lfw == 0 ) {
      UnresolvedEnergyIndependent u;
      auto h = cont( it, end, n );
      u.spi = h.c1; u.ap = h.c2; u.lssf = h.l1;
      for ( long i = 0; i < h.n1; ++i ) {
        auto l = list( it, end, n );
        UnresolvedEnergyIndependent::LValue lv;
        lv.awri = l.head.c1; lv.l = l.head.l1;
        for ( std::size_t k = 0; k + 5 < l.v.size(); k += 6 )
          lv.rows.push_back( { l.v[k], l.v[k+1], l.v[k+2], l.v[k+3], l.v[k+4], 0., 0., 0., 0., 0. } );
        u.lvalues.push_back( lv );
      }
      r.par = u;
    }
    else {
      UnresolvedEnergyDependentFissionWidths u;
      auto h = list( it, end, n );
      u.spi = h.head.c1; u.ap = h.head.c2; u.lssf = h.head.l1; u.es = h.v;
      for ( long i = 0; i < h.head.n2; ++i ) {
        auto lc = cont( it, end, n );
        UnresolvedEnergyDependentFissionWidths::LValue lv;
        lv.awri = lc.c1; lv.l = lc.l1;
        for ( long j = 0; j < lc.n1; ++j ) {
          auto l = list( it, end, n );
          UnresolvedEnergyDependentFissionWidths::JValue jv;
          jv.amuf = l.head.l2;
          jv.d = l.v[0]; jv.aj = l.v[1]; jv.amun = l.v[2]; jv.gn = l.v[3]; jv.gg = l.v[4];
          jv.gf.assign( l.v.begin() + 6, l.v.end() );
          lv.js.push_back( jv );
        }
        u.lvalues.push_back( lv );
      }
      r.par = u;
    }
    return r;
  }
}
} // mt151

namespace section {
  template< int MF, int MT > struct Type;
  template<> struct Type< 2, 151 > {
    using ScatteringRadius = mt151::ScatteringRadius;
    using ResonanceRange = mt151::ResonanceRange;
    using BreitWignerLValue = mt151::BreitWignerLValue;
    using ReichMooreLValue = mt151::ReichMooreLValue;
    using SingleLevelBreitWigner = mt151::SingleLevelBreitWigner;
    using MultiLevelBreitWigner = mt151::MultiLevelBreitWigner;
    using ReichMoore = mt151::ReichMoore;
    using RMatrixLimited = mt151::RMatrixLimited;
    using UnresolvedEnergyIndependent = mt151::UnresolvedEnergyIndependent;
    using UnresolvedEnergyDependentFissionWidths = mt151::UnresolvedEnergyDependentFissionWidths;
    using UnresolvedEnergyDependent = mt151::UnresolvedEnergyDependent;

    std::vector< mt151::Isotope > isotopes_;
    const std::vector< mt151::Isotope >& isotopes() const { return isotopes_; }
    Type() = default;
    template< typename It >
    Type( const HeadRecord& head, It& it, const It& end, long& n, int /* mat */ ) {
      for ( long i = 0; i < head.c.n1; ++i ) {
        auto c = record::cont( it, end, n );
        mt151::Isotope iso;
        iso.zai = c.c1; iso.abn = c.c2; iso.lfw = c.l2;
        for ( long k = 0; k < c.n1; ++k ) iso.ranges.push_back( mt151::read::range( it, end, n, iso.lfw ) );
        isotopes_.push_back( std::move( iso ) );
      }
    }
  };
}
#undef VERIF_ALIAS
#undef VERIF_ALIAS2
}
}
#endif
