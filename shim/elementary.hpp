// Stand-in for njoy/elementary (not available offline): particle, particle pair and reaction identifiers.
// Only what resonanceReconstruction uses.
#ifndef VERIF_SHIM_ELEMENTARY
#define VERIF_SHIM_ELEMENTARY
#include <cctype>
#include <cstdlib>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace njoy {
namespace elementary {

namespace detail {
  struct ID {
    std::string symbol_;
    ID() = default;
    ID( std::string s ) : symbol_( std::move( s ) ) {}
    // no move: as with the identifiers of elementary, a moved-from identifier keeps its value
    ID( const ID& ) = default;
    ID& operator=( const ID& ) = default;
    const std::string& symbol() const { return symbol_; }
  };
  template< typename T > struct Comparable {
    friend bool operator==( const T& a, const T& b ) { return a.symbol() == b.symbol(); }
    friend bool operator!=( const T& a, const T& b ) { return a.symbol() != b.symbol(); }
    friend bool operator<( const T& a, const T& b ) { return a.symbol() < b.symbol(); }
    friend bool operator>( const T& a, const T& b ) { return b < a; }
    friend bool operator<=( const T& a, const T& b ) { return !( b < a ); }
    friend bool operator>=( const T& a, const T& b ) { return !( a < b ); }
    friend std::ostream& operator<<( std::ostream& o, const T& a ) { return o << a.symbol(); }
  };
  inline const char* const* elements() {
    static const char* const e[] = { "n", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na",
      "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni",
      "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru",
      "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd",
      "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os",
      "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U",
      "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm" };
    return e;
  }
  inline void za( const std::string& s, int& z, int& a ) {
    z = a = 0;
    if ( s == "n" ) { a = 1; return; }
    if ( s == "photon" ) return;
    if ( s == "p" ) { z = a = 1; return; }
    if ( s == "d" ) { z = 1; a = 2; return; }
    if ( s == "t" ) { z = 1; a = 3; return; }
    if ( s == "he3" ) { z = 2; a = 3; return; }
    if ( s == "he4" ) { z = 2; a = 4; return; }
    std::string el;
    std::size_t i = 0;
    while ( i < s.size() && std::isalpha( (unsigned char) s[i] ) ) el += s[i++];
    a = std::atoi( s.c_str() + i );
    for ( int k = 1; k <= 100; ++k ) if ( el == elements()[k] ) { z = k; return; }
    throw std::invalid_argument( "elementary shim: unknown particle " + s );
  }
  inline std::string normalise( std::string s ) {
    if ( s == "g" || s == "gamma" ) return "photon";
    if ( s == "a" || s == "alpha" ) return "he4";
    const auto n = s.size();
    if ( n > 3 && s.compare( n - 3, 3, "_e0" ) == 0 ) s.resize( n - 3 );
    return s;
  }
}

struct ParticleID : detail::ID, detail::Comparable< ParticleID > {
  ParticleID() = default;
  ParticleID( const std::string& s ) : ID( detail::normalise( s ) ) {}
  ParticleID( const char* s ) : ParticleID( std::string( s ) ) {}
};

struct ParticlePairID : detail::ID, detail::Comparable< ParticlePairID > {
  ParticleID particle_, residual_;
  ParticlePairID( const ParticleID& a, const ParticleID& b ) :
    ID( a.symbol() + "," + b.symbol() ), particle_( a ), residual_( b ) {}
  ParticlePairID( const std::string& s ) : ID( s ) {
    const auto comma = s.find( ',' );
    if ( comma != std::string::npos ) {
      particle_ = ParticleID( s.substr( 0, comma ) );
      residual_ = ParticleID( s.substr( comma + 1 ) );
      symbol_ = particle_.symbol() + "," + residual_.symbol();
    } else {
      particle_ = residual_ = ParticleID( s );
    }
  }
  ParticlePairID( const char* s ) : ParticlePairID( std::string( s ) ) {}
  const ParticleID& particle() const { return particle_; }
  const ParticleID& residual() const { return residual_; }
};

struct ReactionType : detail::Comparable< ReactionType > {
  std::string symbol_;
  int mt_ = 0, level_ = -1;          // level of the residual, -1: not specified
  std::vector< ParticleID > particles_;
  ReactionType( int mt ) : mt_( mt ) {
    static const char* names[] = { "p", "d", "t", "he3", "he4" };
    symbol_ = std::to_string( mt );
    if ( mt == 2 ) { symbol_ = "elastic"; particles_ = { "n" }; level_ = 0; }
    else if ( mt == 18 ) { symbol_ = "fission"; }
    else if ( mt == 102 ) { symbol_ = "capture"; particles_ = { "g" }; level_ = 0; }
    else if ( mt >= 50 && mt <= 90 ) { particles_ = { "n" }; level_ = mt - 50; }
    else if ( mt >= 103 && mt <= 107 ) { particles_ = { names[ mt - 103 ] }; level_ = 0; }
    else if ( mt >= 600 && mt < 850 ) {
      particles_ = { names[ ( mt - 600 ) / 50 ] };
      level_ = ( mt - 600 ) % 50;
    }
    else throw std::invalid_argument( "elementary shim: unknown mt " + symbol_ );
  }
  ReactionType( const std::string& s ) : ReactionType( number( s ) ) {}
  ReactionType( const char* s ) : ReactionType( std::string( s ) ) {}
  static int number( const std::string& s ) {
    if ( s == "elastic" ) return 2;
    if ( s == "fission" ) return 18;
    if ( s == "capture" ) return 102;
    return std::atoi( s.c_str() );
  }
  const std::string& symbol() const { return symbol_; }
  const std::vector< ParticleID >& particles() const { return particles_; }
};

inline ParticleID resolve( const ParticleID& incident, const ParticleID& target, const ReactionType& type ) {
  if ( type.mt_ == 2 ) return target;
  int z1, a1, z2, a2;
  detail::za( incident.symbol(), z1, a1 );
  detail::za( target.symbol(), z2, a2 );
  int z = z1 + z2, a = a1 + a2;
  for ( auto& p : type.particles() ) {
    int zp, ap;
    detail::za( p.symbol(), zp, ap );
    z -= zp; a -= ap;
  }
  if ( z < 0 || z > 100 || a < z ) throw std::invalid_argument( "elementary shim: no residual" );
  std::string s = std::string( detail::elements()[z] ) + std::to_string( a );
  if ( type.level_ > 0 ) s += "_e" + std::to_string( type.level_ );
  return ParticleID( s );
}

struct ReactionID : detail::ID, detail::Comparable< ReactionID > {
  ReactionID( const ParticlePairID& a, const ParticlePairID& b ) :
    ID( a.symbol() + "->" + b.symbol() ) {}
  ReactionID( const ParticleID& a, const ParticleID& b, const ReactionType& t ) :
    ID( ParticlePairID( a, b ).symbol() + "->" +
        ( t.mt_ == 2 ? ParticlePairID( a, b ).symbol() : t.symbol() ) ) {}
  ReactionID( const std::string& s ) : ID( s ) {}
  ReactionID( const char* s ) : ID( std::string( s ) ) {}
};
}
}
#include <functional>
namespace std {
#define VERIF_HASH( T ) template<> struct hash< T > { \
  size_t operator()( const T& t ) const { return hash< string >()( t.symbol() ); } };
  VERIF_HASH( njoy::elementary::ParticleID ) VERIF_HASH( njoy::elementary::ParticlePairID ) VERIF_HASH( njoy::elementary::ReactionID )
#undef VERIF_HASH
}
#endif
