#ifndef VERIF_SHIM_TAPE
#define VERIF_SHIM_TAPE
#include <string>
#include "ENDFtk/section/2/151.hpp"
namespace njoy { namespace ENDFtk { namespace tree {
  // finds MF2 MT151 of the only material in an ENDF text
  template< typename S > struct Tape {
    struct Material {
      std::string text; int mat = 0;
      int MAT() const { return mat; }
      const Material& fileNumber( int ) const { return *this; }
      const Material& sectionNumber( int ) const { return *this; }
      template< int MF, int MT > section::Type< MF, MT > parse() const {
        auto it = text.begin(); auto end = text.end(); long n = 1;
        HeadRecord head( it, end, n );
        return section::Type< MF, MT >( head, it, end, n, mat );
      }
    } material;
    explicit Tape( const std::string& s ) {
      std::size_t i = 0;
      while ( i < s.size() ) {
        auto e = s.find( '\n', i ); if ( e == std::string::npos ) e = s.size();
        auto l = s.substr( i, e - i ); i = e + 1;
        if ( l.size() >= 75 && l.substr( 70, 2 ) == " 2" && l.substr( 72, 3 ) == "151" ) {
          material.text += l + "\n"; material.mat = std::atoi( l.substr( 66, 4 ).c_str() );
        }
      }
    }
    const Material* begin() const { return &material; }
  };
} } }
#endif
