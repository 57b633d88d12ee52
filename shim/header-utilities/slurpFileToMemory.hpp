#ifndef VERIF_SHIM_SLURP
#define VERIF_SHIM_SLURP
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
namespace njoy { namespace utility {
  inline std::string slurpFileToMemory( const std::string& name ) {
    std::ifstream in( name );
    if ( !in ) throw std::runtime_error( "cannot open " + name );
    std::ostringstream out; out << in.rdbuf();
    return out.str();
  }
} }
#endif
