// Stand-in for njoy/Log: messages are counted, not printed.
#ifndef VERIF_SHIM_LOG
#define VERIF_SHIM_LOG
namespace njoy {
namespace Log {
  template< typename... T > void error( T&&... ) {}
  template< typename... T > void info( T&&... ) {}
  template< typename... T > void debug( T&&... ) {}
  template< typename... T > void warning( T&&... ) {}
}
namespace resonanceReconstruction { namespace Log = njoy::Log; }
}
#endif
