// Support for the monitors: deterministic random numbers, verdict and evidence recording, a shared
// "current case" record for post-mortem replay, and a per-case CPU watchdog.
#ifndef VHARNESS_HPP
#define VHARNESS_HPP
#include <bits/stdc++.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace vh {

// ---- random numbers --------------------------------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng( uint64_t seed = 1 ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); next(); }
  uint64_t next() {
    uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }
  double u() { return ( next() >> 11 ) * 0x1.0p-53; }
  double uni( double a, double b ) { return a + ( b - a ) * u(); }
  double logu( double a, double b ) { return std::exp( uni( std::log( a ), std::log( b ) ) ); }
  int i( int a, int b ) { return a + int( next() % uint64_t( b - a + 1 ) ); }   // inclusive
  bool b( double p = 0.5 ) { return u() < p; }
  double sgn() { return b() ? 1. : -1.; }
  template< typename T > T pick( std::initializer_list< T > l ) {
    return *( l.begin() + i( 0, int( l.size() ) - 1 ) ); }
  template< typename T > const T& pick( const std::vector< T >& l ) {
    return l[ i( 0, int( l.size() ) - 1 ) ]; }
  template< typename T > void shuffle( std::vector< T >& v ) {
    for ( int k = int( v.size() ) - 1; k > 0; --k ) std::swap( v[k], v[ i( 0, k ) ] ); }
};

// ---- recording -------------------------------------------------------------------------------
inline std::string fmt( const char* f, ... ) {
  char buf[8192]; va_list ap; va_start( ap, f ); vsnprintf( buf, sizeof buf, f, ap ); va_end( ap );
  return buf;
}
inline std::string jstr( const std::string& s ) {
  std::string o = "\"";
  for ( unsigned char c : s ) {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if ( c == '\n' ) o += "\\n";
    else if ( c < 32 || c > 126 ) o += fmt( "\\u%04x", c );
    else o += c;
  }
  return o + "\"";
}

struct Shared {                     // survives a crash: mapped onto a file the driver reads
  volatile uint64_t serial;
  char text[ 16384 ];
};

struct Ctx {
  std::string prop, outfile, tier = "quick";
  uint64_t seed = 1;
  long only = -1;                   // replay one case of one family
  std::string onlyFamily;
  double scale = 1.;
  std::map< std::string, std::string > opt;

  uint64_t evaluations = 0;
  std::unordered_set< uint64_t > distinct;
  std::map< std::string, uint64_t > classes;      // observed event classes
  std::vector< std::string > samples;
  struct Viol { std::string key, family, msg; long idx; };
  std::vector< Viol > violations;
  std::map< std::string, uint64_t > violCount;
  Shared* shared = nullptr;
  std::string family; long idx = 0; std::string desc;
  double cpuLimit = 60.;

  static Ctx& get() { static Ctx c; return c; }

  void hashIn( uint64_t& h, double v ) const {
    uint64_t b; std::memcpy( &b, &v, 8 ); h ^= b; h *= 0x100000001b3ull; h ^= h >> 29; }
  // a monitored event: what was observed, whether it was non-trivial
  void event( const std::string& cls, std::initializer_list< double > values, bool nontrivial = true ) {
    ++evaluations; ++classes[ cls ];
    if ( nontrivial ) {
      uint64_t h = 1469598103934665603ull; for ( char c : cls ) { h ^= (unsigned char)c; h *= 0x100000001b3ull; }
      for ( double v : values ) hashIn( h, v );
      distinct.insert( h );
    }
  }
  void sample( const std::string& s ) { if ( samples.size() < 12 ) samples.push_back( s ); }
  void sampleEvery( const std::string& s ) {
    static uint64_t n = 0, nextn = 1;
    if ( ++n == nextn ) { nextn = nextn * 3 + 1; if ( samples.size() < 24 ) samples.push_back( s ); } }

  // key: identifies the kind of violation (matched against known findings by the driver)
  void fail( const std::string& key, const std::string& msg ) {
    if ( prop == "C15" && key.rfind( "memory", 0 ) != 0 ) return;   // wrong values are other properties' business
    if ( ++violCount[ key ] <= 3 )
      violations.push_back( { key, family, desc.empty() ? msg : desc + " :: " + msg, idx } );
  }
  void write() const {
    std::ofstream o( outfile + ".tmp" );
    o << "{\"evaluations\":" << evaluations << ",\"distinct\":" << distinct.size() << ",\"classes\":{";
    bool f = true;
    for ( auto& c : classes ) { o << ( f ? "" : "," ) << jstr( c.first ) << ":" << c.second; f = false; }
    o << "},\"samples\":["; f = true;
    for ( auto& s : samples ) { o << ( f ? "" : "," ) << jstr( s ); f = false; }
    o << "],\"violations\":["; f = true;
    for ( auto& v : violations ) {
      o << ( f ? "" : "," ) << "{\"key\":" << jstr( v.key ) << ",\"family\":" << jstr( v.family )
        << ",\"case\":" << v.idx << ",\"count\":" << violCount.at( v.key ) << ",\"msg\":" << jstr( v.msg ) << "}"; f = false; }
    o << "]}\n"; o.close();
    std::rename( ( outfile + ".tmp" ).c_str(), outfile.c_str() );
  }
};

// values that break assumptions (C15): extreme, zero, negative; energies may be non-finite as well
inline double hostileValue( Rng& r ) {
  switch ( r.i( 0, 9 ) ) { case 0: return 0.; case 1: return -0.; case 2: return r.sgn() * 1e-310; case 3: return r.sgn() * 1e300; case 4: return r.sgn() * 1e154; case 5: return r.sgn() * r.logu( 1e-30, 1e30 ); case 6: return 1e-200; case 7: return -1.; case 8: return 4.9e-324; default: return r.sgn() * r.logu( 1e-3, 1e7 ); } }
inline double hostileEnergy( Rng& r ) {
  switch ( r.i( 0, 7 ) ) { case 0: return std::nan( "" ); case 1: return r.sgn() * std::numeric_limits< double >::infinity(); case 2: return -r.logu( 1e-5, 1e7 ); case 3: return r.b() ? 0. : -0.; case 4: return 4.9e-324; case 5: return r.logu( 1e7, 1e300 ); default: return r.logu( 1e-20, 1e7 ); } }

/// energies that differ from one of those given by a few units in the last place up to a part in a thousand
inline void neighbours( Rng& r, std::vector< double >& es, int n, double lower = 0, double upper = 1e300 ) {
  double e = r.pick( es );
  for ( int k = 0; k < n; ++k ) { double f = r.b( .2 ) ? std::nextafter( e, r.b() ? 0. : 1e300 ) : e * ( 1 + r.sgn() * r.logu( 1e-15, 1e-3 ) ); if ( f > 0 && f >= lower && f <= upper ) es.push_back( f ); } }

inline Ctx& ctx() { return Ctx::get(); }

inline void onAlarm( int ) {
  static const char m[] = "VH-HANG: per-case CPU budget exceeded\n";
  (void)!write( 2, m, sizeof m - 1 ); _exit( 86 );
}
inline void arm( double s ) {
  itimerval t{}; t.it_value.tv_sec = long( s ); t.it_value.tv_usec = 0; setitimer( ITIMER_PROF, &t, nullptr );
}
inline void describe( const std::string& d ) {
  auto& c = ctx(); c.desc = d;
  if ( c.shared ) {
    std::string s = c.family + "#" + std::to_string( c.idx ) + " " + d;
    size_t n = std::min( s.size(), sizeof( c.shared->text ) - 1 );
    std::memcpy( c.shared->text, s.data(), n ); c.shared->text[n] = 0;
    c.shared->serial = c.shared->serial + 1;
  }
}

// Runs n cases of a family; every case has a random stream of its own, so that one can be replayed.
template< typename F > void cases( const std::string& name, long n, F f ) {
  auto& c = ctx();
  if ( !c.onlyFamily.empty() && c.onlyFamily != name ) return;
  n = long( std::ceil( n * c.scale ) );
  uint64_t h = 14695981039346656037ull; for ( char k : name ) { h ^= (unsigned char)k; h *= 0x100000001b3ull; }
  long b = 0, e = n; if ( c.only >= 0 ) { b = c.only; e = b + 1; }
  for ( long k = b; k < e; ++k ) {
    c.family = name; c.idx = k; describe( "" );
    if ( k % 16 == 0 || c.only >= 0 ) arm( c.cpuLimit );
    Rng r( c.seed * 1000003ull + h + uint64_t( k ) * 7919ull );
    try { f( r, k ); }
    catch ( const std::exception& x ) {
      c.fail( "unexpected-exception:" + name, std::string( "exception escaped: " ) + x.what() );
    } catch ( ... ) { c.fail( "unexpected-exception:" + name, "unknown exception escaped" ); }
  }
  arm( 0 ); c.family = ""; c.desc = "";
}

// true if the call throws (anything)
template< typename F > bool throws( F f ) { try { f(); return false; } catch ( ... ) { return true; } }

// |a-b| <= rel*max(|a|,|b|,scale) + abs, NaN never equal
inline bool near( double a, double b, double rel, double scale = 0., double abs = 0. ) {
  if ( std::isnan( a ) || std::isnan( b ) ) return false;
  if ( a == b ) return true;
  return std::fabs( a - b ) <= rel * std::max( { std::fabs( a ), std::fabs( b ), scale } ) + abs;
}

inline void init( int argc, char** argv ) {
  auto& c = ctx();
  for ( int i = 1; i < argc; ++i ) {
    std::string a = argv[i]; auto p = a.find( '=' );
    std::string k = a.substr( 0, p ), v = p == std::string::npos ? "1" : a.substr( p + 1 );
    if ( k == "prop" ) c.prop = v; else if ( k == "out" ) c.outfile = v;
    else if ( k == "seed" ) c.seed = std::stoull( v ); else if ( k == "tier" ) c.tier = v;
    else if ( k == "scale" ) c.scale = std::stod( v ); else if ( k == "case" ) c.only = std::stol( v );
    else if ( k == "family" ) c.onlyFamily = v; else if ( k == "cpu" ) c.cpuLimit = std::stod( v );
    else if ( k == "state" ) {
      int fd = open( v.c_str(), O_RDWR | O_CREAT, 0600 );
      if ( fd >= 0 && ftruncate( fd, sizeof( Shared ) ) == 0 ) {
        void* m = mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
        if ( m != MAP_FAILED ) c.shared = static_cast< Shared* >( m );
      }
    }
    c.opt[k] = v;
  }
  signal( SIGPROF, onAlarm );
}
inline int finish() {
  auto& c = ctx();
  if ( !c.outfile.empty() ) c.write();
  for ( auto& v : c.violations )
    std::fprintf( stderr, "VH-VIOLATION key=%s family=%s case=%ld %s\n", v.key.c_str(), v.family.c_str(), v.idx, v.msg.c_str() );
  std::fprintf( stderr, "VH-DONE evaluations=%lu distinct=%zu violations=%zu\n", (unsigned long)c.evaluations, c.distinct.size(), c.violations.size() );
  return 0;
}
}
#endif
