// Stand-in for njoy/interpolation (not available offline): one-dimensional interpolation tables.
#ifndef VERIF_SHIM_INTERPOLATION
#define VERIF_SHIM_INTERPOLATION
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace interpolation {

namespace detail {
  inline double raw( double v ) { return v; }
  template< typename Q > auto raw( const Q& q ) -> decltype( q.value ) { return q.value; }
  template< typename Y > Y cook( double v ) {
    if constexpr ( std::is_arithmetic< Y >::value ) return v;
    else { Y y; y.value = v; return y; }
  }
}

// ENDF laws 1 to 5; the first word is the ordinate, the second the abscissa
struct Histogram {
  static double apply( double, double, double, double y0, double ) { return y0; }
};
struct LinearLinear {
  static double apply( double x, double x0, double x1, double y0, double y1 )
  { return y0 + ( y1 - y0 ) * ( x - x0 ) / ( x1 - x0 ); }
};
struct LinearLogarithmic {
  static double apply( double x, double x0, double x1, double y0, double y1 )
  { return y0 + ( y1 - y0 ) * std::log( x / x0 ) / std::log( x1 / x0 ); }
};
struct LogarithmicLinear {
  static double apply( double x, double x0, double x1, double y0, double y1 )
  { return y0 * std::exp( std::log( y1 / y0 ) * ( x - x0 ) / ( x1 - x0 ) ); }
};
struct LogarithmicLogarithmic {
  static double apply( double x, double x0, double x1, double y0, double y1 )
  { return y0 * std::exp( std::log( y1 / y0 ) * std::log( x / x0 ) / std::log( x1 / x0 ) ); }
};

namespace table {
  namespace search { struct Binary {}; }
  namespace discontinuity { struct TakeLeft {}; }
  namespace left { namespace interval { struct Throws {}; } }
  namespace right { namespace interval { struct Throws {}; } }

  template< typename Law, typename Search, typename Discontinuity, typename XRange, typename YRange >
  struct Type {
    XRange x_;
    YRange y_;
    using X = std::decay_t< decltype( *std::declval< XRange& >().begin() ) >;
    using Y = std::decay_t< decltype( *std::declval< YRange& >().begin() ) >;

    Type( XRange x, YRange y ) : x_( std::move( x ) ), y_( std::move( y ) ) {
      const auto& xs = x_;
      if ( xs.size() != y_.size() ) throw std::domain_error( "table: sizes differ" );
      if ( !std::is_sorted( xs.begin(), xs.end() ) ) throw std::domain_error( "table: not sorted" );
    }
    const XRange& x() const { return x_; }
    const YRange& y() const { return y_; }
    double lower() const { return detail::raw( *x_.begin() ); }
    double upper() const { return detail::raw( *( x_.begin() + ( x_.size() - 1 ) ) ); }
    Y operator()( const X& x ) const {
      const double v = detail::raw( x );
      if ( x_.size() == 0 || !( v >= lower() && v <= upper() ) )
        throw std::domain_error( "table: argument outside the table" );
      std::size_t i = 1;
      const std::size_t n = x_.size();
      std::size_t lo = 0, hi = n;           // first abscissa >= v
      while ( lo < hi ) {
        const std::size_t mid = ( lo + hi ) / 2;
        if ( detail::raw( *( x_.begin() + mid ) ) < v ) lo = mid + 1; else hi = mid;
      }
      // a point of the table gives its (left most) value
      if ( detail::raw( *( x_.begin() + lo ) ) == v ) return *( y_.begin() + lo );
      i = lo;
      return detail::cook< Y >( Law::apply( v,
        detail::raw( *( x_.begin() + ( i - 1 ) ) ), detail::raw( *( x_.begin() + i ) ),
        detail::raw( *( y_.begin() + ( i - 1 ) ) ), detail::raw( *( y_.begin() + i ) ) ) );
    }
  };

  template< typename... Ts > struct Variant : std::variant< Ts... > {
    using std::variant< Ts... >::variant;
    const std::variant< Ts... >& base() const { return *this; }
    template< typename X > auto operator()( const X& x ) const
    { return std::visit( [&]( const auto& t ) { return t( x ); }, base() ); }
    auto x() const { return std::visit( []( const auto& t ) { return t.x(); }, base() ); }
    auto y() const { return std::visit( []( const auto& t ) { return t.y(); }, base() ); }
    double lower() const { return std::visit( []( const auto& t ) { return t.lower(); }, base() ); }
    double upper() const { return std::visit( []( const auto& t ) { return t.upper(); }, base() ); }
  };

  template< typename T > struct Vector {
    std::vector< T > tables_;
    Vector( std::vector< T > t ) : tables_( std::move( t ) ) {
      if ( tables_.empty() ) throw std::domain_error( "table: no regions" );
    }
    const std::vector< T >& tables() const { return tables_; }
    double lower() const { return tables_.front().lower(); }
    double upper() const { return tables_.back().upper(); }
    template< typename X > auto operator()( const X& x ) const {
      const double v = detail::raw( x );
      if ( !( v >= lower() && v <= upper() ) )
        throw std::domain_error( "table: argument outside the table" );
      for ( const auto& t : tables_ ) if ( v <= t.upper() ) return t( x );
      throw std::domain_error( "table: argument outside the table" );
    }
  };
}

template< typename Core, typename... Options > struct Table : Core {
  using Core::Core;
  template< typename X > auto operator()( const X& x ) const { return Core::operator()( x ); }
};

namespace table {
  template< typename Law, typename... Options, typename XRange, typename YRange >
  auto make( XRange&& x, YRange&& y ) {
    return Table< Type< Law, search::Binary, discontinuity::TakeLeft,
                        std::decay_t< XRange >, std::decay_t< YRange > >, Options... >
           { std::forward< XRange >( x ), std::forward< YRange >( y ) };
  }
}
}
#endif
