// Stand-in for njoy/dimwits (not available offline): quantities with units checked at compile time.
// Only what resonanceReconstruction uses. A unit is a product of base units with half integer exponents.
#ifndef VERIF_SHIM_DIMWITS
#define VERIF_SHIM_DIMWITS
#include <cmath>
#include <ostream>
#include <type_traits>

namespace dimwits {

// exponents are stored doubled. Order: eV, barn, metre, gram, second, coulomb, farad, dalton, kelvin,
// power of ten (decimal prefixes)
template< int... E > struct Unit {};

namespace detail {
  constexpr int N = 10;
  constexpr double root( double x ) {
    double r = x > 1. ? x : 1.;
    for ( int i = 0; i < 2000; ++i ) {
      const double n = 0.5 * ( r + x / r );
      if ( n >= r && i > 0 && r <= x / r * ( 1 + 4e-16 ) ) break;
      r = n;
    }
    return r;
  }
  constexpr double ipow( double x, int n ) {
    double r = 1.;
    for ( int i = 0; i < ( n < 0 ? -n : n ); ++i ) r *= x;
    return n < 0 ? 1. / r : r;
  }
  constexpr double hpow( double x, int twice ) {
    return twice % 2 == 0 ? ipow( x, twice / 2 ) : ipow( root( x ), twice );
  }
  constexpr double electron = 1.6021766208e-19;   // CODATA 2014
  constexpr double amu = 1.660539040e-27;
  // SI value of each base unit
  constexpr double si[N] = { electron, 1e-28, 1., 1e-3, 1., 1., 1., amu, 1., 10. };
  // SI dimensions (kg, m, s, C, K) of each base unit
  constexpr int dims[N][5] = {
    { 1, 2, -2, 0, 0 }, { 0, 2, 0, 0, 0 }, { 0, 1, 0, 0, 0 }, { 1, 0, 0, 0, 0 },
    { 0, 0, 1, 0, 0 }, { 0, 0, 0, 1, 0 }, { -1, -2, 2, 2, 0 }, { 1, 0, 0, 0, 0 },
    { 0, 0, 0, 0, 1 }, { 0, 0, 0, 0, 0 } };

  template< int... E >
  constexpr int dim( Unit< E... >, int d ) {
    const int e[] = { E... };
    int r = 0;
    for ( int i = 0; i < N; ++i ) r += e[i] * dims[i][d];
    return r;
  }
  template< typename U, typename V >
  constexpr bool same() {
    for ( int d = 0; d < 5; ++d ) if ( dim( U{}, d ) != dim( V{}, d ) ) return false;
    return true;
  }
  // factor that converts a value in units U to a value in units V
  template< int... A, int... B >
  constexpr double factor( Unit< A... >, Unit< B... > ) {
    const int e[] = { ( A - B )... };
    // the decimal powers that cancel against a barn are kept apart: they are exact
    int ten = e[9];
    double r = 1.;
    for ( int i = 0; i < N - 1; ++i ) {
      if ( i == 1 ) ten += -28 * e[i];
      else if ( i == 3 ) ten += -3 * e[i];
      else r *= hpow( si[i], e[i] );
    }
    return r * hpow( 10., ten );
  }
}

using Dimensionless = Unit< 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >;
using ElectronVolt  = Unit< 2, 0, 0, 0, 0, 0, 0, 0, 0, 0 >;
using Barn          = Unit< 0, 2, 0, 0, 0, 0, 0, 0, 0, 0 >;
using Meter         = Unit< 0, 0, 2, 0, 0, 0, 0, 0, 0, 0 >;
using Gram          = Unit< 0, 0, 0, 2, 0, 0, 0, 0, 0, 0 >;
using Second        = Unit< 0, 0, 0, 0, 2, 0, 0, 0, 0, 0 >;
using Coulomb       = Unit< 0, 0, 0, 0, 0, 2, 0, 0, 0, 0 >;
using Farad         = Unit< 0, 0, 0, 0, 0, 0, 2, 0, 0, 0 >;
using Dalton        = Unit< 0, 0, 0, 0, 0, 0, 0, 2, 0, 0 >;
using Kelvin        = Unit< 0, 0, 0, 0, 0, 0, 0, 0, 2, 0 >;
using ElectronVolts = ElectronVolt;
using Barns = Barn;
using Meters = Meter;
using Grams = Gram;
using Seconds = Second;
using Coulombs = Coulomb;
using Farads = Farad;
using Daltons = Dalton;
using Kelvins = Kelvin;

constexpr ElectronVolt electronVolt{}; constexpr ElectronVolt electronVolts{};
constexpr Barn barn{};                 constexpr Barn barns{};
constexpr Meter meter{};               constexpr Meter meters{};
constexpr Gram gram{};                 constexpr Gram grams{};
constexpr Second second{};             constexpr Second seconds{};
constexpr Coulomb coulomb{};           constexpr Coulomb coulombs{};
constexpr Farad farad{};               constexpr Farad farads{};
constexpr Dalton dalton{};             constexpr Dalton daltons{};
constexpr Kelvin kelvin{};             constexpr Kelvin kelvins{};

template< int... A, int... B >
constexpr Unit< ( A + B )... > operator*( Unit< A... >, Unit< B... > ) { return {}; }
template< int... A, int... B >
constexpr Unit< ( A - B )... > operator/( Unit< A... >, Unit< B... > ) { return {}; }

template< int n, int d > struct RatioType {};
template< int n, int d = 1 > constexpr RatioType< n, d > Ratio{};

template< int... A, int n, int d >
constexpr Unit< ( A * n / d )... > pow( Unit< A... >, RatioType< n, d > ) { return {}; }

namespace detail {
  template< typename U, int shift > struct Prefix;
  template< int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int shift >
  struct Prefix< Unit< a, b, c, d, e, f, g, h, i, j >, shift > {
    using type = Unit< a, b, c, d, e, f, g, h, i, j + 2 * shift >;
  };
}
template< int... A > constexpr auto kilo( Unit< A... > )
{ return typename detail::Prefix< Unit< A... >, 3 >::type{}; }
template< int... A > constexpr auto centi( Unit< A... > )
{ return typename detail::Prefix< Unit< A... >, -2 >::type{}; }
template< int... A > constexpr auto milli( Unit< A... > )
{ return typename detail::Prefix< Unit< A... >, -3 >::type{}; }

namespace unit {
  template< int... A > constexpr Unit< ( A / 2 )... > sqrt( Unit< A... > ) { return {}; }
}

template< typename U > struct Quantity {
  using Units = U;
  double value;

  constexpr Quantity() : value( 0. ) {}
  template< typename T, std::enable_if_t< std::is_arithmetic< T >::value &&
            detail::same< U, Dimensionless >(), int > = 0 >
  constexpr Quantity( T v ) : value( v ) {}
  // a bare unit is one of it
  template< int... A, std::enable_if_t< detail::same< U, Unit< A... > >(), int > = 0 >
  constexpr Quantity( Unit< A... > ) : value( detail::factor( Unit< A... >{}, U{} ) ) {}
  template< typename V, std::enable_if_t< detail::same< U, V >(), int > = 0 >
  constexpr Quantity( const Quantity< V >& q ) : value( convert< V >( q.value ) ) {}
  constexpr Quantity( const Quantity& ) = default;
  constexpr Quantity& operator=( const Quantity& ) = default;

  template< typename D = U, std::enable_if_t< detail::same< D, Dimensionless >(), int > = 0 >
  constexpr operator double() const { return detail::factor( U{}, Dimensionless{} ) * value; }

  constexpr Quantity operator-() const { return make( -value ); }
  constexpr Quantity operator+() const { return *this; }
  constexpr Quantity& operator+=( const Quantity& o ) { value += o.value; return *this; }
  constexpr Quantity& operator-=( const Quantity& o ) { value -= o.value; return *this; }
  constexpr Quantity& operator*=( double o ) { value *= o; return *this; }
  constexpr Quantity& operator/=( double o ) { value /= o; return *this; }

  static constexpr Quantity make( double v ) { Quantity q; q.value = v; return q; }
private:
  template< typename V > static constexpr double convert( double v ) {
    if constexpr ( std::is_same< V, U >::value ) return v;
    else {
      constexpr double f = detail::factor( V{}, U{} );
      // divide by the exact power where the factor is below one
      if constexpr ( f < 1. ) { constexpr double inv = detail::factor( U{}, V{} ); return v / inv; }
      else return v * f;
    }
  }
};

template< int... A, typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
constexpr Quantity< Unit< A... > > operator*( T v, Unit< A... > )
{ return Quantity< Unit< A... > >::make( v ); }
template< int... A, typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
constexpr auto operator/( T v, Unit< A... > u )
{ return Quantity< decltype( Dimensionless{} / u ) >::make( v ); }

namespace detail {
  // products and quotients without dimension are plain numbers
  template< typename U > constexpr auto result( double v ) {
    if constexpr ( same< U, Dimensionless >() ) {
      if constexpr ( std::is_same< U, Dimensionless >::value ) return v;
      else return v * factor( U{}, Dimensionless{} );
    } else return Quantity< U >::make( v );
  }
}

template< typename U, typename V >
constexpr auto operator*( const Quantity< U >& a, const Quantity< V >& b )
{ return detail::result< decltype( U{} * V{} ) >( a.value * b.value ); }
template< typename U, typename V >
constexpr auto operator/( const Quantity< U >& a, const Quantity< V >& b )
{ return detail::result< decltype( U{} / V{} ) >( a.value / b.value ); }
template< typename U, int... A >
constexpr auto operator*( const Quantity< U >& a, Unit< A... > u )
{ return detail::result< decltype( U{} * u ) >( a.value ); }
template< typename U, int... A >
constexpr auto operator/( const Quantity< U >& a, Unit< A... > u )
{ return detail::result< decltype( U{} / u ) >( a.value ); }
template< int... A, typename U >
constexpr auto operator*( Unit< A... > u, const Quantity< U >& a )
{ return detail::result< decltype( u * U{} ) >( a.value ); }
template< int... A, typename U >
constexpr auto operator/( Unit< A... > u, const Quantity< U >& a )
{ return detail::result< decltype( u / U{} ) >( 1. / a.value ); }
template< typename U, typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
constexpr auto operator*( const Quantity< U >& a, T b ) { return Quantity< U >::make( a.value * b ); }
template< typename U, typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
constexpr auto operator*( T b, const Quantity< U >& a ) { return Quantity< U >::make( b * a.value ); }
template< typename U, typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
constexpr auto operator/( const Quantity< U >& a, T b ) { return Quantity< U >::make( a.value / b ); }
template< typename U, typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
constexpr auto operator/( T b, const Quantity< U >& a )
{ return Quantity< decltype( Dimensionless{} / U{} ) >::make( b / a.value ); }

template< typename U, typename V, std::enable_if_t< detail::same< U, V >(), int > = 0 >
constexpr auto operator+( const Quantity< U >& a, const Quantity< V >& b )
{ return Quantity< U >::make( a.value + Quantity< U >( b ).value ); }
template< typename U, typename V, std::enable_if_t< detail::same< U, V >(), int > = 0 >
constexpr auto operator-( const Quantity< U >& a, const Quantity< V >& b )
{ return Quantity< U >::make( a.value - Quantity< U >( b ).value ); }

#define VERIF_COMPARE( op )                                                                  \
template< typename U, typename V, std::enable_if_t< detail::same< U, V >(), int > = 0 >      \
constexpr bool operator op( const Quantity< U >& a, const Quantity< V >& b )                 \
{ return a.value op Quantity< U >( b ).value; }                                              \
template< typename U, int... A, std::enable_if_t< detail::same< U, Unit< A... > >(), int > = 0 > \
constexpr bool operator op( const Quantity< U >& a, Unit< A... > b )                         \
{ return a.value op Quantity< U >( b ).value; }                                              \
template< typename U, int... A, std::enable_if_t< detail::same< U, Unit< A... > >(), int > = 0 > \
constexpr bool operator op( Unit< A... > b, const Quantity< U >& a )                         \
{ return Quantity< U >( b ).value op a.value; }
VERIF_COMPARE( < ) VERIF_COMPARE( > ) VERIF_COMPARE( <= )
VERIF_COMPARE( >= ) VERIF_COMPARE( == ) VERIF_COMPARE( != )
#undef VERIF_COMPARE

template< typename U > auto sqrt( const Quantity< U >& q )
{ return Quantity< decltype( unit::sqrt( U{} ) ) >::make( std::sqrt( q.value ) ); }
template< typename U > auto abs( const Quantity< U >& q )
{ return Quantity< U >::make( std::abs( q.value ) ); }
template< typename U, int n, int d > auto pow( const Quantity< U >& q, RatioType< n, d > r )
{
  using R = decltype( pow( U{}, r ) );
  if constexpr ( d == 1 ) return detail::result< R >( detail::ipow( q.value, n ) );
  else if constexpr ( d == 2 && n == 1 ) return detail::result< R >( std::sqrt( q.value ) );
  else return detail::result< R >( std::pow( q.value, double( n ) / d ) );
}
template< int n, int d > double pow( double q, RatioType< n, d > )
{ if constexpr ( d == 1 ) return detail::ipow( q, n ); else return std::pow( q, double( n ) / d ); }

template< typename U >
std::ostream& operator<<( std::ostream& out, const Quantity< U >& q ) { return out << q.value; }

namespace constant {
  // CODATA 2014
  constexpr auto elementaryCharge = detail::electron * coulomb;
  constexpr auto dirac = 6.582119514e-16 * ( electronVolt * second );
  constexpr auto neutronMass = 1.67492749804e-24 * gram;
}
}

// the library calls std::abs and std::sqrt on quantities
namespace std {
  template< typename U > auto abs( const dimwits::Quantity< U >& q ) { return dimwits::abs( q ); }
  template< typename U > auto fabs( const dimwits::Quantity< U >& q ) { return dimwits::abs( q ); }
  template< typename U > auto sqrt( const dimwits::Quantity< U >& q ) { return dimwits::sqrt( q ); }
  template< typename U > bool isfinite( const dimwits::Quantity< U >& q ) { return isfinite( q.value ); }
  template< typename U > bool isnan( const dimwits::Quantity< U >& q ) { return isnan( q.value ); }
}
#endif
