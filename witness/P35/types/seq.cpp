#include <type_traits>
#include <cstddef>
#include <utility>
#include <geometrix/utility/integer_sequence.hpp>
namespace g = geometrix;
template <typename T, T... A, T... B> static constexpr bool eq(g::integer_sequence<T, A...>, std::integer_sequence<T, B...>) { return std::is_same<std::integer_sequence<T, A...>, std::integer_sequence<T, B...>>::value; }
template <typename T, T... A, typename U> static constexpr bool eq(g::integer_sequence<T, A...>, U) { return false; }
template <std::size_t N> struct upto { static constexpr bool value = std::is_same<decltype(eq(g::make_index_sequence<N>(), std::make_index_sequence<N>())), bool>::value && eq(g::make_index_sequence<N>(), std::make_index_sequence<N>()) && upto<N - 1>::value; };
template <> struct upto<0> { static constexpr bool value = eq(g::make_index_sequence<0>(), std::make_index_sequence<0>()); };
#define ENV
//@ accept index_sequence_0_to_200 geometrix/utility/integer_sequence.hpp make
static_assert(upto<200>::value, "make_index_sequence<N> lists 0..N-1 in order");
//@ accept index_sequence_large geometrix/utility/integer_sequence.hpp repeat
static_assert(eq(g::make_index_sequence<511>(), std::make_index_sequence<511>()) && eq(g::make_index_sequence<512>(), std::make_index_sequence<512>()) && eq(g::make_index_sequence<513>(), std::make_index_sequence<513>()) && eq(g::make_index_sequence<1000>(), std::make_index_sequence<1000>()), "");
//@ accept integer_sequence_types geometrix/utility/integer_sequence.hpp convert
static_assert(std::is_same<g::make_integer_sequence<int, 4>, g::integer_sequence<int, 0, 1, 2, 3>>::value && std::is_same<g::make_integer_sequence<unsigned char, 9>, g::integer_sequence<unsigned char, 0, 1, 2, 3, 4, 5, 6, 7, 8>>::value && std::is_same<g::make_integer_sequence<long, 1>::value_type, long>::value, "");
//@ accept index_sequence_for geometrix/utility/integer_sequence.hpp index_sequence_for
static_assert(std::is_same<g::index_sequence_for<char, int, double>, g::index_sequence<0, 1, 2>>::value && std::is_same<g::index_sequence_for<>, g::index_sequence<>>::value, "");
//@ reject negative_length geometrix/utility/integer_sequence.hpp make_integer_sequence
g::make_integer_sequence<int, -1> s;
//@ but
g::make_integer_sequence<int, 1> s;
//@ reject non_integral geometrix/utility/integer_sequence.hpp integer_sequence
typedef g::integer_sequence<int*> t; t s; 
//@ but
typedef g::integer_sequence<int> t; t s;
