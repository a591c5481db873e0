// Stand-ins for the special functions of the C++ library: each is replaced by an injective-per-argument
// integer function of its arguments' bits, so that "lane i of the result is the function of the arguments
// in lane i" becomes a bit-vector equality.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_USE_STD_SPEC_FUNCS
#include <cmath>
#define _GLIBCXX_USE_STD_SPEC_FUNCS 1
#include <bits/stl_algobase.h>
#include <limits>
#include <type_traits>
#include <tr1/gamma.tcc>
#include <tr1/bessel_function.tcc>
#include <tr1/beta_function.tcc>
#include <tr1/ell_integral.tcc>
#include <tr1/exp_integral.tcc>
#include <tr1/hypergeometric.tcc>
#include <tr1/legendre_function.tcc>
#include <tr1/modified_bessel_func.tcc>
#include <tr1/poly_hermite.tcc>
#include <tr1/poly_laguerre.tcc>
#include <tr1/riemann_zeta.tcc>
using ulong_ = unsigned long;
namespace std { namespace __detail {
#define F1(name, id, T, U) template <> __attribute__((noipa)) T name<T>(unsigned n, T x) { return __builtin_bit_cast(T, __builtin_bit_cast(U, x) + n * U(5) + U(id) * 17); }
#define F2(name, id, T, U) template <> __attribute__((noipa)) T name<T>(unsigned n, unsigned m, T x) { return __builtin_bit_cast(T, __builtin_bit_cast(U, x) + n * U(5) + m * U(9) + U(id) * 17); }
#define F3(name, id, T, U) template <> __attribute__((noipa)) T name<T>(unsigned n, unsigned m, T x, T p) { return __builtin_bit_cast(T, __builtin_bit_cast(U, x) + n * U(5) + m * U(9) + U(id) * 17 + (p != 1)); }
#define B(F, name, id) F(name, id, float, unsigned) F(name, id, double, ulong_)
B(F2, __assoc_laguerre, 1)
B(F3, __assoc_legendre_p, 2)
B(F1, __poly_hermite, 3)
B(F1, __laguerre, 4)
B(F1, __poly_legendre_p, 5)
B(F1, __sph_bessel, 6)
B(F2, __sph_legendre, 7)
B(F1, __sph_neumann, 8)
#undef B
#undef F1
#undef F2
#undef F3
} }
#include <bits/specfun.h>
