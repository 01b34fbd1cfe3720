// Support for generated programs of compile-time expressions: an oracle number
// type carrying a running rounding-error bound.
#pragma once
#include "gen.hpp"
namespace vf {
  struct D { EV v; };
  inline D operator+(D a, D b) { return {op2(ADD, a.v, b.v)}; }
  inline D operator-(D a, D b) { return {op2(SUB, a.v, b.v)}; }
  inline D operator*(D a, D b) { return {op2(MUL, a.v, b.v)}; }
  inline D operator/(D a, D b) { return {op2(DIV, a.v, b.v)}; }
  inline D K(double x) { return {mk(x, x == std::floor(x) ? 0 : U * fabsl(x))}; }
  inline D K(long long n, long long d) { long double v = (long double)n / d; return {mk(v, d == 1 ? 0 : U * fabsl(v))}; }
  inline D dpow(D a, D b) { return {op2(POW, a.v, b.v)}; }
  inline D ipow(D a, int n) { return dpow(a, K((long long)n, 1)); }
  inline D neg(D a) { return {op1(NEG, a.v)}; }
  inline D dsin(D a) { return {op1(SIN, a.v)}; }
  inline D dcos(D a) { return {op1(COS, a.v)}; }
  inline D dexp(D a) { return {op1(EXP, a.v)}; }
  inline D dlog(D a) { return {op1(LN, a.v)}; }
  inline D dabs(D a) { return {op1(ABS, a.v)}; }
}
