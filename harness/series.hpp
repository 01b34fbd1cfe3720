// Truncated power series over oracle numbers.
#pragma once
#include "ct.hpp"
using namespace vf;
#ifndef VF_MAXO
#define VF_MAXO 9
#endif
static const int MAXO = VF_MAXO;
// Truncated power series over numbers with running error bounds; every
// function is composed term by term, without differential recurrences.
struct S { D c[MAXO]; };
static S cst(D v) { S s; for (auto& k : s.c) k = K(0.0); s.c[0] = v; return s; }
static S operator+(S a, S b) { S r; for (int i = 0; i < MAXO; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
static S operator-(S a, S b) { S r; for (int i = 0; i < MAXO; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
static S operator*(S a, S b) { S r; for (int i = 0; i < MAXO; ++i) { r.c[i] = K(0.0); for (int j = 0; j <= i; ++j) r.c[i] = r.c[i] + a.c[j] * b.c[i - j]; } return r; }
// sum of f[n] h^n where h is a without its constant term
static S compose(S a, const D* f) { S h = a; h.c[0] = K(0.0); S r = cst(f[MAXO - 1]); for (int n = MAXO - 2; n >= 0; --n) r = r * h + cst(f[n]); return r; }
static S operator/(S a, S b) { D f[MAXO]; f[0] = K(1.0) / b.c[0]; for (int n = 1; n < MAXO; ++n) f[n] = neg(f[n - 1] / b.c[0]); return a * compose(b, f); }
static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
static S dexp(S a) { D f[MAXO]; for (int n = 0; n < MAXO; ++n) f[n] = dexp(a.c[0]) / K(fact(n)); return compose(a, f); }
static S dsin(S a) { D s = dsin(a.c[0]), k = dcos(a.c[0]), f[MAXO]; for (int n = 0; n < MAXO; ++n) { D v = n % 2 ? k : s; f[n] = (n % 4 > 1 ? neg(v) : v) / K(fact(n)); } return compose(a, f); }
static S dcos(S a) { D s = dsin(a.c[0]), k = dcos(a.c[0]), f[MAXO]; for (int n = 0; n < MAXO; ++n) { D v = n % 2 ? neg(s) : k; f[n] = (n % 4 > 1 ? neg(v) : v) / K(fact(n)); } return compose(a, f); }
static S dlog(S a) { D f[MAXO]; f[0] = dlog(a.c[0]); D p = K(1.0); for (int n = 1; n < MAXO; ++n) { p = p / a.c[0]; f[n] = (n % 2 ? p : neg(p)) / K((double)n); } return compose(a, f); }
static S neg(S a) { for (auto& k : a.c) k = neg(k); return a; }
static S binomial(S a, D q) {
  D f[MAXO]; D b = K(1.0);
  for (int n = 0; n < MAXO; ++n) { f[n] = b * dpow(a.c[0], q - K((double)n)); b = b * (q - K((double)n)) / K(n + 1.0); }
  return compose(a, f);
}
// the usual recurrence for powers divides by the base at every order; r is kept, only
// the rounding error that recurrence cannot avoid is added to its error bound
static S recurrent(S r, S a, D q) {
  if (!a.c[0].v.ok || a.c[0].v.v == 0) return r;
  D w[MAXO]; w[0] = dpow(a.c[0], q);
  for (int k = 1; k < MAXO; ++k) {
    w[k] = K(0.0);
    for (int i = 1; i <= k; ++i) { D f = (q + K(1.0)) * K((double)i) / K((double)k); f.v.e = std::max(f.v.e, U * fabsl(f.v.v)); D t = (f - K(1.0)) * a.c[i] * w[k - i]; t.v.e = std::max(t.v.e, U * fabsl(t.v.v)); w[k] = w[k] + t; w[k].v.e = std::max(w[k].v.e, t.v.e); }
    w[k] = w[k] / a.c[0];
  }
  for (int k = 0; k < MAXO; ++k) { if (!w[k].v.ok) r.c[k].v.ok = false; r.c[k].v.e = std::max(r.c[k].v.e, w[k].v.e); }
  return r;
}
static S cpow(S a, D q) {
  long double v = q.v.v;
  if (v >= 0 && v == floorl(v) && v < 20) {
    S r = cst(K(1.0)) + a * cst(K(0.0)); for (int i = 0; i < (int)v; ++i) r = r * a;
    return recurrent(r, a, q);
  }
  return recurrent(binomial(a, q), a, q);
}
static S dpow(S a, S b) { return dexp(b * dlog(a)); }
static S KS(double v) { return cst(K(v)); }
static S KS(long long n, long long d) { return cst(K(n, d)); }
