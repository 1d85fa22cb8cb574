// Makes clang emit the header-only code of the current tree that contracts are stated on; adds no behaviour of its own.
#include "dd.h"
#define K(n) GateMatrix vp_const_##n() { return n##mat; }
K(I) K(H) K(X) K(Y) K(Z) K(S) K(Sdag) K(T) K(Tdag) K(SX) K(SXdag) K(V) K(Vdag)
Complex vp_add(Complex a, const Complex &b) { return a + b; }
Complex vp_sub(Complex a, const Complex &b) { return a - b; }
Complex vp_mul(Complex a, const Complex &b) { return a * b; }
Complex vp_div(Complex a, const Complex &b) { return a / b; }
Complex vp_add_self(Complex a) { a += a; return a; }
Complex vp_sub_self(Complex a) { a -= a; return a; }
Complex vp_mul_self(Complex a) { a *= a; return a; }
Complex vp_div_self(Complex a) { a /= a; return a; }
Complex vp_addto(Complex a, const Complex &b) { Complex &r = (a += b); return r; }
Complex vp_subto(Complex a, const Complex &b) { Complex &r = (a -= b); return r; }
Complex vp_multo(Complex a, const Complex &b) { Complex &r = (a *= b); return r; }
Complex vp_divto(Complex a, const Complex &b) { Complex &r = (a /= b); return r; }
Complex vp_convert(std::complex<double> a) { return Complex(a); }
double vp_mag2(Complex a) { return a.mag2(); }
double vp_norm(Complex a) { return norm(a); }
double vp_norm2(Complex a) { return norm2(a); }
double vp_real(Complex a) { return a.real(); }
double vp_imag(Complex a) { return a.imag(); }
bool vp_eq(Complex a, const Complex &b) { return a.isApproximatelyEqual(b); }
bool vp_zero(Complex a) { return a.isApproximatelyZero(); }
bool vp_one(Complex a) { return a.isApproximatelyOne(); }
bool vp_zero_agrees(Complex a) { return a.isApproximatelyZero() == a.isApproximatelyEqual(Complex(0.0, 0.0)); }
bool vp_one_agrees(Complex a) { return a.isApproximatelyOne() == a.isApproximatelyEqual(Complex(1.0, 0.0)); }
bool vp_symmetric(Complex a, const Complex &b) { return a.isApproximatelyEqual(b) == b.isApproximatelyEqual(a); }
bool vp_exact(Complex a, const Complex &b) { return a == b; }
bool vp_exact_std(Complex a, std::complex<double> b) { return a == b; }
bool vp_exactzero(Complex a) { return a.isZero(); }
bool vp_exactone(Complex a) { return a.isOne(); }
