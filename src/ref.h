// Independent reference algebra (GMP only): fields as towers, polynomials,
// elliptic curves, textbook Miller/Tate pairing.
#pragma once
#include "vp.h"
#include <memory>
struct V { Z v; vector<V> c; V() {} V(const Z& z) : v(z) {} };
bool operator==(const V& a, const V& b);
inline bool operator!=(const V& a, const V& b) { return !(a == b); }
bool operator<(const V& a, const V& b);
struct RF; typedef std::shared_ptr<RF> RFp;
struct RF {
  Z p, q;           // characteristic (or modulus for Z/n), number of elements
  RFp base;         // null: integers mod p
  vector<V> mod;    // monic modulus, low coefficients
  size_t n() const { return mod.size(); }
  size_t deg() const { return base ? n() * base->deg() : 1; }
  V zero() const; V one() const; V fromz(const Z& z) const;
  V fromb(const V& b) const;   // base-field constant
  V add(const V& a, const V& b) const; V sub(const V& a, const V& b) const; V neg(const V& a) const;
  V mul(const V& a, const V& b) const; V sqr(const V& a) const { return mul(a, a); }
  V inv(const V& a) const; V div(const V& a, const V& b) const { return mul(a, inv(b)); }
  V pow(const V& a, const Z& e) const;
  V muli(const V& a, const Z& z) const;  // z*a
  bool is0(const V& a) const; bool is1(const V& a) const { return a == one(); }
  bool is_sqr(const V& a) const;         // q odd
  V sqrt(const V& a, Case& c) const;     // some root (a must be a square)
  V rnd(Case& c) const;                  // edge-biased
  V uni(Case& c) const;                  // uniform-ish
};
RFp rf_prime(const Z& p);
RFp rf_ext(RFp base, const vector<V>& mod);
string vs(const V& a);
// polynomials over RF: low first, no trailing zeros
typedef vector<V> P;
void pnorm(const RF& k, P& a);
P padd(const RF& k, const P& a, const P& b); P psub(const RF& k, const P& a, const P& b);
P pmul(const RF& k, const P& a, const P& b);
void pdivmod(const RF& k, const P& a, const P& b, P& q, P& r);
P pmod(const RF& k, const P& a, const P& b);
P pgcd(const RF& k, P a, P b);  // monic
P ppowmod(const RF& k, P a, Z e, const P& m);
P pmonic(const RF& k, P a);
V peval(const RF& k, const P& a, const V& x);
bool pirred(const RF& k, const P& a);
P prand_irred(const RF& k, unsigned d, Case& c);
bool pinvmod(const RF& k, const P& a, const P& m, P& r);
string ps(const P& a);
// curves y^2 = x^3 + a x + b
struct Pt { bool inf = true; V x, y; };
bool operator==(const Pt& a, const Pt& b);
inline bool operator!=(const Pt& a, const Pt& b) { return !(a == b); }
string pts(const Pt& p);
struct RC {
  RFp k; V a, b;
  bool on(const Pt& p) const;
  Pt neg(const Pt& p) const; Pt add(const Pt& p, const Pt& q) const; Pt dbl(const Pt& p) const { return add(p, p); }
  Pt mul(const Pt& p, Z e) const;
};
// f_{n,P}(Q), textbook Miller algorithm with denominators, P and Q in E(K);
// returns false when a zero or pole is met
bool miller(const RC& E, const Z& n, const Pt& P, const Pt& Q, V& out);
// primes
Z gen_prime(Case& c, unsigned maxbits);
