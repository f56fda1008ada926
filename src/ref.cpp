#include "ref.h"
bool operator==(const V& a, const V& b) {
  if (a.c.size() != b.c.size()) return false;
  if (a.c.empty()) return a.v == b.v;
  for (size_t i = 0; i < a.c.size(); i++) if (!(a.c[i] == b.c[i])) return false;
  return true;
}
bool operator<(const V& a, const V& b) {
  if (a.c.empty()) return a.v < b.v;
  for (size_t i = 0; i < a.c.size(); i++) { if (a.c[i] < b.c[i]) return true; if (b.c[i] < a.c[i]) return false; }
  return false;
}
RFp rf_prime(const Z& p) { auto r = std::make_shared<RF>(); r->p = p; r->q = p; return r; }
RFp rf_ext(RFp base, const vector<V>& mod) {
  auto r = std::make_shared<RF>(); r->p = base->p; r->base = base; r->mod = mod;
  mpz_pow_ui(r->q.get_mpz_t(), base->q.get_mpz_t(), mod.size()); return r;
}
string vs(const V& a) {
  if (a.c.empty()) return a.v.get_str();
  string s = "["; for (size_t i = 0; i < a.c.size(); i++) s += (i ? ", " : "") + vs(a.c[i]); return s + "]";
}
V RF::zero() const { return fromz(0); }
V RF::one() const { return fromz(1); }
V RF::fromz(const Z& z) const {
  if (!base) return V(zmod(z, p));
  V r; r.c.assign(n(), base->zero()); r.c[0] = base->fromz(z); return r;
}
V RF::fromb(const V& b) const { V r = zero(); r.c[0] = b; return r; }
V RF::add(const V& a, const V& b) const {
  if (!base) { V r(a.v + b.v); if (r.v >= p) r.v -= p; return r; }
  V r; for (size_t i = 0; i < n(); i++) r.c.push_back(base->add(a.c[i], b.c[i])); return r;
}
V RF::neg(const V& a) const {
  if (!base) return V(a.v == 0 ? Z(0) : Z(p - a.v));
  V r; for (auto& x : a.c) r.c.push_back(base->neg(x)); return r;
}
V RF::sub(const V& a, const V& b) const { return add(a, neg(b)); }
V RF::mul(const V& a, const V& b) const {
  if (!base) { V r; r.v = a.v * b.v % p; return r; }
  size_t N = n();
  if (!base->base) {  // coefficients are integers: accumulate, reduce once
    vector<Z> t(2 * N - 1);
    for (size_t i = 0; i < N; i++) { if (a.c[i].v == 0) continue; for (size_t j = 0; j < N; j++) mpz_addmul(t[i + j].get_mpz_t(), a.c[i].v.get_mpz_t(), b.c[j].v.get_mpz_t()); }
    for (size_t k = 2 * N - 2; k >= N; k--) {
      mpz_mod(t[k].get_mpz_t(), t[k].get_mpz_t(), p.get_mpz_t());
      if (t[k] != 0) for (size_t j = 0; j < N; j++) if (mod[j].v != 0) mpz_submul(t[k - N + j].get_mpz_t(), t[k].get_mpz_t(), mod[j].v.get_mpz_t());
    }
    V r; r.c.resize(N);
    for (size_t i = 0; i < N; i++) mpz_mod(r.c[i].v.get_mpz_t(), t[i].get_mpz_t(), p.get_mpz_t());
    return r;
  }
  vector<V> t(2 * N - 1, base->zero());
  for (size_t i = 0; i < N; i++) { if (base->is0(a.c[i])) continue; for (size_t j = 0; j < N; j++) t[i + j] = base->add(t[i + j], base->mul(a.c[i], b.c[j])); }
  for (size_t k = 2 * N - 2; k >= N; k--) {
    if (!base->is0(t[k])) for (size_t j = 0; j < N; j++) if (!base->is0(mod[j])) t[k - N + j] = base->sub(t[k - N + j], base->mul(t[k], mod[j]));
  }
  V r; r.c.assign(t.begin(), t.begin() + N); return r;
}
V RF::inv(const V& a) const {
  if (!base) return V(zinv(a.v, p));
  P m(mod.begin(), mod.end()); m.push_back(base->one());
  P x(a.c.begin(), a.c.end()), r; pnorm(*base, x);
  if (!pinvmod(*base, x, m, r)) return zero();
  V out; out.c.assign(n(), base->zero());
  for (size_t i = 0; i < r.size(); i++) out.c[i] = r[i];
  return out;
}
V RF::pow(const V& a, const Z& e) const {
  if (!base) return V(p == 1 ? Z(0) : zpow(a.v, e, p));
  V r = one();
  for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); }
  return r;
}
V RF::muli(const V& a, const Z& z) const {
  if (!base) return V(zmod(a.v * z, p));
  V r; for (auto& x : a.c) r.c.push_back(base->muli(x, z)); return r;
}
bool RF::is0(const V& a) const { if (!base) return a.v == 0; for (auto& x : a.c) if (!base->is0(x)) return false; return true; }
bool RF::is_sqr(const V& a) const { if (is0(a)) return true; return is1(pow(a, (q - 1) / 2)); }
V RF::sqrt(const V& a, Case& c) const {
  if (is0(a)) return a;
  // Cipolla-free: Tonelli-Shanks
  Z m = q - 1; unsigned s = 0; while (mpz_even_p(m.get_mpz_t())) { m >>= 1; s++; }
  V z = uni(c); int tries = 0;
  while (is0(z) || is_sqr(z)) { z = uni(c); if (++tries > 50) { z = add(z, one()); if (base) z.c[n() - 1] = base->add(z.c[n() - 1], base->fromz(tries)); else z = add(z, fromz(tries)); } if (tries > 2000) discard(); }
  V w = pow(z, m), x = pow(a, (m + 1) / 2), b = pow(a, m); unsigned M = s;
  while (!is1(b)) { unsigned i = 0; V t = b; while (!is1(t)) { t = mul(t, t); i++; } V g = pow(w, Z(1) << (M - i - 1)); x = mul(x, g); w = mul(g, g); b = mul(b, w); M = i; }
  return x;
}
V RF::rnd(Case& c) const {
  if (!base) {
    if (p < 3 || !c.chance(1, 4)) return V(c.edge(p));
    // edge patterns of the Montgomery representation x 2^(64 limbs) mod p
    unsigned t = (mpz_sizeinbase(p.get_mpz_t(), 2) + 63) / 64; Z R = Z(1) << (64 * t), i; mpz_invert(i.get_mpz_t(), R.get_mpz_t(), p.get_mpz_t());
    return V(Z(c.edge(p) * i % p));
  }
  V r = zero();
  switch (c.u(0, 7)) {
    case 0: return r;
    case 1: return one();
    case 2: return fromz(c.edge(p));
    case 3: { size_t i = c.u(0, n() - 1); r.c[i] = base->rnd(c); return r; }
    case 4: for (size_t i = 0; i < n(); i++) if (c.flip()) r.c[i] = base->rnd(c); return r;
    case 5: { V x = base->rnd(c); for (size_t i = 0; i < n(); i++) r.c[i] = c.flip() ? x : base->neg(x); return r; }
    default: for (size_t i = 0; i < n(); i++) r.c[i] = base->rnd(c); return r;
  }
}
V RF::uni(Case& c) const {
  if (!base) return V(c.below(p));
  V r; for (size_t i = 0; i < n(); i++) r.c.push_back(base->uni(c)); return r;
}
void pnorm(const RF& k, P& a) { while (!a.empty() && k.is0(a.back())) a.pop_back(); }
P padd(const RF& k, const P& a, const P& b) {
  P r(std::max(a.size(), b.size()), k.zero());
  for (size_t i = 0; i < r.size(); i++) r[i] = k.add(i < a.size() ? a[i] : k.zero(), i < b.size() ? b[i] : k.zero());
  pnorm(k, r); return r;
}
P psub(const RF& k, const P& a, const P& b) { P t(b); for (auto& x : t) x = k.neg(x); return padd(k, a, t); }
P pmul(const RF& k, const P& a, const P& b) {
  if (a.empty() || b.empty()) return P();
  P r(a.size() + b.size() - 1, k.zero());
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = k.add(r[i + j], k.mul(a[i], b[j]));
  pnorm(k, r); return r;
}
void pdivmod(const RF& k, const P& a, const P& b, P& q, P& r) {
  P A = a, B = b;
  q.clear(); r = A;
  if (A.size() < B.size()) return;
  q.assign(A.size() - B.size() + 1, k.zero());
  V li = k.inv(B.back());
  for (long i = (long)A.size() - (long)B.size(); i >= 0; i--) {
    V c = k.mul(r[i + B.size() - 1], li);
    q[i] = c;
    if (!k.is0(c)) for (size_t j = 0; j < B.size(); j++) r[i + j] = k.sub(r[i + j], k.mul(c, B[j]));
  }
  pnorm(k, r); pnorm(k, q);
}
P pmod(const RF& k, const P& a, const P& b) { P q, r; pdivmod(k, a, b, q, r); return r; }
P pmonic(const RF& k, P a) { if (a.empty()) return a; V i = k.inv(a.back()); for (auto& x : a) x = k.mul(x, i); return a; }
P pgcd(const RF& k, P a, P b) { while (!b.empty()) { P r = pmod(k, a, b); a = b; b = r; } return pmonic(k, a); }
P ppowmod(const RF& k, P a, Z e, const P& m) {
  P r{k.one()}; r = pmod(k, r, m); a = pmod(k, a, m);
  for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = pmod(k, pmul(k, r, r), m); if (mpz_tstbit(e.get_mpz_t(), i)) r = pmod(k, pmul(k, r, a), m); }
  return r;
}
V peval(const RF& k, const P& a, const V& x) { V r = k.zero(); for (size_t i = a.size(); i-- > 0;) r = k.add(k.mul(r, x), a[i]); return r; }
bool pinvmod(const RF& k, const P& a, const P& m, P& r) {
  P r0 = m, r1 = pmod(k, a, m), t0, t1{k.one()};
  while (!r1.empty()) { P q, rr; pdivmod(k, r0, r1, q, rr); P t = psub(k, t0, pmul(k, q, t1)); r0 = r1; r1 = rr; t0 = t1; t1 = t; }
  if (r0.size() != 1) return false;
  V i = k.inv(r0[0]); r = t0; for (auto& x : r) x = k.mul(x, i); r = pmod(k, r, m); return true;
}
bool pirred(const RF& k, const P& a) {
  if (a.size() < 2) return false;
  unsigned d = a.size() - 1; if (d == 1) return true;
  P x{k.zero(), k.one()}, h = x;
  for (unsigned i = 1; i <= d; i++) {
    h = ppowmod(k, h, k.q, a);
    if (i <= d / 2) { P g = pgcd(k, a, psub(k, h, x)); if (g.size() != 1) return false; }
  }
  return psub(k, h, x).empty();
}
P prand_irred(const RF& k, unsigned d, Case& c) {
  for (int t = 0; t < 200; t++) {
    P a; 
    for (unsigned i = 0; i < d; i++) a.push_back(t < 4 ? k.rnd(c) : k.uni(c));
    a.push_back(k.one());
    if (k.is0(a[0])) continue;
    if (pirred(k, a)) return a;
  }
  discard();
}
string ps(const P& a) { string s = "["; for (size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + vs(a[i]); return s + "]"; }

bool operator==(const Pt& a, const Pt& b) { if (a.inf || b.inf) return a.inf == b.inf; return a.x == b.x && a.y == b.y; }
string pts(const Pt& p) { return p.inf ? "O" : "(" + vs(p.x) + "," + vs(p.y) + ")"; }
bool RC::on(const Pt& p) const { if (p.inf) return true; return k->mul(p.y, p.y) == k->add(k->mul(k->add(k->mul(p.x, p.x), a), p.x), b); }
Pt RC::neg(const Pt& p) const { Pt r = p; if (!p.inf) r.y = k->neg(p.y); return r; }
Pt RC::add(const Pt& p, const Pt& q) const {
  if (p.inf) return q; if (q.inf) return p;
  V l;
  if (p.x == q.x) {
    if (!(p.y == q.y) || k->is0(p.y)) return Pt();
    l = k->div(k->add(k->muli(k->mul(p.x, p.x), 3), a), k->muli(p.y, 2));
  } else l = k->div(k->sub(q.y, p.y), k->sub(q.x, p.x));
  Pt r; r.inf = false;
  r.x = k->sub(k->sub(k->mul(l, l), p.x), q.x);
  r.y = k->sub(k->mul(l, k->sub(p.x, r.x)), p.y);
  return r;
}
Pt RC::mul(const Pt& p, Z e) const {
  Pt b = p; if (e < 0) { b = neg(p); e = -e; }
  Pt r;
  for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = add(r, b); }
  return r;
}
// value at Q of the line through A and B (tangent if equal), divided by the
// vertical through A+B; advances A to A+B
static bool step(const RC& E, Pt& A, const Pt& B, const Pt& Q, V& num, V& den) {
  const RF& k = *E.k;
  if (A.inf || B.inf) { A = E.add(A, B); return true; }
  Pt S = E.add(A, B);
  V l;
  if (S.inf) l = k.sub(Q.x, A.x);
  else {
    V s;
    if (A.x == B.x) s = k.div(k.add(k.muli(k.mul(A.x, A.x), 3), E.a), k.muli(A.y, 2));
    else s = k.div(k.sub(B.y, A.y), k.sub(B.x, A.x));
    l = k.sub(k.sub(Q.y, A.y), k.mul(s, k.sub(Q.x, A.x)));
  }
  if (k.is0(l)) return false;
  num = k.mul(num, l);
  if (!S.inf) { V v = k.sub(Q.x, S.x); if (k.is0(v)) return false; den = k.mul(den, v); }
  A = S;
  return true;
}
bool miller(const RC& E, const Z& n, const Pt& Pp, const Pt& Q, V& out) {
  const RF& k = *E.k;
  V num = k.one(), den = k.one(); Pt A = Pp;
  for (long i = (long)mpz_sizeinbase(n.get_mpz_t(), 2) - 2; i >= 0; i--) {
    num = k.mul(num, num); den = k.mul(den, den);
    if (!step(E, A, A, Q, num, den)) return false;
    if (mpz_tstbit(n.get_mpz_t(), i) && !step(E, A, Pp, Q, num, den)) return false;
  }
  out = k.div(num, den);
  return true;
}
Z gen_prime(Case& c, unsigned maxbits) {
  static const unsigned small[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 97, 101, 127, 193, 251, 257, 509, 769, 1021};
  Z p;
  switch (c.u(0, 9)) {
    case 0: case 1: return Z(small[c.u(0, sizeof small / sizeof *small - 1)]);
    case 2: p = c.bits(c.u(4, 32)); break;
    case 3: {  // just around a word or byte boundary
      unsigned w = c.pick({8u, 16u, 32u, 64u, 64u, 64u, 128u, 128u, 192u, 256u, 512u, 1024u});
      if (w > maxbits) w = 64;
      Z B = Z(1) << w, d = c.u(0, 400);
      if (c.flip()) { p = B + d; break; }
      p = B - 1 - d;
      if (p < 3) return 3;
      while (p > 3 && !isprime(p)) p -= 1;
      return p;
    }
    case 4: {  // highly 2-adic p-1
      unsigned s = c.u(2, std::min(40u, maxbits / 2)); Z k = c.bits(c.u(1, std::min(maxbits - s, 100u))) | 1;
      for (int t = 0; t < 400; t++, k += 2) { p = (k << s) + 1; if (isprime(p)) return p; }
      p = 65537; return p;
    }
    case 5: {  // all-ones / sparse patterns
      unsigned b = c.u(5, maxbits); p = (Z(1) << (b - 1)) + (c.flip() ? (Z(1) << c.u(0, b - 2)) : Z(0)); break;
    }
    case 6: { unsigned b = c.pick({61u, 89u, 107u, 127u, 31u, 19u, 17u, 521u}); if (b > maxbits) b = 61; return (Z(1) << b) - 1; }
    default: p = c.bits(c.u(3, maxbits)); p |= Z(1) << (mpz_sizeinbase(p.get_mpz_t(), 2));
  }
  if (p < 3) p = 3;
  if (isprime(p)) return p;
  return nextprime(p);
}
