#include "fields.h"
const char* bk_name[] = {"naive", "fast", "faster", "mont", "default"};
const char* op_name[] = {"add", "sub", "mul", "square", "double", "halve", "neg", "invert", "div", "pow_mpz", "mul_mpz", "mul_si", "set", "set0", "set1", "set_si", "set_mpz", "add_ui", "pow_zn", "mul_zn"};
// the fixed-limb implementations document that the modulus must exceed a word
int legal_backend(const Z& p, int bk) {
  if (bk == BK_DEFAULT || bk == BK_NAIVE) return bk;
  if (mpz_fits_ulong_p(p.get_mpz_t())) return BK_NAIVE;
  if (bk == BK_MONT && p % 2 == 0) return BK_FASTER;
  return bk;
}
Fldp fld_prime(const Z& p, int bk) {
  auto F = std::make_shared<Fld>();
  switch (bk) {
    case BK_NAIVE: field_init_naive_fp(F->f, mp(p)); break;
    case BK_FAST: field_init_fast_fp(F->f, mp(p)); break;
    case BK_FASTER: field_init_faster_fp(F->f, mp(p)); break;
    case BK_MONT: field_init_mont_fp(F->f, mp(p)); break;
    default: field_init_fp(F->f, mp(p));
  }
  F->r = rf_prime(p); F->desc = string(bk_name[bk]) + " F_" + str(p);
  return F;
}
Fldp fld_fi(Fldp b) {
  auto F = std::make_shared<Fld>(); field_init_fi(F->f, b->f); F->base = b; F->kind = Fld::FI;
  F->r = rf_ext(b->r, {b->r->one(), b->r->zero()}); F->desc = b->desc + "[i]"; return F;
}
Fldp fld_quadratic(Fldp b) {
  auto F = std::make_shared<Fld>();
  element_ptr n = field_get_nqr(b->f);
  V nq = get(n, *b);
  REQ(!b->r->is_sqr(nq), "non-residue chosen for " << b->desc << " is a square: " << vs(nq));
  field_init_quadratic(F->f, b->f); F->base = b; F->kind = Fld::FQ;
  F->r = rf_ext(b->r, {b->r->neg(nq), b->r->zero()}); F->desc = b->desc + "[sqrt(" + vs(nq) + ")]"; return F;
}
Fldp fld_polymod(Fldp b, const P& m) {
  auto F = std::make_shared<Fld>();
  field_ptr ring = F->ring; field_init_poly(ring, b->f); F->has_ring = true;
  element_t e; element_init(e, ring);
  for (size_t i = m.size(); i-- > 0;) { E x(b->f); put(x, *b, m[i]); poly_set_coeff(e, x, i); }
  field_init_polymod(F->f, e);
  element_clear(e);
  F->base = b; F->kind = Fld::POLYMOD;
  F->r = rf_ext(b->r, vector<V>(m.begin(), m.end() - 1)); F->desc = b->desc + "[x]/" + ps(m); return F;
}
// A large prime from a table (searching for one would dominate the run), at
// most maxb bits, including those next to a whole number of words.
static Z big_prime(Case& c, unsigned maxb) {
  static const struct { unsigned k; int d; } T[] = {
    {320, -197}, {320, 27}, {384, -317}, {384, 231}, {448, -203}, {448, 211}, {512, -569}, {512, 75}, {521, -1}, {576, -789}, {576, 243}, {607, -1}, {640, -305}, {640, 115}, {704, -245}, {704, 327},
    {768, -825}, {768, 183}, {896, -213}, {896, 993}, {1024, -105}, {1024, 643}, {1279, -1}, {1280, -1175}, {1280, 1815}};
  static const char* R[] = {
    "36989b45f6acf80c4ffc568a28dc5fb9f19320157ccbcaf400448b4d0867735aba718a88f39798c7c1cc77f3",
    "bc0459f13637357ff787267d133397ecae5bdee38fd9d63b583b8479cb9c6cff31613b8c05a50cec4a312c582c17aa135131",
    "53eb03cc4580c5f7b45c0a0962bec270f2f035f5d62b68ee27f9b79632c347a06b2b71a03271fdd16499f985c085f5b3e4a0c01ad832d0dce5bfd66c2c47999f",
    "1af25cf9e83aea94cd815e801c3e3d2515e5e64d3714ae9fabd13010525228b297b28fd0361a1f191cbfc2fc69ead09440cb5ac73a1faf276db29ceced5b68949",
    "a92b8b4c29024a24214b2b8c3393525e42225f52dec5d158fb84f6cc055f93953c7c1c34fd9628ee3ae870ba54125e922c15f99eb6f0341ef5695e6c14f536485bc1a4f200ce3e82ef0dd9",
    "f69e1f8736e5eae8eb157fda172f54ca18514e1ca3e965d745cd7cf29ca9e8c978cf8ec748f4a634af5652b9b284256584ee4643c34d5d60cbfb30ccd9f43b8cc60c7a2a9cbe10027b7edfa0a253f5932a104d3e9b70c51b",
    "f6cf5f1181d07e72a980d53ebfd1a848cb34ff0c88a1bf3ec55050c4574294fbdeff1d3564b48e31c761838df060740469bb2cee065093c60dbedabab9112b0ca51230495060d4ee47f876a195b6d289ec4755d58bed00bc0da5ae8fc76f7e99099af710368753720cc771179677a949d",
    "710de8edb81a338f2310807efba83375446bd242f5ac5e75c20d62e52416738f88b85eefe184fd792b3248929e8986a6de437a09d0b4408aa838f37c2eaed865c537d8a0d700a7432058844e0283ff89acb2f720b4c522bcf030f4bb52af3dc82197b3c5ba0b4919bf37806ce06a42e9d5bebd65ba38ec48a7efadb79cfe92ef"};
  if (c.chance(1, 3)) {
    Z p(R[c.u(0, sizeof R / sizeof *R - 1)], 16);
    if (mpz_sizeinbase(p.get_mpz_t(), 2) <= maxb) return p;
  }
  size_t n = 0; while (n < sizeof T / sizeof *T && T[n].k + (T[n].d > 0) <= maxb) n++;
  auto t = T[c.u(0, n - 1)];
  return (Z(1) << t.k) + t.d;
}
Fldp gen_prime_field(Case& c, unsigned maxbits) {
  int bk = c.u(0, BK_N - 1);
  Z p = maxbits >= 200 && c.chance(1, 24) ? big_prime(c, 1300) : gen_prime(c, maxbits);
  return fld_prime(p, legal_backend(p, bk));
}
// An irreducible monic polynomial of degree about d: random for small fields,
// otherwise (x-s)^d - a with a not an l-th power for the primes l | d.
static P gen_modulus(Case& c, const RF& k, unsigned d) {
  size_t size = mpz_sizeinbase(k.q.get_mpz_t(), 2) * d;
  if (size <= 80 || (size <= 300 && d <= 3 && c.chance(1, 4))) return prand_irred(k, d, c);
  auto fits = [&](unsigned e) { if (e % 4 == 0 && k.q % 4 != 1) return false; for (unsigned l : {2u, 3u, 5u, 7u, 11u}) if (e % l == 0 && k.q % l != 1) return false; return true; };
  while (!fits(d)) d--;  // 2 always fits for odd q
  if (d < 2) d = 2;
  V a;
  for (int t = 0;; t++) {
    a = k.uni(c); if (k.is0(a)) { a = k.one(); if (k.base) a.c[1] = k.base->one(); }
    if (t > 200) discard();
    bool ok = true;
    for (unsigned l : {2u, 3u, 5u, 7u, 11u}) if (d % l == 0 && k.is1(k.pow(a, (k.q - 1) / l))) ok = false;
    if (ok) break;
  }
  P m(d + 1, k.zero()); m[d] = k.one(); m[0] = k.neg(a);
  if (c.chance(1, 4)) return m;
  V s = k.rnd(c);
  P lin{k.neg(s), k.one()}, r{k.one()};
  for (unsigned i = 0; i < d; i++) r = pmul(k, r, lin);
  return psub(k, r, P{a});
}
Fldp gen_ext_field(Case& c, unsigned maxbits, int maxtower, unsigned maxq) {
  int t = c.u(1, maxtower);
  int first = c.u(0, 3);
  int bk = c.pick({(int)BK_DEFAULT, (int)BK_MONT, (int)BK_NAIVE, (int)BK_FASTER, (int)BK_FAST});
  Z p = maxbits >= 160 && maxq >= 2000 && c.chance(1, 24) ? big_prime(c, 780) : gen_prime(c, maxbits);
  if (first == 0) { int g = 0; while (p % 4 != 3) { p = nextprime(p); if (++g > 200) discard(); } }
  if (first >= 2 && c.flip()) { unsigned m = c.pick({12u, 60u, 420u}); p = p / m * m + 1; while (!isprime(p)) p += m; }
  Fldp F = fld_prime(p, legal_backend(p, bk));
  for (int i = 0; i < t; i++) {
    int k = i == 0 ? first : (int)c.u(1, 3);
    if (k == 0) F = fld_fi(F);
    else if (k == 1) F = fld_quadratic(F);
    else {
      unsigned maxd = i == 0 ? 12 : 4;
      unsigned d = c.pick({2u, 3u, 3u, 4u, 5u, 6u, 6u, 7u, 8u, 10u, 12u});
      if (d > maxd) d = 2 + d % (maxd - 1);
      if (F->r->deg() * d > 24) d = 2;
      unsigned qb = mpz_sizeinbase(F->r->q.get_mpz_t(), 2); if (qb * d > maxq) d = std::max(2u, maxq / qb);
      F = fld_polymod(F, gen_modulus(c, *F->r, d));
    }
    if (mpz_sizeinbase(F->r->q.get_mpz_t(), 2) > (maxq + 1) / 2) break;
  }
  return F;
}
V get(element_ptr e, const Fld& F) {
  if (F.kind == Fld::PRIME) { Z z; element_to_mpz(mp(z), e); return V(z); }
  V r; int n = F.r->n();
  int k = element_item_count(e);
  REQ(k == n, "element of " << F.desc << " reports " << k << " coefficients");
  for (int i = 0; i < n; i++) r.c.push_back(get(element_item(e, i), *F.base));
  return r;
}
void put(element_ptr e, const Fld& F, const V& v) {
  if (F.kind == Fld::PRIME) { Z z = v.v; element_set_mpz(e, mp(z)); return; }
  for (size_t i = 0; i < F.r->n(); i++) put(element_item(e, i), *F.base, v.c[i]);
}
static bool in_range(const Fld& F, const V& v) {
  if (F.kind == Fld::PRIME) return v.v >= 0 && v.v < F.r->p;
  for (auto& x : v.c) if (!in_range(*F.base, x)) return false;
  return true;
}
void expect(const Fld& F, element_ptr e, const V& v, const string& what) {
  V g = get(e, F);
  REQ(in_range(F, g), what << " gave unreduced value " << vs(g) << " in " << F.desc);
  REQ(g == v, what << " gave " << vs(g) << ", expected " << vs(v) << " in " << F.desc);
}
void canonical(const Fld& F, element_ptr e) { V g = get(e, F); REQ(in_range(F, g), "unreduced value " << vs(g) << " in " << F.desc); }
void check_preds(const Fld& F, element_ptr a, element_ptr b, const V& va, const V& vb) {
  const RF& k = *F.r;
  REQ((element_cmp(a, b) == 0) == (va == vb), "cmp(" << vs(va) << "," << vs(vb) << ") in " << F.desc);
  REQ((element_cmp(b, a) == 0) == (va == vb), "cmp(" << vs(vb) << "," << vs(va) << ") in " << F.desc);
  REQ(!!element_is0(a) == k.is0(va), "is0(" << vs(va) << ") in " << F.desc);
  REQ(!!element_is1(a) == k.is1(va), "is1(" << vs(va) << ") in " << F.desc);
}
bool op_defined(const Fld& F, int op, const V& va, const V& vb) {
  const RF& k = *F.r;
  auto unit = [&](const V& v) { if (k.base) return !k.is0(v); Z g; mpz_gcd(mp(g), mp(v.v), mp(k.p)); return g == 1; };
  if (op == INVERT) return unit(va);
  if (op == DIV) return unit(vb);
  if (op == HALVE) return k.p % 2 != 0;
  return true;
}
V do_op(Case& c, const Fld& F, int op, element_ptr dst, element_ptr a, element_ptr b, const V& va, const V& vb, string& d) {
  const RF& k = *F.r;
  d += op_name[op];
  switch (op) {
    case ADD: element_add(dst, a, b); return k.add(va, vb);
    case SUB: element_sub(dst, a, b); return k.sub(va, vb);
    case MUL: element_mul(dst, a, b); return k.mul(va, vb);
    case SQUARE: element_square(dst, a); return k.mul(va, va);
    case DOUBLE: element_double(dst, a); return k.add(va, va);
    case HALVE: element_halve(dst, a); return k.div(va, k.fromz(2));  // odd modulus only
    case NEG: element_neg(dst, a); return k.neg(va);
    case INVERT: element_invert(dst, a); return k.inv(va);
    case DIV: element_div(dst, a, b); return k.mul(va, k.inv(vb));
    case POW: { Z e = k.deg() * mpz_sizeinbase(k.p.get_mpz_t(), 2) > 600 ? c.bits(c.u(0, 40)) : c.exponent(k.q - 1); d += "^" + str(e); element_pow_mpz(dst, a, mp(e)); return k.pow(va, e); }
    case MUL_MPZ: { Z e = c.exponent(k.p); if (c.flip()) e = -e; d += "*" + str(e); element_mul_mpz(dst, a, mp(e)); return k.muli(va, e); }
    case MUL_SI: { long e = (long)c.pick<uint64_t>({0, 1, 2, 3, (uint64_t)-1, (uint64_t)-2, (uint64_t)LONG_MAX, (uint64_t)LONG_MIN, (uint64_t)-1000, 4294967296ull}); if (c.flip()) e = (long)c.u(0, ~0ull); d += "*" + std::to_string(e); element_mul_si(dst, a, e); return k.muli(va, Z(e)); }
    case SET: element_set(dst, a); return va;
    case SET0: element_set0(dst); return k.zero();
    case SET1: element_set1(dst); return k.one();
    case SET_SI: { long e = (long)c.pick<uint64_t>({0, 1, 2, (uint64_t)-1, (uint64_t)LONG_MAX, (uint64_t)LONG_MIN, (uint64_t)-7}); if (c.flip()) e = (long)c.u(0, ~0ull); d += "=" + std::to_string(e); element_set_si(dst, e); return k.fromz(Z(e)); }
    case SET_MPZ: { Z e = c.flip() ? k.p * Z((long)c.u(0, 5)) + c.edge(k.p) : c.exponent(k.p); if (c.flip()) e = -e; d += "=" + str(e); element_set_mpz(dst, mp(e)); return k.fromz(e); }
    case ADD_UI: { unsigned long e = c.pick({0ul, 1ul, 2ul, ~0ul, 1ul << 63}); if (c.flip()) e = c.u(0, ~0ull); d += "+" + std::to_string(e); element_add_ui(dst, a, e); return k.add(va, k.fromz(Z(e))); }
    case POW_ZN: case MUL_ZN: {
      Z n = c.pick({Z(2), Z(97), Z(256), Z("1000000000000000000000000000057"), Z((Z(1) << 160) - 47)});
      if (k.deg() * mpz_sizeinbase(k.p.get_mpz_t(), 2) > 600) n = 65537;
      field_t R; field_init_fp(R, mp(n)); element_t x; element_init(x, R); Z e = c.edge(n); element_set_mpz(x, mp(e));
      d += " " + str(e);
      if (op == POW_ZN) element_pow_zn(dst, a, x); else element_mul_zn(dst, a, x);
      element_clear(x); field_clear(R);
      return op == POW_ZN ? k.pow(va, e) : k.muli(va, e);
    }
  }
  abort();
}
// a nested integer list and the element of k it stands for
element_ptr build_mz(Case& c, const RF& k, field_ptr mz, V& want, int depth, string& d) {
  if (!k.base || c.chance(1, 4)) {
    Z z = c.exponent(k.p); if (c.flip()) z = -z;
    element_ptr e = (element_ptr)pbc_malloc(sizeof(*e)); element_init(e, mz); element_set_mpz(e, mp(z));
    d += str(z); want = k.fromz(z); return e;
  }
  int n = c.u(1, k.n() + 1);
  want = k.zero(); d += "[";
  element_ptr l = nullptr;
  for (int i = 0; i < n; i++) {
    if (i) d += ",";
    V w; element_ptr x = build_mz(c, *k.base, mz, w, depth + 1, d);
    if (i < (int)k.n()) want.c[i] = w;
    if (!l) l = multiz_new_list(x); else multiz_append(l, x);
    pbc_free(x);
  }
  d += "]";
  return l;
}
