#include "polys.h"
#include <climits>
// C08: polynomial rings.
static Fldp gen_base(Case& c, unsigned bits) {
  if (c.chance(1, 6)) return gen_ext_field(c, 40, 1);
  return gen_prime_field(c, bits);
}
P gen_poly(Case& c, const RF& k, int maxdeg) {
  if (c.chance(1, 25)) maxdeg = 40;
  int d = (int)c.u(0, maxdeg + 1) - 1; P p;
  int mode = c.u(0, 3);
  for (int i = 0; i <= d; i++) p.push_back(mode == 0 && !c.chance(1, 4) ? k.zero() : k.rnd(c));
  if (d >= 0 && c.chance(1, 3)) p[d] = k.one();
  pnorm(k, p); return p;
}
P getp(element_ptr e, const Fld& B) { P p; int n = element_item_count(e); for (int i = 0; i < n; i++) p.push_back(get(element_item(e, i), B)); return p; }
void putp(element_ptr e, const Fld& B, const P& p) {
  element_set0(e); E x(B.f); for (size_t i = p.size(); i-- > 0;) { put(x, B, p[i]); poly_set_coeff(e, x, i); }
}
static void expectp(const Fld& B, element_ptr e, const P& want, const string& what) {
  P g = getp(e, B);
  REQ(g.empty() || !B.r->is0(g.back()), what << " left a zero leading coefficient: " << ps(g) << " over " << B.desc);
  REQ(g == want, what << " gave " << ps(g) << ", expected " << ps(want) << " over " << B.desc);
}
CHECK("C08", poly_ops, 80000, 4000000, 200, "a ring operation on a polynomial of positive degree") {
  c.seed_lib();
  Fldp B = gen_base(c, 200); const RF& k = *B->r; Ring R(B);
  E a(R.f), b(R.f), r(R.f);
  putp(r, *B, gen_poly(c, k, 6));
  c.d << "over " << B->desc << ":";
  int steps = c.u(1, 5);
  for (int s = 0; s < steps; s++) {
    P va = gen_poly(c, k, 9), vb = c.chance(1, 6) ? va : c.chance(1, 6) ? psub(k, P(), va) : gen_poly(c, k, 9);
    if (c.chance(1, 6) && va.size() > 1) { vb = va; vb[c.u(0, vb.size() - 2)] = k.rnd(c); if (c.flip()) vb = psub(k, P(), vb); }
    putp(a, *B, va); putp(b, *B, vb);
    expectp(*B, a, va, "assembling coefficients");
    int op = c.u(0, 21), al = c.u(0, 6);
    element_ptr dst = r, x = a, y = b;
    if (al == 1) dst = a; else if (al == 2) dst = b; else if (al == 3) { y = a; vb = va; } else if (al == 4) { y = a; dst = a; vb = va; }
    P want; string d;
    switch (op) {
      case 0: d = "add"; element_add(dst, x, y); want = padd(k, va, vb); break;
      case 1: d = "sub"; element_sub(dst, x, y); want = psub(k, va, vb); break;
      case 2: case 3: d = "mul"; element_mul(dst, x, y); want = pmul(k, va, vb); break;
      case 4: d = "square"; element_square(dst, x); want = pmul(k, va, va); break;
      case 5: d = "neg"; element_neg(dst, x); want = psub(k, P(), va); break;
      case 6: d = "double"; element_double(dst, x); want = padd(k, va, va); break;
      case 7: { Z z = c.flip() ? Z(k.p * c.u(0, 3)) : c.exponent(k.p); if (c.flip()) z = -z; d = "mul_mpz " + str(z); element_mul_mpz(dst, x, mp(z)); want = pmul(k, va, P{k.fromz(z)}); pnorm(k, want); break; }
      case 8: { long z = c.flip() && k.p < 1000000 ? (long)(k.p.get_si() * (long)c.u(0, 5)) : (long)c.u(0, ~0ull); if (c.flip()) z = -z; d = "mul_si " + std::to_string(z); element_mul_si(dst, x, z); want = pmul(k, va, P{k.fromz(Z(z))}); pnorm(k, want); break; }
      case 9: { long z = c.flip() && k.p < 1000000 ? (long)(k.p.get_si() * (long)c.u(0, 5)) : (long)c.u(0, ~0ull); d = "set_si " + std::to_string(z); element_set_si(dst, z); want = P{k.fromz(Z(z))}; pnorm(k, want); break; }
      case 10: { Z z = c.flip() ? Z(k.p * c.u(0, 3)) : c.exponent(k.p); d = "set_mpz " + str(z); element_set_mpz(dst, mp(z)); want = P{k.fromz(z)}; pnorm(k, want); break; }
      case 11: d = "set"; element_set(dst, x); want = va; break;
      case 12: d = c.flip() ? "set0" : "set1"; if (d == "set0") element_set0(dst); else { element_set1(dst); want = P{k.one()}; } break;
      case 13: { V v = k.rnd(c); E t(B->f); put(t, *B, v); d = "const_mul " + vs(v); poly_const_mul(dst, t, x); want = pmul(k, va, P{v}); pnorm(k, want); break; }
      case 14: { V v = k.rnd(c); int i = c.u(0, va.size() + 2); E t(B->f); put(t, *B, v); d = "set_coeff " + std::to_string(i) + " " + vs(v); dst = a; want = va; poly_set_coeff(a, t, i); if ((int)want.size() <= i) want.resize(i + 1, k.zero()); want[i] = v; pnorm(k, want); break; }
      case 15: { int i = c.u(0, va.size() + 2); d = "set_coeff0 " + std::to_string(i); dst = a; want = va; poly_set_coeff0(a, i); if (i < (int)want.size()) want[i] = k.zero(); pnorm(k, want); break; }
      case 16: { int i = c.u(0, va.size() + 2); d = "set_coeff1 " + std::to_string(i); dst = a; want = va; poly_set_coeff1(a, i); if ((int)want.size() <= i) want.resize(i + 1, k.zero()); want[i] = k.one(); break; }
      case 17: d = "setx"; poly_setx(dst); want = P{k.zero(), k.one()}; break;
      case 18: { V v = k.rnd(c); E t(B->f); put(t, *B, v); d = "from base " + vs(v); element_field_to_poly(dst, t); want = P{v}; pnorm(k, want); break; }
      case 19: { Z e = c.u(0, 5); if (va.size() > 5) va.resize(5), pnorm(k, va), putp(a, *B, va), vb = y == (element_ptr)a ? va : vb; d = "pow " + str(e); element_pow_mpz(dst, x, mp(e)); want = P{k.one()}; for (Z i = 0; i < e; ++i) want = pmul(k, want, va); break; }
      case 20: {  // from a list of coefficients, constant first
        Mz M; int n = c.u(1, 6), zs = c.flip() ? c.u(0, 2) : 0; d = "set_multiz ["; for (int i = 0; i < n; i++) { V w; M.add(build_mz(c, k, M.f, w, 0, d)); d += ","; want.push_back(w); } for (int i = 0; i < zs; i++) { element_ptr x = (element_ptr)pbc_malloc(sizeof(element_t)); element_init(x, M.f); if (c.flip()) element_set_mpz(x, mp(const_cast<Z&>(k.p))); M.add(x); d += "0,"; }
        element_set_multiz(dst, M.m()); break; }
      default: { unsigned long z = c.u(0, ~0ull); if (c.flip()) z %= 5; d = "add_ui " + std::to_string(z); element_add_ui(dst, x, z); want = padd(k, va, P{k.fromz(Z(z))}); break; }
    }
    pnorm(k, want);
    c.d << " " << d << "(" << ps(va) << "," << ps(vb) << ")" << (al == 1 ? " into a" : al == 2 ? " into b" : al == 3 ? " b=a" : al == 4 ? " all same" : "");
    c.label(d.substr(0, d.find(' ')));
    expectp(*B, dst, want, d);
    if (dst != x && op < 14) expectp(*B, x, va, d + " changed its first operand:");
    if (dst != y && op < 14) expectp(*B, y, vb, d + " changed its second operand:");
    REQ(poly_degree(dst) == (int)want.size() - 1, "degree");
    REQ(!!element_is0(dst) == want.empty() && !!element_is1(dst) == (want.size() == 1 && k.is1(want[0])), "is0/is1 of " << ps(want));
    E t(R.f); putp(t, *B, want); REQ(!element_cmp(dst, t) && !element_cmp(t, dst), "cmp of equal " << ps(want));
    P o = gen_poly(c, k, 9); putp(t, *B, o); REQ(!element_cmp(dst, t) == (o == want), "cmp " << ps(want) << " " << ps(o));
    Z z; element_to_mpz(mp(z), dst); if (!k.base) REQ(z == (want.empty() ? Z(0) : want[0].v), "to_mpz");
    if (va.size() > 1 && op <= 8) c.nontrivial();
  }
}
// irreducibility, with factors planted in half of the cases; brute force for tiny fields
static bool brute_irred(const RF& k, const P& f) {
  unsigned n = f.size() - 1; unsigned long p = k.p.get_ui();
  for (unsigned d = 1; 2 * d <= n; d++) {
    unsigned long tot = 1; for (unsigned i = 0; i < d; i++) tot *= p;
    for (unsigned long t = 0; t < tot; t++) {
      P g; unsigned long x = t; for (unsigned i = 0; i < d; i++) { g.push_back(V(Z(x % p))); x /= p; } g.push_back(k.one());
      if (pmod(k, f, g).empty()) return false;
    }
  }
  return true;
}
CHECK("C08", poly_irred, 9000, 600000, 20, "a monic polynomial of degree at least 2 tested for irreducibility") {
  c.seed_lib();
  bool tiny = c.chance(2, 3);
  Fldp B = tiny ? fld_prime(Z(c.pick({3u, 5u, 7u, 11u, 13u})), c.flip() ? BK_NAIVE : BK_DEFAULT) : c.chance(1, 8) ? gen_ext_field(c, 12, 1, 400) : gen_prime_field(c, 60);
  const RF& k = *B->r; Ring R(B);
  if (k.base && mpz_sizeinbase(mp(const_cast<RF&>(k).q), 2) > 50) discard();
  auto rnd = [&](unsigned d) { P p; for (unsigned i = 0; i < d; i++) p.push_back(c.chance(1, 4) ? k.rnd(c) : k.uni(c)); p.push_back(k.one()); return p; };
  P f; unsigned maxd = tiny ? (k.p <= 5 ? 10 : 6) : c.chance(1, 12) ? 14 : 8;
  switch (c.u(0, 4)) {
    case 0: { unsigned d = c.u(1, maxd / 2); P g = rnd(d); f = pmul(k, g, rnd(c.u(1, maxd - d))); break; }
    case 1: { P g = rnd(c.u(1, maxd / 2)); f = pmul(k, g, g); break; }
    case 2: { unsigned d = c.u(1, maxd / 2); f = pmul(k, prand_irred(k, d, c), prand_irred(k, d, c)); break; }  // equal-degree factors
    case 3: f = prand_irred(k, c.u(1, maxd), c); break;
    default: f = rnd(c.u(0, maxd));
  }
  bool want = f.size() < 2 ? false : f.size() == 2 ? true : tiny && (f.size() <= 7 || k.p <= 5) ? brute_irred(k, f) : pirred(k, f);
  c.d << "irreducible? " << ps(f) << " over " << B->desc;
  E e(R.f); putp(e, *B, f);
  bool got = poly_is_irred(e);
  c.label(want ? "irreducible" : "reducible"); if (f.size() > 2) c.nontrivial();
  REQ(got == want, "poly_is_irred(" << ps(f) << ") = " << got << ", expected " << want << " over " << B->desc);
  expectp(*B, e, f, "poly_is_irred changed its argument:");
}
CHECK("C08", poly_roots, 10000, 600000, 20, "root search in a polynomial of degree at least 1") {
  c.seed_lib();
  bool tiny = c.chance(1, 2);
  Fldp B = tiny ? fld_prime(Z(c.pick({3u, 5u, 7u, 11u, 13u, 101u})), c.flip() ? BK_NAIVE : BK_DEFAULT) : c.chance(1, 8) ? gen_ext_field(c, 16, 1, 500) : gen_prime_field(c, 100);
  const RF& k = *B->r; Ring R(B);
  if (k.base && mpz_sizeinbase(mp(const_cast<RF&>(k).q), 2) > 50) discard();
  P f{k.one()}; bool planted = false;
  int nr = c.chance(1, 6) ? c.u(5, 14) : c.u(0, 4);
  for (int i = 0; i < nr; i++) { V r = k.rnd(c); P l{k.neg(r), k.one()}; int m = c.chance(1, 6) ? 2 : 1; while (m--) f = pmul(k, f, l); planted = true; }
  if (c.flip()) { unsigned d = c.u(2, 4); f = pmul(k, f, prand_irred(k, d, c)); if (c.flip()) f = pmul(k, f, prand_irred(k, 2, c)); }
  if (f.size() < 2) discard();
  c.d << "root of " << ps(f) << " over " << B->desc; c.nontrivial();
  E e(R.f), root(B->f); putp(e, *B, f);
  int st = poly_findroot(root, e);
  if (!planted) REQ(st != 0, "poly_findroot found root " << vs(get(root, *B)) << " of " << ps(f) << " which has none over " << B->desc);
  else {
    REQ(st == 0, "poly_findroot found no root of " << ps(f) << " over " << B->desc);
    V r = get(root, *B); REQ(k.is0(peval(k, f, r)), "poly_findroot gave " << vs(r) << " which is no root of " << ps(f) << " over " << B->desc);
  }
  expectp(*B, e, f, "poly_findroot changed its argument:");
  c.label(!planted ? "no root" : nr == 1 ? "one root" : "several roots");
  if (f.size() == 2) c.label("degree 1");
}
// modular inversion, also modulo reducible polynomials: a*inv(a)=1 whenever gcd is 1
CHECK("C08", poly_modinv, 12000, 600000, 100, "inverse of an element of positive degree") {
  c.seed_lib();
  Fldp B = gen_prime_field(c, 120); const RF& k = *B->r;
  unsigned d = c.chance(1, 4) ? c.u(10, 30) : c.u(1, 9); P m; for (unsigned i = 0; i < d; i++) m.push_back(k.rnd(c)); m.push_back(k.one());
  Fldp F = fld_polymod(B, m);
  P a; for (unsigned i = 0; i < d; i++) a.push_back(c.chance(1, 4) ? k.zero() : k.rnd(c));
  if (c.chance(1, 3)) { unsigned lo = c.u(1, d); for (unsigned i = lo; i < d; i++) a[i] = k.zero(); }  // low degree: a long first quotient
  P an = a; pnorm(k, an); P inv;
  if (an.empty() || pgcd(k, an, m).size() != 1 || !pinvmod(k, an, m, inv)) discard();
  inv.resize(d, k.zero());
  V va, vi; va.c = a; vi.c = inv;
  E x(F->f), r(F->f); put(x, *F, va); put(r, *F, va);
  c.d << "inverse of " << ps(an) << " in " << F->desc; if (an.size() > 1) c.nontrivial();
  element_ptr dst = c.flip() ? (element_ptr)x : (element_ptr)r;
  element_invert(dst, x); expect(*F, dst, vi, "invert");
  element_mul(dst, dst, dst == (element_ptr)x ? (element_ptr)r : (element_ptr)x);
  if (dst == (element_ptr)x) { REQ(element_is1(x), "a * a^-1 != 1"); }
}
CHECK("C08", poly_random, 2000, 100000, 100, "a random monic polynomial of degree at least 1") {
  c.seed_lib(); Fldp B = gen_base(c, 100); Ring R(B); E e(R.f);
  putp(e, *B, gen_poly(c, *B->r, 12));
  int d = c.u(0, 15); poly_random_monic(e, d);
  c.d << "random monic degree " << d << " over " << B->desc << " #" << c.rngstate; P p = getp(e, *B);
  REQ((int)p.size() == d + 1 && B->r->is1(p[d]), "poly_random_monic(" << d << ") gave " << ps(p)); if (d) c.nontrivial();
}
