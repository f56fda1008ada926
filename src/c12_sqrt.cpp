#include "curves.h"
// C12: quadratic character, square roots and signs.
static Fldp gen_field(Case& c) {
  int k = c.u(0, 9);
  if (k < 3) return gen_ext_field(c, c.u(0, 7) ? 20 : 90, c.u(0, 5) ? 1 : 2);
  if (k == 4) {  // high 2-adicity
    unsigned s = c.u(1, 64), t = c.u(1, 100);
    Z m = (c.bits(t) | 1);
    Z p = (m << s) + 1;
    while (!isprime(p)) { m += 2; p = (m << s) + 1; }
    c.label("p-1 divisible by 2^" + std::to_string(s / 8 * 8) + "+");
    return fld_prime(p, legal_backend(p, c.u(0, BK_N - 1)));
  }
  for (;;) { Fldp F = gen_prime_field(c, 280); if (F->r->p != 2) return F; }
}
static V gen_val(Case& c, const Fld& F, int& how) {
  const RF& k = *F.r;
  how = c.u(0, 6);
  V v;
  switch (how) {
    case 0: return k.zero();
    case 1: return k.one();
    case 2: v = k.rnd(c); return k.mul(v, v);
    case 3: if (k.base) return k.fromb(k.base->uni(c)); return k.neg(k.one());
    case 4: if (k.base) { v = k.zero(); v.c[c.u(0, k.n() - 1)] = k.base->rnd(c); return v; } return k.rnd(c);
    case 5: v = k.uni(c); return k.mul(v, v);
    default: return k.uni(c);
  }
}
CHECK("C12", sqr_sqrt, 12000, 800000, 50, "a non-zero element tested, its root taken when it has one") {
  c.seed_lib();
  Fldp F = gen_field(c); const RF& k = *F->r;
  if (k.p == 2) discard();
  E a(F->f), r(F->f), s(F->f);
  if (c.chance(1, 4)) { V n = get(field_get_nqr(F->f), *F); REQ(!k.is_sqr(n), "field_get_nqr of " << F->desc << " is a square: " << vs(n));
    if (c.flip()) { V m; do m = k.uni(c); while (k.is_sqr(m)); put(a, *F, m); field_set_nqr(F->f, a); REQ(get(field_get_nqr(F->f), *F) == m, "field_set_nqr"); c.label("chosen non-residue"); } }
  int n = c.u(1, 3);
  for (int i = 0; i < n; i++) {
    int how; V v = gen_val(c, *F, how); put(a, *F, v);
    c.d << F->desc << " " << vs(v) << "; ";
    bool want = k.is_sqr(v), got = element_is_sqr(a) != 0;
    REQ(want == got, "is_sqr(" << vs(v) << ") in " << F->desc << " gave " << got);
    expect(*F, a, v, "is_sqr changed its operand:");
    c.label(want ? "square" : "non-square");
    if (how == 3 && k.base) c.label("base-field element");
    if (!k.is0(v)) c.nontrivial();
    if (!want) continue;
    bool al = c.chance(1, 4);
    if (al) { element_set(r, a); element_sqrt(r, r); } else { put(r, *F, k.rnd(c)); element_sqrt(r, a); expect(*F, a, v, "sqrt changed its operand:"); }
    canonical(*F, r);
    V root = get(r, *F);
    REQ(k.mul(root, root) == v, "sqrt(" << vs(v) << ") in " << F->desc << " gave " << vs(root));
    element_square(s, r); REQ(!element_cmp(s, a), "sqrt then square differs in " << F->desc);
  }
  c.label(F->kind == Fld::PRIME ? "prime" : F->kind == Fld::FI ? "fi" : F->kind == Fld::FQ ? "quadratic" : "polymod");
}
// all elements of small fields
CHECK("C12", sqr_exhaustive, 400, 6000, 20, "every element of a small field tested") {
  c.seed_lib();
  static const int small[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 97, 193, 257};
  Z p = small[c.u(0, 14)];
  Fldp B = fld_prime(p, BK_NAIVE), F = B;
  int k = c.u(0, 3);
  if (k == 1 && p % 4 == 3) F = fld_fi(B);
  else if (k == 2) F = fld_quadratic(B);
  else if (k == 3) F = fld_polymod(B, prand_irred(*B->r, c.u(2, p < 8 ? 4 : 2), c));
  if (F->r->q > 3000) discard();
  const RF& r = *F->r;
  vector<V> all{V()};
  if (!r.base) { all.clear(); for (int i = 0; i < p; i++) all.push_back(V(Z(i))); }
  else { for (size_t i = 0; i < r.n(); i++) { vector<V> nx; for (auto& x : all) for (int j = 0; j < p; j++) { V y = x; y.c.push_back(V(Z(j))); nx.push_back(y); } all.swap(nx); } }
  std::set<V> sq; for (auto& x : all) sq.insert(r.mul(x, x));
  c.d << F->desc << " all " << all.size();
  E a(F->f), b(F->f);
  for (auto& x : all) {
    put(a, *F, x); bool want = sq.count(x);
    REQ(!!element_is_sqr(a) == want, "is_sqr(" << vs(x) << ") in " << F->desc << " wrong, should be " << want);
    if (want) { element_sqrt(b, a); element_square(b, b); REQ(!element_cmp(a, b), "sqrt(" << vs(x) << ") in " << F->desc); }
    element_neg(b, a); int s = element_sign(a), t = element_sign(b);
    REQ((s == 0) == r.is0(x), "sign(" << vs(x) << ")=" << s << " in " << F->desc);
    if (!r.is0(x)) REQ((s > 0) == (t < 0) && t != 0, "signs of " << vs(x) << " and its negative in " << F->desc << ": " << s << "," << t);
  }
  c.nontrivial(); c.label(F->kind == Fld::PRIME ? "prime" : F->kind == Fld::FI ? "fi" : F->kind == Fld::FQ ? "quadratic" : "polymod");
}
static void check_sign(element_ptr a, const string& where) {
  E n(a->field); element_neg(n, a);
  int s = element_sign(a), t = element_sign(n); bool z = element_is0(a);
  REQ((s == 0) == z, "sign " << s << " of " << (z ? "zero" : "a non-zero element") << " in " << where);
  if (!z) REQ((s > 0) ? t < 0 : t > 0, "signs of an element and its negative are " << s << " and " << t << " in " << where);
}
CHECK("C12", sign_anti, 20000, 600000, 100, "sign of a non-zero element compared with its negative") {
  c.seed_lib();
  int kind = c.u(0, 3);
  if (kind == 0) {
    field_t z; field_init_z(z); { E a(z); Z v = c.exponent(Z(1) << 100); if (c.flip()) v = -v; element_set_mpz(a, mp(v)); c.d << "Z " << v; check_sign(a, "Z"); int s = element_sign(a); REQ((s > 0) == (v > 0) && (s < 0) == (v < 0), "sign of " << v); if (v != 0) c.nontrivial(); c.label("Z");
      bool w = v >= 0 && mpz_perfect_square_p(mp(v)); REQ(!!element_is_sqr(a) == w, "is_sqr(" << v << ")");
      Z q = v * v; E b(z); element_set_mpz(b, mp(q)); REQ(element_is_sqr(b), "is_sqr(" << q << ")"); element_sqrt(b, b); REQ(toz(b) == abs(v), "sqrt(" << q << ")"); }
    field_clear(z); return;
  }
  Fldp F = kind == 1 ? gen_prime_field(c, 300) : gen_ext_field(c, 60, 2);
  if (F->r->p == 2) discard();
  if (kind == 3) {  // polynomials
    field_t P; field_init_poly(P, F->f); { E a(P); int n = c.u(0, 4); E x(F->f); for (int i = n; i-- > 0;) { V v = c.flip() ? F->r->zero() : F->r->rnd(c); if (i == n - 1 && F->r->is0(v)) v = F->r->one(); put(x, *F, v); poly_set_coeff(a, x, i); }
      c.d << F->desc << "[x] " << show(a); check_sign(a, F->desc + "[x]"); if (n) c.nontrivial(); c.label("polynomial"); }
    field_clear(P); return;
  }
  E a(F->f); V v = F->r->rnd(c); if (F->r->base && c.flip()) v.c[0] = F->r->base->zero();
  put(a, *F, v); c.d << F->desc << " " << vs(v); check_sign(a, F->desc); if (!F->r->is0(v)) c.nontrivial(); c.label(kind == 1 ? "prime" : "extension");
}
// curve groups: the sign is that of the y-coordinate; doubles in cyclic groups
CHECK("C12", curve_sign_sqr, 6000, 200000, 50, "a finite point that is not its own negation") {
  c.seed_lib();
  Cvp C = gen_curve(c, c.chance(1, 2) ? 0 : -1); const RC& R = C->R;
  E a(C->f), n(C->f); Pt p = gen_pt(c, *C); putpt(c, a, *C, p); element_neg(n, a);
  c.d << C->desc << " " << pts(p);
  int s = element_sign(a), t = element_sign(n);
  if (p.inf || R.k->is0(p.y)) REQ(!s && !t, "sign of the self-inverse point " << pts(p) << " is " << s);
  else { REQ(s && t && (s > 0) == (t < 0), "signs of " << pts(p) << " and its negative are " << s << "," << t << " on " << C->desc); c.nontrivial(); }
  if (C->N != 0 && C->N < 400) {
    Z n = C->order; bool member = R.mul(p, n).inf; if (!member) return;
    // doubles in the group of the declared order, when its points of order two form a cyclic group
    vector<Pt> all; { Pt o; all.push_back(o); for (auto& x : all_elements(*R.k)) { V r = R.k->add(R.k->mul(R.k->add(R.k->mul(x, x), R.a), x), R.b); if (!R.k->is_sqr(r)) continue; Pt q; q.inf = false; q.x = x; q.y = R.k->sqrt(r, c); if (R.mul(q, n).inf) { all.push_back(q); if (!R.k->is0(q.y)) all.push_back(R.neg(q)); } } }
    int two = 0; bool dbl = false; for (auto& q : all) { Pt d = R.dbl(q); two += d.inf; dbl |= d == p; }
    if (two > 2 || Z((long)all.size()) != n) return;
    REQ(!!element_is_sqr(a) == dbl, "square test of " << pts(p) << " on " << C->desc << " gave " << !dbl << " among " << all.size() << " points"); c.label(dbl ? "double" : "not a double");
  }
}
