#include "pairings.h"
// C04: the groups of an initialised pairing against a model: points and tower
// field elements where the model knows them, tables of multiples (small
// orders) for family I.
struct GM {  // group model, additive
  Pgp G; int which; field_ptr f;           // 0 Zr, 1 G1, 2 G2, 3 GT
  std::map<string, long> idx; vector<string> tab; vector<E> el;
  bool table = false;
  struct X { Pt p; V v; Z k; };
  X zero() const { X x; if (which == 3 && !table) x.v = G->Fqk->r->one(); if (which == 0) x.v = V(Z(0)); return x; }
  X add(const X& a, const X& b) const {
    X r;
    if (table) r.k = zmod(a.k + b.k, G->r);
    else if (which == 0) r.v = V(zmod(a.v.v + b.v.v, G->r));
    else if (which == 1) r.p = G->E1.add(a.p, b.p);
    else if (which == 2) r.p = G->E2.add(a.p, b.p);
    else r.v = G->Fqk->r->mul(a.v, b.v);
    return r;
  }
  X neg(const X& a) const {
    X r;
    if (table) r.k = zmod(-a.k, G->r);
    else if (which == 0) r.v = V(zmod(-a.v.v, G->r));
    else if (which == 1) r.p = G->E1.neg(a.p);
    else if (which == 2) r.p = G->E2.neg(a.p);
    else r.v = G->Fqk->r->inv(a.v);
    return r;
  }
  X mul(const X& a, const Z& n) const {
    if (table) { X r; r.k = zmod(a.k * n, G->r); return r; }
    X b = n < 0 ? neg(a) : a; Z m = abs(n);
    X r = zero();
    for (long i = (long)mpz_sizeinbase(mp(m), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(mp(m), i)) r = add(r, b); }
    return r;
  }
  bool eq(const X& a, const X& b) const { return a.p == b.p && a.v == b.v && a.k == b.k; }
  // equality as the library's comparison sees it (cosets in G2)
  bool same(const X& a, const X& b) const {
    if (eq(a, b)) return true;
    if (which != 2 || G->symmetric) return false;
    return G->E2.mul(G->E2.add(a.p, G->E2.neg(b.p)), G->h2).inf;
  }
  string sh(const X& a) const { return table ? str(a.k) + "*g" : (which == 1 || which == 2) ? pts(a.p) : vs(a.v); }
  X get(element_ptr e) const {
    X x;
    if (table) { auto it = idx.find(gkey(e)); REQ(it != idx.end(), "element " << gkey(e) << " is outside the group"); x.k = it->second; }
    else if (which == 0) { Z z; element_to_mpz(mp(z), e); x.v = V(z); }
    else if (which == 1) x.p = get1(*G, e);
    else if (which == 2) x.p = get2(*G, e);
    else x.v = ::get(e, *G->Fqk);
    return x;
  }
  bool member(const X& x) const {
    if (table) return true;
    if (which == 0) return x.v.v >= 0 && x.v.v < G->r;
    if (which == 1) return G->E1.on(x.p) && G->E1.mul(x.p, G->r).inf;
    if (which == 2) return G->E2.on(x.p) && (G->symmetric ? G->E2.mul(x.p, G->r).inf : G->E2.mul(x.p, G->r * G->h2).inf);
    return G->Fqk->r->is1(G->Fqk->r->pow(x.v, G->r));
  }
  void gen(Case& c, element_ptr e) {
    if (table) { long i = c.chance(1, 10) ? 0 : c.u(0, tab.size() - 1); element_set(e, el[i]); return; }
    gen_elt(c, *G, which, e);
  }
  bool setup() {
    f = which == 0 ? G->p->Zr : which == 1 ? G->p->G1 : which == 2 ? G->p->G2 : G->p->GT;
    if (G->fam != 'i' || which == 0) return true;
    if (G->r > 3000) return false;
    table = true;
    E g(f), x(f); long n = G->r.get_si();
    if (which == 3) { E a(G->p->G1); do element_random(a); while (element_is0(a)); element_pairing(g, a, a); } else do element_random(g); while (element_is0(g));
    element_set0(x);
    for (long i = 0; i < n; i++) { string k = gkey(x); REQ(idx.emplace(k, i).second, "multiples of a generator repeat after " << i << " of " << n); tab.push_back(k); el.emplace_back(x); element_add(x, x, g); }
    REQ(element_is0(x), "order times the generator is not the identity");
    return true;
  }
};
static const char* gname[] = {"Zr", "G1", "G2", "GT"};
static std::shared_ptr<GM> gen_group(Case& c, bool tables) {
  auto M = std::make_shared<GM>();
  M->which = c.pick({0, 1, 1, 1, 2, 2, 2, 3, 3, 3});
  bool i = tables && c.chance(1, 8);
  M->G = load_pairing(c, i ? "i" : "a1defg", i ? 22 : c.u(0, 4) ? 210 : 2000);
  if (!M->setup()) discard();
  c.d << M->G->name << " " << gname[M->which];
  c.label(string("group ") + gname[M->which]);
  return M;
}
CHECK("C04", group_history, 2600, 250000, 20, "the history contains an addition or multiple of elements other than the identity") {
  c.seed_lib();
  auto M = gen_group(c, true); field_ptr f = M->f; Z r = M->G->r;
  typedef GM::X X; const int N = 4;
  vector<E> R; vector<X> m; R.reserve(N);
  for (int i = 0; i < N; i++) { R.emplace_back(f); if (i && c.chance(1, 4)) { if (c.flip()) element_neg(R[i], R[i - 1]); else element_set(R[i], R[i - 1]); } else M->gen(c, R[i]); m.push_back(M->get(R[i])); c.d << " " << M->sh(m[i]); }
  for (int i = 0; i < N; i++) REQ(M->member(m[i]), "generated element " << M->sh(m[i]) << " is not in the group");
  int steps = c.u(1, 5); bool mult = M->which != 0;
  for (int s = 0; s < steps; s++) {
    int d = c.u(0, N - 1), a = c.u(0, N - 1), b = c.u(0, N - 1), op = c.u(0, 15);
    X w;
    if (!M->eq(m[a], M->zero()) && op <= 12) c.nontrivial();
    c.d << "; r" << d << "=";
    switch (op) {
      case 0: case 1: c.d << "r" << a << "+r" << b; if (mult && op) element_mul(R[d], R[a], R[b]); else element_add(R[d], R[a], R[b]); w = M->add(m[a], m[b]); break;
      case 2: case 3: c.d << "r" << a << "-r" << b; if (mult && op == 3) element_div(R[d], R[a], R[b]); else element_sub(R[d], R[a], R[b]); w = M->add(m[a], M->neg(m[b])); break;
      case 4: c.d << "2r" << a; if (mult && c.flip()) element_square(R[d], R[a]); else element_double(R[d], R[a]); w = M->add(m[a], m[a]); break;
      case 5: c.d << "-r" << a; if (mult && c.flip()) element_invert(R[d], R[a]); else element_neg(R[d], R[a]); w = M->neg(m[a]); break;
      case 6: { long k = (long)c.u(0, 40) - 20; if (c.chance(1, 4)) k = (long)c.u(0, ~0ull); c.d << k << "(si)*r" << a; element_mul_si(R[d], R[a], k); w = M->mul(m[a], Z(k)); break; }
      case 7: { Z k = c.exponent(r); if (c.chance(1, 3)) k = -k; c.d << k << "*r" << a; element_mul_mpz(R[d], R[a], mp(k)); w = M->mul(m[a], k); break; }
      case 8: { Z k = c.edge(r); c.d << k << "(zn)*r" << a; E z(M->G->p->Zr); element_set_mpz(z, mp(k)); element_mul_zn(R[d], R[a], z); w = M->mul(m[a], k); break; }
      case 9: if (!mult) { element_set(R[d], R[a]); w = m[a]; break; } else { Z k = c.exponent(r); c.d << "r" << a << "^" << k; element_pow_mpz(R[d], R[a], mp(k)); w = M->mul(m[a], k); break; }
      case 10: if (!mult) { element_set(R[d], R[a]); w = m[a]; break; } else { Z k = c.edge(r); c.d << "r" << a << "^" << k << "(zn)"; E z(M->G->p->Zr); element_set_mpz(z, mp(k)); element_pow_zn(R[d], R[a], z); w = M->mul(m[a], k); break; }
      case 11: c.d << "order*r" << a; element_mul_mpz(R[d], R[a], mp(r)); w = M->mul(m[a], r); REQ(M->same(w, M->zero()), "model"); { E o(f); element_set0(o); REQ(!element_cmp(R[d], o), "order times an element does not compare equal to the identity"); } break;
      case 12: { if (M->which != 1 && M->which != 2) { element_set(R[d], R[a]); w = m[a]; break; }
        if (M->G->fam == 'i') { element_set(R[d], R[a]); w = m[a]; break; }
        // batch operations over all registers
        // (the first N results go back into the registers, a longer list repeats them)
        const int L = c.chance(1, 6) ? c.u(N, 40) : N; vector<element_s> A(L), B(L), O(L); bool add = c.flip(); c.d << (add ? "batch add" : "batch double") << " of " << L;
        vector<X> ws;
        for (int i = 0; i < L; i++) { int j = c.u(0, N - 1), q = i % N; element_init(&A[i], f); element_init(&B[i], f); element_init(&O[i], f); element_set(&A[i], R[q]); element_set(&B[i], R[j]); ws.push_back(add ? M->add(m[q], m[j]) : M->add(m[q], m[q])); }
        int into = c.u(0, add ? 2 : 1);   // destination: first list, a third list, second list
        auto& D = into == 0 ? A : into == 1 ? O : B; c.d << " into " << into; auto at = [](vector<element_s>& v) { return (element_t*)v.data(); };
        if (add) element_multi_add(at(D), at(A), at(B), L); else element_multi_double(at(D), at(A), L);
        string bad; for (int i = 0; i < L; i++) { if (!M->eq(M->get(&D[i]), ws[i]) && bad.empty()) bad = std::to_string(i); if (i < N) { element_set(R[i], &D[i]); m[i] = ws[i]; } }
        for (int i = 0; i < L; i++) { element_clear(&A[i]); element_clear(&B[i]); element_clear(&O[i]); }
        REQ(bad.empty(), "entry " << bad << " of the batch is wrong");
        w = m[d]; break; }
      case 13: c.d << "0"; if (mult && c.flip()) element_set1(R[d]); else element_set0(R[d]); w = M->zero(); break;
      case 14: { c.d << "random"; element_random(R[d]); w = M->get(R[d]); REQ(M->member(w), "random element " << M->sh(w) << " is not in the group"); break; }
      default: c.d << "r" << a; element_set(R[d], R[a]); w = m[a];
    }
    m[d] = w;
    for (int i = 0; i < N; i++) {
      X g = M->get(R[i]);
      REQ(M->eq(g, m[i]), "register " << i << " holds " << M->sh(g) << ", expected " << M->sh(m[i]));
      REQ(!!element_is0(R[i]) == M->eq(m[i], M->zero()), "is0 of " << M->sh(m[i]));
      if (mult) REQ(!!element_is1(R[i]) == M->eq(m[i], M->zero()), "is1 of " << M->sh(m[i]));
    }
    int i = c.u(0, N - 1), j = c.u(0, N - 1);
    REQ(!element_cmp(R[i], R[j]) == M->same(m[i], m[j]), "comparison of " << M->sh(m[i]) << " and " << M->sh(m[j]));
    REQ(!element_cmp(R[j], R[i]) == M->same(m[i], m[j]), "comparison of " << M->sh(m[j]) << " and " << M->sh(m[i]));
  }
}
CHECK("C04", membership, 2200, 200000, 20, "the element is not the identity") {
  c.seed_lib();
  auto M = gen_group(c, true); field_ptr f = M->f;
  E e(f), d(f); int how = c.u(0, 3);
  if (how == 0) { c.d << " random"; element_random(e); }
  else if (how == 1) {
    if (M->G->fam == 'i' && M->which != 0) discard();  // no hashing offered
    string s = c.bytes(c.chance(1, 10) ? c.u(61, 600) : c.u(1, 60)); c.d << " hash " << hex(s);
    if ((M->which == 1 || M->which == 2) && M->G->q < (Z(1) << 40)) discard();
    element_from_hash(e, &s[0], s.size());
  } else if (how == 2) {
    if (M->G->fam == 'i' && M->which != 0) discard();
    E t(f); M->gen(c, t); if (M->which != 0 && M->which != 3 && element_is0(t)) discard();
    string s = enc(t); c.d << " decode " << hex(s); element_from_bytes(e, (unsigned char*)&s[0]);
    REQ(M->eq(M->get(e), M->get(t)), "decoding gave a different element");
  } else { E a(f), b(f); M->gen(c, a); M->gen(c, b); c.d << " " << M->sh(M->get(a)) << " + " << M->sh(M->get(b)); element_add(e, a, b); }
  auto x = M->get(e); c.d << " -> " << M->sh(x);
  REQ(M->member(x), M->sh(x) << " is not a member");
  Z r = M->G->r; element_mul_mpz(d, e, mp(r)); E o(f); element_set0(o); REQ(!element_cmp(d, o), "order times the element is not the identity");
  Z k = r - 1; element_mul_mpz(d, e, mp(k)); element_add(d, d, e); REQ(!element_cmp(d, o), "(order-1) times the element is not its inverse");
  if (!element_is0(e)) c.nontrivial();
}
