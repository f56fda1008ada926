#include "pairings.h"
// C01: bilinearity, identities, order and non-degeneracy. C02: value against
// the textbook Tate pairing. C03: all evaluation routes agree.
static Z scalar(Case& c, const Z& r) {
  switch (c.u(0, 9)) {
    case 0: return Z((long)c.u(0, 5)) - 2;
    case 1: return r + Z((long)c.u(0, 4)) - 2;
    case 2: return -c.edge(r);
    case 3: return 2 * r + c.edge(r);
    case 4: return Z(1) << c.u(0, mpz_sizeinbase(mp(r), 2));
    default: return c.edge(r);
  }
}
static string fname(const Pg& G) { return G.name + " (type " + (G.fam == '1' ? "a1" : string(1, G.fam)) + ")"; }
static bool gteq(element_ptr a, element_ptr b) { return !element_cmp(a, b) && !element_cmp(b, a); }
static void desc(Case& c, const Pg& G, const char* n, element_ptr e) { c.d << " " << n << "=" << gkey(e); }
static const char* methods(char fam, int i) {
  switch (fam) {
    case 'a': case '1': case 'g': case 'e': { static const char* m[] = {"miller", "miller-affine", "shipsey-stange"}; return m[i % 3]; }
    case 'd': { static const char* m[] = {"miller", "miller-affine"}; return m[i % 2]; }
  }
  return "miller";
}
static void set_method(Pg& G, const char* m) { pairing_option_set(G.p, (char*)"method", (char*)m); }
// operands related to each other more often than chance would make them
static void gen_related(Case& c, const Pg& G, int which, element_ptr e, element_ptr other) {
  switch (c.u(0, 7)) {
    case 0: element_set(e, other); break;
    case 1: element_neg(e, other); break;
    case 2: element_add(e, other, other); if (c.chance(1, 3)) element_neg(e, e); break;
    case 3: element_mul_si(e, other, (long)c.u(0, 12) - 6); break;
    default: gen_elt(c, G, which, e);
  }
}
CHECK("C01", bilinear, 3200, 200000, 12, "neither point is the identity and neither scalar is 0 or 1 modulo the order") {
  c.seed_lib();
  Pgp G = load_pairing(c, "", c.u(0, 7) ? 300 : 2000); pairing_ptr p = G->p; const Z& r = G->r;
  c.d << fname(*G);
  E P(p->G1), P2(p->G1), Q(p->G2), Q2(p->G2), t1(p->G1), t2(p->G2);
  gen_elt(c, *G, 1, P); gen_related(c, *G, 1, P2, P); gen_elt(c, *G, 2, Q); gen_related(c, *G, 2, Q2, Q);
  if (G->symmetric && c.chance(1, 4)) gen_related(c, *G, 2, Q, P);
  desc(c, *G, "P", P); desc(c, *G, "Q", Q);
  if (c.chance(1, 4)) { const char* m = methods(G->fam, c.u(0, 2)); set_method(*G, m); c.d << " method " << m; }
  E e(p->GT), e1(p->GT), e2(p->GT), x(p->GT);
  if (c.flip()) element_random(e);
  G->need_chain(P); G->need_chain(P2);
  element_pairing(e, P, Q);
  if (element_is0(P) || element_is0(Q)) REQ(element_is1(e) && element_is0(e), "pairing with the identity is not the identity");
  Z rr = r; element_pow_mpz(x, e, mp(rr)); REQ(element_is1(x), "pairing value is not of order dividing r");
  // additivity on each side
  desc(c, *G, "P2", P2);
  element_add(t1, P, P2); G->need_chain(t1); pairing_apply(e1, t1, Q, p); element_pairing(e2, P2, Q); element_mul(e2, e2, e);
  REQ(gteq(e1, e2), "e(P+P2,Q) != e(P,Q)e(P2,Q)");
  desc(c, *G, "Q2", Q2);
  element_add(t2, Q, Q2); pairing_apply(e1, P, t2, p); element_pairing(e2, P, Q2); element_mul(e2, e2, e);
  REQ(gteq(e1, e2), "e(P,Q+Q2) != e(P,Q)e(P,Q2)");
  // scalars
  Z a = scalar(c, r), b = scalar(c, r); c.d << " a=" << a << " b=" << b;
  Z ar = zmod(a, r), br = zmod(b, r), ab = zmod(a * b, r);
  switch (c.u(0, 2)) {
    case 0: element_mul_mpz(t1, P, mp(a)); element_mul_mpz(t2, Q, mp(b)); break;
    case 1: { E za(p->Zr), zb(p->Zr); element_set_mpz(za, mp(a)); element_set_mpz(zb, mp(b)); element_mul_zn(t1, P, za); element_mul_zn(t2, Q, zb); break; }
    default: { E za(p->Zr), zb(p->Zr); element_set_mpz(za, mp(a)); element_set_mpz(zb, mp(b)); element_pow_zn(t1, P, za); element_pow_zn(t2, Q, zb); }
  }
  G->need_chain(t1); pairing_apply(e1, t1, t2, p); element_pow_mpz(e2, e, mp(ab));
  REQ(gteq(e1, e2), "e(aP,bQ) != e(P,Q)^(ab)");
  pairing_apply(e1, t1, Q, p); { E za(p->Zr); element_set_mpz(za, mp(a)); element_pow_zn(e2, e, za); }
  REQ(gteq(e1, e2), "e(aP,Q) != e(P,Q)^a");
  element_neg(t1, P); pairing_apply(e1, t1, Q, p); element_invert(e2, e);
  REQ(gteq(e1, e2), "e(-P,Q) != e(P,Q)^-1");
  if (G->symmetric && G->fam != 'e') { G->need_chain(Q); element_pairing(e1, Q, P); REQ(gteq(e1, e), "symmetric pairing: e(P,Q) != e(Q,P)"); }
  if (!element_is0(P) && !element_is0(Q) && ar > 1 && br > 1) c.nontrivial();
}
CHECK("C01", nondegenerate, 900, 80000, 20, "both points have full order") {
  c.seed_lib();
  Pgp G = load_pairing(c, "", c.u(0, 7) ? 300 : 2000); pairing_ptr p = G->p; Z r = G->r;
  c.d << fname(*G);
  E P(p->G1), Q(p->G2), t1(p->G1), t2(p->G2), e(p->GT), x(p->GT);
  gen_elt(c, *G, 1, P); gen_elt(c, *G, 2, Q);
  if (element_is0(P)) discard();
  desc(c, *G, "P", P); desc(c, *G, "Q", Q);
  if (G->fam == 'e') {
    // rank two: the points killed by P form one cyclic group of order r
    E Q2(p->G2), e2(p->GT); gen_elt(c, *G, 2, Q2);
    if (element_is0(Q) || element_is0(Q2)) discard();
    element_pairing(e, P, Q); element_pairing(e2, P, Q2);
    if (element_is1(e) && element_is1(e2)) {
      if (r > 100000) fail("pairing with two random points is trivial");
      bool dep = false; element_set(t2, Q);
      for (Z i = 1; i < r && !dep; i++) { if (!element_cmp(t2, Q2)) dep = true; element_add(t2, t2, Q); }
      REQ(dep, "pairing with independent points is trivial");
    }
    c.nontrivial(); return;
  }
  // full order?
  bool full = true;
  if (G->prime_r) {
    if (!G->symmetric) { Z h = G->h2; element_mul_mpz(t2, Q, mp(h)); full = !element_is0(t2); } else full = !element_is0(Q);
    element_pairing(e, P, Q);
    REQ(!!element_is1(e) == !full, "e(P,Q) " << (full ? "is trivial for points of full order" : "is not trivial"));
  } else {
    G->need_chain(P);
    element_pairing(e, P, Q);
    for (auto& l : G->rfac) {
      Z k = r / l; element_mul_mpz(t1, P, mp(k)); element_mul_mpz(t2, Q, mp(k)); element_pow_mpz(x, e, mp(k));
      if (element_is0(t1) || element_is0(t2)) full = false;
      else if (r % (l * l) != 0) REQ(!element_is1(x), "order of e(P,Q) lost the factor " << l);
    }
  }
  if (full) c.nontrivial();
}
CHECK("C02", tate_value, 4000, 150000, 10, "neither point is the identity") {
  c.seed_lib();
  Pgp G = load_pairing(c, "a1defg", c.u(0, 5) ? 210 : 2000); pairing_ptr p = G->p;
  c.d << fname(*G);
  Pt P = gen_g1(c, *G), Q = gen_g2(c, *G);
  if (G->symmetric) switch (c.u(0, 9)) { case 0: Q = P; break; case 1: Q = G->E1.neg(P); break; case 2: Q = G->E1.mul(P, Z((long)c.u(2, 5))); break; }
  E eP(p->G1), eQ(p->G2), e(p->GT); put1(c, *G, eP, P); put2(c, *G, eQ, Q);
  c.d << " P=" << pts(P) << " Q=" << pts(Q);
  if (G->fam == '1' && !G->chain_ok(P)) discard();
  V want; if (!G->tate(c, P, Q, want)) discard();
  int meth = c.u(0, 5);
  if (meth < 3 && !strchr("f", G->fam)) { const char* m = methods(G->fam, meth); set_method(*G, m); c.d << " method " << m; c.label(string("method ") + m); }
  if (c.flip()) element_random(e);
  element_pairing(e, eP, eQ);
  V got = get(e, *G->Fqk);
  REQ(got == want, "pairing value " << vs(got) << ", the Tate pairing is " << vs(want));
  REQ(get1(*G, eP) == P && get2(*G, eQ) == Q, "pairing changed its inputs");
  if (!P.inf && !Q.inf) c.nontrivial();
}
CHECK("C03", routes_agree, 2400, 200000, 12, "a history with at least one preprocessed or product evaluation on non-identity points") {
  c.seed_lib();
  Pgp G = load_pairing(c, "", c.u(0, 7) ? 300 : 2000); pairing_ptr p = G->p;
  c.d << fname(*G);
  int n1 = c.u(1, 4), n2 = c.u(1, 4);
  vector<E> P, Q; P.reserve(n1); Q.reserve(n2);
  for (int i = 0; i < n1; i++) { P.emplace_back(p->G1); if (i && c.chance(1, 3)) gen_related(c, *G, 1, P[i], P[i - 1]); else gen_elt(c, *G, 1, P[i]); desc(c, *G, "P", P[i]); G->need_chain(P[i]); }
  for (int i = 0; i < n2; i++) { Q.emplace_back(p->G2); if (i && c.chance(1, 3)) gen_related(c, *G, 2, Q[i], Q[i - 1]); else if (G->symmetric && c.chance(1, 3)) gen_related(c, *G, 2, Q[i], P[c.u(0, n1 - 1)]); else gen_elt(c, *G, 2, Q[i]); desc(c, *G, "Q", Q[i]); }
  // reference table: plain pairing right after initialisation
  vector<vector<string>> tab(n1, vector<string>(n2)); E e(p->GT), x(p->GT), acc(p->GT);
  vector<vector<E>> val;
  for (int i = 0; i < n1; i++) { val.emplace_back(); for (int j = 0; j < n2; j++) { element_pairing(e, P[i], Q[j]); val[i].push_back(e); } }
  struct PP { pairing_pp_t pp; int i; bool live; element_t copy; };
  vector<PP> pps; pps.reserve(16);
  bool nt = false;
  auto clean = [&] { for (auto& k : pps) if (k.live) { pairing_pp_clear(k.pp); element_clear(k.copy); k.live = false; } };
  int steps = c.u(2, 7);
  try {
    for (int s = 0; s < steps; s++) {
      int op = c.u(0, 9);
      if (op <= 1 && pps.size() < 6) {
        int i = c.u(0, n1 - 1); pps.emplace_back(); auto& k = pps.back(); k.i = i; element_init(k.copy, p->G1); element_set(k.copy, P[i]);
        pairing_pp_init(k.pp, k.copy, p); k.live = true; c.d << " pp_init(P" << i << ")";
        if (c.flip()) { element_random(k.copy); c.d << "*"; c.label("operand changed after preprocessing"); }
      } else if (op <= 4 && !pps.empty()) {
        auto& k = pps[c.u(0, pps.size() - 1)]; if (!k.live) continue;
        int j = c.u(0, n2 - 1); c.d << " pp_apply(P" << k.i << ",Q" << j << ")"; if (c.flip()) element_random(e);
        pairing_pp_apply(e, Q[j], k.pp); REQ(gteq(e, val[k.i][j]), "preprocessed pairing differs from the plain one");
        if (!element_is0(P[k.i]) && !element_is0(Q[j])) nt = true;
        c.label("preprocessed");
      } else if (op == 5 && !pps.empty()) {
        auto& k = pps[c.u(0, pps.size() - 1)]; if (k.live && c.flip()) { pairing_pp_clear(k.pp); element_clear(k.copy); k.live = false; c.d << " pp_clear"; }
      } else if (op == 6 && G->fam != 'f' && G->fam != 'i') {
        const char* m = methods(G->fam, c.u(0, 2)); set_method(*G, m); c.d << " method=" << m; c.label(string("method ") + m);
      } else if (op == 7) {
        int i = c.u(0, n1 - 1), j = c.u(0, n2 - 1); c.d << " e(P" << i << ",Q" << j << ")"; element_pairing(e, P[i], Q[j]); REQ(gteq(e, val[i][j]), "pairing changed between calls");
      } else {
        int n = c.chance(1, 8) ? (c.chance(1, 6) ? c.u(21, 70) : c.u(6, 20)) : c.u(1, 5); element_t a[70], b[70];
        c.d << " prod("; element_set1(acc);
        for (int t = 0; t < n; t++) { int i = c.u(0, n1 - 1), j = c.u(0, n2 - 1); c.d << (t ? " " : "") << i << "," << j; element_init(a[t], p->G1); element_set(a[t], P[i]); element_init(b[t], p->G2); element_set(b[t], Q[j]); element_mul(acc, acc, val[i][j]); if (n > 1 && !element_is0(P[i]) && !element_is0(Q[j])) nt = true; }
        c.d << ")"; if (c.flip()) element_random(e);
        element_prod_pairing(e, a, b, n);
        for (int t = 0; t < n; t++) { element_clear(a[t]); element_clear(b[t]); }
        c.label(n > 20 ? "product of 21 to 70" : n > 5 ? "product of 6 to 20" : "product of " + std::to_string(n));
        REQ(gteq(e, acc), "product of pairings differs from the product of the pairings");
      }
    }
  } catch (...) { clean(); throw; }
  clean();
  if (nt) c.nontrivial();
}
CHECK("C03", coddh, 800, 60000, 12, "no identity among the four points") {
  c.seed_lib();
  Pgp G = load_pairing(c, "", 300); pairing_ptr p = G->p; Z r = G->r;
  c.d << fname(*G);
  E a(p->G1), b(p->G1), g(p->G2), h(p->G2), e1(p->GT), e2(p->GT), x(p->GT);
  gen_elt(c, *G, 1, a); gen_elt(c, *G, 2, g);
  Z k = scalar(c, r), l = k; int w = c.u(0, 4);
  if (w == 0) l = -k; else if (w == 1) l = k + 1; else if (w == 2) l = scalar(c, r);
  k = zmod(k, r); l = zmod(l, r);
  element_mul_mpz(b, a, mp(k)); element_mul_mpz(h, g, mp(l));
  if (c.chance(1, 10)) element_set0(b);
  if (c.chance(1, 10)) element_set0(h);
  c.d << " k=" << k << " l=" << l; desc(c, *G, "a", a); desc(c, *G, "c", g);
  G->need_chain(a); G->need_chain(b);
  element_pairing(e1, a, h); element_pairing(e2, b, g); element_mul(x, e1, e2);
  bool want = gteq(e1, e2) || element_is1(x);
  bool got = is_almost_coddh(a, b, g, h, p) != 0;
  REQ(got == want, "DDH check answered " << got << ", the pairings say " << want);
  c.label(want ? "ddh" : "not ddh");
  if (!element_is0(a) && !element_is0(b) && !element_is0(g) && !element_is0(h)) c.nontrivial();
}
