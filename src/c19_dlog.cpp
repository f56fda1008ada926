#include "structs.h"
// C19: discrete logarithms.
static vector<Z> primes_of(Z n) { vector<Z> r; for (Z p = 2; p * p <= n; p++) if (n % p == 0) { r.push_back(p); while (n % p == 0) n /= p; } if (n > 1) r.push_back(n); return r; }
CHECK("C19", discrete_log, 40000, 400000, 25, "the logarithm is neither 0 nor 1") {
  c.seed_lib();
  Stp s; Z r; std::shared_ptr<E> g; int kind = c.u(0, 4);
  bool rho = c.flip();
  unsigned lim = rho ? (c.chance(1, 10) ? 200000 : 3000) : 1500;
  if (kind <= 1) {   // multiplicative group of a prime field
    Z p = nextprime(Z(c.u(2, rho ? c.pick({40u, 3000u, lim}) : c.pick({30u, 1500u}))));
    s = st_field(fld_prime(p, legal_backend(p, c.u(0, BK_N - 1)))); const RF& k = *s->K->r; c.d << s->desc;
    auto f = primes_of(p - 1); Z d = 1;   // order r = (p-1)/d
    V a; for (Z x = 2;; x++) { a = k.fromz(x); bool ok = p == 3 || p == 2; for (auto& q : f) if (p > 3 && k.is1(k.pow(a, (p - 1) / q))) goto next; ok = true; next: if (ok) break; }
    if (kind == 0 && f.size()) { Z q = f[c.u(0, f.size() - 1)]; d = (p - 1) / q; } else if (f.size() && c.flip()) d = f[0];
    r = (p - 1) / d; if (r < 2) discard();
    g = std::make_shared<E>(s->f); put(*g, *s->K, k.pow(a, d)); c.label(isprime(r) ? "prime order" : "composite order");
  } else if (kind == 2) {   // curve subgroup
    Cvp C = gen_curve(c, c.u(0, 1)); s = st_curve(C); c.d << s->desc;
    Pt P = gen_pt(c, *C); if (P.inf) discard();
    Z o = C->N; for (auto& q : primes_of(C->N)) while (o % q == 0 && C->R.mul(P, o / q).inf) o /= q;   // order of P
    r = o; if (r > lim) discard();
    g = std::make_shared<E>(s->f); putpt(c, *g, *C, P); c.label("curve");
  } else {
    static vector<ParamFile> small; if (small.empty()) for (auto& f : param_files()) { if (f.fam == 'i') continue; auto m = parse_params(f.text); if ((f.fam == '1' ? m["n"] : m["r"]) < 40000) small.push_back(f); }
    Pgp G = make_pairing(c, small[c.u(0, small.size() - 1)]); if (G->fam == '1') discard(); r = G->r; int w = c.pick({1, 2, 3}); if (w == 2 && !G->symmetric) w = 1; if (!rho && r > lim) discard(); if (w == 3 && r > 3000 && !c.chance(1, 6)) discard();
    s = st_pairing(G, w); c.d << s->desc; g = std::make_shared<E>(s->f);
    do element_random(*g); while (w == 3 ? element_is1(*g) : element_is0(*g)); c.label(string("pairing ") + (w == 3 ? "GT" : "point"));
  }
  Z k; switch (c.u(0, 5)) { case 0: k = 0; break; case 1: k = 1 % r; break; case 2: k = r - 1; break; default: k = c.below(r); }
  c.d << " order " << r << " log " << k << (rho ? " rho" : " brute force");
  field_t Zr; field_init_fp(Zr, mp(r)); struct Cl { field_ptr f; ~Cl() { field_clear(f); } } cl{Zr};
  E h(s->f), x(Zr); element_pow_mpz(h, *g, mp(k)); string kg = s->key(*g), kh = s->key(h);
  element_set_si(x, 1);
  if (rho) element_dlog_pollard_rho(x, *g, h); else element_dlog_brute_force(x, *g, h);
  REQ(s->key(*g) == kg && s->key(h) == kh, "the solver changed its input");
  Z v = toz(x); REQ(v >= 0 && v < r, "logarithm " << v << " not reduced modulo " << r);
  REQ(v == k, (rho ? "rho" : "brute force") << " returned " << v << " for the logarithm " << k << " in a group of order " << r);
  E y(s->f); element_pow_zn(y, *g, x); REQ(!element_cmp(y, h), "g^x is not h");
  if (k > 1) c.nontrivial(); c.label(rho ? "rho" : "brute force");
}
