#include "pairings.h"
// C27: protocols between parties that only exchange encoded elements. Both
// sides build their own pairing from the same parameter text.
static bool big_enough(const ParamFile& f) {
  if (f.fam == '1' || f.fam == 'i' || f.qbits > 1100) return false;
  auto m = parse_params(f.text); return m["r"] > (Z(1) << 60) && m["q"] > (Z(1) << 60);
}
static Pgp gen_setting(Case& c) {
  static vector<ParamFile> fast, slow;
  if (fast.empty()) for (auto& f : param_files()) if (big_enough(f)) (f.qbits <= 260 ? fast : slow).push_back(f);
  if (fast.empty() || slow.empty()) discard();
  Pgp G = c.u(0, 3) ? make_pairing(c, c.pick(fast)) : make_pairing(c, c.pick(slow));
  if (!G->prime_r) discard();
  c.d << G->name; c.label(string("type ") + G->fam);
  return G;
}
struct World {
  Case& c; Pgp G; pairing_t other; bool two = false; string how;
  pairing_ptr A, B;   // sender and receiver
  explicit World(Case& c) : c(c), G(gen_setting(c)) {
    A = B = G->p;
    if (c.u(0, 3)) { REQ(!pairing_init_set_str(other, G->text.c_str()), "parameters rejected"); two = true; B = other; if (c.flip()) std::swap(A, B); c.label("two instances"); }
  }
  ~World() { if (two) pairing_clear(other); }
  static field_ptr grp(pairing_ptr p, int w) { return w == 0 ? p->Zr : w == 1 ? p->G1 : w == 2 ? p->G2 : p->GT; }
  E fresh(pairing_ptr p, int w) { E e(grp(p, w)); if (w == 0) { Z z = c.edge(G->r); element_set_mpz(e, mp(z)); } else { element_random(e); } return e; }
  E nonzero(pairing_ptr p, int w) { for (int i = 0; i < 20; i++) { E e = fresh(p, w); if (!element_is0(e)) { E o(e.f()); element_set0(o); if (element_cmp(e, o)) return e; } } discard(); }
  // what arrives at the other side
  E send(pairing_ptr to, int w, const E& e) {
    E r(grp(to, w)); bool pts = w == 1 || w == 2;
    switch (c.u(0, 2)) {
      case 0: if (pts && !element_is0(e)) { string b(element_length_in_bytes_compressed(e), 0); int n = element_to_bytes_compressed((unsigned char*)&b[0], e); REQ(n == (int)b.size(), "compressed length"); n = element_from_bytes_compressed(r, (unsigned char*)&b[0]); REQ(n == (int)b.size(), "compressed length read back"); how += 'c'; break; }
      [[fallthrough]];
      case 1: { string b = enc(e); int n = element_from_bytes(r, (unsigned char*)&b[0]); REQ(n == (int)b.size(), "decoded " << n << " of " << b.size() << " bytes"); how += 'b'; break; }
      default: { string t = capture_file([&](FILE* f) { element_out_str(f, 10, e); }); int n = element_set_str(r, t.c_str(), 10); REQ(n == (int)t.size(), "parsed " << n << " of " << t); how += 't'; }
    }
    return r;
  }
  E hashed(pairing_ptr p, int w, const string& m) { E e(grp(p, w)); string t = m; element_from_hash(e, &t[0], t.size()); return e; }
  E pair(pairing_ptr p, const E& a, const E& b) {
    E o(p->GT); if (c.flip()) element_random(o);
    switch (c.u(0, 3)) {
      case 0: { pairing_pp_t pp; pairing_pp_init(pp, a, p); pairing_pp_apply(o, b, pp); pairing_pp_clear(pp); break; }
      case 1: element_pairing(o, a, b); break;
      case 2: { element_t x[1], y[1]; element_init_same_as(x[0], a); element_init_same_as(y[0], b); element_set(x[0], a); element_set(y[0], b); element_prod_pairing(o, x, y, 1); element_clear(x[0]); element_clear(y[0]); break; }
      default: pairing_apply(o, a, b, p);
    }
    return o;
  }
  E mul(const E& g, const E& k) {
    E o(g.f());
    switch (c.u(0, 3)) {
      case 0: element_mul_zn(o, g, k); break;
      case 1: element_pow_zn(o, g, k); break;
      case 2: { Z z = toz(k) + G->r * Z((long)c.u(0, 1)); element_mul_mpz(o, g, mp(z)); break; }
      default: { element_pp_t pp; element_pp_init(pp, g); element_pp_pow_zn(o, k, pp); element_pp_clear(pp); }
    }
    return o;
  }
  E add(const E& a, const E& b) { E o(a.f()); element_add(o, a, b); return o; }
  E gmul(const E& a, const E& b) { E o(a.f()); element_mul(o, a, b); return o; }
  bool eq(const E& a, const E& b) { bool x = !element_cmp(a, b); REQ(x == !element_cmp(b, a), "comparison is not symmetric"); return x; }
  string msg() { return c.bytes(c.u(1, 40)); }
};
// Short signatures: a signature verifies exactly when it is the signer's for that message.
CHECK("C27", signatures, 1400, 60000, 8, "the key is not 0 or 1 and the signature crosses an encoding") {
  c.seed_lib(); World W(c); bool xonly = c.chance(1, 4);
  E g = W.nonzero(W.A, 2), sk = W.fresh(W.A, 0); string m = W.msg(); E h = W.hashed(W.A, 1, m), sig = W.mul(h, sk), pk = W.mul(g, sk);
  int tamper = c.u(0, 6); string m2 = m; E bad = sig, bpk = pk, bg = g;
  switch (tamper) {
    case 1: m2 = c.flip() ? W.msg() : m + string(1, (char)c.u(1, 255)); break;
    case 2: bad = W.fresh(W.A, 1); break;
    case 3: element_neg(bad, bad); break;
    case 4: { E k2 = W.fresh(W.A, 0); bpk = W.mul(g, k2); break; }
    case 5: bad = W.add(sig, h); break;
  }
  c.d << " key " << toz(sk) << " message " << hex(m) << " tamper " << tamper; c.label(tamper && tamper < 6 ? "tampered" : "honest");
  E h2a = W.hashed(W.A, 1, m2);
  bool want = W.eq(bad, W.mul(h2a, sk)) && W.eq(bpk, pk);
  if (tamper == 4) { E d(pk.f()); element_set0(d); want = W.eq(pk, bpk) || element_is0(h2a); }
  E rg = W.send(W.B, 2, bg), rpk = W.send(W.B, 2, bpk), rh = W.hashed(W.B, 1, m2), rs(W.B->G1);
  if (xonly && !element_is0(bad)) {
    string b(element_length_in_bytes_x_only(bad), 0); element_to_bytes_x_only((unsigned char*)&b[0], bad); element_from_bytes_x_only(rs, (unsigned char*)&b[0]); E t = W.pair(W.B, rs, rg), u = W.pair(W.B, rh, rpk), v(W.B->GT); element_invert(v, t);
    bool got = W.eq(t, u) || W.eq(v, u); E nb(bad.f()); element_neg(nb, bad); if (tamper != 4) want = want || W.eq(nb, W.mul(h2a, sk));
    if (tamper == 4) { E s2 = W.pair(W.A, bad, bg), u2 = W.pair(W.A, h2a, bpk), i2(W.A->GT); element_invert(i2, s2); want = W.eq(s2, u2) || W.eq(i2, u2); }
    REQ(got == want, "x-only signature was " << (got ? "accepted" : "rejected") << " (sent as " << W.how << ")"); c.label("x only");
  } else {
    rs = W.send(W.B, 1, bad);
    bool got = W.eq(W.pair(W.B, rs, rg), W.pair(W.B, rh, rpk));
    REQ(got == want, "signature was " << (got ? "accepted" : "rejected") << " (sent as " << W.how << ")");
    E ng(rg.f()); element_neg(ng, rg); element_t x[2], y[2]; for (int i = 0; i < 2; i++) { element_init(x[i], W.B->G1); element_init(y[i], W.B->G2); } element_set(x[0], rs); element_set(y[0], ng); element_set(x[1], rh); element_set(y[1], rpk);
    E o(W.B->GT); element_prod_pairing(o, x, y, 2); bool one = element_is1(o); for (int i = 0; i < 2; i++) { element_clear(x[i]); element_clear(y[i]); }
    REQ(one == want, "the product check " << (one ? "accepted" : "rejected") << " the signature");
  }
  if (toz(sk) > 1 && W.how.find_first_of("bct") != string::npos) c.nontrivial();
}
// Aggregate and threshold signatures.
CHECK("C27", aggregates, 700, 30000, 6, "three or more signers or shares") {
  c.seed_lib(); World W(c); int n = c.u(1, 5); bool thr = c.flip(); E g = W.nonzero(W.A, 2); E rg = W.send(W.B, 2, g); if (n > 2) c.nontrivial(); c.label(thr ? "threshold" : "aggregate");
  c.d << (thr ? " threshold " : " aggregate ") << n;
  if (!thr) {
    E sum(W.A->G1); element_set0(sum); vector<E> rh, rpk; bool want = true; int bad = c.u(0, 2) ? -1 : (int)c.u(0, n - 1);
    for (int i = 0; i < n; i++) { string m = W.msg(); E sk = W.fresh(W.A, 0), h = W.hashed(W.A, 1, m), s = W.mul(h, sk); sum = W.add(sum, s); if (i == bad) { E h2 = W.hashed(W.A, 1, m + "x"); want = W.eq(W.mul(h2, sk), s); m += "x"; } rh.push_back(W.hashed(W.B, 1, m)); rpk.push_back(W.send(W.B, 2, W.mul(g, sk))); }
    E rs = W.send(W.B, 1, sum), o(W.B->GT); vector<element_t> x(n), y(n); for (int i = 0; i < n; i++) { element_init_same_as(x[i], rh[i]); element_set(x[i], rh[i]); element_init_same_as(y[i], rpk[i]); element_set(y[i], rpk[i]); }
    element_prod_pairing(o, x.data(), y.data(), n); for (int i = 0; i < n; i++) { element_clear(x[i]); element_clear(y[i]); }
    bool got = W.eq(o, W.pair(W.B, rs, rg)); REQ(got == want, "aggregate of " << n << " signatures " << (got ? "accepted" : "rejected") << " (sent as " << W.how << ")"); c.label(bad >= 0 ? "tampered" : "honest");
  } else {
    vector<E> co; for (int i = 0; i < n; i++) co.push_back(W.fresh(W.A, 0)); string m = W.msg(); E h = W.hashed(W.A, 1, m), sig = W.mul(h, co[0]), acc(W.B->G1); element_set0(acc); vector<Z> xs;
    while ((int)xs.size() < n) { Z x = 1 + c.edge(W.G->r - 1); bool dup = false; for (auto& y : xs) dup |= x == y; if (dup) x = Z((long)(100 + xs.size() * 1000 + c.u(0, 900))); dup = false; for (auto& y : xs) dup |= x == y; if (!dup) xs.push_back(x); }
    for (int i = 0; i < n; i++) {
      E x(W.A->Zr), s(W.A->Zr); element_set_mpz(x, mp(xs[i])); element_set0(s); for (int j = n; j-- > 0;) { element_mul(s, s, x); element_add(s, s, co[j]); }
      E part = W.send(W.B, 1, W.mul(h, s)), l(W.B->Zr), xi(W.B->Zr); element_set1(l); element_set_mpz(xi, mp(xs[i]));
      for (int j = 0; j < n; j++) if (j != i) { E xj(W.B->Zr), d(W.B->Zr); element_set_mpz(xj, mp(xs[j])); element_sub(d, xj, xi); element_div(d, xj, d); element_mul(l, l, d); }
      acc = W.add(acc, W.mul(part, l));
    }
    E rs = W.send(W.B, 1, sig), rpk = W.send(W.B, 2, W.mul(g, co[0]));
    REQ(W.eq(acc, rs), "the signature recombined from " << n << " shares differs from the direct one");
    REQ(W.eq(W.pair(W.B, acc, rg), W.pair(W.B, W.hashed(W.B, 1, m), rpk)), "the recombined signature does not verify");
  }
}
// Shared keys: all parties derive the same bytes.
CHECK("C27", shared_keys, 1000, 40000, 8, "the secrets are not 0 or 1") {
  c.seed_lib(); World W(c); bool ibe = c.flip(); E a = W.fresh(W.A, 0), b = W.fresh(W.B, 0); c.d << (ibe ? " identity-based" : " three-party") << " a=" << toz(a) << " b=" << toz(b); c.label(ibe ? "identity-based" : "three-party");
  if (ibe) {   // encrypt to an identity, decrypt with the extracted key
    E P = W.nonzero(W.A, 2); string id = W.msg(); E Ppub = W.mul(P, a), Q = W.hashed(W.A, 1, id), S = W.mul(Q, a);   // authority at A
    E Q2 = W.hashed(W.B, 1, id), rP = W.send(W.B, 2, P), rPpub = W.send(W.B, 2, Ppub), U = W.mul(rP, b), t = W.pair(W.B, Q2, rPpub), k1(W.B->GT); element_pow_zn(k1, t, b);
    E rU = W.send(W.A, 2, U), k2 = W.pair(W.A, S, rU);
    REQ(enc(k1) == enc(k2), "the identity key gives " << hex(enc(k2)) << ", the sender used " << hex(enc(k1)) << " (sent as " << W.how << ")");
    E one(k2.f()); element_set1(one); string wrong = id + "?"; E S2 = W.mul(W.hashed(W.A, 1, wrong), a), k3 = W.pair(W.A, S2, rU); bool same = W.eq(S, S2) || element_is0(a) || element_is0(b); REQ(W.eq(k3, k2) == same, "the key of another identity " << (same ? "does not agree" : "also decrypts"));
  } else {   // everyone publishes a multiple in both groups
    E P1 = W.nonzero(W.A, 1), P2 = W.nonzero(W.A, 2), d = W.fresh(W.A, 0), a1 = W.mul(P1, a), a2 = W.mul(P2, a), d1 = W.mul(P1, d), d2 = W.mul(P2, d);
    E q1 = W.send(W.B, 1, P1), q2 = W.send(W.B, 2, P2), b1 = W.mul(q1, b), b2 = W.mul(q2, b), rb1 = W.send(W.A, 1, b1), rb2 = W.send(W.A, 2, b2), ra1 = W.send(W.B, 1, a1), rd2 = W.send(W.B, 2, d2);
    E x = W.pair(W.A, rb1, d2), y = W.pair(W.B, ra1, rd2), z = W.pair(W.A, a1, rb2), kx(W.A->GT), ky(W.B->GT), kz(W.A->GT); element_pow_zn(kx, x, a); element_pow_zn(ky, y, b); element_pow_zn(kz, z, d);
    REQ(W.eq(kx, kz), "two parties derive different keys"); REQ(enc(kx) == enc(ky), "the third party derives " << hex(enc(ky)) << " instead of " << hex(enc(kx)) << " (sent as " << W.how << ")");
  }
  if (toz(a) > 1 && toz(b) > 1) c.nontrivial();
}
// Identity-based signature (Hess) and signatures by inversion in the exponent (ZSS).
CHECK("C27", exponent_protocols, 1000, 40000, 8, "the secrets are not 0 or 1") {
  c.seed_lib(); World W(c); bool zss = c.flip(); E x = W.fresh(W.A, 0); string m = W.msg(); bool tamper = c.chance(1, 3); string m2 = tamper ? m + "!" : m; c.d << (zss ? " inverse" : " identity") << " signature, key " << toz(x) << " message " << hex(m) << (tamper ? " tampered" : ""); c.label(zss ? "inverse" : "identity"); c.label(tamper ? "tampered" : "honest");
  auto hz = [&](pairing_ptr p, const string& t) { E e(p->Zr); string s = t; element_from_hash(e, &s[0], s.size()); return e; };
  if (zss) {
    E P = W.nonzero(W.A, 1), Q = W.nonzero(W.A, 2), Qpub = W.mul(Q, x), k(W.A->Zr); E h = hz(W.A, m); element_add(k, h, x); if (element_is0(k)) discard(); element_invert(k, k); E S = W.mul(P, k);
    E rS = W.send(W.B, 1, S), rP = W.send(W.B, 1, P), rQ = W.send(W.B, 2, Q), rQpub = W.send(W.B, 2, Qpub), h2 = hz(W.B, m2), t = W.add(W.mul(rQ, h2), rQpub);
    bool got = W.eq(W.pair(W.B, rS, t), W.pair(W.B, rP, rQ)), want = W.eq(hz(W.A, m), hz(W.A, m2)); REQ(got == want, "inverse signature " << (got ? "accepted" : "rejected") << " (sent as " << W.how << ")");
  } else {
    E P = W.nonzero(W.A, 2), Ppub = W.mul(P, x), Qid = W.hashed(W.A, 1, "id" + m), S = W.mul(Qid, x), P1 = W.nonzero(W.A, 1), k = W.fresh(W.A, 0);
    auto ser = [&](const E& e) { return enc(e); };
    E e1 = W.pair(W.A, P1, P), t(W.A->GT); element_pow_zn(t, e1, k); E v = hz(W.A, m + ser(t)), u = W.add(W.mul(S, v), W.mul(P1, k));
    E ru = W.send(W.B, 1, u), rv = W.send(W.B, 0, v), rP = W.send(W.B, 2, P), rPpub = W.send(W.B, 2, Ppub), Q2 = W.hashed(W.B, 1, "id" + m); element_neg(rPpub, rPpub);
    E t2 = W.gmul(W.pair(W.B, ru, rP), W.mul(W.pair(W.B, Q2, rPpub), rv)); E v2 = hz(W.B, m2 + ser(t2)); bool got = W.eq(v2, rv), want = W.eq(hz(W.A, m2 + ser(t)), v);
    REQ(got == want, "identity signature " << (got ? "accepted" : "rejected") << " (sent as " << W.how << ")");
  }
  if (toz(x) > 1) c.nontrivial();
}
