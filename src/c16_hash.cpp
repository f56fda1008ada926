#include "structs.h"
// C16: hashing to elements.
static unsigned count_bytes(const Z& p) { return (mpz_sizeinbase(p.get_mpz_t(), 2) + 7) / 8; }
static string mulkey(Stp s, element_ptr e) { return s->key(e); }
static string gt_member(Stp s, element_ptr e) {   // order divides r in the pairing groups
  if (s->order != 0) { E t(s->f), o(s->f); element_mul_mpz(t, e, mp(s->order)); element_set0(o); return element_cmp(t, o) ? "the order " + str(s->order) + " does not annihilate " + s->key(e) : ""; }
  if (!s->G || s->which == 0) return "";
  E t(s->f); element_mul_mpz(t, e, mp(s->G->r)); if (s->which == 3) element_pow_mpz(t, e, mp(s->G->r));
  E o(s->f); if (s->which == 3) element_set1(o); else element_set0(o);   // asymmetric second groups compare as cosets
  if (element_cmp(t, o)) return "the group order does not annihilate " + s->key(e);
  if (s->which == 3 && s->key(e).find_first_of("123456789") == string::npos) return "zero is not in the target group";
  return "";
}
CHECK("C16", hash_deterministic, 6000, 600000, 40, "the structure has more than 2^16 elements") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_PRIME | SK_EXT | SK_Z | SK_CURVE | SK_PAIR, c.u(0, 9) ? 200 : 1200); if (!s->hash) discard();
  unsigned n = c.pick({0u, 1u, 2u, 3u, 7u, 20u, 32u, 64u, 200u}); if (c.flip()) n = c.u(1, 40); else if (c.chance(1, 12)) n = c.pick({127u, 128u, 255u, 256u, 257u, 1000u, 4096u, 65535u, 65536u, 70000u});
  string h = c.bytes(n); c.d << " hash of " << (n > 300 ? std::to_string(n) + " bytes " + hex(h.substr(0, 40)) : hex(h));
  E a(s->f), b(s->f); s->gen(c, b);
  char* buf = (char*)malloc(n ? n : 1); memcpy(buf, h.data(), n);
  element_from_hash(a, buf, n); string ka = s->key(a);
  string bad = s->bad(a) + gt_member(s, a); REQ(bad.empty(), "hash of " << hex(h) << ": " << bad);
  // other history, other random source, a destination holding something else
  if (c.flip()) { E t(s->f); element_random(t); element_add(b, b, t); }
  if (c.flip()) pbc_random_set_deterministic((unsigned)c.u(0, 1u << 30)); else c.seed_lib();
  element_from_hash(b, buf, n);
  REQ(!memcmp(buf, h.data(), n), "hashing changed its input"); free(buf);
  REQ(s->key(b) == ka && !element_cmp(a, b), "the same bytes hashed to " << ka << " and then to " << s->key(b));
  if (s->G && c.flip()) {   // a second instance from the same parameters agrees
    pairing_t q; int r = pairing_init_set_str(q, s->G->text.c_str()); REQ(!r, "parameters rejected");
    { E d(s->which == 0 ? q->Zr : s->which == 1 ? q->G1 : s->which == 2 ? q->G2 : q->GT); element_from_hash(d, &h[0], n);
      string x = s->key(d); if (s->bytes) REQ(enc(d) == enc(a), "another pairing with the same parameters hashes " << hex(h) << " to " << x << " instead of " << ka); }
    pairing_clear(q); c.label("second instance");
  }
  if (s->size == 0 || s->size > 65536) c.nontrivial();
}
CHECK("C16", hash_sensitive, 6000, 600000, 40, "two different inputs were compared") {
  c.seed_lib();
  Stp s;
  switch (c.u(0, 7)) {
    case 0: case 1: {
      static vector<ParamFile> big; if (big.empty()) for (auto& f : param_files()) if (f.fam != 'i' && f.fam != '1' && f.qbits > 110 && f.qbits < 700) { auto m = parse_params(f.text); if (m["r"] > (Z(1) << 80)) big.push_back(f); }
      s = st_pairing(make_pairing(c, big[c.u(0, big.size() - 1)]), c.u(0, 3)); c.d << s->desc << ":"; c.label(s->kind); break; }
    case 2: case 3: s = st_field(gen_prime_field(c, 400)); c.d << s->desc << ":"; break;
    case 4: s = st_field(gen_ext_field(c, 160, 2, 900)); c.d << s->desc << ":"; break;
    default: s = gen_struct(c, SK_Z | SK_CURVE, 300);
  }
  if (!s->hash) discard();
  unsigned cap;
  if (s->kind == "integers") cap = 40;
  else {
    Z p = s->K ? s->K->r->p : Z(0); if (p < (Z(1) << 100)) discard();
    if (s->G && (s->G->r < (Z(1) << 80) || !s->G->prime_r)) discard();
    cap = count_bytes(p) - 2;
  }
  unsigned n = c.u(1, cap); string x, y;
  for (unsigned i = 0; i < n; i++) x += (char)c.u(0, 255);
  y = x; string how;
  switch (c.u(0, 3)) {
    case 0: { unsigned i = c.u(0, n - 1); y[i] ^= (char)(1 << c.u(0, 7)); how = "one bit"; break; }
    case 1: { unsigned i = c.pick({0u, n - 1, n / 2}); y[i] += (char)c.u(1, 255); how = "one byte"; break; }
    case 2: if (n == cap) n = cap; else y += (char)c.u(1, 255); how = "longer"; break;
    default: for (auto& ch : y) ch = (char)c.u(0, 255); how = "other";
  }
  if (x == y) discard();
  if (s->kind == "integers") { auto val = [](const string& t) { size_t i = t.find_first_not_of('\0'); return i == string::npos ? string() : t.substr(i); }; if (val(x) == val(y)) discard(); }
  c.label(how); c.d << " " << hex(x) << " / " << hex(y);
  E a(s->f), b(s->f); element_from_hash(a, &x[0], x.size()); element_from_hash(b, &y[0], y.size());
  REQ(s->key(a) != s->key(b), "different inputs " << hex(x) << " and " << hex(y) << " both hash to " << s->key(a));
  c.nontrivial();
}
