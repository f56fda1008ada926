#include "structs.h"
// C13: binary encodings.
CHECK("C13", bytes_roundtrip, 10000, 1500000, 40, "the element is neither zero nor one") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_ALL, c.u(0, 9) ? 300 : 1200); if (!s->bytes) discard();
  E a(s->f), b(s->f); s->gen(c, a); s->gen(c, b);
  if (s->kind == "polynomial ring" && c.chance(1, 5)) {   // many coefficients
    E t(poly_base_field(a)); element_set1(t);
    for (int i = 0; i < 3; i++) poly_set_coeff(a, t, i ? c.u(0, 2000) : c.pick({255u, 256u, 511u, 512u, 767u, 1024u}) + c.u(0, 1));
    c.label("polynomial with over 255 coefficients");
  }
  if (s->kind == "integers" && c.chance(1, 60)) { Z v = (Z(1) << (524264 + c.u(0, 40))) + c.bits(c.u(1, 64)); if (c.flip()) v = -v; element_set_mpz(a, mp(v)); c.label("integer of about 65535 bytes"); }
  string ka = s->key(a); c.d << " " << (ka.size() > 5000 ? ka.substr(0, 100) + "..." : ka);
  string e = enc(a);
  REQ(s->key(a) == ka, "encoding changed the element");
  int fixed = s->f->fixed_length_in_bytes;
  if (fixed > 0) REQ((int)e.size() == fixed && element_length_in_bytes(b) == fixed, "length " << e.size() << " but fixed length is " << fixed);
  if (s->G) { pairing_ptr p = s->G->p; int l = s->which == 0 ? pairing_length_in_bytes_Zr(p) : s->which == 1 ? pairing_length_in_bytes_G1(p) : s->which == 2 ? pairing_length_in_bytes_G2(p) : pairing_length_in_bytes_GT(p); REQ(l == (int)e.size(), "pairing_length_in_bytes says " << l << ", encoding has " << e.size()); }
  // exact-size heap buffer: reads past the end are seen by the sanitizer
  unsigned char* buf = (unsigned char*)malloc(e.size() ? e.size() : 1); memcpy(buf, e.data(), e.size());
  int n = element_from_bytes(b, buf);
  bool same = !memcmp(buf, e.data(), e.size()); free(buf);
  REQ(n == (int)e.size(), "decoding read " << n << " bytes of " << e.size());
  REQ(same, "decoding changed its input");
  REQ(s->key(b) == ka, "decoded " << s->key(b) << " instead of " << ka << " from " << hex(e));
  REQ(!element_cmp(a, b), "decoded element compares different");
  REQ(enc(b) == e, "equal elements have different encodings " << hex(e) << " and " << hex(enc(b)));
  // the same value reached by arithmetic has the same encoding
  if (s->ops) { E t(s->f), u(s->f); s->gen(c, t); element_add(u, a, t); element_sub(u, u, t); REQ(s->key(u) == ka, "a+t-t is not a"); REQ(enc(u) == e, "the same value reached by arithmetic is encoded as " << hex(enc(u)) << " instead of " << hex(e)); }
  if (!element_is0(a) && !element_is1(a)) c.nontrivial();
  if (element_is0(a)) c.label("zero / identity");
}
CHECK("C13", compressed_points, 3500, 500000, 30, "the point is not the identity and y is not zero") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_CURVE | SK_PAIR, c.u(0, 9) ? 300 : 1200); if (!s->point) discard();
  E a(s->f), b(s->f); s->gen(c, a); s->gen(c, b); if (element_is0(a)) discard();
  string ka = s->key(a); c.d << " " << ka;
  const int G = 16;
  for (int mode = 0; mode < 2; mode++) {
    int n = mode ? element_length_in_bytes_x_only(a) : element_length_in_bytes_compressed(a);
    REQ(n > 0 && n <= element_length_in_bytes(a), "advertised length " << n);
    vector<unsigned char> buf(n + 2 * G, 0x5A);
    int w = mode ? element_to_bytes_x_only(&buf[G], a) : element_to_bytes_compressed(&buf[G], a);
    REQ(w == n, "wrote " << w << " bytes, advertised " << n);
    for (int i = 0; i < G; i++) REQ(buf[i] == 0x5A && buf[G + n + i] == 0x5A, "wrote outside the advertised length");
    if (s->G) { pairing_ptr p = s->G->p; int l = s->which == 1 ? (mode ? pairing_length_in_bytes_x_only_G1(p) : pairing_length_in_bytes_compressed_G1(p)) : (mode ? pairing_length_in_bytes_x_only_G2(p) : pairing_length_in_bytes_compressed_G2(p)); REQ(l == n, "pairing_length says " << l << ", actual " << n); }
    unsigned char* x = (unsigned char*)malloc(n); memcpy(x, &buf[G], n);
    int r = mode ? element_from_bytes_x_only(b, x) : element_from_bytes_compressed(b, x);
    free(x);
    REQ(r == n, "read " << r << " bytes of " << n);
    E neg(s->f); element_neg(neg, a);
    if (!mode) REQ(s->key(b) == ka, "compressed form of " << ka << " decoded to " << s->key(b));
    else REQ(s->key(b) == ka || s->key(b) == s->key(neg), "x-only form of " << ka << " decoded to " << s->key(b));
    REQ(s->bad(b).empty(), s->bad(b));
    s->gen(c, b);
  }
  E neg(s->f); element_neg(neg, a); if (s->key(neg) != ka) c.nontrivial();
}
