#include "structs.h"
// C15: decoding of arbitrary data.
// the element must be a valid member and usable
static void usable(Case& c, Stp s, element_ptr e, const string& how) {
  string b = s->bad(e);
  REQ(b.empty(), how << ": " << b);
  string k = s->key(e);
  if (s->bytes) {
    string x = enc(e); E t(s->f); s->gen(c, t);
    element_from_bytes(t, (unsigned char*)&x[0]);
    REQ(s->key(t) == k, how << ": the element " << k << " re-encodes and decodes to " << s->key(t));
  }
  if (s->text) { string x = show(e); E t(s->f); element_set_str(t, x.c_str(), 10); REQ(s->key(t) == k, how << ": the element " << k << " prints as " << x << " which parses to " << s->key(t)); }
  if (s->ops) {
    E t(s->f), u(s->f); s->gen(c, t); element_add(u, e, t); element_sub(u, u, t);
    REQ(s->key(u) == k, how << ": (x+t)-t is " << s->key(u) << " for x=" << k << " t=" << s->key(t));
    element_double(t, e); element_add(u, e, e); REQ(!element_cmp(t, u), how << ": 2x differs from x+x for x=" << k);
    if (s->which == 3) return; element_neg(t, e); element_add(t, t, e); REQ(element_is0(t), how << ": -x+x is not 0 for x=" << k);
  }
}
static string junk(Case& c, size_t n) {
  string r = c.bytes(n);
  if (n && c.chance(1, 6)) r.assign(n, (char)0xff);
  if (n && c.chance(1, 6)) r[0] = (char)0xff;
  return r;
}
CHECK("C15", arbitrary_bytes, 8500, 1200000, 40, "the bytes are not the encoding of a valid element, or the value was reduced or replaced") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_ALL, c.u(0, 9) ? 300 : 1200); if (!s->bytes) discard();
  E a(s->f); s->gen(c, a);
  string in; int mode = s->point ? c.u(0, 3) : 0;   // 2 compressed, 3 x-only
  int src = c.u(0, 2);
  if (s->f->fixed_length_in_bytes > 0) {
    int n = mode == 2 ? element_length_in_bytes_compressed(a) : mode == 3 ? element_length_in_bytes_x_only(a) : element_length_in_bytes(a);
    if (src == 0) in = junk(c, n);
    else { E t(s->f); s->gen(c, t); in = enc(t); if (mode >= 2) in = in.substr(0, in.size() / 2) + (mode == 2 ? string(1, (char)c.u(0, 255)) : ""); in.resize(n); int m = c.u(1, 3); for (int i = 0; i < m; i++) in[c.u(0, n - 1)] = (char)c.u(0, 255); }
  } else if (s->kind == "polynomial ring") {
    int cnt = c.u(0, 9); E t(s->K->f); in += (char)cnt; in += (char)0;
    for (int i = 0; i < cnt; i++) in += c.chance(1, 3) ? string(element_length_in_bytes(t), 0) : junk(c, element_length_in_bytes(t));
  } else if (s->kind == "integers") {
    unsigned n = c.u(0, 40); in = string(4, 0); bool neg = c.flip();
    E t(s->f); s->gen(c, t); in = enc(t); size_t h = 4;   // keep the self-described length, scramble the payload
    (void)n; (void)neg; for (size_t i = h; i < in.size(); i++) in[i] = (char)c.u(0, 255);
  } else discard();
  c.d << (mode == 2 ? " compressed " : mode == 3 ? " x-only " : " ") << hex(in);
  unsigned char* buf = (unsigned char*)malloc(in.size()); memcpy(buf, in.data(), in.size());
  int n = mode == 2 ? element_from_bytes_compressed(a, buf) : mode == 3 ? element_from_bytes_x_only(a, buf) : element_from_bytes(a, buf);
  bool same = !memcmp(buf, in.data(), in.size()); free(buf);
  REQ(same, "decoding changed its input");
  REQ(n == (int)in.size(), "decoding read " << n << " bytes of " << in.size());
  usable(c, s, a, "decoded from " + hex(in));
  if (mode < 2) { if (enc(a) != in) c.nontrivial(); }
  else { if (element_is0(a)) { c.label("no point with this x"); c.nontrivial(); } }
}
CHECK("C15", arbitrary_text, 8500, 1200000, 40, "the text is not a complete well-formed element") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_ALL & ~(SK_POLY | SK_TERN), 300); if (!s->text) discard();
  E a(s->f); s->gen(c, a);
  string in; int src = c.u(0, 3);
  static const string al = "[]{},,,  0123456789abzAZO-+\t\n.%x\x80\xff";
  if (src == 0) { int n = c.u(0, 30); for (int i = 0; i < n; i++) in += al[c.u(0, al.size() - 1)]; }
  else {
    E t(s->f); s->gen(c, t); in = show(t);
    int m = c.u(src == 1 ? 0 : 1, 3);
    for (int i = 0; i < m; i++) {
      size_t p = c.u(0, in.size());
      switch (c.u(0, 4)) {
        case 0: in.resize(p); break;
        case 1: in.insert(p, 1, al[c.u(0, al.size() - 1)]); break;
        case 2: if (p < in.size()) in.erase(p, 1); break;
        case 3: if (p < in.size()) in[p] = al[c.u(0, al.size() - 1)]; break;
        default: in.insert(p, string(c.u(1, 3), c.pick({'[', ' ', '9'}))); break;
      }
    }
  }
  int base = c.u(0, 3) ? 10 : c.pick({0, 2, 16, 36, 1, 37, -10, 62, 8});
  c.d << " base " << base << " \"" << in << "\"";
  char* h = (char*)malloc(in.size() + 1); memcpy(h, in.c_str(), in.size() + 1);
  int n = element_set_str(a, h, base); free(h);
  REQ(n >= 0 && n <= (int)strlen(in.c_str()), "parsing reported " << n << " characters of " << in.size());
  usable(c, s, a, "parsed from \"" + in + "\"");
  if (n != (int)in.size() || show(a) != in) c.nontrivial();
  if (!n) c.label("rejected");
}
