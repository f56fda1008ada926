#include "structs.h"
// C14: text output, parsing and formatted printing.
static string text_of(element_ptr e, int base) {
  size_t n = 0; string r = capture_file([&](FILE* f) { n = element_out_str(f, base, e); });
  REQ(n == r.size(), "printing reported " << n << " characters but produced " << r.size() << " (" << r << ")");
  return r;
}
static string strip(const string& s) { string r; for (char ch : s) if (!isspace((unsigned char)ch) && ch != '(' && ch != ')') r += ch; return r; }
// text of an expected value: digits and brackets only
static void bounded(const std::function<int(char*, size_t)>& pr, const string& full, size_t n) {
  const int G = 24; vector<char> buf(n + G, 0x5A);
  int r = pr(buf.data(), n);
  REQ(r == (int)full.size(), "bounded printing into " << n << " bytes returned " << r << ", full length is " << full.size());
  for (int i = 0; i < G; i++) REQ(buf[n + i] == 0x5A, "bounded printing wrote past the size " << n);
  if (!n) return;
  size_t k = std::min(n - 1, full.size());
  REQ(!memcmp(buf.data(), full.data(), k) && buf[k] == 0, "bounded printing into " << n << " bytes gave \"" << string(buf.data(), strnlen(buf.data(), n)) << "\" which is not the prefix of \"" << full << "\"");
}
CHECK("C14", text_roundtrip, 14000, 1200000, 40, "the element is neither zero nor one") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_ALL & ~SK_TERN, c.u(0, 9) ? 300 : 1200);
  if (s->G && s->G->fam == 'i' && s->which) discard();
  E a(s->f), b(s->f); s->gen(c, a); s->gen(c, b);
  string ka = s->key(a); c.d << " " << ka;
  int base = c.u(0, 2) ? 10 : (int)c.u(2, 36); c.d << " base " << base;
  string t = text_of(a, base);
  REQ(s->key(a) == ka, "printing changed the element");
  if (s->text) {
    string tail = c.pick({string(), string(")"), string(";x"), string("#1"), string("?")});
    string in = t + tail; char* h = (char*)malloc(in.size() + 1); memcpy(h, in.c_str(), in.size() + 1);
    int n = element_set_str(b, h, base);
    bool same = in == h; free(h);
    REQ(same, "parsing changed its input");
    REQ(n == (int)t.size(), "parsing \"" << in << "\" consumed " << n << " characters of " << t.size());
    REQ(s->key(b) == ka && !element_cmp(a, b), "\"" << t << "\" in base " << base << " parsed to " << s->key(b));
    REQ(text_of(b, base) == t, "equal elements print differently");
    if (base == 10 && c.flip()) { E d(s->f); n = element_set_str(d, t.c_str(), 0); REQ(n == (int)t.size() && s->key(d) == ka, "base 0 does not read decimal text"); }
    c.label(base == 10 ? "decimal" : "other base");
  } else if (base == 10) REQ(strip(t) == strip(ka), "printed as " << t << ", value is " << ka);
  string full = base == 10 ? t : text_of(a, 10);
  REQ(text_of(a, 0) == full, "base 0 does not print decimal");
  auto sn = [&](char* p, size_t n) { return element_snprint(p, n, a); };
  bounded(sn, full, full.size() + 1 + c.u(0, 3));
  for (int k = 0; k < 4; k++) bounded(sn, full, c.u(0, std::min<size_t>(full.size() + 1, k < 2 ? full.size() + 1 : 8)));
  if (c.chance(1, 8)) {  // the description of the structure names its size when it is a prime field
    string d1 = capture_file([&](FILE* f) { field_out_info(f, s->f); }), d2 = capture_file([&](FILE* f) { field_out_info(f, s->f); });
    REQ(!d1.empty() && d1 == d2, "descriptions \"" << d1 << "\" and \"" << d2 << "\"");
    if (s->kind == "prime field") REQ(d1.find(str(s->size)) != string::npos, "description \"" << d1 << "\" of the field of order " << s->size);
    c.label("description");
  }
  if (!element_is0(a) && !element_is1(a)) c.nontrivial();
}
CHECK("C14", formatted_printing, 9000, 800000, 60, "the format holds an element conversion and another piece") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_PRIME | SK_EXT | SK_Z | SK_POLY | SK_CURVE | SK_PAIR, 200);
  if (s->G && s->G->fam == 'i' && s->which) discard();
  int n = c.u(0, 6), na = 0; string fmt, want; uint64_t arg[6] = {0, 0, 0, 0, 0, 0};
  vector<std::shared_ptr<E>> es; vector<std::shared_ptr<Z>> zs; vector<std::shared_ptr<string>> ss; bool el = false, other = false;
  for (int i = 0; i < n; i++) {
    int k = c.u(0, 7);
    switch (k) {
      case 0: case 1: { auto e = std::make_shared<E>(s->f); s->gen(c, *e); es.push_back(e); arg[na++] = (uint64_t)(element_ptr)*e; fmt += "%B"; want += text_of(*e, 10); el = true; break; }
      case 2: { string l; int m = c.u(1, 5); for (int j = 0; j < m; j++) l += c.pick({'a', ' ', 'B', '[', '\n', '7', ',', 'Z'}); fmt += l; want += l; other = true; break; }
      case 3: fmt += "%%"; want += "%"; other = true; c.label("percent sign"); break;
      case 4: { int v = (int)c.u(0, 4000) - 2000; arg[na++] = (uint64_t)(int64_t)v; char b[40]; const char* f = c.pick({"%d", "%5d", "%-6d", "%+d", "%03d", "%x"}); snprintf(b, 40, f, v); fmt += f; want += b; other = true; break; }
      case 5: { auto z = std::make_shared<Z>(c.bits(c.u(0, 200))); if (c.flip()) *z = -*z; zs.push_back(z); arg[na++] = (uint64_t)mp(*z); char b[200]; const char* f = c.pick({"%Zd", "%Zx", "%10Zd", "%ZX"}); gmp_snprintf(b, 200, f, mp(*z)); fmt += f; want += b; other = true; break; }
      case 6: { auto t = std::make_shared<string>(c.pick({string(""), string("xyz"), string("%B"), string("a%%b")})); ss.push_back(t); arg[na++] = (uint64_t)t->c_str(); fmt += "%s"; want += *t; other = true; break; }
      default: { long v = (long)c.raw() >> c.u(1, 40); arg[na++] = (uint64_t)v; fmt += "%ld"; want += std::to_string(v); other = true; }
    }
  }
  c.d << " format \"" << fmt << "\"";
  int r = 0;
  string got = capture_file([&](FILE* f) { r = element_fprintf(f, fmt.c_str(), arg[0], arg[1], arg[2], arg[3], arg[4], arg[5]); });
  REQ(got == want, "element_fprintf printed \"" << got << "\" instead of \"" << want << "\"");
  REQ(r == (int)want.size(), "element_fprintf returned " << r << " for " << want.size() << " characters");
  auto sn = [&](char* p, size_t m) { return element_snprintf(p, m, fmt.c_str(), arg[0], arg[1], arg[2], arg[3], arg[4], arg[5]); };
  if (want.size()) {
    bounded(sn, want, want.size() + 1 + c.u(0, 3));
    for (int k = 0; k < 3; k++) bounded(sn, want, c.u(0, want.size() + 1));
  }
  if (el && other) c.nontrivial();
}
