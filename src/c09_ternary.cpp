#include "ternary.h"
// C09: fields of characteristic three against polynomial arithmetic mod 3.
static const unsigned known_tri[][2] = {{97, 12}, {97, 16}, {199, 164}, {235, 26}, {385, 22}, {337, 30}, {373, 198}, {395, 338}, {433, 120}, {467, 48}, {503, 104}, {509, 358}, {617, 88}};
void gen_mt(Case& c, unsigned& m, unsigned& t) {
  // irreducible trinomials x^m + x^t + 2
  static const unsigned tri[][2] = {{2,1},{3,2},{4,1},{4,2},{4,3},{5,4},{6,1},{6,5},{7,2},{8,2},{8,3},{8,4},{9,4},{11,2},{11,8},{12,2},{12,10},{13,4},{13,6},{13,12},{14,1},{14,13},{15,2},{15,8},{16,4},{16,6},{16,7},{17,16},{18,7},{18,11},{19,2},{19,8},{20,5},{20,15},{21,16},{22,5},{22,17},{23,8},{23,18},{23,20},{24,4},{24,20},{25,6},{25,22},{26,7},{26,19},{27,20},{28,2},{28,13},{28,15},{29,4},{30,1},{30,29},{31,20},{31,26},{32,5},{32,8},{32,12},{33,28},{35,2},{35,18},{36,14},{36,22},{37,6},{37,12},{37,22},{39,26},{39,32},{40,1},{40,3},{40,10},{63,26},{64,3},{64,10},{64,16},{71,20},{73,30},{73,54},{73,70}};
  if (c.chance(1, 6)) { auto& x = known_tri[c.chance(3, 4) ? c.u(0, 1) : c.u(0, 12)]; m = x[0]; t = x[1]; return; }
  auto& x = tri[c.u(0, sizeof tri / sizeof *tri - 1)]; m = x[0]; t = x[1];
}
V get3(element_ptr e, const RF& k) {
  if (!k.base->base) {
    string s = enc(e); V v; 
    for (size_t i = 0; i < s.size() * 4; i++) {
      size_t w = i / 64, j = (i % 64) / 8; unsigned a = ((unsigned char)s[16 * w + 2 * j] >> (i % 8)) & 1, b = ((unsigned char)s[16 * w + 2 * j + 1] >> (i % 8)) & 1;
      REQ(!(a && b), "coefficient " << i << " is both 1 and 2");
      if (i < k.n()) v.c.push_back(V(Z(a ? 1 : b ? 2 : 0))); else REQ(!a && !b, "coefficient of x^" << i << " present in a field of degree " << k.n());
    }
    return v;
  }
  V v; for (size_t i = 0; i < k.n(); i++) v.c.push_back(get3(element_item(e, i), *k.base)); return v;
}
void put3(element_ptr e, const RF& k, const V& v) {
  if (!k.base->base) {
    string s(element_length_in_bytes(e), 0);
    for (size_t i = 0; i < k.n(); i++) if (v.c[i].v != 0) { size_t w = i / 64, j = (i % 64) / 8; s[16 * w + 2 * j + (v.c[i].v == 2)] |= 1 << (i % 8); }
    int n = element_from_bytes(e, (unsigned char*)&s[0]); REQ(n == (int)s.size(), "from_bytes read " << n); return;
  }
  for (size_t i = 0; i < k.n(); i++) put3(element_item(e, i), *k.base, v.c[i]);
}
V gen3(Case& c, const RF& k) {
  V v = k.zero();
  if (!k.base->base) {
    switch (c.u(0, 8)) {
      case 0: return v;
      case 1: return k.one();
      case 2: return k.neg(k.one());
      case 3: v.c[c.u(0, k.n() - 1)] = V(Z(c.u(1, 2))); return v;
      case 4: for (auto& x : v.c) x = V(Z(2)); return v;
      case 5: for (size_t i = k.n() - std::min<size_t>(k.n(), 5); i < k.n(); i++) v.c[i] = V(Z(c.u(0, 2))); return v;
      default: for (size_t i = 0; i < k.n();) { uint64_t w = c.u(0, ~0ull); for (int j = 0; j < 20 && i < k.n(); j++, i++, w /= 3) v.c[i] = V(Z((unsigned long)(w % 3))); } return v;
    }
  }
  bool sparse = c.chance(1, 3);
  for (auto& x : v.c) if (!sparse || c.flip()) x = gen3(c, *k.base);
  return v;
}
static string v3(const V& v) { if (!v.c.empty() && v.c[0].c.empty()) { string s; for (auto& x : v.c) s += char('0' + x.v.get_ui()); return s; } string s = "["; for (auto& x : v.c) s += v3(x) + " "; return s + "]"; }
CHECK("C09", ternary_ops, 12000, 1000000, 50, "an operation with at least one operand outside {0,1,2}") {
  unsigned m, t; gen_mt(c, m, t);
  T3 T(m, t);
  int lev = c.u(0, 3); field_ptr f = lev == 0 ? T.f3 : lev == 1 ? T.f32 : lev == 2 ? T.f33 : T.f36; const RF& k = *(lev == 0 ? T.r3 : lev == 1 ? T.r32 : lev == 2 ? T.r33 : T.r36);
  const char* ln[] = {"GF(3^m)", "GF(3^2m)", "GF(3^3m)", "GF(3^6m)"};
  c.d << ln[lev] << " m=" << m << " t=" << t << ":";
  c.label(ln[lev]); c.label(m < 20 ? "m<20" : m <= 65 ? "m<=65" : m == 97 ? "m=97" : "m>97");
  REQ(Z(f->order) == k.q, "field order");
  E a(f), b(f), r(f); put3(r, k, gen3(c, k));
  auto chk = [&](element_ptr e, const V& w, const string& what) { V g = get3(e, k); REQ(g == w, what << " gave " << v3(g) << ", expected " << v3(w)); };
  int steps = m > 100 ? 1 : c.u(1, 5);
  for (int s = 0; s < steps; s++) {
    V va = gen3(c, k), vb = c.chance(1, 6) ? va : c.chance(1, 6) ? k.neg(va) : gen3(c, k);
    put3(a, k, va); put3(b, k, vb); chk(a, va, "decode/encode");
    int op = c.u(0, 13), al = c.u(0, 5); element_ptr dst = r, x = a, y = b;
    if (al == 1) dst = a; else if (al == 2) dst = b; else if (al == 3) { y = a; vb = va; } else if (al == 4) { y = a; dst = a; vb = va; }
    V w; string d;
    switch (op) {
      case 0: d = "add"; element_add(dst, x, y); w = k.add(va, vb); break;
      case 1: d = "sub"; element_sub(dst, x, y); w = k.sub(va, vb); break;
      case 2: case 3: d = "mul"; element_mul(dst, x, y); w = k.mul(va, vb); break;
      case 4: d = "square"; element_square(dst, x); w = k.mul(va, va); break;
      case 5: d = "cube"; element_cubic(dst, x); w = k.mul(k.mul(va, va), va); break;
      case 6: if (lev == 2 || lev == 3) { element_set0(dst); continue; } d = "neg"; element_neg(dst, x); w = k.neg(va); break;
      case 7: d = "double"; element_double(dst, x); w = k.add(va, va); break;
      case 8: if (((lev & 1) && m % 2 == 0) || (lev >= 2 && m % 3 == 0) || k.is0(va)) continue; d = "invert"; element_invert(dst, x); w = k.inv(va); break;
      case 9: if (((lev & 1) && m % 2 == 0) || (lev >= 2 && m % 3 == 0) || k.is0(vb)) continue; d = "div"; element_div(dst, x, y); w = k.mul(va, k.inv(vb)); break;
      case 10: { Z e = m > 100 || lev ? Z(c.u(0, 40)) : c.exponent(k.q - 1); d = "pow " + str(e); element_pow_mpz(dst, x, mp(e)); w = k.pow(va, e); break; }
      case 11: d = "set"; element_set(dst, x); w = va; break;
      case 12: if (c.flip()) { d = "set0"; element_set0(dst); w = k.zero(); } else { d = "set1"; element_set1(dst); w = k.one(); } break;
      default: {  // square root of a square; offered for odd degree, where -1 is no square
        if (lev || m % 2 == 0 || m > 100) continue;
        V sq = k.mul(va, va); put3(a, k, sq); va = sq; if (y == x) vb = sq; d = "sqrt"; element_sqrt(dst, x); V g = get3(dst, k); REQ(k.mul(g, g) == sq, "sqrt(" << v3(sq) << ") gave " << v3(g)); w = g;
      }
    }
    c.d << " " << d << "(" << v3(va) << "," << v3(vb) << ") al" << al; c.label(d.substr(0, 4));
    chk(dst, w, d); if (dst != x) chk(x, va, d + " changed its first operand:"); if (dst != y) chk(y, vb, d + " changed its second operand:");
    E z(f); put3(z, k, w); REQ(!element_cmp(z, dst) && !element_cmp(dst, z), "cmp of equals");
    V o = gen3(c, k); put3(z, k, o); REQ(!element_cmp(z, dst) == (o == w), "cmp " << v3(o) << " " << v3(w));
    REQ(!!element_is0(dst) == k.is0(w) && !!element_is1(dst) == k.is1(w), "is0/is1 of " << v3(w));
    if (va != k.zero() && va != k.one() && op < 11) c.nontrivial();
  }
}
// every pair of elements of the smallest fields
CHECK("C09", ternary_small, 6, 24, 1, "every pair of elements of a small field") {
  static const unsigned mt[][2] = {{2, 1}, {3, 1}, {4, 1}, {5, 1}, {3, 2}, {5, 4}};
  unsigned m = mt[c.index % 6][0], t = mt[c.index % 6][1]; c.u(0, 1000000);
  T3 T(m, t); const RF& k = *T.r3; { P p(m + 1, V(Z(0))); p[0] = V(Z(2)); p[t] = V(Z(1)); p[m] = V(Z(1)); if (!pirred(*k.base, p)) discard(); }
  c.d << "all pairs in GF(3^" << m << ") t=" << t; c.nontrivial();
  unsigned n = k.q.get_ui(); auto el = [&](unsigned i) { V v = k.zero(); for (auto& x : v.c) { x = V(Z(i % 3)); i /= 3; } return v; };
  E a(T.f3), b(T.f3), r(T.f3);
  for (unsigned i = 0; i < n; i++) { V va = el(i); put3(a, k, va);
    element_cubic(r, a); REQ(get3(r, k) == k.mul(va, k.mul(va, va)), "cube " << v3(va));
    if (i) { element_invert(r, a); REQ(get3(r, k) == k.inv(va), "invert " << v3(va)); }
    for (unsigned j = 0; j < n; j++) { V vb = el(j); put3(b, k, vb);
      element_add(r, a, b); REQ(get3(r, k) == k.add(va, vb), "add"); element_sub(r, a, b); REQ(get3(r, k) == k.sub(va, vb), "sub"); element_mul(r, a, b); REQ(get3(r, k) == k.mul(va, vb), "mul " << v3(va) << " " << v3(vb)); REQ(!element_cmp(a, b) == (i == j), "cmp"); } }
}
