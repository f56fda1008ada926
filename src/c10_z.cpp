#include "vp.h"
#include <climits>
// C10: the ring of integers and nested integer lists.
static Z gz(Case& c) { Z z; switch (c.u(0, 5)) { case 0: z = c.u(0, 3); break; case 1: z = Z(1) << c.u(0, 200); break; case 2: z = (Z(1) << c.u(0, 200)) - 1; break; case 3: z = c.bits(c.chance(1, 40) ? c.u(600, 6000) : c.u(1, 600)); break; case 4: { z = c.bits(c.u(1, 60)); z = z * z; break; } default: z = c.bits(c.u(1, 64)); } if (c.flip()) z = -z; return z; }
CHECK("C10", z_ops, 180000, 6000000, 300, "an operation on integers of which one is outside {-1,0,1}") {
  field_t f; field_init_z(f);
  struct Cl { field_ptr f; ~Cl() { field_clear(f); } } cl{f};
  E a(f), b(f), r(f); Z z0 = gz(c); element_set_mpz(r, mp(z0));
  int steps = c.u(1, 6); c.d << "Z:";
  for (int s = 0; s < steps; s++) {
    Z x = gz(c), y = c.chance(1, 6) ? x : c.chance(1, 6) ? Z(-x) : gz(c), w;
    element_set_mpz(a, mp(x)); element_set_mpz(b, mp(y));
    int op = c.u(0, 20), al = c.u(0, 5); element_ptr dst = r, p = a, q = b;
    if (al == 1) dst = a; else if (al == 2) dst = b; else if (al == 3) { q = a; y = x; } else if (al == 4) { q = a; dst = a; y = x; }
    string d;
    switch (op) {
      case 0: d = "add"; element_add(dst, p, q); w = x + y; break;
      case 1: d = "sub"; element_sub(dst, p, q); w = x - y; break;
      case 2: d = "mul"; element_mul(dst, p, q); w = x * y; break;
      case 3: d = "square"; element_square(dst, p); w = x * x; break;
      case 4: d = "double"; element_double(dst, p); w = 2 * x; break;
      case 5: if (c.flip()) x *= 2; element_set_mpz(p, mp(x)); if (q == p) y = x; d = "halve"; element_halve(dst, p); w = x / 2; break;
      case 6: d = "neg"; element_neg(dst, p); w = -x; break;
      case 7: if (y == 0) continue; if (q != p) { if (c.flip()) x *= y; if (c.chance(1, 4)) x += (long)c.u(0, 4) - 2; element_set_mpz(p, mp(x)); } d = "div"; element_div(dst, p, q); w = x / y; break;
      case 8: { Z e = c.u(0, 20); d = "pow " + str(e); element_pow_mpz(dst, p, mp(e)); mpz_pow_ui(mp(w), mp(x), e.get_ui()); break; }
      case 9: { Z e = gz(c); d = "mul_mpz " + str(e); element_mul_mpz(dst, p, mp(e)); w = x * e; break; }
      case 10: { long e = c.pick({0l, 1l, -1l, LONG_MAX, LONG_MIN, -5l}); if (c.flip()) e = c.u(0, ~0ull); d = "mul_si " + std::to_string(e); element_mul_si(dst, p, e); w = x * e; break; }
      case 11: { long e = c.pick({0l, 1l, -1l, LONG_MAX, LONG_MIN}); d = "set_si " + std::to_string(e); element_set_si(dst, e); w = e; break; }
      case 12: d = "set"; element_set(dst, p); w = x; break;
      case 13: d = "set1"; element_set1(dst); w = 1; break;
      case 14: d = "set0"; element_set0(dst); w = 0; break;
      case 15: { unsigned long e = c.u(0, ~0ull); d = "add_ui " + std::to_string(e); element_add_ui(dst, p, e); w = x + Z(e); break; }
      case 16: { x = x * x; element_set_mpz(p, mp(x)); if (q == p) y = x; REQ(element_is_sqr(p), "is_sqr(" << x << ")"); d = "sqrt"; element_sqrt(dst, p); mpz_sqrt(mp(w), mp(x)); break; }
      case 17: { d = "is_sqr"; Z t = c.flip() ? x * x * x : x; element_set_mpz(p, mp(t)); if (q == p) y = t; x = t; dst = p; w = x; bool want = x >= 0 && mpz_perfect_square_p(mp(x)); REQ(!!element_is_sqr(p) == want, "is_sqr(" << x << ") should be " << want); break; }
      case 18: if (abs(x) != 1) x = c.flip() ? 1 : -1; element_set_mpz(p, mp(x)); if (q == p) y = x; d = "invert unit"; element_invert(dst, p); w = x; break;
      case 19: { string t = str(x); int n = element_set_str(dst, t.c_str(), 10); d = "set_str"; REQ(n == (int)t.size(), "set_str consumed " << n << " of " << t); w = x; break; }
      default: { string s = enc(p); d = "bytes"; E t(f); string s2 = s; int n = element_from_bytes(t, (unsigned char*)&s2[0]); REQ(n == (int)s.size(), "from_bytes read " << n << " of " << s.size()); REQ(s2 == s, "from_bytes modified its input"); REQ(!element_cmp(t, p), "bytes round trip of " << x << " gave " << toz(t)); dst = p; w = x; }
    }
    c.d << " " << d << "(" << x << "," << y << ") al" << al; c.label(d.substr(0, d.find(' ')));
    Z g = toz(dst); REQ(g == w, d << "(" << x << "," << y << ") gave " << g << ", expected " << w);
    if (dst != p) REQ(toz(p) == x, d << " changed its first operand"); if (dst != q) REQ(toz(q) == y, d << " changed its second operand");
    int sg = element_sign(dst); REQ((sg > 0) == (w > 0) && (sg < 0) == (w < 0), "sign of " << w);
    REQ(!!element_is0(dst) == (w == 0) && !!element_is1(dst) == (w == 1), "is0/is1 of " << w);
    E t(f); Z o = c.flip() ? w : gz(c); element_set_mpz(t, mp(o)); int cc = element_cmp(dst, t); REQ((cc > 0) == (w > o) && (cc < 0) == (w < o), "cmp(" << w << "," << o << ")=" << cc);
    REQ(show(dst) == str(w), "text of " << w << " is " << show(dst));
    if (abs(x) > 1) c.nontrivial();
  }
}
// ---- nested lists: polynomials in several variables; an integer is a constant
struct Tree { bool leaf = true; Z z; vector<Tree> l; };
typedef std::map<vector<int>, Z> MP;
static void tomp(const Tree& t, vector<int> pre, MP& m) {
  if (t.leaf) { while (!pre.empty() && pre.back() == 0) pre.pop_back(); m[pre] += t.z; if (m[pre] == 0) m.erase(pre); return; }
  for (size_t i = 0; i < t.l.size(); i++) { auto q = pre; q.push_back(i); tomp(t.l[i], q, m); }
}
static MP madd(const MP& a, const MP& b, int s) { MP r = a; for (auto& x : b) { r[x.first] += s * x.second; if (r[x.first] == 0) r.erase(x.first); } return r; }
static MP mmul(const MP& a, const MP& b) {
  MP r; for (auto& x : a) for (auto& y : b) { vector<int> k = x.first; if (k.size() < y.first.size()) k.resize(y.first.size(), 0); for (size_t i = 0; i < y.first.size(); i++) k[i] += y.first[i]; r[k] += x.second * y.second; if (r[k] == 0) r.erase(k); }
  return r;
}
static Tree gt(Case& c, int depth) {
  Tree t;
  if (depth == 0 || c.chance(1, 3)) { t.z = c.chance(1, 6) ? gz(c) : Z((long)c.u(0, 20) - 10); return t; }
  t.leaf = false; int n = c.chance(1, 12) ? c.u(5, 20) : c.u(1, 4); for (int i = 0; i < n; i++) t.l.push_back(gt(c, depth - 1)); return t;
}
static string ts(const Tree& t) { if (t.leaf) return str(t.z); string s = "["; for (size_t i = 0; i < t.l.size(); i++) s += (i ? ", " : "") + ts(t.l[i]); return s + "]"; }
static element_ptr bld(const Tree& t, field_ptr f) {
  if (t.leaf) { element_ptr e = (element_ptr)pbc_malloc(sizeof(*e)); element_init(e, f); element_set_mpz(e, mp(t.z)); return e; }
  element_ptr l = nullptr;
  for (auto& x : t.l) { element_ptr e = bld(x, f); if (!l) l = multiz_new_list(e); else multiz_append(l, e); pbc_free(e); }
  return l;
}
static Tree readtree(multiz m) {
  Tree t; if (multiz_is_z(m)) { multiz_to_mpz(mp(t.z), m); return t; }
  t.leaf = false; for (int i = 0; i < multiz_count(m); i++) t.l.push_back(readtree(multiz_at(m, i))); return t;
}
static MP mp_of(const Tree& t) { MP m; tomp(t, {}, m); return m; }
CHECK("C10", multiz_ops, 120000, 3000000, 200, "an operation with at least one proper list") {
  field_t f; field_init_multiz(f); struct Cl { field_ptr f; ~Cl() { field_clear(f); } } cl{f};
  Tree ta = gt(c, 3), tb = c.chance(1, 5) ? ta : gt(c, 3);
  element_ptr a = bld(ta, f), b = bld(tb, f); E r(f);
  struct Fr { element_ptr a, b; ~Fr() { element_clear(a); element_clear(b); pbc_free(a); pbc_free(b); } } fr{a, b};
  MP ma = mp_of(ta), mb = mp_of(tb), w; string d; int op = c.u(0, 17), al = c.u(0, 4);
  element_ptr dst = r, p = a, q = b; if (al == 1) dst = a; else if (al == 2) dst = b; else if (al == 3) { q = a; tb = ta; mb = ma; } else if (al == 4) { q = a; dst = a; tb = ta; mb = ma; }
  c.d << "multiz op" << op << " " << ts(ta) << " , " << ts(tb) << " al" << al;
  REQ(show(a) == ts(ta), "text of " << ts(ta) << " is " << show(a));
  switch (op) {
    case 0: case 1: d = "add"; element_add(dst, p, q); w = madd(ma, mb, 1); break;
    case 2: case 3: d = "sub"; element_sub(dst, p, q); w = madd(ma, mb, -1); break;
    case 4: case 5: d = "mul"; element_mul(dst, p, q); w = mmul(ma, mb); break;
    case 6: d = "neg"; element_neg(dst, p); w = madd(MP(), ma, -1); break;
    case 7: { Z z = gz(c); d = "mul_mpz " + str(z); element_mul_mpz(dst, p, mp(z)); MP k; if (z != 0) k[{}] = z; w = mmul(ma, k); break; }
    case 8: { long z = (long)c.u(0, 40) - 20; if (c.chance(1, 3)) z = c.pick({LONG_MAX, LONG_MIN, 1l << 32, -(1l << 32)}); else if (c.chance(1, 3)) z = (long)c.u(0, ~0ull); d = "mul_si " + std::to_string(z); element_mul_si(dst, p, z); MP k; if (z) k[{}] = z; w = mmul(ma, k); break; }
    case 9: d = "set"; element_set(dst, p); w = ma; break;
    case 10: d = "double"; element_double(dst, p); w = madd(ma, ma, 1); break;
    case 11: { long z = c.flip() ? (long)c.u(0, ~0ull) : (long)c.u(0, 6) - 3; d = "set_si " + std::to_string(z); element_set_si(dst, z); w = MP(); if (z) w[{}] = z; break; }
    case 12: { Z z = gz(c); d = "set_mpz " + str(z); element_set_mpz(dst, mp(z)); w = MP(); if (z != 0) w[{}] = z; break; }
    case 13: d = "set0"; element_set0(dst); w = MP(); break;
    case 14: d = "set1"; element_set1(dst); w = MP(); w[{}] = 1; break;
    case 15: { unsigned n = c.u(0, 4); Z z = n; d = "pow " + std::to_string(n); if (ts(ta).size() > 120) discard(); element_pow_mpz(dst, p, mp(z)); w = MP(); w[{}] = 1; for (unsigned i = 0; i < n; i++) w = mmul(w, ma); break; }
    case 16: { unsigned long z = c.flip() ? c.u(0, ~0ull) : c.u(0, 5); d = "add_ui " + std::to_string(z); element_add_ui(dst, p, z); MP k; if (z) k[{}] = Z(z); w = madd(ma, k, 1); break; }
    default: { d = "square"; element_square(dst, p); w = mmul(ma, ma); }
  }
  c.label(d.substr(0, d.find(' '))); c.label(ta.leaf ? tb.leaf ? "int,int" : "int,list" : tb.leaf ? "list,int" : "list,list");
  Tree g = readtree((multiz)dst->data);
  REQ(mp_of(g) == w, d << " of " << ts(ta) << " and " << ts(tb) << " gave " << ts(g));
  if (g.leaf) { REQ(!!element_is0(dst) == (g.z == 0) && !!element_is1(dst) == (g.z == 1), "is0/is1 of " << g.z); int sg = element_sign(dst); REQ((sg > 0) == (g.z > 0) && (sg < 0) == (g.z < 0), "sign of " << g.z); REQ(toz(dst) == g.z, "to_mpz"); if (tb.leaf && dst != q) { int cc = element_cmp(dst, q); REQ((cc > 0) == (g.z > tb.z) && (cc < 0) == (g.z < tb.z), "cmp(" << g.z << "," << tb.z << ")=" << cc); } }
  else { REQ(element_item_count(dst) == (int)g.l.size(), "item_count"); }
  if (dst != p) REQ(ts(readtree((multiz)p->data)) == ts(ta), d << " changed its first operand"); if (dst != q) REQ(ts(readtree((multiz)q->data)) == ts(tb), d << " changed its second operand");
  REQ(!element_cmp(dst, dst), "cmp with itself"); E s(f); element_set(s, dst); REQ(ts(readtree((multiz)((element_ptr)s)->data)) == ts(g) && !element_cmp(s, dst), "copy"); 
  if (!ta.leaf || !tb.leaf) c.nontrivial();
}
