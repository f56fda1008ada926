#include "pairings.h"
#include <climits>
#include "ternary.h"
// C11: every exponentiation route against an independent reference power.
// Structures are wrapped so that the same property runs over all of them.
struct S {
  field_ptr f; string desc; bool mulgroup = true; bool pp = true;
  std::function<void(Case&, element_ptr)> gen;                       // edge-biased element
  std::function<string(element_ptr)> key;                            // canonical value
  std::function<string(const vector<std::pair<string, Z>>&)> ref;    // product of powers, from keys
  Z order; vector<std::shared_ptr<void>> keep;
};
static string kv(const V& v) { return vs(v); }
static std::shared_ptr<S> field_s_(Fldp F) {
  auto s = std::make_shared<S>(); s->f = F->f; s->desc = F->desc; s->order = F->r->q - 1; s->keep.push_back(F);
  auto memo = std::make_shared<std::map<string, V>>(); 
  s->gen = [F](Case& c, element_ptr e) { put(e, *F, F->r->rnd(c)); };
  s->key = [F, memo](element_ptr e) { V v = get(e, *F); string k = kv(v); (*memo)[k] = v; return k; };
  s->ref = [F, memo](const vector<std::pair<string, Z>>& l) { V r = F->r->one(); for (auto& x : l) r = F->r->mul(r, F->r->pow(memo->at(x.first), x.second)); return kv(r); };
  return s;
}
static std::shared_ptr<S> curve_s_(Case& c) {
  Cvp C = gen_curve(c); auto s = std::make_shared<S>(); s->f = C->f; s->desc = C->desc; s->order = C->N != 0 ? C->N : C->order; s->keep.push_back(C);
  auto memo = std::make_shared<std::map<string, Pt>>(); Cv* p = C.get();
  s->gen = [p](Case& c, element_ptr e) { putpt(c, e, *p, gen_pt(c, *p)); };
  s->key = [p, memo](element_ptr e) { Pt v = getpt(e, *p->K); string k = pts(v); (*memo)[k] = v; return k; };
  s->ref = [p, memo](const vector<std::pair<string, Z>>& l) { Pt r; for (auto& x : l) r = p->R.add(r, p->R.mul(memo->at(x.first), x.second)); return pts(r); };
  return s;
}
static std::shared_ptr<S> z_s_() {
  auto s = std::make_shared<S>(); static field_t zf; static bool init = false; if (!init) { field_init_z(zf); init = true; }
  s->f = zf; s->desc = "Z"; s->order = 1000;
  s->gen = [](Case& c, element_ptr e) { Z v = c.exponent(1000); v %= (Z(1) << 40); if (c.flip()) v = -v; element_set_mpz(e, mp(v)); };
  s->key = [](element_ptr e) { return str(toz(e)); };
  s->ref = [](const vector<std::pair<string, Z>>& l) { Z r = 1; for (auto& x : l) { Z t; mpz_pow_ui(mp(t), Z(x.first).get_mpz_t(), x.second.get_ui()); r *= t; } return str(r); };
  return s;
}
// groups of pairings and ternary fields: repeated multiplication is done with element_mul
static std::shared_ptr<S> lib_s_(field_ptr f, const string& desc, const Z& order, std::shared_ptr<void> keep, std::function<void(Case&, element_ptr)> gen) {
  auto s = std::make_shared<S>(); s->f = f; s->desc = desc; s->order = order; s->keep.push_back(keep); s->mulgroup = false; s->gen = gen;
  struct Hold { std::shared_ptr<void> keep; std::map<string, E> m; }; auto hold = std::make_shared<Hold>(); hold->keep = keep; std::shared_ptr<std::map<string, E>> memo(hold, &hold->m);
  s->key = [memo](element_ptr e) { string k = gkey(e); if (!memo->count(k)) { E x(e->field); element_set(x, e); memo->emplace(k, x); } return k; };
  s->ref = [memo, f](const vector<std::pair<string, Z>>& l) {
    E r(f), t(f), acc(f), u(f); element_set1(r);
    for (auto& x : l) { element_set1(acc); Z n = x.second; E& b = memo->at(x.first); for (size_t i = mpz_sizeinbase(mp(n), 2); i-- > 0;) { element_mul(u, acc, acc); element_set(acc, u); if (mpz_tstbit(mp(n), i)) { element_mul(u, acc, b); element_set(acc, u); } } element_mul(t, r, acc); element_set(r, t); }
    return gkey(r); };
  return s;
}
static std::shared_ptr<S> pairing_s_(Case& c) {
  Pgp G = load_pairing(c, "", 170); int w = c.pick({1, 2, 3, 3, 3}); Pg* p = G.get();
  field_ptr f = w == 1 ? G->p->G1 : w == 2 ? G->p->G2 : G->p->GT;
  return lib_s_(f, G->name + (w == 1 ? " G1" : w == 2 ? " G2" : " GT"), G->r, G, [p, w](Case& c, element_ptr e) { gen_elt(c, *p, w, e); });
}
static std::shared_ptr<S> ternary_s_(Case& c) {
  unsigned m, t; do gen_mt(c, m, t); while (m > 100); auto T = std::make_shared<T3>(m, t); int w = c.u(0, m % 3 && m % 2 ? 3 : 0);
  field_ptr f = w == 0 ? T->f3 : w == 1 ? T->f32 : w == 2 ? T->f33 : T->f36; RFp r = w == 0 ? T->r3 : w == 1 ? T->r32 : w == 2 ? T->r33 : T->r36;
  auto s = lib_s_(f, "GF(3^" + std::to_string(m) + ")" + (w ? " extension " + std::to_string(w) : ""), r->q - 1, T, [r](Case& c, element_ptr e) { put3(e, *r, gen3(c, *r)); });
  s->mulgroup = true; return s;
}
static std::shared_ptr<S> gen_s(Case& c, bool& small) {
  int k = c.u(0, 11); std::shared_ptr<S> s;
  if (k == 10) s = pairing_s_(c);
  else if (k == 11) s = ternary_s_(c);
  else if (k < 4) s = field_s_(gen_prime_field(c, c.flip() ? 64 : 260));
  else if (k < 7) s = field_s_(gen_ext_field(c, c.u(0, 3) ? 20 : 80, c.u(0, 3) ? 1 : 2));
  else if (k < 9) { s = curve_s_(c); s->mulgroup = false; }
  else s = z_s_();
  small = mpz_sizeinbase(mp(s->order), 2) < 90;
  return s;
}
static const char* cls(const S& s) { return s.desc == "Z" ? "Z" : s.desc.compare(0, 2, "GF") == 0 ? "ternary" : s.mulgroup ? "field" : s.desc.size() > 3 && (s.desc.find(" G1") != string::npos || s.desc.find(" G2") != string::npos || s.desc.find(" GT") != string::npos) ? "pairing group" : "curve"; }
static Z gen_exp(Case& c, const S& s, bool small) {
  if (s.desc == "Z") return Z((long)c.pick({0u, 1u, 2u, 3u, 5u, 31u, 32u, 33u, 64u, 100u}));
  int k = c.u(0, 7);
  if (k == 0) { unsigned b = c.pick({46u, 47u, 48u, 156u, 157u, 158u, 473u, 474u, 475u, 1323u, 1324u, 1325u, 3529u, 3530u, 9065u, 9066u}); if (!small && b > 500) b = 475; if (b > 1325 && mpz_sizeinbase(mp(s.order), 2) > 20) b = 1325; return c.bits(b) | (Z(1) << (b - 1)); }
  if (k == 1) { Z z = 0; int n = c.u(1, 5); for (int i = 0; i < n; i++) mpz_setbit(mp(z), c.u(0, small ? 300 : 170)); return z; }
  if (k == 2) { Z z = (Z(1) << c.u(0, 200)); return z - 1; }
  return c.exponent(s.order);
}
CHECK("C11", pow_routes, 14000, 1000000, 50, "an exponent above 1 applied to an element other than 0 and 1") {
  c.seed_lib();
  bool small; auto s = gen_s(c, small);
  c.d << s->desc << ":";
  E a(s->f), b(s->f), d(s->f), r(s->f);
  s->gen(c, a); s->gen(c, b); s->gen(c, d); s->gen(c, r);
  string ka = s->key(a), kb = s->key(b), kd = s->key(d);
  Z n1 = gen_exp(c, *s, small), n2 = gen_exp(c, *s, small), n3 = gen_exp(c, *s, small);
  if (c.chance(1, 4)) n2 = 0; if (c.chance(1, 6)) n1 = 0;
  int route = c.u(0, 8); if (s->desc.compare(0, 2, "GF") == 0 && route >= 6) route = c.u(0, 5); element_ptr o = r; int al = c.u(0, 4); if (al == 1) o = a; else if (al == 2 && route >= 2 && route < 6) o = b; else if (al == 3 && route >= 4 && route < 6) o = d;
  string got, want; Z m = n1; for (auto& x : {n2, n3}) if (x > m) m = x; m += 1; if (m < 2) m = 2;
  field_t R; bool ring = false; struct Cl { field_ptr f; bool* on; ~Cl() { if (*on) field_clear(f); } } cl{R, &ring};
  if (route & 1) { field_init_fp(R, mp(m)); ring = true; }
  auto zn = [&](const Z& n) { E x(R); Z t = n; element_set_mpz(x, mp(t)); return x; };
  const char* nm[] = {"pow_mpz", "pow_zn", "pow2_mpz", "pow2_zn", "pow3_mpz", "pow3_zn", "mul_mpz", "mul_zn", "mul_si"}; if (route == 8) { n1 &= Z(LONG_MAX); if (c.chance(1, 3)) n1 %= 40; } bool neg = (route == 8 || (route == 6 && c.chance(1, 4))) && c.flip();
  // negative exponents: powers of the inverse
  bool sg[3] = {}; if (route < 5 && !(route & 1) && s->desc != "Z" && c.chance(1, 4)) { element_ptr e[3] = {a, b, d}; for (int i = 0; i < 3; i++) sg[i] = c.flip() && !(s->mulgroup && element_is0(e[i])); }
  auto inv = [&](const string& k, element_ptr e, bool on) { if (!on) return k; E t(s->f); element_invert(t, e); return s->key(t); };
  string ia = inv(ka, a, sg[0]), ib = inv(kb, b, sg[1]), id = inv(kd, d, sg[2]); Z m1 = sg[0] ? Z(-n1) : n1, m2 = sg[1] ? Z(-n2) : n2, m3 = sg[2] ? Z(-n3) : n3; neg = neg || sg[0]; if (sg[0] || sg[1] || sg[2]) c.label("negative exponent");
  c.d << " " << nm[route] << " " << ka << "^" << (neg ? "-" : "") << n1; if (route >= 2 && route < 6) c.d << " * " << kb << "^" << m2; if (route == 4 || route == 5) c.d << " * " << kd << "^" << m3; if (al) c.d << " aliased " << al;
  switch (route) {
    case 0: element_pow_mpz(o, a, mp(m1)); want = s->ref({{ia, n1}}); break;
    case 1: { E x = zn(n1); element_pow_zn(o, a, x); want = s->ref({{ka, n1}}); break; }
    case 2: element_pow2_mpz(o, a, mp(m1), b, mp(m2)); want = s->ref({{ia, n1}, {ib, n2}}); break;
    case 3: { E x = zn(n1), y = zn(n2); element_pow2_zn(o, a, x, b, y); want = s->ref({{ka, n1}, {kb, n2}}); break; }
    case 4: element_pow3_mpz(o, a, mp(m1), b, mp(m2), d, mp(m3)); want = s->ref({{ia, n1}, {ib, n2}, {id, n3}}); break;
    case 5: { E x = zn(n1), y = zn(n2), z = zn(n3); element_pow3_zn(o, a, x, b, y, d, z); want = s->ref({{ka, n1}, {kb, n2}, {kd, n3}}); break; }
    default:
      if (s->mulgroup) { E w(s->f); element_set(w, a);  // scalar multiple in a ring = repeated addition
        E acc(s->f); element_set0(acc); Z n = n1; size_t k = mpz_sizeinbase(mp(n), 2); for (size_t i = k; i-- > 0;) { E t(s->f); element_add(t, acc, acc); element_set(acc, t); if (mpz_tstbit(mp(n), i)) { element_add(t, acc, w); element_set(acc, t); } }
        if (neg) { E t(s->f); element_set0(t); element_sub(acc, t, acc); }
        want = s->key(acc); }
      else if (neg) { E t(s->f), i(s->f); element_invert(i, a); want = s->ref({{s->key(i), n1}}); }
      else want = s->ref({{ka, n1}});
      if (route == 8) { long n = n1.get_si(); element_mul_si(o, a, neg ? -n : n); } else if (route == 6) { Z t = neg ? Z(-n1) : n1; element_mul_mpz(o, a, mp(t)); } else { E x = zn(n1); element_mul_zn(o, a, x); }
  }
  got = s->key(o);
  REQ(got == want, nm[route] << " gave " << got << ", expected " << want << " in " << s->desc);
  if (o != a) REQ(s->key(a) == ka, nm[route] << " changed its base"); if (o != b) REQ(s->key(b) == kb, nm[route] << " changed its second base"); if (o != d) REQ(s->key(d) == kd, nm[route] << " changed its third base");
  if (m > 2 && !element_is0(a) && !element_is1(a)) c.nontrivial(); else if (o == a && m > 2) c.nontrivial();
  c.label(nm[route]); c.label(cls(*s)); if (m > s->order) c.label("exponent above the order");
}
CHECK("C11", pow_preprocessed, 6000, 400000, 50, "a table used for two or more exponents above 1") {
  c.seed_lib();
  bool small; auto s = gen_s(c, small);
  if (mpz_sizeinbase(mp(s->order), 2) > 500) discard();
  E a(s->f), r(s->f); s->gen(c, a); string ka = s->key(a), ki, zero; E base(s->f), z0(s->f); element_set(base, a); element_set0(z0); zero = s->key(z0); if (s->desc != "Z" && !(s->mulgroup && ka == zero)) { E t(s->f); element_invert(t, a); ki = s->key(t); }
  c.d << s->desc << " table of " << ka << ":";
  element_pp_t pp; element_pp_init(pp, a);
  struct Cl { element_pp_t& p; ~Cl() { element_pp_clear(p); } } cl{pp};
  int n = c.u(1, 6), big = 0;
  for (int i = 0; i < n; i++) {
    if (c.flip()) { s->gen(c, a); c.d << " (base changed)"; }
    Z e = gen_exp(c, *s, small); if (c.chance(1, 4) && s->desc != "Z") e = s->order * Z((long)c.u(1, 3)) + Z((long)c.u(0, 5)) - 2; if (e < 0) e = 0;
    bool neg = s->desc != "Z" && c.chance(1, 8) && !(s->mulgroup && s->key(base) == zero); c.d << " ^" << (neg ? "-" : "") << e;
    element_ptr o = c.flip() ? (element_ptr)a : (element_ptr)r;
    Z t = neg ? Z(-e) : e; if (neg || c.flip()) element_pp_pow(o, mp(t), pp);
    else { Z m = e + 2; field_t R; field_init_fp(R, mp(m)); { E x(R); element_set_mpz(x, mp(e)); element_pp_pow_zn(o, x, pp); } field_clear(R); }
    string g = s->key(o), w = s->ref({{neg ? ki : ka, e}});
    REQ(g == w, "table power " << ka << "^" << t << " gave " << g << ", expected " << w << " in " << s->desc);
    if (e > 1) big++; if (e > s->order) c.label("exponent above the order");
  }
  if (big > 1) c.nontrivial(); c.label(cls(*s));
}
