#include "structs.h"
static string field_bad(const Fld& F, const V& v) {
  if (F.kind == Fld::PRIME) return v.v >= 0 && v.v < F.r->p ? "" : "value " + str(v.v) + " not below the modulus " + str(F.r->p);
  for (auto& x : v.c) { string s = field_bad(*F.base, x); if (!s.empty()) return s; }
  return "";
}
Stp st_field(Fldp F) {
  auto s = std::make_shared<St>(); s->f = F->f; s->desc = F->desc; s->kind = F->kind == Fld::PRIME ? "prime field" : "extension field"; s->keep.push_back(F); s->K = F; s->size = F->r->q; s->uniform = true;
  Fld* p = F.get();
  s->gen = [p](Case& c, element_ptr e) { put(e, *p, p->r->rnd(c)); };
  s->key = [p](element_ptr e) { return vs(get(e, *p)); };
  s->bad = [p](element_ptr e) { return field_bad(*p, get(e, *p)); };
  return s;
}
static void point_fns(Stp s, Fldp K, RC R) {
  s->K = K; s->R = R; s->point = true; s->kind = "curve"; Fld* k = K.get();
  s->key = [k](element_ptr e) { return pts(getpt(e, *k)); };
  s->bad = [k, R](element_ptr e) -> string {
    Pt p = getpt(e, *k); if (p.inf) return "";
    string b = field_bad(*k, p.x) + field_bad(*k, p.y); if (!b.empty()) return b;
    return R.on(p) ? "" : "point " + pts(p) + " is not on the curve";
  };
}
Stp st_curve(Cvp C) {
  auto s = std::make_shared<St>(); s->f = C->f; s->desc = C->desc; s->keep.push_back(C); s->hash = C->hash_ok; s->size = 0; if (C->N != 0) s->order = C->order;
  point_fns(s, C->K, C->R); Cv* p = C.get();
  s->gen = [p](Case& c, element_ptr e) { putpt(c, e, *p, gen_pt(c, *p)); };
  return s;
}
Stp st_pairing(Pgp G, int which) {
  auto s = std::make_shared<St>(); s->G = G; s->which = which; s->keep.push_back(G);
  static const char* n[] = {"Zr", "G1", "G2", "GT"};
  s->f = which == 0 ? G->p->Zr : which == 1 ? G->p->G1 : which == 2 ? G->p->G2 : G->p->GT;
  s->desc = G->name + " " + n[which]; s->kind = string("pairing ") + n[which];
  Pg* p = G.get();
  s->gen = [p, which](Case& c, element_ptr e) { gen_elt(c, *p, which, e); };
  if (which == 0) {
    auto F = std::make_shared<Fld>(); F->own = false; F->r = rf_prime(G->r); s->K = F; s->size = G->r; s->uniform = true;
    Fld* k = F.get();
    s->key = [k](element_ptr e) { return vs(get(e, *k)); };
    s->bad = [k](element_ptr e) { return field_bad(*k, get(e, *k)); };
  } else if (G->fam == 'i') {
    s->bytes = s->text = s->hash = false; s->key = gkey; s->bad = [](element_ptr) { return string(); };
  } else if (which == 3) {
    Fldp K = G->Fqk; s->K = K; Fld* k = K.get();
    s->key = [k](element_ptr e) { return vs(get(e, *k)); };
    s->bad = [k](element_ptr e) { return field_bad(*k, get(e, *k)); };
  } else { string kd = s->kind; point_fns(s, which == 1 ? G->Fq : G->Fqd, which == 1 ? G->E1 : G->E2); s->kind = kd; s->hash = G->q > (Z(1) << 40); }
  return s;
}
static Stp st_z() {
  auto s = std::make_shared<St>(); static field_t zf; static bool init = false; if (!init) { field_init_z(zf); init = true; }
  s->f = zf; s->desc = "Z"; s->kind = "integers";
  s->gen = [](Case& c, element_ptr e) { Z v; switch (c.u(0, 4)) { case 0: v = c.u(0, 300); break; case 1: v = (Z(1) << c.u(0, 260)) - (long)c.u(0, 1); break; case 2: if (c.chance(1, 12)) { v = c.bits(c.u(300, 5000)); break; } [[fallthrough]]; default: v = c.bits(c.u(1, 300)); } if (c.flip()) v = -v; element_set_mpz(e, mp(v)); };
  s->key = [](element_ptr e) { return str(toz(e)); };
  s->bad = [](element_ptr) { return string(); };
  return s;
}
static Stp st_poly(Case& c) {
  auto s = std::make_shared<St>(); Fldp B = c.chance(1, 6) ? gen_ext_field(c, 40, 1) : gen_prime_field(c, 200); auto R = std::make_shared<Ring>(B);
  s->f = R->f; s->desc = B->desc + "[x]"; s->kind = "polynomial ring"; s->keep = {R, B}; s->K = B; Fld* b = B.get();
  s->text = false; s->hash = false;  // no parser
  s->gen = [b](Case& c, element_ptr e) { putp(e, *b, gen_poly(c, *b->r, c.chance(1, 20) ? 300 : 8)); };
  s->key = [b](element_ptr e) { return ps(getp(e, *b)); };
  s->bad = [b](element_ptr e) -> string { P p = getp(e, *b); for (auto& x : p) { string t = field_bad(*b, x); if (!t.empty()) return t; } return p.empty() || !b->r->is0(p.back()) ? "" : "leading coefficient is zero"; };
  return s;
}
static Stp st_tern(Case& c) {
  auto s = std::make_shared<St>(); unsigned m, t; gen_mt(c, m, t); auto T = std::make_shared<T3>(m, t);
  int w = c.u(0, 3); if (w == 1 && m % 2 == 0) w = 0; if (w == 2 && m % 3 == 0) w = 0; if (w == 3 && (m % 2 == 0 || m % 3 == 0)) w = 0;
  RFp r = w == 0 ? T->r3 : w == 1 ? T->r32 : w == 2 ? T->r33 : T->r36;
  s->f = w == 0 ? T->f3 : w == 1 ? T->f32 : w == 2 ? T->f33 : T->f36;
  s->keep = {T}; s->desc = "GF(3^" + std::to_string(m * (w == 0 ? 1 : w == 1 ? 2 : w == 2 ? 3 : 6)) + ") by x^" + std::to_string(m) + "+x^" + std::to_string(t) + "+2"; s->kind = "ternary field";
  s->text = s->hash = false; s->bytes = w == 0; s->ops = w < 2; s->tern = r; s->tlev = w; s->tm = m; s->size = r->q; s->uniform = true;
  s->gen = [r](Case& c, element_ptr e) { put3(e, *r, gen3(c, *r)); };
  s->key = [r](element_ptr e) { return vs(get3(e, *r)); };
  s->bad = [r](element_ptr e) { get3(e, *r); return string(); };
  return s;
}
Stp gen_struct(Case& c, int kinds, unsigned maxbits) {
  vector<int> l;
  auto addk = [&](int k, int w) { if (kinds & k) for (int i = 0; i < w; i++) l.push_back(k); };
  addk(SK_PRIME, 4); addk(SK_EXT, 4); addk(SK_Z, 1); addk(SK_POLY, 2); addk(SK_CURVE, 4); addk(SK_TERN, 1); addk(SK_PAIR, 4);
  Stp s;
  switch (l[c.u(0, l.size() - 1)]) {
    case SK_PRIME: s = st_field(gen_prime_field(c, c.flip() ? 70 : maxbits)); break;
    case SK_EXT: s = st_field(gen_ext_field(c, c.u(0, 3) ? 20 : std::min(maxbits, 160u), c.u(0, 3) ? 1 : 2, 500)); break;
    case SK_Z: s = st_z(); break;
    case SK_POLY: s = st_poly(c); break;
    case SK_CURVE: s = st_curve(gen_curve(c)); break;
    case SK_TERN: s = st_tern(c); break;
    default: s = st_pairing(load_pairing(c, "", c.chance(1, 12) ? maxbits : 70), (kinds & ~(SK_CURVE | SK_PAIR)) ? c.u(0, 3) : c.u(1, 2));
  }
  c.d << s->desc << ":"; c.label(s->kind);
  return s;
}
