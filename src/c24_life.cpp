#include <algorithm>
#include <array>
#include <memory>
#include "pairings.h"
#include "alloc.h"
extern "C" {
#include <pbc_curve.h>
#include <pbc_mnt.h>
}
// C24: life cycles.
namespace {
enum { FIELD, RING, GROUP, MULT };
struct Node { field_t f; int cls = FIELD; bool bytes = true, text = true, hash = true, sq = true, cl = true, div = true, inv = true, rnd = true; string d; vector<std::shared_ptr<Node>> dep; ~Node() { if (cl) field_clear(f); } };
typedef std::shared_ptr<Node> Np;
struct PN { pairing_t p; ~PN() { pairing_clear(p); } };
typedef std::shared_ptr<PN> PNp;
struct El { Np n; PNp p; int which = -1; std::unique_ptr<E> e; int cls; field_ptr f; bool bytes, text, hash, sq, div, inv, rnd; };
typedef std::shared_ptr<El> Elp;
const char* PRIMES[] = {"7", "11", "13", "101", "1009", "65537", "4294967291", "18446744073709551557", "18446744073709551629", "340282366920938463463374607431768211297", "1267650600228229401496703205653", "115792089237316195423570985008687907853269984665640564039457584007908834671663"};
Np raw_fp(Case& c) {
  auto n = std::make_shared<Node>(); n->cl = false; mpz_t p; const char* s = PRIMES[c.u(0, 11)]; mpz_init_set_str(p, s, 10);
  switch (c.u(0, 4)) { case 0: field_init_fp(n->f, p); break; case 1: field_init_naive_fp(n->f, p); break; case 2: field_init_mont_fp(n->f, p); break; case 3: if (strlen(s) >= 20) { field_init_fast_fp(n->f, p); break; } default: if (strlen(s) >= 20) field_init_faster_fp(n->f, p); else field_init_fp(n->f, p); }
  n->cl = true; mpz_clear(p); n->d = string("F_") + s; return n;
}
Np raw_node(Case& c, const vector<Np>& have, int depth = 0) {
  auto fieldnode = [&]() -> Np { vector<Np> l; for (auto& h : have) if (h->cls == FIELD && h->sq && mpz_sizeinbase(h->f->order, 2) < 300) l.push_back(h); if (l.size() && c.u(0, 2)) return l[c.u(0, l.size() - 1)]; return raw_fp(c); };
  auto n = std::make_shared<Node>(); n->cl = false;
  switch (c.u(0, 9)) {
    case 0: case 1: return raw_fp(c);
    case 2: { Np b = fieldnode(); field_init_quadratic(n->f, b->f); n->dep = {b}; n->d = "quadratic over " + b->d; break; }
    case 3: { Np b = raw_fp(c); if (mpz_fdiv_ui(b->f->order, 4) != 3) return b; field_init_fi(n->f, b->f); n->dep = {b}; n->d = "fi over " + b->d; break; }
    case 4: { Np b = fieldnode(); int deg = c.u(2, 4); if (mpz_sizeinbase(b->f->order, 2) > 70) deg = 2; auto r = std::make_shared<Node>(); r->dep = {b}; field_init_poly(r->f, b->f); { E q(r->f); do poly_random_monic(q, deg); while (!poly_is_irred(q)); field_init_polymod(n->f, q); } n->dep = {r, b}; n->d = "degree " + std::to_string(deg) + " over " + b->d; break; }
    case 5: { Np b = fieldnode(); field_init_poly(n->f, b->f); n->dep = {b}; n->cls = RING; n->sq = n->hash = n->div = false; n->inv = n->rnd = false; n->d = "polynomials over " + b->d; break; }
    case 6: { field_init_z(n->f); n->cls = RING; n->sq = n->hash = n->div = n->inv = n->rnd = false; n->d = "Z"; break; }
    case 7: { Np b = fieldnode(); if (mpz_cmp_ui(b->f->order, 10000) < 0) b = raw_fp(c); if (mpz_cmp_ui(b->f->order, 10000) < 0) return b;
      E a(b->f), d(b->f); mpz_t o; mpz_init(o); mpz_set(o, b->f->order); mpz_t h; mpz_init_set_ui(h, c.u(1, 3)); bool co = c.flip();
      switch (c.u(0, 2)) { case 0: element_random(a); element_random(d); field_init_curve_ab(n->f, a, d, o, co ? h : nullptr); break; case 1: element_set_si(d, 3 + c.u(0, 9)); field_init_curve_b(n->f, d, o, co ? h : nullptr); break; default: do element_random(a); while (element_is0(a)); field_init_curve_j(n->f, a, o, co ? h : nullptr); if (c.chance(1, 3)) field_reinit_curve_twist(n->f); }
      if (c.chance(1, 4)) field_curve_set_quotient_cmp(n->f, o);
      mpz_clear(o); mpz_clear(h); n->dep = {b}; n->cls = GROUP; n->sq = false; n->d = "curve over " + b->d; break; }
    case 8: { unsigned m = c.pick({5u, 7u, 11u, 97u}), t = m == 5 ? 1 : m == 7 ? 2 : m == 11 ? 2 : 12; field_init_gf3m(n->f, m, t); n->sq = n->hash = n->text = false; n->d = "GF(3^" + std::to_string(m) + ")";
      int w = c.u(0, 2); if (w) { n->cl = true; auto k = std::make_shared<Node>(); k->cl = false; if (w == 1) field_init_gf32m(k->f, n->f); else field_init_gf33m(k->f, n->f); k->dep = {n}; k->sq = k->hash = k->text = k->bytes = false; k->inv = w == 1; k->div = false; k->d = n->d + "^" + std::to_string(w + 1); n = k; } break; }
    default: { field_init_multiz(n->f); n->cls = RING; n->bytes = n->sq = n->hash = n->text = n->div = n->inv = n->rnd = false; n->d = "lists"; break; }
  }
  n->cl = true; return n;
}
Elp mk(Np n) { auto e = std::make_shared<El>(); e->n = n; e->f = n->f; e->cls = n->cls; e->bytes = n->bytes; e->text = n->text; e->hash = n->hash; e->sq = n->sq; e->div = n->div; e->inv = n->inv; e->rnd = n->rnd; e->e.reset(new E(n->f)); return e; }
Elp mk(PNp p, int w, bool typei) { auto e = std::make_shared<El>(); e->p = p; e->which = w; e->f = w == 0 ? p->p->Zr : w == 1 ? p->p->G1 : w == 2 ? p->p->G2 : p->p->GT; e->cls = w == 0 ? FIELD : w == 3 ? MULT : GROUP; e->bytes = !typei || w == 0; e->text = !typei || w == 0; e->hash = w == 0; e->sq = w == 0; e->div = e->inv = e->rnd = true; e->e.reset(new E(e->f)); return e; }
}
static string small_params(Case& c, bool& ti) {
  auto& all = param_files(); static vector<const ParamFile*> l; if (l.empty()) for (auto& f : all) if (f.qbits <= 90 || f.name == "i-11") l.push_back(&f);
  const ParamFile* f = c.chance(1, 40) ? &all[c.u(0, all.size() - 1)] : l[c.u(0, l.size() - 1)]; ti = f->fam == 'i'; c.label(string("family ") + f->fam); c.d << " [" << f->name << "]"; return f->text;
}
static void use(Case& c, Elp x, Elp y, Elp z) {   // x := something of y and z, all in the same structure
  E &a = *x->e, &b = *y->e, &d = *z->e; Z k = c.exponent(c.bits(c.u(1, 80)) + 1);
  switch (c.u(0, 15)) {
    case 0: element_add(a, b, d); break;
    case 1: element_sub(a, b, d); break;
    case 2: if (x->f->mul && x->cls != GROUP) element_mul(a, b, d); else element_double(a, b); break;
    case 3: if (x->inv && !element_is0(b)) element_invert(a, b); else element_set(a, b); break;
    case 4: if (x->f->neg) element_neg(a, b); else element_sub(a, b, d); break;
    case 5: if (x->cls == RING) element_mul_si(a, b, (long)c.u(0, 20) - 10); else element_pow_mpz(a, b, mp(k)); break;
    case 6: if (x->div && !element_is0(d)) element_div(a, b, d); break;
    case 7: if (x->sq) { element_square(a, b); if (element_is_sqr(a)) element_sqrt(a, a); element_is_sqr(d); } break;
    case 8: if (x->bytes) { string s = enc(b); element_from_bytes(a, (unsigned char*)s.data()); if (c.flip() && x->cls != RING && x->cls != MULT) { s = c.bytes(s.size()); element_from_bytes(a, (unsigned char*)s.data()); } } break;
    case 9: if (x->text) { char buf[5000]; int n = element_snprint(buf, sizeof buf, b); if (n < 4999) element_set_str(a, buf, 10); if (c.chance(1, 3) && x->cls != MULT) element_set_str(a, c.pick<const char*>({"", "[", "[1", "[1,2]", "7", "x", "[[1,2],3]", "O", "[1, 2, 3, 4]"}), 10); show(a); } break;
    case 10: if (x->hash) { string h = c.bytes(c.u(1, 60)); element_from_hash(a, (void*)h.data(), h.size()); } break;
    case 11: if (x->rnd) element_random(a); break;
    case 12: if (x->cls != RING) { element_pp_t pp; element_pp_init(pp, b); int n = c.u(0, 3); for (int i = 0; i < n; i++) { Z e = c.exponent(c.bits(60) + 1); element_pp_pow(a, mp(e), pp); } element_pp_clear(pp); } break;
    case 13: if (x->cls != RING) { Z l = c.bits(20); if (c.flip()) element_pow2_mpz(a, b, mp(k), d, mp(l)); else element_pow3_mpz(a, b, mp(k), d, mp(l), d, mp(k)); } break;
    case 14: { element_ptr t = element_new(x->f); element_set(t, b); element_add(t, t, d); element_set(a, t); element_free(t); element_cmp(a, b); if (x->cls != GROUP || x->bytes) element_is1(a); element_is0(a); if (x->sq) element_sign(a); break; }
    default: { if ((!x->text && x->cls == FIELD) || x->cls == MULT) { if (x->f->cubic) element_cubic(a, b); break; } element_set_si(a, (long)c.u(0, 9) - 4); if (x->cls == GROUP) element_set0(a); element_t v[2], w[2]; for (int i = 0; i < 2; i++) { element_init(v[i], x->f); element_init(w[i], x->f); element_set(v[i], b); element_set(w[i], d); } if (x->cls == GROUP && x->bytes) { element_multi_double(v, v, 2); element_multi_add(v, v, w, 2); } element_set(a, v[0]); for (int i = 0; i < 2; i++) { element_clear(v[i]); element_clear(w[i]); } }
  }
}
static int cm_grab(pbc_cm_ptr cm, void* d) { pbc_cm_ptr* p = (pbc_cm_ptr*)d; mpz_set((*p)->q, cm->q); mpz_set((*p)->n, cm->n); mpz_set((*p)->h, cm->h); mpz_set((*p)->r, cm->r); (*p)->D = cm->D; (*p)->k = cm->k; return 1; }
static void param_cycle(Case& c) {   // parameter objects, generators, CM data
  pbc_param_t par; int w = c.u(0, 7); bool have = true;
  switch (w) {
    case 0: srand(c.u(0, 1000)); pbc_param_init_a_gen(par, c.u(12, 24), c.u(40, 60)); break;
    case 1: { Z n = c.u(11, 5000); pbc_param_init_a1_gen(par, mp(n)); break; }
    case 2: pbc_param_init_f_gen(par, c.u(18, 40)); break;
    case 3: pbc_param_init_i_gen(par, c.pick({100, 200, 250, 300})); break;
    case 4: case 5: { pbc_cm_t cm; pbc_cm_init(cm); pbc_cm_ptr pc = cm; if (w == 4 ? pbc_cm_search_d(cm_grab, &pc, c.pick({9563u, 2003u, 1883u, 14123u, 4947u}), 300) : pbc_cm_search_g(cm_grab, &pc, c.pick({35707u, 43u, 723u}), 400)) { if (mpz_sizeinbase(cm->q, 2) < 210 && cm->D < 20000) { if (w == 4) pbc_param_init_d_gen(par, cm); else pbc_param_init_g_gen(par, cm); } else have = false; } else have = false; pbc_cm_clear(cm); break; }
    case 6: { mpz_t* co; int D = c.pick({3, 4, 7, 8, 11, 15, 20, 23, 31, 47, 71}); int n = pbc_hilbert(&co, D); pbc_hilbert_free(co, n); have = false; break; }
    default: { srand(c.u(0, 1000)); pbc_param_init_e_gen(par, c.u(8, 12), c.u(30, 40)); }
  }
  static const char* N[] = {"gen a", "gen a1", "gen f", "gen i", "gen d", "gen g", "hilbert", "gen e"}; c.label(N[w]); c.d << " " << N[w];
  if (have) { string t = capture_file([&](FILE* f) { pbc_param_out_str(f, par); }); if (w != 3 && w != 5 && c.flip()) { pairing_t p; pairing_init_pbc_param(p, par); pairing_clear(p); } pbc_param_clear(par); }
}
static void life(Case& c, int steps, bool gens) {
  vector<Np> nodes; vector<std::pair<PNp, bool>> prs; vector<Elp> els;
  struct PP { PNp p; pairing_pp_t pp; bool live = false; ~PP() { if (live) pairing_pp_clear(pp); } };
  vector<std::unique_ptr<PP>> pps;
  auto same = [&](Elp x) { vector<Elp> l; for (auto& e : els) if (e->f == x->f) l.push_back(e); return l[c.u(0, l.size() - 1)]; };
  for (int s = 0; s < steps; s++) {
    int op = c.u(0, 19);
    if (op == 0 && nodes.size() < 6) { nodes.push_back(raw_node(c, nodes)); c.d << " new(" << nodes.back()->d << ")"; }
    else if (op == 1 && prs.size() < 3) {
      bool ti; string t = small_params(c, ti); auto p = std::make_shared<PN>();
      if (c.flip()) { if (pairing_init_set_str(p->p, t.c_str())) fail("parameters rejected"); }
      else { pbc_param_t par; if (pbc_param_init_set_buf(par, t.data(), t.size())) fail("parameters rejected"); pairing_init_pbc_param(p->p, par); pbc_param_clear(par); }
      prs.push_back({p, ti});
    } else if (op <= 5) {
      if (prs.size() && c.flip()) { auto& p = prs[c.u(0, prs.size() - 1)]; els.push_back(mk(p.first, c.u(0, 3), p.second)); element_random(*els.back()->e); }
      else if (nodes.size()) { els.push_back(mk(nodes[c.u(0, nodes.size() - 1)])); if (els.back()->rnd) element_random(*els.back()->e); else element_set_si(*els.back()->e, (long)c.u(0, 40) - 20); }
    } else if (op == 6 && els.size()) { els.erase(els.begin() + c.u(0, els.size() - 1)); c.d << " drop"; }
    else if (op == 7 && c.flip()) { if (nodes.size() && c.flip()) nodes.erase(nodes.begin() + c.u(0, nodes.size() - 1)); else if (prs.size()) prs.erase(prs.begin() + c.u(0, prs.size() - 1)); else if (pps.size()) pps.erase(pps.begin()); c.d << " forget"; }
    else if (op == 8 && prs.size()) {   // pairing and product of pairings
      auto& p = prs[c.u(0, prs.size() - 1)]; E t(p.first->p->GT); element_t a[3], b[3]; int n = c.u(1, 3);
      for (int i = 0; i < n; i++) { element_init_G1(a[i], p.first->p); element_init_G2(b[i], p.first->p); element_random(a[i]); if (c.u(0, 5)) element_random(b[i]); }
      element_pairing(t, a[0], b[0]); if (c.flip()) element_prod_pairing(t, a, b, n); if (n > 1 && c.flip()) is_almost_coddh(a[0], a[1], b[0], b[1], p.first->p);
      for (int i = 0; i < n; i++) { element_clear(a[i]); element_clear(b[i]); } c.d << " pair";
    } else if (op == 9 && prs.size()) {
      auto& p = prs[c.u(0, prs.size() - 1)]; std::unique_ptr<PP> q(new PP); q->p = p.first; E a(p.first->p->G1); element_random(a); if (c.chance(1, 8)) element_set0(a); pairing_pp_init(q->pp, a, p.first->p); q->live = true; pps.push_back(std::move(q)); c.d << " pp";
    } else if (op == 10 && pps.size()) { auto& q = pps[c.u(0, pps.size() - 1)]; E b(q->p->p->G2), t(q->p->p->GT); element_random(b); pairing_pp_apply(t, b, q->pp); c.d << " apply"; }
    else if (op == 11 && pps.size() && c.flip()) { pps.erase(pps.begin() + c.u(0, pps.size() - 1)); c.d << " ppclear"; }
    else if (op == 12 && prs.size() && c.flip()) { auto& p = prs[c.u(0, prs.size() - 1)]; pairing_option_set(p.first->p, (char*)"method", (char*)c.pick<const char*>({"miller", "miller-affine", "shipsey-stange", "nonsense"})); c.d << " method"; }
    else if (op == 13 && gens && c.chance(1, 4)) param_cycle(c);
    else if (els.size()) { Elp x = els[c.u(0, els.size() - 1)]; use(c, x, same(x), same(x)); c.d << "."; }
  }
  // release what is left, in a generated order
  while (els.size() + nodes.size() + prs.size() + pps.size()) {
    int k = c.u(0, 3);
    if (k == 0 && els.size()) els.erase(els.begin() + c.u(0, els.size() - 1));
    else if (k == 1 && nodes.size()) nodes.erase(nodes.begin() + c.u(0, nodes.size() - 1));
    else if (k == 2 && prs.size()) prs.erase(prs.begin() + c.u(0, prs.size() - 1));
    else if (k == 3 && pps.size()) pps.erase(pps.begin() + c.u(0, pps.size() - 1));
    else if (els.size()) els.pop_back(); else if (pps.size()) pps.pop_back(); else if (prs.size()) prs.pop_back(); else nodes.pop_back();
  }
}
CHECK("C24", life_cycle, 1100, 200000, 20, "at least ten steps") {
  c.seed_lib(); pbc_set_msg_to_stderr(0);
  { bool t; Case d(1); small_params(d, t); }   // warm the harness's own caches
  int n = c.u(1, c.pick({8u, 30u, 80u})); if (n >= 10) c.nontrivial();
  if (c.chance(1, 5)) { life(c, n, true); c.label("default allocator"); return; }
  AllocTrack A; life(c, n, true); A.balanced("after clearing everything");
}
// Objects and helpers outside the histories above: everything is returned.
CHECK("C24", helpers_release, 3000, 200000, 60, "the helper did its work on proper values") {
  c.seed_lib(); pbc_set_msg_to_stderr(0); int w = c.u(0, 4);
  { bool t; Case d(1); small_params(d, t); }
  AllocTrack A; {
    Z p = nextprime(c.bits(c.u(4, w == 1 ? 10 : 60)) + 4); field_t F; 
    if (c.flip()) field_init_naive_fp(F, mp(p)); else field_init_fp(F, mp(p));
    struct Cl { field_ptr f; ~Cl() { field_clear(f); } } cl{F};
    if (w == 0) {          // nodal curve
      field_t S; field_init_curve_singular_with_node(S, F); Cl cs{S}; E a(S), b(S); element_random(a); element_random(b); c.d << "nodal curve mod " << p;
      for (int i = 0, n = c.u(1, 12); i < n; i++) switch (c.u(0, 9)) {
        case 0: element_add(a, a, b); break; case 1: element_sub(b, a, b); break; case 2: element_double(a, b); break; case 3: element_neg(b, b); break;
        case 4: { Z e = c.exponent(p); element_mul_mpz(a, b, mp(e)); break; } case 5: element_random(a); break; case 6: element_set0(b); break; case 7: element_cmp(a, b); break;
        case 8: { E t(S); element_set(t, a); capture_file([&](FILE* f) { element_out_str(f, 10, t); }); break; } default: element_add(a, a, a); }
      c.nontrivial(); c.label("nodal curve");
    } else if (w == 1) {   // discrete logarithms
      Z r = p - 1; field_t R; field_init_naive_fp(R, mp(r)); Cl cr{R}; E g(F), h(F), x(R); do element_random(g); while (element_is0(g)); Z e = c.below(r), o = r;
      for (Z d = 2; d <= r; d++) while (o % d == 0) { E t(F); Z q = o / d; element_pow_mpz(t, g, mp(q)); if (!element_is1(t)) break; o = q; }
      if (o < 2) discard(); field_t O; field_init_naive_fp(O, mp(o)); Cl co{O}; E y(O); element_pow_mpz(h, g, mp(e));
      bool rho = c.flip() && isprime(o); c.d << (rho ? "rho" : "brute force") << " mod " << p << " order " << o << " log " << e;
      if (rho) element_dlog_pollard_rho(y, g, h); else element_dlog_brute_force(y, g, h);
      c.nontrivial(); c.label(rho ? "rho" : "brute force");
    } else if (w == 2) {   // polynomial helpers
      field_t Q; field_init_poly(Q, F); Cl cq{Q}; E a(Q), b(Q), g(Q), q(Q); int n = c.u(2, 6); poly_random_monic(a, n); poly_random_monic(b, c.u(1, 5)); c.d << "polynomials of degree " << n << " mod " << p;
      switch (c.u(0, 5)) {
        case 0: { bool ir = poly_is_irred(a); if (ir) { field_t K; field_init_polymod(K, a); Cl ck{K}; E u(K), v(K); element_random(u); element_random(v); element_mul(u, u, v); element_square(v, u); if (!element_is0(u)) element_invert(v, u); } break; }
        case 1: { E r(F); poly_findroot(r, a); break; }
        case 2: { E m(Q); element_mul(m, a, b); element_double(q, m); element_neg(g, m); break; }
        case 3: { E m(Q); poly_random_monic(m, 7); element_square(q, m); element_mul_si(g, q, -3); break; }
        case 4: { Z k = c.u(0, 9); element_pow_mpz(g, a, mp(k)); element_mul(q, g, b); break; }
        default: { E r(Q); element_mul(r, a, b); element_add(r, r, a); element_sub(r, r, b); element_set(g, r); string t = capture_file([&](FILE* f) { element_out_str(f, 10, g); }); } }
      c.nontrivial(); c.label("polynomials");
    } else if (w == 3) {   // CM searches which run through or stop early
      struct St { int left; } st{(int)c.u(0, 3)}; auto cb = [](pbc_cm_ptr, void* d) -> int { return ((St*)d)->left-- <= 0; };
      unsigned D = c.pick({3u, 7u, 8u, 12u, 43u, 67u, 99u, 163u, 283u, 723u, 1603u, 9563u}); bool g = c.flip(); if (g) D = c.pick({43u, 67u, 163u, 723u, 1603u, 4947u, 35707u}); c.d << (g ? "search g " : "search d ") << D;
      (g ? pbc_cm_search_g : pbc_cm_search_d)((int (*)(pbc_cm_t, void*))+cb, &st, D, c.u(20, 300)); c.nontrivial(); c.label("CM search");
    } else {               // conversions, comparisons and batch powers in one field
      E a(F), b(F), d(F); element_random(a); element_random(b); c.d << "powers mod " << p; Z x = c.exponent(p), y = c.exponent(p), z = c.exponent(p);
      element_pow2_mpz(d, a, mp(x), b, mp(y)); element_pow3_mpz(d, a, mp(x), b, mp(y), d, mp(z)); element_is_sqr(d); if (element_is_sqr(d)) element_sqrt(d, d);
      E m(F); Z big = c.bits(200); element_set_mpz(m, mp(big)); element_add_ui(m, m, 7); element_to_mpz(mp(big), m); { char buf[200]; element_snprintf(buf, sizeof buf, "%B %d %%", (element_ptr)m, 5); }
      c.nontrivial(); c.label("powers");
    }
  }
  A.balanced("after clearing everything");
}
// Several pairings alive at once do not influence each other: every script
// yields the same trace alone and interleaved with the others, whatever the
// others do (use, clear, switch methods, preprocess).
namespace {
struct Src { uint64_t s; };
uint64_t nxt(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void own_source(mpz_t r, mpz_t lim, void* d) { Src* s = (Src*)d; mpz_t t; mpz_init(t); mpz_set_ui(t, 0); size_t n = mpz_sizeinbase(lim, 2) + 64; for (size_t i = 0; i < n; i += 64) { mpz_mul_2exp(t, t, 64); mpz_add_ui(t, t, nxt(s->s)); } mpz_mod(r, t, lim); mpz_clear(t); }
struct Script { string name, text; char fam; uint64_t seed; vector<std::array<unsigned, 4>> ops; };
struct Ctx {
  const Script& S; Src src; pairing_t p; bool live = false; vector<std::unique_ptr<E>> e[4]; pairing_pp_t pp; bool ppl = false; element_pp_t ep; bool epl = false; string trace; size_t at = 0;
  Ctx(const Script& s) : S(s), src{s.seed} {}
  void end() { if (epl) element_pp_clear(ep); if (ppl) pairing_pp_clear(pp); epl = ppl = false; for (auto& v : e) v.clear(); if (live) pairing_clear(p); live = false; }
  ~Ctx() { end(); }
  void note(element_ptr x) { trace += gkey(x); trace += '\n'; }
  void step() {
    pbc_random_set_function(own_source, &src);
    if (!live) { if (pairing_init_set_str(p, S.text.c_str())) fail("parameters rejected"); live = true; for (int g = 0; g < 4; g++) for (int i = 0; i < 3; i++) { e[g].emplace_back(new E(g == 0 ? p->Zr : g == 1 ? p->G1 : g == 2 ? p->G2 : p->GT)); element_random(*e[g].back()); note(*e[g].back()); } return; }
    if (at >= S.ops.size()) { end(); at++; return; }
    auto o = S.ops[at++]; unsigned g = o[1] % 4; E &x = *e[g][o[2] % 3], &y = *e[g][o[3] % 3], &z = *e[g][(o[2] + o[3]) % 3];
    bool ti = S.fam == 'i';
    switch (o[0]) {
      case 0: element_random(x); note(x); break;
      case 1: element_mul(x, y, z); note(x); break;
      case 2: element_pow_zn(x, y, *e[0][o[3] % 3]); note(x); break;
      case 3: if (g || !element_is0(y)) element_invert(x, y); note(x); break;
      case 4: element_div(x, y, z); if (!g && element_is0(z)) element_set1(x); note(x); break;
      case 5: case 6: element_pairing(*e[3][o[2] % 3], *e[1][o[2] % 3], *e[2][o[3] % 3]); note(*e[3][o[2] % 3]); break;
      case 7: if (ppl) pairing_pp_clear(pp); pairing_pp_init(pp, *e[1][o[2] % 3], p); ppl = true; break;
      case 8: if (ppl) { pairing_pp_apply(*e[3][o[2] % 3], *e[2][o[3] % 3], pp); note(*e[3][o[2] % 3]); } break;
      case 9: pairing_option_set(p, (char*)"method", (char*)(o[2] & 1 ? "miller" : o[2] & 2 ? "miller-affine" : S.fam == 'a' || S.fam == '1' || S.fam == 'e' || S.fam == 'g' ? "shipsey-stange" : "miller")); break;
      case 10: { element_t a[2], b[2]; for (int i = 0; i < 2; i++) { element_init_G1(a[i], p); element_init_G2(b[i], p); element_set(a[i], *e[1][(o[2] + i) % 3]); element_set(b[i], *e[2][(o[3] + i) % 3]); } element_prod_pairing(*e[3][0], a, b, 2); note(*e[3][0]); for (int i = 0; i < 2; i++) { element_clear(a[i]); element_clear(b[i]); } break; }
      case 11: if (!ti && g != 3 && g) { char h[8] = {(char)o[2], (char)o[3], 1, 2, 3, 4, 5, 6}; element_from_hash(x, h, 8); note(x); } break;
      case 12: if (!ti) { string s = enc(y); element_from_bytes(x, (unsigned char*)s.data()); note(x); } break;
      default: { if (epl) element_pp_clear(ep); element_pp_init(ep, y); epl = true; E w(y.e->field); element_pp_pow_zn(w, *e[0][0], ep); note(w); }
    }
  }
  bool done() const { return at > S.ops.size(); }
};
}
CHECK("C24", isolation, 260, 40000, 20, "at least two pairings with five steps each") {
  static vector<const ParamFile*> l; if (l.empty()) for (auto& f : param_files()) if (f.fam == 'i' ? f.name.size() <= 4 && f.name < "i-2" : f.qbits <= (f.fam == 'g' || f.fam == 'f' ? 30u : 64u)) l.push_back(&f);
  int n = c.u(2, 3); vector<Script> S; bool nt = true;
  for (int i = 0; i < n; i++) { Script s; const ParamFile* f = l[c.u(0, l.size() - 1)]; if (i && c.chance(1, 2)) { s.name = S[0].name; s.text = S[0].text; s.fam = S[0].fam; if (c.flip()) for (auto* g : l) if (g->fam == s.fam && c.flip()) { s.name = g->name; s.text = g->text; } } else { s.name = f->name; s.text = f->text; s.fam = f->fam; }
    s.seed = c.u(0, 0xffffffff); int k = c.u(1, 25); if (k < 5) nt = false; for (int j = 0; j < k; j++) s.ops.push_back({(unsigned)c.u(0, 13), (unsigned)c.u(0, 3), (unsigned)c.u(0, 5), (unsigned)c.u(0, 5)}); c.d << s.name << " " << k << " steps; "; c.label(string("family ") + s.fam); S.push_back(s); }
  if (nt) c.nontrivial();
  // reset what "method" shares between the pairings of a family
  vector<string> alone;
  for (auto& s : S) { Ctx x(s); while (!x.done()) x.step(); alone.push_back(x.trace); }
  vector<std::unique_ptr<Ctx>> X; for (auto& s : S) X.emplace_back(new Ctx(s));
  for (;;) { vector<int> open; for (int i = 0; i < n; i++) if (!X[i]->done()) open.push_back(i); if (open.empty()) break; X[open[c.u(0, open.size() - 1)]]->step(); }
  c.seed_lib();
  for (int i = 0; i < n; i++) if (X[i]->trace != alone[i]) {
    size_t k = 0; while (k < alone[i].size() && k < X[i]->trace.size() && alone[i][k] == X[i]->trace[k]) k++;
    k = alone[i].rfind('\n', k); k = k == string::npos ? 0 : k + 1;
    fail("pairing " + std::to_string(i) + " (" + S[i].name + ") gave another value next to other pairings:\n" + alone[i].substr(k, 200) + "\nvs\n" + X[i]->trace.substr(k, 200)); }
}
