#include "structs.h"
#include <climits>
// C18: histories of operations over variables with coinciding operands,
// against a pure model of the structure.
struct MV { V v; Pt p; P poly; Z z; std::shared_ptr<E> e; };
struct Model {
  Stp s; enum { FIELD, GROUPF, POINT, POLY, INT, COPY } k; RFp r; bool tern = false, add_neg = true, inv = true; RC C;
  // GROUPF: multiplicative group inside a field; COPY: no model, library calls on fresh copies
  bool group() const { return k == GROUPF || k == POINT || k == COPY; }
  MV get(element_ptr e) const {
    MV m;
    switch (k) {
      case FIELD: case GROUPF: m.v = tern ? get3(e, *r) : ::get(e, *s->K); break;
      case POINT: m.p = getpt(e, *s->K); break;
      case POLY: m.poly = getp(e, *s->K); break;
      case INT: m.z = toz(e); break;
      case COPY: m.e = std::make_shared<E>(s->f); element_set(*m.e, e); break;
    }
    return m;
  }
  bool eq(const MV& a, const MV& b) const {
    switch (k) {
      case FIELD: case GROUPF: return a.v == b.v;
      case POINT: return a.p == b.p;
      case POLY: return a.poly == b.poly;
      case INT: return a.z == b.z;
      default: return gkey(*a.e) == gkey(*b.e);
    }
  }
  string sh(const MV& a) const {
    switch (k) { case FIELD: case GROUPF: return vs(a.v); case POINT: return pts(a.p); case POLY: return ps(a.poly); case INT: return str(a.z); default: return gkey(*a.e); }
  }
  bool same(const MV& a, const MV& b) const {   // as the comparison sees it
    if (eq(a, b)) return true;
    if (k == POINT && s->G && s->which == 2 && !s->G->symmetric) return C.mul(C.add(a.p, C.neg(b.p)), s->G->h2).inf;
    return false;
  }
  MV V_(const V& v) const { MV m; m.v = v; return m; }
  MV zero() const { MV m; switch (k) { case FIELD: m.v = r->zero(); break; case GROUPF: m.v = r->one(); break; case COPY: m.e = std::make_shared<E>(s->f); element_set0(*m.e); break; default: break; } return m; }
  MV add(const MV& a, const MV& b) const {
    MV m;
    switch (k) {
      case FIELD: m.v = r->add(a.v, b.v); break;
      case GROUPF: m.v = r->mul(a.v, b.v); break;
      case POINT: m.p = C.add(a.p, b.p); break;
      case POLY: m.poly = padd(*s->K->r, a.poly, b.poly); break;
      case INT: m.z = a.z + b.z; break;
      case COPY: { E x(*a.e), y(*b.e); m.e = std::make_shared<E>(s->f); element_add(*m.e, x, y); }
    }
    return m;
  }
  MV neg(const MV& a) const {
    MV m;
    switch (k) {
      case FIELD: m.v = r->neg(a.v); break;
      case GROUPF: m.v = r->inv(a.v); break;
      case POINT: m.p = C.neg(a.p); break;
      case POLY: m.poly = psub(*s->K->r, P(), a.poly); break;
      case INT: m.z = -a.z; break;
      case COPY: { E x(*a.e); m.e = std::make_shared<E>(s->f); element_neg(*m.e, x); }
    }
    return m;
  }
  MV mul(const MV& a, const MV& b) const {
    if (group()) return add(a, b);
    MV m; if (k == FIELD) m.v = r->mul(a.v, b.v); else if (k == POLY) m.poly = pmul(*s->K->r, a.poly, b.poly); else m.z = a.z * b.z; return m;
  }
  bool unit(const V& v) const { if (r->base) return !r->is0(v); Z g; mpz_gcd(mp(g), mp(const_cast<Z&>(v.v)), mp(const_cast<Z&>(r->p))); return g == 1; }  // Zr of type A1 pairings has composite order
  MV one() const { if (group()) return zero(); MV m; if (k == FIELD) m.v = r->one(); else if (k == POLY) m.poly = P{s->K->r->one()}; else m.z = 1; return m; }
  MV rep(const MV& a, Z n, bool pw) const {   // n*a or a^n, n>=0 (negative: n*a)
    MV x = a; if (n < 0) { x = neg(a); n = -n; }
    if (k == FIELD && pw) return V_(r->pow(x.v, n));
    if (k == FIELD) return V_(r->muli(x.v, n));
    if (k == INT) { MV m; if (pw) mpz_pow_ui(mp(m.z), mp(x.z), n.get_ui()); else m.z = x.z * n; return m; }
    if (k == POLY && !pw) { MV m = x; for (auto& t : m.poly) t = s->K->r->muli(t, n); pnorm(*s->K->r, m.poly); return m; }
    MV y = pw && !group() ? one() : zero();
    for (long i = (long)mpz_sizeinbase(mp(n), 2) - 1; i >= 0; i--) { y = pw && !group() ? mul(y, y) : add(y, y); if (mpz_tstbit(mp(n), i)) y = pw && !group() ? mul(y, x) : add(y, x); }
    return y;
  }
};
static std::shared_ptr<Model> gen_model(Case& c) {
  auto M = std::make_shared<Model>(); M->s = gen_struct(c, SK_ALL, c.u(0, 19) ? 200 : 600); Stp s = M->s;
  if (s->kind == "integers") M->k = Model::INT;
  else if (s->kind == "polynomial ring") M->k = Model::POLY;
  else if (s->kind == "ternary field") { M->k = Model::FIELD; M->tern = true; }
  else if (s->point) { M->k = Model::POINT; M->C = s->R; }
  else if (s->G && s->G->fam == 'i' && s->which) M->k = Model::COPY;
  else if (s->which == 3) { M->k = Model::GROUPF; M->r = s->K->r; }
  else { M->k = Model::FIELD; M->r = s->K->r; }
  if (M->tern) {
    M->r = s->tern; int lev = s->tlev; M->add_neg = lev < 2; M->inv = !(((lev & 1) && s->tm % 2 == 0) || (lev >= 2 && s->tm % 3 == 0));
  }
  return M;
}
CHECK("C18", aliased_history, 9000, 900000, 30, "at least one operation has coinciding destination and operand and an operand other than zero and one") {
  c.seed_lib();
  auto M = gen_model(c); Stp s = M->s; field_ptr f = s->f; const int N = 4;
  vector<E> R; vector<MV> m; R.reserve(N);
  for (int i = 0; i < N; i++) {
    R.emplace_back(f);
    if (i && c.chance(1, 5)) { if (c.flip() && M->add_neg) { element_neg(R[i], R[i - 1]); m.push_back(M->neg(m[i - 1])); } else { element_set(R[i], R[i - 1]); m.push_back(m[i - 1]); } }
    else { s->gen(c, R[i]); m.push_back(M->get(R[i])); }
    c.d << " " << M->sh(m[i]);
  }
  bool grp = M->group(), big = s->size > (Z(1) << 400) || M->k == Model::COPY; int steps = c.u(1, 8);
  Z ord = s->G && s->which ? s->G->r : s->size > 0 ? s->size : Z(1) << 64;
  auto expo = [&](bool pw) -> Z { if (pw && (M->k == Model::INT || M->k == Model::POLY)) return Z(c.u(0, 6)); if (big || M->tern) return Z(c.u(0, 200)); return c.exponent(ord); };
  for (int st = 0; st < steps; st++) {
    int d = c.u(0, N - 1), a = c.u(0, N - 1), b = c.u(0, N - 1), op = c.u(0, 22); if (c.chance(1, 2)) { if (c.flip()) d = a; else d = b; }
    if (c.chance(1, 8)) d = a = b; MV w; bool alias = d == a; std::ostringstream o;
    bool special = M->eq(m[a], M->zero()) || M->eq(m[a], M->one());
    switch (op) {
      case 0: case 1: o << "r" << a << "+r" << b; element_add(R[d], R[a], R[b]); w = M->add(m[a], m[b]); alias |= d == b || a == b; break;
      case 2: if (!M->add_neg) continue; o << "r" << a << "-r" << b; element_sub(R[d], R[a], R[b]); w = M->add(m[a], M->neg(m[b])); alias |= d == b || a == b; break;
      case 3: case 4: o << "r" << a << "*r" << b; if (M->k == Model::POLY && m[a].poly.size() + m[b].poly.size() > 700) continue; if (M->k == Model::INT && mpz_sizeinbase(mp(m[a].z), 2) > 20000) continue; element_mul(R[d], R[a], R[b]); w = M->mul(m[a], m[b]); alias |= d == b || a == b; break;
      case 5: if (!M->add_neg) continue; o << "-r" << a; element_neg(R[d], R[a]); w = M->neg(m[a]); break;
      case 6: o << "2r" << a; element_double(R[d], R[a]); w = M->add(m[a], m[a]); break;
      case 7: if (M->k == Model::POLY && m[a].poly.size() > 400) continue; if (M->k == Model::INT && mpz_sizeinbase(mp(m[a].z), 2) > 20000) continue; o << "r" << a << "^2"; element_square(R[d], R[a]); w = M->mul(m[a], m[a]); break;
      case 8: if (grp) { o << "1/r" << a; element_invert(R[d], R[a]); w = M->neg(m[a]); break; }
        if (M->k != Model::FIELD || !M->inv || !M->unit(m[a].v)) continue; o << "1/r" << a; element_invert(R[d], R[a]); w = M->V_(M->r->inv(m[a].v)); break;
      case 9: if (grp) { o << "r" << a << "/r" << b; element_div(R[d], R[a], R[b]); w = M->add(m[a], M->neg(m[b])); alias |= d == b || a == b; break; }
        if (M->k != Model::FIELD || !M->inv || !M->unit(m[b].v)) continue; o << "r" << a << "/r" << b; element_div(R[d], R[a], R[b]); w = M->V_(M->r->mul(m[a].v, M->r->inv(m[b].v))); alias |= d == b || a == b; break;
      case 10: if (grp || M->tern || M->k == Model::POLY) continue;
        if (M->k == Model::INT ? mpz_odd_p(mp(m[a].z)) : M->r->p == 2) continue;
        o << "r" << a << "/2"; element_halve(R[d], R[a]); if (M->k == Model::INT) w.z = m[a].z / 2; else w = M->V_(M->r->div(m[a].v, M->r->fromz(2))); break;
      case 11: { if (M->k == Model::POLY && m[a].poly.size() > 60) continue; if (M->k == Model::INT && mpz_sizeinbase(mp(m[a].z), 2) > 4000) continue; Z n = expo(true); o << "r" << a << "^" << n; element_pow_mpz(R[d], R[a], mp(n)); w = M->rep(m[a], n, true); break; }
      case 12: { if (M->tern) continue; Z n = expo(false); if (c.flip()) n = -n; o << n << "*r" << a; element_mul_mpz(R[d], R[a], mp(n)); w = M->rep(m[a], n, false); break; }
      case 13: { if (M->tern) continue; long n = (long)c.u(0, 60) - 30; if (c.chance(1, 6)) n = (long)c.u(0, ~0ull); o << n << "(si)*r" << a; element_mul_si(R[d], R[a], n); w = M->rep(m[a], Z(n), false); break; }
      case 14: o << "0"; element_set0(R[d]); w = M->zero(); alias = false; break;
      case 15: o << "1"; element_set1(R[d]); w = M->one(); alias = false; break;
      case 16: o << "r" << a; element_set(R[d], R[a]); w = m[a]; break;
      case 17: {  // exponent taken from the same kind of variable
        if (!s->G && !(M->k == Model::FIELD && !M->r->base && !M->tern)) continue;
        if (s->G && s->which) { Z n = big ? Z(c.u(0, 200)) : c.edge(s->G->r); E z(s->G->p->Zr); element_set_mpz(z, mp(n)); o << (c.flip() ? "zn " : "zn  ") << n << "*r" << a; if (o.str()[3] == ' ') element_mul_zn(R[d], R[a], z); else element_pow_zn(R[d], R[a], z); w = M->rep(m[a], n, false); break; }
        o << "r" << a << "^r" << b; element_pow_zn(R[d], R[a], R[b]); w = M->V_(M->r->pow(m[a].v, m[b].v.v)); alias |= d == b || a == b; break; }
      case 18: {  // an independent copy, then the original changes
        o << "copy of r" << a; E t(f); element_set(t, R[a]); w = m[a]; MV old = m[a];
        element_double(R[a], R[a]); element_add(R[a], R[a], R[a]); MV g = M->get(t); REQ(M->eq(g, old), "changing an element changed its copy " << M->sh(old) << " to " << M->sh(g));
        m[a] = M->rep(m[a], 4, false); MV h = M->get(R[a]); if (M->k == Model::FIELD && M->tern) { m[a] = M->add(M->add(old, old), M->add(old, old)); } REQ(M->eq(h, m[a]), "4*r" << a << " is " << M->sh(h)); element_set(R[d], t); break; }
      case 19: {  // array forms: every destination may equal its own operand
        int n = c.u(1, N); element_t A[N], B[N], O[N]; bool two = c.flip(), in = c.flip(), inb = !in && two && c.flip(); if (M->k != Model::POINT) continue;
        vector<MV> ex; o << (two ? "multi add" : "multi double") << " n=" << n << (in ? " in place" : inb ? " into second" : "");
        for (int i = 0; i < n; i++) { int x = c.u(0, N - 1), y = c.u(0, N - 1); o << " " << x << "," << y; element_init(A[i], f); element_set(A[i], R[x]); element_init(B[i], f); element_set(B[i], R[y]); element_init(O[i], f); ex.push_back(two ? M->add(m[x], m[y]) : M->add(m[x], m[x])); }
        if (two) element_multi_add(in ? A : inb ? B : O, A, B, n); else element_multi_double(in ? A : O, A, n);
        vector<MV> got; for (int i = 0; i < n; i++) got.push_back(M->get(in ? A[i] : inb ? B[i] : O[i]));
        string r; for (int i = 0; i < n; i++) if (!M->eq(got[i], ex[i])) r = "entry " + std::to_string(i) + " is " + M->sh(got[i]) + ", expected " + M->sh(ex[i]);
        for (int i = 0; i < n; i++) { element_clear(A[i]); element_clear(B[i]); element_clear(O[i]); }
        REQ(r.empty(), o.str() << ": " << r); w = m[d]; break; }
      case 21: {  // square root of a square
        if (M->k != Model::FIELD || M->tern || M->r->p == 2 || !isprime(M->r->p)) continue;
        element_square(R[a], R[a]); m[a] = M->mul(m[a], m[a]); o << "sqrt(r" << a << ":=r" << a << "^2)"; MV sq = m[a]; element_sqrt(R[d], R[a]); w = M->get(R[d]); if (d != a) { MV g = M->get(R[a]); REQ(M->eq(g, sq), "sqrt changed its operand"); }
        REQ(M->eq(M->mul(w, w), sq), "sqrt of " << M->sh(sq) << (d == a ? " in place" : "") << " gave " << M->sh(w)); break; }
      case 20: {  // pure observers
        o << "observe r" << a; w = m[d]; (void)element_is0(R[a]); (void)element_is1(R[a]); (void)element_cmp(R[a], R[b]); (void)show(R[a]); if (s->bytes) (void)enc(R[a]); break; }
      default: {  // decode the encoding of another variable
        if (!s->bytes) continue; o << "decode(r" << a << ")"; string x = enc(R[a]); element_from_bytes(R[d], (unsigned char*)&x[0]); w = m[a]; }
    }
    c.d << "; r" << d << "=" << o.str(); c.label(alias ? "aliased" : "distinct");
    m[d] = w;
    for (int i = 0; i < N; i++) { MV g = M->get(R[i]); REQ(M->eq(g, m[i]), "after r" << d << "=" << o.str() << (i == d ? ": result " : ": unrelated variable ") << "r" << i << " is " << M->sh(g) << ", expected " << M->sh(m[i])); }
    for (int i = 0; i < N; i++) {
      REQ(!element_cmp(R[i], R[i]), "equality is not reflexive");
      REQ(!!element_is0(R[i]) == M->eq(m[i], M->zero()), "is0(" << M->sh(m[i]) << ")"); REQ(!!element_is1(R[i]) == M->eq(m[i], M->one()), "is1(" << M->sh(m[i]) << ")");
      int j = c.u(0, N - 1); bool x = !element_cmp(R[i], R[j]), y = !element_cmp(R[j], R[i]); REQ(x == y, "equality is not symmetric"); REQ(x == M->same(m[i], m[j]), "cmp(" << M->sh(m[i]) << "," << M->sh(m[j]) << ") says " << (x ? "equal" : "different"));
    }
    if (alias && !special) c.nontrivial();
  }
}
