#include "curves.h"
// C05: elliptic-curve groups against the textbook chord-and-tangent law.
enum { CADD, CMUL, CSUB, CDIV, CNEG, CINV, CDBL, CSQ, CMZ, CPZ, CMZN, CPZN, CMSI, CSET, CSET0, CSET1, COPS };
static const char* cop[] = {"add", "mul", "sub", "div", "neg", "invert", "double", "square", "mul_mpz", "pow_mpz", "mul_zn", "pow_zn", "mul_si", "set", "set0", "set1"};
static Pt curve_op(Case& c, const Cv& C, int op, element_ptr d, element_ptr a, element_ptr b, const Pt& p, const Pt& q, string& s) {
  const RC& R = C.R; s += cop[op];
  switch (op) {
    case CADD: element_add(d, a, b); return R.add(p, q);
    case CMUL: element_mul(d, a, b); return R.add(p, q);
    case CSUB: element_sub(d, a, b); return R.add(p, R.neg(q));
    case CDIV: element_div(d, a, b); return R.add(p, R.neg(q));
    case CNEG: element_neg(d, a); return R.neg(p);
    case CINV: element_invert(d, a); return R.neg(p);
    case CDBL: element_double(d, a); return R.add(p, p);
    case CSQ: element_square(d, a); return R.add(p, p);
    case CMZ: case CPZ: { Z e = c.exponent(C.N != 0 ? C.N : C.order); if (e > (Z(1) << 400)) e %= 1000003; if (c.chance(1, 4)) e = -e; s += " " + str(e); if (op == CMZ) element_mul_mpz(d, a, mp(e)); else element_pow_mpz(d, a, mp(e)); return R.mul(p, e); }
    case CMZN: case CPZN: { Z n = c.pick({Z(2), Z(97), Z("1000000000000000000000000000057")}); field_t F; field_init_fp(F, mp(n)); Z e = c.edge(n); { E x(F); element_set_mpz(x, mp(e)); if (op == CMZN) element_mul_zn(d, a, x); else element_pow_zn(d, a, x); } field_clear(F); s += " " + str(e); return R.mul(p, e); }
    case CMSI: { long e = (long)c.u(0, 20) - 10; if (c.chance(1, 4)) e = (long)c.u(0, ~0ull); s += " " + std::to_string(e); element_mul_si(d, a, e); return R.mul(p, Z(e)); }
    case CSET: element_set(d, a); return p;
    case CSET0: element_set0(d); return Pt();
    default: element_set1(d); return Pt();
  }
}
static void cexpect(const Cv& C, element_ptr e, const Pt& w, const string& what) {
  Pt g = getpt(e, *C.K);
  REQ(g == w, what << " gave " << pts(g) << ", expected " << pts(w) << " on " << C.desc);
}
CHECK("C05", curve_ops, 32000, 1200000, 50, "a group operation with at least one finite operand") {
  c.seed_lib();
  Cvp C = gen_curve(c); const RC& R = C->R;
  c.d << C->desc << ":";
  E a(C->f), b(C->f), r(C->f);
  putpt(c, r, *C, gen_pt(c, *C));
  int n = c.u(1, 5);
  for (int i = 0; i < n; i++) {
    Pt p = gen_pt(c, *C), q; int rel = c.u(0, 6);
    q = rel == 0 ? p : rel == 1 ? R.neg(p) : rel == 2 ? R.dbl(p) : gen_pt(c, *C);
    putpt(c, a, *C, p); putpt(c, b, *C, q);
    int op = c.u(0, COPS - 1), al = c.u(0, 6); element_ptr d = r, y = b;
    if (al == 1) d = a; else if (al == 2) d = b; else if (al == 3) { y = a; q = p; } else if (al == 4) { d = y = a; q = p; }
    string s; Pt w = curve_op(c, *C, op, d, a, y, p, q, s);
    c.d << " " << s << "(" << pts(p) << "," << pts(q) << ")" << (al == 1 ? " into a" : al == 2 ? " into b" : al == 3 ? " b=a" : al == 4 ? " all same" : "");
    REQ(R.on(w), "reference left the curve");
    cexpect(*C, d, w, s);
    if (d != a) cexpect(*C, a, p, s + " changed its first operand:");
    if (d != y) cexpect(*C, y, q, s + " changed its second operand:");
    E t(C->f); Pt o = c.flip() ? w : gen_pt(c, *C); putpt(c, t, *C, o);
    REQ((element_cmp(d, t) == 0) == (w == o), "cmp(" << pts(w) << "," << pts(o) << ") on " << C->desc);
    REQ((element_cmp(t, d) == 0) == (w == o), "cmp(" << pts(o) << "," << pts(w) << ") on " << C->desc);
    REQ(!!element_is0(d) == w.inf && !!element_is1(d) == w.inf, "is0/is1 of " << pts(w) << " on " << C->desc);
    if (op < CSET && (!p.inf || (op < CNEG && !q.inf))) c.nontrivial();
    c.label(cop[op]); if (rel < 2 && op < CNEG) c.label(rel ? "opposite operands" : "equal operands");
    if (!p.inf && R.k->is0(p.y)) c.label("order-two operand");
  }
}
CHECK("C05", curve_batch, 12000, 400000, 50, "batch of at least two with at least one finite entry") {
  c.seed_lib();
  Cvp C = gen_curve(c); const RC& R = C->R;
  int n = c.chance(1, 12) ? c.u(7, 40) : c.u(1, 6); bool dbl = c.flip(), inpl = c.chance(1, 3), inb = !inpl && !dbl && c.chance(1, 4);
  vector<Pt> p(n), q(n); element_t A[40], B[40], D[40];
  struct Cl { element_t *A, *B, *D; int n; ~Cl() { for (int i = 0; i < n; i++) { element_clear(A[i]); element_clear(B[i]); element_clear(D[i]); } } } cl{A, B, D, n};
  for (int i = 0; i < n; i++) { element_init(A[i], C->f); element_init(B[i], C->f); element_init(D[i], C->f); }
  bool special = c.flip(), fin = false;
  c.d << C->desc << (dbl ? " multi_double" : " multi_add") << (inpl ? " in place" : inb ? " into second" : "") << ":";
  for (int i = 0; i < n; i++) {
    p[i] = special ? gen_pt(c, *C) : rand_pt(c, R);
    int rel = special ? c.u(0, 5) : 9;
    q[i] = rel == 0 ? p[i] : rel == 1 ? R.neg(p[i]) : special ? gen_pt(c, *C) : rand_pt(c, R);
    putpt(c, A[i], *C, p[i]); putpt(c, B[i], *C, q[i]); if (c.flip()) putpt(c, D[i], *C, gen_pt(c, *C));
    fin |= !p[i].inf; c.d << " " << pts(p[i]); if (!dbl) c.d << "+" << pts(q[i]);
  }
  element_t* out = inpl ? A : inb ? B : D;
  if (dbl) element_multi_double(out, A, n); else element_multi_add(out, A, B, n);
  for (int i = 0; i < n; i++) {
    Pt w = dbl ? R.dbl(p[i]) : R.add(p[i], q[i]);
    cexpect(*C, out[i], w, string(dbl ? "multi_double" : "multi_add") + " entry " + std::to_string(i));
    if (out != A) cexpect(*C, A[i], p[i], "batch changed an operand:");
    if (out != B) cexpect(*C, B[i], q[i], "batch changed an operand:");
  }
  if (n > 1 && fin) c.nontrivial(); c.label(dbl ? "multi_double" : "multi_add");
}
// points obtained by random choice, hashing, decoding an x-coordinate
CHECK("C05", curve_members, 15000, 300000, 50, "a finite point obtained and checked for membership") {
  c.seed_lib();
  Cvp C = gen_curve(c); const RC& R = C->R; const RF& k = *R.k;
  E a(C->f); putpt(c, a, *C, gen_pt(c, *C)); Pt g;
  int how = c.u(0, 6);
  bool order = true; string what;
  if (how == 0) { element_random(a); what = "random"; }
  else if (how == 1) { field_curve_use_random_solvefory(C->f); element_random(a); what = "random (solve for y)"; }
  else if (how == 2 && C->hash_ok) { string h = c.bytes(c.u(1, 70)); element_from_hash(a, (void*)h.data(), h.size()); what = "hash " + hex(h); }
  else if (how == 4 && C->N != 0) { curve_set_gen_no_cofac(a); what = "generator without cofactor"; order = false; REQ(R.mul(getpt(a, *C->K), C->N).inf, what << " does not have order dividing the number of points: " << C->desc); }
  else if (how == 6) {  // a list of coordinates, or the integer 0
    Pt p = gen_pt(c, *C); Mz M; if (p.inf) { M.e = (element_ptr)pbc_malloc(sizeof(element_t)); element_init(M.e, M.f); }
    else { auto mk = [&](auto& self, const V& v, const RF& r) -> element_ptr { if (!r.base) { element_ptr e = (element_ptr)pbc_malloc(sizeof(element_t)); element_init(e, M.f); Z z = v.v; element_set_mpz(e, mp(z)); return e; } element_ptr l = nullptr; for (auto& x : v.c) { element_ptr y = self(self, x, *r.base); if (!l) l = multiz_new_list(y); else multiz_append(l, y); pbc_free(y); } return l; };
      M.add(mk(mk, p.x, k)); M.add(mk(mk, p.y, k)); }
    element_set_multiz(a, M.m()); what = "list " + pts(p); order = false; cexpect(*C, a, p, what); }
  else if (how == 5) {  // small integer coordinates
    bool ok = false; long x = 0, y = 0; for (int t = 0; t < 40 && !ok; t++) { x = (long)c.u(0, 60) - 30; V X = k.fromz(x), r = k.add(k.mul(k.add(k.mul(X, X), R.a), X), R.b); for (y = -40; y <= 40 && !ok; y++) if (k.mul(k.fromz(y), k.fromz(y)) == r) { ok = true; break; } }
    if (!ok) discard(); curve_set_si(a, x, y); what = "set to (" + std::to_string(x) + "," + std::to_string(y) + ")"; order = false; Pt w; w.inf = false; w.x = k.fromz(x); w.y = k.fromz(y); cexpect(*C, a, w, what); }
  else if (c.flip()) { Pt p = rand_pt(c, R); if (p.inf) discard(); E x(C->K->f); put(x, *C->K, p.x); curve_from_x(a, x); what = "curve_from_x " + vs(p.x); order = false; g = getpt(a, *C->K); REQ(g == p || g == R.neg(p), what << " gave " << pts(g) << " on " << C->desc); REQ(get(x, *C->K) == p.x, what << " changed the coordinate"); }
  else { Pt p = rand_pt(c, R); if (p.inf) discard(); E x(C->K->f); put(x, *C->K, p.x); string s = enc(x); element_from_bytes_x_only(a, (unsigned char*)&s[0]); what = "from x=" + vs(p.x); order = false; g = getpt(a, *C->K); REQ(g == p || g == R.neg(p), what << " gave " << pts(g) << " on " << C->desc); }
  g = getpt(a, *C->K);
  c.d << C->desc << " " << what << " " << pts(g);
  if (!g.inf) REQ(get(element_x(a), *C->K) == g.x && get(element_y(a), *C->K) == g.y, "element_x/element_y differ from the coordinates of " << pts(g) << " on " << C->desc);
  else REQ(element_item_count(a) == 0, "the identity reports coordinates");
  REQ(R.on(g), what << " gave a point off the curve " << pts(g) << " " << C->desc);
  if (order && C->N != 0) { REQ(R.mul(g, C->order).inf, what << " gave a point not of the declared order: " << pts(g) << " " << C->desc); Z o = C->order; element_mul_mpz(a, a, mp(o)); REQ(element_is0(a), "multiplying by the order is not the identity: " << C->desc); }
  if (!g.inf) c.nontrivial(); c.label(what.substr(0, 6)); (void)k;
}
// quadratic twist and point counts over extensions
CHECK("C05", curve_twist_count, 600, 20000, 20, "twist or extension count of a curve") {
  c.seed_lib();
  if (c.flip()) {
    Cvp C = gen_curve(c, 0); const RF& k = *C->R.k;
    C->order = 0;
    E ea(C->K->f), eb(C->K->f); put(ea, *C->K, C->R.a); put(eb, *C->K, C->R.b);
    if (k.is0(C->R.a) || k.is0(C->R.b)) discard();
    Z N2 = 2 * k.q + 2 - C->N; if (N2 == 1) discard();
    field_t f; field_init_curve_ab(f, ea, eb, mp(N2), nullptr);
    struct Cl { field_ptr f; ~Cl() { field_clear(f); } } cl{f};
    field_reinit_curve_twist(f);
    E P(f); element_random(P); c.d << C->desc << " twist";
    element_mul_mpz(P, P, mp(N2)); REQ(element_is0(P), "random point of the twist does not have order " << N2 << " for " << C->desc);
    c.nontrivial(); c.label("twist");
  } else {
    Z p = c.pick({5, 7, 11, 13}); Fldp B = fld_prime(p, BK_NAIVE); unsigned n = c.u(2, p <= 7 ? 3 : 2);
    Fldp K = fld_polymod(B, prand_irred(*B->r, n, c));
    RC E1, E2; E1.k = B->r; E1.a = B->r->rnd(c); E1.b = B->r->rnd(c); E2.k = K->r; E2.a = K->r->fromb(E1.a); E2.b = K->r->fromb(E1.b);
    Z d = zmod(4 * E1.a.v * E1.a.v * E1.a.v + 27 * E1.b.v * E1.b.v, p); if (d == 0) discard();
    Z n1 = count_points(E1), nk = count_points(E2), t = p + 1 - n1, r;
    c.d << "y^2=x^3+" << vs(E1.a) << "x+" << vs(E1.b) << " over F_" << p << " degree " << n;
    pbc_mpz_curve_order_extn(mp(r), mp(p), mp(t), n); REQ(r == nk, "curve order over extension " << r << ", counted " << nk);
    pbc_mpz_trace_n(mp(r), mp(p), mp(t), n); Z w = K->r->q + 1 - nk; REQ(r == w, "trace over extension " << r << ", counted " << w);
    c.nontrivial(); c.label("extension count");
  }
}
// nodal singular curve y^2 = x^3 + x^2
struct SP { bool inf; Z x, y; };
static SP spt(element_ptr e) {
  string s = capture_file([&](FILE* f) { element_out_str(f, 10, e); });
  SP p; p.inf = s == "O"; if (p.inf) return p;
  size_t i = s.find(' '); p.x = Z(s.substr(0, i)); p.y = Z(s.substr(i + 1)); return p;
}
// non-singular points correspond to units: (x,y) -> (y+x)/(y-x)
static Z su(const SP& p, const Z& q) { if (p.inf) return 1; return zmod((p.y + p.x) * zinv(zmod(p.y - p.x, q), q), q); }
CHECK("C05", singular_ops, 9000, 150000, 50, "operation on a finite non-singular point") {
  c.seed_lib();
  Z p = c.flip() ? Z(c.pick({5, 7, 11, 13, 17, 31, 101})) : nextprime(c.bits(c.u(10, 200)) + 5);
  Fldp F = fld_prime(p, legal_backend(p, c.u(0, BK_N - 1)));
  field_t S; field_init_curve_singular_with_node(S, F->f);
  struct Cl { field_ptr f; ~Cl() { field_clear(f); } } cl{S};
  E a(S), b(S), r(S);
  c.d << "nodal curve over F_" << p << ":";
  for (int i = 0, n = c.u(1, 5); i < n; i++) {
    if (c.chance(1, 6)) element_set0(a); else element_random(a);
    int rel = c.u(0, 4); if (rel == 0) element_set(b, a); else if (rel == 1) element_neg(b, a); else if (rel == 2) element_set0(b); else element_random(b);
    SP P = spt(a), Q = spt(b);
    for (auto& X : {P, Q}) if (!X.inf) REQ(X.x != 0 && zmod(X.y * X.y - X.x * X.x * (X.x + 1), p) == 0, "random point " << X.x << "," << X.y << " not a non-singular point mod " << p);
    Z u = su(P, p), v = su(Q, p), w; int op = c.u(0, 6); const char* nm;
    element_ptr d = c.flip() ? (element_ptr)a : (element_ptr)r;
    switch (op) {
      case 0: element_add(d, a, b); w = u * v; nm = "add"; break;
      case 1: element_sub(d, a, b); w = u * zinv(v, p); nm = "sub"; break;
      case 2: element_neg(d, a); w = zinv(u, p); nm = "neg"; break;
      case 3: element_double(d, a); w = u * u; nm = "double"; break;
      case 4: { Z e = c.exponent(p); element_mul_mpz(d, a, mp(e)); w = zpow(u, e, p); nm = "mul_mpz"; break; }
      case 5: { Z e = c.exponent(p); element_pow_mpz(d, a, mp(e)); w = zpow(u, e, p); nm = "pow_mpz"; break; }
      default: element_set(d, a); w = u; nm = "set";
    }
    w = zmod(w, p); Z g = su(spt(d), p);
    c.d << " " << nm << "(" << u << "," << v << ")"; c.label(nm);
    REQ(g == w, nm << " of the points with parameters " << u << "," << v << " mod " << p << " has parameter " << g << ", expected " << w);
    REQ(!!element_is0(d) == (w == 1), "is0 on the nodal curve");
    { E t(S); Z tv = 1; switch (c.u(0, 3)) { case 0: element_set(t, d); tv = w; break; case 1: element_neg(t, d); tv = zinv(w, p); break; case 2: break; default: element_random(t); tv = su(spt(t), p); }
      REQ(!element_cmp(t, d) == (tv == w) && !element_cmp(d, t) == (tv == w), "cmp of the points with parameters " << w << " and " << tv << " mod " << p); }
    element_set(r, d); if (!P.inf) c.nontrivial();
  }
}
