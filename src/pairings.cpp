#include "pairings.h"
#include <dirent.h>
#include <algorithm>
#include <unistd.h>
std::map<string, Z> parse_params(const string& text, string* type) {
  std::map<string, Z> m; std::istringstream in(text); string k, v;
  while (in >> k >> v) { if (k == "type") { if (type) *type = v; } else m[k] = Z(v); }
  return m;
}
static void load_dir(vector<ParamFile>& out, const string& dir, const string& tag) {
  DIR* d = opendir(dir.c_str()); if (!d) return;
  while (dirent* e = readdir(d)) {
    string n = e->d_name; if (n.size() < 7 || n.substr(n.size() - 6) != ".param") continue;
    ParamFile f; f.name = tag + n.substr(0, n.size() - 6); f.text = read_file(dir + "/" + n);
    string t; auto m = parse_params(f.text, &t); f.fam = t == "a1" ? '1' : t.empty() ? '?' : t[0];
    if (!strchr("a1defgi", f.fam)) continue;
    Z q = f.fam == '1' ? m["p"] : f.fam == 'i' ? Z(Z(1) << (unsigned)(m["m"].get_ui() * 1585 / 1000)) : m["q"];
    f.qbits = mpz_sizeinbase(q.get_mpz_t(), 2);
    out.push_back(f);
  }
  closedir(d);
}
const vector<ParamFile>& param_files() {
  static vector<ParamFile> v;
  if (v.empty()) {
    load_dir(v, repo_path() + "/param", "bundled ");
    load_dir(v, verif_path() + "/params", "");
    std::sort(v.begin(), v.end(), [](const ParamFile& a, const ParamFile& b) { return a.name < b.name; });
    if (v.size() < 20) { fprintf(stderr, "parameter files not found\n"); exit(3); }
  }
  return v;
}
// fresh parameters of types A (any exponents and signs) and A1 (any odd composite order)
static ParamFile fresh(Case& c, char fam) {
  ParamFile f; f.fam = fam; std::ostringstream o;
  if (fam == 'a') {
    unsigned e2 = c.u(7, c.pick({16u, 40u, 80u})), e1 = c.u(1, e2 - 1); int s1 = c.flip() ? 1 : -1, s0 = c.flip() ? 1 : -1; Z r; int tries = 0;
    for (;; ) { r = (Z(1) << e2) + s1 * (Z(1) << e1) + s0; if (r > 100 && isprime(r)) break; if (++tries > 2000) discard(); if (++e1 >= e2) { e1 = 1; s1 = -s1; if (s1 < 0) { s0 = -s0; if (s0 < 0) e2++; } } }
    Z h = 4 * (1 + c.bits(c.u(0, 30))), q; while (h % r == 0 || !isprime(q = h * r - 1)) h += 4;
    o << "type a\nq " << q << "\nh " << h << "\nr " << r << "\nexp2 " << e2 << "\nexp1 " << e1 << "\nsign1 " << s1 << "\nsign0 " << s0 << "\n"; f.qbits = mpz_sizeinbase(q.get_mpz_t(), 2);
    f.name = "fresh a 2^" + std::to_string(e2) + (s1 > 0 ? "+" : "-") + "2^" + std::to_string(e1) + (s0 > 0 ? "+1" : "-1") + " h=" + str(h);
  } else {
    Z n = 1; int k = c.u(1, 4); for (int i = 0; i < k; i++) n *= nextprime(c.bits(c.u(4, 16)) + 10);
    if (c.chance(1, 4)) n = (Z(1) << c.u(5, 32)) + (c.flip() ? 1 : -1);   // all bits set, or two
    Z l = 4 * (1 + c.bits(c.u(0, 12))); while (gcd(l, n) != 1 || !isprime(l * n - 1)) l += 4;
    o << "type a1\np " << Z(l * n - 1) << "\nn " << n << "\nl " << l << "\n"; f.qbits = mpz_sizeinbase(Z(l * n - 1).get_mpz_t(), 2); f.name = "fresh a1 n=" + str(n) + " l=" + str(l);
  }
  f.text = o.str(); return f;
}
Pgp load_pairing(Case& c, const string& fams, unsigned maxbits) {
  auto& all = param_files();
  string avail; for (char f : string("a1defgi")) if (fams.empty() || fams.find(f) != string::npos) avail += f;
  char fam = avail[c.u(0, avail.size() - 1)];
  if ((fam == 'a' || fam == '1') && c.flip()) { c.label("fresh parameters"); return make_pairing(c, fresh(c, fam)); }
  vector<const ParamFile*> l;
  for (auto& f : all) if (f.fam == fam && f.qbits <= maxbits) l.push_back(&f);
  // sizes used in practice
  if (maxbits >= 1000 && c.flip()) { vector<const ParamFile*> b; for (auto f : l) if (f->qbits > 140) b.push_back(f); if (!b.empty()) return make_pairing(c, *c.pick(b)); }
  std::sort(l.begin(), l.end(), [](const ParamFile* a, const ParamFile* b) { return std::make_pair(a->qbits, a->name) < std::make_pair(b->qbits, b->name); });
  // smaller sets more often
  size_t i = c.u(0, l.size() - 1); if (c.flip()) i = std::min<size_t>(i, c.u(0, l.size() - 1));
  return make_pairing(c, *l[i]);
}
static Fldp shell_prime(const Z& p) { auto F = std::make_shared<Fld>(); F->own = false; F->r = rf_prime(p); F->desc = "F_" + str(p); return F; }
static Fldp shell_ext(Fldp b, Fld::Kind k, const vector<V>& mod) {
  auto F = std::make_shared<Fld>(); F->own = false; F->kind = k; F->base = b; F->r = rf_ext(b->r, mod); F->desc = b->desc + "^" + std::to_string(mod.size()); return F;
}
// trace of Frobenius over the degree-d extension
static Z trace_ext(const Z& q, const Z& t, unsigned d) { Z a = 2, b = t; for (unsigned i = 1; i < d; i++) { Z n = t * b - q * a; a = b; b = n; } return b; }
Pgp make_pairing(Case& c, const ParamFile& f) {
  auto G = std::make_shared<Pg>(); G->name = f.name; G->text = f.text; G->fam = f.fam; G->prm = parse_params(f.text);
  auto& m = G->prm;
  c.label(string("family ") + (f.fam == '1' ? "A1" : string(1, (char)(f.fam - 32))));
  // the implementation of prime fields of more than one word is a run-time option
  static const char* impl[] = {"naive", "fast", "faster"}; int w = c.chance(1, 4) ? (int)c.u(0, 2) : -1;
  if (w >= 0 && f.fam != 'i' && f.qbits > 64) { pbc_tweak_use_fp((char*)impl[w]); c.label(string("prime fields: ") + impl[w]); c.d << "{" << impl[w] << " prime fields} "; }
  int rc = pairing_init_set_buf(G->p, f.text.data(), f.text.size());
  pbc_tweak_use_fp((char*)"mont");
  REQ(rc == 0, "parameters of " << f.name << " rejected");
  G->live = true;
  string lr; { Z z; mpz_set(mp(z), G->p->r); G->r = z; }
  if (f.fam == 'i') { REQ(G->r == m["n"], "wrong group order in " << f.name); G->h1 = m["n2"]; G->symmetric = true; return G; }
  Z q = f.fam == '1' ? m["p"] : m["q"]; G->q = q;
  Z r = f.fam == '1' ? m["n"] : m["r"];
  REQ(G->r == r, "pairing of " << f.name << " has order " << G->r << ", parameters say " << r);
  G->Fq = shell_prime(q); const RF& k = *G->Fq->r;
  G->E1.k = G->Fq->r; G->E1.a = k.fromz(f.fam == 'a' || f.fam == '1' ? 1 : f.fam == 'f' ? Z(0) : m["a"]);
  G->E1.b = k.fromz(f.fam == 'a' || f.fam == '1' ? Z(0) : m["b"]);
  if (f.fam == 'a' || f.fam == '1') {
    G->symmetric = true; G->h1 = (q + 1) / r; G->Fqd = G->Fq;
    G->Fqk = shell_ext(G->Fq, Fld::FI, {k.one(), k.zero()});
    G->finalexp = (q * q - 1) / r;
    if (f.fam == '1') { G->prime_r = false; Z n = r; for (Z d = 2; d < 100000 && d * d <= n; d++) while (n % d == 0) { G->rfac.push_back(d); n /= d; } if (isprime(n)) G->rfac.push_back(n); }
  } else if (f.fam == 'e') {
    G->symmetric = true; G->h1 = m["h"]; G->Fqd = G->Fqk = G->Fq; G->finalexp = (q - 1) / r;
  } else if (f.fam == 'd' || f.fam == 'g') {
    unsigned d = f.fam == 'd' ? m["k"].get_ui() / 2 : 5;
    vector<V> co; for (unsigned i = 0; i < d; i++) co.push_back(k.fromz(m["coeff" + std::to_string(i)]));
    G->Fqd = shell_ext(G->Fq, Fld::POLYMOD, co); const RF& kd = *G->Fqd->r;
    V v = kd.fromz(m["nqr"]);
    G->Fqk = shell_ext(G->Fqd, Fld::FQ, {kd.neg(v), kd.zero()});
    V v2 = kd.mul(v, v);
    G->E2.k = G->Fqd->r; G->E2.a = kd.mul(kd.fromb(G->E1.a), v2); G->E2.b = kd.mul(kd.fromb(G->E1.b), kd.mul(v2, v));
    G->h1 = m["n"] / r; Z t = q + 1 - m["n"]; Z qd; mpz_pow_ui(mp(qd), mp(q), d);
    G->h2 = (qd + 1 + trace_ext(q, t, d)) / r;
    G->finalexp = (qd * qd - 1) / r;
  } else {
    G->Fqd = shell_ext(G->Fq, Fld::FQ, {k.neg(k.fromz(m["beta"])), k.zero()}); const RF& kd = *G->Fqd->r;
    V al; al.c = {k.fromz(m["alpha0"]), k.fromz(m["alpha1"])};
    vector<V> mod(6, kd.zero()); mod[0] = al;
    G->Fqk = shell_ext(G->Fqd, Fld::POLYMOD, mod);
    G->E2.k = G->Fqd->r; G->E2.a = kd.zero(); G->E2.b = kd.neg(kd.mul(al, kd.fromb(G->E1.b)));
    G->h1 = 1; Z q12; mpz_pow_ui(mp(q12), mp(q), 12); G->finalexp = (q12 - 1) / r;
    // sextic twist over Fq2: order q^2+1 - (t2 +- 3v)/2 with t2^2-4q^2 = -3 v^2; the one divisible by r
    Z t2 = trace_ext(q, q + 1 - r, 2), v2 = (4 * q * q - t2 * t2) / 3, v; mpz_sqrt(mp(v), mp(v2));
    Z n1 = q * q + 1 - (t2 + 3 * v) / 2, n2 = q * q + 1 - (t2 - 3 * v) / 2;
    G->h2 = (n1 % r == 0 ? n1 : n2) / r;
  }
  if (G->symmetric) { G->E2 = G->E1; G->h2 = G->h1; }
  return G;
}
V Pg::up(const V& x) const {
  const RF& K = *Fqk->r;
  if (Fqk == Fq) return x;
  if (Fqd == Fq) return K.fromb(x);
  return K.fromb(Fqd->r->fromb(x));
}
Pt Pg::up2(const Pt& Q) const {
  const RF& K = *Fqk->r; Pt P; P.inf = Q.inf; if (Q.inf) return P;
  if (fam == 'e') return Q;
  if (fam == 'a' || fam == '1') { P.x = K.fromb(Fq->r->neg(Q.x)); P.y = K.zero(); P.y.c[1] = Q.y; return P; }
  const RF& kd = *Fqd->r;
  if (fam == 'f') {
    V ai = kd.neg(kd.inv(kd.neg(E2.b)));  // -(alpha b)^-1
    ai = kd.mul(ai, kd.fromb(E1.b));      // -alpha^-1 = v^-6
    P.x = K.zero(); P.x.c[4] = kd.mul(ai, Q.x); P.y = K.zero(); P.y.c[3] = kd.mul(ai, Q.y); return P;
  }
  V v = kd.neg(Fqk->r->mod[0]), vi = kd.inv(v);
  P.x = K.fromb(kd.mul(vi, Q.x)); P.y = K.zero(); P.y.c[1] = kd.mul(kd.mul(vi, vi), Q.y); return P;
}
// f_{n,P}(Q) with P over Fq and Q over Fqk
static bool mill(const Pg& G, const Pt& P, const Pt& Q, V& out) {
  const RF &k = *G.Fq->r, &K = *G.Fqk->r; const RC& E = G.E1;
  V num = K.one(), den = K.one(); Pt A = P;
  auto step = [&](const Pt& B) {
    if (A.inf || B.inf) { if (A.inf) A = B; return true; }
    Pt S = E.add(A, B); V l;
    if (S.inf) l = K.sub(Q.x, G.up(A.x));
    else {
      V s = A.x == B.x ? k.div(k.add(k.muli(k.mul(A.x, A.x), 3), E.a), k.muli(A.y, 2)) : k.div(k.sub(B.y, A.y), k.sub(B.x, A.x));
      l = K.sub(K.sub(Q.y, G.up(A.y)), K.mul(G.up(s), K.sub(Q.x, G.up(A.x))));
    }
    if (K.is0(l)) return false;
    num = K.mul(num, l);
    if (!S.inf) { V v = K.sub(Q.x, G.up(S.x)); if (K.is0(v)) return false; den = K.mul(den, v); }
    A = S; return true;
  };
  for (long i = (long)mpz_sizeinbase(mp(G.r), 2) - 2; i >= 0; i--) {
    num = K.mul(num, num); den = K.mul(den, den);
    Pt B = A; if (!step(B)) return false;
    if (mpz_tstbit(mp(G.r), i) && !step(P)) return false;
  }
  if (!A.inf) { fprintf(stderr, "model: point not of order r in %s\n", G.name.c_str()); exit(3); }
  out = K.div(num, den); return true;
}
bool Pg::chain_ok(const Pt& P) const {
  if (P.inf || rfac.empty() || rfac[0] > (Z(1) << 40)) return true;
  Z o = r; for (auto& l : rfac) while (o % l == 0 && E1.mul(P, o / l).inf) o /= l;
  if (o == 1) return true;
  // prefixes of r modulo the order of P
  for (long i = (long)mpz_sizeinbase(mp(r), 2) - 1; i >= 1; i--) {
    Z k = (r >> i) % o, k2 = 2 * k % o;
    if (k == 0 || k2 == 0 || (k2 == 1 && i > 1) || (i > 1 && k2 == o - 1) || (i < (long)mpz_sizeinbase(mp(r), 2) - 1 && (k == 1 || k == o - 1))) return false;
    for (int d = -4; d <= 4; d++) if (i > 1 && (Z(k2 + d) % o == 0 || Z(k + d) % o == 0) && (r >> i) > 8) return false;
  }
  return true;
}
bool Pg::tate(Case& c, const Pt& P, const Pt& Q, V& out) const {
  const RF& K = *Fqk->r;
  if (P.inf || Q.inf) { out = K.one(); return true; }
  V f;
  if (fam != 'e') { if (!mill(*this, P, up2(Q), f)) return false; }
  else {
    for (int t = 0;; t++) {
      if (t > 20) return false;
      Pt R = rand_pt(c, E1), QR = E1.add(Q, R); V g;
      if (R.inf || QR.inf || !mill(*this, P, QR, f) || !mill(*this, P, R, g)) continue;
      f = K.div(f, g); break;
    }
  }
  out = K.pow(f, finalexp); return true;
}
Pt gen_g1(Case& c, const Pg& G) {
  if (c.chance(1, 12)) return Pt();
  Pt P = G.E1.mul(rand_pt(c, G.E1), G.h1);
  if (!G.rfac.empty() && c.chance(1, 5)) P = G.E1.mul(P, G.rfac[c.u(0, G.rfac.size() - 1)]);
  return P;
}
Pt gen_g2(Case& c, const Pg& G) {
  if (G.symmetric) return gen_g1(c, G);
  if (c.chance(1, 12)) return Pt();
  Pt P = rand_pt(c, G.E2);
  if (c.chance(1, 4)) P = G.E2.mul(P, G.h2);
  return P;
}
static void putraw(Case& c, const RC& R, const Fld& K, element_ptr e, const Pt& P) {
  if (P.inf) {
    if (c.flip()) { element_random(e); E t(e->field); element_neg(t, e); element_add(e, e, t); } else element_set0(e);
    REQ(element_is0(e), "identity not recognised");
    return;
  }
  for (int t = 0; element_random(e), element_is0(e); t++) REQ(t < 200, "random point is always the identity");
  E x(element_item(e, 0)->field), y(element_item(e, 1)->field); put(x, K, P.x); put(y, K, P.y);
  string s = enc(x) + enc(y);
  element_from_bytes(e, (unsigned char*)&s[0]);
  REQ(getpt(e, K) == P, "decoding the coordinates of " << pts(P) << " gave " << pts(getpt(e, K)));
}
void put1(Case& c, const Pg& G, element_ptr e, const Pt& P) { putraw(c, G.E1, *G.Fq, e, P); }
void put2(Case& c, const Pg& G, element_ptr e, const Pt& P) { putraw(c, G.E2, *G.Fqd, e, P); }
void gen_elt(Case& c, const Pg& G, int which, element_ptr e) {
  if (which == 3) {  // GT
    E a(G.p->G1), b(G.p->G2); gen_elt(c, G, 1, a); gen_elt(c, G, 2, b);
    switch (c.u(0, 5)) { case 0: element_set1(e); break; case 1: element_random(e); break; default: G.need_chain(a); pairing_apply(e, a, b, const_cast<Pg&>(G).p); }
    return;
  }
  if (which == 0) { Z z = c.edge(G.r); element_set_mpz(e, mp(z)); return; }
  if (G.fam == 'i') {
    if (c.chance(1, 12)) { element_set0(e); return; }
    element_random(e); if (c.flip()) { Z n = c.edge(G.r); element_mul_mpz(e, e, mp(n)); }
    return;
  }
  if (c.chance(1, 4)) { element_random(e); return; }
  if (which == 1) put1(c, G, e, gen_g1(c, G)); else put2(c, G, e, gen_g2(c, G));
}
string gkey(element_ptr e) { return capture_file([&](FILE* f) { element_out_str(f, 10, e); }); }
