#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pairings.h"
extern "C" {
#include <pbc_mnt.h>
#include <pbc_hilbert.h>
}
// C21: parameter generators.
namespace {
bool prime(const Z& x) { return x > 1 && mpz_probab_prime_p(x.get_mpz_t(), 30); }
unsigned nb(const Z& x) { return mpz_sizeinbase(x.get_mpz_t(), 2); }
Z ipow(const Z& b, unsigned e) { Z r; mpz_pow_ui(r.get_mpz_t(), b.get_mpz_t(), e); return r; }
unsigned embed(const Z& q, const Z& r) { Z x = q % r; unsigned k = 1; while (x != 1 && k < 64) { x = x * q % r; k++; } return k; }
struct Want { char fam; int rbits = 0, qbits = 0; Z n; long D = 0; Z cq, cn, cr, ch; bool big = true; };
#define T(cond, msg) do { if (!(cond)) { std::ostringstream o; o << msg << "\n" << text; fail(o.str()); } } while (0)
Z ternary_order(unsigned m, int s) { Z a = ipow(3, m) + 1, b = ipow(3, (m + 1) / 2); return s > 0 ? Z(a + b) : Z(a - b); }
// polynomial arithmetic modulo 3 for the trinomial x^m + x^t + 2
bool trinomial_irreducible(unsigned m, unsigned t) {
  RFp k = rf_prime(3); P f(m + 1, k->zero()); f[0] = k->fromz(2); f[t] = k->add(f[t], k->one()); f[m] = k->one(); 
  // bit-level Frobenius: y -> y^3 by spreading coefficients and reducing with the trinomial
  typedef vector<signed char> C; auto cube = [&](const C& a) { C r(3 * m, 0); for (unsigned i = 0; i < m; i++) r[3 * i] = a[i]; for (unsigned i = 3 * m; i-- > m;) if (r[i]) { int v = r[i]; r[i] = 0; r[i - m + t] = (r[i - m + t] + 2 * v) % 3; r[i - m] = (r[i - m] + v) % 3; } r.resize(m); return r; };
  auto gcd_one = [&](C a) { P g; for (auto v : a) g.push_back(k->fromz(v)); pnorm(*k, g); if (g.empty()) return false; P d = pgcd(*k, f, g); return d.size() == 1; };
  C x(m, 0); x[1] = 1; C y = x; vector<unsigned> pr; unsigned n = m; for (unsigned d = 2; d <= n; d++) if (n % d == 0) { pr.push_back(d); while (n % d == 0) n /= d; }
  std::map<unsigned, bool> at; for (auto p : pr) at[m / p] = true;
  for (unsigned i = 1; i <= m; i++) { y = cube(y); if (at.count(i)) { C z = y; z[1] = (z[1] + 2) % 3; if (!gcd_one(z)) return false; } }
  return y == x;
}
void number_theory(Case& c, const string& text, const Want& w) {
  string type; auto m = parse_params(text, &type);
  T(type == (w.fam == '1' ? "a1" : string(1, w.fam)), "wrong type " << type);
  if (w.fam == 'a' || w.fam == 'e') {
    Z q = m["q"], r = m["r"], h = m["h"]; Z f = (Z(1) << m["exp2"].get_ui()); if (m["sign1"] > 0) f += Z(1) << m["exp1"].get_ui(); else f -= Z(1) << m["exp1"].get_ui(); f += m["sign0"] > 0 ? 1 : -1;
    T(abs(m["sign1"]) == 1 && abs(m["sign0"]) == 1, "signs"); T(f == r, "r differs from its Solinas form");
    T(prime(q), "q is not prime"); T(prime(r), "r is not prime");
    if (w.fam == 'a') { T(h * r == q + 1, "h r differs from q + 1"); T(q % 4 == 3, "q is not 3 mod 4"); T((int)nb(q) <= std::max(w.qbits, w.rbits + 6) + 1, "q has " << nb(q) << " bits, requested " << w.qbits); }
    else { T(h % r != 0, "the cofactor is divisible by r"); T(h * r * r + 1 == q, "h r^2 + 1 differs from q"); T((int)nb(q) <= std::max(w.qbits, 2 * w.rbits + 8) + 2, "q has " << nb(q) << " bits, requested " << w.qbits); }
    T((int)nb(r) <= w.rbits && (int)nb(r) >= w.rbits - 1, "r has " << nb(r) << " bits, requested " << w.rbits);
  } else if (w.fam == '1') {
    T(m["n"] == w.n, "group order is not the requested one"); T(prime(m["p"]), "p is not prime"); T(m["l"] * m["n"] == m["p"] + 1, "l n differs from p + 1"); T(m["p"] % 4 == 3, "p is not 3 mod 4"); T(nb(m["p"]) <= nb(w.n) + 24, "p much longer than n");
  } else if (w.fam == 'd' || w.fam == 'g') {
    unsigned k = w.fam == 'd' ? 6 : 10; Z q = m["q"], n = m["n"], r = m["r"], h = m["h"];
    T(q == w.cq && n == w.cn && r == w.cr && h == w.ch, "q, n, r, h differ from the CM parameters"); T(w.fam == 'g' || m["k"] == k, "embedding degree parameter");
    T(embed(q, r) == k, "embedding degree"); Z t = q + 1 - n, a = 2, b = t; for (unsigned i = 1; i < k; i++) { Z x = t * b - q * a; a = b; b = x; }
    Z nk = ipow(q, k) + 1 - b; T(m["nk"] == nk, "nk is not the number of points over F_q^k"); T(m["hk"] * r * r == nk, "hk r^2 differs from nk");
    RFp K = rf_prime(q); P f; for (unsigned i = 0; i < k / 2; i++) { Z x = m["coeff" + std::to_string(i)]; T(x >= 0 && x < q, "coefficient range"); f.push_back(K->fromz(x)); } f.push_back(K->one());
    T(pirred(*K, f), "extension polynomial is reducible"); T(mpz_jacobi(mp(m["nqr"]), mp(q)) == -1, "nqr is a residue");
    T(m["a"] >= 0 && m["a"] < q && m["b"] >= 0 && m["b"] < q, "coefficient range"); T((4 * m["a"] * m["a"] * m["a"] + 27 * m["b"] * m["b"]) % q != 0, "singular curve");
  } else if (w.fam == 'f') {
    Z q = m["q"], r = m["r"]; T(prime(q) && prime(r), "q or r is not prime");
    Z x2 = (q - r) / 6, x; T((q - r) % 6 == 0 && mpz_perfect_square_p(mp(x2)), "q - r is not 6 x^2"); mpz_sqrt(mp(x), mp(x2)); bool ok = false; for (int s : {1, -1}) { Z y = s * x; if (q == 36 * y * y * y * y + 36 * y * y * y + 24 * y * y + 6 * y + 1) ok = true; } T(ok, "q is not of the Barreto-Naehrig form");
    T((int)nb(q) <= w.qbits + 3 && (int)nb(q) >= w.qbits - 6, "q has " << nb(q) << " bits, requested " << w.qbits); T(embed(q, r) == 12, "embedding degree");
    T(mpz_jacobi(mp(m["beta"]), mp(q)) == -1, "beta is a residue"); T(m["b"] > 0 && m["b"] < q, "b out of range");
    RFp K = rf_prime(q); RFp K2 = rf_ext(K, {K->neg(K->fromz(m["beta"])), K->zero()}); V al; al.c = {K->fromz(m["alpha0"]), K->fromz(m["alpha1"])}; V na = K2->neg(al);
    T(!K2->is_sqr(na) && K2->pow(na, (q * q - 1) / 3) != K2->one(), "x^6 + alpha is reducible");
  } else {
    unsigned M = m["m"].get_ui(), t = m["t"].get_ui(); T(prime(m["n"]), "group order is not prime"); T((int)nb(m["n"]) > w.rbits, "group order has " << nb(m["n"]) << " bits, requested at least 2^" << w.rbits);
    Z N = m["n"] * m["n2"]; T(N == ternary_order(M, 1) || N == ternary_order(M, -1), "n n2 is not the order of the curve"); T(embed(ipow(3, M) % m["n"], m["n"]) == 6 || embed(3, m["n"]) == 6 * M || M % 2 == 1, "embedding degree"); T(t < M && trinomial_irreducible(M, t), "trinomial is reducible");
  }
}
void behaviour(Case& c, const string& text, const Want& w) {
  ParamFile f{"generated", text, w.fam, 0}; 
  if (w.fam == 'i') {  // a random point has the declared order and the pairing is bilinear on it (small members of the table only: the arithmetic is slow)
    if (w.rbits > 259 || (w.rbits > 150 && !c.chance(1, 3))) return;
    pairing_t p; if (pairing_init_set_str(p, text.c_str())) fail("own output rejected:\n" + text);
    struct Cl { pairing_ptr p; ~Cl() { pairing_clear(p); } } cl{p};
    E a(p->G1), b(p->G2), x(p->GT), y(p->GT), z(p->Zr); element_random(a); element_random(b); element_random(z);
    element_pairing(x, a, b); element_pow_zn(x, x, z); element_pow_mpz(y, x, p->r); T(element_is1(y), "pairing value not of the declared order");
    element_pow_zn(b, b, z); element_pairing(y, a, b); T(!element_cmp(x, y), "pairing is not bilinear"); element_pow_mpz(b, a, p->r); T(element_is1(b), "random point not of the declared order");
    return;
  }
  Pgp G = make_pairing(c, f);
  for (int i = 0; i < 4; i++) { T(G->E1.mul(rand_pt(c, G->E1), G->h1 * G->r * (w.fam == 'e' ? G->r : Z(1))).inf, "curve has another order"); if (!G->symmetric) T(G->E2.mul(rand_pt(c, G->E2), G->h2 * G->r).inf, "twist has another order"); }
  c.seed_lib(); E P(G->p->G1), Q(G->p->G2), P2(G->p->G1), Q2(G->p->G2), x(G->p->GT), y(G->p->GT), a(G->p->Zr), b(G->p->Zr);
  int tries = 0; do { element_random(P); element_random(Q); if (++tries > 50) fail("random elements are trivial"); } while (element_is0(P) || element_is0(Q));
  E z(G->p->G1); element_mul_mpz(z, P, G->p->r); T(element_is0(z), "element of G1 of another order");
  if (w.fam == '1') { // full order
    vector<Z> fac; Z n = w.n; for (Z d = 2; d < 1000 && n > 1; d++) if (n % d == 0) { fac.push_back(d); while (n % d == 0) n /= d; } if (n > 1) fac.push_back(n);
    for (auto& d : fac) { Z e = w.n / d; element_mul_mpz(z, P, mp(e)); if (element_is0(z)) return; } if (!G->chain_ok(get1(*G, P))) return; element_set(Q, P); }
  if (w.fam == 'a') element_set(Q, P);
  element_pairing(x, P, Q); for (int i = 0; w.fam == 'e' && element_is1(x) && i < 40; i++) { Pt R = G->E1.mul(rand_pt(c, G->E1), G->h1); if (R.inf) continue; put1(c, *G, Q, R); element_pairing(x, P, Q); }   // E: the full r-torsion is rational, isotropic pairs exist
  T(!element_is1(x), "degenerate pairing of " << gkey(P) << " and " << gkey(Q)); element_pow_mpz(y, x, G->p->r); T(element_is1(y), "value of another order");
  do element_random(a); while (element_is0(a)); do element_random(b); while (element_is0(b)); element_mul_zn(P2, P, a); element_mul_zn(Q2, Q, b); if (w.fam == '1' && !G->chain_ok(get1(*G, P2))) return;
  element_pairing(y, P2, Q2); element_mul(a, a, b); element_pow_zn(x, x, a); T(!element_cmp(x, y), "not bilinear");
}
int grab(pbc_cm_ptr cm, void* d) { auto* x = (std::pair<pbc_cm_ptr, unsigned>*)d; if (mpz_sizeinbase(cm->q, 2) < 36 || mpz_sizeinbase(cm->r, 2) < 8 || mpz_sizeinbase(cm->q, 2) > x->second) return 0; mpz_set(x->first->q, cm->q); mpz_set(x->first->n, cm->n); mpz_set(x->first->h, cm->h); mpz_set(x->first->r, cm->r); x->first->D = cm->D; x->first->k = cm->k; return 1; }
const unsigned DD[] = {7, 11, 19, 43, 67, 91, 163, 283, 395, 443, 1627, 1723, 2003, 2147, 1883, 5483, 9563, 4947, 14123, 3323, 8219, 4379, 6347};
const unsigned DG[] = {43, 67, 163, 187, 723, 1603, 2467, 3427, 4243, 4867, 5227, 29707, 8907, 10507};
struct Cmx { pbc_cm_t c; Cmx() { pbc_cm_init(c); } ~Cmx() { pbc_cm_clear(c); } };
}
static void generate(Case& c, char fam, Want& w, string& text, bool& ok) {
  w.fam = fam; pbc_param_t par; ok = true; c.seed_lib(); srand(c.u(0, 100000)); bool big = c.chance(1, 12);
  switch (fam) {
    case 'a': w.rbits = c.u(8, big ? 160 : 60); w.qbits = w.rbits + c.u(7, big ? 300 : 60); c.d << "A " << w.rbits << " " << w.qbits; pbc_param_init_a_gen(par, w.rbits, w.qbits); break;
    case 'e': w.rbits = c.u(6, big ? 100 : 30); w.qbits = 2 * w.rbits + c.u(8, big ? 100 : 40); c.d << "E " << w.rbits << " " << w.qbits; pbc_param_init_e_gen(par, w.rbits, w.qbits); break;
    case '1': w.n = c.flip() ? Z(2 * c.u(2, 5000) + 1) : Z(gen_prime(c, 40) * gen_prime(c, big ? 100 : 40)); if (w.n % 2 == 0) w.n++; if (w.n < 3) w.n = 3; c.d << "A1 " << w.n; pbc_param_init_a1_gen(par, mp(w.n)); break;
    case 'f': w.qbits = c.u(24, big ? 100 : 50); c.d << "F " << w.qbits; pbc_param_init_f_gen(par, w.qbits); break;
    case 'i': w.rbits = c.u(1, 892); if (c.u(0, 2)) { static const int th[] = {150, 206, 259, 316, 376, 430, 484, 552, 644, 696, 803, 892}; int k = c.u(0, 11); w.rbits = th[k] + (k < 11 ? c.u(0, 1) : 0); } c.d << "I " << w.rbits; pbc_param_init_i_gen(par, w.rbits); break;
    default: { Cmx cm; std::pair<pbc_cm_ptr, unsigned> g(cm.c, fam == 'd' ? 180 : 150); unsigned D; int tries = 0;
      do { if (++tries > 60) { ok = false; return; } D = c.flip() ? (fam == 'd' ? DD[c.u(0, 22)] : DG[c.u(0, 13)]) : fam == 'd' ? 4 * c.u(1, 700) + 3 : 120 * c.u(0, 30) + (c.flip() ? 43 : 67); } while (!(fam == 'd' ? pbc_cm_search_d(grab, &g, D, 500) : pbc_cm_search_g(grab, &g, D, 500)));
      w.D = D; w.cq = Z(cm.c->q); w.cn = Z(cm.c->n); w.cr = Z(cm.c->r); w.ch = Z(cm.c->h); c.d << (fam == 'd' ? "D " : "G ") << D << " q=" << w.cq;
      if (fam == 'd') pbc_param_init_d_gen(par, cm.c); else pbc_param_init_g_gen(par, cm.c); }
  }
  text = capture_file([&](FILE* f) { pbc_param_out_str(f, par); });
  // the parameter object builds the same pairing as its text
  if (fam != 'i') { pairing_t p, q; pairing_init_pbc_param(p, par); if (pairing_init_set_str(q, text.c_str())) { pairing_clear(p); pbc_param_clear(par); fail("own output rejected:\n" + text); } bool s = !mpz_cmp(p->r, q->r) && !mpz_cmp(p->G1->order, q->G1->order) && !mpz_cmp(p->GT->order, q->GT->order); pairing_clear(p); pairing_clear(q); if (!s) { pbc_param_clear(par); fail("the object and its text give different pairings"); } }
  else { pbc_param_t again; if (pbc_param_init_set_str(again, text.c_str())) { pbc_param_clear(par); fail("own output rejected:\n" + text); } string t2 = capture_file([&](FILE* f) { pbc_param_out_str(f, again); }); pbc_param_clear(again); if (t2 != text) fail("text changes when read back"); }
  pbc_param_clear(par);
}
CHECK("C21", generators, 1200, 100000, 20, "a generator succeeded") {
  char fam = c.pick({'a', 'e', '1', 'd', 'd', 'f', 'g', 'i'}); Want w; string text; bool ok; generate(c, fam, w, text, ok); if (!ok) discard();
  c.nontrivial(); c.label(string("gen ") + fam); number_theory(c, text, w); behaviour(c, text, w);
}
// Tiny groups of type E, where accidental divisibility is frequent.
CHECK("C21", tiny_groups, 3000, 300000, 200, "parameters were generated") {
  c.seed_lib(); Want w; w.fam = c.pick({'e', 'e', 'a'}); w.rbits = c.u(w.fam == 'e' ? 6 : 8, 10); w.qbits = (w.fam == 'e' ? 2 * w.rbits + 8 : w.rbits + 7) + c.u(0, 12); c.d << (w.fam == 'e' ? "E " : "A ") << w.rbits << " " << w.qbits; srand(c.u(0, 100000));
  pbc_param_t par; if (w.fam == 'e') pbc_param_init_e_gen(par, w.rbits, w.qbits); else pbc_param_init_a_gen(par, w.rbits, w.qbits);
  string text = capture_file([&](FILE* f) { pbc_param_out_str(f, par); }); pbc_param_clear(par); auto m = parse_params(text); c.d << " r=" << m["r"] << " h=" << m["h"];
  c.nontrivial(); c.label(string("gen ") + w.fam); number_theory(c, text, w);
}
// The command-line generators, with their own random source.
namespace {
string run_tool(Case& c, const vector<string>& a, int& rc) {
  string seed = std::to_string(c.u(0, 1000000));
  int p[2]; if (pipe(p)) fail("pipe"); pid_t k = fork();
  if (!k) { struct rlimit rl = {60, 61}; setrlimit(RLIMIT_CPU, &rl); signal(SIGXCPU, SIG_DFL); prctl(PR_SET_PDEATHSIG, SIGKILL); setenv("VP_TOOL_SEED", seed.c_str(), 1); dup2(p[1], 1); close(p[0]); close(p[1]); freopen("/dev/null", "w", stderr); vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(nullptr); execv(v[0], v.data()); _exit(127); }
  close(p[1]); string o; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n); close(p[0]); int st; waitpid(k, &st, 0); rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); return o;
}
}
CHECK("C21", tools, 110, 6000, 20, "a tool ran") {
  string dir = build_path() + "/gen/"; int k = c.u(0, 6), rc; Want w; string text; vector<string> a; auto S = [](long v) { return std::to_string(v); };
  switch (k) {
    case 0: w.fam = 'a'; w.rbits = c.u(8, 80); w.qbits = w.rbits + c.u(7, 100); a = {dir + "genaparam", S(w.rbits), S(w.qbits)}; break;
    case 1: w.fam = 'e'; w.rbits = c.u(6, 40); w.qbits = 2 * w.rbits + c.u(8, 60); a = {dir + "geneparam", S(w.rbits), S(w.qbits)}; break;
    case 2: w.fam = 'f'; w.qbits = c.u(24, 60); a = {dir + "genfparam", S(w.qbits)}; break;
    case 3: case 4: { bool d = k == 3; w.fam = d ? 'd' : 'g'; Cmx cm; struct One { static int f(pbc_cm_ptr c, void* d) { pbc_cm_ptr o = *(pbc_cm_ptr*)d; mpz_set(o->q, c->q); mpz_set(o->n, c->n); mpz_set(o->h, c->h); mpz_set(o->r, c->r); return 1; } }; pbc_cm_ptr p = cm.c; unsigned D = d ? DD[c.u(0, 22)] : DG[c.u(0, 13)]; a = {dir + (d ? "gendparam" : "gengparam"), S(D)};
      int found = d ? pbc_cm_search_d(One::f, &p, D, 500) : pbc_cm_search_g(One::f, &p, D, 500); bool legal = d ? D % 4 == 3 : D % 120 == 43 || D % 120 == 67;
      if (!found || !legal) { c.d << a[0].substr(dir.size()) << " " << D << " (no curve)"; c.nontrivial(); text = run_tool(c, a, rc); if (rc == 0 || text.size()) fail("exit status " + S(rc) + " although no curve exists for D=" + S(D) + "\n" + text); return; }
      if (mpz_sizeinbase(cm.c->q, 2) < 36 || mpz_sizeinbase(cm.c->q, 2) > 230) discard();
      w.cq = Z(cm.c->q); w.cn = Z(cm.c->n); w.cr = Z(cm.c->r); w.ch = Z(cm.c->h); break; }
    case 5: if (!c.chance(1, 6)) discard(); w.fam = '1'; a = {dir + "gena1param"}; break;
    default: { int D = c.u(3, 400), U = D + c.u(0, 12); a = {dir + "hilbertpoly", S(D), S(U)}; c.d << "hilbertpoly " << D << " " << U; c.nontrivial(); c.label("hilbertpoly"); text = run_tool(c, a, rc); if (rc) fail("exit status " + S(rc)); std::ostringstream o;
      for (; D <= U; D++) { if (D % 4 == 1 || D % 4 == 2) continue; mpz_t* co; size_t n = pbc_hilbert(&co, D); o << "D = " << D << "\n"; for (size_t i = n; i--;) { string x = i == 0 ? "" : i == 1 ? "X" : "X^" + S(i); if (i == n - 1) o << " " << x << "\n"; else o << (Z(co[i]) >= 0 ? "+" : "") << Z(co[i]) << x << "\n"; } pbc_hilbert_free(co, n); }
      if (o.str() != text) fail("printed\n" + text + "\nexpected\n" + o.str()); return; }
  }
  for (auto& s : a) c.d << s.substr(s.rfind('/') + 1) << " "; c.nontrivial(); c.label(a[0].substr(dir.size()));
  text = run_tool(c, a, rc); if (rc) fail("exit status " + S(rc));
  if (w.fam == '1') { auto m = parse_params(text); w.n = m["n"]; T(nb(w.n) >= 900 && nb(w.n) <= 1026, "group order size"); ParamFile f{"gena1param", text, '1', 0}; number_theory(c, text, w); return; }
  number_theory(c, text, w); behaviour(c, text, w);
}
