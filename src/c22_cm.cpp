#include <algorithm>
#include <set>
#include "pairings.h"
extern "C" {
#include <pbc_mnt.h>
#include <pbc_hilbert.h>
}
// C22: complex-multiplication search and class polynomials.
namespace {
// Members whose field has 111 to 400 bits, rare among small discriminants (found by a scan over
// D < 10^6; each is recomputed and tested below before anything is asked of the library).
struct Big { int k; unsigned D; const char* x; };
const Big BIG[] = {
  {10, 18883, "-13592659334"},
  {10, 35707, "18496897600565332717798"},
  {6, 947, "54945628328362218"},
  {6, 1003, "29235817584434100267368659466861370759735760"},
  {6, 3139, "-794087845306104333"},
  {6, 8523, "54945628328362218"},
  {6, 9563, "-723615266361775855805249007967"},
  {6, 9883, "1077870203855947631998"},
  {6, 11387, "3517741416897516739175"},
  {6, 18467, "-411147548681410092414514135"},
  {6, 19587, "2202941387848489593"},
  {6, 23563, "2200867473724486033"},
  {6, 25187, "2003972334275496470"},
  {6, 28251, "-794087845306104333"},
  {6, 53147, "182483160837291980120"},
  {6, 53947, "-34822623245018328209165815246612138427753042"},
  {6, 62003, "395554295667128312395673"},
  {6, 78459, "-426526213740630790638"},
  {6, 93259, "-2117784994781951768"},
  {6, 105171, "150119997102403830148319063412"},
  {6, 125499, "34413274874793537"},
  {6, 139051, "46624215293834531242"},
  {6, 147883, "-238516640131508934560"},
  {6, 173203, "-2468288911739391640580"},
  {6, 176283, "2202941387848489593"},
  {6, 191963, "1116144475180811135"},
  {6, 205483, "33582045857890190310635473845604505650"},
  {6, 210747, "-67799297163174374727"},
  {6, 238859, "8025709127804452848309461305928934644002043364033586948900692"},
  {6, 249563, "-35332420718531948041204975158977504437"},
  {6, 277699, "-79048067569955774234245898"},
  {6, 278027, "16011682097292243498440169968"},
  {6, 285707, "-31886551369466587070482901378156033755698553647"},
  {6, 290491, "-63747580879621848"},
  {6, 313851, "1341680331334669821107977904667"},
  {6, 366059, "-85269495890803403086023"},
  {6, 462403, "-152432460724544157"},
  {6, 476971, "7901349880364286837845108594131719330827566570396072"},
  {6, 481843, "-401125512874992521051595550086733907697752830414006805"},
  {6, 496659, "-1938349788736867434758349971322498"},
  {6, 519243, "10295025764453345157624250863127744533"},
  {6, 536707, "41852617092864060"},
  {6, 557611, "2128309868414064147"},
  {6, 583067, "-194305600674935881250599027"},
  {6, 621771, "-1053685686334421175404498118393"},
  {6, 658779, "-400691063888331041173698902058"},
  {6, 684811, "-4130826968157827288"},
  {6, 706131, "-426526213740630790638"},
  {6, 762779, "-78309078174698623"},
  {6, 813443, "-3453794198448503655315"},
  {6, 840347, "-92405866600037418140036677"},
  {6, 846203, "-131696497712735294448560154064005"},
  {6, 848051, "-6806684596731258471583"},
  {6, 849683, "-3353972403062165502"},
  {6, 851827, "-471677110319681057"},
  {6, 885067, "98317599365290169863"},
  {6, 926531, "3114718571871114527"},
  {6, 946539, "150119997102403830148319063412"},
};
struct Cm { Z q, n, h, r; long D; int k; };
struct Got { vector<Cm> v; int stop_after = -1, ret = 7; };
int collect(pbc_cm_ptr cm, void* d) {
  Got* g = (Got*)d; g->v.push_back({Z(cm->q), Z(cm->n), Z(cm->h), Z(cm->r), cm->D, cm->k});
  return (int)g->v.size() == g->stop_after ? g->ret : 0;
}
bool square(const Z& x) { return x >= 0 && mpz_perfect_square_p(x.get_mpz_t()); }
bool prime(const Z& x) { return x > 1 && mpz_probab_prime_p(x.get_mpz_t(), 30); }
unsigned bits(const Z& x) { return mpz_sizeinbase(x.get_mpz_t(), 2); }
// n = h * r with r prime, not dividing h, and h composed of primes of at most 16 bits
bool almost_prime(Z n, Z& h, Z& r) {
  h = 1; if (prime(n)) { r = n; return true; }
  for (unsigned long p = 2; p < 65536; p++) { if (n % p != 0) continue; while (n % p == 0) { n /= p; h *= p; } if (prime(n)) { r = n; return true; } if (n == 1) return false; }
  return false;
}
void sound(const Cm& m, long D, int k, unsigned limit) {
  string w = "q=" + str(m.q) + " n=" + str(m.n) + " r=" + str(m.r) + " h=" + str(m.h) + ": ";
  if (m.D != D || m.k != k) fail(w + "wrong discriminant or embedding degree");
  if (!prime(m.q)) fail(w + "field order is not prime");
  if (!prime(m.r)) fail(w + "r is not prime");
  if (m.h * m.r != m.n) fail(w + "h r differs from n");
  Z t = m.q + 1 - m.n, d = 4 * m.q - t * t;
  if (d <= 0) fail(w + "outside the Hasse interval");
  if (d % D != 0 || !square(d / D)) fail(w + "4q - t^2 is not D times a square");
  Z x = 1; int e = 0; do { x = x * m.q % m.r; e++; } while (x != 1 && e < 40);
  if (m.r > k + 1 && e != k) fail(w + "embedding degree is " + std::to_string(e));
  if (bits(m.r) > limit) fail(w + "r has more than " + std::to_string(limit) + " bits");
}
// (field order, trace) of the family member for the integer x; false unless it qualifies
bool member(int k, const Z& x, Z& q, Z& n) {
  Z t; if (k == 6) { q = 4 * x * x + 1; t = 1 - 2 * x; } else { q = 25 * x * x * x * x + 25 * x * x * x + 25 * x * x + 10 * x + 3; t = 10 * x * x + 5 * x + 3; }
  n = q + 1 - t; Z h, r; return prime(q) && n > 1 && almost_prime(n, h, r);
}
Z disc(int k, const Z& x) { return k == 6 ? Z(12 * x * x + 4 * x + 3) : Z(15 * x * x + 10 * x + 3); }   // D V^2
// x from the Pell unknown U (|U| = |6x+1| or |15x+5|)
bool from_u(int k, const Z& U, Z& x) { Z m = k == 6 ? 6 : 15, a = k == 6 ? 1 : 5; for (int s : {1, -1}) { Z v = s * U - a; if (mpz_divisible_p(v.get_mpz_t(), m.get_mpz_t())) { x = v / m; return true; } } return false; }
string key(const Cm& m) { return str(m.q) + "/" + str(m.n) + "/" + str(m.h) + "/" + str(m.r); }
Got search(int k, unsigned D, unsigned limit, int stop = -1, int ret = 7, int* rv = nullptr) { Got g; g.stop_after = stop; g.ret = ret; int r = k == 6 ? pbc_cm_search_d(collect, &g, D, limit) : pbc_cm_search_g(collect, &g, D, limit); if (rv) *rv = r; return g; }
}
// Backwards: a family member is chosen first, the search for its discriminant has to report it.
CHECK("C22", cm_member_found, 5000, 300000, 20, "a qualifying member was searched for") {
  int k = c.flip() ? 6 : 10; Z x = c.bits(c.u(1, k == 6 ? 14 : 13)); if (c.flip()) x = -x; Z q, n; int tries = 0;
  while (!member(k, x, q, n) || bits(disc(k, x)) > 31) { x += c.flip() ? 1 : -1; if (abs(x) > 20000) x = 1; if (++tries > 3000) discard(); }
  Z d = disc(k, x); // remove a square factor
  unsigned D = d.get_ui(); vector<unsigned> f; for (unsigned long s = 2; s * s <= D; s++) while (D % (s * s) == 0) { D /= s * s; f.push_back(s); }
  for (auto s : f) if (c.chance(1, 3)) D *= s * s;
  if (square(Z(D) * (k == 6 ? 3 : 15))) discard();
  unsigned limit = bits(q) + c.u(1, 60);
  c.d << (k == 6 ? "MNT" : "Freeman") << " x=" << x << " q=" << q << " n=" << n << " D=" << D << " limit " << limit;
  c.nontrivial(); c.label(k == 6 ? "MNT" : "Freeman"); c.label(bits(Z(D)) > 20 ? "large D" : D < 30 ? "tiny D" : "D");
  int rv; Got g = search(k, D, limit, -1, 7, &rv); if (rv) fail("search returned " + std::to_string(rv) + " although the callback always returned 0");
  bool seen = false; std::set<string> S; for (auto& m : g.v) { sound(m, D, k, limit); if (!S.insert(key(m)).second) fail("reported twice: " + key(m)); if (m.q == q && m.n == n) seen = true; }
  if (!seen) fail("not reported");
  if (g.v.size()) { int at = c.u(1, g.v.size()), ret = c.pick({1, -3, 100}); Got s = search(k, D, limit, at, ret, &rv); if (rv != ret || (int)s.v.size() != at) fail("the callback's value did not stop the search"); for (int i = 0; i < at; i++) if (key(s.v[i]) != key(g.v[i])) fail("other order after an early stop"); }
}
// Members of cryptographic size: the limit decides whether they are due.
CHECK("C22", cm_large_member, 300, 30000, 20, "the member is within the limit") {
  const Big& b = BIG[c.u(0, sizeof(BIG) / sizeof(*BIG) - 1)]; Z x(b.x), q, n; if (!member(b.k, x, q, n)) discard();
  Z d = disc(b.k, x); if (d % b.D != 0 || !square(d / b.D)) discard();
  Z h, r; almost_prime(n, h, r); unsigned limit = c.chance(1, 4) ? c.u(20, bits(q)) : bits(q) + c.u(0, 60);
  c.d << (b.k == 6 ? "MNT" : "Freeman") << " D=" << b.D << " q of " << bits(q) << " bits, r of " << bits(r) << " bits, limit " << limit;
  Got g = search(b.k, b.D, limit); bool seen = false; std::set<string> S;
  for (auto& m : g.v) { sound(m, b.D, b.k, limit); if (!S.insert(key(m)).second) fail("reported twice: " + key(m)); if (m.q == q && m.n == n) seen = true; }
  if (bits(q) <= limit) { c.nontrivial(); if (!seen) fail("not reported: q=" + str(q) + " n=" + str(n)); }
}
// Forwards: all members for a small discriminant, from an independent solution of the Pell equation.
CHECK("C22", cm_search_complete, 15000, 1000000, 20, "at least one member exists") {
  int k = c.flip() ? 6 : 10; unsigned D = c.u(1, c.pick({60u, 400u, 3000u, 20000u})); unsigned limit = c.u(10, 260); Z N = k == 6 ? 8 : 20, M = Z(D) * (k == 6 ? 3 : 15);
  c.d << (k == 6 ? "MNT" : "Freeman") << " D=" << D << " limit " << limit;
  std::set<string> want;
  if (!square(M)) {
    // fundamental solution of a^2 - M b^2 = 1 by continued fractions
    Z a0 = sqrt(M), m = 0, d = 1, a = a0, p0 = 1, p1 = a0, q0 = 0, q1 = 1; int it = 0;
    while (p1 * p1 - M * q1 * q1 != 1) { m = d * a - m; d = (M - m * m) / d; a = (a0 + m) / d; Z t = a * p1 + p0; p0 = p1; p1 = t; t = a * q1 + q0; q0 = q1; q1 = t; if (++it > 4000) discard(); }
    // every class of u^2 - M v^2 = -N has a member with v^2 <= N (p1+1) / (2 M)
    Z vb = sqrt(Z(N * (p1 + 1) / (2 * M))) + 1; bool full = vb <= 300000; unsigned long V = full ? vb.get_ui() : 3000;
    vector<std::pair<Z, Z>> base; for (unsigned long v = 1; v <= V; v++) { Z u2 = M * v * v - N; if (u2 >= 0 && square(u2)) base.push_back({sqrt(u2), Z(v)}); }
    c.label(full ? "all classes" : "small solutions only");
    auto take = [&](Z u) { Z x, q, n; u = abs(u); if (!from_u(k, u, x) || !member(k, x, q, n) || bits(q) > limit) return; Z h, r; almost_prime(n, h, r); want.insert(key({q, n, h, r, (long)D, k})); };
    for (auto& b : base) for (int s : {1, -1}) { Z u = s * b.first, v = b.second; for (int i = 0; bits(u) < 400; i++) { take(u); Z t = u * p1 + M * v * q1; v = u * q1 + v * p1; u = t; } }
  }
  if (want.size()) c.nontrivial();
  Got g = search(k, D, limit); std::set<string> got; for (auto& m : g.v) { sound(m, D, k, limit); if (!got.insert(key(m)).second) fail("reported twice: " + key(m)); }
  for (auto& w : want) if (!got.count(w)) fail("not reported (q/n/h/r): " + w);
}
// The class polynomial modulo a prime p with 4p = t^2 + D is the product of X - j over
// all j-invariants of curves over F_p with trace t or -t (Deuring); traces are counted.
namespace {
unsigned long mulm(unsigned long a, unsigned long b, unsigned long p) { return a * b % p; }
unsigned long powm(unsigned long a, unsigned long e, unsigned long p) { unsigned long r = 1; for (; e; e >>= 1, a = a * a % p) if (e & 1) r = r * a % p; return r; }
struct Counter { unsigned long p; vector<signed char> chi; Counter(unsigned long p) : p(p), chi(p, -1) { chi[0] = 0; for (unsigned long i = 1; i < p; i++) chi[i * i % p] = 1; }
  long trace(unsigned long a, unsigned long b) { long s = 0; for (unsigned long x = 0; x < p; x++) s -= chi[((x * x + a) % p * x + b) % p]; return s; } };
bool has_trace(Counter& C, unsigned long j, long t) {
  unsigned long p = C.p, g = 2; 
  if (j == 0) { // six twists y^2 = x^3 + b
    for (unsigned long b = 1; b < p && b < 60; b++) if (std::abs(C.trace(0, b)) == t) return true; return false; }
  if (j == 1728 % p) { for (unsigned long a = 1; a < p && a < 40; a++) if (std::abs(C.trace(a, 0)) == t) return true; return false; }
  (void)g; unsigned long k = mulm(j, powm((1728 % p + p - j) % p, p - 2, p), p);
  return std::abs(C.trace(3 * k % p, 2 * k % p)) == t;
}
}
CHECK("C22", class_polynomial, 900, 60000, 20, "class number above one") {
  int D; do D = c.u(3, c.pick({40u, 200u, 800u, 8000u})); while (D % 4 == 1 || D % 4 == 2);
  c.d << "D=" << D;
  mpz_t* co; size_t n = pbc_hilbert(&co, D); vector<Z> H; for (size_t i = 0; i < n; i++) H.push_back(Z(co[i])); pbc_hilbert_free(co, n);
  // reduced forms
  size_t forms = 0; for (long a = 1; 3 * a * a <= D; a++) for (long b = -a + 1; b <= a; b++) { if ((b * b + D) % (4 * a)) continue; long cc = (b * b + D) / (4 * a); if (cc < a || (cc == a && b < 0)) continue; forms++; }
  if (H.size() != forms + 1) fail("degree " + std::to_string((long)H.size() - 1) + ", but there are " + std::to_string(forms) + " reduced forms");
  if (H.back() != 1) fail("not monic");
  if (forms > 1) c.nontrivial();
  int done = 0; long t = (D & 1) + 2 * c.u(0, 40); 
  for (; done < 2; t += 2) {
    long p4 = t * t + D; if (p4 % 4 || t == 0) continue; unsigned long p = p4 / 4; if (p < 13 || !prime(Z(p))) { if (t > 4000) break; continue; }
    if (p > 60000) break;
    Counter C(p); vector<unsigned long> P{1};
    // candidate roots: only zeros of H can match; still every j is counted on small fields
    vector<unsigned long> h; for (auto& z : H) h.push_back(mpz_fdiv_ui(z.get_mpz_t(), p));
    bool all = p <= 1500; size_t roots = 0;
    for (unsigned long j = 0; j < p; j++) { unsigned long v = 0; for (size_t i = h.size(); i--;) v = (v * j + h[i]) % p; bool z = v == 0;
      if (!z && !all) continue; bool w = has_trace(C, j, t);
      if (w != z) fail("modulo " + std::to_string(p) + " the value " + std::to_string(j) + (w ? " is the j-invariant of a curve with trace " : " is a root but no curve has it with trace ") + std::to_string(t) + (w ? " but not a root" : ""));
      if (z) roots++; }
    if (roots != forms) fail("modulo " + std::to_string(p) + " there are " + std::to_string(roots) + " roots instead of " + std::to_string(forms));
    done++; c.label(all ? "every j counted" : "roots counted");
  }
}
