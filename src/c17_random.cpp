#include "structs.h"
#include "alloc.h"
#include <unistd.h>
// C17: randomness.
static long g_draws, g_extreme; static uint64_t g_state; static int g_how;
static void counting(mpz_t z, mpz_t limit, void* d) {
  if (++g_draws <= g_extreme) { if (g_how == 0 || (g_how == 2 && g_draws % 2)) mpz_set_ui(z, 0); else mpz_sub_ui(z, limit, 1); return; }   // a run of extreme values
  uint64_t* st = (uint64_t*)d; Z r = 0;
  size_t n = mpz_sizeinbase(limit, 2) / 64 + 2;
  for (size_t i = 0; i < n; i++) { *st += 0x9e3779b97f4a7c15ULL; uint64_t x = *st; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; x ^= x >> 31; Z w; mpz_import(w.get_mpz_t(), 1, 1, 8, 0, 0, &x); r = (r << 64) + w; }
  mpz_mod(z, r.get_mpz_t(), limit);
}
static Z edge_limit(Case& c) {
  if (c.chance(1, 30)) { unsigned b = c.flip() ? c.u(400, 3000) : c.u(3000, 10000); Z z = Z(1) << b; return c.flip() ? z : c.flip() ? Z(z - 1) : Z(c.bits(b) + 1); }
  switch (c.u(0, 5)) { case 0: return 1 + c.u(0, 9); case 1: return Z(1) << c.u(0, 300); case 2: return (Z(1) << c.u(0, 300)) + 1; case 3: return (Z(1) << c.u(1, 300)) - 1 > 0 ? Z((Z(1) << c.u(1, 300)) - 1) : Z(1); default: return c.bits(c.u(1, 400)) + 1; }
}
CHECK("C17", integers_in_range, 12000, 2000000, 200, "the range holds more than one value") {
  g_extreme = 0; Z lim = edge_limit(c); int src = c.u(0, 2); uint64_t st = c.raw(); unsigned seed = c.u(0, 0xffffffff);
  string path; FILE* tf = nullptr;
  string data;
  if (src == 2) {
    // a file source which starts with bytes and is long enough to succeed
    char nm[] = "/tmp/vp_rnd_XXXXXX"; int fd = mkstemp(nm); path = nm; tf = fdopen(fd, "wb"); data = c.bytes(c.u(0, 200)); for (int i = 0; i < 8000; i++) data += (char)(i * 37 + (i >> 5) * 101 + (int)(st & 255)); data += string(4000, 0); fwrite(data.data(), 1, data.size(), tf); fclose(tf);
  }
  auto arm = [&](uint64_t s) { if (src == 0) pbc_random_set_deterministic(seed); else if (src == 1) { g_state = s; pbc_random_set_function(counting, &g_state); } else pbc_random_set_file((char*)path.c_str()); };
  unsigned bits = c.chance(1, 30) ? c.flip() ? c.u(300, 3000) : c.u(3000, 10000) : c.u(0, 300); int k = c.u(1, 4);
  c.d << (src == 0 ? "seeded source" : src == 1 ? "function source" : "file source") << " limit " << lim << " bits " << bits << " " << k << " draws";
  vector<Z> first; string err;
  for (int round = 0; round < 2; round++) {
    arm(st); g_draws = 0;
    for (int i = 0; i < k; i++) {
      Z a = -7, b = -7; pbc_mpz_random(mp(a), mp(lim)); pbc_mpz_randomb(mp(b), bits);
      if (a < 0 || a >= lim) err = "random integer " + str(a) + " is not below " + str(lim);
      if (b < 0 || b >= (Z(1) << bits)) err = "random integer " + str(b) + " has more than " + std::to_string(bits) + " bits";
      if (src < 2 && ((lim > (Z(1) << 200) && a < (lim >> 100)) || (bits > 200 && b < (Z(1) << (bits - 100))))) err = "a random integer is far shorter than its range: " + str(a) + " below " + str(lim) + ", " + str(b) + " of " + std::to_string(bits) + " bits";
      if (!round) { first.push_back(a); first.push_back(b); }
      else if (first[2 * i] != a || first[2 * i + 1] != b) err = "the same source gave " + str(first[2 * i]) + "," + str(first[2 * i + 1]) + " and then " + str(a) + "," + str(b);
    }
    if (src == 1 && g_draws != 2 * k) err = "the configured function was called " + std::to_string(g_draws) + " times for " + std::to_string(2 * k) + " values";
  }
  if (src == 2) unlink(path.c_str());
  REQ(err.empty(), err);
  if (lim > 1) c.nontrivial(); c.label(src == 0 ? "seeded" : src == 1 ? "function" : "file");
}
// Uniformity of the integers themselves, by their leading part, a window of bits and the low bits.
CHECK("C17", integers_spread, 600, 30000, 20, "the range holds more than one value") {
  Z lim = c.u(0, 3) == 0 ? Z(2 + c.u(0, 300)) : c.chance(1, 2) ? Z((Z(1) << c.u(2, 200)) + c.bits(c.u(0, 3)) - c.bits(c.u(0, 3))) : Z(c.bits(c.u(2, 200)) + 2);
  if (lim < 2) lim = 2;
  if (c.chance(1, 12)) lim = (Z(1) << c.u(1900, 2300)) - c.u(0, 2);
  bool file = c.flip(); uint64_t st = c.raw(); int B = lim < 128 ? (int)lim.get_ui() : 128, N = 60 * B; unsigned nb = mpz_sizeinbase(lim.get_mpz_t(), 2), sh = nb > 8 ? c.u(0, nb - 8) : 0;
  c.d << (file ? "file source" : "seeded source") << " limit " << lim << ", " << N << " draws, window at bit " << sh;
  c.nontrivial(); c.label(file ? "file" : "seeded"); c.label(nb > 64 ? "long" : nb > 8 ? "several bytes" : "one byte");
  string path; FILE* f = nullptr; char nm[] = "/tmp/vp_rnd_XXXXXX"; string err;
  if (file) { int fd = mkstemp(nm); path = nm; f = fdopen(fd, "r+b"); pbc_random_set_file((char*)path.c_str()); } else pbc_random_set_deterministic((unsigned)st);
  auto rnd = [&] { st += 0x9e3779b97f4a7c15ULL; uint64_t x = st; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); };
  vector<int> top(B), win(16), low(16); size_t need = ((nb + 7) / 8) * 64; vector<uint64_t> buf(need / 8 + 1);
  for (int i = 0; i < N && err.empty(); i++) {
    if (file) { for (auto& b : buf) b = rnd(); rewind(f); fwrite(buf.data(), 8, buf.size(), f); fflush(f); }
    Z a = -7; pbc_mpz_random(mp(a), mp(lim)); if (a < 0 || a >= lim) { err = "random integer " + str(a) + " is not below the limit"; break; }
    Z t = a * B / lim; top[t.get_ui()]++; t = (a >> sh) % 16; win[t.get_ui()]++; t = a % 16; low[t.get_ui()]++;
  }
  if (file) { fclose(f); unlink(path.c_str()); }
  for (int i = 0; i < B && err.empty(); i++) if (top[i] < 8 || top[i] > 240) err = "part " + std::to_string(i) + " of " + std::to_string(B) + " of the range was hit " + std::to_string(top[i]) + " times";
  if (nb > 8) for (int i = 0; i < 16 && err.empty(); i++) for (auto* v : {&win, &low}) if ((*v)[i] < N / 40 || (*v)[i] > N / 7) err = "four bits took the value " + std::to_string(i) + " " + std::to_string((*v)[i]) + " times of " + std::to_string(N);
  REQ(err.empty(), err);
}
// A file that ends before a value below the limit was read: nothing is delivered.
CHECK("C17", file_runs_out, 1500, 100000, 60, "the file is not empty") {
  pbc_random_set_deterministic(1); AllocTrack A; {
  unsigned nb = c.u(1, 300); Z lim = Z(1) << (nb - 1); bool high = c.flip(); if (!high) lim += c.bits(nb - 1); size_t need = (mpz_sizeinbase(lim.get_mpz_t(), 2) + 7) / 8;
  string data = high ? string(c.u(0, 3 * need), (char)0xff) : c.bytes(c.u(0, need - 1)); bool missing = c.chance(1, 12);   // high: only values above the limit
  char nm[] = "/tmp/vp_rnd_XXXXXX"; int fd = mkstemp(nm); if (!data.empty() && write(fd, data.data(), data.size()) < 0) discard(); close(fd); if (missing) unlink(nm);
  Z was = c.bits(c.u(0, 200)), a = was; c.d << "limit " << lim << " file " << (missing ? "missing" : hex(data)) << " destination holds " << was;
  pbc_random_set_file(nm);
  { void* junk = pbc_malloc(need); memset(junk, 0, need); pbc_free(junk); }   // what an unread buffer would hold
  pbc_mpz_random(mp(a), mp(lim)); if (!missing) unlink(nm);
  pbc_random_set_deterministic(1);
  REQ(a == was, "delivered " << a);
  if (data.size()) c.nontrivial(); c.label(missing ? "missing" : high ? "values too big" : "short");
  }
  A.balanced("after the draw");
}
CHECK("C17", elements_reproducible, 12000, 600000, 40, "the structure has more than 2^16 elements") {
  c.seed_lib();
  Stp s = gen_struct(c, SK_PRIME | SK_EXT | SK_CURVE | SK_TERN | SK_PAIR, c.u(0, 9) ? 200 : 1200);
  E w(s->f); element_random(w);   // lazily computed field constants are fixed now
  int k = c.u(1, 4); bool det = c.chance(1, 3); uint64_t st = c.raw(); unsigned seed = c.u(0, 0xffffffff); int extreme = c.chance(1, 2) ? c.u(1, c.pick({3u, 14u})) : 0; g_how = c.u(0, 2);
  if (!det && extreme) { c.d << " [first " << extreme << " draws extreme]"; c.label("extreme draws"); }
  vector<string> first; bool same_as_first = true;
  for (int round = 0; round < 3; round++) {
    if (det) pbc_random_set_deterministic(seed + (round == 2)); else { g_state = st + (round == 2); pbc_random_set_function(counting, &g_state); }
    g_draws = 0; g_extreme = det ? 0 : extreme;
    for (int i = 0; i < k; i++) {
      E a(s->f); if ((round + i) & 1) element_set(a, w);   // whatever it held before
      element_random(a);
      string b = s->bad(a); REQ(b.empty(), "random element: " << b);
      if (s->G && s->which && s->G->model()) { E t(s->f); if (s->which == 3) element_pow_mpz(t, a, mp(s->G->r)); else element_mul_mpz(t, a, mp(s->G->r)); E o(s->f); if (s->which == 3) element_set1(o); else element_set0(o); REQ(!element_cmp(t, o), "random element " << s->key(a) << " is not in the group of order " << s->G->r); }
      string ka = s->key(a);
      if (round == 0) first.push_back(ka);
      else if (round == 1) REQ(first[i] == ka, "the same source gave " << first[i] << " and then " << ka);
      else if (first[i] != ka) same_as_first = false;
    }
    if (!det) REQ(g_draws > 0, "element_random did not use the configured source");
  }
  bool large = s->size > (Z(1) << 100) || (s->G && s->G->r > (Z(1) << 100));
  g_extreme = 0;
  if (large && (det || !extreme)) REQ(!same_as_first, "a different seed gives the same elements " << first[0]);
  if (s->size > 65536 || large) c.nontrivial(); c.label(det ? "seeded" : "function");
}
// small structures: every element appears, none grossly too often
CHECK("C17", well_spread, 3500, 200000, 20, "the structure has more than two elements") {
  c.seed_lib();
  std::map<string, long> n; long size = 0; string what; long PER = 90;
  int kind = c.u(0, 8); if (kind > 6) kind = 5; long lo = 20, hi = 230;
  auto draw = [&](field_ptr f, const std::function<string(element_ptr)>& key, long total) { E a(f); for (long i = 0; i < total; i++) { element_random(a); n[key(a)]++; } };
  if (kind == 0) { size = c.u(1, 64); Z lim = size; c.d << "integers below " << size; if (c.flip()) pbc_random_set_deterministic(c.u(0, 1u << 30)); for (long i = 0; i < PER * size; i++) { Z a; pbc_mpz_random(mp(a), mp(lim)); n[str(a)]++; } }
  else if (kind == 1) { unsigned b = c.u(0, 6); size = 1 << b; c.d << b << "-bit integers"; for (long i = 0; i < PER * size; i++) { Z a; pbc_mpz_randomb(mp(a), b); n[str(a)]++; } }
  else if (kind == 6) {   // all affine points of a curve, found by solving for y (twice as often when y = 0)
    Cvp C = gen_curve(c, c.u(0, 1)); if (C->cofac > 1 || C->N < 2 || C->N > 250) discard(); field_curve_use_random_solvefory(C->f); size = C->N.get_si() - 1; lo = 15; hi = 320; c.d << C->desc << " by solving for y"; Fld* k = C->K.get();
    draw(C->f, [k](element_ptr e) { return pts(getpt(e, *k)); }, PER * size); what = "curve points";
  } else {
    Stp s;
    if (kind == 2) s = st_field(gen_prime_field(c, 7));
    else if (kind == 3) s = st_field(gen_ext_field(c, 5, 1, 14));
    else if (kind == 4) s = gen_struct(c, SK_TERN);
    else {
      // groups of order below 1000
      ParamFile tiny; static vector<ParamFile> small; static bool once = false;
      if (!once) { once = true; for (auto& f : param_files()) { auto m = parse_params(f.text); Z r = f.fam == '1' || f.fam == 'i' ? m["n"] : m["r"]; if (r < 1000) small.push_back(f); } }
      if (c.flip()) {   // a fresh composite-order curve
        unsigned n = 2 * c.u(1, 60) + 1, l = 4 * c.u(1, 6); Z p = Z(n) * l - 1; while (!isprime(p)) { l += 4; p = Z(n) * l - 1; }
        tiny.fam = '1'; tiny.text = "type a1\np " + str(p) + "\nn " + std::to_string(n) + "\nl " + std::to_string(l) + "\n"; tiny.name = "a1 p=" + str(p) + " n=" + std::to_string(n); tiny.qbits = mpz_sizeinbase(p.get_mpz_t(), 2);
      } else tiny = small[c.u(0, small.size() - 1)];
      Pgp G = make_pairing(c, tiny);
      s = st_pairing(G, tiny.name[0] == 'a' && tiny.name[2] == ' ' ? (int)c.u(0, 1) : (int)c.u(0, 3));
      if (s->which == 2 && !G->symmetric) discard();   // cosets
      s->size = G->r;
      if (s->which == 3 && (!G->prime_r || G->fam == (char)103 || (G->fam == (char)100 && G->prm["k"] > 6) || (G->fam == (char)105 && c.u(0, 3)))) discard();   // composite order, or too slow to sample
    }
    if (kind != 4) c.d << s->desc;
    if (s->size > (kind == 5 ? 1000 : 200)) discard(); if (s->size > 150) PER = 60;
    size = s->size.get_si(); draw(s->f, s->key, PER * size); what = s->kind;
  }
  REQ((long)n.size() <= size, n.size() << " different values in a structure of " << size);
  REQ((long)n.size() == size, "only " << n.size() << " of " << size << " elements appear in " << PER * size << " draws");
  for (auto& x : n) { REQ(x.second >= (PER == 60 ? 10 : lo), x.first << " appears only " << x.second << " times, expected about " << PER); REQ(x.second <= hi, x.first << " appears " << x.second << " times, expected about " << PER); }
  if (size > 2) c.nontrivial(); c.label(kind == 0 ? "limit" : kind == 1 ? "bits" : what);
}
